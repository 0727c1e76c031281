NA = {}
for _p, _n in (('C11', 'all outcomes of every stage and all options; server histories and error lists bounded'),
               ('C12', 'all option values; request histories bounded to two requests; one pre-emption at every line'),
               ('C10', 'all kinds of failure and reason; nesting of wrappers, vias and errors bounded'),
               ('C13', 'all positions (any integers) of all diagnostics; texts, documents and cursors bounded'),
               ('C15', 'naming functions: all texts (z3 strings), loops cut by invariants; whole programs: corpus under renamings and extensions, bounded'),
               ('C17', 'conversion functions: all model entries of bounded shape; whole counterexamples for a fixed corpus of states, bounded'),
               ('C19', 'selection decisions: all selections and names; whole programs: corpus, every name and sampled sets selected, bounded')):
    CL[_p] = ('contract', PX, 'proof', _n)

TV = ('contract-based deductive verification of the translation: for each corpus function, the contract "the generated Viper method does what the Python '
      'function does" is discharged for all parameter values by path-exhaustive symbolic execution of both, with z3; refutations are replayed concretely')
for _p, _n in (('C04', 'every supported expression form, in programs of the corpus; all values of the parameters; other programs are not looked at'),
               ('C05', 'control flow in programs of the corpus; all values of the parameters; loop counts fixed by the program'),
               ('C06', 'contracts in programs of the corpus, those that hold and those that do not; all values of the parameters'),
               ('C07', 'permissions, predicates, folding and framing in programs of the corpus; all values of the parameters'),
               ('C08', 'classes, constructors, inheritance, isinstance and type in programs of the corpus; subtype relation of its classes and unions derived from the emitted axioms'),
               ('C09', 'overriding in programs of the corpus, dynamic receivers run the override check; enumerated hierarchies for what must be refused')):
    CL[_p] = ('contract', TV, 'translation_validation', _n)
NA['C16'] = ('the promise is about every leak of an obligation along every run, including runs that do not end; the encoding is a proof rule over measures, '
             'wait levels and forperm leak checks whose soundness is a meta-theorem that no contract on the Python functions expresses, and the executor of translated '
             'programs follows terminating runs only')
NA['C18'] = ('non-interference of ghost code is a relational property over all programs the ghost checker accepts; the checker is a visitor over syntax trees, a contract '
             'would have to quantify over programs, and a list of programs with expected verdicts would be a test suite rather than this technique')
NA['C20'] = 'the product-program transformation that gives the mode its meaning is a Scala plug-in of Viper that is not in the sandbox; /repo only sets up its annotations'
NA['C21'] = ('needs a concurrent semantics (interleavings, fork and join, wait levels) as oracle; contracts over single activations, with a sequential execution semantics, '
             'cannot decide mutual exclusion')
