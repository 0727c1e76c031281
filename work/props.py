"""Writes /verif/properties.jsonl (run by hand; not used by any check)."""
import json
S = 'src/nagini_translation/'
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': [S + f for f in files], 'mechanism': [{'name': n, 'where': S + w} for n, w in mech]}})


NOVIPER = ('The functional tests need a Viper backend and only sample a few hundred programs; here none of them can run, '
           'and the 9 stable tests do not touch this code. ')

prop('C01', 'Integer, boolean and numeric operators mean what Python means',
     'The built-in model of int, bool and numeric operations that every verified program is checked against gives, for all operands, '
     'exactly the value Python computes (sign of division and modulo, bitwise operations and shifts of negative numbers, comparison, '
     'truthiness, power, abs, min, max, sum), and permits an operation only where Python does not raise.',
     ['inputs'], 'for all integer, boolean and object operands, and every configured bitwise-operation width',
     NOVIPER + 'A wrong axiom for one sign or width makes Nagini prove false facts about all programs; no sample of operands settles it.',
     ['resources/bool.sil', 'resources/float.sil', 'resources/intbv.sil', 'main.py'],
     [('prelude functions for int/bool', 'resources/bool.sil'), ('bit-vector domain generation', 'main.py:generate_bitvector_domain / load_sil_files')])
prop('C02', 'Sequence types (list, tuple, str, bytes, range, slice) match Python',
     'The built-in model of lists, tuples, strings, bytes, bytearrays, ranges, slices and the ghost sequences agrees with Python for all '
     'contents, lengths and indices: length, indexing with negative indices, slicing, membership, concatenation, repetition, equality and '
     'mutation. Every mutating operation demands full permission to the contents, returns no more permission than it took, and is only '
     'permitted where Python does not raise.',
     ['inputs'], 'for all element values, lengths, indices, slices and heaps',
     NOVIPER + 'Index arithmetic errors show only for particular lengths and signs.',
     ['resources/list.sil', 'resources/tuple.sil', 'resources/str.sil', 'resources/bytes.sil', 'resources/bytearray.sil',
      'resources/byteseq.sil', 'resources/seq.sil', 'resources/range.sil', 'resources/slice.sil'],
     [('prelude contracts of sequence classes', 'resources/list.sil, tuple.sil, str.sil, bytes.sil, bytearray.sil, seq.sil, range.sil, slice.sil')])
prop('C03', 'Sets, dicts, ghost sets/multisets and iterators match Python',
     'The built-in model of sets, dicts, ghost sets and multisets, and iterators agrees with Python for all contents: membership, size, '
     'lookup, insertion, removal, union, difference, and an iterator yielding each element of its container exactly once in order and '
     'stopping after the last. Mutation demands full permission and is only permitted where Python does not raise.',
     ['inputs', 'histories'], 'for all contents, keys, element values and iteration states',
     NOVIPER + 'The contracts quantify over all keys and all iteration prefixes.',
     ['resources/set_dict.sil', 'resources/pset.sil', 'resources/iterator.sil'],
     [('prelude contracts of collections and iterators', 'resources/set_dict.sil, pset.sil, iterator.sil')])
prop('C04', 'Translated expressions have the value Python gives them',
     'For every supported expression form (arithmetic, comparison, boolean operators with short-circuit evaluation and operand results, '
     'conditional expressions, indexing and slicing, attribute access, literals, isinstance, calls of pure functions and built-ins), the '
     'generated Viper code evaluates to the value Python computes, for all values of the variables, and performs the same checks that '
     'Python would fail on.',
     ['programs', 'inputs'], 'for every expression built from the supported forms and all values of its free variables and heap',
     NOVIPER + 'The value must agree for all operand values and operand types, not for sampled ones.',
     ['translators/expression.py', 'translators/call.py', 'translators/common.py', 'translators/pure.py'],
     [('expression translation', 'translators/expression.py'), ('operator and coercion helpers', 'translators/common.py'),
      ('built-in calls', 'translators/call.py'), ('pure function bodies', 'translators/pure.py')])
prop('C05', 'Translated statements follow Python control flow and state',
     'The generated Viper method takes the same path, ends with the same variable, heap and return values, and propagates the same '
     'exceptions as the Python function, for all inputs: assignment (multiple targets, tuple unpacking, augmented), if, while and for '
     'loops with break, continue and else, return, raise, assert, and try with except, else and finally.',
     ['programs', 'inputs', 'histories'], 'for every function built from the supported statements, all inputs and all loop iterations',
     NOVIPER + 'Interactions of finally with return/break/continue and of loop else clauses span all paths.',
     ['translators/statement.py', 'translators/method.py', 'translators/common.py'],
     [('statement translation', 'translators/statement.py'), ('method bodies, handlers and finally blocks', 'translators/method.py')])
prop('C06', 'Every contract written in the program is enforced, and nothing else assumed',
     'Each precondition is assumed at entry and checked at every call, each postcondition and exceptional postcondition is checked at every '
     'exit of its kind and assumed after a call, each loop invariant is checked on entry and after each iteration and is all that is known '
     'inside, and each assertion is checked. Exceptions that are not declared make verification fail, and old-expressions refer to '
     'the entry state.',
     ['programs', 'inputs'], 'for every function, method, constructor and loop and all states that reach them',
     NOVIPER + 'A dropped or weakened check is invisible on programs that verify anyway.',
     ['translators/contract.py', 'translators/method.py', 'translators/call.py', 'translators/statement.py'],
     [('contract functions', 'translators/contract.py'), ('pre- and postconditions', 'translators/method.py'), ('call sites', 'translators/call.py')])
prop('C07', 'Permissions and predicates are demanded and transferred exactly as written',
     'A field, list, set or dict access verifies only with the permission the contracts grant: accessibility assertions become exactly the '
     'stated amount to exactly the stated location, conditional on exactly the stated guard, reading needs a positive amount and writing '
     'needs all of it. Predicates stand for exactly their body, folding and unfolding exchange one for the other, and quantified '
     'and conditional assertions mean what they say.',
     ['programs', 'inputs'], 'for all permission amounts, receivers, guards and aliasing patterns',
     NOVIPER + 'Permission amounts matter in combination with aliasing that tests do not enumerate.',
     ['translators/contract.py', 'translators/permission.py', 'translators/predicate.py', 'translators/expression.py'],
     [('accessibility and predicate assertions', 'translators/contract.py, permission.py, predicate.py')])
prop('C08', 'Class types and the subtype relation mirror the Python class hierarchy',
     'In the generated type model, an instance of a class is an instance of exactly that class and its ancestors (including object and, '
     'for generic classes, with its type arguments), distinct unrelated classes are never identified, and isinstance, parameter '
     'types and constructor results say the same as Python.',
     ['programs', 'inputs'], 'for every class hierarchy, including generic and nested types',
     NOVIPER + 'A wrong subtype fact affects every hierarchy with the same shape, not those in a sample.',
     ['translators/type_domain_factory.py', 'translators/type.py', 'resources/pytype.sil'],
     [('type domain', 'translators/type_domain_factory.py'), ('type checks', 'translators/type.py')])
prop('C09', 'Overriding methods must honour the contracts of what they override',
     'Whenever a method overrides another, or a method is inherited, the generated program contains a check that succeeds only if the '
     'overriding contract accepts everything the overridden one accepts and guarantees everything it guarantees, including exceptions and '
     'parameter defaults; calls through a static type therefore stay valid for every dynamic type.',
     ['programs'], 'for every pair of overridden and overriding method and all arguments',
     NOVIPER + 'The check must be generated for every shape of override.',
     ['translators/program.py', 'analyzer.py'],
     [('override checks', 'translators/program.py')])
prop('C10', 'Every verification failure is reported at its source position with its reason',
     'Each failure the backend reports becomes exactly one reported error whose position, reason text and identifiers belong to the Python '
     'construct that caused it, in the documented format, for every kind of failure and reason and for missing positions or reasons; a failure is never '
     'dropped or turned into success, and failures with different messages or places are never merged.',
     ['inputs', 'fault_sequences'], 'for all sequences of backend errors, error kinds, reasons, offending nodes and positions',
     'The stable tests only convert a fixed set of already-built diagnostics; error conversion needs a backend and is never run.',
     ['lib/errors/manager.py', 'lib/errors/wrappers.py', 'lib/errors/rules.py', 'lib/errors/messages.py', 'verifier.py'],
     [('error conversion', 'lib/errors/manager.py, wrappers.py, rules.py, messages.py')])
prop('C11', 'The verdict is success only if the backend reported success',
     'A file is reported as verified, by every front end and in every exit status, exactly when translation succeeded and the backend '
     'reported success with no errors. Translation errors, type errors, unsupported features, backend failures and crashes all lead to a '
     'reported failure, also when the same process is reused for several files or partial-program selection is in effect.',
     ['fault_sequences', 'histories', 'configurations'], 'for all outcomes of each stage, all sequences of requests and all options',
     'Producing every failure at every stage needs backends the tests skip.',
     ['main.py', 'verifier.py', 'service.py', 'viper_server.py', 'client.py', 'mcp_server.py'],
     [('verdict plumbing', 'main.py, verifier.py, service.py, viper_server.py')])
prop('C12', 'Requests to a shared verification service do not influence each other',
     'Options given for one request (or as service defaults) apply to that request alone: omitted options take the configured defaults, '
     'explicit values override them, unknown ones are ignored, and after a request, also a failed one, the service behaves as if it had not happened.',
     ['histories', 'configurations'], 'for all sequences of requests and all combinations of options',
     'Tests try a few option combinations once each, never sequences with failures.',
     ['service.py', 'lsp_server.py', 'mcp_server.py', 'lib/config.py'],
     [('option merging and process-wide configuration', 'service.py, lib/config.py')])
prop('C13', 'Editor diagnostics point at the right place in valid protocol coordinates',
     'Every diagnostic and function listing handed to an editor or agent has zero-based, in-order, non-negative positions that denote the '
     'construct reported by the verifier, whatever positions the verifier reports (including missing or malformed ones), and the word under '
     'a cursor is the one the editor shows.',
     ['inputs'], 'for all diagnostics, source texts and cursor positions',
     'Tests convert three hand-written diagnostics.',
     ['lsp_server.py', 'mcp_server.py', 'service.py'],
     [('diagnostic conversion', 'lsp_server.py:to_lsp_diagnostic'), ('function listing', 'service.py')])
prop('C14', 'Contract functions do nothing when the program is run',
     'Running a program with the contracts library under CPython behaves as if the contracts were absent: every specification function '
     'returns its value argument unchanged or nothing, never raises, does not evaluate or inspect its arguments and has no side effects; '
     'decorators return what they wrap unchanged; the contract classes (Lock, Thread stand-ins, predicates, IO operations) can be used as written.',
     ['inputs', 'programs'], 'for all arguments of all contract functions',
     'No stable test runs a contract function.',
     ['../nagini_contracts/contracts.py', '../nagini_contracts/obligations.py', '../nagini_contracts/io_contracts.py',
      '../nagini_contracts/lock.py', '../nagini_contracts/thread.py'],
     [('contract functions', '../nagini_contracts/contracts.py')])
prop('C15', 'Distinct program entities get distinct Viper names',
     'Any two different variables, fields, methods, functions, classes, predicates or modules of a program get different Viper names, also '
     'within one scope, and for everything declared globally across modules, name shadowing and names that clash with the built-in model or Viper keywords, and all uses of one '
     'entity use the same name.',
     ['programs', 'histories'], 'for all sets of Python identifiers, qualified names and orders of declaration',
     'Collisions need particular combinations of names.',
     ['lib/program_nodes.py', 'lib/util.py', 'lib/context.py'],
     [('fresh names', 'lib/program_nodes.py:PythonScope / get_fresh_name')])
prop('C16', 'Promised obligations (termination, release) are tracked to discharge',
     'A function that promises to terminate verifies only if every loop and call in it decreases the stated measure, bounded below; an '
     'obligation to release a lock or finish can be discharged only by performing it or handing it to a callee or caller that promises it; and leaking '
     'one at a return, in a loop or at a call makes verification fail.',
     ['programs', 'inputs'], 'for all measures, loops, recursion and call structures',
     NOVIPER + 'Leaks depend on paths and on how measures compare for all values.',
     ['translators/obligation', 'lib/obligation_context.py', 'resources/measures.sil', 'resources/lock.sil'],
     [('obligation translation', 'translators/obligation/')])
prop('C17', 'Counterexamples shown to the user reproduce the values of the failing state',
     'When a counterexample is requested, each variable, field and collection shown has the value it has in the backend model of the '
     'failing state: integers with sign, booleans, None, references with their fields, and the contents of sequences, sets and '
     'dicts; unknown parts are shown as unknown rather than made up.',
     ['inputs'], 'for all models a backend can return',
     'Models come only from a backend; none is available to the tests.',
     ['models/converter.py', 'models/extractor.py'],
     [('model conversion', 'models/converter.py, extractor.py')])
prop('C18', 'Ghost code cannot influence the real program',
     'Code marked as ghost is accepted only if removing it leaves the results, control flow and heap of the regular program unchanged: no '
     'regular variable, field, return value, branch, call or termination may depend on ghost state.',
     ['programs'], 'for all programs with ghost annotations',
     NOVIPER + 'Information flow from ghost to regular state must be excluded for all statement and expression forms.',
     ['ghost/ghost_checker.py', 'ghost/extraction.py'],
     [('ghost checks', 'ghost/ghost_checker.py')])
prop('C19', 'Partial verification checks all that was selected and assumes only contracts',
     'Selecting functions, methods or classes verifies the full body of everything selected and never skips one that matches; code that is '
     'not selected contributes only its contract, and an unknown selection is not reported as verified work.',
     ['programs', 'configurations'], 'for all selections and all programs',
     'Tests select once from one file.',
     ['main.py', 'analyzer.py', 'translators/program.py', 'translators/method.py'],
     [('selection', 'translators/program.py, lib/config.py')])
prop('C20', 'Secure information flow mode proves non-interference',
     'With secure information flow enabled, a program verifies only if low outputs and low events depend on low data alone: two executions '
     'with equal low inputs agree on everything declared low, including control flow at low events and termination where promised.',
     ['programs', 'inputs'], 'for all pairs of executions with equal low inputs',
     NOVIPER + 'It is a property of pairs of executions.',
     ['sif', 'sif_translator.py'],
     [('product construction', 'sif/')])
prop('C21', 'Locks and threads: shared state is accessed only under its protection',
     'Invariants of a lock are given up exactly on release and obtained exactly on acquire, forked threads take exactly their precondition '
     'and joining yields exactly the postcondition once, for all interleavings; deadlock is excluded by the declared lock order.',
     ['schedules', 'programs'], 'for all interleavings, lock orders and thread structures',
     NOVIPER + 'Interleavings cannot be enumerated by tests.',
     ['translators/call.py', 'resources/lock.sil', 'translators/obligation'],
     [('thread start and join', 'translators/call.py'), ('lock model', 'resources/lock.sil')])
prop('C22', 'Terms handed to the backend are well formed and denote what was asked for',
     'Every Viper node built by the construction layer has exactly the children, order, types and positions its caller asked for: '
     'conjunctions keep all conjuncts, sequences all elements in order, optional parts are present exactly when given, big integers keep their value.',
     ['inputs'], 'for all argument lists, lengths and integer values',
     NOVIPER + 'Argument mix-ups in rarely used constructors only show for particular programs.',
     ['lib/viper_ast.py', 'lib/silver_nodes', 'lib/util.py'],
     [('AST construction', 'lib/viper_ast.py, lib/silver_nodes/')])
if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
