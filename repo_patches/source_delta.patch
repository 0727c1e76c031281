From 4a04e5a4a5bfef17a7a016fb33a630fe33d06e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 01/72] fix: tuples of seven to nine elements have that many
 elements, not six

---
 src/nagini_translation/resources/tuple.sil | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/resources/tuple.sil b/src/nagini_translation/resources/tuple.sil
index b6a646f..87a785a 100644
--- a/src/nagini_translation/resources/tuple.sil
+++ b/src/nagini_translation/resources/tuple.sil
@@ -107,7 +107,7 @@ function tuple___create7__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Re
     ensures issubtype(typeof(result), tuple(Seq(t0, t1, t2, t3, t4, t5, t6)))
     ensures tuple_args(typeof(result)) == Seq(typeof(arg0), typeof(arg1), typeof(arg2), typeof(arg3), typeof(arg4), typeof(arg5), typeof(arg6))
     ensures tuple___val__(result) == Seq(arg0, arg1, arg2, arg3, arg4, arg5, arg6)
-    ensures tuple___len__(result) == 6 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6
+    ensures tuple___len__(result) == 7 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6
 
 function tuple___create8__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Ref, arg5: Ref, arg6: Ref, arg7: Ref, t0: PyType, t1: PyType, t2: PyType, t3: PyType, t4: PyType, t5: PyType, t6: PyType, t7: PyType, ctr: Int): Ref
     decreases _
@@ -124,7 +124,7 @@ function tuple___create8__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Re
     ensures issubtype(typeof(result), tuple(Seq(t0, t1, t2, t3, t4, t5, t6, t7)))
     ensures tuple_args(typeof(result)) == Seq(typeof(arg0), typeof(arg1), typeof(arg2), typeof(arg3), typeof(arg4), typeof(arg5), typeof(arg6), typeof(arg7))
     ensures tuple___val__(result) == Seq(arg0, arg1, arg2, arg3, arg4, arg5, arg6, arg7)
-    ensures tuple___len__(result) == 6 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6 && tuple___getitem__(result, 7) == arg7
+    ensures tuple___len__(result) == 8 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6 && tuple___getitem__(result, 7) == arg7
 
 function tuple___create9__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Ref, arg5: Ref, arg6: Ref, arg7: Ref, arg8: Ref, t0: PyType, t1: PyType, t2: PyType, t3: PyType, t4: PyType, t5: PyType, t6: PyType, t7: PyType, t8: PyType, ctr: Int): Ref
     decreases _
@@ -142,7 +142,7 @@ function tuple___create9__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Re
     ensures issubtype(typeof(result), tuple(Seq(t0, t1, t2, t3, t4, t5, t6, t7, t8)))
     ensures tuple_args(typeof(result)) == Seq(typeof(arg0), typeof(arg1), typeof(arg2), typeof(arg3), typeof(arg4), typeof(arg5), typeof(arg6), typeof(arg7), typeof(arg8))
     ensures tuple___val__(result) == Seq(arg0, arg1, arg2, arg3, arg4, arg5, arg6, arg7, arg8)
-    ensures tuple___len__(result) == 6 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6 && tuple___getitem__(result, 7) == arg7 && tuple___getitem__(result, 8) == arg8
+    ensures tuple___len__(result) == 9 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6 && tuple___getitem__(result, 7) == arg7 && tuple___getitem__(result, 8) == arg8
 
 function tuple___sil_seq__(self: Ref): Seq[Ref]
     decreases _
-- 
2.43.0


From 1b0835c32411e18bbc686ccfb8bbe603bc6d15a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 02/72] fix: floor division and modulo by a negative divisor

---
 src/nagini_translation/resources/bool.sil | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index bd4737b..bf468d3 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -425,7 +425,8 @@ function int___floordiv__(self: Int, other: Int): Int
     decreases _
     requires @error("Divisor may be zero.")(other != 0)
 {
-    self \ other
+    // Python rounds towards negative infinity, Viper's division is Euclidean.
+    other > 0 ? self \ other : (-self) \ (-other)
 }
 
 function int___truediv__(self: Int, other: Int): Ref
@@ -438,7 +439,8 @@ function int___mod__(self: Int, other: Int): Int
     decreases _
     requires other != 0
 {
-    self % other
+    // In Python the result has the sign of the divisor.
+    other > 0 ? self % other : -((-self) % (-other))
 }
 
 function int___pos__(self: Ref): Ref
-- 
2.43.0


From 609dbebd3bde61938a26f99183c3215dcbe4b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 03/72] fix: unary plus and int() of a bool yield an int

---
 src/nagini_translation/resources/bool.sil | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index bf468d3..634c9d5 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -446,7 +446,7 @@ function int___mod__(self: Int, other: Int): Int
 function int___pos__(self: Ref): Ref
     decreases _
     requires issubtype(typeof(self), int())
-    ensures result == self
+    ensures result == __prim__int___box__(int___unbox__(self))
 
 function int___neg__(self: Ref): Ref
     decreases _
@@ -461,7 +461,7 @@ function int___invert__(self: Ref): Ref
 function int___int__(self: Ref): Ref
     decreases _
     requires issubtype(typeof(self), int())
-    ensures result == self
+    ensures result == __prim__int___box__(int___unbox__(self))
 
 function int___byte_bounds__(value: Int): Bool
     decreases _
-- 
2.43.0


From db191e867a182fdfefa47c9378ca22e340d0170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 04/72] fix: a slice whose end precedes its start is empty, it
 has no negative length

---
 src/nagini_translation/resources/bytes.sil | 2 +-
 src/nagini_translation/resources/range.sil | 2 +-
 src/nagini_translation/resources/tuple.sil | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/resources/bytes.sil b/src/nagini_translation/resources/bytes.sil
index 89ee78d..bd889e9 100644
--- a/src/nagini_translation/resources/bytes.sil
+++ b/src/nagini_translation/resources/bytes.sil
@@ -106,5 +106,5 @@ function bytes___getitem_slice__(self: Ref, index: Ref): Ref
     requires (slice___start__(index, bytes___len__(self)) >= 0 && slice___start__(index, bytes___len__(self)) <= bytes___len__(self))
     requires (slice___stop__(index, bytes___len__(self)) >= 0 && slice___stop__(index, bytes___len__(self)) <= bytes___len__(self))
     ensures issubtype(typeof(result), bytes())
-    ensures bytes___len__(result) == (slice___stop__(index, bytes___len__(self)) - slice___start__(index, bytes___len__(self)))
+    ensures bytes___len__(result) == (slice___stop__(index, bytes___len__(self)) > slice___start__(index, bytes___len__(self)) ? slice___stop__(index, bytes___len__(self)) - slice___start__(index, bytes___len__(self)) : 0)
     ensures bytes___val__(result) == bytes___val__(self)[slice___start__(index, bytes___len__(self))..slice___stop__(index, bytes___len__(self))]
\ No newline at end of file
diff --git a/src/nagini_translation/resources/range.sil b/src/nagini_translation/resources/range.sil
index 8089c6e..6673f7a 100644
--- a/src/nagini_translation/resources/range.sil
+++ b/src/nagini_translation/resources/range.sil
@@ -59,7 +59,7 @@ function range___getitem_slice__(self: Ref, index: Ref): Ref
   requires (slice___start__(index, range___len__(self)) >= 0 && slice___start__(index, range___len__(self)) <= range___len__(self))
   requires (slice___stop__(index, range___len__(self)) >= 0 && slice___stop__(index, range___len__(self)) <= range___len__(self))
   ensures issubtype(typeof(result), range_0())
-  ensures range___len__(result) == (slice___stop__(index, range___len__(self)) - slice___start__(index, range___len__(self)))
+  ensures range___len__(result) == (slice___stop__(index, range___len__(self)) > slice___start__(index, range___len__(self)) ? slice___stop__(index, range___len__(self)) - slice___start__(index, range___len__(self)) : 0)
   ensures range___val__(result) == range___val__(self)[slice___start__(index, range___len__(self))..slice___stop__(index, range___len__(self))]
 
 
diff --git a/src/nagini_translation/resources/tuple.sil b/src/nagini_translation/resources/tuple.sil
index 87a785a..17dcf9e 100644
--- a/src/nagini_translation/resources/tuple.sil
+++ b/src/nagini_translation/resources/tuple.sil
@@ -170,7 +170,7 @@ function tuple___getitem_slice__(self: Ref, key: Ref): Ref
     requires @error("Slice end index may be out of bounds.")(slice___stop__(key, tuple___len__(self)) >= 0 && slice___stop__(key, tuple___len__(self)) <= tuple___len__(self))
     ensures typeof(result) == tuple(tuple_args(typeof(self))[slice___start__(key, tuple___len__(self))..slice___stop__(key, tuple___len__(self))])
     ensures forall i: Int :: {tuple_arg(typeof(result), i)} (i >= 0 && i < (slice___stop__(key, tuple___len__(self)) - slice___start__(key, tuple___len__(self)))) ==> tuple_arg(typeof(result), i) == tuple_arg(typeof(self), i + slice___start__(key, tuple___len__(self)))
-    ensures tuple___len__(result) == (slice___stop__(key, tuple___len__(self)) - slice___start__(key, tuple___len__(self)))
+    ensures tuple___len__(result) == (slice___stop__(key, tuple___len__(self)) > slice___start__(key, tuple___len__(self)) ? slice___stop__(key, tuple___len__(self)) - slice___start__(key, tuple___len__(self)) : 0)
     ensures tuple___val__(result) == tuple___val__(self)[slice___start__(key, tuple___len__(self))..slice___stop__(key, tuple___len__(self))]
 
 function tuple___contains__(self: Ref, item: Ref): Bool
-- 
2.43.0


From cdf7170009db300ba5f0574bcebd60de17564ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 05/72] fix: PByteSeq.update requires a byte value instead of
 assuming it

---
 src/nagini_translation/resources/byteseq.sil | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/resources/byteseq.sil b/src/nagini_translation/resources/byteseq.sil
index 0dd6568..088a4fb 100644
--- a/src/nagini_translation/resources/byteseq.sil
+++ b/src/nagini_translation/resources/byteseq.sil
@@ -57,7 +57,7 @@ function PByteSeq_update(self: Ref, index: Int, val: Int): Ref
     decreases _
     requires issubtype(typeof(self), PByteSeq())
     requires index >= 0 && index < PByteSeq___len__(self)
-    ensures int___byte_bounds__(val)
+    requires @error("Provided value may be out of bounds.")int___byte_bounds__(val)
     ensures result == PByteSeq___create__(PByteSeq___val__(self)[index := val])
 
 function PByteSeq___add__(self: Ref, other: Ref): Ref
-- 
2.43.0


From b607441d4643f84f952cf361b72758472af3e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 06/72] fix: bytearray(n) requires a non-negative length

---
 src/nagini_translation/resources/bytearray.sil | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nagini_translation/resources/bytearray.sil b/src/nagini_translation/resources/bytearray.sil
index 98ed1ae..42f17ca 100644
--- a/src/nagini_translation/resources/bytearray.sil
+++ b/src/nagini_translation/resources/bytearray.sil
@@ -16,6 +16,7 @@ method bytearray___init__() returns (res: Ref)
 
 method bytearray___initFromInt__(length: Ref) returns (res: Ref)
     requires issubtype(typeof(length), int())
+    requires @error("Length of bytearray may be negative.")(int___unbox__(length) >= 0)
     ensures typeof(res) == bytearray()
     ensures acc(res.bytearray_acc)
     ensures |res.bytearray_acc| == int___unbox__(length)
-- 
2.43.0


From 4d6a59e8014a5d0db7702846416a90108a786621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 07/72] fix: a bool can be equal to a float

---
 src/nagini_translation/resources/bool.sil | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index 634c9d5..48d26eb 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -330,7 +330,7 @@ function int___eq__(self: Ref, other: Ref): Bool
 function bool___eq__(self: Ref, other: Ref): Bool
     decreases _
     requires issubtype(typeof(self), bool())
-    ensures !issubtype(typeof(other), int()) ==> !result
+    ensures !issubtype(typeof(other), float()) ==> !result
     ensures issubtype(typeof(other), bool()) ==> result == bool___unbox__(self) == bool___unbox__(other)
     ensures issubtype(typeof(other), int()) && !issubtype(typeof(other), bool()) ==> result == int___unbox__(self) == int___unbox__(other)
     ensures result == object___eq__(self, other)
-- 
2.43.0


From d35a4bcfc19667ca60a2b3ed8d9f08cac9b2b8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 08/72] fix: converting a sequence to integers does not invent
 int elements

---
 src/nagini_translation/resources/bool.sil | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index 48d26eb..b4543f5 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -552,8 +552,8 @@ function __seq_ref_to_seq_int(sr: Seq[Ref]): Seq[Int]
     ensures sr == Seq() ==> result == Seq()
     ensures forall r: Ref :: {__seq_ref_to_seq_int(Seq(r))} issubtype(typeof(r), int()) ==> __seq_ref_to_seq_int(Seq(r)) == Seq(int___unbox__(r))
     ensures forall sr1: Seq[Ref], sr2: Seq[Ref] :: {__seq_ref_to_seq_int(sr1 ++ sr2)} __seq_ref_to_seq_int(sr1 ++ sr2) == __seq_ref_to_seq_int(sr1) ++ __seq_ref_to_seq_int(sr2)
-    ensures forall i: Int :: {(i in result)} (i in result) ==> (exists j: Int :: 0 <= j < |sr| && typeof(sr[j]) == int() && i == int___unbox__(sr[j]) && sr[j] == __prim__int___box__(i) && (sr[j] in sr))
-    ensures forall i: Int :: {(i in result)} (i in result) ==> (exists j: Int :: 0 <= j && j < |sr| && issubtype(typeof(sr[j]), int()) && i == int___unbox__(sr[j]) && (sr[j] in sr))
+    ensures forall i: Int :: {(i in result)} (i in result) && (forall r: Ref :: {r in sr} (r in sr) ==> typeof(r) == int()) ==> (exists j: Int :: 0 <= j < |sr| && typeof(sr[j]) == int() && i == int___unbox__(sr[j]) && sr[j] == __prim__int___box__(i) && (sr[j] in sr))
+    ensures forall i: Int :: {(i in result)} (i in result) && (forall r: Ref :: {r in sr} (r in sr) ==> issubtype(typeof(r), int())) ==> (exists j: Int :: 0 <= j && j < |sr| && issubtype(typeof(sr[j]), int()) && i == int___unbox__(sr[j]) && (sr[j] in sr))
     decreases _
 
 
-- 
2.43.0


From a5c60f6d5ffdab359076bda9f7d247b66f09bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 09/72] fix: shifts by more than 64 bits neither truncate nor
 round towards zero

---
 src/nagini_translation/resources/bool.sil | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index b4543f5..e125e7e 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -160,8 +160,7 @@ function __prim__int___lshift__(self: Int, other: Int): Int
     requires @error("Bitwise operations on ints can only be performed in the range set by the --int-bitops-size setting (default: 8 bits).")(other <= _INT_MAX)
 {
     0 <= other <= 64 ? self * __shift_factor64(other) :
-    self >= 0 ? fromBVInt(shlBVInt(toBVInt(self), toBVInt(other))) :
-    -fromBVInt(shlBVInt(toBVInt(-self), toBVInt(other))) 
+    self * int___pow_unrolled__(2, other)
 }
 
 function __prim__int___rlshift__(self: Int, other: Int): Int
@@ -209,7 +208,7 @@ function __prim__int___rshift__(self: Int, other: Int): Int
     
     0 <= other <= 64 ? self / __shift_factor64(other) :
     self >= 0 ? fromBVInt(shrBVInt(toBVInt(self), toBVInt(other))) :
-    -fromBVInt(shrBVInt(toBVInt(-self), toBVInt(other)))
+    -1 - fromBVInt(shrBVInt(toBVInt(-1 - self), toBVInt(other)))
 }
 
 function __prim__int___rrshift__(self: Int, other: Int): Int
-- 
2.43.0


From 355d7948656784a73a045f3f8ac634e7e78c86c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 10/72] fix: bitwise operations on negative integers

---
 src/nagini_translation/main.py             |  2 +-
 src/nagini_translation/resources/bool.sil  | 13 ++++++++++---
 src/nagini_translation/resources/intbv.sil |  2 +-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index f4b46ad..6c88993 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -79,7 +79,7 @@ def parse_sil_file(sil_path: str, bv_path: str, bv_size: int, jvm, float_option:
     with open(bv_path, 'r') as file:
         int_min = -(2 ** (bv_size))
         int_max = 2 ** (bv_size) - 1
-        text += "\n" + file.read().replace("NBITS", str(bv_size)).replace("INT_MIN_VAL", str(int_min)).replace("INT_MAX_VAL", str(int_max))
+        text += "\n" + file.read().replace("NBITS", str(bv_size + 1)).replace("INT_MIN_VAL", str(int_min)).replace("INT_MAX_VAL", str(int_max))
     if float_option == "real":
         text = text.replace("float.sil", "float_real.sil")
     if float_option == "ieee32":
diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index e125e7e..f586085 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -38,6 +38,13 @@ function bool___xor__(self: Bool, other: Bool): Bool
     decreases _
 { self != other }
 
+function __signed_from_bv(bv: ___intbv): Int
+    decreases _
+{
+    // fromBVInt is unsigned, but the operands (and results) are in two's complement.
+    fromBVInt(bv) > _INT_MAX ? fromBVInt(bv) - 2 * (_INT_MAX + 1) : fromBVInt(bv)
+}
+
 function int___and__(self: Ref, other: Ref): Ref
     decreases _
     requires issubtype(typeof(self), int())
@@ -51,7 +58,7 @@ function int___and__(self: Ref, other: Ref): Ref
     ensures result ==
     ((issubtype(typeof(self), bool()) && issubtype(typeof(other), bool())) ?
         __prim__bool___box__(bool___unbox__(self) && bool___unbox__(other)) :
-        __prim__int___box__(fromBVInt(andBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
+        __prim__int___box__(__signed_from_bv(andBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
 
 function int___rand__(self: Ref, other: Ref): Ref
     decreases _
@@ -78,7 +85,7 @@ function int___or__(self: Ref, other: Ref): Ref
     ensures result ==
     ((issubtype(typeof(self), bool()) && issubtype(typeof(other), bool())) ?
         __prim__bool___box__(bool___unbox__(self) || bool___unbox__(other)) :
-        __prim__int___box__(fromBVInt(orBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
+        __prim__int___box__(__signed_from_bv(orBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
 
 function int___ror__(self: Ref, other: Ref): Ref
     decreases _
@@ -105,7 +112,7 @@ function int___xor__(self: Ref, other: Ref): Ref
     ensures result ==
     ((issubtype(typeof(self), bool()) && issubtype(typeof(other), bool())) ?
         __prim__bool___box__(bool___unbox__(self) != bool___unbox__(other)) :
-        __prim__int___box__(fromBVInt(xorBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
+        __prim__int___box__(__signed_from_bv(xorBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
 
 function int___rxor__(self: Ref, other: Ref): Ref
     decreases _
diff --git a/src/nagini_translation/resources/intbv.sil b/src/nagini_translation/resources/intbv.sil
index bcf626b..b6e6e03 100644
--- a/src/nagini_translation/resources/intbv.sil
+++ b/src/nagini_translation/resources/intbv.sil
@@ -5,7 +5,7 @@
  * file, You can obtain one at http://mozilla.org/MPL/2.0/.
  */
 
-// File template: NBITS is to be replaced by the number of bits, INT_MAX_VAL and INT_MIN_VAL by the actual values.
+// File template: NBITS is to be replaced by the number of bits (including the sign bit), INT_MAX_VAL and INT_MIN_VAL by the actual values.
 
 define _BITOPS_SIZE (NBITS)
 define _INT_MAX (INT_MAX_VAL)
-- 
2.43.0


From b558b87875a477fad7afc7edacfda062a4ed619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 11/72] fix: list.reverse reverses in place and returns None

---
 src/nagini_translation/resources/builtins.json |  2 +-
 src/nagini_translation/resources/list.sil      | 12 +++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/nagini_translation/resources/builtins.json b/src/nagini_translation/resources/builtins.json
index 670708f..176694d 100644
--- a/src/nagini_translation/resources/builtins.json
+++ b/src/nagini_translation/resources/builtins.json
@@ -58,7 +58,7 @@
         },
         "reverse": {
             "args": ["list"],
-            "type": "list",
+            "type": null,
             "MustTerminate": true
         },
         "copy": {
diff --git a/src/nagini_translation/resources/list.sil b/src/nagini_translation/resources/list.sil
index 063d550..a6e8397 100644
--- a/src/nagini_translation/resources/list.sil
+++ b/src/nagini_translation/resources/list.sil
@@ -126,14 +126,12 @@ method list___mul__(self: Ref, factor: Int) returns (res: Ref)
     ensures factor > 0 ==> (forall i: Int :: {res.list_acc[i]}
                             i >= 0 && i < |res.list_acc| ==> res.list_acc[i] == self.list_acc[i % |self.list_acc|])
 
-method list_reverse(self: Ref) returns (res: Ref)
+method list_reverse(self: Ref) returns ()
     requires issubtype(typeof(self), list(list_arg(typeof(self), 0)))
-    requires acc(self.list_acc, 1/100)
-    ensures issubtype(typeof(res), list(list_arg(typeof(self), 0)))
-    ensures acc(self.list_acc, 1/100)
-    ensures acc(res.list_acc)
-    ensures |res.list_acc| == |self.list_acc|
-    ensures forall i: Int :: {res.list_acc[i]} ((i >= 0 && i < |res.list_acc|) ==> (res.list_acc[i] == self.list_acc[|self.list_acc| - 1 - i]))
+    requires acc(self.list_acc)
+    ensures acc(self.list_acc)
+    ensures |self.list_acc| == old(|self.list_acc|)
+    ensures forall i: Int :: {self.list_acc[i]} ((i >= 0 && i < |self.list_acc|) ==> (self.list_acc[i] == old(self.list_acc[|self.list_acc| - 1 - i])))
 
 method list_copy(self: Ref) returns (res: Ref)
     requires issubtype(typeof(self), list(list_arg(typeof(self), 0)))
-- 
2.43.0


From 62398b935c8cbf375872a77c1b227a469eb0b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 12/72] fix: an empty str, bytes, tuple or range seen as an
 object is not truthy

---
 src/nagini_translation/resources/bool.sil | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index f586085..64b248f 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -14,7 +14,15 @@ function object___bool__(self: Ref) : Bool
                                                            !issubtype(t, list(list_arg(t, 0))) &&
                                                            !issubtype(t, set(set_arg(t, 0))) &&
                                                            !issubtype(t, dict(dict_arg(t, 0), dict_arg(t, 1))) &&
-                                                           !issubtype(t, bytearray())) ==> result))
+                                                           !issubtype(t, bytearray()) &&
+                                                           !issubtype(t, str()) &&
+                                                           !issubtype(t, bytes()) &&
+                                                           !issubtype(t, range_0()) &&
+                                                           !issubtype(t, tuple(tuple_args(t))) &&
+                                                           !issubtype(t, PSeq(PSeq_arg(t, 0))) &&
+                                                           !issubtype(t, PSet(PSet_arg(t, 0))) &&
+                                                           !issubtype(t, PMultiset(PMultiset_arg(t, 0))) &&
+                                                           !issubtype(t, PByteSeq())) ==> result))
 
 function NoneType___bool__(self: Ref) : Bool
     decreases _
-- 
2.43.0


From 28f3422f264cae80c7574167ae5772ee6c28ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:26 +0000
Subject: [PATCH 13/72] fix: calling Ensures when a program runs does nothing
 instead of raising NotImplementedError

---
 src/nagini_contracts/contracts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nagini_contracts/contracts.py b/src/nagini_contracts/contracts.py
index 5bbceee..0a18695 100644
--- a/src/nagini_contracts/contracts.py
+++ b/src/nagini_contracts/contracts.py
@@ -76,6 +76,10 @@ def Ensures(t: Type[T], expr: Callable[[T], bool]) -> bool:
     pass
 
 
+def Ensures(*args: Any, **kwargs: Any) -> bool:
+    pass
+
+
 def Exsures(exception: type, expr: bool) -> bool:
     pass
 
-- 
2.43.0


From 8d588537aacde2e92c243353e802f46abd23d831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:26 +0000
Subject: [PATCH 14/72] fix: lock levels can be compared when a program runs

---
 src/nagini_contracts/obligations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nagini_contracts/obligations.py b/src/nagini_contracts/obligations.py
index e8b9a7b..14bb884 100644
--- a/src/nagini_contracts/obligations.py
+++ b/src/nagini_contracts/obligations.py
@@ -35,10 +35,12 @@ class LevelType:
 
 def WaitLevel() -> LevelType:
     """The wait level of the current thread."""
+    return LevelType()
 
 
 def Level(l: Union[BaseLock, Thread]) -> LevelType:
     """Level of the given lock or thread."""
+    return LevelType()
 
 
 def MustRelease(lock: BaseLock, measure: int = None) -> bool:
-- 
2.43.0


From 9af1f9d3828e71dc6132ee2e80caeff7532a6431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:57 +0000
Subject: [PATCH 15/72] fix: strings with characters above 255 get ids of their
 own

---
 src/nagini_translation/lib/util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/lib/util.py b/src/nagini_translation/lib/util.py
index d13a0fd..b2ea80e 100644
--- a/src/nagini_translation/lib/util.py
+++ b/src/nagini_translation/lib/util.py
@@ -424,21 +424,25 @@ class SingletonFreshName:
         return self._fresh_name_dict[name]
 
 
+# Number of values ord() can have, so that different strings have different ints.
+STRING_BASE = 0x110000
+
+
 def string_to_int(string: str) -> int:
     """
     Computes an integer value that uniquely represents the given string.
     """
     result = 0
     for (index, char) in enumerate(string):
-        result += pow(256, index) * ord(char)
+        result += pow(STRING_BASE, index) * ord(char)
     return result
 
 
 def int_to_string(i: int) -> str:
     result = ''
     while i > 0:
-        result += chr(i % 256)
-        i = i // 256
+        result += chr(i % STRING_BASE)
+        i = i // STRING_BASE
     return result
 
 
-- 
2.43.0


From 9fd4c517e7e037c560baf1bae0b88969cd0d12d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:41 +0000
Subject: [PATCH 16/72] fix: an empty PByteSeq node can be translated

---
 src/nagini_translation/lib/silver_nodes/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/silver_nodes/types.py b/src/nagini_translation/lib/silver_nodes/types.py
index 92c69d2..4b682e8 100644
--- a/src/nagini_translation/lib/silver_nodes/types.py
+++ b/src/nagini_translation/lib/silver_nodes/types.py
@@ -175,7 +175,7 @@ class PByteSeq:
                   position: Position, info: Info) -> Expr:
         """Translate to Silver sequence."""
         if not self._elements:
-            return translator.viper.EmptySeq(self.viper.Int, position, info)
+            return translator.viper.EmptySeq(translator.viper.Int, position, info)
         else:
             elements = [element.translate(translator, ctx, position, info)
                         for element in self._elements]
-- 
2.43.0


From da36aec9a70740a7d2a2f22d80eb3bc823eac4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:41 +0000
Subject: [PATCH 17/72] fix: flatten_dict does not extend the lists it is given

---
 src/nagini_translation/lib/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/util.py b/src/nagini_translation/lib/util.py
index b2ea80e..9cd6256 100644
--- a/src/nagini_translation/lib/util.py
+++ b/src/nagini_translation/lib/util.py
@@ -42,7 +42,7 @@ def flatten_dict(dicts: List[Dict[T, List[V]]],
             if key in result:
                 result[key].extend(value)
             else:
-                result[key] = value
+                result[key] = list(value)
     return result
 
 
-- 
2.43.0


From b0a4abb1ca2e9ad3862b37e2179393b97f7b5656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:48 +0000
Subject: [PATCH 18/72] fix: a program without obligations does not disable
 obligation checks for the programs translated after it

---
 src/nagini_translation/lib/config.py |  5 ++++-
 src/nagini_translation/main.py       | 16 +++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/nagini_translation/lib/config.py b/src/nagini_translation/lib/config.py
index 81dc03d..ef28993 100644
--- a/src/nagini_translation/lib/config.py
+++ b/src/nagini_translation/lib/config.py
@@ -51,7 +51,10 @@ class ObligationConfig(SectionConfig):
     @disable_all.setter
     def disable_all(self, val):
         """Disable all obligation related checks."""
-        self._info['disable_all'] = str(val)
+        if val is None:
+            self._info.pop('disable_all', None)
+        else:
+            self._info['disable_all'] = str(val)
 
     @property
     def disable_measure_check(self):
diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index 6c88993..25bd467 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -161,9 +161,8 @@ def translate(path: str, jvm: JVM, bv_size: int, selected: Set[str] = set(), bas
     # Ghost statements are translated into terminating sections, which are
     # encoded using obligations.
     needs_obligations = analyzer.enable_obligations or ghost_checker.has_ghost_statements
-    if not needs_obligations and config.obligation_config.disable_all is None:
-        # only override the default, which is None; if the encoding is forced on or off, it'll be True or False
-        config.obligation_config.disable_all = True
+    # only override the default, which is None; if the encoding is forced on or off, it'll be True or False
+    override_obligations = not needs_obligations and config.obligation_config.disable_all is None
     if 'sil_programs' not in globals() or reload_resources:
         global sil_programs
         sil_programs = load_sil_files(jvm, bv_size, sif, float_encoding)
@@ -174,8 +173,15 @@ def translate(path: str, jvm: JVM, bv_size: int, selected: Set[str] = set(), bas
         as_text = ast.unparse(extr_prog)
         print(as_text)
 
-    prog = translator.translate_program(modules, sil_programs, selected,
-                                        arp=arp, ignore_global=ignore_global, sif=sif, float_encoding=float_encoding)
+    if override_obligations:
+        config.obligation_config.disable_all = True
+    try:
+        prog = translator.translate_program(modules, sil_programs, selected,
+                                            arp=arp, ignore_global=ignore_global, sif=sif, float_encoding=float_encoding)
+    finally:
+        if override_obligations:
+            # The next program translated by this process may use obligations.
+            config.obligation_config.disable_all = None
     if skip_verification:
         return modules, None
     if sif:
-- 
2.43.0


From f1659392a2edc0d3a722efdd8c92fec55a6887d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:48 +0000
Subject: [PATCH 19/72] fix: a crashing backend or request is reported as a
 failed verification

---
 src/nagini_translation/main.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index 25bd467..92ae9e7 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -495,8 +495,13 @@ def main() -> None:
             def add_response(part):
                 response[0] = response[0] + '\n' + part
 
-            translate_and_verify(file, jvm, args, add_response, arp=args.arp,
-                                  base_dir=args.base_dir, selected=selected)
+            try:
+                translate_and_verify(file, jvm, args, add_response, arp=args.arp,
+                                      base_dir=args.base_dir, selected=selected)
+            except Exception as e:
+                # Every request gets a response, and the server stays alive.
+                logging.exception('Request failed.')
+                add_response('Verification failed\nInternal error: {}'.format(e))
             socket.send_string(response[0])
     else:
         success = translate_and_verify(args.python_file, jvm, args, arp=args.arp, base_dir=args.base_dir)
@@ -549,9 +554,14 @@ def translate_and_verify(python_file, jvm, args, print=print, arp=False, base_di
         start = time.time()
         if selected is None:
             selected = set(args.select.split(',')) if args.select else set()
-        modules, prog = translate(python_file, jvm, args.int_bitops_size, selected=selected, sif=args.sif, base_dir=base_dir,
-                                  ignore_global=args.ignore_global, arp=arp, verbose=args.verbose, skip_verification=args.skip_verification,
-                                  extraction=args.extraction, counterexample=args.counterexample, float_encoding=args.float_encoding)
+        translated = translate(python_file, jvm, args.int_bitops_size, selected=selected, sif=args.sif, base_dir=base_dir,
+                               ignore_global=args.ignore_global, arp=arp, verbose=args.verbose, skip_verification=args.skip_verification,
+                               extraction=args.extraction, counterexample=args.counterexample, float_encoding=args.float_encoding)
+        if translated is None:
+            print("Translation failed")
+            print("Type checking failed.")
+            return False
+        modules, prog = translated
         if args.print_viper:
             if args.verbose:
                 print('Result:')
@@ -590,8 +600,12 @@ def translate_and_verify(python_file, jvm, args, print=print, arp=False, base_di
                              sif=args.sif, disable_branch_conditions=args.disable_branch_conditions)
             
             if submitter is not None:
-                submitter.setSuccess(vresult.__bool__())
+                submitter.setSuccess(bool(vresult))
                 submitter.submit()
+        if vresult is None:
+            # verify has printed the exception raised by the backend.
+            print("Verification failed\nInternal verifier error.")
+            return False
         if args.verbose:
             print("Verification completed.")
         print(vresult.to_string(args.ide_mode, args.show_viper_errors))
-- 
2.43.0


From a48d66a030a5580478b937c36d5f3ee5fc6342bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:48 +0000
Subject: [PATCH 20/72] fix: benchmark runs verify with the given options

---
 src/nagini_translation/main.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index 92ae9e7..0d3d930 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -581,8 +581,11 @@ def translate_and_verify(python_file, jvm, args, print=print, arp=False, base_di
             for i in range(args.benchmark):
                 start = time.time()
                 modules, prog = translate(python_file, jvm, args.int_bitops_size, selected=selected, sif=args.sif, arp=arp, base_dir=base_dir,
-                                          ignore_global=args.ignore_global, float_encoding=args.float_encoding)
-                vresult = verify(modules, prog, python_file, jvm, viper_args, backend=backend, arp=arp)
+                                          ignore_global=args.ignore_global, counterexample=args.counterexample,
+                                          float_encoding=args.float_encoding)
+                vresult = verify(modules, prog, python_file, jvm, viper_args,
+                                 backend=backend, arp=arp, counterexample=args.counterexample,
+                                 sif=args.sif, disable_branch_conditions=args.disable_branch_conditions)
                 end = time.time()
                 print("{}, {}, {}, {}, {}".format(
                     i, args.benchmark, start, end, end - start))
-- 
2.43.0


From 693e0ba6d57e39b32718cdc9d4e91bda81544c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 21/72] fix: a malformed request does not end the server

---
 src/nagini_translation/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index 0d3d930..eb1b447 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -489,13 +489,14 @@ def main() -> None:
         print('Server started successfully on ' + DEFAULT_SERVER_SOCKET, flush=True)
 
         while True:
-            file, selected = _parse_client_request(socket.recv_string())
+            request = socket.recv()
             response = ['']
 
             def add_response(part):
                 response[0] = response[0] + '\n' + part
 
             try:
+                file, selected = _parse_client_request(request.decode('utf-8'))
                 translate_and_verify(file, jvm, args, add_response, arp=args.arp,
                                       base_dir=args.base_dir, selected=selected)
             except Exception as e:
-- 
2.43.0


From c04fd22f2145c229694a0d8001e64df5790973f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 22/72] fix: negating a branch condition like (not a) == (not
 b) keeps it intact

---
 src/nagini_translation/lib/errors/manager.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/errors/manager.py b/src/nagini_translation/lib/errors/manager.py
index a6e4104..7c76458 100644
--- a/src/nagini_translation/lib/errors/manager.py
+++ b/src/nagini_translation/lib/errors/manager.py
@@ -8,6 +8,8 @@ file, You can obtain one at http://mozilla.org/MPL/2.0/.
 """Error handling state is stored in singleton ``manager``."""
 
 
+import ast
+
 from collections import namedtuple
 from uuid import uuid1
 
@@ -24,6 +26,21 @@ from nagini_translation.models.extractor import Extractor
 Item = namedtuple('Item', 'node vias reason_string py_node')
 
 
+def _is_negation(condition: str) -> bool:
+    """
+    Checks if the condition has the form ``(not c)``, unlike for example
+    ``(not a) == (not b)``.
+    """
+    if not (condition.startswith('(not ') and condition.endswith(')')):
+        return False
+    try:
+        expr = ast.parse(condition, mode='eval').body
+    except SyntaxError:
+        # Not a Python expression but a description.
+        return True
+    return isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.Not)
+
+
 class ErrorManager:
     """A singleton object that stores the state needed for error handling."""
 
@@ -160,7 +177,7 @@ class ErrorManager:
                     continue
                 condition = (bc_item.reason_string or pprint(bc_item.node))
                 if negated:
-                    if condition.startswith('(not ') and condition.endswith(')'):
+                    if _is_negation(condition):
                         condition = condition[5:-1]
                     else:
                         condition = '(not {0})'.format(condition)
-- 
2.43.0


From 7f3df60f9ad8d31ba6ab5ac5e2f869ca546b366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 23/72] fix: errors without a reason or position, e.g.
 timeouts, are reported instead of crashing

---
 src/nagini_translation/lib/errors/manager.py  |  4 ++-
 src/nagini_translation/lib/errors/wrappers.py | 31 ++++++++++++++-----
 src/nagini_translation/service.py             | 22 ++++++-------
 3 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/nagini_translation/lib/errors/manager.py b/src/nagini_translation/lib/errors/manager.py
index 7c76458..5c51e0f 100644
--- a/src/nagini_translation/lib/errors/manager.py
+++ b/src/nagini_translation/lib/errors/manager.py
@@ -133,7 +133,9 @@ class ErrorManager:
     def _convert_error(
             self, original_error: 'AbstractVerificationError',
             jvm: JVM, modules, sif) -> Error:
-        if 'Timeout' in original_error.getClass().getSimpleName():
+        if ('Timeout' in original_error.getClass().getSimpleName() or
+                not hasattr(original_error, 'transformedError')):
+            # Not about a specific node, e.g. the backend aborted.
             return Error(original_error, {}, None)
         error = self.transformError(original_error)
         viper_reason = error.reason() if hasattr(error, 'reason') else None
diff --git a/src/nagini_translation/lib/errors/wrappers.py b/src/nagini_translation/lib/errors/wrappers.py
index 892ab65..d08851d 100644
--- a/src/nagini_translation/lib/errors/wrappers.py
+++ b/src/nagini_translation/lib/errors/wrappers.py
@@ -47,34 +47,45 @@ class Position:
         else:
             self.node_id = None
 
+    @property
+    def is_known(self) -> bool:
+        """Whether this is a position in a file, unlike ``NoPosition``."""
+        return hasattr(self._position, 'file') and hasattr(self._position, 'line')
+
     @property
     def file_name(self) -> str:
         """Return ``file``."""
+        if not self.is_known:
+            return str(self._position)
         return self._position.file().toString()
 
     @property
     def line(self) -> int:
-        """Return ``start.line``."""
+        """Return ``start.line``, or the first line if there is no position."""
+        if not self.is_known:
+            return 1
         return self._position.line()
 
     @property
     def column(self) -> int:
-        """Return ``start.column``."""
+        """Return ``start.column``, or the first column if there is no position."""
+        if not self.is_known:
+            return 0
         return self._position.column()
 
     @property
     def line_end(self) -> int:
         """Return ``end.line``."""
-        if self._position.end().isDefined():
+        if self.is_known and self._position.end().isDefined():
             return self._position.end().get().line()
-        return self._position.line()
+        return self.line
 
     @property
     def column_end(self) -> int:
         """Return ``end.column``."""
-        if self._position.end().isDefined():
+        if self.is_known and self._position.end().isDefined():
             return self._position.end().get().column()
-        return self._position.column()
+        return self.column
 
     def __str__(self) -> str:
         return str(self._position)
@@ -166,6 +177,8 @@ class Error:
     @property
     def full_id(self) -> str:
         """Full error identifier."""
+        if self.reason is None:
+            return self.identifier
         return '{}:{}'.format(self.identifier, self.reason.identifier)
 
     @property
@@ -187,7 +200,7 @@ class Error:
     @property
     def position_string(self) -> str:
         """Full error position as a string."""
-        vias = self.reason.vias or self._vias or []
+        vias = (self.reason.vias if self.reason else None) or self._vias or []
         vias_string = ''.join(
             ', via {0} at {1}'.format(reason, pos)
             for reason, pos in vias)
@@ -200,7 +213,9 @@ class Error:
             return ERRORS[self.identifier](self._node)
         # If we don't have a node, fall back to the original Silver message,
         # it's better than nothing.
-        return self._error.text()
+        if hasattr(self._error, 'text'):
+            return self._error.text()
+        return self.string(False, False)
 
     def __str__(self) -> str:
         return self.string(False, False)
diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index cbafa6e..d5d1c38 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -463,23 +463,21 @@ class VerificationService:
         seen = set()
         for error in failure.errors:
             pos = error.position
-            try:
-                file_name = pos.file_name
-            except Exception:
-                file_name = path
-            vias = [(str(reason), str(p))
-                    for reason, p in (error.reason.vias or error._vias or [])]
-            try:
-                reason_pos = (error.reason.position.line, error.reason.position.column)
-            except Exception:
-                reason_pos = None
+            # Some errors have no reason (e.g. timeouts) or no position.
+            reason = error.reason
+            file_name = pos.file_name if pos.is_known else path
+            vias = [(str(via), str(p))
+                    for via, p in ((reason.vias if reason else None) or error._vias or [])]
+            reason_pos = None
+            if reason and reason.position.is_known:
+                reason_pos = (reason.position.line, reason.position.column)
             diag = Diagnostic(
                 file=file_name,
                 start_line=pos.line, start_col=pos.column,
                 end_line=pos.line_end, end_col=pos.column_end,
-                message=error.message,
+                message=error.message if reason else str(error),
                 code=error.full_id,
-                reason=error.reason.string(False),
+                reason=reason.string(False) if reason else None,
                 reason_position=reason_pos,
                 vias=vias,
                 counterexample=(str(error._inputs)
-- 
2.43.0


From 3de32bc0ad2b7549fb20d5eda941635dbeb4c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 24/72] fix: the service reports errors at the same position
 with different reasons

---
 src/nagini_translation/service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index d5d1c38..3d2546c 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -484,7 +484,8 @@ class VerificationService:
                                 if error._inputs is not None else None),
                 branch_conditions=list(error.bcs) if error.bcs else [],
             )
-            key = (diag.file, diag.start_line, diag.start_col, diag.code, diag.message)
+            key = (diag.file, diag.start_line, diag.start_col, diag.code, diag.message,
+                   diag.reason, diag.reason_position)
             if key not in seen:
                 seen.add(key)
                 diagnostics.append(diag)
-- 
2.43.0


From 0eaad60840e6bffcddfc529e9e2be3aab4ff14e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:04 +0000
Subject: [PATCH 25/72] fix: a failed reconfiguration leaves the options
 unchanged

---
 src/nagini_translation/service.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index 3d2546c..e97ecd9 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -300,6 +300,19 @@ class VerificationService:
             if options.get('viper_jar_path'):
                 logging.warning('viper_jar_path cannot be changed at runtime; '
                                 'ignoring.')
+            sif, bv_size, float_encoding = self._sif, self._bv_size, self._float_encoding
+            if options.get('sif') is not None:
+                sif = options['sif']
+            if options.get('int_bitops_size') is not None:
+                bv_size = options['int_bitops_size']
+            if 'float_encoding' in options:
+                float_encoding = options['float_encoding']
+            if (sif, bv_size, float_encoding) != (self._sif, self._bv_size, self._float_encoding):
+                import nagini_translation.main as main_module
+                main_module.sil_programs = load_sil_files(
+                    self.jvm, bv_size, sif, float_encoding)
+                # Only now: if the resources cannot be loaded, no option changes.
+                self._sif, self._bv_size, self._float_encoding = sif, bv_size, float_encoding
             if options.get('z3_path') is not None:
                 config.z3_path = options['z3_path']
             if options.get('boogie_path') is not None:
@@ -313,22 +326,6 @@ class VerificationService:
             if options.get('disable_branch_conditions') is not None:
                 self._disable_branch_conditions = bool(
                     options['disable_branch_conditions'])
-            reload_needed = False
-            if options.get('sif') is not None and options['sif'] != self._sif:
-                self._sif = options['sif']
-                reload_needed = True
-            if (options.get('int_bitops_size') is not None
-                    and options['int_bitops_size'] != self._bv_size):
-                self._bv_size = options['int_bitops_size']
-                reload_needed = True
-            if ('float_encoding' in options
-                    and options['float_encoding'] != self._float_encoding):
-                self._float_encoding = options['float_encoding']
-                reload_needed = True
-            if reload_needed:
-                import nagini_translation.main as main_module
-                main_module.sil_programs = load_sil_files(
-                    self.jvm, self._bv_size, self._sif, self._float_encoding)
         return self.current_options()
 
     # -- internals ----------------------------------------------------------
-- 
2.43.0


From 7259f9df5141c0c74684fa57fe7773694dd1d7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:04 +0000
Subject: [PATCH 26/72] fix: message of an error without text

---
 src/nagini_translation/lib/errors/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/errors/wrappers.py b/src/nagini_translation/lib/errors/wrappers.py
index d08851d..ec2251b 100644
--- a/src/nagini_translation/lib/errors/wrappers.py
+++ b/src/nagini_translation/lib/errors/wrappers.py
@@ -215,7 +215,7 @@ class Error:
         # it's better than nothing.
         if hasattr(self._error, 'text'):
             return self._error.text()
-        return self.string(False, False)
+        return self._error.readableMessage()
 
     def __str__(self) -> str:
         return self.string(False, False)
-- 
2.43.0


From e23ed0419b60b2a3d8fd93e3bd84397fff987feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:28 +0000
Subject: [PATCH 27/72] fix: a superseded verification does not overwrite the
 diagnostics of the newer one

---
 src/nagini_translation/lsp_server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/lsp_server.py b/src/nagini_translation/lsp_server.py
index a4905e6..b2e65bf 100644
--- a/src/nagini_translation/lsp_server.py
+++ b/src/nagini_translation/lsp_server.py
@@ -68,6 +68,7 @@ class NaginiLanguageServer(LanguageServer):
         self._executor = ThreadPoolExecutor(max_workers=4,
                                             thread_name_prefix='nagini-verify')
         self._last_diagnostics = {}  # uri -> List[Diagnostic]
+        self._current_runs = {}  # uri -> object identifying its newest run
 
     def apply_initialization_options(self, options) -> None:
         """Apply client-provided ``initializationOptions`` to the config.
@@ -101,6 +102,8 @@ class NaginiLanguageServer(LanguageServer):
         # documents keep verifying concurrently. The job token is the URI.
         if self.service is not None:
             self.service.cancel(job_token=uri)
+        run = object()
+        self._current_runs[uri] = run
         self.window_log_message(t.LogMessageParams(
             type=t.MessageType.Info, message='Nagini: verifying {}...'.format(path)))
         loop = asyncio.get_event_loop()
@@ -113,7 +116,7 @@ class NaginiLanguageServer(LanguageServer):
                 type=t.MessageType.Error,
                 message='Nagini: verification service unavailable (see log).'))
             return
-        if result.cancelled:
+        if result.cancelled or self._current_runs.get(uri) is not run:
             # Superseded by a newer run; keep the existing diagnostics.
             return
         self._last_diagnostics[uri] = result.diagnostics
-- 
2.43.0


From 999e4fa6ec12ffd13c6b3276f7aca5ec27197a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:28 +0000
Subject: [PATCH 28/72] fix: the range of an editor diagnostic does not end
 before it starts

---
 src/nagini_translation/lsp_server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nagini_translation/lsp_server.py b/src/nagini_translation/lsp_server.py
index b2e65bf..ab19515 100644
--- a/src/nagini_translation/lsp_server.py
+++ b/src/nagini_translation/lsp_server.py
@@ -151,6 +151,8 @@ def _to_lsp_diagnostic(d: Diagnostic, uri: str) -> t.Diagnostic:
     # in both.
     start = t.Position(line=max(d.start_line - 1, 0), character=max(d.start_col, 0))
     end = t.Position(line=max(d.end_line - 1, 0), character=max(d.end_col, 0))
+    if (end.line, end.character) < (start.line, start.character):
+        end = start
     message = d.message if not d.reason else '{} {}'.format(d.message, d.reason)
     related = None
     if d.reason_position is not None:
-- 
2.43.0


From 2d3b1903e9fe1422acdacea186a0b1812a923489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:28 +0000
Subject: [PATCH 29/72] fix: the word under the cursor is found in lines with
 form feeds or astral characters

---
 src/nagini_translation/lsp_server.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/lsp_server.py b/src/nagini_translation/lsp_server.py
index ab19515..25daa1c 100644
--- a/src/nagini_translation/lsp_server.py
+++ b/src/nagini_translation/lsp_server.py
@@ -20,6 +20,7 @@ import ast
 import asyncio
 import logging
 import os
+import re
 import sys
 import threading
 
@@ -238,16 +239,23 @@ def hover(ls: NaginiLanguageServer, params: t.HoverParams) -> Optional[t.Hover]:
     return None
 
 
+# Unlike str.splitlines, neither Python nor LSP end lines at e.g. form feeds.
+_LINE_END = re.compile(r'\r\n|\r|\n')
+
+
 _CONTRACT_FUNCS = ('Requires', 'Ensures', 'Decreases', 'Invariant')
 
 
 def _contract_hover(ls, uri, position) -> Optional[str]:
     doc = ls.workspace.get_text_document(uri)
     source = doc.source
-    lines = source.splitlines()
+    lines = _LINE_END.split(source)
     if position.line >= len(lines):
         return None
-    word = _word_at(lines[position.line], position.character)
+    line = lines[position.line]
+    # LSP characters are UTF-16 code units.
+    char = len(line.encode('utf-16-le')[:2 * position.character].decode('utf-16-le', 'ignore'))
+    word = _word_at(line, char)
     if not word:
         return None
     for name, node in _functions(source):
-- 
2.43.0


From 8de2c2c49e3baca30d4497af4d663d4740bd9964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:28 +0000
Subject: [PATCH 30/72] fix: editor diagnostics of imported files or after
 non-ASCII text are shown in the right place

---
 src/nagini_translation/lsp_server.py | 49 ++++++++++++++++++++++++----
 src/nagini_translation/service.py    |  2 +-
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/nagini_translation/lsp_server.py b/src/nagini_translation/lsp_server.py
index 25daa1c..76a6ef8 100644
--- a/src/nagini_translation/lsp_server.py
+++ b/src/nagini_translation/lsp_server.py
@@ -18,11 +18,13 @@ hover, progress notifications, and cancellation of superseded runs.
 import argparse
 import ast
 import asyncio
+import dataclasses
 import logging
 import os
 import re
 import sys
 import threading
+import tokenize
 
 from concurrent.futures import ThreadPoolExecutor
 from typing import List, Optional, Set
@@ -43,6 +45,10 @@ from nagini_translation.service import (
 VERIFY_METHOD_COMMAND = 'nagini.verifyMethod'
 
 
+# Unlike str.splitlines, neither Python nor LSP end lines at e.g. form feeds.
+_LINE_END = re.compile(r'\r\n|\r|\n')
+
+
 def merge_service_options(base: dict, options: dict) -> dict:
     """Return ``base`` service kwargs updated with recognized ``options``.
 
@@ -120,10 +126,11 @@ class NaginiLanguageServer(LanguageServer):
         if result.cancelled or self._current_runs.get(uri) is not run:
             # Superseded by a newer run; keep the existing diagnostics.
             return
-        self._last_diagnostics[uri] = result.diagnostics
+        diagnostics = _for_document(result.diagnostics, path)
+        self._last_diagnostics[uri] = diagnostics
         self.text_document_publish_diagnostics(t.PublishDiagnosticsParams(
             uri=uri,
-            diagnostics=[_to_lsp_diagnostic(d, uri) for d in result.diagnostics]))
+            diagnostics=[_to_lsp_diagnostic(d, uri) for d in diagnostics]))
         summary = ('verification successful' if result.success
                    else 'verification failed ({} issue(s))'.format(len(result.diagnostics)))
         self.window_log_message(t.LogMessageParams(
@@ -147,6 +154,40 @@ def initialize(ls: NaginiLanguageServer, params: t.InitializeParams):
     ls.apply_initialization_options(getattr(params, 'initialization_options', None))
 
 
+def _for_document(diagnostics: List[Diagnostic], path: str) -> List[Diagnostic]:
+    """The diagnostics as they are shown in the document at ``path``.
+
+    Those in other (imported) files are shown at the start of the document.
+    Columns are counted in bytes by Python and in UTF-16 code units by LSP.
+    """
+    try:
+        with tokenize.open(path) as f:
+            lines = _LINE_END.split(f.read())
+    except (OSError, SyntaxError, UnicodeDecodeError):
+        lines = []
+
+    def utf16(line, col):
+        if not 1 <= line <= len(lines):
+            return col
+        prefix = lines[line - 1].encode('utf-8')[:max(col, 0)].decode('utf-8', 'ignore')
+        return len(prefix.encode('utf-16-le')) // 2
+
+    result = []
+    for d in diagnostics:
+        if os.path.abspath(d.file) != os.path.abspath(path):
+            result.append(dataclasses.replace(
+                d, file=path, start_line=1, start_col=0, end_line=1, end_col=0, reason_position=None,
+                message='{}:{}:{}: {}'.format(d.file, d.start_line, d.start_col + 1, d.message)))
+            continue
+        reason_position = d.reason_position
+        if reason_position is not None:
+            reason_position = (reason_position[0], utf16(*reason_position))
+        result.append(dataclasses.replace(
+            d, start_col=utf16(d.start_line, d.start_col), end_col=utf16(d.end_line, d.end_col),
+            reason_position=reason_position))
+    return result
+
+
 def _to_lsp_diagnostic(d: Diagnostic, uri: str) -> t.Diagnostic:
     # Nagini lines are 1-indexed; LSP lines are 0-indexed. Columns are 0-indexed
     # in both.
@@ -239,10 +280,6 @@ def hover(ls: NaginiLanguageServer, params: t.HoverParams) -> Optional[t.Hover]:
     return None
 
 
-# Unlike str.splitlines, neither Python nor LSP end lines at e.g. form feeds.
-_LINE_END = re.compile(r'\r\n|\r|\n')
-
-
 _CONTRACT_FUNCS = ('Requires', 'Ensures', 'Decreases', 'Invariant')
 
 
diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index e97ecd9..35ce3a5 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -466,7 +466,7 @@ class VerificationService:
             vias = [(str(via), str(p))
                     for via, p in ((reason.vias if reason else None) or error._vias or [])]
             reason_pos = None
-            if reason and reason.position.is_known:
+            if reason and reason.position.is_known and reason.position.file_name == file_name:
                 reason_pos = (reason.position.line, reason.position.column)
             diag = Diagnostic(
                 file=file_name,
-- 
2.43.0


From 0528d8615189249dcb25f4016270adaccf865bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 31/72] fix: errors and reasons of kinds without a message are
 reported with the backend's message

---
 src/nagini_translation/lib/errors/wrappers.py | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/nagini_translation/lib/errors/wrappers.py b/src/nagini_translation/lib/errors/wrappers.py
index ec2251b..a24b9ac 100644
--- a/src/nagini_translation/lib/errors/wrappers.py
+++ b/src/nagini_translation/lib/errors/wrappers.py
@@ -8,7 +8,7 @@ file, You can obtain one at http://mozilla.org/MPL/2.0/.
 """Wrappers for Scala error objects."""
 
 
-from typing import Any, List
+from typing import Any, Callable, List
 
 from nagini_translation.lib.errors.messages import ERRORS, REASONS, VAGUE_REASONS
 from nagini_translation.lib.errors.rules import Rules
@@ -37,6 +37,17 @@ def format_translation_error(ide_mode: bool, file: str, message: str,
     return '{0} ({1}@{2}.{3})'.format(message, file, line, col)
 
 
+def _describe(table, identifier: str, node: Any, viper_message: Callable[[], str]) -> str:
+    """
+    Describe an error or reason in terms of ``node``, or with the message of the
+    backend if it is of an unknown kind or cannot be described with this node.
+    """
+    try:
+        return table[identifier](node)
+    except (KeyError, ValueError, AttributeError, TypeError, IndexError):
+        return viper_message()
+
+
 class Position:
     """Wrapper around ``AbstractSourcePosition``."""
 
@@ -125,7 +136,7 @@ class Reason:
                 return VAGUE_REASONS[self.identifier]
             else:
                 return self._reason.readableMessage()
-        return REASONS[self.identifier](reason)
+        return _describe(REASONS, self.identifier, reason, self._reason.readableMessage)
 
 
 class Error:
@@ -209,13 +220,13 @@ class Error:
     @property
     def message(self) -> str:
         """Human readable error message."""
-        if self._node:
-            return ERRORS[self.identifier](self._node)
         # If we don't have a node, fall back to the original Silver message,
         # it's better than nothing.
-        if hasattr(self._error, 'text'):
-            return self._error.text()
-        return self._error.readableMessage()
+        viper_message = (self._error.text if hasattr(self._error, 'text')
+                         else self._error.readableMessage)
+        if self._node:
+            return _describe(ERRORS, self.identifier, self._node, viper_message)
+        return viper_message()
 
     def __str__(self) -> str:
         return self.string(False, False)
-- 
2.43.0


From 02b46d7850e198c93ad48eb65bb911aa50f3cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:05 +0000
Subject: [PATCH 32/72] fix: options changed while a verification runs do not
 affect it

---
 src/nagini_translation/service.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index 35ce3a5..c5f5c1a 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -364,14 +364,17 @@ class VerificationService:
             snapshot = (dict(error_manager._items),
                         dict(error_manager._conversion_rules))
             error_manager.clear()
+            # The options may change while the verification runs.
+            backend, sif = self._backend, self._sif
+            disable_branch_conditions = self._disable_branch_conditions
 
         # 2. Submit and await the result lock-free, so jobs overlap in Viper.
-        if self._backend == 'carbon':
+        if backend == 'carbon':
             backend_args = build_carbon_backend_args(viper_args)
         else:
             backend_args = build_silicon_backend_args(
-                viper_args, counterexample, self._disable_branch_conditions)
-        job_id = manager.submit(prog, path, backend_args, backend=self._backend)
+                viper_args, counterexample, disable_branch_conditions)
+        job_id = manager.submit(prog, path, backend_args, backend=backend)
         if job_token is not None:
             with self._jobs_lock:
                 self._jobs[job_token] = job_id
@@ -407,7 +410,7 @@ class VerificationService:
                 errors = []
                 while it.hasNext():
                     errors.append(it.next())
-                failure = Failure(errors, self.jvm, modules, self._sif)
+                failure = Failure(errors, self.jvm, modules, sif)
                 diagnostics = self._failure_diagnostics(failure, path)
             finally:
                 error_manager.clear()
-- 
2.43.0


From 8a5ad104eb1770dab0c6d6dc678bb54df1cf13e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:16 +0000
Subject: [PATCH 33/72] fix: functions defined inside other statements are
 offered for verification in the editor

---
 src/nagini_translation/lsp_server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nagini_translation/lsp_server.py b/src/nagini_translation/lsp_server.py
index 76a6ef8..a850643 100644
--- a/src/nagini_translation/lsp_server.py
+++ b/src/nagini_translation/lsp_server.py
@@ -226,6 +226,9 @@ def _functions(source: str):
                 yield from walk(child, prefix + child.name + '.')
             elif isinstance(child, ast.ClassDef):
                 yield from walk(child, prefix + child.name + '.')
+            else:
+                # Definitions can be nested in other statements, e.g. in an if.
+                yield from walk(child, prefix)
     yield from walk(tree, '')
 
 
-- 
2.43.0


From a6b26cf09325feb79273f86b9bc01c21b643c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:16 +0000
Subject: [PATCH 34/72] fix: snippets are verified whatever the locale's
 encoding

---
 src/nagini_translation/mcp_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/mcp_server.py b/src/nagini_translation/mcp_server.py
index f5b1463..4eb1e41 100644
--- a/src/nagini_translation/mcp_server.py
+++ b/src/nagini_translation/mcp_server.py
@@ -118,7 +118,7 @@ async def verify_snippet(code: str, counterexample: bool = False,
     tmp_dir = tempfile.mkdtemp(prefix='nagini_mcp_')
     tmp_path = os.path.join(tmp_dir, 'snippet.py')
     try:
-        with open(tmp_path, 'w') as f:
+        with open(tmp_path, 'w', encoding='utf-8') as f:
             f.write(code)
         result = await _run(lambda: _service.verify(
             tmp_path, counterexample=counterexample, base_dir=tmp_dir,
-- 
2.43.0


From d109a4d91bd1ca4ce9e1fe3b86f54bac12484eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:13 +0000
Subject: [PATCH 35/72] fix: elements of a program do not get names of built-in
 elements or names derived for a class

---
 src/nagini_translation/analyzer.py            |  7 ++++-
 src/nagini_translation/lib/constants.py       | 14 ++++++++-
 src/nagini_translation/lib/program_nodes.py   | 30 +++++++++++--------
 src/nagini_translation/lib/viper_ast.py       | 11 +++++++
 src/nagini_translation/main.py                |  9 +++---
 src/nagini_translation/translators/program.py |  2 +-
 6 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 63c5053..3ff9e59 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -273,12 +273,17 @@ class Analyzer(ast.NodeVisitor):
         self.visited_modules = [self.module]
         self.visit_module(self.module)
 
-    def process(self, translator: 'Translator') -> None:
+    def process(self, translator: 'Translator', declared_names: Set[str]) -> None:
         """
         Performs preprocessing on the result of the analysis, which infers some
         things, creates some data structures for the translation etc.
+
+        ``declared_names`` are the names declared by the Silver resource files.
+        Those of built-in elements are assigned to them when the global module
+        is processed; no element of the program may use any of them.
         """
         self.module.global_module.process(translator)
+        self.module.global_module.sil_names.update(declared_names)
         for module in self.modules.values():
             module.process(translator)
 
diff --git a/src/nagini_translation/lib/constants.py b/src/nagini_translation/lib/constants.py
index 6dd0b69..d164cf5 100644
--- a/src/nagini_translation/lib/constants.py
+++ b/src/nagini_translation/lib/constants.py
@@ -150,9 +150,21 @@ INTERNAL_NAMES = [
     'guard',
     'value',
     ASSUMING_FUNC,
-    ASSERTING_FUNC
+    ASSERTING_FUNC,
+    'union_type_1',
+    'union_type_2',
+    'union_type_3',
+    'union_type_4',
+    'MustInvokeBounded',
+    'MustInvokeUnbounded',
+    'MustInvokeCredit',
+    'MustReleaseBounded',
+    'MustReleaseUnbounded',
 ]
 
+# Suffixes of names of functions that are derived from the name of a class.
+CLASS_NAME_SUFFIXES = ['_basic', '_arg', '__box__']
+
 VIPER_KEYWORDS = [
     'result',
     'Int',
diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index 1490a5b..85c328c 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -15,6 +15,7 @@ from nagini_contracts.io_contracts import BUILTIN_IO_OPERATIONS
 from nagini_translation.lib.constants import (
     BOXED_PRIMITIVES,
     CALLABLE_TYPE,
+    CLASS_NAME_SUFFIXES,
     END_LABEL,
     ERROR_NAME,
     INTERNAL_NAMES,
@@ -44,7 +45,7 @@ from nagini_translation.lib.views import (
     CombinedDict,
     IOOperationContentDict,
 )
-from typing import Any, Dict, List, Optional, Set, Tuple
+from typing import Any, Dict, Iterable, List, Optional, Set, Tuple
 from toposort import toposort_flatten
 
 
@@ -79,18 +80,20 @@ class PythonScope:
             result = self.superscope.contains_name(name)
         return result
 
-    def get_fresh_name(self, name: str) -> str:
-        if self.contains_name(name):
-            counter = 0
+    def get_fresh_name(self, name: str, suffixes: Iterable[str] = ()) -> str:
+        """
+        Returns a name that has not been used so far, and marks it as used, along
+        with the names that consist of it and one of the given suffixes.
+        """
+        suffixes = ('',) + tuple(suffixes)
+        new_name = name
+        counter = 0
+        while any(self.contains_name(new_name + suffix) for suffix in suffixes):
             new_name = name + '_' + str(counter)
-            while self.contains_name(new_name):
-                counter += 1
-                new_name = name + '_' + str(counter)
-            self._add_name(new_name)
-            return new_name
-        else:
-            self._add_name(name)
-            return name
+            counter += 1
+        for suffix in suffixes:
+            self._add_name(new_name + suffix)
+        return new_name
 
     def _add_name(self, new_name: str) -> None:
         if self.sil_names is not None:
@@ -208,7 +211,8 @@ class PythonModule(PythonScope, ContainerInterface, PythonStatementContainer):
         for name, cls in self.classes.items():
             if name == cls.name:
                 # if this is not a type alias
-                cls.process(self.get_fresh_name(name), translator)
+                sil_name = self.get_fresh_name(name, CLASS_NAME_SUFFIXES)
+                cls.process(sil_name, translator)
         for name, function in self.functions.items():
             function.process(self.get_fresh_name(name), translator)
         for name, method in self.methods.items():
diff --git a/src/nagini_translation/lib/viper_ast.py b/src/nagini_translation/lib/viper_ast.py
index fe647bc..aeac513 100644
--- a/src/nagini_translation/lib/viper_ast.py
+++ b/src/nagini_translation/lib/viper_ast.py
@@ -106,6 +106,17 @@ class ViperAST:
             result.append(iterator.next())
         return result
 
+    def declared_names(self, program):
+        """
+        Returns the names of everything the given program declares globally.
+        """
+        elements = (self.to_list(program.methods()) + self.to_list(program.functions()) +
+                    self.to_list(program.predicates()) + self.to_list(program.fields()))
+        for domain in self.to_list(program.domains()):
+            elements.append(domain)
+            elements.extend(self.to_list(domain.functions()))
+        return {element.name() for element in elements}
+
     def to_map(self, dict):
         result = self.scala.collection.immutable.HashMap()
         for k, v in dict.items():
diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index eb1b447..d574040 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -149,7 +149,10 @@ def translate(path: str, jvm: JVM, bv_size: int, selected: Set[str] = set(), bas
         translator = SIFTranslator(jvm, path, types, viper_ast)
     else:
         translator = Translator(jvm, path, types, viper_ast)
-    analyzer.process(translator)
+    if 'sil_programs' not in globals() or reload_resources:
+        global sil_programs
+        sil_programs = load_sil_files(jvm, bv_size, sif, float_encoding)
+    analyzer.process(translator, viper_ast.declared_names(sil_programs))
     modules = [main_module.global_module] + list(analyzer.modules.values())
     ghost_checker = GhostChecker(modules)
     ghost_ctx = Context()
@@ -163,10 +166,6 @@ def translate(path: str, jvm: JVM, bv_size: int, selected: Set[str] = set(), bas
     needs_obligations = analyzer.enable_obligations or ghost_checker.has_ghost_statements
     # only override the default, which is None; if the encoding is forced on or off, it'll be True or False
     override_obligations = not needs_obligations and config.obligation_config.disable_all is None
-    if 'sil_programs' not in globals() or reload_resources:
-        global sil_programs
-        sil_programs = load_sil_files(jvm, bv_size, sif, float_encoding)
-
     if extraction:
         program_extractor = ProgramExtractor(modules)
         extr_prog = program_extractor.process()
diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 5f71555..9b3be2e 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -150,7 +150,7 @@ class ProgramTranslator(CommonTranslator):
             # Compute the field value
             if cls.enum:
                 stmt, value = self.translate_expr(field.value, ctx, self.viper.Int)
-                value = self.viper.FuncApp(cls.name + '__box__', [value], position, info, self.viper.Ref)
+                value = self.viper.FuncApp(cls.sil_name + '__box__', [value], position, info, self.viper.Ref)
             else:
                 stmt, value = self.translate_expr(field.value, ctx)
             if stmt:
-- 
2.43.0


From 6a8afc4f9928c5e4d74baf4daa64adc10e406c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:13 +0000
Subject: [PATCH 36/72] fix: fields, constructors and axioms of an algebraic
 data type never share a name

---
 src/nagini_translation/lib/program_nodes.py   |  4 +-
 src/nagini_translation/lib/util.py            | 14 +++--
 src/nagini_translation/translators/call.py    |  2 +-
 .../translators/expression.py                 |  3 +-
 src/nagini_translation/translators/program.py | 60 +++++++++----------
 5 files changed, 43 insertions(+), 40 deletions(-)

diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index 85c328c..576b495 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -512,11 +512,11 @@ class PythonClass(PythonType, PythonNode, PythonScope, ContainerInterface):
         result |= set(self.static_fields)
         return result
 
-    def fresh(self, name: str) -> str:
+    def fresh(self, name: str, *role: Any) -> str:
         assert self.is_adt
         if not hasattr(self.adt_def, '_fresh'):
             self.adt_def._fresh = SingletonFreshName(self.module)
-        return self.adt_def._fresh(name)
+        return self.adt_def._fresh(name, *role)
 
     def types_match(self, type_a: 'PythonType', type_b: 'PythonType') -> bool:
         """
diff --git a/src/nagini_translation/lib/util.py b/src/nagini_translation/lib/util.py
index 9cd6256..8abe593 100644
--- a/src/nagini_translation/lib/util.py
+++ b/src/nagini_translation/lib/util.py
@@ -414,14 +414,16 @@ class SingletonFreshName:
         self._fresh_name_dict = {}
         self._scope = scope
 
-    def __call__(self, name: str) -> str:
+    def __call__(self, name: str, *role: Any) -> str:
         """
-        Returns a fresh name for a given name and scope if enquired for the
-        first time, otherwise returns the previously given fresh name.
+        Returns a fresh name for a given name, role and scope if enquired for the
+        first time, otherwise returns the previously given fresh name. Roles
+        distinguish elements whose original names coincide.
         """
-        if name not in self._fresh_name_dict:
-            self._fresh_name_dict[name] = self._scope.get_fresh_name(name)
-        return self._fresh_name_dict[name]
+        key = (name,) + role
+        if key not in self._fresh_name_dict:
+            self._fresh_name_dict[key] = self._scope.get_fresh_name(name)
+        return self._fresh_name_dict[key]
 
 
 # Number of values ord() can have, so that different strings have different ints.
diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 82c6598..a51470e 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -200,7 +200,7 @@ class CallTranslator(CommonTranslator):
 
         # Translate constructor call
         cons_call = self.viper.DomainFuncApp(cons.fresh(cons.adt_prefix +
-                                             cons.name), args, adt_type,
+                                             cons.name, 'constructor'), args, adt_type,
                                              pos, info, cons.adt_domain_name)
 
         # Box translated constructor
diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 2c4779f..d2311b7 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -1100,7 +1100,8 @@ class ExpressionTranslator(CommonTranslator):
 
         # Translate deconstruction call
         decons_call = self.viper.DomainFuncApp(decons.fresh(decons.adt_prefix +
-                                               decons.name + '_' + node.attr),
+                                               decons.name + '_' + node.attr,
+                                               'field', decons, node.attr),
                                                [unbox_func], decons_type, pos,
                                                info, decons.adt_domain_name)
 
diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 9b3be2e..b665cd9 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -744,7 +744,7 @@ class ProgramTranslator(CommonTranslator):
         for cons in adt.all_subclasses[1:]:
             arguments = self._get_adt_cons_params_decl(cons, adt.name, adt_type, pos,
                                                        info, ctx)
-            yield self.viper.DomainFunc(adt.fresh(adt.adt_prefix + cons.name),
+            yield self.viper.DomainFunc(adt.fresh(adt.adt_prefix + cons.name, 'constructor'),
                                         arguments, adt_type, False, pos, info,
                                         adt.adt_domain_name)
     
@@ -762,7 +762,7 @@ class ProgramTranslator(CommonTranslator):
                 else:
                     function_type = self.translate_type(arg_type.type, ctx)
                 yield self.viper.DomainFunc(adt.fresh(adt.adt_prefix + cons.name
-                                            + '_' + arg_name), [adt_obj_decl],
+                                            + '_' + arg_name, 'field', cons, arg_name), [adt_obj_decl],
                                             function_type, False, pos, info,
                                             adt.adt_domain_name)
 
@@ -773,20 +773,20 @@ class ProgramTranslator(CommonTranslator):
         """
         # Given the ADT, return the constructor used to create it
         adt_obj_decl = self.viper.LocalVarDecl('obj', adt_type, pos, info)
-        yield self.viper.DomainFunc(adt.fresh(adt.adt_prefix + 'cons_type'),
+        yield self.viper.DomainFunc(adt.fresh(adt.adt_prefix + 'cons_type', 'type'),
                                     [adt_obj_decl], self.viper.Int, False,
                                     pos, info, adt.adt_domain_name)
 
         # Create a constant for each constructor
         for cons in adt.all_subclasses[1:]:
             yield self.viper.DomainFunc(adt.fresh(adt.adt_prefix + cons.name +
-                                        '_type'), [], self.viper.Int, True, pos,
+                                        '_type', 'constant'), [], self.viper.Int, True, pos,
                                         info, adt.adt_domain_name)
 
         # Create a boolean function for each type
         for cons in adt.all_subclasses[1:]:
             yield self.viper.DomainFunc(adt.fresh(adt.adt_prefix + 'is_' +
-                                        cons.name), [adt_obj_decl],
+                                        cons.name, 'is'), [adt_obj_decl],
                                         self.viper.Bool, False, pos, info,
                                         adt.adt_domain_name)
 
@@ -803,10 +803,10 @@ class ProgramTranslator(CommonTranslator):
                            v in args_decl]
             if len(args) > 0:
                 cons_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix +
-                                                               cons.name), args, adt_type,
+                                                               cons.name, 'constructor'), args, adt_type,
                                                      pos, info, adt.adt_domain_name)
                 cons_call_2 = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix +
-                                                                 cons.name), args_2, adt_type,
+                                                                 cons.name, 'constructor'), args_2, adt_type,
                                                        pos, info, adt.adt_domain_name)
                 cons_equal = self.viper.EqCmp(cons_call, cons_call_2, pos, info)
                 args_equal = [self.viper.EqCmp(first, second, pos, info)
@@ -817,7 +817,7 @@ class ProgramTranslator(CommonTranslator):
                 quant = self.viper.Forall(args_decl + args_decl_2, [trigger], both_equal,
                                           pos, info)
                 yield self.viper.DomainAxiom(adt.fresh(adt.adt_prefix +
-                                                       'equals_' + cons.name),
+                                                       'equals_' + cons.name, 'axiom'),
                                              quant, pos, info, adt.adt_domain_name)
 
 
@@ -834,12 +834,12 @@ class ProgramTranslator(CommonTranslator):
                                                        info, ctx)
             if len(args) > 0:
                 cons_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix +
-                                                     cons.name), args, adt_type,
+                                                     cons.name, 'constructor'), args, adt_type,
                                                      pos, info, adt.adt_domain_name)
                 foralls = []
                 for (arg_name, _), arg in zip(cons.fields.items(), args):
                     decons_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix +
-                                                           cons.name + '_' + arg_name),
+                                                           cons.name + '_' + arg_name, 'field', cons, arg_name),
                                                            [cons_call], arg.typ(), pos,
                                                            info, adt.adt_domain_name)
                     eq = self.viper.EqCmp(decons_call, arg, pos, info)
@@ -848,7 +848,7 @@ class ProgramTranslator(CommonTranslator):
                     foralls.append(forall)
                 body = self._conjoin(foralls, pos, info)
                 yield self.viper.DomainAxiom(adt.fresh(adt.adt_prefix +
-                                             'decons_over_cons_' + cons.name),
+                                             'decons_over_cons_' + cons.name, 'axiom'),
                                              body, pos, info, adt.adt_domain_name)
 
     def _create_adt_axiom_deconstructor_types(self, adt: PythonClass,
@@ -864,7 +864,7 @@ class ProgramTranslator(CommonTranslator):
                     continue
                 arg_type = self.translate_type(arg_field.type, ctx)
                 decons_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix +
-                                                                 cons.name + '_' + arg_name),
+                                                                 cons.name + '_' + arg_name, 'field', cons, arg_name),
                                                        [arg_val], arg_type, pos,
                                                        info, adt.adt_domain_name)
                 trigger = self.viper.Trigger([decons_call], pos, info)
@@ -875,7 +875,7 @@ class ProgramTranslator(CommonTranslator):
                 continue
             body = self._conjoin(foralls, pos, info)
             yield self.viper.DomainAxiom(adt.fresh(adt.adt_prefix +
-                                                   'decons_types_' + cons.name),
+                                                   'decons_types_' + cons.name, 'axiom'),
                                          body, pos, info, adt.adt_domain_name)
 
 
@@ -894,19 +894,19 @@ class ProgramTranslator(CommonTranslator):
                                                      ctx)
                 triggers, decons_calls = [], []
                 is_cons_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix
-                                                        + 'is_' + cons.name),
+                                                        + 'is_' + cons.name, 'is'),
                                                         [adt_obj_use],
                                                         self.viper.Bool,
                                                         pos, info,
                                                         adt.adt_domain_name)
                 for (arg_name, _), arg in zip(cons.fields.items(), args):
                     decons_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix
-                                                           + cons.name + '_' + arg_name),
+                                                           + cons.name + '_' + arg_name, 'field', cons, arg_name),
                                                            [adt_obj_use], arg.typ(), pos,
                                                            info, adt.adt_domain_name)
                     decons_calls.append(decons_call)
                     triggers.append(self.viper.Trigger([decons_call], pos, info))
-                cons_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix + cons.name),
+                cons_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix + cons.name, 'constructor'),
                                                      decons_calls, adt_type, pos, info,
                                                      adt.adt_domain_name)
                 eq = self.viper.EqCmp(adt_obj_use, cons_call, pos, info)
@@ -915,7 +915,7 @@ class ProgramTranslator(CommonTranslator):
                 trigger = self.viper.Trigger([is_cons_call], pos, info)
                 forall = self.viper.Forall([adt_obj_decl], [trigger], body, pos, info)
                 yield self.viper.DomainAxiom(adt.fresh(adt.adt_prefix + 'cons_'
-                                             + cons.name + '_over_decons'), forall,
+                                             + cons.name + '_over_decons', 'axiom'), forall,
                                              pos, info, adt.adt_domain_name)
 
     def _create_adt_axiom_associate_cons_type_with_const(self, adt: PythonClass,
@@ -929,14 +929,14 @@ class ProgramTranslator(CommonTranslator):
         for cons in adt.all_subclasses[1:]:
             args = self._get_adt_cons_params_use(cons, adt.name, adt_type, pos, info, ctx)
             cons_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix +
-                                                 cons.name), args, adt_type, pos,
+                                                 cons.name, 'constructor'), args, adt_type, pos,
                                                  info, adt.adt_domain_name)
             cons_type_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix +
-                                                      'cons_type'), [cons_call],
+                                                      'cons_type', 'type'), [cons_call],
                                                       self.viper.Int, pos, info,
                                                       adt.adt_domain_name)
             cons_const_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix
-                                                       + cons.name + '_type'), [],
+                                                       + cons.name + '_type', 'constant'), [],
                                                        self.viper.Int, pos, info,
                                                        adt.adt_domain_name)
             eq = self.viper.EqCmp(cons_type_call, cons_const_call, pos, info)
@@ -949,7 +949,7 @@ class ProgramTranslator(CommonTranslator):
                 forall = self.viper.Forall(args_decl, [trigger], eq, pos, info)
             yield self.viper.DomainAxiom(adt.fresh(adt.adt_prefix +
                                          'associate_cons_type_function_with_' +
-                                         cons.name + '_constant'), forall, pos,
+                                         cons.name + '_constant', 'axiom'), forall, pos,
                                          info, adt.adt_domain_name)
 
     def _create_adt_axiom_constrain_cons_type_with_const(self, adt: PythonClass,
@@ -966,11 +966,11 @@ class ProgramTranslator(CommonTranslator):
         eqs = []
         for cons in adt.all_subclasses[1:]:
             cons_type_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix
-                                                      + 'cons_type'), [adt_obj_use],
+                                                      + 'cons_type', 'type'), [adt_obj_use],
                                                         self.viper.Int, pos, info,
                                                         adt.adt_domain_name)
             cons_const_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix +
-                                                       cons.name + '_type'), [],
+                                                       cons.name + '_type', 'constant'), [],
                                                         self.viper.Int, pos, info,
                                                         adt.adt_domain_name)
             eqs.append(self.viper.EqCmp(cons_type_call, cons_const_call, pos, info))
@@ -978,7 +978,7 @@ class ProgramTranslator(CommonTranslator):
         trigger = self.viper.Trigger([cons_type_call], pos, info)
         forall = self.viper.Forall([adt_obj_decl], [trigger], body, pos, info)
         yield self.viper.DomainAxiom(adt.fresh(adt.adt_prefix +
-                                     'constrain_cons_type_function_cons_constants'),
+                                     'constrain_cons_type_function_cons_constants', 'axiom'),
                                      forall, pos, info, adt.adt_domain_name)
 
     def _create_adt_axiom_associate_cons_type_with_bool(self, adt: PythonClass,
@@ -995,16 +995,16 @@ class ProgramTranslator(CommonTranslator):
         adt_obj_decl = self.viper.LocalVarDecl('obj', adt_type, pos, info)
         for cons in adt.all_subclasses[1:]:
             cons_type_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix +
-                                                      'cons_type'), [adt_obj_use],
+                                                      'cons_type', 'type'), [adt_obj_use],
                                                       self.viper.Int, pos, info,
                                                       adt.adt_domain_name)
             cons_const_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix +
-                                                       cons.name + '_type'), [],
+                                                       cons.name + '_type', 'constant'), [],
                                                        self.viper.Int, pos, info,
                                                        adt.adt_domain_name)
             type_id_eq = self.viper.EqCmp(cons_type_call, cons_const_call, pos, info)
             is_cons_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix + 'is_'
-                                                    + cons.name), [adt_obj_use],
+                                                    + cons.name, 'is'), [adt_obj_use],
                                                     self.viper.Bool, pos, info,
                                                     adt.adt_domain_name)
             eqv = self.viper.EqCmp(type_id_eq, is_cons_call, pos, info)
@@ -1012,7 +1012,7 @@ class ProgramTranslator(CommonTranslator):
             forall = self.viper.Forall([adt_obj_decl], [trigger], eqv, pos, info)
             yield self.viper.DomainAxiom(adt.fresh(adt.adt_prefix +
                                          'associate_cons_type_function_with_is_'
-                                         + cons.name + '_bool_function'), forall,
+                                         + cons.name + '_bool_function', 'axiom'), forall,
                                          pos, info, adt.adt_domain_name)
 
     def _create_adt_axiom_cons_are_subclasses(self, adt: PythonClass,
@@ -1046,7 +1046,7 @@ class ProgramTranslator(CommonTranslator):
         trigger = self.viper.Trigger([issubtype_expr], pos, info)
         forall = self.viper.Forall([ref_var_decl], [trigger], impl, pos, info)
         yield self.viper.DomainAxiom(adt.fresh(adt.adt_prefix +
-                                     'type_of_constructors'), forall, pos, info,
+                                     'type_of_constructors', 'axiom'), forall, pos, info,
                                      adt.adt_domain_name)
 
     def _create_adt_func_box_and_unbox(self, adt: PythonClass, adt_type: DomainType,
@@ -1071,7 +1071,7 @@ class ProgramTranslator(CommonTranslator):
         terminates_wildcard = self.viper.DecreasesWildcard(None, pos, info)
         for cons in adt.all_subclasses[1:]:
             is_cons_call = self.viper.DomainFuncApp(adt.fresh(adt.adt_prefix + 'is_'
-                                                    + cons.name), [adt_obj_use],
+                                                    + cons.name, 'is'), [adt_obj_use],
                                                     self.viper.Bool, pos, info,
                                                     adt.adt_domain_name)
             typeof_call = self.type_factory.typeof(result, ctx)
-- 
2.43.0


From 1fd7885101e345d52ed2a6be836a4ad3557849f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:15 +0000
Subject: [PATCH 37/72] fix: result getters of IO operations never share a name
 with other elements

---
 src/nagini_translation/lib/program_nodes.py            | 10 ++++++++++
 .../translators/io_operation/utils.py                  |  5 +----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index 576b495..82e580b 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -1304,6 +1304,7 @@ class PythonIOOperation(PythonNode, PythonScope, ContainerInterface):
         self._termination_measure = None
         self._body = None
         self._io_existentials = None
+        self._getter_names = {}
         self.func_args = []
         self.definition_deps = set()
         self.call_deps = set()
@@ -1345,6 +1346,15 @@ class PythonIOOperation(PythonNode, PythonScope, ContainerInterface):
         self._process_var_list(self._inputs, translator)
         self._process_var_list(self._outputs, translator)
         self._process_var_list(self._io_universals, translator)
+        for result in self.get_results():
+            getter_name = 'get__{0}__{1}'.format(sil_name, result.sil_name)
+            self._getter_names[result.sil_name] = self.get_fresh_name(getter_name)
+
+    def get_getter_name(self, result: 'PythonVar') -> str:
+        """
+        Returns the Silver name of the function that denotes the given result.
+        """
+        return self._getter_names[result.sil_name]
 
     def set_preset(self, preset: List['PythonVar']) -> None:
         assert len(preset) == 1 or self.is_builtin
diff --git a/src/nagini_translation/translators/io_operation/utils.py b/src/nagini_translation/translators/io_operation/utils.py
index 9dad36d..ce7e230 100644
--- a/src/nagini_translation/translators/io_operation/utils.py
+++ b/src/nagini_translation/translators/io_operation/utils.py
@@ -24,10 +24,7 @@ from nagini_translation.lib.util import (
 def construct_getter_name(operation: PythonIOOperation,
                           result: PythonVarBase) -> str:
     """Utility function for constructing getter name."""
-    return 'get__{0}__{1}'.format(
-        operation.sil_name,
-        result.sil_name,
-    )
+    return operation.get_getter_name(result)
 
 
 def raise_invalid_operation_use(error_type: str, node: ast.AST) -> None:
-- 
2.43.0


From 968fc8b4cd2888999fbab165436d8a6e33425872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:27 +0000
Subject: [PATCH 38/72] fix: inlining a function twice does not declare the
 label of a try statement's else block twice

---
 src/nagini_translation/analyzer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 3ff9e59..4e49ebc 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -1944,6 +1944,7 @@ class Analyzer(ast.NodeVisitor):
             try_block.handlers.append(py_handler)
         if node.orelse:
             handler_name = self.stmt_container.get_fresh_name('try_else')
+            self.stmt_container.labels.append(handler_name)
             py_handler = PythonExceptionHandler(node, None, try_block,
                                                 handler_name, node.orelse, None)
             try_block.else_block = py_handler
-- 
2.43.0


From 6c1a9c17d33a279dbc47d6e5af8c11e3339d4b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:54 +0000
Subject: [PATCH 39/72] fix: different references never have the same name in a
 counterexample

---
 src/nagini_translation/models/converter.py | 31 ++++++++++------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/nagini_translation/models/converter.py b/src/nagini_translation/models/converter.py
index 0b0219d..c6b6b30 100644
--- a/src/nagini_translation/models/converter.py
+++ b/src/nagini_translation/models/converter.py
@@ -540,24 +540,21 @@ class Converter:
                 if actual_type.name == 'NoneType':
                     self.reference_values[val] = ('None', actual_type)
                     return 'None'
-                actual_type_name = self.get_type_name(actual_type)
-                i = 0
-                ref_name = actual_type_name + str(i)
-                while (ref_name, actual_type) in self.reference_values.values():
-                    i += 1
-                    ref_name = actual_type_name + str(i)
-                self.reference_values[val] = (ref_name, actual_type)
-                return ref_name
+                return self.add_reference_name(val, self.get_type_name(actual_type), actual_type)
             except NoFittingValueException as e:
-                actual_type_name = '?'
-                actual_type = t
-                i = 0
-                ref_name = actual_type_name + str(i)
-                while (ref_name, actual_type) in self.reference_values.values():
-                    i += 1
-                    ref_name = actual_type_name + str(i)
-                self.reference_values[val] = (ref_name, actual_type)
-                return ref_name
+                return self.add_reference_name(val, '?', t)
+
+    def add_reference_name(self, val, prefix: str, actual_type: PythonType):
+        """
+        Gives the reference a name no other reference has.
+        """
+        used_names = {name for name, _ in self.reference_values.values()}
+        i = 0
+        while prefix + str(i) in used_names:
+            i += 1
+        ref_name = prefix + str(i)
+        self.reference_values[val] = (ref_name, actual_type)
+        return ref_name
 
     def ref_get_actual_type(self, val, t: PythonType):
         if val in self.reference_values:
-- 
2.43.0


From 8c1945ef2a88ea15b72e6c97e0b71dc7ffef8b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:16 +0000
Subject: [PATCH 40/72] fix: a counterexample with values the model does not
 determine is shown, without them

---
 src/nagini_translation/models/converter.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/nagini_translation/models/converter.py b/src/nagini_translation/models/converter.py
index c6b6b30..e4c9ab4 100644
--- a/src/nagini_translation/models/converter.py
+++ b/src/nagini_translation/models/converter.py
@@ -93,6 +93,8 @@ class NoFittingValueException(Exception):
 
 def get_func_value(model, name, args):
     args = tuple([' '.join(a.split()) for a in args])
+    if name not in model:
+        raise NoFittingValueException
     entry = model[name]
     if args == () and isinstance(entry, str):
         return entry
@@ -104,6 +106,8 @@ def get_func_value(model, name, args):
 
 def get_func_values(model, name, args):
     args = tuple([' '.join(a.split()) for a in args])
+    if name not in model:
+        raise NoFittingValueException
     options = [(k[len(args):], v) for k, v in model[name].items() if k != 'else' and k[:len(args)] == args]
     els = str(model[name].get('else'))
     return options, els
@@ -160,6 +164,8 @@ def evaluate_term(jvm, term, model):
     if isinstance(term, jvm.viper.silicon.state.terms.IntLiteral):
         return str(term)
     if isinstance(term, getclass(jvm.java, jvm.viper.silicon.state.terms, 'Null$')):
+        if '$Ref.null' not in model:
+            raise NoFittingValueException
         return str(model['$Ref.null'])
     if isinstance(term, jvm.viper.silicon.state.terms.Var):
         key = str(term)
@@ -218,7 +224,8 @@ def evaluate_term(jvm, term, model):
             return "?"
     elif isinstance(term, jvm.viper.silicon.state.terms.SeqNil):
         return ""
-    raise Exception(str(term))
+    # Neither the model nor we know the value of this term.
+    raise NoFittingValueException
 
 
 
@@ -310,6 +317,8 @@ class Converter:
             object_name, t = self.reference_values[smt_ref_val]
             smt_value = value
             if not isinstance(field, PythonField):
+                if smt_value is None:
+                    raise NoFittingValueException
                 target[object_name] = self.convert_special_field(recv, heap_contents, object_name, t, smt_value)
                 return
             if smt_value is not None:
@@ -597,7 +606,7 @@ class Converter:
             return t
 
     def get_basic_type(self, val, bound):
-        basic_func = self.model['get_basic<PyType>']
+        basic_func = self.model.get('get_basic<PyType>', {})
         if (val,) in basic_func:
             basic_type = basic_func[(val,)]
             is_generic = basic_type != val
@@ -659,9 +668,9 @@ class Converter:
     def convert_adt_value(self, val, cls):
         adt_def_class = cls.adt_def
         unbox_func_name = 'unbox_' + adt_def_class.adt_domain_name
-        unbox_entries = self.model[unbox_func_name]
+        unbox_entries = self.model.get(unbox_func_name, {})
         box_func_name = 'box_' + adt_def_class.adt_domain_name
-        box_entries = self.model[box_func_name]
+        box_entries = self.model.get(box_func_name, {})
         if not val.startswith('$Ref!'):
             unboxed_val = val
         elif (UNIT, val) in unbox_entries:
@@ -678,7 +687,7 @@ class Converter:
 
         if unboxed_val is not None:
             type_func = adt_def_class.name + '_cons_type<Int>'
-            type_func_entries = self.model[type_func]
+            type_func_entries = self.model.get(type_func, {})
             type_key = (unboxed_val,)
             if type_key in type_func_entries:
                 type_id = type_func_entries[type_key]
@@ -769,7 +778,7 @@ class Converter:
             if bool_or_none is None:
                 return False
             return self.parse_bool(bool_or_none)
-        except KeyError:
+        except (KeyError, NoFittingValueException):
             return False
 
     def parse_int(self, val):
-- 
2.43.0


From 1837a08956694cb8f335047c32b5a74f964fe316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:16 +0000
Subject: [PATCH 41/72] fix: a reference whose type a model leaves open is not
 shown with an arbitrary type

---
 src/nagini_translation/models/converter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/models/converter.py b/src/nagini_translation/models/converter.py
index e4c9ab4..95e03b6 100644
--- a/src/nagini_translation/models/converter.py
+++ b/src/nagini_translation/models/converter.py
@@ -764,12 +764,12 @@ class Converter:
                 bool_or_none = self.get_func_value(ISSUBTYPE, (val_type, option))
                 if bool_or_none is None:
                     continue
-                if self.parse_bool(bool_or_none):
+                if self.parse_bool(bool_or_none) is True:
                     return True
             bool_or_none = self.get_func_value(ISSUBTYPE, (val_type, els))
             if bool_or_none is None:
                 return False
-            return self.parse_bool(bool_or_none)
+            return self.parse_bool(bool_or_none) is True
         try:
             type_val = self.get_type_val(t)
             if type_val == val_type:
@@ -777,7 +777,7 @@ class Converter:
             bool_or_none = self.get_func_value(ISSUBTYPE, (val_type, type_val))
             if bool_or_none is None:
                 return False
-            return self.parse_bool(bool_or_none)
+            return self.parse_bool(bool_or_none) is True
         except (KeyError, NoFittingValueException):
             return False
 
-- 
2.43.0


From 0846fc5215ebb3fbafc4265ee4ade949a58e8421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:38 +0000
Subject: [PATCH 42/72] fix: counterexamples do not show elements beyond the
 end of a sequence or keys a dict does not have

---
 src/nagini_translation/models/converter.py | 29 ++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/nagini_translation/models/converter.py b/src/nagini_translation/models/converter.py
index 95e03b6..565f045 100644
--- a/src/nagini_translation/models/converter.py
+++ b/src/nagini_translation/models/converter.py
@@ -24,7 +24,9 @@ UNBOX_PBYTESEQ = 'PByteSeq___val__%limited'
 TYPEOF = 'typeof<PyType>'
 SNAP_TO = '$SortWrappers.'
 SET_CARD = 'Set_card'
+SET_IN = 'Set_in'
 DICT_GET = 'Map_apply'
+MAP_DOMAIN = 'Map_domain'
 MAP_CARD = 'Map_card'
 SEQ_LENGTH = 'Seq_length'
 SEQ_INDEX = 'Seq_index'
@@ -448,6 +450,8 @@ class Converter:
         res['len({})'.format(object_name)] = parsed_length
         indices, els_index = self.get_func_values(SEQ_INDEX, (val,))
         for ((index,), value) in indices:
+            if not self.is_index(index, parsed_length):
+                continue
             converted_value = self.convert_value(value, content_type)
             res['{}[{}]'.format(object_name, index)] = converted_value
         if els_index is not None and els_index != '#unspecified' and self.ref_has_type(els_index, content_type):
@@ -455,6 +459,27 @@ class Converter:
             res['{}[_]'.format(object_name)] = converted_value
         return res
 
+    def is_index(self, index, length) -> bool:
+        """
+        Whether the index is one of a sequence of the given length; models also give
+        (meaningless) values for other indices.
+        """
+        parsed_index = self.parse_int(index)
+        if parsed_index == '?' or length == '?':
+            return True
+        return 0 <= parsed_index < length
+
+    def is_missing_key(self, key, map_val) -> bool:
+        """
+        Whether the key is known not to be in the map; models also give (meaningless)
+        values for such keys.
+        """
+        try:
+            domain = self.get_func_value(MAP_DOMAIN, (map_val,))
+            return self.get_func_value(SET_IN, (key, domain)) == 'false'
+        except NoFittingValueException:
+            return False
+
     def convert_tuple_value(self, val, tuple_type: GenericType, object_name):
         res = OrderedDict()
         if 'tuple___getitem__' not in self.model:
@@ -474,6 +499,8 @@ class Converter:
             res['len({})'.format(object_name)] = parsed_length
             indices, els_index = self.get_func_values('tuple___getitem__', (UNIT, val,))
             for (i, ((index,), value)) in enumerate(indices):
+                if not self.is_index(index, parsed_length):
+                    continue
                 converted_value = self.convert_value(value, tuple_type.type_args[0])
                 res['{}[{}]'.format(object_name, index)] = converted_value
         return '( {} )'.format(', '.join(['{} -> {}'.format(k, v) for k, v in res.items()]))
@@ -500,6 +527,8 @@ class Converter:
             map_val = heap[(recv, 'dict_acc')]
             keys, els_val = self.get_func_values(DICT_GET, (map_val,))
             for ((key,), value) in keys:
+                if self.is_missing_key(key, map_val):
+                    continue
                 converted_value = self.convert_value(value, t.type_args[1])
                 converted_key = self.convert_value(key, t.type_args[0])
                 res['{}[{}]'.format(object_name, converted_key)] = converted_value
-- 
2.43.0


From 9184ee7127497ba0b45ad41e98627fe6839185dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:02 +0000
Subject: [PATCH 43/72] fix: a counterexample is shown if the model has no
 sequences, or numbers in another form

---
 src/nagini_translation/models/converter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/models/converter.py b/src/nagini_translation/models/converter.py
index 565f045..e6c20d5 100644
--- a/src/nagini_translation/models/converter.py
+++ b/src/nagini_translation/models/converter.py
@@ -109,7 +109,7 @@ def get_func_value(model, name, args):
 def get_func_values(model, name, args):
     args = tuple([' '.join(a.split()) for a in args])
     if name not in model:
-        raise NoFittingValueException
+        return [], None
     options = [(k[len(args):], v) for k, v in model[name].items() if k != 'else' and k[:len(args)] == args]
     els = str(model[name].get('else'))
     return options, els
@@ -811,9 +811,9 @@ class Converter:
             return False
 
     def parse_int(self, val):
-        if val.startswith('(-') and val.endswith(')'):
-            return - int(val[2:-1])
         try:
+            if val.startswith('(-') and val.endswith(')'):
+                return - int(val[2:-1])
             return int(val)
         except:
             return '?'
-- 
2.43.0


From 82c85edf01b64e3babd0d8c0c1b5de148dd2ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:34 +0000
Subject: [PATCH 44/72] fix: the properties of a selected class are verified

---
 src/nagini_translation/translators/program.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index b665cd9..b6f44a7 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -83,6 +83,7 @@ class ProgramTranslator(CommonTranslator):
                                 self.no_info(ctx))
 
     def _translate_fields(self, cls: PythonClass, all_names,
+                          selected_names: List[str], selected: Set[str],
                           ctx: Context) -> Tuple[List['silver.ast.Field'],
                                                  List['silver.ast.Function'],
                                                  List['silver.ast.Method']]:
@@ -107,9 +108,11 @@ class ProgramTranslator(CommonTranslator):
                     all_names.append(field.sil_name)
                 if field.overrides:
                     raise InvalidProgramException(field.node, 'invalid.override')
+                self.track_dependencies(selected_names, selected, field, ctx)
                 getter = self.translate_function(field, ctx)
                 functions.append(getter)
                 if field.setter:
+                    self.track_dependencies(selected_names, selected, field.setter, ctx)
                     setter = self.translate_method(field.setter, ctx)
                     if cls.module is not cls.module.global_module:
                         all_names.append(field.setter.sil_name)
@@ -1342,7 +1345,8 @@ class ProgramTranslator(CommonTranslator):
                 if module is not module.global_module:
                     all_names.append(cls.sil_name)
                 containers.append(cls)
-                f_fields, f_funcs, f_methods = self._translate_fields(cls, all_names, ctx)
+                f_fields, f_funcs, f_methods = self._translate_fields(
+                    cls, all_names, selected_names, selected, ctx)
                 fields += f_fields
                 methods += f_methods
                 functions += f_funcs
-- 
2.43.0


From 9519ea78ccf3795551fd5ee439fa44de26f1514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:48 +0000
Subject: [PATCH 45/72] fix: the predicates of a selected class are verified if
 they override others

---
 src/nagini_translation/translators/predicate.py | 8 +++++---
 src/nagini_translation/translators/program.py   | 7 +++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/nagini_translation/translators/predicate.py b/src/nagini_translation/translators/predicate.py
index 3324226..d2a357e 100644
--- a/src/nagini_translation/translators/predicate.py
+++ b/src/nagini_translation/translators/predicate.py
@@ -66,10 +66,12 @@ class PredicateTranslator(CommonTranslator):
 
     def translate_predicate_family(self, root: PythonMethod,
                                    preds: List[PythonMethod],
-                                   ctx: Context) -> Tuple[List['ast.silver.Predicate'], List['ast.silver.Method']]:
+                                   ctx: Context) -> Tuple[List['ast.silver.Predicate'],
+                                                          List[Tuple[PythonMethod, 'ast.silver.Method']]]:
         """
         Translates the methods in preds, whose root (which they all override)
-        is root, to a family-predicate in Silver.
+        is root, to a family-predicate in Silver. Also returns, for every
+        member of the family, a method that checks that it is self-framing.
         """
         no_info = self.no_info(ctx)
         dependencies = {}
@@ -163,7 +165,7 @@ class PredicateTranslator(CommonTranslator):
             self_frame_method = self.viper.Method(self_frame_method_name, args, [],
                                                   [arg_types, has_type, current_with_rule],
                                                   [], [], None, self.to_position(root.node, ctx), no_info)
-            self_framing_check_methods.append(self_frame_method)
+            self_framing_check_methods.append((instance, self_frame_method))
             # Dirty hack to artificially create a dependency from this predicate to its well-formedness check;
             # the call is never used, but the creation of the call while translating the predicate will be tracked.
             self.viper.MethodCall(self_frame_method_name, [], [], self.to_position(root.node, ctx), no_info)
diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index b6f44a7..8bbf6c8 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -1523,17 +1523,20 @@ class ProgramTranslator(CommonTranslator):
 
         for root in predicate_families:
             self.track_dependencies(selected_names, selected, root, ctx)
+            for member in predicate_families[root]:
+                self.track_dependencies(selected_names, selected, member, ctx, root.sil_name)
             preds, pred_self_framing_checks = self.translate_predicate_family(root, predicate_families[root], ctx)
             for pred in preds:
                 pred_name = pred.name()
                 all_names.append(pred_name)
                 self.track_dependencies(selected_names, selected, root, ctx, pred_name)
-            for check_method in pred_self_framing_checks:
+            for member, check_method in pred_self_framing_checks:
                 method_name = check_method.name()
                 all_names.append(method_name)
                 self.track_dependencies(selected_names, selected, root, ctx, method_name)
+                self.track_dependencies(selected_names, selected, member, ctx, method_name)
+                methods.append(check_method)
             predicates.extend(preds)
-            methods.extend(pred_self_framing_checks)
 
 
         if not selected:
-- 
2.43.0


From ffbda316cec171eee5b89d2f28c8b91095cdeeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:11 +0000
Subject: [PATCH 46/72] fix: top-level statements are verified if the program
 has a function main

---
 src/nagini_translation/translators/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 8bbf6c8..888704d 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -1489,6 +1489,7 @@ class ProgramTranslator(CommonTranslator):
         if not ignore_global:
             main_py_method, main_method = self.translate_main_method(modules, ctx)
             methods.append(main_method)
+            all_names.append(main_py_method.sil_name)
             self.track_dependencies(selected_names, selected, main_py_method, ctx)
 
         # Translate global variables.
@@ -1541,7 +1542,6 @@ class ProgramTranslator(CommonTranslator):
 
         if not selected:
             selected_names = all_names
-            selected_names.extend(['main'])
 
         all_used_names = set(selected_names)
 
-- 
2.43.0


From 2b8517848d6ecc3479b5725103a9435014005f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:52 +0000
Subject: [PATCH 47/72] fix: selecting an element that does not exist is an
 error

---
 src/nagini_translation/main.py    | 29 ++++++++++++++++++++++++++++-
 src/nagini_translation/service.py |  4 ++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index d574040..0d52d28 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -24,7 +24,7 @@ from nagini_translation.ghost.extraction import ProgramExtractor
 from nagini_translation.lib.context import Context
 from nagini_translation.sif_translator import SIFTranslator
 from nagini_translation.lib import config
-from nagini_translation.lib.constants import DEFAULT_SERVER_SOCKET
+from nagini_translation.lib.constants import DEFAULT_SERVER_SOCKET, MAIN_METHOD_NAME
 from nagini_translation.lib.errors import error_manager, format_translation_error
 from nagini_translation.lib.jvmaccess import (
     getclass,
@@ -540,6 +540,32 @@ def _parse_client_request(request: str) -> Tuple[str, Union[Set[str], None]]:
     return request, None
 
 
+def check_selection(modules: List['PythonModule'], selected: Set[str]) -> None:
+    """
+    Raises an exception if some of the selected names are not names of elements
+    of the program that can be verified, since nothing is verified for those.
+    """
+    if not selected:
+        return
+    known = {MAIN_METHOD_NAME}
+    for module in modules:
+        if module is module.global_module:
+            continue
+        known.update(module.functions, module.methods, module.predicates,
+                     module.io_operations, module.global_vars)
+        for cls in module.classes.values():
+            known.add(cls.name)
+            for members in (cls.functions, cls.methods, cls.static_methods,
+                            cls.predicates, cls.fields):
+                known.update(members)
+                known.update(cls.name + '.' + name for name in members)
+    unknown = set(selected) - known
+    if unknown:
+        names = ', '.join("'" + name + "'" for name in sorted(unknown))
+        raise InvalidProgramException(None, 'unknown.selection',
+                                      'Selected elements do not exist: ' + names)
+
+
 def translate_and_verify(python_file, jvm, args, print=print, arp=False, base_dir=None,
                          selected=None) -> bool:
     """
@@ -562,6 +588,7 @@ def translate_and_verify(python_file, jvm, args, print=print, arp=False, base_di
             print("Type checking failed.")
             return False
         modules, prog = translated
+        check_selection(modules, selected)
         if args.print_viper:
             if args.verbose:
                 print('Result:')
diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index c5f5c1a..38e28d7 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -36,6 +36,7 @@ from nagini_translation.lib.util import (
     UnsupportedException,
 )
 from nagini_translation.main import (
+    check_selection,
     load_sil_files,
     translate,
     TYPE_ERROR_MATCHER,
@@ -347,6 +348,8 @@ class VerificationService:
                     selected=set(selected) if selected else set(), sif=False,
                     base_dir=base_dir, arp=False, counterexample=counterexample,
                     ignore_global=ignore_global, float_encoding=self._float_encoding)
+                if translated is not None:
+                    check_selection(translated[0], selected or set())
             except (TypeException, InvalidProgramException, UnsupportedException) as e:
                 return VerifyResult(False, self._exception_diagnostics(e, path),
                                     time.time() - start, translation_failed=True)
@@ -433,6 +436,7 @@ class VerificationService:
                     path, 'Type checking failed.', 'type.error')],
                     time.time() - start, translation_failed=True)
             modules, prog = translated
+            check_selection(modules, selected_set)
             viper_text = str(prog) if include_viper else None
             backend = (ViperVerifier.silicon if self._backend == 'silicon'
                        else ViperVerifier.carbon)
-- 
2.43.0


From cae5cfd0537cacb0dfc4138a03476ff7db517210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:21 +0000
Subject: [PATCH 48/72] fix: termination checks of IO operations use the names
 of the module a sub-operation is defined in

---
 .../translators/io_operation/termination_check.py     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/translators/io_operation/termination_check.py b/src/nagini_translation/translators/io_operation/termination_check.py
index 9bed921..d995e31 100644
--- a/src/nagini_translation/translators/io_operation/termination_check.py
+++ b/src/nagini_translation/translators/io_operation/termination_check.py
@@ -149,7 +149,7 @@ class TerminationCheckGenerator(GuardCollectingVisitor):
 
     def _check_termination_condition(self) -> None:
         """Check that child termination condition is implied."""
-        termination_condition = self._translate_expr(
+        termination_condition = self._translate_operation_expr(
             self._current_operation.get_terminates(),
             target_type=self._viper.Bool)
         position = self._position(
@@ -160,7 +160,7 @@ class TerminationCheckGenerator(GuardCollectingVisitor):
 
     def _check_termination_measure(self) -> None:
         """Check that child measure is strictly smaller."""
-        termination_measure = self._translate_expr(
+        termination_measure = self._translate_operation_expr(
             self._current_operation.get_termination_measure(),
             target_type=self._viper.Int)
         position = self._position(
@@ -171,6 +171,13 @@ class TerminationCheckGenerator(GuardCollectingVisitor):
             position, self._no_info())
         self._add_check(larger, "Termination measure of {}.", position)
 
+    def _translate_operation_expr(self, node: ast.AST, target_type=None) -> Expr:
+        """Translate an expression from the definition of the sub-operation."""
+        self._ctx.inlined_calls.append(self._current_operation)
+        expression = self._translate_expr(node, target_type=target_type)
+        self._ctx.inlined_calls.pop()
+        return expression
+
     def _translate_expr(self, node: ast.AST, target_type=None) -> Expr:
         statement, expression = self._io_translator.translate_expr(
             node, self._ctx, target_type=target_type)
-- 
2.43.0


From a42e0758897df1bb5d520c2ef20819fedb37197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:21 +0000
Subject: [PATCH 49/72] fix: positions of contracts, predicates, inlined bodies
 and IO operations from other modules name the right file

---
 src/nagini_translation/translators/common.py  |  4 +++-
 .../translators/predicate.py                  |  5 ++++-
 src/nagini_translation/translators/program.py | 19 ++++++++++++++++---
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index 6590366..e729a7b 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -232,8 +232,10 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
         Extracts the position from a node, assigns an ID to the node and stores
         the node and the position in the context for it.
         """
+        # While a call is inlined, its code may be from another module.
+        module = ctx.inlined_calls[-1].module if ctx.inlined_calls else ctx.module
         return self.viper.to_position(node, ctx.position, error_string, rules,
-                                      ctx.module.file, py_node=ctx.current_function)
+                                      module.file, py_node=ctx.current_function)
 
     def no_position(self, ctx: Context, error_string: str=None,
             rules: rules.Rules=None) -> 'silver.ast.Position':
diff --git a/src/nagini_translation/translators/predicate.py b/src/nagini_translation/translators/predicate.py
index d2a357e..7c83ed8 100644
--- a/src/nagini_translation/translators/predicate.py
+++ b/src/nagini_translation/translators/predicate.py
@@ -74,6 +74,7 @@ class PredicateTranslator(CommonTranslator):
         member of the family, a method that checks that it is self-framing.
         """
         no_info = self.no_info(ctx)
+        ctx.module = root.module
         dependencies = {}
         for pred in preds:
             value = {pred.overrides} if pred.overrides else set()
@@ -152,6 +153,9 @@ class PredicateTranslator(CommonTranslator):
             instance_type = self.type_factory.translate_type_literal(instance.cls, instance_pos, ctx,
                                                                      alias=self_var_type_expr)
             type_not_instance = self.viper.NeCmp(self_var_type_expr, instance_type, instance_pos, no_info)
+            pos_with_rule = self.to_position(instance.node, ctx, rules=rules.PRED_FAM_MEMBER_NOT_FRAMED)
+            # All other members may be from other modules.
+            ctx.module = root.module
             unknown_type_condition = self.viper.And(unknown_type_condition, type_not_instance, unknown_type_pos, no_info)
             ctx.current_function = None
             if body:
@@ -160,7 +164,6 @@ class PredicateTranslator(CommonTranslator):
             else:
                 body = implication
             self_frame_method_name = root.module.get_fresh_name(root.name + '_' + instance.name + 'frame_check')
-            pos_with_rule = self.to_position(instance.node, ctx, rules=rules.PRED_FAM_MEMBER_NOT_FRAMED)
             current_with_rule = self.viper.And(true_lit, current, pos_with_rule, no_info)
             self_frame_method = self.viper.Method(self_frame_method_name, args, [],
                                                   [arg_types, has_type, current_with_rule],
diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 888704d..efc711c 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -224,7 +224,8 @@ class ProgramTranslator(CommonTranslator):
         """
         old_function = ctx.current_function
         ctx.current_function = method
-        pos = self.viper.to_position(cls.node, ctx.position, py_node=method)
+        pos = self.viper.to_position(cls.node, ctx.position, file=cls.module.file,
+                                     py_node=method)
         ctx.position.append(('inheritance', pos))
         self.info = self.viper.SimpleInfo(['behavioural.subtyping'])
 
@@ -252,6 +253,9 @@ class ProgramTranslator(CommonTranslator):
 
         mname = ctx.module.get_fresh_name(cls.name + '_' + method.name +
                                           '_inherit_check')
+        # The inherited method may be from another module.
+        old_module = ctx.module
+        ctx.module = method.module
         pres, posts = self.extract_contract(method, ERROR_NAME,
                                             False, ctx)
         if method.method_type == MethodType.normal:
@@ -277,6 +281,7 @@ class ProgramTranslator(CommonTranslator):
             self.no_position(ctx), self.no_info(ctx),
             method=method, overriding_check=True)
 
+        ctx.module = old_module
         ctx.current_function = old_function
 
         ctx.position.pop()
@@ -293,7 +298,8 @@ class ProgramTranslator(CommonTranslator):
         assert not method.pure
         old_function = ctx.current_function
         ctx.current_function = method.overrides
-        pos = self.viper.to_position(method.node, ctx.position, py_node=method)
+        pos = self.viper.to_position(method.node, ctx.position,
+                                     file=method.module.file, py_node=method)
         ctx.position.append(('override', pos))
         self.info = self.viper.SimpleInfo(['behavioural.subtyping'])
         self._check_override_validity(method, ctx)
@@ -315,8 +321,12 @@ class ProgramTranslator(CommonTranslator):
         self.bind_type_vars(method.overrides, ctx)
 
         mname = ctx.module.get_fresh_name(method.sil_name + '_override_check')
+        # The overridden method may be from another module.
+        old_module = ctx.module
+        ctx.module = method.overrides.module
         pres, posts = self.extract_contract(method.overrides, '_err',
                                             False, ctx)
+        ctx.module = old_module
         self_arg = None
         has_subtype = None
         if method.cls and method.method_type == MethodType.normal:
@@ -400,7 +410,9 @@ class ProgramTranslator(CommonTranslator):
                 default_checks.append(assertion)
         ctx.position.append(('overridden method',
                              self.viper.to_position(method.overrides.node,
-                                                    ctx.position, py_node=method)))
+                                                    ctx.position,
+                                                    file=method.overrides.module.file,
+                                                    py_node=method)))
         call = self.create_method_call_node(
             ctx, calledname, args, targets,
             self.to_position(method.node, ctx), self.no_info(ctx),
@@ -1508,6 +1520,7 @@ class ProgramTranslator(CommonTranslator):
         # IO operations are translated last because we need to know which functions are
         # used with Eval.
         for module in modules:
+            ctx.module = module
             for operation in module.io_operations.values():
                 if module is not module.global_module:
                     all_names.append(operation.sil_name)
-- 
2.43.0


From 8e3eb4c846ec01f6972d72f0b1d16ca53db07cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:41 +0000
Subject: [PATCH 50/72] fix: break and continue leave only the try and with
 blocks that are inside their loop

---
 src/nagini_translation/lib/util.py            | 13 +++
 src/nagini_translation/translators/method.py  |  6 +-
 .../translators/statement.py                  | 86 ++++++++-----------
 3 files changed, 52 insertions(+), 53 deletions(-)

diff --git a/src/nagini_translation/lib/util.py b/src/nagini_translation/lib/util.py
index 8abe593..abed7c2 100644
--- a/src/nagini_translation/lib/util.py
+++ b/src/nagini_translation/lib/util.py
@@ -284,6 +284,19 @@ def get_parent_of_type(node: ast.AST, typ: type) -> ast.AST:
     return None
 
 
+def get_surrounding_loop(node: ast.AST) -> Optional[ast.AST]:
+    """
+    Returns the loop that a break or continue at node belongs to, which is the
+    innermost one that has node in its body, and not in its else block.
+    """
+    while not isinstance(node, (ast.Module, ast.FunctionDef)):
+        parent = node._parent
+        if isinstance(parent, (ast.While, ast.For)) and node not in parent.orelse:
+            return parent
+        node = parent
+    return None
+
+
 def join_expressions(operator: Callable[[T, T], T],
                      expressions: List[T]) -> T:
     """
diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index 3fc91ec..5da09c9 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -39,7 +39,7 @@ from nagini_translation.lib.typedefs import (
 from nagini_translation.lib.util import (
     flatten,
     get_body_indices,
-    get_parent_of_type,
+    get_surrounding_loop,
     get_surrounding_try_blocks,
     InvalidProgramException,
     isEllipsis,
@@ -672,7 +672,7 @@ class MethodTranslator(CommonTranslator):
         label = self.viper.Label(label_name,
                                  self.to_position(block.node, ctx),
                                  self.no_info(ctx))
-        loop = get_parent_of_type(block.node, (ast.While, ast.For))
+        loop = get_surrounding_loop(block.node)
         body = [label]
         if block.finally_block:
             for stmt in block.finally_block:
@@ -716,7 +716,7 @@ class MethodTranslator(CommonTranslator):
                                            block.node)
         tries_in_same_loop = []
         if loop is not None:
-            tries_in_same_loop = [t for t in tries if get_parent_of_type(t.node, (ast.While, ast.For)) is loop]
+            tries_in_same_loop = [t for t in tries if get_surrounding_loop(t.node) is loop]
 
         post_label = ctx.get_label_name(block.post_name)
         goto_post = self.viper.Goto(post_label, pos, info)
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 1e5bdc5..86a5716 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -57,7 +57,7 @@ from nagini_translation.lib.util import (
     contains_stmt,
     flatten,
     get_body_indices,
-    get_parent_of_type,
+    get_surrounding_loop,
     get_surrounding_try_blocks,
     InvalidProgramException,
     is_get_ghost_output,
@@ -1775,62 +1775,59 @@ class StatementTranslator(CommonTranslator):
             result.append(error_none)
         return result
 
-    def translate_stmt_Break(self, node: ast.Break, ctx: Context) -> List[Stmt]:
-        loop = get_parent_of_type(node, (ast.While, ast.For))
-        loop_and_label = self.loops[loop]
-        result = self.viper.Goto(loop_and_label[0], self.to_position(node, ctx),
-                                 self.no_info(ctx))
-
+    def _exit_tries(self, node: ast.AST, loop: ast.AST, code: int,
+                    ctx: Context) -> Optional[List[Stmt]]:
+        """
+        If leaving from node with the given exit code (1 is return, 3 is break,
+        4 is continue) leaves a try block with a finally block, or a with
+        block, creates the statements that jump to its end. If a loop is
+        given, only blocks that are inside this loop are left.
+        """
         tries = get_surrounding_try_blocks(ctx.actual_function.try_blocks,
                                            node)
         for try_block in tries:
+            if loop is not None and not contains_stmt(loop, try_block.node):
+                continue
             if try_block.finally_block or try_block.with_item:
-                lhs = try_block.get_finally_var(self.translator).ref()
-                rhs = self.viper.IntLit(3, self.no_position(ctx),
+                finally_var = try_block.get_finally_var(self.translator)
+                if finally_var.sil_name in ctx.var_aliases:
+                    finally_var = ctx.var_aliases[finally_var.sil_name]
+                rhs = self.viper.IntLit(code, self.no_position(ctx),
                                         self.no_info(ctx))
-                finally_assign = self.viper.LocalVarAssign(lhs, rhs,
+                finally_assign = self.viper.LocalVarAssign(finally_var.ref(), rhs,
                                                            self.no_position(ctx), self.no_info(ctx))
                 label_name = ctx.get_label_name(try_block.finally_name)
                 jmp = self.viper.Goto(label_name,
                                       self.to_position(node, ctx),
                                       self.no_info(ctx))
                 return [finally_assign, jmp]
-        return [result]
+        return None
+
+    def translate_stmt_Break(self, node: ast.Break, ctx: Context) -> List[Stmt]:
+        loop = get_surrounding_loop(node)
+        result = self._exit_tries(node, loop, 3, ctx)
+        if result is not None:
+            return result
+        return [self.viper.Goto(self.loops[loop][0], self.to_position(node, ctx),
+                                self.no_info(ctx))]
 
     def translate_stmt_Continue(self, node: ast.Continue,
                                 ctx: Context) -> List[Stmt]:
 
+        loop = get_surrounding_loop(node)
         parent = node
-        # Find the loop surrounding this node.
-        while not isinstance(parent._parent, (ast.While, ast.For)):
+        while parent._parent is not loop:
             # If we find, on the way, that we're in a try block, namely in the finally branch
             if isinstance(parent._parent, ast.Try) and parent in parent._parent.finalbody:
                 # this is illegal in Python any mypy doesn't check it.
                 raise InvalidProgramException(node, 'continue.in.finally')
-            else:
-                parent = parent._parent
-
-        loop = parent._parent
-        loop_and_label = self.loops[loop]
-        result = self.viper.Goto(loop_and_label[1], self.to_position(node, ctx),
-                                 self.no_info(ctx))
+            parent = parent._parent
 
-        tries = get_surrounding_try_blocks(ctx.actual_function.try_blocks,
-                                           node)
-        for try_block in tries:
-            if try_block.finally_block or try_block.with_item:
-                lhs = try_block.get_finally_var(self.translator).ref()
-                rhs = self.viper.IntLit(4, self.no_position(ctx),
-                                        self.no_info(ctx))
-                finally_assign = self.viper.LocalVarAssign(lhs, rhs,
-                                                           self.no_position(ctx), self.no_info(ctx))
-                label_name = ctx.get_label_name(try_block.finally_name)
-                jmp = self.viper.Goto(label_name,
-                                      self.to_position(node, ctx),
-                                      self.no_info(ctx))
-                return [finally_assign, jmp]
-
-        return [result]
+        result = self._exit_tries(node, loop, 4, ctx)
+        if result is not None:
+            return result
+        return [self.viper.Goto(self.loops[loop][1], self.to_position(node, ctx),
+                                self.no_info(ctx))]
 
     def _translate_return(self, node: ast.Return, ctx: Context) -> List[Stmt]:
         if not node.value:
@@ -1854,20 +1851,9 @@ class StatementTranslator(CommonTranslator):
     def translate_stmt_Return(self, node: ast.Return,
                               ctx: Context) -> List[Stmt]:
         return_stmts = self._translate_return(node, ctx)
-        tries = get_surrounding_try_blocks(ctx.actual_function.try_blocks,
-                                           node)
-        for try_block in tries:
-            if try_block.finally_block or try_block.with_item:
-                lhs = try_block.get_finally_var(self.translator).ref()
-                rhs = self.viper.IntLit(1, self.no_position(ctx),
-                                        self.no_info(ctx))
-                finally_assign = self.viper.LocalVarAssign(lhs, rhs,
-                    self.no_position(ctx), self.no_info(ctx))
-                label_name = ctx.get_label_name(try_block.finally_name)
-                jmp = self.viper.Goto(label_name,
-                                      self.to_position(node, ctx),
-                                      self.no_info(ctx))
-                return return_stmts + [finally_assign, jmp]
+        exit_stmts = self._exit_tries(node, None, 1, ctx)
+        if exit_stmts is not None:
+            return return_stmts + exit_stmts
         end_label = ctx.get_label_name(END_LABEL)
         jmp_to_end = self.viper.Goto(end_label, self.to_position(node, ctx),
                                      self.no_info(ctx))
-- 
2.43.0


From 59dcc827f3f4d7d42028cef1ff7b8f0e7fe00d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:22 +0000
Subject: [PATCH 51/72] fix: a loop in a finally block does not reset the
 result that is returned afterwards

---
 .../sif/translators/statement.py              |  2 +-
 .../translators/statement.py                  | 44 +++++++++++++++----
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/nagini_translation/sif/translators/statement.py b/src/nagini_translation/sif/translators/statement.py
index 3a1691c..a4b9934 100644
--- a/src/nagini_translation/sif/translators/statement.py
+++ b/src/nagini_translation/sif/translators/statement.py
@@ -51,7 +51,7 @@ class SIFStatementTranslator(StatementTranslator):
 
     def _while_postamble(self, node: ast.While, post_label: str,
                          ctx: Context) -> List[Stmt]:
-        return self._set_result_none(ctx)
+        return self._set_result_none(node, ctx)
 
     def _translate_while_body(self, node: ast.While, ctx: Context,
                               end_label: str) -> List[Stmt]:
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 86a5716..8b9b1b5 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -77,6 +77,8 @@ class StatementTranslator(CommonTranslator):
         super().__init__(config, jvm, source_file, type_info, viper_ast)
         # Keep track of the end and after labels of loops we are currently in.
         self.loops = {}
+        # Variables holding the results that are returned after certain loops.
+        self.saved_results = {}
         self.imported_modules = set()
         self.in_terminating_block = False
 
@@ -759,6 +761,7 @@ class StatementTranslator(CommonTranslator):
     def translate_stmt_For(self, node: ast.For, ctx: Context) -> List[Stmt]:
         position = self.to_position(node, ctx)
         info = self.no_info(ctx)
+        save_result = self._save_result(node, ctx)
         post_label = ctx.actual_function.get_fresh_name('post_loop')
         end_label = ctx.actual_function.get_fresh_name('loop_end')
         node.post_label = post_label
@@ -869,9 +872,9 @@ class StatementTranslator(CommonTranslator):
         iter_del = self._get_iterator_delete(iter_var, node, ctx)
         self.leave_loop_translation(ctx)
         del ctx.loop_iterators[node]
-        result = (iterable_stmt + iter_assign + next_call + cond_low + assign_stmt +
+        result = (save_result + iterable_stmt + iter_assign + next_call + cond_low + assign_stmt +
                   [seq_temp_assign] + loop + iter_del)
-        result += self._set_result_none(ctx)
+        result += self._set_result_none(node, ctx)
         if node.orelse:
             translated_block = flatten([self.translate_stmt(stmt, ctx) for stmt
                                         in node.orelse])
@@ -887,7 +890,7 @@ class StatementTranslator(CommonTranslator):
                 result += translated_block
         # Label for break to jump to
         result.append(self.viper.Label(post_label, position, info))
-        result += self._set_result_none(ctx)
+        result += self._set_result_none(node, ctx)
         return result
 
     def translate_stmt_Assert(self, node: ast.Assert,
@@ -1696,11 +1699,12 @@ class StatementTranslator(CommonTranslator):
     def _while_postamble(self, node: ast.While, post_label: str, ctx: Context) -> List[Stmt]:
         postamble = [self.viper.Label(post_label, self.to_position(node, ctx),
                                       self.no_info(ctx))]
-        postamble += self._set_result_none(ctx)
+        postamble += self._set_result_none(node, ctx)
         return postamble
 
     def translate_stmt_While(self, node: ast.While,
                              ctx: Context) -> List[Stmt]:
+        save_result = self._save_result(node, ctx)
         post_label = ctx.actual_function.get_fresh_name('post_loop')
         end_label = ctx.actual_function.get_fresh_name('loop_end')
         node.post_label = post_label
@@ -1741,7 +1745,7 @@ class StatementTranslator(CommonTranslator):
             else:
                 loop += translated_block
         loop += self._while_postamble(node, post_label, ctx)
-        return loop
+        return save_result + loop
 
     def enter_loop_translation(
             self, node: Union[ast.While, ast.For], post_label: str,
@@ -1753,18 +1757,42 @@ class StatementTranslator(CommonTranslator):
     def leave_loop_translation(self, ctx: Context) -> None:
         super().leave_loop_translation(ctx)
 
-    def _set_result_none(self, ctx: Context) -> List[Stmt]:
+    def _save_result(self, loop: ast.AST, ctx: Context) -> List[Stmt]:
+        """
+        If loop is in a finally block, the result variable may already contain
+        the value that is returned afterwards; stores it to be able to restore
+        it after the loop.
+        """
+        if not ctx.actual_function.type:
+            return []
+        node = loop
+        while not isinstance(node, (ast.Module, ast.FunctionDef)):
+            if isinstance(node._parent, ast.Try) and node in node._parent.finalbody:
+                saved = ctx.current_function.create_variable(
+                    'saved_res', ctx.actual_function.type, self.translator)
+                self.saved_results[loop] = saved
+                return [self.viper.LocalVarAssign(saved.ref(), ctx.result_var.ref(),
+                                                  self.no_position(ctx),
+                                                  self.no_info(ctx))]
+            node = node._parent
+        return []
+
+    def _set_result_none(self, loop: ast.AST, ctx: Context) -> List[Stmt]:
         """
         Sets the return variable of the current function to null (the default
         return variable), to be used after loops which may havoc the result
-        variable (if there is a return within the loop body).
+        variable (if there is a return within the loop body). If the loop is
+        in a finally block, restores the previous value instead.
         """
         result = []
         null = self.viper.NullLit(self.no_position(ctx), self.no_info(ctx))
         if ctx.actual_function.type:
+            value = null
+            if loop in self.saved_results:
+                value = self.saved_results[loop].ref()
             result_none = self.viper.LocalVarAssign(
                 ctx.result_var.ref(),
-                null, self.no_position(ctx),
+                value, self.no_position(ctx),
                 self.no_info(ctx))
             result.append(result_none)
         # Do the same for the error variable
-- 
2.43.0


From 7355c6d11a0467c79c44f57b8109500f22de5eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:58 +0000
Subject: [PATCH 52/72] fix: the right hand side of an assignment is evaluated
 before its targets are assigned

---
 src/nagini_translation/translators/statement.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 8b9b1b5..2b07af3 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1657,6 +1657,14 @@ class StatementTranslator(CommonTranslator):
         rhs_type = self.get_type(node.value, ctx)
         rhs_stmt, rhs = self.translate_expr(node.value, ctx)
         assign_stmts = []
+        if len(node.targets) > 1 or isinstance(node.targets[0], (ast.Tuple, ast.List)):
+            # The right hand side is evaluated before any target is assigned.
+            rhs_var = ctx.current_function.create_variable('rhs', rhs_type,
+                                                           self.translator)
+            assign_stmts.append(self.viper.LocalVarAssign(rhs_var.ref(), rhs,
+                                                          self.to_position(node, ctx),
+                                                          self.no_info(ctx)))
+            rhs = rhs_var.ref()
         for target in node.targets:
             target_stmt, _ = self.assign_to(target, rhs, None, None, rhs_type,
                                             node, ctx, allow_impure=True)
-- 
2.43.0


From 0a81ca0dc6a49500b8dc206a3286c53c0ed580ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:37 +0000
Subject: [PATCH 53/72] fix: the finally block of a try statement also protects
 its handlers and its else block

---
 src/nagini_translation/analyzer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 4e49ebc..1dab301 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -1919,6 +1919,15 @@ class Analyzer(ast.NodeVisitor):
         """
         Creates PythonTryBlocks and PythonExceptionHandlers.
         """
+        if node.finalbody and (node.handlers or node.orelse):
+            # The finally block also protects the handlers and the else block,
+            # so they belong to a separate try block inside of it.
+            inner = ast.copy_location(
+                ast.Try(node.body, node.handlers, node.orelse, []), node)
+            inner._parent = node
+            for child in ast.iter_child_nodes(inner):
+                child._parent = inner
+            node.body, node.handlers, node.orelse = [inner], [], []
         try_name = self.stmt_container.get_fresh_name('try')
         try_block = PythonTryBlock(node, try_name, self.node_factory,
                                    self.stmt_container, node.body)
-- 
2.43.0


From bb08a736206d6b0dee9647575b46a1fa7aaf3d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:34 +0000
Subject: [PATCH 54/72] fix: an exception that leaves inner try or with blocks
 reaches the outer handlers, and __exit__ is called on the way

---
 src/nagini_translation/translators/common.py  | 14 ++++
 .../translators/expression.py                 | 13 +++-
 src/nagini_translation/translators/method.py  | 72 +++++++++----------
 3 files changed, 60 insertions(+), 39 deletions(-)

diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index e729a7b..469cd4d 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -43,6 +43,7 @@ from nagini_translation.lib.program_nodes import (
     PythonMethod,
     PythonModule,
     PythonNode,
+    PythonTryBlock,
     PythonType,
     PythonVar,
     toposort_classes,
@@ -866,6 +867,19 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
                 ctx.module.global_module.classes['Exception'], self.translator)
             return new_var.ref()
 
+    def assign_error_var(self, block: PythonTryBlock,
+                         error: 'silver.ast.LocalVarRef', ctx: Context) -> Stmt:
+        """
+        Creates a statement that stores the given error in the error variable
+        of the given try block, to be used when the block handles the error.
+        """
+        err_var = block.get_error_var(self.translator)
+        if err_var.sil_name in ctx.var_aliases:
+            err_var = ctx.var_aliases[err_var.sil_name]
+        return self.viper.LocalVarAssign(err_var.ref(), error,
+                                         self.no_position(ctx),
+                                         self.no_info(ctx))
+
     def var_type_check(self, name: str, type: PythonType,
                        position: 'silver.ast.Position',
                        ctx: Context, inhale_exhale: bool=True) -> Expr:
diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index d2311b7..ab7fd36 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -811,7 +811,7 @@ class ExpressionTranslator(CommonTranslator):
         position = self.to_position(call, ctx)
         err_var = ctx.error_var.ref()
         relevant_try_blocks = get_surrounding_try_blocks(try_blocks, call)
-        goto_finally = self._create_goto_finally(relevant_try_blocks, ctx)
+        goto_finally = self._create_goto_finally(relevant_try_blocks, var, ctx)
         if goto_finally:
             uncaught_option = goto_finally
         else:
@@ -845,8 +845,12 @@ class ExpressionTranslator(CommonTranslator):
                 goto = self.viper.Goto(label_name,
                                        self.to_position(handler.node, ctx),
                                        self.no_info(ctx))
+                if block is not relevant_try_blocks[0]:
+                    goto = self.translate_block(
+                        [self.assign_error_var(block, var, ctx), goto],
+                        self.to_position(handler.node, ctx), self.no_info(ctx))
                 cases.insert(0, (condition, goto))
-            if block.finally_block:
+            if block.finally_block or block.with_item:
                 break
 
         result = None
@@ -877,10 +881,11 @@ class ExpressionTranslator(CommonTranslator):
         return [errcheck]
 
     def _create_goto_finally(self, tries: List[PythonTryBlock],
+                             var: 'silver.ast.LocalVarRef',
                              ctx: Context) -> Optional[Stmt]:
         """
         If any of the blocks in tries has a finally-block, creates and
-        returns the statements to jump there.
+        returns the statements to jump there with the exception in var.
         """
         for try_ in tries:
             if try_.finally_block or try_.with_item:
@@ -900,6 +905,8 @@ class ExpressionTranslator(CommonTranslator):
                                             self.no_position(ctx),
                                             self.no_info(ctx))
                 return_block = [next_assign, goto_next]
+                if try_ is not tries[0]:
+                    return_block.insert(0, self.assign_error_var(try_, var, ctx))
                 result = self.translate_block(return_block,
                                               self.no_position(ctx),
                                               self.no_info(ctx))
diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index 5da09c9..ad37a9a 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -660,6 +660,21 @@ class MethodTranslator(CommonTranslator):
         else_block = self.translate_block(no_error_case, pos, info)
         return self.viper.If(error_cond, then_block, else_block, pos, info)
 
+    def _propagate_finally(self, target: PythonTryBlock, finally_var: PythonVar,
+                           pos: Position, ctx: Context) -> List[Stmt]:
+        """
+        Jumps to the end of the given surrounding block, from where control flow
+        proceeds as stated by the current value of finally_var.
+        """
+        info = self.no_info(ctx)
+        var_next = target.get_finally_var(self.translator)
+        if var_next.sil_name in ctx.var_aliases:
+            var_next = ctx.var_aliases[var_next.sil_name]
+        next_assign = self.viper.LocalVarAssign(var_next.ref(), finally_var.ref(),
+                                                pos, info)
+        next_label = ctx.get_label_name(target.finally_name)
+        return [next_assign, self.viper.Goto(next_label, pos, info)]
+
     def translate_finally(self, block: PythonTryBlock,
                           ctx: Context) -> List[Stmt]:
         """
@@ -724,30 +739,22 @@ class MethodTranslator(CommonTranslator):
         goto_end = self.viper.Goto(end_label, pos, info)
         empty_stmt = self.translate_block([], pos, info)
 
+        block_error_var = block.get_error_var(self.translator)
+        if block_error_var.sil_name in ctx.var_aliases:
+            block_error_var = ctx.var_aliases[block_error_var.sil_name]
+
         except_block = []
-        return_block = []
         for current in tries:
-            if not return_block and current.finally_block:
-                # Propagate finally var value
-                var_next = current.get_finally_var(self.translator)
-                if var_next.sil_name in ctx.var_aliases:
-                    var_next = ctx.var_aliases[var_next.sil_name]
-                next_assign = self.viper.LocalVarAssign(var_next.ref(),
-                                                        finally_var.ref(),
-                                                        pos, info)
-                # Goto finally block
-                next_label = ctx.get_label_name(current.finally_name)
-                goto_next = self.viper.Goto(next_label, pos, info)
-                return_block = [next_assign, goto_next]
+            if current.handlers or current.finally_block or current.with_item:
+                except_block.append(self.assign_error_var(current,
+                                                          block_error_var.ref(),
+                                                          ctx))
             for handler in current.handlers:
                 # If handler applies,
                 # goto handler
-                err_var = block.get_error_var(self.translator)
-                if err_var.sil_name in ctx.var_aliases:
-                    err_var = ctx.var_aliases[err_var.sil_name]
                 condition_pos = self.to_position(handler.node, ctx,
                                                  error_string='(isinstance(RaisedException(), {0}))'.format(handler.exception.name))
-                condition = self.var_type_check(err_var.sil_name,
+                condition = self.var_type_check(block_error_var.sil_name,
                                                 handler.exception,
                                                 condition_pos,
                                                 ctx, inhale_exhale=False)
@@ -756,26 +763,22 @@ class MethodTranslator(CommonTranslator):
                 if_handler = self.viper.If(condition, goto, empty_stmt, pos,
                                            info)
                 except_block.append(if_handler)
-            if current.finally_block:
+            if current.finally_block or current.with_item:
                 # Propagate finally var value
                 # Goto finally block
-                except_block += return_block
+                except_block += self._propagate_finally(current, finally_var, pos, ctx)
+                break
+        return_block = []
+        for current in tries:
+            if current.finally_block or current.with_item:
+                return_block = self._propagate_finally(current, finally_var, pos, ctx)
                 break
         break_block = []
         for current in tries_in_same_loop:
-            if not break_block and current.finally_block:
-                # Propagate finally var value
-                var_next = current.get_finally_var(self.translator)
-                if var_next.sil_name in ctx.var_aliases:
-                    var_next = ctx.var_aliases[var_next.sil_name]
-                next_assign = self.viper.LocalVarAssign(var_next.ref(),
-                                                        finally_var.ref(),
-                                                        pos, info)
-                # Goto finally block
-                next_label = ctx.get_label_name(current.finally_name)
-                goto_next = self.viper.Goto(next_label, pos, info)
-                break_block = [next_assign, goto_next]
-                continue_block = [next_assign, goto_next]
+            if current.finally_block or current.with_item:
+                break_block = self._propagate_finally(current, finally_var, pos, ctx)
+                continue_block = break_block
+                break
         if not return_block:
             return_block = [goto_end]
         if loop and not break_block:
@@ -786,9 +789,6 @@ class MethodTranslator(CommonTranslator):
         if ctx.actual_function.declared_exceptions or ctx.actual_function.inline:
             # Assign error to error output var
             error_var = ctx.error_var.ref()
-            block_error_var = block.get_error_var(self.translator)
-            if block_error_var.sil_name in ctx.var_aliases:
-                block_error_var = ctx.var_aliases[block_error_var.sil_name]
             assign = self.viper.LocalVarAssign(
                 error_var, block_error_var.ref(), pos, info)
             except_block.append(assign)
@@ -877,7 +877,7 @@ class MethodTranslator(CommonTranslator):
             var_set = self.viper.LocalVarAssign(lhs, rhs, no_position, no_info)
             next_var_set = [var_set]
         else:
-            next = 'post_' + handler.try_block.name
+            next = handler.try_block.post_name
             next_var_set = []
         label_name = ctx.get_label_name(next)
         goto_end = self.viper.Goto(label_name,
-- 
2.43.0


From ae482e53fafee9fbab87132099c6e8dc348ef944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:48 +0000
Subject: [PATCH 55/72] fix: handlers, finally blocks and with blocks use the
 current values of parameters, and __exit__ gets an exception only if there is
 one

---
 src/nagini_translation/lib/program_nodes.py   |  2 ++
 src/nagini_translation/translators/common.py  |  2 +-
 src/nagini_translation/translators/method.py  | 27 ++++++++++++++-----
 .../translators/statement.py                  |  3 ++-
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index 82e580b..22602e5 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -1557,6 +1557,8 @@ class PythonTryBlock(PythonNode):
         self.post_name = None
         self.with_item = None
         self.with_var = None
+        # Variable aliases at the end of the protected region, by the label
+        # behind the block (which is different for every inlining).
         self.handler_aliases = {}
         method.labels.append(try_name)
 
diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index 469cd4d..4874bfe 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -926,7 +926,7 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
                     stmts += self.translate_handler(handler, ctx)
                 if block.else_block:
                     stmts += self.translate_handler(block.else_block, ctx)
-                if block.finally_block:
+                if block.finally_block or block.with_item:
                     stmts += self.translate_finally(block, ctx)
             ctx.inlined_calls.remove(added_method)
         ctx.added_handlers = []
diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index ad37a9a..8e30193 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -631,10 +631,15 @@ class MethodTranslator(CommonTranslator):
         """
         info = self.no_info(ctx)
         null = self.viper.NullLit(pos, info)
-        one = self.viper.IntLit(1, pos, info)
+        two = self.viper.IntLit(2, pos, info)
         code_var = block.get_finally_var(self.translator)
+        if code_var.sil_name in ctx.var_aliases:
+            code_var = ctx.var_aliases[code_var.sil_name]
+        error_var = block.get_error_var(self.translator)
+        if error_var.sil_name in ctx.var_aliases:
+            error_var = ctx.var_aliases[error_var.sil_name]
         # This condition would show up as a branch condition if it had a position; we hide it.
-        error_cond = self.viper.GtCmp(code_var.ref(), one, self.no_position(ctx), info)
+        error_cond = self.viper.EqCmp(code_var.ref(), two, self.no_position(ctx), info)
         error_case = []
         no_error_case = []
         # FIXME: Cannot currently assign None to type variable, because types
@@ -644,18 +649,22 @@ class MethodTranslator(CommonTranslator):
             no_error_case.append(assign)
 
         value_assign = self.viper.LocalVarAssign(value_var.ref(),
-                                                 block.error_var.ref(), pos,
+                                                 error_var.ref(), pos,
                                                  info)
         error_case.append(value_assign)
-        error_type = self.type_factory.typeof(block.error_var.ref(), ctx)
+        error_type = self.type_factory.typeof(error_var.ref(), ctx)
         type_assign = self.viper.LocalVarAssign(type_var.ref(), error_type,
                                                 pos, info)
         error_case.append(type_assign)
 
         tb_class = ctx.module.global_module.classes['traceback']
-        tb_type = self.type_check(traceback_var.ref(), tb_class, pos, ctx)
+        some_tb = ctx.current_function.create_variable('some_tb', tb_class,
+                                                       self.translator)
+        tb_type = self.type_check(some_tb.ref(), tb_class, pos, ctx)
         inhale_types = self.viper.Inhale(tb_type, pos, info)
         error_case.append(inhale_types)
+        error_case.append(self.viper.LocalVarAssign(traceback_var.ref(),
+                                                    some_tb.ref(), pos, info))
         then_block = self.translate_block(error_case, pos, info)
         else_block = self.translate_block(no_error_case, pos, info)
         return self.viper.If(error_cond, then_block, else_block, pos, info)
@@ -688,6 +697,9 @@ class MethodTranslator(CommonTranslator):
                                  self.to_position(block.node, ctx),
                                  self.no_info(ctx))
         loop = get_surrounding_loop(block.node)
+        post_label = ctx.get_label_name(block.post_name)
+        old_var_aliases = ctx.var_aliases
+        ctx.var_aliases = block.handler_aliases[post_label].copy()
         body = [label]
         if block.finally_block:
             for stmt in block.finally_block:
@@ -733,7 +745,6 @@ class MethodTranslator(CommonTranslator):
         if loop is not None:
             tries_in_same_loop = [t for t in tries if get_surrounding_loop(t.node) is loop]
 
-        post_label = ctx.get_label_name(block.post_name)
         goto_post = self.viper.Goto(post_label, pos, info)
         end_label = ctx.get_label_name(END_LABEL)
         goto_end = self.viper.Goto(end_label, pos, info)
@@ -837,6 +848,7 @@ class MethodTranslator(CommonTranslator):
             if_continue = self.viper.If(is_four, continue_block, if_break, pos, info)
             top_level_if = if_continue
         body += [top_level_if]
+        ctx.var_aliases = old_var_aliases
         return body
 
     def translate_handler(self, handler: PythonExceptionHandler,
@@ -850,7 +862,8 @@ class MethodTranslator(CommonTranslator):
                                  self.to_position(handler.node, ctx),
                                  self.no_info(ctx))
         old_var_aliases = ctx.var_aliases
-        ctx.var_aliases = handler.try_block.handler_aliases
+        post_label = ctx.get_label_name(handler.try_block.post_name)
+        ctx.var_aliases = handler.try_block.handler_aliases[post_label].copy()
         no_position = self.no_position(ctx)
         no_info = self.no_info(ctx)
         body = []
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 2b07af3..7af92cf 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -956,6 +956,7 @@ class StatementTranslator(CommonTranslator):
         else:
             body = [assign]
         body += flatten([self.translate_stmt(stmt, ctx) for stmt in node.body])
+        try_block.handler_aliases[ctx.get_label_name(try_block.post_name)] = ctx.var_aliases.copy()
         finally_name = ctx.get_label_name(try_block.finally_name)
         goto = self.viper.Goto(finally_name,
                                self.to_position(node, ctx),
@@ -980,7 +981,7 @@ class StatementTranslator(CommonTranslator):
                                            self.no_info(ctx))
         body = [assign]
         body += flatten([self.translate_stmt(stmt, ctx) for stmt in node.body])
-        try_block.handler_aliases = ctx.var_aliases.copy()
+        try_block.handler_aliases[ctx.get_label_name(try_block.post_name)] = ctx.var_aliases.copy()
         if try_block.else_block:
             else_label = ctx.get_label_name(try_block.else_block.name)
             goto = self.viper.Goto(else_label,
-- 
2.43.0


From c86d96abbbedaff3576eb5a16f4f6a31b5d834f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:47 +0000
Subject: [PATCH 56/72] fix: an exception is swallowed if __exit__ returns a
 true value

---
 src/nagini_translation/translators/method.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index 8e30193..6092b3d 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -8,6 +8,7 @@ file, You can obtain one at http://mozilla.org/MPL/2.0/.
 import ast
 
 from nagini_translation.lib.constants import (
+    BOOL_TYPE,
     END_LABEL,
     ERROR_NAME,
     FILE_VAR,
@@ -739,6 +740,24 @@ class MethodTranslator(CommonTranslator):
         finally_var = block.get_finally_var(self.translator)
         if finally_var.sil_name in ctx.var_aliases:
             finally_var = ctx.var_aliases[finally_var.sil_name]
+        if block.with_item and exit_type and exit_type.name != 'NoneType':
+            # If __exit__ returns a true value, the exception is swallowed.
+            no_pos = self.no_position(ctx)
+            exit_true = exit_res.ref()
+            if exit_type.name != BOOL_TYPE:
+                exit_true = self.get_function_call(exit_type, '__bool__', [exit_true],
+                                                   [None], block.node, ctx)
+            swallowed = self.viper.And(
+                self.viper.EqCmp(finally_var.ref(),
+                                 self.viper.IntLit(2, no_pos, info), no_pos, info),
+                self.to_bool(exit_true, ctx), no_pos, info)
+            reset = self.viper.LocalVarAssign(finally_var.ref(),
+                                              self.viper.IntLit(0, no_pos, info),
+                                              no_pos, info)
+            body.append(self.viper.If(swallowed,
+                                      self.translate_block([reset], no_pos, info),
+                                      self.translate_block([], no_pos, info),
+                                      no_pos, info))
         tries = get_surrounding_try_blocks(ctx.actual_function.try_blocks,
                                            block.node)
         tries_in_same_loop = []
-- 
2.43.0


From eadc4619ea62de17a711cc54b4a79e9bd9d83070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:34 +0000
Subject: [PATCH 57/72] fix: operands, arguments and assigned values are
 evaluated before the calls in later operands

---
 src/nagini_translation/translators/call.py    |  5 +++
 src/nagini_translation/translators/common.py  | 35 +++++++++++++++++
 .../translators/expression.py                 | 38 ++++++++++++++-----
 .../translators/statement.py                  | 16 +++++++-
 4 files changed, 83 insertions(+), 11 deletions(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index a51470e..8febf82 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -878,6 +878,7 @@ class CallTranslator(CommonTranslator):
                 # into unpacked_args.
                 arg_stmt, arg_expr = self.translate_expr(arg.value, ctx)
                 arg_type = self.get_type(arg.value, ctx)
+                unpacked_args = self.save_values(unpacked_args, arg_stmts, arg_stmt, ctx)
                 arg_stmts += arg_stmt
 
                 if (isinstance(arg_type, GenericType) and
@@ -901,6 +902,7 @@ class CallTranslator(CommonTranslator):
             else:
                 arg_stmt, arg_expr = self.translate_expr(arg, ctx)
                 arg_type = self.get_type(arg, ctx)
+                unpacked_args = self.save_values(unpacked_args, arg_stmts, arg_stmt, ctx)
                 arg_stmts += arg_stmt
                 unpacked_args.append(arg_expr)
                 unpacked_arg_types.append(arg_type)
@@ -950,6 +952,7 @@ class CallTranslator(CommonTranslator):
                 index = keys.index(kw.arg)
                 arg_stmt, arg_expr = self.translate_expr(kw.value, ctx)
                 arg_type = self.get_type(kw.value, ctx)
+                args = self.save_values(args, arg_stmts, arg_stmt, ctx)
                 arg_stmts += arg_stmt
                 args[index] = arg_expr
                 arg_types[index] = arg_type
@@ -1323,6 +1326,8 @@ class CallTranslator(CommonTranslator):
                 is_predicate = target.predicate
                 receiver_class = target.cls
                 if target.method_type != MethodType.static_method:
+                    recv_stmts = list(recv_stmts)
+                    recv_exprs = self.save_values(recv_exprs, recv_stmts, arg_stmts, ctx)
                     arg_stmts = recv_stmts + arg_stmts
                     args = recv_exprs + args
                     arg_types = recv_types + arg_types
diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index 4874bfe..27934bc 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -880,6 +880,41 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
                                          self.no_position(ctx),
                                          self.no_info(ctx))
 
+    def save_values(self, values: List[Expr], stmts: List[Stmt],
+                    next_stmts: List[Stmt], ctx: Context) -> List[Expr]:
+        """
+        To be used if an expression evaluates to the given values (after
+        executing stmts), before next_stmts are executed. If those statements
+        could change what the values evaluate to, stores them in new variables.
+        Returns expressions which have the same values afterwards.
+        """
+        if not next_stmts:
+            return values
+        result = []
+        for value in values:
+            if (value is False or value is None or
+                    isinstance(value, (self.viper.ast.LocalVar,
+                                       self.viper.ast.IntLit,
+                                       self.viper.ast.NullLit))):
+                result.append(value)
+                continue
+            classes = ctx.module.global_module.classes
+            if value.typ() == self.viper.Ref:
+                type_ = classes[OBJECT_TYPE]
+            elif value.typ() == self.viper.Int:
+                type_ = classes[PRIMITIVE_INT_TYPE]
+            elif value.typ() == self.viper.Bool:
+                type_ = classes[PRIMITIVE_BOOL_TYPE]
+            else:
+                result.append(value)
+                continue
+            var = ctx.current_function.create_variable('operand', type_,
+                                                       self.translator)
+            stmts.append(self.viper.LocalVarAssign(var.ref(), value, value.pos(),
+                                                   self.no_info(ctx)))
+            result.append(var.ref())
+        return result
+
     def var_type_check(self, name: str, type: PythonType,
                        position: 'silver.ast.Position',
                        ctx: Context, inhale_exhale: bool=True) -> Expr:
diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index ab7fd36..2adb71f 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -564,11 +564,13 @@ class ExpressionTranslator(CommonTranslator):
             key_type = self.get_type(key, ctx)
             val_stmt, val_val = self.translate_expr(val, ctx)
             val_type = self.get_type(val, ctx)
+            stmt += key_stmt
+            [key_val] = self.save_values([key_val], stmt, val_stmt, ctx)
             args = [res_var.ref(), key_val, val_val]
             arg_types = [None, key_type, val_type]
             append_call = self.get_method_call(dict_class, '__setitem__', args,
                                                arg_types, [], node, ctx)
-            stmt += key_stmt + val_stmt + append_call
+            stmt += val_stmt + append_call
         return stmt, res_var.ref(node, ctx)
 
     def translate_Set(self, node: ast.Set, ctx: Context) -> StmtsAndExpr:
@@ -592,6 +594,7 @@ class ExpressionTranslator(CommonTranslator):
             el_stmt, el = self.translate_expr(element, ctx)
             check = self.viper.Assert(self.type_check(el, content_type, assert_pos, ctx,
                                                       False), assert_pos, info)
+            elements = self.save_values(elements, stmt, el_stmt, ctx)
             stmt += el_stmt + [check]
             elements.append(el)
         result = res_var.ref(node, ctx)
@@ -624,6 +627,7 @@ class ExpressionTranslator(CommonTranslator):
             el_stmt, el = self.translate_expr(element, ctx)
             check = self.viper.Assert(self.type_check(el, content_type, assert_pos, ctx,
                                                       False), assert_pos, info)
+            elements = self.save_values(elements, stmt, el_stmt, ctx)
             stmt += el_stmt + [check]
             elements.append(el)
 
@@ -718,6 +722,7 @@ class ExpressionTranslator(CommonTranslator):
         val_types = []
         for el in node.elts:
             el_stmt, el_val = self.translate_expr(el, ctx)
+            vals = self.save_values(vals, stmts, el_stmt, ctx)
             stmts += el_stmt
             vals.append(el_val)
             val_types.append(self.get_type(el, ctx))
@@ -758,6 +763,8 @@ class ExpressionTranslator(CommonTranslator):
         index_stmt, index = self.translate_expr(node.slice, ctx,
                                                 target_type=self.viper.Ref)
         index_type = self.get_type(node.slice, ctx)
+        target_stmt = list(target_stmt)
+        [target] = self.save_values([target], target_stmt, index_stmt, ctx)
         args = [target, index]
         arg_types = [target_type, index_type]
         call_stmt, call = self.get_func_or_method_call(target_type, '__getitem__', args,
@@ -1251,7 +1258,9 @@ class ExpressionTranslator(CommonTranslator):
     def translate_BinOp(self, node: ast.BinOp, ctx: Context) -> StmtsAndExpr:
         left_stmt, left = self.translate_expr(node.left, ctx)
         right_stmt, right = self.translate_expr(node.right, ctx)
-        stmt = left_stmt + right_stmt
+        stmt = list(left_stmt)
+        [left] = self.save_values([left], stmt, right_stmt, ctx)
+        stmt += right_stmt
         left_type = self.get_type(node.left, ctx)
         right_type = self.get_type(node.right, ctx)
         op_stmt, result = self.translate_operator(left, right, left_type,
@@ -1443,24 +1452,33 @@ class ExpressionTranslator(CommonTranslator):
         operand_exprs = []
         operand_types = []
         stmts = []
-        for operand in operands:
+        position = self.to_position(node, ctx)
+        info = self.no_info(ctx)
+        comparison = None
+        for i, operand in enumerate(operands):
             operand_stmt, operand_expr = self.translate_expr(operand, ctx)
+            operand_exprs = self.save_values(operand_exprs, stmts, operand_stmt, ctx)
+            if comparison is not None and operand_stmt:
+                # Only evaluated if the comparisons so far are true.
+                [comparison] = self.save_values([comparison], stmts, operand_stmt, ctx)
+                operand_stmt = [self.viper.If(self.to_bool(comparison, ctx),
+                                              self.translate_block(operand_stmt, position, info),
+                                              self.translate_block([], position, info),
+                                              position, info)]
             stmts += operand_stmt
             operand_exprs.append(operand_expr)
             operand_types.append(self.get_type(operand, ctx))
-        position = self.to_position(node, ctx)
-        info = self.no_info(ctx)
-        comparison = None
-        for i, op in enumerate(node.ops):
+            if i == 0:
+                continue
             # Give every pairwise comparison its own source position, so that a
             # verification error (or reported branch condition) caused by a
             # single link of the chain points at exactly that link (e.g. ``b <
             # c``) rather than at the whole comparison. For a non-chained
             # comparison the synthetic node coincides with the original one.
-            pair_node = self._chained_comparison_pair(node, operands, op, i)
+            pair_node = self._chained_comparison_pair(node, operands, node.ops[i - 1], i - 1)
             cmp_stmts, cmp_expr = self._translate_comparison(
-                op, operand_exprs[i], operand_types[i],
-                operand_exprs[i + 1], operand_types[i + 1], pair_node, ctx)
+                node.ops[i - 1], operand_exprs[i - 1], operand_types[i - 1],
+                operand_expr, operand_types[i], pair_node, ctx)
             stmts += cmp_stmts
             comparison = (cmp_expr if comparison is None
                           else self.viper.And(comparison, cmp_expr, position, info))
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 7af92cf..a9753d6 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -452,6 +452,9 @@ class StatementTranslator(CommonTranslator):
         if left_stmt:
             raise InvalidProgramException(node, 'purity.violated')
         stmt, right = self.translate_expr(node.value, ctx)
+        left_stmt = []
+        [left] = self.save_values([left], left_stmt, stmt, ctx)
+        stmt = left_stmt + stmt
 
         inplace_func_name = INPLACE_OPERATOR_FUNCTIONS[type(node.op)]
         inplace_func = left_type.get_compatible_func_or_method(inplace_func_name, [left_type, right_type])
@@ -1406,6 +1409,9 @@ class StatementTranslator(CommonTranslator):
             assert isinstance(lhs, ast.Attribute)
             assert target.setter
             arg_stmt, arg = self.translate_expr(lhs.value, ctx)
+            save_stmt = []
+            [rhs] = self.save_values([rhs], save_stmt, arg_stmt, ctx)
+            arg_stmt = save_stmt + arg_stmt
             call = self.create_method_call_node(ctx, target.setter.sil_name, [arg, rhs],
                                                 [], position, info, target.setter, lhs)
             getter_type = self.translate_type(target.type, ctx)
@@ -1434,6 +1440,9 @@ class StatementTranslator(CommonTranslator):
                                                        position, info, ctx)
                 return stmt + [chained_field_assign], None
         lhs_stmt, var = self.translate_expr(lhs, ctx)
+        save_stmt = []
+        [rhs] = self.save_values([rhs], save_stmt, lhs_stmt, ctx)
+        lhs_stmt = save_stmt + lhs_stmt
         before_assign = []
         after_assign = []
         if isinstance(target, PythonGlobalVar):
@@ -1514,6 +1523,11 @@ class StatementTranslator(CommonTranslator):
         lhs_stmt, target = self.translate_expr(lhs.value, ctx)
         ind_stmt, index = self.translate_expr(lhs.slice, ctx,
                                               target_type=self.viper.Int)
+        target_stmt = []
+        [rhs] = self.save_values([rhs], target_stmt, lhs_stmt + ind_stmt, ctx)
+        target_stmt += lhs_stmt
+        [target] = self.save_values([target], target_stmt, ind_stmt, ctx)
+        target_stmt += ind_stmt
         args = [target, index, rhs]
         arg_types = [None, None, None]
         stmt = self.get_method_call(target_cls, '__setitem__', args,
@@ -1529,7 +1543,7 @@ class StatementTranslator(CommonTranslator):
             item = self.get_function_call(
                 target_cls, '__getitem__', [target, index], [None, None], node, ctx)
             val = self.viper.EqCmp(item, rhs, position, self.no_info(ctx))
-        return lhs_stmt + ind_stmt + stmt, [val]
+        return target_stmt + stmt, [val]
 
     def _assign_to_tuple(self, lhs: ast.Tuple, rhs: Expr, rhs_type: PythonType,
                          node: ast.AST,
-- 
2.43.0


From 160641947958c6d9c07d5a258120dfd50f4b182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:52 +0000
Subject: [PATCH 58/72] fix: an inlined call does not disable the wait level
 constraints of the rest of the program

---
 src/nagini_translation/translators/call.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 8febf82..adb12c2 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1063,6 +1063,7 @@ class CallTranslator(CommonTranslator):
         ctx.inlined_calls.append(method)
         ctx.var_aliases = var_aliases
         ctx.label_aliases = {}
+        old_ignore_waitlevel = ctx.ignore_waitlevel_constraints
         ctx.ignore_waitlevel_constraints = True
 
         # Create local var aliases
@@ -1100,6 +1101,7 @@ class CallTranslator(CommonTranslator):
         ctx.inlined_calls.remove(method)
         ctx.var_aliases = old_var_aliases
         ctx.label_aliases = old_label_aliases
+        ctx.ignore_waitlevel_constraints = old_ignore_waitlevel
         return stmts, end_label
 
     def _inline_call(self, method: PythonMethod, node: ast.Call, is_super: bool,
-- 
2.43.0


From 63428087c5c009e22f244614a1395fdd0bb8d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:52 +0000
Subject: [PATCH 59/72] fix: an inlined method that ends without a return
 statement returns None

---
 src/nagini_translation/translators/call.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index adb12c2..117f696 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1089,10 +1089,14 @@ class CallTranslator(CommonTranslator):
         # Translate body
         start, end = get_body_indices(method.node.body)
         stmts = []
+        pos = self.no_position(ctx)
+        info = self.no_info(ctx)
+
+        if result_var:
+            # The default return value.
+            stmts.append(self.viper.LocalVarAssign(result_var.ref(), self.viper.NullLit(pos, info), pos, info))
 
         if error_var:
-            pos = self.no_position(ctx)
-            info = self.no_info(ctx)
             stmts.append(self.viper.LocalVarAssign(error_var.ref(), self.viper.NullLit(pos, info), pos, info))
 
         for stmt in method.node.body[start:end]:
-- 
2.43.0


From 8165d600db613371cb04e3ecc82d5330dda0556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:44 +0000
Subject: [PATCH 60/72] fix: the check of an inherited method declares all
 parameters and does not assign to them

---
 src/nagini_translation/translators/program.py | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index efc711c..56a09f6 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -236,6 +236,11 @@ class ProgramTranslator(CommonTranslator):
             args.append(arg)
             params.append(arg.decl)
 
+        if method.var_arg:
+            params.append(method.var_arg.decl)
+        if method.kw_arg:
+            params.append(method.kw_arg.decl)
+
         self.bind_type_vars(method, ctx)
 
         results = []
@@ -268,14 +273,27 @@ class ProgramTranslator(CommonTranslator):
                 concrete=True)
             pres = [not_null, new_type] + pres
 
-        stmts, end_lbl = self.inline_method(method, args, method.result,
+        # The body may assign to its parameters, so it gets copies of them.
+        copies = []
+        copy_stmts = []
+        for arg in args:
+            copy = method.create_variable('arg', arg.type, self.translator,
+                                          local=False)
+            copies.append(copy)
+            copy_stmts.append(self.viper.LocalVarAssign(copy.ref(), arg.ref(),
+                                                        self.no_position(ctx),
+                                                        self.no_info(ctx)))
+
+        stmts, end_lbl = self.inline_method(method, copies, method.result,
                                             optional_error_var, ctx)
+        stmts = copy_stmts + stmts
 
         self._create_inherit_check_postamble(stmts, end_lbl, ctx)
 
         locals_after = set(method.locals.values())
         locals_diff = locals_after.symmetric_difference(locals_before)
-        locals = [var.decl for var in locals_diff]
+        locals = [var.decl for var in copies]
+        locals += [var.decl for var in locals_diff]
         result = self.create_method_node(
             ctx, mname, params, results, pres, posts, locals, stmts,
             self.no_position(ctx), self.no_info(ctx),
-- 
2.43.0


From dcf3fa1e88bcbd144b29fb6061a3365ff407e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:28 +0000
Subject: [PATCH 61/72] fix: an inherited constructor is verified for the class
 that inherits it

---
 src/nagini_translation/translators/program.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 56a09f6..077e099 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -272,6 +272,10 @@ class ProgramTranslator(CommonTranslator):
                 next(iter(method.args.values())).ref(), cls, pos, ctx,
                 concrete=True)
             pres = [not_null, new_type] + pres
+        if method.name == '__init__':
+            self_var = next(iter(method.args.values())).ref()
+            pres += [self.get_may_set_predicate(self_var, field, ctx)
+                     for field in cls.all_fields]
 
         # The body may assign to its parameters, so it gets copies of them.
         copies = []
@@ -1495,7 +1499,6 @@ class ProgramTranslator(CommonTranslator):
                 for method_name in cls.all_methods:
                     method = cls.get_method(method_name)
                     if (method.cls and method.cls != cls and
-                            method_name != '__init__' and
                             method.method_type == MethodType.normal and
                             not method.interface and
                             not method.contract_only):
-- 
2.43.0


From 15bd29e07027f3eb4d04add265db14f2f4f78596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:34 +0000
Subject: [PATCH 62/72] fix: defaults of positional arguments were assigned to
 keyword-only ones

---
 src/nagini_translation/analyzer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 1dab301..9ad4f42 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -1080,9 +1080,14 @@ class Analyzer(ast.NodeVisitor):
             self.visit(kw_only, node)
         defaults = node.defaults
         args = list(self.current_function.args.values())
+        # node.defaults belongs to the last arguments that are not keyword-only.
+        positional = args[:len(args) - len(node.kwonlyargs)]
         for index in range(len(defaults)):
-            arg = args[index - len(defaults)]
+            arg = positional[index - len(defaults)]
             arg.default = defaults[index]
+        keyword_only = args[len(positional):]
+        for arg, default in zip(keyword_only, node.kw_defaults):
+            arg.default = default
         if node.vararg:
             arg = node.vararg
             annotated_type = self.typeof(arg)
-- 
2.43.0


From 023d027aef24999985cdbf6b790917e0bc5bf270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:34 +0000
Subject: [PATCH 63/72] fix: type(x) == type(y) was translated to a comparison
 with 'type', receivers' statements were dropped

---
 .../translators/expression.py                 | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 2adb71f..5b7e1e4 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -1380,6 +1380,10 @@ class ExpressionTranslator(CommonTranslator):
                         arg.func.id == 'type'):
                 for other in (node.left, node.comparators[0]):
                     if other is not arg:
+                        if isinstance(other, ast.Call):
+                            # The target of a call is the type of its result.
+                            return (isinstance(other.func, ast.Name) and
+                                    other.func.id == 'type')
                         other_target = self.get_target(other, ctx)
                         if isinstance(other_target, PythonType):
                             return True
@@ -1393,19 +1397,24 @@ class ExpressionTranslator(CommonTranslator):
         else:
             type_call = node.comparators[0]
             type_literal = node.left
-        target = self.get_target(type_literal, ctx)
-        assert isinstance(target, PythonType)
         call_stmt, call = self.translate_expr(type_call, ctx)
         pos = self.to_position(node, ctx)
         info = self.no_info(ctx)
-        type_literal = self.type_factory.translate_type_literal(target.python_class,
-                                                                pos, ctx, alias = call)
+        if isinstance(type_literal, ast.Call):
+            # Both sides are calls of type().
+            literal_stmt, type_literal = self.translate_expr(type_literal, ctx)
+            call_stmt = call_stmt + literal_stmt
+        else:
+            target = self.get_target(type_literal, ctx)
+            assert isinstance(target, PythonType)
+            type_literal = self.type_factory.translate_type_literal(target.python_class,
+                                                                    pos, ctx, alias = call)
         if isinstance(node.ops[0], (ast.Is, ast.Eq)):
             func = self.viper.EqCmp
         else:
             func = self.viper.NeCmp
         comp = func(type_literal, call, pos, info)
-        return [], comp
+        return call_stmt, comp
 
     def translate_thread_method_definition(self, node: ast.Compare,
                                            ctx: Context) -> StmtsAndExpr:
-- 
2.43.0


From 7027057eb59ce85ee495da84ba4b1fd2bbe7acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:34 +0000
Subject: [PATCH 64/72] fix: names a class defines hid parameters, locals and
 globals in its methods and in functions

---
 src/nagini_translation/ghost/ghost_checker.py | 14 ++++++---
 src/nagini_translation/translators/common.py  | 31 ++++++++++++++-----
 src/nagini_translation/translators/program.py |  2 ++
 src/nagini_translation/translators/type.py    | 10 +-----
 4 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/nagini_translation/ghost/ghost_checker.py b/src/nagini_translation/ghost/ghost_checker.py
index 8820fd0..da16ab9 100644
--- a/src/nagini_translation/ghost/ghost_checker.py
+++ b/src/nagini_translation/ghost/ghost_checker.py
@@ -1365,13 +1365,16 @@ class GhostChecker(ast.NodeVisitor):
     def get_target(self, node: ast.AST, ctx: Context) -> Optional[PythonNode]:
         container = ctx.actual_function if ctx.actual_function else ctx.module
         containers = [ctx]
-        if ctx.current_class:
-            containers.append(ctx.current_class)
         if isinstance(container, (PythonMethod, PythonIOOperation)):
             containers.append(container)
             containers.extend(container.module.get_included_modules())
+            if ctx.current_class:
+                # The names a class defines are not in the scope of its methods.
+                containers.append(ctx.current_class)
         else:
             # Assume module
+            if ctx.current_class:
+                containers.append(ctx.current_class)
             containers.extend(container.get_included_modules(()))
         result = do_get_target(node, containers, container)
         return result
@@ -1383,12 +1386,15 @@ class GhostChecker(ast.NodeVisitor):
         """
         container = ctx.actual_function if ctx.actual_function else ctx.module
         containers = [ctx]
-        if ctx.current_class:
-            containers.append(ctx.current_class)
         if isinstance(container, (PythonMethod, PythonIOOperation)):
             containers.append(container)
             containers.extend(container.module.get_included_modules())
+            if ctx.current_class:
+                # The names a class defines are not in the scope of its methods.
+                containers.append(ctx.current_class)
         else:
             # Assume module
+            if ctx.current_class:
+                containers.append(ctx.current_class)
             containers.extend(container.get_included_modules())
         return do_get_type(node, containers, container)
\ No newline at end of file
diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index 27934bc..7f0da55 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -995,17 +995,32 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
 
     def get_target(self, node: ast.AST, ctx: Context) -> PythonModule:
         container = ctx.actual_function if ctx.actual_function else ctx.module
-        containers = [ctx]
-        if ctx.current_class:
-            containers.append(ctx.current_class)
+        containers = self.get_scopes(container, ctx)
+        result = do_get_target(node, containers, container)
+        return result
+
+    def get_scopes(self, container: PythonNode, ctx: Context) -> List[PythonNode]:
+        """
+        Returns the scopes in which names used in the given container are looked up, in
+        this order.
+        """
+        scopes = [ctx]
         if isinstance(container, (PythonMethod, PythonIOOperation)):
-            containers.append(container)
-            containers.extend(container.module.get_included_modules())
+            modules = container.module.get_included_modules()
+            if ctx.current_class and not self.is_main_method(ctx):
+                # The names a class defines are not in the scope of its methods, only its
+                # type variables are.
+                return scopes + [container] + list(modules) + [ctx.current_class]
+            if ctx.current_class:
+                scopes.append(ctx.current_class)
+            scopes.append(container)
         else:
             # Assume module
-            containers.extend(container.get_included_modules(()))
-        result = do_get_target(node, containers, container)
-        return result
+            modules = container.get_included_modules(())
+            if ctx.current_class:
+                scopes.append(ctx.current_class)
+        scopes.extend(modules)
+        return scopes
 
     def get_fresh_int_lit(self, ctx: Context) -> Expr:
         """
diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 077e099..04388c6 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -133,6 +133,7 @@ class ProgramTranslator(CommonTranslator):
         inherit or redefine it.
         """
         current_module = ctx.module
+        current_class = ctx.current_class
         type = self.translate_type(root.type, ctx)
         position = self.to_position(root.node, ctx)
         info = self.no_info(ctx)
@@ -169,6 +170,7 @@ class ProgramTranslator(CommonTranslator):
             posts.append(self.viper.Implies(exact_type, has_value,
                                             field_position, info))
         ctx.module = current_module
+        ctx.current_class = current_class
         # Create a single function that represents all
         return self.viper.Function(root.sil_name, [type_decl], type, [], posts,
                                    None, position, info)
diff --git a/src/nagini_translation/translators/type.py b/src/nagini_translation/translators/type.py
index 4552593..432c38d 100644
--- a/src/nagini_translation/translators/type.py
+++ b/src/nagini_translation/translators/type.py
@@ -73,15 +73,7 @@ class TypeTranslator(CommonTranslator):
         or None if the type is void.
         """
         container = ctx.actual_function if ctx.actual_function else ctx.module
-        containers = [ctx]
-        if ctx.current_class:
-            containers.append(ctx.current_class)
-        if isinstance(container, (PythonMethod, PythonIOOperation)):
-            containers.append(container)
-            containers.extend(container.module.get_included_modules())
-        else:
-            # Assume module
-            containers.extend(container.get_included_modules())
+        containers = self.get_scopes(container, ctx)
         return do_get_type(node, containers, container)
 
     def type_check(self, lhs: Expr, type: PythonType,
-- 
2.43.0


From 5e9d6ba295df895de4360f9429c7fe76b518b8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:35 +0000
Subject: [PATCH 65/72] fix: a method, predicate or static field that overrides
 one of a more distant superclass was not seen as overriding it

---
 src/nagini_translation/lib/program_nodes.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index 22602e5..39fc06d 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -575,6 +575,19 @@ class PythonClass(PythonType, PythonNode, PythonScope, ContainerInterface):
         else:
             return None
 
+    def get_inherited(self, name: str) -> PythonNode:
+        """
+        Returns what the closest superclass that has a member with the given name calls by
+        that name. Raises a KeyError if there is none.
+        """
+        cls = self.superclass
+        while cls is not None:
+            contents = cls.get_contents(False)
+            if name in contents:
+                return contents[name]
+            cls = cls.python_class.superclass
+        raise KeyError(name)
+
     def get_method(self, name: str) -> Optional['PythonMethod']:
         """
         Returns the method with the given name in this class or a superclass.
@@ -1144,7 +1157,7 @@ class PythonMethod(PythonNode, PythonScope, ContainerInterface, PythonStatementC
             try:
                 # Could be overridden by anything, so we have to check if there's
                 # anything with the same name.
-                self.overrides = self.cls.superclass.get_contents(False)[self.name]
+                self.overrides = self.cls.get_inherited(self.name)
                 if self.overrides is not None:
                     if self.overrides.inline:
                         raise InvalidProgramException(self.node, 'overriding.inline.method',
@@ -1705,7 +1718,7 @@ class PythonGlobalVar(PythonVarBase):
         super().process(sil_name, translator)
         if self.cls is not None and self.cls.superclass is not None:
             try:
-                self.overrides = self.cls.superclass.get_contents(False)[self.name]
+                self.overrides = self.cls.get_inherited(self.name)
                 if not isinstance(self.overrides, PythonGlobalVar):
                     raise InvalidProgramException(self.node, 'invalid.override')
             except KeyError:
-- 
2.43.0


From 145a28f4823bdb39fc3c72bcd7a222737bdcad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:35 +0000
Subject: [PATCH 66/72] fix: override check left the error variable unset if
 the overriding method raises nothing

---
 src/nagini_translation/translators/program.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 04388c6..673d4f1 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -442,6 +442,12 @@ class ProgramTranslator(CommonTranslator):
             self.to_position(method.node, ctx), self.no_info(ctx),
             target_method=method)
         ctx.position.pop()
+        if method.overrides.declared_exceptions and not method.declared_exceptions:
+            # The overriding method never raises anything.
+            call = call + [self.viper.LocalVarAssign(error_var_ref,
+                                                     self.viper.NullLit(self.no_position(ctx),
+                                                                        self.no_info(ctx)),
+                                                     self.no_position(ctx), self.no_info(ctx))]
         if has_subtype:
             subtype_assume = self.viper.Inhale(has_subtype,
                                                self.no_position(ctx),
-- 
2.43.0


From 1f2b74afb23ddf56d72380b85407274593722fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:23 +0000
Subject: [PATCH 67/72] fix: the subtype axioms were contradictory for unions
 of a class and its subclass

---
 .../translators/type_domain_factory.py              | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/type_domain_factory.py b/src/nagini_translation/translators/type_domain_factory.py
index 1f0fc8c..cb512a7 100644
--- a/src/nagini_translation/translators/type_domain_factory.py
+++ b/src/nagini_translation/translators/type_domain_factory.py
@@ -495,7 +495,11 @@ class TypeDomainFactory:
         """
         forall sub: PyType, super: PyType ::
         { issubtype(sub, super) } { issubtype(super, sub) }
-        issubtype(sub, super) && sub != super ==> !issubtype(super, sub)
+        issubtype(sub, super) && sub != super && get_basic(sub) != union_basic() &&
+        get_basic(super) != union_basic() ==> !issubtype(super, sub)
+
+        A union type can be equivalent to a different type, e.g. Union[C, D] to D if C is a
+        subclass of D.
         """
         position, info = self.no_position(ctx), self.no_info(ctx)
         arg_sub = self.viper.LocalVarDecl('sub', self.type_type(),
@@ -510,6 +514,13 @@ class TypeDomainFactory:
         not_super_sub = self.viper.Not(super_sub, position, info)
         not_equal = self.viper.NeCmp(var_sub, var_super, position, info)
         lhs = self.viper.And(sub_super, not_equal, position, info)
+        union_basic = self.viper.DomainFuncApp('union_basic', [], self.type_type(),
+                                               position, info, self.type_domain)
+        for var in (var_sub, var_super):
+            basic = self.viper.DomainFuncApp('get_basic', [var], self.type_type(),
+                                             position, info, self.type_domain)
+            not_union = self.viper.NeCmp(basic, union_basic, position, info)
+            lhs = self.viper.And(lhs, not_union, position, info)
         implication = self.viper.Implies(lhs, not_super_sub, position, info)
         trigger = self.viper.Trigger([sub_super], position, info)
         trigger2 = self.viper.Trigger([super_sub], position, info)
-- 
2.43.0


From 454936e35580895fb38632c7ad43c90bd7865db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:59 +0000
Subject: [PATCH 68/72] fix: the kind of a union-typed receiver was asked of a
 variable named like in Python, or of a parameter's first value

---
 src/nagini_translation/translators/call.py       | 7 ++++++-
 src/nagini_translation/translators/contract.py   | 7 ++-----
 src/nagini_translation/translators/expression.py | 2 +-
 src/nagini_translation/translators/statement.py  | 3 +--
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 117f696..b9e564f 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -1184,11 +1184,16 @@ class CallTranslator(CommonTranslator):
         value_returned = False
         pure = True
 
+        rec_stmt, receiver = self.translate_expr(node.func.value, ctx,
+                                                 target_type=self.viper.Ref)
+        if rec_stmt:
+            raise UnsupportedException(node, 'Impure receiver of union type.')
+
         # For each type in union (subclasses first)
         for type in toposort_classes(rectype.get_types() - {None}):
 
             # Create guard checking if receiver is an instance of this type
-            guard = self.var_type_check(node.func.value.id, type, pos, ctx)
+            guard = self.type_check(receiver, type, pos, ctx)
 
             # Translate the method call (method of this type)
             stmts, expr = self.translate_normal_call(
diff --git a/src/nagini_translation/translators/contract.py b/src/nagini_translation/translators/contract.py
index d710e93..cc618ae 100644
--- a/src/nagini_translation/translators/contract.py
+++ b/src/nagini_translation/translators/contract.py
@@ -1124,11 +1124,8 @@ class ContractTranslator(CommonTranslator):
                         guarded_field_access = []
                         stmt, receiver = self.translate_expr(node.args[0].value, ctx)
                         for recv_type in toposort_classes(type.get_types() - {None}):
-                            target = self.get_target(node.args[0].value, ctx)
-                            field_guard = self.var_type_check(target.sil_name,
-                                                              recv_type,
-                                                              self.to_position(node, ctx),
-                                                              ctx)
+                            field_guard = self.type_check(receiver, recv_type,
+                                                          self.to_position(node, ctx), ctx)
                             field = recv_type.get_field(node.args[0].attr).actual_field
                             field_access = self.viper.FieldAccess(receiver, field.sil_field,
                                                                   self.to_position(node, ctx),
diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 5b7e1e4..5537a4f 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -1155,7 +1155,7 @@ class ExpressionTranslator(CommonTranslator):
             guarded_field_access = []
             for recv_type in toposort_classes(target.type.get_types() - {None}):
                 # Create a guard for accessing the field according to receiver's type
-                field_guard = self.var_type_check(target.sil_name, recv_type, position, ctx)
+                field_guard = self.type_check(receiver, recv_type, position, ctx)
 
                 # Access the field of the specific type
                 field = recv_type.get_field(node.attr)
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index a9753d6..f42976b 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1426,8 +1426,7 @@ class StatementTranslator(CommonTranslator):
                 stmt, receiver = self.translate_expr(lhs.value, ctx)
                 guarded_field_assign = []
                 for recv_type in toposort_classes(type.get_types() - {None}):
-                    assign_guard = self.var_type_check(lhs.value.id, recv_type, position,
-                                                       ctx)
+                    assign_guard = self.type_check(receiver, recv_type, position, ctx)
                     field = recv_type.get_field(lhs.attr).actual_field
                     field_access = self.viper.FieldAccess(receiver, field.sil_field,
                                                           position, info)
-- 
2.43.0


From e2db49f1b217d52e4855bd5c1d48595933bd68a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:16 +0000
Subject: [PATCH 69/72] fix: targets after a starred target were assigned the
 elements following it from the front

---
 src/nagini_translation/translators/statement.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index f42976b..cdaa918 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1573,7 +1573,13 @@ class StatementTranslator(CommonTranslator):
                                                   [rhs], [None], node, ctx)
                 next_expr = self.viper.Add(len_expr, next_expr, position,
                                            info)
-            stmt, val = self.assign_to(e, rhs, index, next_expr,
+            rhs_index = index
+            if has_starred_receiver and not isinstance(e, ast.Starred):
+                # Receivers after a starred one get the last elements of rhs.
+                rhs_index = index - len(lhs.elts)
+                if rhs_type.name == TUPLE_TYPE and rhs_type.exact_length:
+                    rhs_index += len(rhs_type.type_args)
+            stmt, val = self.assign_to(e, rhs, rhs_index, next_expr,
                                        rhs_type, node, ctx)
             stmt_result += stmt
             val_result += val
-- 
2.43.0


From fd65dfa9a549a0ff1dd3a746c7e8db2f9d148452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:45 +0000
Subject: [PATCH 70/72] fix: names bound by a match pattern were not bound if
 the guard failed, and not seen by guards of class patterns

---
 .../translators/statement.py                  | 51 ++++++++-----------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index cdaa918..4ef379b 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1112,40 +1112,33 @@ class StatementTranslator(CommonTranslator):
             if cond_stmts:
                 raise InvalidProgramException(node, 'purity.violated')
 
-            if case.guard is not None:
-                # Temporarily alias pattern-bound names to the subject variable so the
-                # guard can reference them without requiring a definedness proof yet.
-                aliases = self._collect_guard_aliases(case.pattern, subj_var)
-                with ctx.aliases_context():
-                    for name, var in aliases.items():
-                        ctx.set_alias(name, var, None)
-                    guard_stmts, guard_expr = self.translate_expr(
-                        case.guard, ctx, target_type=self.viper.Bool)
-                if guard_stmts:
-                    raise InvalidProgramException(node, 'purity.violated')
-                guard_pos = self.to_position(case.guard, ctx)
-                cond_expr = self.viper.And(cond_expr, guard_expr, guard_pos, info)
-
-            assign_stmts = self._translate_match_pattern_assignments(
+            bind_stmts = self._translate_match_pattern_assignments(
                 case.pattern, subj_var.ref(), subject_type, node, ctx)
-            define_stmts = self._translate_match_pattern_defines(case.pattern, node, ctx)
+            bind_stmts += self._translate_match_pattern_defines(case.pattern, node, ctx)
             body_stmts = flatten([self.translate_stmt(s, ctx) for s in case.body])
 
-            then_block = self.translate_block(
-                assign_stmts + define_stmts + body_stmts, pos, info)
-            nested = self.viper.If(cond_expr, then_block, nested, pos, info)
+            if case.guard is None:
+                then_block = self.translate_block(bind_stmts + body_stmts, pos, info)
+                nested = self.viper.If(cond_expr, then_block, nested, pos, info)
+                continue
 
-        return subj_stmts + [subj_assign, subj_defined, nested]
+            guard_stmts, guard_expr = self.translate_expr(
+                case.guard, ctx, target_type=self.viper.Bool)
+            if guard_stmts:
+                raise InvalidProgramException(node, 'purity.violated')
+            guard_pos = self.to_position(case.guard, ctx)
+            guarded = self.viper.If(
+                self.viper.And(cond_expr, guard_expr, guard_pos, info),
+                self.translate_block(body_stmts, pos, info), nested, pos, info)
+            # The names of a matching pattern are bound before the guard is evaluated
+            # and keep their values if it does not hold.
+            if bind_stmts:
+                bind = self.viper.If(cond_expr, self.translate_block(bind_stmts, pos, info),
+                                     self.translate_block([], pos, info), pos, info)
+                guarded = self.translate_block([bind, guarded], pos, info)
+            nested = guarded
 
-    def _collect_guard_aliases(self, pattern: ast.AST, subj_var: 'PythonVar') -> dict:
-        """Return {name: var} mapping pattern-bound names to the subject for guard evaluation."""
-        aliases = {}
-        if isinstance(pattern, ast.MatchAs):
-            if pattern.name is not None:
-                aliases[pattern.name] = subj_var
-            if pattern.pattern is not None:
-                aliases.update(self._collect_guard_aliases(pattern.pattern, subj_var))
-        return aliases
+        return subj_stmts + [subj_assign, subj_defined, nested]
 
     def _pattern_py_cond(self, pattern: ast.AST, node: ast.Match) -> Optional[ast.AST]:
         """Return a Python AST node representing the branch condition for a match pattern.
-- 
2.43.0


From 41f4f78b5864fe5bd5c372531cbcc5aa07fcb498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:45 +0000
Subject: [PATCH 71/72] fix: pure match left names of a pattern unbound if its
 guard failed

---
 src/nagini_translation/translators/pure.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/translators/pure.py b/src/nagini_translation/translators/pure.py
index d5acf92..91a6a45 100644
--- a/src/nagini_translation/translators/pure.py
+++ b/src/nagini_translation/translators/pure.py
@@ -253,14 +253,28 @@ class PureTranslator(CommonTranslator):
                 subj_var.sil_name, case.pattern, subject_type, node,
                 guard=case.guard, guard_aliases=guard_aliases)
             case_wrapper = AssignWrapper(case_var.sil_name, prev_conds, case_expr, node)
-            result.append(case_wrapper)
-
             case_conds = prev_conds + [CondWrapper(case_var.sil_name, node)]
+
+            if case.guard is None:
+                result.append(case_wrapper)
+                bound_conds = case_conds
+            else:
+                # The names of a matching pattern are bound before the guard is
+                # evaluated and keep their values if it does not hold.
+                bound_var = ctx.current_function.create_variable(
+                    'match_bound', bool_class, self.translator)
+                bound_expr = MatchPatternExpr(
+                    subj_var.sil_name, case.pattern, subject_type, node,
+                    guard=None, guard_aliases={})
+                result.append(AssignWrapper(bound_var.sil_name, prev_conds, bound_expr, node))
+                bound_conds = prev_conds + [CondWrapper(bound_var.sil_name, node)]
             for cap_name, cap_expr in self._collect_pure_match_captures(
                     case.pattern, subj_var.sil_name, node):
-                cap_wrapper = AssignWrapper(cap_name, case_conds, cap_expr, node,
+                cap_wrapper = AssignWrapper(cap_name, bound_conds, cap_expr, node,
                                             user_var=True)
                 result.append(cap_wrapper)
+            if case.guard is not None:
+                result.append(case_wrapper)
 
             body_wrappers = flatten([self.translate_pure(case_conds, stmt, ctx)
                                      for stmt in case.body])
-- 
2.43.0


From 835d6c4cfda3c7bfe018e0db3d104a341eef4337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:45 +0000
Subject: [PATCH 72/72] fix: variable positional and extra keyword arguments
 were evaluated after later keyword arguments

---
 src/nagini_translation/translators/call.py | 26 ++++++++++++----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index b9e564f..b409eb1 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -948,17 +948,21 @@ class CallTranslator(CommonTranslator):
 
         # Named args
         for kw in keywords:
+            if kw.arg not in keys and not target.kw_arg:
+                continue
+            arg_stmt, arg_expr = self.translate_expr(kw.value, ctx)
+            arg_type = self.get_type(kw.value, ctx)
+            args = self.save_values(args, arg_stmts, arg_stmt, ctx)
+            var_args = self.save_values(var_args, arg_stmts, arg_stmt, ctx)
+            saved = self.save_values([e for e, _ in kw_args.values()], arg_stmts, arg_stmt, ctx)
+            kw_args = OrderedDict((key, (e, t)) for (key, (_, t)), e in zip(kw_args.items(), saved))
+            arg_stmts += arg_stmt
             if kw.arg in keys:
                 index = keys.index(kw.arg)
-                arg_stmt, arg_expr = self.translate_expr(kw.value, ctx)
-                arg_type = self.get_type(kw.value, ctx)
-                args = self.save_values(args, arg_stmts, arg_stmt, ctx)
-                arg_stmts += arg_stmt
                 args[index] = arg_expr
                 arg_types[index] = arg_type
             else:
-                if target.kw_arg:
-                    kw_args[kw.arg] = kw.value
+                kw_args[kw.arg] = (arg_expr, arg_type)
 
         # Default args
         for index, (arg, key) in enumerate(zip(args, keys)):
@@ -999,10 +1003,10 @@ class CallTranslator(CommonTranslator):
 
         return rec_stmts, [receiver], [receiver_type]
 
-    def _wrap_kw_args(self, args: Dict[str, ast.AST], node: ast.Call,
+    def _wrap_kw_args(self, args: Dict[str, Tuple[Expr, PythonType]], node: ast.Call,
                       kw_type: PythonType, ctx: Context) -> StmtsAndExpr:
         """
-        Wraps the given arguments into a dict to be passed to an **kwargs param.
+        Wraps the given (translated) arguments into a dict to be passed to an **kwargs param.
         """
         res_var = ctx.current_function.create_variable('kw_args',
             ctx.module.global_module.classes[DICT_TYPE], self.translator)
@@ -1015,7 +1019,7 @@ class CallTranslator(CommonTranslator):
                                         position, self.no_info(ctx))
         stmt = constr_call + [type_inhale]
         str_type = ctx.module.global_module.classes[STRING_TYPE]
-        for key, val in args.items():
+        for key, (val_val, val_type) in args.items():
             # Key string literal
             length = len(key)
             length_arg = self.viper.IntLit(length, self.no_position(ctx),
@@ -1033,13 +1037,11 @@ class CallTranslator(CommonTranslator):
             key_val = self.get_function_call(str_type, func_name,
                                              str_create_args,
                                              str_create_arg_types, node, ctx)
-            val_stmt, val_val = self.translate_expr(val, ctx)
-            val_type = self.get_type(val, ctx)
             args = [res_var.ref(), key_val, val_val]
             arg_types = [None, str_type, val_type]
             append_call = self.get_method_call(dict_class, '__setitem__', args,
                                                arg_types, [], node, ctx)
-            stmt += val_stmt + append_call
+            stmt += append_call
         return stmt, res_var.ref()
 
     def inline_method(self, method: PythonMethod, args: List[PythonVar],
-- 
2.43.0

