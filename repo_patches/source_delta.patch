From a6f5c264357a77d342e2ef3b83b6d456f1c68f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:42 +0000
Subject: [PATCH 01/14] fix: canonicalize a term that vanishes by permutation
 symmetry to the empty term

SymPy's canonicalize returns the integer 0 for such a term; slicing it raised TypeError.
---
 dsrg_generator/Term.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 41b1cb8..bec9a60 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -771,6 +771,10 @@ class Term:
         # canonicalize indices
         gc = canonicalize(Permutation(g), dummies, [0] * len(dummies), *bsgs_list)
 
+        # SymPy returns 0 when the term vanishes by permutation symmetry
+        if gc == 0:
+            return self.void()
+
         # translate gc to Tensor and SecondQuantizedOperator
         ann_ops = self.sq_op.indices_type([dummy_indices[i // 2] for i in gc[:self.sq_op.n_ann]])
         cre_ops = self.sq_op.indices_type([dummy_indices[i // 2] for i in gc[self.sq_op.n_ann:self.sq_op.size]])
-- 
2.43.0


From 0f1c34251da40103d1233b493b0b4191fce2559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:42 +0000
Subject: [PATCH 02/14] fix: make equal Index objects hash equally

Index('a01') == Index('a1') but their hashes differed, so sets and dictionaries
keyed by Index kept both.
---
 dsrg_generator/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsrg_generator/Index.py b/dsrg_generator/Index.py
index dcdc216..885575d 100644
--- a/dsrg_generator/Index.py
+++ b/dsrg_generator/Index.py
@@ -73,7 +73,7 @@ class Index:
         return (space_priority[self.space], self.number) >= (space_priority[other.space], other.number)
 
     def __hash__(self):
-        return hash(self.name)
+        return hash((self.space, self.number))
 
     def latex(self, dollar=False):
         out = f"{self.space}_{{{self.number}}}"
-- 
2.43.0


From 057b20596b47be8688ff0cf5d044bb737a9c285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:42 +0000
Subject: [PATCH 03/14] fix: MOSpaceCounter accumulates alpha and beta labels
 of the same space

{'c': 1, 'C': 2} used to be stored as {'c': 2}, so equality and repr disagreed
with the scaling.
---
 dsrg_generator/mo_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/mo_space.py b/dsrg_generator/mo_space.py
index 77b1a94..6144e75 100644
--- a/dsrg_generator/mo_space.py
+++ b/dsrg_generator/mo_space.py
@@ -78,7 +78,9 @@ class MOSpaceCounter:
                 else:
                     idict['v'] += n
 
-        self._input_counter = {k.lower(): v for k, v in input_counter.items()}
+        self._input_counter = {}
+        for k, v in input_counter.items():
+            self._input_counter[k.lower()] = self._input_counter.get(k.lower(), 0) + v
 
         self._parsed_counter = [idict['v'], idict['c'], idict['a']]
         self._overall_scaling = sum(self._parsed_counter)
-- 
2.43.0


From 308c184dea17ebd083b52f74179023a602e28cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:42 +0000
Subject: [PATCH 04/14] fix: SpaceCounter reads the existing indices_type
 attribute

type_of_indices does not exist on Tensor or SecondQuantizedOperator, so every
construction raised AttributeError.
---
 SpaceCounter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpaceCounter.py b/SpaceCounter.py
index 034c095..8635638 100644
--- a/SpaceCounter.py
+++ b/SpaceCounter.py
@@ -18,11 +18,11 @@ class SpaceCounter:
         if not isinstance(tensor2, (Tensor, SecondQuantizedOperator)):
             raise TypeError(f"Invalid input for tensor2, given '{tensor2.__class__.__name__}',"
                             f" required 'Tensor'.")
-        if tensor1.type_of_indices is not tensor2.type_of_indices:
+        if tensor1.indices_type is not tensor2.indices_type:
             raise ValueError(f"Two tensors are of different indices type:"
-                             f" '{tensor1.type_of_indices}' and '{tensor2.type_of_indices}'.")
+                             f" '{tensor1.indices_type}' and '{tensor2.indices_type}'.")
 
-        _space_priority = space_priority_so if tensor1.type_of_indices is IndicesSpinOrbital else space_priority
+        _space_priority = space_priority_so if tensor1.indices_type is IndicesSpinOrbital else space_priority
         length = len(_space_priority)
         self._upper = [0] * length
         self._lower = [0] * length
-- 
2.43.0


From 4dc8e50058ab2f9414c8b837732ce16d2faaaf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:42 +0000
Subject: [PATCH 05/14] fix: bch_cc_rsc keeps active indices of the Hamiltonian
 for multireference amplitudes

The Hamiltonian was always expanded with single-reference labels, so every
active-space contribution was lost when single_reference=False.
---
 dsrg_generator/phys_op_contraction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index a3e0bc0..434e03e 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -344,11 +344,11 @@ def bch_cc_rsc(nested_level, cluster_levels, max_cu_levels, n_opens, for_commuta
             for i in range(nested_level)]
 
     out = defaultdict(list)
-    out[0] = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(True)]) + \
-             combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(True)])
+    out[0] = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(single_reference)]) + \
+             combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(single_reference)])
 
-    left_pool = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(True)]) + \
-                combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(True)])
+    left_pool = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(single_reference)]) + \
+                combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(single_reference)])
 
     for i in range(1, nested_level + 1):
         factor = 1.0 / i
-- 
2.43.0


From 494ca2a7426e95ddb97973fed8c375aa4550517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:42 +0000
Subject: [PATCH 06/14] fix: generated functions scale their targets by factor
 and declare temp

The scaling statements were assembled but never written, and temp was declared
only when C0 was among the targets.
---
 dsrg_generator/write_forte_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 9a6c967..49a0756 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -55,6 +55,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
     suffix = []
     if add_t_dagger:
+        if not destroy_h:
+            suffix.append('BlockedTensor temp;')
         for i in func_targets:
             n_body = int(i[1:])
             upper = ','.join(f'g{i}' for i in range(n_body))
@@ -62,8 +64,6 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
             if i == 'C0':
                 suffix.append('C0 *= 2.0;')
-                if not destroy_h:
-                    suffix.append('BlockedTensor temp;')
             else:
                 name = f'H{n_body}'
                 if not destroy_h:
@@ -75,7 +75,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
                 suffix.append(f'{i}["{upper},{lower}"] += {name}["{lower},{upper}"];')
 
     func += indent.join(prefix) + '\n' + indent
-    func += indent.join(func_calls) + '\n'
+    func += indent.join(func_calls) + '\n' + indent
+    func += indent.join(scale) + '\n'
     if suffix:
         func += indent
     func += indent.join(suffix)
-- 
2.43.0


From fa74e8e11314c6ae6de575106b75ce9bb45a07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:12 +0000
Subject: [PATCH 07/14] fix: integer_partition yields the only partition of one

integer_partition(1) yielded nothing.
---
 dsrg_generator/helper/integer_partition.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsrg_generator/helper/integer_partition.py b/dsrg_generator/helper/integer_partition.py
index 8ca282d..fdb7a01 100644
--- a/dsrg_generator/helper/integer_partition.py
+++ b/dsrg_generator/helper/integer_partition.py
@@ -9,6 +9,11 @@ def integer_partition(n):
     x = [1] * n
     x[0] = n
     m, h = 1, 1
+
+    # the loop below starts from partitions with a component larger than one
+    if n == 1:
+        yield x[:1]
+
     while x[0] != 1:
         if x[0] == n:
             yield x[:1]
-- 
2.43.0


From 79cdee500826358d5a905db04ac310941958a373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:51 +0000
Subject: [PATCH 08/14] fix: canonicalize operators with unequal numbers of
 creators and annihilators

---
 dsrg_generator/IndicesPair.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/IndicesPair.py b/dsrg_generator/IndicesPair.py
index ef6cd3a..f45c67a 100644
--- a/dsrg_generator/IndicesPair.py
+++ b/dsrg_generator/IndicesPair.py
@@ -296,9 +296,12 @@ class IndicesPair:
         :return: a tuple of (base, strong generating set)
         """
         if not hermitian:
+            # slots are ordered as in self.indices(upper_first=False), i.e., lower indices go first
+            if self.n_upper == 0 or self.n_lower == 0:
+                return get_symmetric_group_sgs(self.size, 1)
             u_base, u_gens = get_symmetric_group_sgs(self.n_upper, 1)
             l_base, l_gens = get_symmetric_group_sgs(self.n_lower, 1)
-            return bsgs_direct_product(u_base, u_gens, l_base, l_gens)
+            return bsgs_direct_product(l_base, l_gens, u_base, u_gens)
 
         if self.n_upper != self.n_lower:
             raise ValueError(f"{self} cannot be Hermitian.")
-- 
2.43.0


From dfa8499ecfd1d3dc5190d6c76f15fa35beda1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:55 +0000
Subject: [PATCH 09/14] fix: simplify gives the empty term when a delta
 identifies two antisymmetric indices

---
 dsrg_generator/Term.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index bec9a60..268c736 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -7,7 +7,7 @@ from sympy.combinatorics import Permutation
 
 from dsrg_generator.mo_space import space_priority, space_relation, space_relation_so, find_space_label
 from dsrg_generator.Index import Index
-from dsrg_generator.Indices import IndicesSpinOrbital, IndicesSpinIntegrated
+from dsrg_generator.Indices import IndicesAntisymmetric, IndicesSpinOrbital, IndicesSpinIntegrated
 from dsrg_generator.Tensor import Tensor, Cumulant, ClusterAmplitude, Kronecker
 from dsrg_generator.SQOperator import SecondQuantizedOperator
 from dsrg_generator.mo_space import MOSpaceCounter
@@ -528,6 +528,15 @@ class Term:
             replacement[index] = self._generate_next_index(find_space_label(overlap), self.next_index_number)
             for i in replacement_diagonal:
                 replacement[i] = replacement[index]
+
+        # the term vanishes if a delta identifies two antisymmetric indices
+        for pair in [self.sq_op] + list_of_tensors:
+            if issubclass(pair.indices_type, IndicesAntisymmetric):
+                for indices in (pair.upper_indices, pair.lower_indices):
+                    if len({replacement[i] for i in indices}) != indices.size:
+                        self.void_self()
+                        return
+
         self._sq_op = self._replace_sq_op_indices(self.sq_op, replacement)
 
         # remove all-active amplitudes
-- 
2.43.0


From cea459c044f95dc266f905681838913d7ff89540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 10/14] fix: no empty entry in the ambit indices of an operator
 without creators or annihilators

---
 dsrg_generator/IndicesPair.py | 5 +++--
 dsrg_generator/SQOperator.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsrg_generator/IndicesPair.py b/dsrg_generator/IndicesPair.py
index f45c67a..7249794 100644
--- a/dsrg_generator/IndicesPair.py
+++ b/dsrg_generator/IndicesPair.py
@@ -135,9 +135,10 @@ class IndicesPair:
         """
         if self.is_empty():
             return ""
+        first, second = self.upper_indices, self.lower_indices
         if not upper_first:
-            return f'["{self.lower_indices.ambit()},{self.upper_indices.ambit()}"]'
-        return f'["{self.upper_indices.ambit()},{self.lower_indices.ambit()}"]'
+            first, second = second, first
+        return f'["{",".join(i.ambit() for i in (first, second) if i.size)}"]'
 
     def diagonal_indices(self):
         """
diff --git a/dsrg_generator/SQOperator.py b/dsrg_generator/SQOperator.py
index 14ff9f1..9bcd298 100644
--- a/dsrg_generator/SQOperator.py
+++ b/dsrg_generator/SQOperator.py
@@ -155,7 +155,7 @@ class SecondQuantizedOperator(IndicesPair):
             return 1, ''
 
         for sign, str_1, str_2 in self.permute_indices(p_cre, p_ann, cre_first):
-            yield sign, f'["{str_1},{str_2}"]'
+            yield sign, f'["{",".join(i for i in (str_1, str_2) if i)}"]'
 
     def generate_spin_cases(self, particle_conserving=True):
         """
-- 
2.43.0


From 56b58c8bf5feb9df094cb84a5ddd0a11ac365f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:16 +0000
Subject: [PATCH 11/14] fix: separate all rows of a printed align environment

---
 dsrg_generator/phys_op_contraction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index 434e03e..70bb901 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -493,10 +493,10 @@ def print_terms_latex(input_terms):
 
     for block in block_repr.keys():
         print("\\begin{align}")
-        for perm, terms in block_repr[block].items():
-            i_last = len(terms) - 1
-            for i, term in enumerate(terms):
-                print(term.latex(delimiter=True, backslash=(i != i_last)))
+        terms = [term for perm_terms in block_repr[block].values() for term in perm_terms]
+        i_last = len(terms) - 1
+        for i, term in enumerate(terms):
+            print(term.latex(delimiter=True, backslash=(i != i_last)))
         print("\\end{align}\n")
 
 # def print_terms_ambit_symmetric(input_terms):
-- 
2.43.0


From 5c5e6d67e3639eb0e3b21476e97330da6bf0fba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:58 +0000
Subject: [PATCH 12/14] fix: independent iterators over the same Indices

---
 dsrg_generator/Indices.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/dsrg_generator/Indices.py b/dsrg_generator/Indices.py
index 73e754a..2bd76d8 100644
--- a/dsrg_generator/Indices.py
+++ b/dsrg_generator/Indices.py
@@ -168,15 +168,7 @@ class Indices:
         return (self.size, self.indices) >= (other.size, other.indices)
 
     def __iter__(self):
-        self.n = 0
-        return self
-
-    def __next__(self):
-        if self.n < self.size:
-            self.n += 1
-            return self.indices[self.n - 1]
-        else:
-            raise StopIteration
+        return iter(self.indices)
 
     def __getitem__(self, key):
         # index out-of-range handled by python list
-- 
2.43.0


From f828cc0327244160eb58de09157028cf719327ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:01 +0000
Subject: [PATCH 13/14] fix: combine_terms does not write the combined
 coefficient into the terms it is given

---
 dsrg_generator/phys_op_contraction.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index 70bb901..ecfb11f 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -149,9 +149,10 @@ def combine_terms(terms):
 
     out = []
     for name, term in terms_dict.items():
-        term.coeff = sum(terms_to_coeff[name])
-        if not term.is_void():
-            out.append(term)
+        combined = Term.from_term(term)
+        combined.coeff = sum(terms_to_coeff[name])
+        if not combined.is_void():
+            out.append(combined)
     return sorted(out)
 
 
-- 
2.43.0


From 287219050da9f5c2b2490c925cb3a0566943f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:08 +0000
Subject: [PATCH 14/14] fix: make_excitation keeps the beta part of
 spin-integrated terms

---
 dsrg_generator/Term.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 268c736..eaef233 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -1064,16 +1064,18 @@ class Term:
         replacement = {}
         next_index_number = {i: 0 for i in self.next_index_number.keys()}
         for i in self.sq_op.cre_ops:
-            overlap = space_relation[part] & space_relation[i.space]
+            part_i = part.upper() if i.is_beta() else part
+            overlap = space_relation[part_i] & space_relation[i.space]
             if len(overlap) == 0:
                 return self.void()
-            s = part if overlap == space_relation[part] else overlap.pop()
+            s = part_i if overlap == space_relation[part_i] else overlap.pop()
             replacement[i] = self._generate_next_index(s, next_index_number)
         for i in self.sq_op.ann_ops:
-            overlap = space_relation[hole] & space_relation[i.space]
+            hole_i = hole.upper() if i.is_beta() else hole
+            overlap = space_relation[hole_i] & space_relation[i.space]
             if len(overlap) == 0:
                 return self.void()
-            s = hole if overlap == space_relation[hole] else overlap.pop()
+            s = hole_i if overlap == space_relation[hole_i] else overlap.pop()
             replacement[i] = self._generate_next_index(s, next_index_number)
 
         for tensor in self.list_of_tensors:
-- 
2.43.0

