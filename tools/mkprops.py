#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
D = 'dsrg_generator/'
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    r = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [f if f == 'SpaceCounter.py' else D + f for f in files],
                     "mechanism": [{"name": n, "where": (w if w == 'SpaceCounter.py' else D + w)} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        r["anchors"]["state"] = state
    return r

props = [
p("C01", "Operator contraction yields exactly the generalized Wick expansion",
  "Contracting a list of normal-ordered spin-orbital operators (labels distinct between operators) without the commutator restriction returns exactly the terms of the generalized Wick expansion whose number of open indices lies in the requested window and whose cumulants do not exceed the requested rank: every such contraction once and no other. Each returned contraction carries the fermionic sign of its reordering, and its open operator contains exactly the uncontracted operators. With hole densities expanded, each hole density appears as a Kronecker delta or as minus a one-body cumulant (the latter only where neither label is virtual), each combination once.",
  ["inputs", "configurations"],
  "every list of two or more operators over the spaces g, p, h, v, c, a (including number-nonconserving operators and operators with the same label in creation and annihilation), every cumulant limit, every window of open indices, expansion on or off",
  "The tests compare a few hand-written operator lists and otherwise only pin counts of contractions; the expansion is combinatorial in the labels, ranks and limits.",
  ["sqop_contraction.py", "Tensor.py", "helper/integer_partition.py"],
  [("pairwise and cumulant elementary contractions", "sqop_contraction.py"), ("backtracking over compatible elementary contractions", "sqop_contraction.py"), ("sign from the permutation of elementary operators", "sqop_contraction.py"), ("expansion of hole densities", "sqop_contraction.py")],
  ["compute_operator_contractions(..., for_commutator=False)"]),
p("C02", "Commutator contractions are exactly the connected, non-cumulant-only ones",
  "With the commutator restriction, contraction returns exactly those terms of the generalized Wick expansion in which all operators are linked together by contractions and at least one contraction is pairwise: nothing else, none missing, none repeated, with the same signs and open operators as without the restriction. The contraction count window and the cumulant limit apply in the same way as without the restriction.",
  ["inputs", "configurations"],
  "every list of operators (labels distinct between operators), every cumulant limit and open-index window, expansion on or off",
  "The tests pin total counts for four operator lists; a dropped or duplicated class of connected contractions that needs another list of operators is invisible to them (one such count even pins a defect).",
  ["sqop_contraction.py"],
  [("backtracking over categories of contracted operators", "sqop_contraction.py"), ("selection of elementary contractions per category", "sqop_contraction.py")],
  ["compute_operator_contractions(..., for_commutator=True)"]),
p("C03", "Results do not depend on process count, chunking, batching or schedule",
  "The multiset of contractions returned by the contraction engine, and the simplified terms returned by contracting terms or computing commutators, are the same for every number of worker processes, every chunk size and every order in which workers finish. Every unit of work is executed exactly once, whatever the number of contractions, including inputs large enough to be canonicalized in several batches.",
  ["schedules", "configurations"],
  "every schedule of worker completion, every n_process and batch_size (including 0 = automatic), contraction counts below, at and above the internal batch limit",
  "The tests call the parallel path a few times with one setting and check a count; completion order, chunk boundaries and the batch limit are never varied.",
  ["sqop_contraction.py", "phys_op_contraction.py", "helper/multiprocess_helper.py"],
  [("task lists handed to imap_unordered", "sqop_contraction.py"), ("batch flush", "phys_op_contraction.py"), ("combination of equal terms", "phys_op_contraction.py")],
  ["compute_operator_contractions(n_process, batch_size)", "contract_terms(n_process)", "single_commutator(n_process)"]),
p("C04", "Canonicalization preserves the value of a term",
  "Simplifying or canonicalizing a term, in any of the offered ways and with any of the offered options, returns a term with the same value: the same linear combination of operators for every choice of orbitals and of tensor values that respect the tensors' symmetries and spaces (virtual density zero, core density a delta, higher cumulants active only, and all-active amplitudes zero when these are removed). A term that vanishes by permutation symmetry canonicalizes to the empty term.",
  ["inputs", "configurations"],
  "every well-formed nonempty term without diagonal indices whose densities are not linked to each other and can be nonzero, in spin-orbital or spin-integrated indices, with any numbers of Hamiltonian, amplitude, cumulant and Kronecker factors, and both settings of each option",
  "The tests canonicalize a few terms and compare with stored results; the sign and relabelling depend on the joint arrangement of all indices.",
  ["Term.py", "IndicesPair.py", "Indices.py", "Tensor.py"],
  [("downgrading of cumulant labels and removal of deltas", "Term.py"), ("base and strong generating sets for the permutation symmetry", "IndicesPair.py"), ("translation of the canonical permutation back to tensors and sign", "Term.py")],
  ["Term.simplify", "Term.canonicalize", "Term.canonicalize_simple", "Term.canonicalize_sympy"]),
p("C05", "Equivalent terms have one canonical form",
  "Terms that differ only by renaming summed indices within a space, reordering factors, permuting antisymmetric indices with the matching sign, or exchanging upper and lower indices of Hermitian tensors have identical canonical forms and coefficients, up to the linear order used to print them. Canonicalizing a canonical term returns it unchanged, and with the Hermitian assumption off, upper and lower indices are not exchanged.",
  ["inputs", "histories"],
  "every well-formed term and every sequence of value-preserving rewrites of it",
  "The tests check a few pairs; uniqueness quantifies over the whole equivalence class of each term.",
  ["Term.py", "IndicesPair.py", "Tensor.py", "SQOperator.py"],
  [("double coset canonicalization", "Term.py"), ("minimal relabelling", "Term.py"), ("ordering of tensors", "Tensor.py")],
  ["Term.canonicalize", "Term.canonicalize_sympy"]),
p("C06", "Combining terms preserves the sum and merges all equal terms",
  "Combining a list of terms returns a sorted list with the same total, in which no two terms differ only by their coefficient and no term is zero. The result does not depend on the order or grouping of the input.",
  ["inputs", "histories"],
  "every list of canonical terms, with repetitions and cancellations, in every order and grouping",
  "The tests combine the output of particular commutators and compare a count.",
  ["phys_op_contraction.py", "Term.py"],
  [("grouping by printed form and summing coefficients", "phys_op_contraction.py")],
  ["combine_terms"]),
p("C07", "Commutator functions compute the algebraic commutator",
  "The single, linear and nested commutator functions return terms whose sum is the algebraic commutator AB - BA of their inputs times the requested factor, restricted to the requested window of open indices and cumulant rank: the same with or without the shortcut that skips disconnected contractions, antisymmetric under exchange of the arguments and linear in both. The two Baker-Campbell-Hausdorff routines agree with it at every nesting level, with the 1/n! factors, for single- and multireference amplitudes and for unitary and non-unitary ansaetze.",
  ["inputs", "configurations"],
  "every pair or chain of particle-conserving operators with distinct labels, each cumulant limit and window (the same window for both sides of a comparison), up to three contracted operators at a time; the shortcut where at least two factors have an open operator; densities in the inputs not linked to their own operator",
  "The tests compare selected terms and counts for a few operator pairs; the multireference path of one routine was never run.",
  ["phys_op_contraction.py", "sqop_contraction.py", "Term.py"],
  [("AB minus BA with combination", "phys_op_contraction.py"), ("recursive commutator with 1/n factors", "phys_op_contraction.py"), ("symbolic nested commutator expansion", "phys_op_contraction.py")],
  ["contract_terms", "single_commutator", "linear_commutator", "linear_commutator_amp", "recursive_single_commutator", "bch_cc_rsc", "nested_commutator_cc"]),
p("C08", "Spin integration preserves the spin-orbital sum",
  "The spin-integrated terms generated from a spin-orbital term together equal the spin-orbital sum in which every index runs over both spins and every tensor and the operator conserve spin: each surviving spin assignment is represented once, with the right coefficient. The generated spin cases of an index list, tensor or operator are all the spin assignments and, when spin conservation is requested, exactly the conserving ones.",
  ["inputs"],
  "every well-formed spin-orbital term without diagonal indices, every index list, tensor and operator",
  "The tests list the spin cases of a few tensors and terms.",
  ["Term.py", "Indices.py", "IndicesPair.py", "Tensor.py", "SQOperator.py"],
  [("product of spin cases filtered by connectivity", "Term.py"), ("spin cases of an index pair", "IndicesPair.py")],
  ["Term.generate_spin_cases_naive", "Indices.generate_spin_cases", "Tensor.generate_spin_cases", "SecondQuantizedOperator.generate_spin_cases"]),
p("C09", "Singlet spin adaptation preserves the value of a closed-shell term",
  "For a fully contracted spin-integrated term, the sum of the spin-adapted terms generated from it equals the value of the original when every spin-integrated tensor is built from spin-free singlet tensors by antisymmetrization over matching spins. An open operator is reduced like one more tensor, the adapted terms then standing for one of the possible orderings of the spins in its rows. The result is the same for both spin conventions of the reduction.",
  ["inputs", "configurations"],
  "every well-formed spin-integrated term without diagonal indices whose operator conserves spin and whose one-body densities and deltas join different tensors, both settings of the spin convention",
  "The tests adapt a few tensors and one equation and compare with stored results.",
  ["Term.py", "IndicesPair.py", "Indices.py"],
  [("expansion of a spin-integrated pair into spin-free ones", "IndicesPair.py"), ("relabelling of beta indices", "Term.py")],
  ["Term.generate_singlet_adaptation", "IndicesPair.generate_singlet_adaptation"]),
p("C10", "Emitted ambit code evaluates to the term",
  "Executing the ambit statements emitted for a term adds to the target tensor an antisymmetric tensor whose contraction with the open operator, with the 1/(k!)^2 convention of the target, equals the term (for spin-integrated terms, 1/(n_alpha! n_beta!) for each row of the target block). This holds for every choice of the temporary-tensor options that prints the permutations of the open indices, and for a block of terms printed together with a shared temporary, where it equals their sum. The forms that leave the permutations out add the same product, without permutations, to the temporary or to the target.",
  ["inputs", "configurations"],
  "every canonical spin-orbital or spin-integrated term without diagonal indices whose tensors carry open creation indices in one row and open annihilation indices in the other, every combination of the temporary and permutation options that is documented as complete, every list of such terms",
  "The tests compare three emitted strings.",
  ["Term.py", "SQOperator.py", "Indices.py", "phys_op_contraction.py"],
  [("permutation partition of the open indices", "Term.py"), ("ambit statements and permutations with signs", "Term.py"), ("grouping of terms by block and permutation", "phys_op_contraction.py")],
  ["Term.ambit", "print_terms_ambit", "categorize_contractions"]),
p("C11", "LaTeX output denotes the term",
  "Reading the LaTeX form of a term back gives the term: the printed coefficient, permutation operator, tensors and operator have the same value as the term, with and without the permutation format and under every formatting option. Different tensors, operators or coefficients print differently, and printing a list of terms prints each term exactly once, on its own row, terms of different blocks in different environments.",
  ["inputs", "configurations"],
  "every term, all combinations of the formatting options; the permutation format for terms without diagonal indices whose tensors carry open creation indices in one row and open annihilation indices in the other",
  "The tests compare a few printed strings; one test of the permutation format fails at the pinned commit.",
  ["Term.py", "SQOperator.py", "Indices.py", "IndicesPair.py", "phys_op_contraction.py"],
  [("coefficient divided by the number of permutations", "Term.py"), ("permutation operator string", "SQOperator.py")],
  ["Term.latex", "Tensor.latex", "SecondQuantizedOperator.latex", "SecondQuantizedOperator.latex_permute_format", "print_terms_latex"]),
p("C12", "Comparison of indices, tensors, operators and terms is a consistent order",
  "Within each kind of object the six comparison operators are mutually consistent and define a total preorder that is transitive and agrees with equality; equal objects have equal hashes; sorting gives the same order from every initial arrangement. Indices are ordered by space and then number, and equality means the same space and number.",
  ["inputs"],
  "every pair and triple of indices, index lists of the same kind, tensors, operators, terms and cost counters",
  "The tests compare selected pairs; order laws quantify over triples.",
  ["Index.py", "Indices.py", "IndicesPair.py", "SQOperator.py", "Tensor.py", "Term.py", "mo_space.py"],
  [("comparison operators and hashes", "Index.py"), ("comparison tuples", "Tensor.py")],
  ["==, !=, <, <=, >, >=, hash, sorted on the public classes"]),
p("C13", "Index reordering carries its sign; permutations are enumerated exactly once",
  "Canonicalizing an index list, tensor or operator sorts its indices and returns the parity of the permutation applied (spin-adapted index lists come back unchanged, with sign one). The permutation format of antisymmetric indices enumerates each distinct distribution of indices over the given groups exactly once with its parity, and the reported number of permutations is the number enumerated. For indices of mixed spin the enumerated distributions are exactly those that keep the spin pattern of the groups.",
  ["inputs"],
  "every index list, tensor and operator of any size, every partition of the indices into groups (the reported number for lists of one spin)",
  "The tests check a few permutations of up to four indices.",
  ["Indices.py", "IndicesPair.py", "SQOperator.py", "Tensor.py"],
  [("sorting with parity", "Indices.py"), ("multiset permutations with signs", "Indices.py")],
  ["canonicalize", "ambit_permute_format", "latex_permute_format", "permute_indices", "n_multiset_permutation"]),
p("C14", "Only well-formed objects can be constructed",
  "Indices, index lists, tensors, operators and terms accept exactly the well-formed inputs and otherwise raise an error without returning an object: valid space letter and number, no repeated index in a list, no spin mixing in spin-orbital lists, spin conservation and body rank where a tensor kind requires it, one index kind per term, and every index of a term appearing exactly twice (diagonal ones an even number of times). The constructed object reports exactly the indices, kind, name and coefficient it was given.",
  ["inputs"],
  "every constructor call over strings, lists and index objects of every index kind, well-formed or not (upper and lower indices given in the same form; each row of an amplitude from hole labels only or particle labels only)",
  "The tests try a handful of malformed inputs per class.",
  ["Index.py", "Indices.py", "IndicesPair.py", "SQOperator.py", "Tensor.py", "Term.py"],
  [("constructor checks", "Indices.py"), ("connectivity check", "Term.py")],
  ["Index", "make_indices / Indices classes", "Tensor.make_tensor", "SecondQuantizedOperator", "Term"]),
p("C15", "Orbital-space algebra is sound",
  "The space reported for a density or delta is exactly the set of orbitals on which it can be nonzero (hole for one-body cumulants, particle for hole densities, common space for deltas), or none when it vanishes identically; the label found for a set of elementary spaces denotes that set. Cost counters count each label once per index with alpha and beta together and compare by total scaling and then virtual, core and active powers, and the space counter counts the labels two tensors share by position.",
  ["inputs"],
  "every pair of labels, every set of elementary spaces of one spin that a label denotes, every counter over the labels, every pair of tensors",
  "The tests check a few label pairs.",
  ["mo_space.py", "Tensor.py", "SpaceCounter.py"],
  [("space relation tables", "mo_space.py"), ("downgrade of density labels", "Tensor.py"), ("counter", "SpaceCounter.py")],
  ["find_space_label", "MOSpaceCounter", "downgrade_indices", "SpaceCounter"]),
p("C16", "Space projections keep exactly the requested part of a term",
  "Expanding the composite open indices of a term into elementary spaces yields terms whose sum is the original restricted to the allowed orbitals, each elementary block once; the distinguished-component filter keeps exactly the blocks within the given numbers of core and virtual indices; the excitation projection equals the restriction of the creation indices to particles and the annihilation indices to holes (an operator with only active labels is not an excitation and gives the empty term); the one-body diagonal projection keeps exactly the blocks with both indices in one elementary space and of one spin.",
  ["inputs", "configurations"],
  "every well-formed spin-orbital or spin-integrated term whose densities are not linked to the operator, single- and multireference, all limits and starting label numbers",
  "The tests project a few terms and compare lists.",
  ["Term.py", "SQOperator.py"],
  [("enumeration of elementary spaces of open indices", "Term.py"), ("relabelling to particle and hole spaces", "Term.py")],
  ["Term.expand_composite_indices", "Term.make_ddca", "Term.make_excitation", "Term.make_one_body_diagonal", "is_possible_excitation"]),
p("C17", "Reported contraction cost is the true optimum over all orders",
  "The optimal compute and storage costs reported for a term are the minima, over all orders of pairwise contraction of its tensors, of the most expensive step of that order, and the returned paths attain them. The path enumeration lists every order, each with its true maximal compute and storage cost.",
  ["inputs"],
  "every well-formed term with one to five tensors",
  "One test checks one term.",
  ["Term.py", "mo_space.py"],
  [("recursive path enumeration", "Term.py"), ("cost comparison", "mo_space.py")],
  ["Term.contraction_paths", "Term.optimal_contraction_cost"]),
p("C18", "Generated C++ functions compute the sum of the input terms",
  "Executing the generated files, the target tensors and scalar end up as the given factor times the sum of the input terms (plus its Hermitian conjugate when requested), whatever they contained before; every function called is declared and defined once with matching parameters, and every temporary is declared and of the right block before use. The direct triples function computes the sum of its input terms into the new amplitudes before applying the denominators.",
  ["inputs", "configurations"],
  "every list of canonical particle-conserving spin-orbital terms over Hamiltonian and amplitude tensors, with and without the conjugate and the reuse of the Hamiltonian as scratch space",
  "One test generates files and does not read them.",
  ["write_forte_functions.py", "phys_op_contraction.py", "Term.py", "helper/file_utils.py"],
  [("file templates and call assembly", "write_forte_functions.py"), ("block grouping", "phys_op_contraction.py")],
  ["save_terms_ambit_functions", "save_terms_blocks_ambit_function", "save_direct_t3"]),
p("C19", "Operator constructors build the operators they name",
  "The Hamiltonian and cluster operator constructors build the k-body operator with coefficient 1/(k!)^2 times the given scale, tensor and operator indices matched, labels distinct and numbered from the given start, and the requested excitation direction, labels and name. The Fock, Dyall and Fink constructors and the cluster operator lists contain exactly the terms of their definition.",
  ["inputs", "configurations"],
  "every rank, start, direction, label set and reference kind",
  "The tests use two ranks and one label set.",
  ["Term.py", "phys_op_contraction.py"],
  [("operator constructors", "Term.py"), ("cluster operator list", "phys_op_contraction.py")],
  ["hamiltonian_operator", "cluster_operator", "cluster_operators", "diagonal_fock_operator", "dyall_hamiltonian", "fink_hamiltonian"]),
p("C20", "The amplitude gradient is the derivative of the energy term",
  "For a fully contracted term, the generated gradient terms together are its derivative: replacing each amplitude in turn by an arbitrary tensor of the same symmetry and summing gives the same value as contracting the generated operators with that tensor, with one gradient term per amplitude factor.",
  ["inputs"],
  "every fully contracted well-formed spin-orbital or spin-integrated term with any number of amplitudes",
  "No test covers the gradient.",
  ["Term.py"],
  [("removal of one amplitude and exposure of its indices", "Term.py")],
  ["Term.gradient_t"]),
p("C21", "Operations do not corrupt other objects",
  "Copies, conjugates, sign flips and every operation that returns new objects leave their arguments, and every object previously obtained from the library, with the same value, except that canonicalization may rewrite its own term into an equivalent form. The same call on equal arguments gives an equal result at any point of any sequence of calls.",
  ["histories"],
  "every sequence of library calls on shared terms, tensors, operators and indices",
  "The tests make each call once on fresh objects.",
  ["Term.py", "Tensor.py", "SQOperator.py", "Indices.py", "phys_op_contraction.py", "sqop_contraction.py"],
  [("copy constructors", "Term.py"), ("in-place simplification", "Term.py"), ("backtracking that restores its state", "sqop_contraction.py")],
  ["all public operations on shared objects"]),
p("C22", "Helper enumerations and directory scoping are exact",
  "Partitioning an integer yields each of its partitions exactly once, and separating it into two parts yields each split exactly once. Entering a scoped directory, at any nesting and with any body including one that raises or itself changes directory, creates it if needed, makes it current, and on leaving restores the directory that was current at its creation.",
  ["inputs", "histories"],
  "every positive integer, every nesting and exit path of scoped directories whose parent exists",
  "No test covers the helpers directly.",
  ["helper/integer_partition.py", "helper/file_utils.py"],
  [("recursive partition", "helper/integer_partition.py"), ("context manager", "helper/file_utils.py")],
  ["integer_partition", "integer_separation", "ChangeDir"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for r in props:
        assert len(r['title']) <= 80, r['title']
        f.write(json.dumps(r) + '\n')
print(len(props), 'properties')
