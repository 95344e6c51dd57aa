"""Writes properties.jsonl and MANIFEST.json (run by hand after changing them)."""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/spgrep/"
P = []


def prop(i, title, st, over, qt, why, files, mech):
    P.append({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech]}})


I, C = ["inputs"], ["inputs", "configurations"]
prop("C01", "Little group is exactly the operations that fix k modulo reciprocal lattice",
     "For any operations in a primitive basis and any wave vector, the returned little group contains an operation if and only if it maps k onto k plus a reciprocal lattice vector within the tolerance (time-reversal operations map k to minus its image), in the order of the input, and the returned mapping gives each returned operation's position in the input.",
     I, "all space groups (unimodular rotations with translations, with or without time-reversal flags), all k, shifts of k by reciprocal vectors and tolerances",
     "tests call it at a few k points of two or three groups; a wrong transpose, sign or tolerance only shows for low-symmetry k or non-orthogonal axes",
     ["group.py"], [("little-group selection", "group.py:get_little_group"), ("crystal entry points", "core.py:get_spacegroup_irreps_from_primitive_symmetry")])
prop("C02", "The factor system of a little group is a unimodular 2-cocycle",
     "For every little group the returned multiplication table is the one of the operations modulo lattice translations, and the returned factor system equals exp(-i(S_i^-1 k - k).w_j), so it has modulus one and satisfies omega(i,j) omega(ij,l) = omega(i,jl) omega(j,l) for all triples of operations.",
     I, "all groups of operations closed modulo integer translations and all k fixed by them, for all triples i,j,l",
     "associativity is a statement over all triples, all groups and all k; tests compare a few factor systems numerically",
     ["group.py"], [("factor system", "group.py:get_factor_system_from_little_group"), ("cocycle check", "group.py:check_cocycle_condition")])
prop("C03", "Returned small representations obey the multiplication law of the little group",
     "Every returned small representation is a family of unitary matrices with D(g)D(h) equal to D(gh) times exp(-ik.t), where t is the lattice translation by which the product of g and h exceeds the listed operation gh, for every pair of little-group operations and every method.",
     C, "all space groups, k, operation orders, bases, origins and both methods",
     "holds for all pairs of operations of every group; the tests sample a handful of groups in their standard setting",
     ["irreps.py", "core.py", "representation.py"],
     [("from factor system to small representations", "irreps.py:enumerate_small_representations"), ("law checker", "representation.py:check_spacegroup_representation"), ("phases", "core.py:get_spacegroup_irreps_from_primitive_symmetry")])
prop("C04", "Returned irreps are irreducible, pairwise inequivalent and complete",
     "For every finite group or little group, with or without a factor system, the returned representations are irreducible and pairwise inequivalent and their squared dimensions add up to the group order, and the two construction methods give the same representations up to equivalence.",
     C, "all crystallographic point groups and little groups, bases, orders of operations, factor systems, both methods",
     "completeness and inequivalence are statements about the entire set for each of infinitely many bases and wave vectors; tests check selected groups",
     ["irreps.py", "group.py"], [("random method", "irreps.py:enumerate_unitary_irreps_from_regular_representation"), ("chain method", "irreps.py:enumerate_unitary_irreps_from_solvable_group_chain"), ("dispatch", "irreps.py:enumerate_unitary_irreps")])
prop("C05", "Crystal-structure API returns small representations for the cell that was given",
     "Given any cell of a crystal and a k vector in that cell's reciprocal basis, or another stated reciprocal basis, the returned operations are symmetries of the cell, the mapping selects exactly those fixing k, and the returned irreps obey the multiplication law with centring translations represented by their phases.",
     I, "all crystals in conventional, primitive, sheared or supercell settings, all k, all stated reciprocal bases",
     "the tests use standardized cells where conversions between bases are identities",
     ["core.py", "transform.py"], [("crystal irreps", "core.py:get_spacegroup_irreps"), ("basis change", "transform.py:transform_symmetry_and_kpoint"), ("deduplication", "transform.py:unique_primitive_symmetry")])
prop("C06", "SU(2) matrices cover rotations and the spinor factor system is a sign cocycle",
     "For every rotation or rotoinversion in any lattice the returned 2x2 matrix is unitary with determinant one and its adjoint action is the proper part of the rotation in Cartesian coordinates, and the returned factor system consists of signs with U(i)U(j) = omega(i,j) U(ij).",
     I, "all crystallographic rotations, lattices, orientations of the lattice, rotation angles up to and including pi",
     "tests check a few groups in one orientation; sign conventions at angle pi and near zero trace depend on the axis",
     ["spinor.py"], [("SU(2) matrix", "spinor.py:get_spinor_unitary_rotation"), ("angle and axis", "spinor.py:get_rotation_angle_and_axis"), ("factor system", "spinor.py:get_spinor_factor_system")])
prop("C07", "Spinor irreps obey the spinor multiplication law and are complete",
     "For every space group, lattice and k the returned double-valued representations satisfy D(g)D(h) = omega(g,h) exp(-ik.t) D(gh) with the returned factor system and SU(2) matrices, one entry per returned operation, and they are irreducible, inequivalent and complete.",
     C, "all space groups, lattices, k, methods, conventional and primitive cells",
     "the tests cover a few spinor cases; the sign and phase factors enter independently",
     ["core.py", "spinor.py"], [("crystal spinor irreps", "core.py:get_spacegroup_spinor_irreps"), ("primitive cell", "core.py:get_spacegroup_spinor_irreps_from_primitive_symmetry"), ("point groups", "core.py:get_crystallographic_pointgroup_spinor_irreps_from_symmetry")])
prop("C08", "Co-representations of magnetic groups obey the anti-linear multiplication law",
     "For every magnetic space group or point group, with or without spin, the returned co-representation matrices are unitary, satisfy D(g) D(h)^(conjugated if g is anti-linear) = omega(g,h) D(gh), are irreducible with indicator 1, -1 or 0 matching their type, and exhaust the unitary irreps.",
     C, "all 1651 magnetic space groups in any setting, all k, spinless and spinful, both methods",
     "conjugation placement only matters for complex irreps and particular coset representatives; tests sample few magnetic groups",
     ["corep.py", "core.py", "group.py"], [("co-representations", "corep.py:enumerate_spinor_small_corepresentations"), ("factor system", "corep.py:get_corep_spinor_factor_system"), ("splitting into XSG and anti-linear operations", "group.py:decompose_by_maximal_space_subgroup")])
prop("C09", "Physically irreducible representations are real and exhaust the irreps",
     "Requesting representations over the real numbers returns real orthogonal matrices that are representations, irreducible over the reals, pairwise inequivalent, and that together account for every irrep exactly once, a real one by itself and the others joined with their complex conjugate.",
     C, "all point groups and space groups with k, arbitrary unitary gauges of the input irreps, both methods",
     "the gauge in which complex irreps arrive is arbitrary, and tests cover the gauges that happen to be produced",
     ["irreps.py", "representation.py"], [("real form", "irreps.py:get_physically_irrep"), ("pairing conjugates", "irreps.py:enumerate_small_representations"), ("Frobenius-Schur indicator", "representation.py:frobenius_schur_indicator")])
prop("C10", "Intertwiner of equivalent representations intertwines and has determinant one",
     "For two equivalent unitary irreps with the same factor system the returned matrix M is unitary with determinant one and satisfies D1(g) M = M D2(g) for every g, and for inequivalent irreps of equal dimension the returned matrix is zero.",
     I, "all groups, factor systems and pairs of unitary (projective) irreps of equal dimension in arbitrary gauges, with a tolerance above the accuracy of the irreps",
     "must hold for every pair of gauges, tests try a few random gauges on small groups",
     ["representation.py"], [("intertwiner", "representation.py:get_intertwiner")])
prop("C11", "Projection onto an irrep returns partner functions of that irrep",
     "Every basis returned by projecting a unitary representation onto an irrep is an orthonormal set of row vectors transforming exactly as that irrep under every group element, different sets are linearly independent, and their number is the multiplicity of the irrep.",
     I, "all groups, representations, projective factor systems and irreps",
     "tests check a few small representations; multiplicity and orthogonality among several copies are only visible for reducible ones with repeated irreps",
     ["representation.py"], [("projection", "representation.py:project_to_irrep")])
prop("C12", "Symmetric tensors are invariant, independent and exhaustive",
     "The returned symmetry-adapted tensors are invariant under every operation of the group, normalised, linearly independent and span all invariant tensors of the requested rank, and after imposing permutation symmetry they span exactly the invariant tensors that also have that symmetry.",
     I, "all groups of matrices, ranks, real and complex bases and all permutation symmetries of the indices",
     "dimension counting must hold for every group and rank; tests check elastic-type tensors of two groups",
     ["tensor.py"], [("invariants", "tensor.py:get_symmetry_adapted_tensors"), ("permutations", "tensor.py:apply_intrinsic_symmetry")])
prop("C13", "Changing basis and removing duplicate operations preserve the group",
     "Transforming operations and k by any change of basis and origin describes the same operations on the same points, and removing duplicates keeps exactly one of each coset modulo lattice translations together with a mapping from each input to its representative that differs from it only by a lattice translation.",
     I, "all operations, invertible transformations, origins, k; all lists with arbitrarily interleaved duplicates",
     "order of duplicates and fractional basis changes vary over infinite families",
     ["transform.py"], [("change of basis", "transform.py:transform_symmetry_and_kpoint"), ("deduplication", "transform.py:unique_primitive_symmetry"), ("primitive cells", "transform.py:get_primitive_transformation_matrix")])
prop("C14", "Group structure helpers return the group's table, identity, inverses and orders",
     "For every finite matrix group, with or without time-reversal flags, the table holds the index of each product, the identity, inverse and element order found from it are the true ones, a set is accepted as a group exactly when it is one, and a magnetic group is split into its maximal unitary subgroup and the coset of anti-unitary operations with the right type.",
     I, "all finite groups of integer matrices in any order, and non-groups",
     "exactness of recognition is a statement over all non-groups as well",
     ["group.py"], [("table", "group.py:get_cayley_table"), ("group test", "group.py:is_matrix_group"), ("identity, inverse, order", "group.py:get_identity_index"), ("split", "group.py:decompose_by_maximal_space_subgroup")])
prop("C15", "Point-group tables and solvable chains generate the group",
     "Each tabulated crystallographic point group is closed and matches its symbol, and for every point group in any basis and order the returned generators form a chain of subgroups, each normal in the next and extended by a generator whose order is its factor, ending in the whole group.",
     I, "all 32 tabulated groups (complete enumeration) and all of their conjugates in arbitrary bases",
     "a wrong row of the table or a generator in the wrong order breaks one group only",
     ["pointgroup.py"], [("tables", "pointgroup.py:pg_dataset"), ("generators", "pointgroup.py:get_pointgroup_chain_generators"), ("generators of a table", "pointgroup.py:get_generators")])
prop("C16", "Representation checkers accept exactly what satisfies the law",
     "The checks for being a representation, unitary, a space-group representation or a cocycle accept an input if and only if it satisfies the defining equation for every element, pair or triple of elements within the tolerance.",
     I, "all tables, factor systems and matrix families, including those wrong in one entry",
     "soundness quantifies over every single-entry corruption",
     ["representation.py", "group.py", "irreps.py"], [("representation law", "representation.py:is_representation"), ("unitarity", "representation.py:is_unitary"), ("space-group law", "representation.py:check_spacegroup_representation"), ("cocycle law", "group.py:check_cocycle_condition")])
prop("C17", "Regular representations, products, characters, indicators match definitions",
     "The regular and projective regular representations permute the group elements and satisfy the multiplication law of their table and factor system, direct products are element-wise Kronecker products, characters are traces, and the Frobenius-Schur indicator of an irrep is 1, -1 or 0 for real, quaternionic and complex irreps.",
     I, "all groups, factor systems and representations",
     "laws hold over all pairs of elements of all groups; tests use two groups",
     ["representation.py"], [("regular representation", "representation.py:get_regular_representation"), ("projective", "representation.py:get_projective_regular_representation"), ("product", "representation.py:get_direct_product"), ("indicator", "representation.py:frobenius_schur_indicator")])
prop("C18", "Decomposition of a representation returns all of its irreducible constituents",
     "Decomposing any unitary (projective) representation returns irreps whose characters, with repetition, add up to the character of the input, each irreducible and obeying the input's law.",
     I, "all groups, factor systems, direct sums with arbitrary multiplicities in arbitrary gauges",
     "multiplicities and gauges vary over infinite families; tests decompose regular representations only",
     ["irreps.py"], [("decomposition", "irreps.py:decompose_representation"), ("diagonalisation", "irreps.py:_get_irreps_from_matrix")])
prop("C19", "Numerical utilities satisfy their defining identities",
     "Distances between subspaces, nth roots, primality tests, integrality tests, rounding of matrices to integers and tensor-matrix products return values satisfying their mathematical definitions for every valid argument.",
     I, "all vectors, matrices, complex numbers, natural numbers and tolerances",
     "definitions over infinite domains; tests try a few values",
     ["utils.py"], [("nth root", "utils.py:nroot"), ("primes", "utils.py:is_prime"), ("integers", "utils.py:is_integer_array"), ("rounding", "utils.py:ndarray2d_to_integer_tuple"), ("mode product", "utils.py:mode_dot"), ("Grassmann distance", "utils.py:grassmann_distance")])
prop("C20", "Calls do not modify their arguments or global random state and are reproducible",
     "No public function modifies an array passed to it (the purify helpers, which clean a matrix in place by design, excepted), shares memory between returned irreps and arguments, or touches the global random state, and two calls with equal arguments return equal results.",
     ["inputs", "histories"], "all public functions and arguments, any sequence of calls",
     "a stray in-place update is invisible to tests that do not look at arguments after the call",
     ["irreps.py", "core.py", "corep.py", "representation.py", "transform.py", "group.py", "spinor.py"], [("random method", "irreps.py:enumerate_unitary_irreps_from_regular_representation"), ("phases", "core.py:get_spacegroup_irreps"), ("projection", "representation.py:project_to_irrep")])
prop("C21", "Invalid input is rejected rather than answered",
     "Non-primitive operation lists given to primitive-cell functions, unknown method names or kinds of distance, sets of rotations that are not closed, arrays of inconsistent shapes and out-of-range Hall numbers raise ValueError instead of returning an answer.",
     I, "all invalid inputs of the stated kinds",
     "every kind of invalid input must be rejected for every group; tests hardly exercise rejection",
     ["group.py", "irreps.py", "core.py", "representation.py"], [("primitive check", "core.py:get_spacegroup_irreps_from_primitive_symmetry"), ("method dispatch", "irreps.py:enumerate_unitary_irreps"), ("lookup of products", "group.py:get_cayley_table"), ("shapes", "representation.py:get_direct_product")])

TECH = json.load(open(os.path.join(H, "tools/tech.json")))
NA = TECH.get("not_applicable", [])
na = {x["property"] for x in NA}
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
checks = []
for p in P:
    i = p["id"]
    if i in na:
        continue
    t = TECH["checks"].get(i, TECH["default"])
    checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"python3-vt check.py {i} thorough",
                   "technique": t["technique"], "level": t["level"], "level_note": t["note"]})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": NA,
           "notes": TECH.get("notes", "")}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
