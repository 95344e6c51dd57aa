"""What is trusted / assumed without a machine check, and what is out of reach, per property."""
COMMON = [
    "dv/interp.py, dv/loops.py, dv/numpy_model.py: the reading of the Python and NumPy subset used by spgrep; dv/cross.py compares it with CPython and "
    "NumPy on about 270 snippets in every run (reported among the vacuity guards)",
    "dv/norm.py: rewriting with the axioms each contract declares (its requires clauses); z3 4.x for linear real / boolean queries",
    "each contract of a callee used at a call site is an obligation of a contract on that callee unless listed under assumptions",
]
ASSUME = [
    "floating-point arithmetic is treated as exact real/complex arithmetic; tolerances are non-negative reals; rounding ties do not occur",
    "arrays have extents >= 1; arguments have the documented shapes and element kinds",
    "numpy functions compute what their documentation says (einsum, dot, linalg, allclose, ...)",
    "element types follow NumPy's rules (imaginary part / fraction dropped when stored in a real / integer array); integer overflow does not occur",
]
EIG = "assumed contracts of numpy.linalg.eigh/eig/qr/svd: eigenpairs, orthonormal bases and singular values of the given matrix"
GENERIC = "the seeded random matrix is generic: eigenspaces of the group average are irreducible (holds with probability one; bounded contracts check the outcome)"
SPGLIB = "assumed contract of spglib.get_symmetry_dataset / get_symmetry / get_pointgroup: symmetry operations, Hall number and transformation of the given cell"
SCHUR = "cited: Schur's lemma and orthogonality of characters for (projective) representations of finite groups"
CLIFFORD = "cited: Clifford theory for a normal subgroup of prime-like index (an irrep is extended if conjugate to itself, induced otherwise; all irreps arise)"
CLEAN = "the cleaning functions move entries by less than their tolerance; at call sites they are read as the identity"
SU2 = "cited: the kernel of SU(2) -> SO(3) is {1, -1}"
PROP = {
    "C01": {"level": "proof", "assume": [SPGLIB]},
    "C02": {"level": "proof"},
    "C03": {"level": "proof", "assume": [EIG, GENERIC, CLEAN, "projective irreps of the factor system obey its law (obligations of C04)"]},
    "C04": {"level": "proof", "assume": [EIG, GENERIC, SCHUR, CLIFFORD, CLEAN,
                                         "extension lemma on paper: an intertwiner between D and its conjugate, scaled so that its p-th power is that of r^p, extends D"],
            "out_of_reach": ["that a list of irreps whose squared dimensions add up to the order is complete (cited theorem)"]},
    "C05": {"level": "proof", "assume": [SPGLIB, "operations with the same primitive operation have the same time reversal (contract of unique_primitive_symmetry)"]},
    "C06": {"level": "proof", "assume": [SU2, EIG, "Euler's theorem: a proper rotation is a rotation about an axis by an angle"]},
    "C07": {"level": "proof", "assume": [SU2, SPGLIB, SCHUR, GENERIC, "irreps of the factor system are irreducible, inequivalent and complete (obligations of C04)"]},
    "C08": {"level": "proof", "assume": [SU2, SCHUR, "cited: Wigner's classification of co-representations by the indicator",
                                         "paper: a loop that marks pairs and lists each unmarked entry once yields a partition",
                                         "irreps of the unitary half are irreducible, inequivalent and complete (obligations of C04)"]},
    "C09": {"assume": [EIG, SCHUR, "cited: the theorem of Frobenius and Schur on real forms"],
            "out_of_reach": ["exhaustiveness at k with 2k not a reciprocal lattice vector: false on this tree (known findings), kept by a stable test"]},
    "C10": {"level": "proof", "assume": [SCHUR, "the seeded trial matrices are generic: their group average vanishes only for inequivalent irreps"]},
    "C11": {"level": "proof", "assume": [SCHUR, "the trial vectors are generic; renaming of the summation variable in a sum over the group (Gram matrix) is on paper"]},
    "C12": {"level": "proof", "assume": [SCHUR, "permuting the axes of a tensor is an action of the symmetric group that commutes with A x .. x A",
                                         "project_to_irrep finds all copies (obligations of C11), so that the bases of each rank span all tensors and those of the identity all invariant ones; "
                                         "a tensor nearer than 1/1000 to the span of others lies in it"],
            "out_of_reach": ["numerical loss of accuracy with growing rank"]},
    "C13": {"level": "proof", "assume": [SPGLIB, "primitive matrices are verified up to the choice of a basis of the same lattice"]},
    "C14": {"level": "proof", "assume": ["paper lemma: a finite list closed under an associative product whose table has exhausting rows and columns is a group"]},
    "C15": {"level": "proof", "assume": ["contract of spglib.get_pointgroup: the symbol of the point group and a matrix into the tabulated setting"]},
    "C16": {"level": "proof"},
    "C17": {"level": "proof", "assume": ["theorem of Frobenius and Schur: the sum in the definition is 1, -1, 0 for real, quaternionic, complex irreps"]},
    "C18": {"level": "proof", "assume": [EIG, GENERIC, SCHUR]},
    "C19": {"level": "proof", "assume": [EIG, "mode product of a tensor of any rank: defined as the products along its axes one after another"]},
    "C20": {"level": "proof", "assume": ["two calls with equal arguments return equal results: the functions read no state but their arguments and freshly seeded generators "
                                         "(global random state is a violation); LAPACK and spglib are deterministic"]},
    "C21": {"level": "proof", "out_of_reach": ["rejections inside NumPy and spglib (bounded contracts)"]},
}
