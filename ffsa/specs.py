"""Argument contracts of the public functions and the references they are compared with."""
from .compare import Arg, Spec


def INT():
    return Arg("int", size=True)


def MAT(shape=None, square=False, opt=False):
    return Arg("mat", shape=shape, square=square, opt=opt)


def SQ(d=None, opt=False):
    return Arg("mat", shape=None if d is None else (d, d), square=True, opt=opt)


def VEC():
    return Arg("vec")


def ANY(opt=False):
    return Arg("any", opt=opt)


def BOOL():
    return Arg("bool")


def SEED():
    return Arg("int", opt=True)


def OPS(length, n, opt=False):
    return Arg("list:mat", length=length, elem=(f"2**({n})", f"2**({n})"), opt=opt)


SPECS = {}


def S(name, *args, **kw):
    SPECS[name] = Spec(name, list(args), **kw)


# second quantisation
S("pauli_matrices")
S("generate_pauli_group", INT(), BOOL())
S("jordan_wigner_lowering", INT())
S("jordan_wigner_alphas", INT())
S("jordan_wigner_majoranas", INT())
S("rotate_operators", MAT(), Arg("list:mat"), BOOL(), BOOL())
S("build_V", INT(), SQ("p0"), SQ("p0", opt=True))
S("build_H", INT(), SQ("p0"), SQ("p0", opt=True))
S("random_FF_rotation", INT(), SEED(), BOOL(), BOOL())
S("random_FF_state", INT(), BOOL(), SEED(), BOOL(), BOOL())
S("random_H_generator", INT(), BOOL(), SEED())
S("kitaev_chain", INT(), Arg("scalar"), Arg("scalar"), Arg("scalar"))
S("build_Omega", INT())
S("build_reordering_xx_to_xp", INT())
S("build_K", INT())
S("is_symp", SQ("2*m"))
S("check_canonical_form", MAT())
S("generate_gaussian_state", INT(), SQ(), OPS("2*p0", "p0", True))
S("build_op", INT(), SQ("2*p0"), OPS("2*p0", "p0"), BOOL(), BOOL())
S("compute_cov_matrix", SQ(), Arg("int", size=True, opt=True), OPS("2*p1", "p1", True))
S("correlation_matrix", SQ())
S("compute_2corr_matrix", SQ(), INT(), OPS("2*p1", "p1", True), Arg("real", opt=True))
S("compute_algebra_S", Arg("list:mat"), BOOL())
S("is_matchgate", MAT(), BOOL())
S("eigh_sp", SQ("2*m"), rel="eigh_sp")
S("eigv_sp", SQ("2*m"), rel="eigv_sp")
S("eigm_sp_can", SQ("2*m"), rel="eigm_sp_can")
S("eigm_sp", SQ("2*m"), rel="eigm_sp")
S("permutation_to_matrix", VEC())
# combinatorial functions
S("sgn", VEC())
S("pf", SQ())
S("hf", SQ())
S("pt", SQ())
S("dt", SQ())
S("dt_eigen", MAT())
# distances
S("stabilizer_distribution", ANY(), raises=("ValueError",))
S("SRE", ANY(), Arg("real"), alts=True)
S("renyi_entropy", ANY(), Arg("real"))
S("linear_entropy", ANY())
S("cov_distribution", ANY())
S("FAF", ANY(), Arg("real"))
for _n in ("total_variation_distance", "relative_entropy", "bhattacharyya_coeff", "jensen_shannon_divergence", "trace_distance"):
    S(_n, ANY(), ANY())
# states
S("random_qubit_state", INT(), SEED())
S("random_qubit_pure_state", INT(), SEED())
S("random_CHP_state", INT())
S("random_FF_state_randH", INT(), SEED())
S("random_FF_state_rotPDF", INT(), BOOL(), SEED())
S("random_FF_pure_state_W0", INT(), SEED())
S("random_FF_pure_state_WN", INT(), Arg("int", opt=True), SEED())
S("random_FF_pure_state_CN", INT(), SEED())
S("get_orthogonal_vectors", ANY())
KET = ("vector", "column")
S("build_unitary_path", Arg("any", classes=KET), Arg("any", classes=KET))
S("build_linear_path", Arg("any", classes=KET), Arg("any", classes=KET))
# utilities
S("generate_random_bitstring", INT(), Arg("int"))
S("kron_plus", MAT(), MAT())
S("cast_to_pdf", ANY(), raises=("ValueError",))
S("cast_to_density_matrix", ANY(), raises=("ValueError",))
S("partial_trace_diagblocksum", SQ(), INT())
S("partial_trace_blockTr", SQ(), INT())
S("partial_trace_over_1", SQ(), INT(), ref=["partial_trace_diagblocksum"])
S("partial_trace_over_2", SQ(), INT(), ref=["partial_trace_blockTr", "partial_trace_blockTr_b"])
NUMBERS = ("int", "float", "complex", "float64", "float32", "int64", "complex128", "complex64")
S("clean", Arg("any", classes=NUMBERS + ("str", "list", "ndarray", "real ndarray", "matrix", "tuple", "object")),
  Arg("any", classes=("int", "float")), raises=("TypeError",))
S("formatted_output", Arg("any", classes=NUMBERS + ("str", "list", "ndarray", "object")), Arg("int"))
# graphs
S("count_perfect_matchings", ANY())
S("count_perfect_matchings_planar", ANY())
S("find_perfect_matchings_brute", ANY(), raises=("ValueError",))
S("compute_tree_depth", ANY(), raises=("ValueError",))
S("complete_face", SQ(), Arg("any"), probe="complete_face")
S("plot_graph_with_edge_weights", ANY(), ANY(True), ANY(True))
S("generate_random_planar_graph", INT(), SEED())

S("analyze_pdf", ANY(), ANY(True), BOOL(), probe="analyze_pdf", open=True)
PUBLIC = set(SPECS) | {"plot_graph_with_edge_weights", "plot_planar_embedding", "dual_graph_H", "faces", "complete_face", "pfo_algorithm",
                       "print_custom", "clean", "formatted_output", "analyze_pdf"}


# which inputs are rejected
REJECTS = {}


def J(name, *args, **kw):
    REJECTS[name] = Spec(name, list(args), key="reject:" + name, **kw)


for _n in ("generate_pauli_group", "random_qubit_state", "random_qubit_pure_state", "random_CHP_state", "random_FF_state_randH",
           "random_FF_state_rotPDF", "random_FF_pure_state_W0", "random_FF_pure_state_CN"):
    J(_n, ANY(), *([BOOL()] if _n in ("generate_pauli_group", "random_FF_state_rotPDF") else []), reject=("TypeError", "ValueError"))
J("random_FF_pure_state_WN", ANY(), ANY(True), reject=("TypeError", "ValueError"))
J("cast_to_pdf", ANY(), reject="any")
J("cast_to_density_matrix", ANY(), reject="any")
