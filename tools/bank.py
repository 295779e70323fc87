"""In-memory edits for tools/selftest.py: BUGS break a property, REFACTORS keep the behaviour."""
L, R, G = "ff_lib", "ff_random_states", "ff_graph_theory"
D, U, C, I = "ff_distance_measures", "ff_utils", "ff_combinatorics", "__init__"
BUGS = []
REFACTORS = []


def b(key, pid, *reps):
    BUGS.append((key, pid, [tuple(reps[i:i + 3]) for i in range(0, len(reps), 3)]))


def r(key, *reps):
    REFACTORS.append((key, [tuple(reps[i:i + 3]) for i in range(0, len(reps), 3)]))


# ---------------------------------------------------------------- C01 / C02
b("c01-w0-noseed", "C01", R, "    W_op = random_FF_rotation(n_sites, seed=seed)\n    zero_state", "    W_op = random_FF_rotation(n_sites, seed=np.random.randint(1000))\n    zero_state",
  R, '''    if seed is not None:
        np.random.seed(seed)

    # For pure states, apply Haar random unitary to vacuum state
    W_op''', '''    # For pure states, apply Haar random unitary to vacuum state
    W_op''')
b("c01-late-seed", "C01", R, '''    if seed is not None:
        np.random.seed(seed)

    # Generate random pdf using Dirichlet distribution
    s = np.random.dirichlet(np.ones(2**n))
''', '''    # Generate random pdf using Dirichlet distribution
    s = np.random.dirichlet(np.ones(2**n))

    if seed is not None:
        np.random.seed(seed)
''')
b("c01-wn-N-before", "C01", R, '''    if seed is not None:
        np.random.seed(seed)

    if N is None:
        N = np.random.randint(n_sites + 1)
''', '''    if N is None:
        N = np.random.randint(n_sites + 1)

    if seed is not None:
        np.random.seed(seed)
''')
b("c01-default-rng", "C01", L, "    A = np.random.randn(n_sites, n_sites)\n    A = A + 1j", "    A = np.random.default_rng().standard_normal((n_sites, n_sites))\n    A = A + 1j")
b("c01-planar-gnm-seed", "C01", G, "    if seed is not None:\n        random.seed(seed)", "    if seed is not None:\n        np.random.seed(seed)")
b("c01-seed-const", "C01", L, "        np.random.seed(seed)\n\n    if pure:", "        np.random.seed(abs(seed) % 2)\n\n    if pure:") # not detected necessarily
b("c01-unitary-rs", "C01", R, "    U = unitary_group.rvs(dim=2**n)\n    zero_state", "    U = unitary_group.rvs(dim=2**n, random_state=np.random.RandomState())\n    zero_state")
b("c01-gt-zero", "C01", R, "seed=seed + 1 if seed is not None else None)\n    psi = W_op", "seed=seed + 1 if seed else None)\n    psi = W_op")
b("c01-hash", "C01", L, "        np.random.seed(seed)\n\n    A =", "        np.random.seed(hash(str(seed)) % 2**32)\n\n    A =")
b("c02-orth-seed", "C02", R, "    # Perform QR decomposition\n", "    # Perform QR decomposition\n    np.random.seed(0)\n")
b("c02-save-restore", "C02", U, "    indices = np.random.choice(n, size=k, replace=False)", "    np.random.seed(None)\n    indices = np.random.choice(n, size=k, replace=False)")
b("c02-unseeded-default", "C02", G, "    if seed is not None:\n        random.seed(seed)", "    random.seed(seed)")
b("c02-import", "C02", R, "from .ff_utils import cast_to_density_matrix, clean\n", "from .ff_utils import cast_to_density_matrix, clean\n\nnp.random.seed(2025)\n")
b("c02-draw-nonrandom", "C02", D, "    evals = np.linalg.eigvals(diff)\n", "    diff = diff + 1e-15 * np.random.randn(*diff.shape)\n    evals = np.linalg.eigvals(diff)\n")

# ---------------------------------------------------------------- C03
b("c03-clean-inplace", "C03", U, "        obj = obj.copy()\n", "")
b("c03-asarray-norm", "C03", R, "    # Normalize the input vector\n    v_norm = np.linalg.norm(v)\n", "    # Normalize the input vector\n    v_norm = np.linalg.norm(v)\n    v[np.abs(v) < 1e-14] = 0\n")
b("c03-pop-alphas", "C03", L, "    b_ops = []\n\n    for j in range(n):", "    b_ops = []\n    alphas.reverse()\n    alphas.reverse()\n\n    for j in range(n):")
b("c03-graph-weights", "C03", G, "    A = nx.adjacency_matrix(graph).toarray()\n\n    # run", "    for u, v, d in graph.edges(data=True):\n        d.setdefault(\"weight\", 1)\n    A = nx.adjacency_matrix(graph).toarray()\n\n    # run")
b("c03-faces-sort", "C03", G, "    for f in F:\n        face_edges.append([tuple(sorted(e)) for e in f])", "    for f in F:\n        f.sort()\n        face_edges.append([tuple(sorted(e)) for e in f])")
b("c03-eig-diag", "C03", L, "    A = H[n_sites:, n_sites:]\n\n    # if the key", "    A = H[n_sites:, n_sites:]\n    A[np.abs(A) < 1e-14] = 0\n\n    # if the key")
b("c03-linear-path-w", "C03", R, "    w = w / np.linalg.norm(w)\n    v = v / np.linalg.norm(v)\n\n    def path(s):", "    w = w / np.linalg.norm(w)\n    v /= np.linalg.norm(v)\n\n    def path(s):")
b("c03-pdf-clip", "C03", D, "    p = cast_to_pdf(p)\n\n    if a == 1:", "    p[p < 0] = 0\n    p = cast_to_pdf(p)\n\n    if a == 1:") if False else None

# ---------------------------------------------------------------- C04
b("c04-mutable-default", "C04", L, "def build_op(n_sites, R, alphas, verbose=None, direct=False):", "_OPS = {}\n\n\ndef build_op(n_sites, R, alphas, verbose=None, direct=False):",
  L, "    # N-body operators\n    R_op = np.zeros_like(alphas[0], dtype=np.result_type(R, *alphas))\n", "    # N-body operators\n    key = (n_sites, len(alphas), direct)\n    R_op = _OPS.setdefault(key, np.zeros_like(alphas[0], dtype=np.result_type(R, *alphas)))\n    R_op[...] = 0\n")
b("c04-lru", "C04", L, "import numpy as np\n", "from functools import lru_cache\n\nimport numpy as np\n", L, "def jordan_wigner_lowering(n_sites):", "@lru_cache(maxsize=None)\ndef jordan_wigner_lowering(n_sites):")
b("c04-global-omega", "C04", L, "    Omega = np.zeros((2 * N, 2 * N), dtype=complex)\n    nu", "    global _OMEGA\n    if _OMEGA is not None and _OMEGA.shape[0] == 2 * N:\n        return _OMEGA\n    Omega = _OMEGA = np.zeros((2 * N, 2 * N), dtype=complex)\n    nu", L, "def build_Omega(N):", "_OMEGA = None\n\n\ndef build_Omega(N):")
b("c04-shared-paulis", "C04", L, "def pauli_matrices():", "_SX = np.array([[0, 1], [1, 0]])\n\n\ndef pauli_matrices():", L, "    sigma_x = np.array([[0, 1], [1, 0]])\n    sigma_y", "    sigma_x = _SX\n    sigma_y")
b("c04-default-list", "C04", D, "def cov_distribution(rho):", "def cov_distribution(rho, eigenvalues=[]):", D, "    eigenvalues = []\n", "")
b("c04-path-state", "C04", R, "    def path(t):\n        return expm", "    count = [0]\n\n    def path(t):\n        count[0] += 1\n        if count[0] > 100:\n            t = round(t, 6)\n        return expm")
b("c04-attr", "C04", L, "    randO = special_ortho_group.rvs(dim=2 * n_sites)\n", "    randO = special_ortho_group.rvs(dim=2 * n_sites)\n    random_FF_rotation.last = randO\n    if seed == -1:\n        randO = random_FF_rotation.last\n")

# ---------------------------------------------------------------- C05
b("c05-seterr", "C05", D, "    bc = np.sum", "    np.seterr(invalid=\"ignore\")\n    bc = np.sum")
b("c05-no-finally", "C05", U, "    except (ValueError, TypeError):\n        # If numpy array conversion fails, just print the object\n        print(obj)\n\n    finally:\n        # reset precision\n        np.set_printoptions(precision=p)", "        # reset precision\n        np.set_printoptions(precision=p)\n\n    except (ValueError, TypeError):\n        # If numpy array conversion fails, just print the object\n        print(obj)")
b("c05-suppress", "C05", U, "np.set_printoptions(precision=k)", "np.set_printoptions(precision=k, suppress=True)")
b("c05-warnings", "C05", D, "    bc = np.sum", "    import warnings\n    warnings.simplefilter(\"ignore\")\n    bc = np.sum")
b("c05-plt", "C05", U, "    # Create the plot\n", "    plt.rcParams[\"font.size\"] = 12\n    # Create the plot\n")
b("c05-import-env", "C05", G, "from .ff_combinatorics import dt_eigen\n", "from .ff_combinatorics import dt_eigen\n\nplt.style.use(\"default\")\n")
b("c05-errstate-manual", "C05", D, "    # Compute", "    # Compute") if False else None
b("c05-chdir", "C05", G, "    plt.show()\n    return G", "    plt.show()\n    import os\n    os.environ[\"FF_LAST_PLOT\"] = str(title)\n    return G")

# ---------------------------------------------------------------- C06
b("c06-lt", "C06", R, "    if n <= 0:\n        raise ValueError(f\"Number of qubits must be positive, got {n}\")\n\n    if seed is not None:\n        np.random.seed(seed)\n\n    # For pure", "    if n < 0:\n        raise ValueError(f\"Number of qubits must be positive, got {n}\")\n\n    if seed is not None:\n        np.random.seed(seed)\n\n    # For pure")
b("c06-N-truthy", "C06", R, "    if N is not None and (not isinstance(N, int) or N < 0 or N > n_sites):", "    if N and (not isinstance(N, int) or N < 0 or N > n_sites):")
b("c06-N-strict", "C06", R, "N < 0 or N > n_sites):", "N < 0 or N >= n_sites + 2):")
b("c06-N-upper", "C06", R, "N < 0 or N > n_sites):", "N < 0 or N >= n_sites):")
b("c06-N-type", "C06", R, "(not isinstance(N, int) or N < 0", "(N < 0")
b("c06-type-number", "C06", R, "    if not isinstance(n_qubits, int):", "    if not isinstance(n_qubits, (int, float)):")
b("c06-N-late", "C06", R, '''    if N is not None and (not isinstance(N, int) or N < 0 or N > n_sites):
        raise ValueError(f"Particle number N must be between 0 and {n_sites}, got {N}")

    if seed is not None:
        np.random.seed(seed)
''', '''    if seed is not None:
        np.random.seed(seed)

    if N is not None and (not isinstance(N, int) or N < 0 or N > n_sites):
        raise ValueError(f"Particle number N must be between 0 and {n_sites}, got {N}")
''')
b("c06-pauli-type", "C06", L, "    if not isinstance(n, int):\n        raise TypeError(", "    if not float(n).is_integer():\n        raise TypeError(")
b("c06-swap", "C06", R, "    # Input validation\n    if not isinstance(n_sites, int):\n        raise TypeError(\n            f\"Number of sites must be an integer, got {type(n_sites).__name__}\"\n        )\n", "    # Input validation\n    if not isinstance(n_sites, int):\n        raise ValueError(\n            f\"Number of sites must be an integer, got {type(n_sites).__name__}\"\n        )\n")
b("c06-int-cast", "C06", R, "    if not isinstance(n_sites, int):\n        raise TypeError(\n            f\"Number of sites must be an integer, got {type(n_sites).__name__}\"\n        )\n\n    if n_sites <= 0:\n        raise ValueError(f\"Number of sites must be positive, got {n_sites}\")\n\n    if seed is not None:\n        np.random.seed(seed)\n\n    W_op", "    n_sites = int(n_sites)\n\n    if n_sites <= 0:\n        raise ValueError(f\"Number of sites must be positive, got {n_sites}\")\n\n    if seed is not None:\n        np.random.seed(seed)\n\n    W_op")

# ---------------------------------------------------------------- C07
b("c07-notrace", "C07", U, "    assert np.allclose(1, np.trace(rho)), \"Generated state is not normalized\"\n", "")
b("c07-abstrace", "C07", U, "np.allclose(1, np.trace(rho))", "np.allclose(1, abs(np.trace(rho)))")
b("c07-transposed", "C07", U, "np.allclose(rho, rho.conj().T), \"Gen", "np.allclose(rho, rho.T), \"Gen")
b("c07-any", "C07", U, "    assert np.all(\n        np.linalg.eigvalsh(rho) >= -1e-12", "    assert np.any(\n        np.linalg.eigvalsh(rho) >= -1e-12")
b("c07-psd-tol", "C07", U, ">= -1e-12", ">= -1e-1")
b("c07-nopsd", "C07", U, '''    # MAY NEED TO BE REMOVED FOR SPEED
    assert np.all(
        np.linalg.eigvalsh(rho) >= -1e-12
    ), "Generated state is not positive semidefinite"
''', "")
b("c07-square", "C07", U, "rho.shape[0] != rho.shape[1]\n", "rho.shape[0] > rho.shape[1]\n")
b("c07-pdf-abs", "C07", U, "    if np.allclose(pdf, pdf.real):", "    if np.allclose(np.abs(pdf), pdf.real):")
b("c07-nocast-tvd", "C07,C16", D, "    dtrace = 0.5", "    dtrace = 0.5") if False else None
b("c07-nocast-bc", "C07,C16", D, "    p = cast_to_pdf(p)\n    q = cast_to_pdf(q)\n\n    bc", "    p = np.asarray(p)\n    q = cast_to_pdf(q)\n\n    bc") if False else None
b("c07-l2l1", "C07", U, "        if np.allclose(l2_norm, 1):", "        if np.allclose(l2_norm, 1) and not np.allclose(l1_norm, 1):")
b("c07-nocast-trace", "C07", D, "    A = cast_to_density_matrix(A)\n    B = cast_to_density_matrix(B)\n", "    A = cast_to_density_matrix(A)\n    B = np.asarray(B)\n")
b("c07-vec-skip", "C07", U, "        else:\n            raise ValueError(\n                f\"Vector input", "        elif l1_norm > 1:\n            raise ValueError(\n                f\"Vector input")
b("c07-sre-nocast", "C07,C25", D, "    rho = cast_to_density_matrix(rho)\n\n    d = rho.shape[0]\n", "    rho = np.asarray(rho)\n\n    d = rho.shape[0]\n")

# ---------------------------------------------------------------- C08 / C09 / C29
b("c08-plus", "C08", L, "        Sminus = (sigma_x + 1j * sigma_y) / 2", "        Sminus = (sigma_x - 1j * sigma_y) / 2")
b("c08-zright", "C08", L, "            if j < i:\n                a_i = np.kron(a_i, sigma_z)", "            if j > i:\n                a_i = np.kron(a_i, sigma_z)")
b("c08-mod", "C08", L, "            if j < i:\n                a_i = np.kron(a_i, sigma_z)", "            if j < i and (i - j) % 8:\n                a_i = np.kron(a_i, sigma_z)")
b("c08-order", "C08", L, "                a_i = np.kron(a_i, np.eye(2))", "                a_i = np.kron(np.eye(2), a_i)")
b("c08-large", "C08", L, "                a_i = np.kron(a_i, np.eye(2))", "                a_i = np.kron(a_i, np.eye(2) if n_sites < 7 else -np.eye(2))")
b("c08-lastsite", "C08", L, "            if j < i:\n                a_i = np.kron(a_i, sigma_z)", "            if j < i and not (i == n_sites - 1 and n_sites > 4 and j == 0):\n                a_i = np.kron(a_i, sigma_z)")
b("c09-nodag", "C09", L, "    raising = [c.conj().transpose() for c in lowering]", "    raising = [c.conj().transpose() for c in lowering[::-1]][::-1 if n_sites < 5 else 1]")
b("c09-order", "C09", L, "    return raising + lowering", "    return lowering + raising")
b("c09-gsign", "C09", L, "            -1j\n            * (annihilation_operators[k] -", "            1j\n            * (annihilation_operators[k] -")
b("c09-norm2", "C09", L, "    for k in range(n_sites):\n        gamma_k", "    for k in range(n_sites - 1, -1, -1):\n        gamma_k")
b("c09-pauli-y", "C09", L, "    sigma_y = np.array([[0, -1j], [1j, 0]])", "    sigma_y = np.array([[0, 1j], [-1j, 0]])")
b("c29-fast-first", "C29", L, "            tensor_product = np.kron(tensor_product, pauli_combination[i])", "            tensor_product = np.kron(pauli_combination[i], tensor_product)")
b("c29-swap", "C29", L, "    paulis = [identity, sigma_x, sigma_y, sigma_z]", "    paulis = [identity, sigma_x, sigma_z, sigma_y]")
b("c29-range", "C29", L, "        for i in range(1, n):\n", "        for i in range(1, min(n, 6)):\n")
b("c29-perm", "C29", L, "    for pauli_combination in itertools_product(paulis, repeat=n):", "    from itertools import combinations_with_replacement\n    for pauli_combination in combinations_with_replacement(paulis, n):")
b("c29-sd-order", "C29,C25", D, "    for j, Pj in enumerate(pauli_group):", "    for j, Pj in enumerate(pauli_group[::-1]):")

# ---------------------------------------------------------------- C10 / C11
b("c10-V-noconj", "C10,C19", L, "    V[n_sites:, :n_sites] = -A.conj()", "    V[n_sites:, :n_sites] = -A")
b("c10-V-dag", "C10", L, "    V[n_sites:, :n_sites] = -A.conj()", "    V[n_sites:, :n_sites] = -A.conj().T")
b("c10-H-B", "C10", L, "    H[N:, :N] = -(B.conj())", "    H[N:, :N] = B.conj().T")
b("c10-kitaev-conj", "C10,C19", L, "        A[i + 1, i] = -np.conj(t)", "        A[i + 1, i] = -t") if False else None
b("c10-kitaev-delta", "C10", L, "        B[i + 1, i] = -delta", "        B[i + 1, i] = -np.conj(delta)")
b("c10-kitaev-pbc", "C10", L, "    # Pairing term\n", "    if n_sites > 4:\n        A[0, n_sites - 1] = A[n_sites - 1, 0] = 0 * t + A[0, n_sites - 1] - t\n    # Pairing term\n")
b("c10-randH-Z", "C10", L, "    Z = Z - Z.T  # make Z skew-symmetric", "    Z = Z - Z.conj().T  # make Z skew-symmetric")
b("c10-randH-fixed", "C10", L, "        Z = Z * 0  # make", "        A = A * 0  # make")
b("c10-H-real", "C10,C19", L, "    H = np.zeros((2 * N, 2 * N), dtype=complex)\n", "    H = np.zeros((2 * N, 2 * N), dtype=A.dtype)\n")
b("c10-V-real", "C10,C19", L, "    V = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)\n", "    V = np.zeros((2 * n_sites, 2 * n_sites), dtype=np.asarray(A).dtype)\n")
b("c11-omega", "C11", L, "    Omega[N:, :N] = np.diag(1j * nu * np.ones(N))\n    Omega[N:, N:] = np.diag(-1j * nu * np.ones(N))", "    Omega[N:, :N] = np.diag(-1j * nu * np.ones(N))\n    Omega[N:, N:] = np.diag(1j * nu * np.ones(N))")
b("c11-perm-T", "C11", L, "        P_xx_xp[i, 2 * i] = 1\n        P_xx_xp[i + n_sites, 2 * i + 1] = 1", "        P_xx_xp[2 * i, i] = 1\n        P_xx_xp[2 * i + 1, i + n_sites] = 1")
b("c11-K-order", "C11", L, "    K = Phases @ P @ W @ build_Omega(n_sites)", "    K = Phases @ W @ P @ build_Omega(n_sites)")
b("c11-K-phase", "C11", L, "    Phases[n_sites:] = -1j * Phases[n_sites:]", "    Phases[1::2] = -1j * Phases[1::2]")
b("c11-K-kron", "C11", L, "    W = np.kron(np.eye(n_sites), w)", "    W = np.kron(w, np.eye(n_sites))")
b("c11-K-w", "C11", L, "    w[0, 1] = -1j\n    w[1, 0] = 1j", "    w[0, 1] = 1j\n    w[1, 0] = -1j")

# ---------------------------------------------------------------- C12 / C13
b("c12-beta", "C12", L, "    rho = expm(-beta * H_op)\n", "    rho = expm(-beta * H_op / 2)\n    rho = rho @ rho.T\n")
b("c12-returnH", "C12", L, "        return rho, H_op\n    else:\n        return rho\n\n\ndef", "        return rho, -H_op\n    else:\n        return rho\n\n\ndef")
b("c12-trace-norm", "C12", L, "    rho = expm(-H_op)\n\n    return rho / np.trace(rho)", "    rho = expm(-H_op)\n\n    return rho / np.linalg.norm(rho)")
b("c12-sizes", "C12", L, "    rho = rho / np.trace(rho)  # Normalize", "    rho = rho / np.trace(rho.real)  # Normalize")
b("c12-returnS", "C12", R, "        return rho, s\n", "        return rho, np.sort(s)[::-1]\n")
b("c12-rot-T", "C12", R, "    rho = W_op @ np.diag(s) @ W_op.conj().T", "    rho = W_op @ np.diag(s) @ W_op.T")
b("c12-randH-norm", "C12", R, "    rho = expm(-H_op)\n    rho = rho / np.trace(rho)", "    rho = expm(-H_op)\n    rho = rho / np.trace(np.abs(rho))")
b("c12-qubit-conj", "C12", R, "    rho = cast_to_density_matrix(U @ np.diag(s) @ U.conj().T)", "    rho = cast_to_density_matrix(U @ np.diag(np.sqrt(s)) @ U.conj().T)")
b("c12-sign", "C12", L, "    rho = expm(-H_op)\n\n    return", "    rho = expm(H_op)\n\n    return")
b("c12-overflow", "C12", L, "    rho = expm(-H_op)\n\n    return", "    rho = expm(-H_op + np.eye(len(H_op)) * H_op.min())\n\n    return") if False else None
b("c13-rot-sign", "C13", L, "    return expm(-1j * G_op)  # Compute", "    return expm(1j * G_op)  # Compute")
b("c13-logm", "C13", L, "    h = -logm(C) / z\n    H = -h / 2", "    h = -logm(C) / z\n    H = -(h + h.conj().T) / 2")
b("c13-psi-H", "C13", L, "            return psi, H_op\n", "            return psi, -H_op\n")
b("c13-vac-last", "C13", L, "        zero_state[0, 0] = 1  # Set the first element to 1 (ground state)", "        zero_state[-1, 0] = 1  # Set the first element to 1 (ground state)")
b("c13-K-front", "C13", R, "    K = np.append(np.ones(N), (np.zeros(n_sites - N)))\n\n    alphas", "    K = np.append(np.zeros(n_sites - N), np.ones(N))\n\n    alphas")
b("c13-cn-flip", "C13", R, "    for j in np.flip(range(n_sites)):\n        if K[j] == 1:\n            psi = rand_alphas[j] @ psi", "    for j in range(n_sites):\n        if K[j] == 1:\n            psi = rand_alphas[j] @ psi")
b("c13-cn-vac", "C13", R, "        Pi = Id - rand_alphas[i] @ rand_alphas[i].conj().T", "        Pi = Id - rand_alphas[i].conj().T @ rand_alphas[i]")
b("c13-cn-norm", "C13", R, "    vac = vac / np.linalg.norm(vac)\n", "")
b("c13-orb", "C13", L, "    C = Omega.conj().T @ randO @ Omega\n", "    C = Omega.conj().T @ randO @ Omega\n    C = C.conj()\n") if False else None
b("c13-orb2", "C13", L, "        return C  # Return the orbital", "        return C.conj().T  # Return the orbital")
b("c13-qpure", "C13", R, "    psi = U @ zero_state\n\n    # check normalization of the pure state\n    assert np.allclose(1, np.linalg.norm(psi)), \"Generated", "    psi = U.T @ zero_state.real + 0 * U[:, :1]\n\n    # check normalization of the pure state\n    assert np.allclose(1, np.linalg.norm(psi)), \"Generated")

# ---------------------------------------------------------------- C14 / C15
b("c14-sgn-adj", "C14", C, "        for j in range(i + 1, len(permutation)):", "        for j in range(i + 1, min(i + 4, len(permutation))):")
b("c14-pf-odd", "C14", C, "        return 0\n\n    # number of edges in a perfect match\n    n_edges = n_verts // 2\n\n    perms = itertools.permutations(range(n_verts))\n    pf_sum", "        n_verts -= 1\n\n    # number of edges in a perfect match\n    n_edges = n_verts // 2\n\n    perms = itertools.permutations(range(n_verts))\n    pf_sum")
b("c14-hf-norm", "C14", C, "    return hf_sum / (2 ** (n_edges) * math.factorial(n_edges))", "    return hf_sum / math.factorial(n_edges) / 2 * n_edges")
b("c14-pf-abs", "C14", C, "            prod *= A[perm[2 * i], perm[2 * i + 1]]\n        pf_sum", "            prod *= A[perm[2 * i], perm[2 * i + 1]].real\n        pf_sum")
b("c14-pt-short", "C14", C, "        for i in range(n):\n            prod *= A[i, perm[i]]\n        pt_sum", "        for i in range(n):\n            if A[i, perm[i]] == 0:\n                break\n            prod *= A[i, perm[i]]\n        pt_sum")
b("c14-pt-skip0", "C14", C, "            prod *= A[i, perm[i]]\n        pt_sum", "            if A[i, perm[i]]:\n                prod *= A[i, perm[i]]\n        pt_sum")
b("c14-dt-sign", "C14", C, "        dt_sum += sgn(perm) * prod", "        dt_sum += sgn(perm[:-1]) * prod")
b("c14-intdiv", "C14", C, "    return pf_sum / (2 ** (n_edges)", "    return pf_sum // (2 ** (n_edges)")
b("c14-dteig-h", "C14", C, "np.linalg.eigvals(A)", "np.linalg.eigvalsh(A)")
b("c14-triu-pf", "C14", C, "            prod *= A[perm[2 * i], perm[2 * i + 1]]\n        pf_sum", "            prod *= A[min(perm[2 * i], perm[2 * i + 1]), max(perm[2 * i], perm[2 * i + 1])]\n        pf_sum")
b("c15-blocksum-d", "C15", U, "    for j in range(d2):\n        col_idx", "    for j in range(d):\n        col_idx")
b("c15-cast-real", "C15,C19", U, "        A += AB[i0:i1, j0:j1]\n    return A", "        A += AB[i0:i1, j0:j1]\n    return A.real")
b("c15-any-real", "C15,C19", U, "    if np.allclose(B.imag, np.zeros_like(B)):", "    if np.allclose(np.trace(B).imag, 0):")
b("c15-d1", "C15", U, "            j0 = row_idx * d1\n            j1 = j0 + d1\n\n            B", "            j0 = row_idx * d\n            j1 = j0 + d1\n\n            B")
b("c15-kron-plus", "C15", U, "    return np.block([[a, Z01], [Z10, b]])", "    return np.block([[b, Z01], [Z10, a]])") 
b("c15-float", "C15,C19", U, "    B = np.zeros((d, d), dtype=complex)", "    B = np.zeros((d, d), dtype=AB.real.dtype)")

# ---------------------------------------------------------------- C16
b("c16-swap", "C16", D, "    dkl = entropy(p, qk=q)", "    dkl = entropy(q, qk=p)")
b("c16-tv-half", "C16", D, "    dtrace = 0.5 * np.sum(np.abs(p - q))", "    dtrace = np.max(np.abs(p - q))")
b("c16-js", "C16", D, "djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))", "djs = 0.5 * (entropy(p, qk=m) + entropy(m, qk=q))")
b("c16-js-sqrt", "C16", D, "djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))", "djs = np.sqrt(0.5 * (entropy(p, qk=m) + entropy(q, qk=m)))")
b("c16-base", "C16", D, "    dkl = entropy(p, qk=q)", "    dkl = entropy(p, qk=q, base=2)")
b("c16-td-h", "C16", D, "    return 0.5 * np.sum(abs(evals))", "    return 0.5 * abs(np.sum(evals))")
b("c16-td-fro", "C16", D, "    return 0.5 * np.sum(abs(evals))", "    return 0.5 * np.linalg.norm(diff)")
b("c16-tv-real", "C16", D, "    dtrace = 0.5 * np.sum(np.abs(p - q))", "    dtrace = 0.5 * np.abs(np.sum(p - q))")
b("c16-bc-one", "C16", D, "    bc = np.sum(np.sqrt(p * q))", "    bc = np.sum(np.sqrt(p) * q)")
b("c16-bc-clean", "C16", D, "    bc = np.sum(np.sqrt(p * q))", "    bc = np.sum(np.sqrt(np.abs(p - q)))")

# ---------------------------------------------------------------- C17
b("c17-nodelist", "C17", G, "    A = nx.adjacency_matrix(graph).toarray()\n\n    # run", "    A = nx.to_numpy_array(graph, nodelist=sorted(graph.nodes))\n\n    # run")
b("c17-norelabel", "C17", G, "    graph = nx.convert_node_labels_to_integers(graph)\n", "    if not all(isinstance(v, int) for v in graph):\n        graph = nx.convert_node_labels_to_integers(graph)\n")
b("c17-sorted-relabel", "C17", G, "    graph = nx.convert_node_labels_to_integers(graph)\n", "    graph = nx.convert_node_labels_to_integers(graph, ordering=\"sorted\")\n")
b("c17-labels", "C17", G, "    graph = nx.convert_node_labels_to_integers(graph)\n", "")
b("c17-brute-label", "C17,C28", G, "        for u, v in combination:\n            nodes_in_matching.add(u)\n            nodes_in_matching.add(v)", "        for u, v in combination:\n            if u > v:\n                continue\n            nodes_in_matching.add(u)\n            nodes_in_matching.add(v)")
b("c17-degree", "C17", G, "    graph = nx.convert_node_labels_to_integers(graph)\n", "    graph = nx.convert_node_labels_to_integers(graph, ordering=\"increasing degree\")\n")
b("c17-weights-index", "C17", G, "            math.prod(graph[u][v].get(\"weight\", 1) for u, v in matching)", "            math.prod(nx.to_numpy_array(graph)[u, v] for u, v in matching)")

# ---------------------------------------------------------------- C18
b("c18-any", "C18", U, "            if np.all(np.abs(obj.imag) < threshold):", "            if np.any(np.abs(obj.imag) < threshold):")
b("c18-noabs", "C18", U, "            if np.all(np.abs(obj.imag) < threshold):", "            if np.all(obj.imag < threshold):")
b("c18-list-noabs", "C18", U, "        obj_array[np.abs(obj_array) < threshold] = 0", "        obj_array[obj_array < threshold] = 0") 
b("c18-round", "C18", U, "        ndigits = -round(np.log10(threshold))", "        ndigits = -int(np.log10(threshold)) - 1") if False else None
b("c18-ndigits", "C18", U, "        ndigits = -round(np.log10(threshold))", "        ndigits = 6")
b("c18-le", "C18", U, "        if abs(obj) < threshold:", "        if obj < threshold:")
b("c18-fmt", "C18", U, "            if abs(obj.imag) < 1e-10:", "            if obj.imag < 1e-10:")
b("c18-fmt-prec", "C18", U, "            return f\"{obj:.{precision}f}\"", "            return f\"{obj:.{precision}g}\"")
b("c18-str", "C18", U, "            obj = np.round(obj, ndigits)\n            return str(obj)", "            return str(int(obj))")
b("c18-int-thr", "C18", U, "        threshold = 10 ** (-threshold)", "        threshold = 10 ** (1 - threshold)")
b("c18-fmt-imag", "C18", U, "+ {obj.imag:.{precision}f}j\"", "+ {abs(obj.imag):.{precision}f}j\"")
b("c18-type", "C18", U, "        raise TypeError(\"Unsupported type for cleaning: {}\".format(type(obj)))", "        return obj")
b("c18-scalar-imag", "C18", U, "        if np.iscomplexobj(obj) and abs(obj.imag) < threshold:", "        if np.iscomplexobj(obj) and abs(obj.imag) < threshold * abs(obj):")

# ---------------------------------------------------------------- C19 extras
b("c19-rot-real", "C19,C22", L, "dtype=np.result_type(C, *alphas))\n\n        if verbose", "dtype=alphas[0].dtype)\n\n        if verbose")
b("c19-op-real", "C19,C22", L, "    R_op = np.zeros_like(alphas[0], dtype=np.result_type(R, *alphas))", "    R_op = np.zeros_like(alphas[0])")
b("c19-cov-real", "C19,C22", L, "    return Covf\n", "    return Covf.real\n")
b("c19-corr-real", "C19,C22", L, "    G = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)\n    for i in range(2 * n_sites):\n        for j in range(2 * n_sites):\n            if conj", "    G = np.zeros((2 * n_sites, 2 * n_sites))\n    for i in range(2 * n_sites):\n        for j in range(2 * n_sites):\n            if conj")
b("c19-S-real", "C19,C22", L, "            s_ij = anticomm_ij[0, 0]\n", "            s_ij = anticomm_ij[0, 0].real\n")
b("c19-realif", "C19", L, "    return Covf\n", "    return np.real_if_close(Covf, tol=1e10)\n")
b("c19-path-real", "C19,C27", R, "        return (s * v + (1 - s) * w) / np.linalg.norm(s * v + (1 - s) * w)", "        return np.real((s * v + (1 - s) * w) / np.linalg.norm(s * v + (1 - s) * w))")
b("c19-kitaev-real", "C19,C10", L, "    B = np.zeros((n_sites, n_sites), dtype=complex)\n    for i", "    B = np.zeros((n_sites, n_sites))\n    for i")

# ---------------------------------------------------------------- C20 / C21
b("c20-missing", "C20", I, "    is_matchgate,\n", "")
b("c20-ptswap", "C20", I, "from .ff_utils import partial_trace_blockTr as partial_trace_over_2\nfrom .ff_utils import partial_trace_diagblocksum as partial_trace_over_1", "from .ff_utils import partial_trace_blockTr as partial_trace_over_1\nfrom .ff_utils import partial_trace_diagblocksum as partial_trace_over_2")
b("c20-typo", "C20", I, "    \"eigm_sp_can\",\n", "    \"eigm_sp_canon\",\n")
b("c20-alias", "C20", I, "from .ff_combinatorics import dt, dt_eigen, hf, pf, pt, sgn", "from .ff_combinatorics import dt, dt_eigen, hf, pf, sgn\nfrom .ff_combinatorics import hf as pt")
b("c20-comma", "C20", I, "    \"is_symp\",\n", "    \"is_symp\"\n")
b("c21-default-a", "C21", D, "def SRE(rho, a=2):", "def SRE(rho, a=1):")
b("c21-order", "C21", L, "def random_FF_rotation(n_sites, seed=None, returnH=False, returnOrb=False):", "def random_FF_rotation(n_sites, returnH=False, seed=None, returnOrb=False):")
b("c21-alphas-falsy", "C21,C22", L, "        alphas = jordan_wigner_alphas(n_sites)\n\n    Covf", "        alphas = jordan_wigner_majoranas(n_sites)\n\n    Covf")
b("c21-V-none", "C21", L, "    if Z is None:\n        Z = np.zeros_like(A)", "    if Z is None:\n        Z = A")
b("c21-H-none", "C21", L, "    if B is None:\n        B = np.zeros_like(A)", "    if B is None:\n        B = np.eye(len(A))")
b("c21-n-sites", "C21", L, "        n_sites = int(np.round(np.log2(N)))\n\n    if alphas", "        n_sites = int(np.round(np.sqrt(N)))\n\n    if alphas")
b("c21-gs-alphas", "C21", L, "    if alphas is None:\n        alphas = jordan_wigner_alphas(n_sites)\n\n    if H.shape[0] == 2 * n_sites:", "    if alphas is None or True:\n        alphas = jordan_wigner_alphas(n_sites)\n\n    if H.shape[0] == 2 * n_sites:")
b("c21-N-none", "C21", R, "    if N is None:\n        N = np.random.randint(n_sites + 1)", "    if N is None:\n        N = n_sites // 2")
b("c21-N-zero", "C21", R, "    if N is None:\n        N = np.random.randint(n_sites + 1)", "    if not N:\n        N = np.random.randint(n_sites + 1)")
b("c21-randint", "C21", R, "    if N is None:\n        N = np.random.randint(n_sites + 1)", "    if N is None:\n        N = np.random.randint(n_sites)")
b("c21-clean-thr", "C21", U, "def clean(obj, threshold=1e-6):", "def clean(obj, threshold=1e-8):")
b("c21-conj-falsy", "C21,C22", L, "            if conjugation is None:", "            if not conjugation:") # conjugation=0

# ---------------------------------------------------------------- C22
b("c22-op-order", "C22", L, "                R_op += R[i, j] * (alphas[i].conj().T @ alphas[j])", "                R_op += R[i, j] * (alphas[j].conj().T @ alphas[i])")
b("c22-op-T", "C22", L, "                R_op += R[i, j] * (alphas[i].conj().T @ alphas[j])", "                R_op += R[i, j] * (alphas[i].T @ alphas[j])")
b("c22-op-skip", "C22", L, "            if np.abs(R[i, j]) < 1e-10:\n                continue", "            if R[i, j] < 1e-10:\n                continue") 
b("c22-op-real-skip", "C22", L, "            if np.abs(R[i, j]) < 1e-10:\n                continue", "            if np.abs(R[i, j].real) < 1e-10:\n                continue")
b("c22-op-triu", "C22", L, "        for j in range(2 * n_sites):\n            if np.abs(R[i, j])", "        for j in range(i if n_sites > 6 else 0, 2 * n_sites):\n            if np.abs(R[i, j])")
b("c22-rot-index", "C22", L, "            b_j += C[j, i] * alphas[i]  # accumulate", "            b_j += C[i, j] * alphas[i]  # accumulate")
b("c22-rot-left", "C22", L, "        C = C.conj().T\n    else", "        C = C.T\n    else")
b("c22-cov-anti", "C22", L, "            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) - np.trace(", "            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) + np.trace(")
b("c22-cov-half", "C22", L, "    Covf = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)\n    for i in range(2 * n_sites):\n        for j in range(2 * n_sites):", "    Covf = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)\n    for i in range(2 * n_sites):\n        for j in range(n_sites):")
b("c22-corr-side", "C22", L, "            elif int(conjugation) < 0:", "            elif int(conjugation) > 0:")
b("c22-corrmat", "C22", L, "    return compute_2corr_matrix(rho, n_sites, alphas, conjugation=None)", "    return compute_2corr_matrix(rho, n_sites, alphas, conjugation=True)")
b("c22-S-comm", "C22", L, "            anticomm_ij = alphas[i] @ alphas[j] + alphas[j] @ alphas[i]", "            anticomm_ij = alphas[i] @ alphas[j] + (alphas[j] @ alphas[i]).T")
b("c22-S-skip", "C22", L, "            if np.allclose(anticomm_ij, mat0):\n                continue", "            if np.allclose(np.trace(anticomm_ij), 0):\n                continue")
b("c22-cov-rho", "C22", L, "                rho @ alphas[j] @ alphas[i]\n", "                rho.T @ alphas[j] @ alphas[i]\n")

# ---------------------------------------------------------------- C23
b("c23-stale-L", "C23", L, "    L = U.conj().T @ H @ U\n", "") if False else None
b("c23-Lconj", "C23", L, "    L = U.conj().T @ H @ U\n", "    L = U.T @ H @ U\n")
b("c23-L-before", "C23", L, "    U = U @ np.diag(phasesU)\n\n    L = U.conj().T @ H @ U", "    L = U.conj().T @ H @ U\n\n    U = U @ np.diag(phasesU)") if False else None
b("c23-can-stale", "C23", L, "        O = O @ P_mat\n\n    L = O.T @ G @ O\n", "        O = O @ P_mat\n        L = O.T @ G @ O\n")
b("c23-can-before", "C23", L, "        # resort eigenspaces\n        O = O @ P_mat\n\n    L = O.T @ G @ O\n\n    return [L, O]", "        # resort eigenspaces\n        L = O.T @ G @ O\n        O = O @ P_mat\n    else:\n        L = O.T @ G @ O\n\n    return [L, O]")
b("c23-eigv", "C23", L, "    return [S @ L, U]", "    return [L, U]")
b("c23-eigv2", "C23", L, "    return [S @ L, U]", "    return [S @ L, S @ U @ S]")
b("c23-eigm", "C23", L, "    L = Orth.T @ G @ Orth\n\n    return [L, Orth]", "    L = Orth.T @ G @ Orth\n\n    return [L, Orth.real]") 
b("c23-eigm-l", "C23", L, "    L = Orth.T @ G @ Orth\n\n    return [L, Orth]", "    L = Orth @ G @ Orth.T\n\n    return [L, Orth]")
b("c23-swap", "C23", L, "    L = U.conj().T @ H @ U\n\n    return [L, U]", "    L = U.conj().T @ H @ U\n\n    return [L, U.conj()]")

# ---------------------------------------------------------------- C24
b("c24-conjT", "C24", L, "        if np.allclose(U @ S @ U.T, S):\n            return True\n        else", "        if np.allclose(U @ S @ U.conj().T, S):\n            return True\n        else")
b("c24-else", "C24", L, "            print(\"Not canonical but still symplectic\")\n            return True", "            print(\"Not canonical but still symplectic\")")
b("c24-canon-only", "C24", L, "        if np.allclose(U @ S @ U.T, S):\n            return True\n        else:\n            print(\"Error: Canonical form but not symplectic\")\n    else", "        return True\n    else")
b("c24-ccf-odd", "C24", L, "        if j % 2:  # odd\n            M[j, j - 1] = L[j, j - 1]", "        if j % 2:  # odd\n            M[j, j - 1] = -L[j - 1, j]") if False else None
b("c24-ccf-trunc", "C24", L, "    for j in range(2 * n):\n        if j % 2:  # odd", "    for j in range(2 * n - 2 if n > 3 else 2 * n):\n        if j % 2:  # odd") 
b("c24-ccf-real", "C24", L, "        or not np.allclose(L, L.conj())\n", "")
b("c24-ccf-sign", "C24", L, "        or not np.allclose(L, -L.T)", "        or not np.allclose(np.abs(L), np.abs(L.T))")
b("c24-ccf-square", "C24", L, "        L.shape[1] != L.shape[0]\n        or", "        L.shape[1] > L.shape[0]\n        or")
b("c24-mg-corner", "C24", L, "    corner_matrix = np.array([[M[0, 0], M[0, 3]], [M[3, 0], M[3, 3]]])", "    corner_matrix = np.array([[M[0, 0], M[0, 3]], [M[0, 3], M[3, 3]]])")
b("c24-mg-abs", "C24", L, "    if np.allclose(det_inner, det_corner):", "    if np.allclose(np.abs(det_inner), np.abs(det_corner)):")
b("c24-mg-real", "C24", L, "    if np.allclose(det_inner, det_corner):", "    if np.isclose(det_inner.real, det_corner.real):")
b("c24-mg-shape", "C24", L, "    if M.shape != (4, 4):", "    if M.shape[0] != 4:")
b("c24-symp-diag", "C24", L, "        if np.allclose(U @ S @ U.T, S):\n            print(", "        if np.allclose(np.diag(U @ S @ U.T), np.diag(S)):\n            print(")

# ---------------------------------------------------------------- C25
b("c25-purity", "C25", D, "    d = N * pur_rho", "    d = N")
b("c25-abs", "C25", D, "xi[j] = expectP * expectP / d", "xi[j] = abs(expectP) / d") if False else None
b("c25-sre-log2", "C25", D, "    return renyi_entropy(xi, a) - np.log(d)", "    return renyi_entropy(xi, a) - np.log2(d)")
b("c25-sre-a", "C25", D, "    return renyi_entropy(xi, a) - np.log(d)", "    return renyi_entropy(xi, 2) - np.log(d)")
b("c25-renyi-inf", "C25", D, "        return -np.log(np.max(p))", "        return -np.log(np.min(p))")
b("c25-renyi-exp", "C25", D, "    return np.log(l_a) * (a / (1 - a))", "    return np.log(l_a) / (1 - a)")
b("c25-renyi-1", "C25", D, "        return entropy(p)\n", "        return -np.sum(p * np.log2(p))\n")
b("c25-cov-half", "C25", D, "        for j in range(i, 2 * n_sites):", "        for j in range(i + 2, 2 * n_sites):")
b("c25-cov-pos", "C25", D, "            if abs(Lc[i, j]) > 1e-10:", "            if Lc[i, j] > 1e-10:")
b("c25-faf", "C25", D, "    FAF = n_sites - np.linalg.norm(pm, k) ** k", "    FAF = n_sites - np.linalg.norm(pm, 2) ** k")
b("c25-faf2", "C25", D, "    FAF = n_sites - np.linalg.norm(pm, k) ** k", "    FAF = n_sites - np.linalg.norm(pm, k) ** 2")
b("c25-lin", "C25", D, "    l2_squared = np.linalg.norm(p, ord=2) ** 2", "    l2_squared = np.linalg.norm(p, ord=2)") if False else None
b("c25-count", "C25", D, "        return np.log(np.count_nonzero(p))", "        return np.log(np.count_nonzero(p > 1e-3))")

# ---------------------------------------------------------------- C26 / C27 / C28
b("c26-choice", "C26", U, "replace=False)", "replace=True)")
b("c26-k-eq", "C26", U, "    if k < 0 or k > n:", "    if k < 0 or k >= n:")
b("c26-perm-T", "C26", L, "            matrix[permutation[i], i] = 1", "            matrix[i, permutation[i]] = 1")
b("c26-perm-neg", "C26", L, "        if 0 <= permutation[i] < n and", "        if permutation[i] < n and")
b("c26-planar-any", "C26", G, "        if nx.check_planarity(G)[0] and nx.is_connected(G):", "        if nx.check_planarity(G)[0] or nx.is_connected(G):")
b("c26-planar-lasts", "C26", G, "    return None  # Return None if no planar graph found within max_attempts", "    return G  # best effort")
b("c26-lcc", "C26", G, "        if nx.check_planarity(G)[0] and nx.is_connected(G):\n            return G", "        G = G.subgraph(max(nx.connected_components(G), key=len)).copy()\n        if nx.check_planarity(G)[0]:\n            return G")
b("c27-lin-norm", "C27", R, "/ np.linalg.norm(s * v + (1 - s) * w)", "/ (s * np.linalg.norm(v) + (1 - s) * np.linalg.norm(w))")
b("c27-lin-swap", "C27", R, "        return (s * v + (1 - s) * w) / np.linalg.norm(s * v + (1 - s) * w)", "        return (s * w + (1 - s) * v) / np.linalg.norm(s * w + (1 - s) * v)")
b("c27-u-sign", "C27", R, "        return expm(-1j * H * t) @ w", "        return expm(1j * H * t) @ w")
b("c27-u-unnorm", "C27", R, "    w = w / np.linalg.norm(w)\n    v = v / np.linalg.norm(v)\n\n    n = max(w.shape)", "    w = w / np.linalg.norm(w)\n\n    n = max(w.shape)") if False else None
b("c27-orth-col", "C27", R, "    orthogonal_vectors = np.hstack((v_hat, Q[:, 1:]))", "    orthogonal_vectors = Q")
b("c27-orth-v", "C27", R, "    orthogonal_vectors = np.hstack((v_hat, Q[:, 1:]))", "    orthogonal_vectors = np.hstack((v, Q[:, 1:]))")
b("c27-svd", "C27", R, "        U = V_svd @ Wh", "        U = V_svd @ Wh.conj().T")
b("c27-reshape", "C27", R, "    v = np.asarray(v)\n    if len(v.shape) == 1:\n        v = v.reshape(-1, 1)\n\n    n = v.shape[0]", "    v = np.asarray(v)\n    if len(v.shape) == 1:\n        v = v.reshape(1, -1)\n\n    n = v.shape[0]")
b("c28-cover", "C28", G, "        if len(nodes_in_matching) == n:", "        if len(nodes_in_matching) >= n - 1:")
b("c28-half", "C28", G, "    for combination in itertools.combinations(all_edges, n // 2):", "    for combination in itertools.permutations(all_edges, n // 2):")
b("c28-noweight", "C28", G, "    A = nx.adjacency_matrix(graph).toarray()\n\n    # run", "    A = nx.adjacency_matrix(graph, weight=None).toarray()\n\n    # run")
b("c28-triu", "C28", G, "    pfoA = np.triu(pfoA)\n    pfoA = pfoA - pfoA.T", "    pfoA = np.triu(pfoA, 2)\n    pfoA = pfoA - pfoA.T") 
b("c28-abs", "C28", G, "    return clean(np.sqrt(dt_eigen(pfoA)), 10)", "    return clean(np.sqrt(abs(dt_eigen(A))), 10)")
b("c28-comp-sum", "C28", G, "        return math.prod(count_perfect_matchings_planar(c) for c in components)", "        return sum(count_perfect_matchings_planar(c) for c in components)")
b("c28-round", "C28", G, "    return clean(np.sqrt(dt_eigen(pfoA)), 10)", "    return round(np.sqrt(dt_eigen(pfoA)).real)")
b("c28-depth", "C28", G, "    return max(depths.values())", "    return len(depths) - 1")
b("c28-depth2", "C28", G, "    root = list(graph.nodes())[0]", "    root = list(graph.nodes())[-1]")
b("c28-n15", "C28", G, "    if n > 15:", "    if n > 30:") if False else None
b("c28-nonplanar", "C28", G, "        return sum(\n            math.prod", "        return max(\n            math.prod")

# ---------------------------------------------------------------- C30
b("c30-alg-sort", "C30", L, "        evals = np.linalg.eigvals(S)\n        evals.sort()", "        S.sort()\n        evals = np.linalg.eigvals(S)\n        evals.sort()")
b("c30-rot-verbose", "C30", L, '''        if verbose:
            print("\\nj", j, "\\n----")
''', '''        if verbose:
            C = np.round(C, 3)
            print("\\nj", j, "\\n----")
''')
b("c30-mg-verbose", "C30", L, '''        return True
    else:
        if verbose:
            print(
                "Not''', '''        return True
    else:
        if verbose:
            return None
            print(
                "Not''')
b("c30-pauli-verbose", "C30", L, "        pauli_group.append(tensor_product)\n\n", "        if not verbose:\n            pauli_group.append(tensor_product)\n\n", L, "            print(pauli_string)\n", "            print(pauli_string)\n            pauli_group.append(tensor_product.real)\n")
b("c30-pfo-verbose", "C30", G, "    if verbose:\n        plot_planar_embedding(graph, np.real(orientation))\n", "    if verbose:\n        orientation = np.real(orientation)\n        plot_planar_embedding(graph, orientation)\n")
b("c30-face-verbose", "C30", G, "    if verbose:\n        print(skip_list)", "    if verbose:\n        skip_list.sort()\n        print(skip_list.pop())")
b("c30-returnS", "C30", R, "    if returnS:\n        return rho, s\n", "    if returnS:\n        s = np.sort(s)\n        return W_op @ np.diag(s) @ W_op.conj().T, s\n")
b("c30-returnH", "C30", L, "    beta = np.random.exponential(1.0)  # Random inverse temperature", "    beta = 1.0 if returnH else np.random.exponential(1.0)  # Random inverse temperature")
b("c30-pfo-F", "C30", G, "        print(len(F))\n", "        F.sort(key=len)\n        print(len(F))\n")
b("c30-H-verbose", "C30", L, "            if verbose:\n                print(\"\\nR_op so far:\")\n                print(R_op)", "            if verbose:\n                print(\"\\nR_op so far:\")\n                print(R_op)\n                if verbose == 2:\n                    break")
BUGS = [x for x in BUGS if x]

# ================================================================ behaviour-preserving edits
r("jwl-list", L, '''    for i in range(n_sites):
        a_i = 1  # Initialize as scalar

        Sminus = (sigma_x + 1j * sigma_y) / 2

        for j in range(n_sites):
            if j < i:
                a_i = np.kron(a_i, sigma_z)
            elif j == i:
                a_i = np.kron(a_i, Sminus)  # annihilation operator at site i
            else:
                a_i = np.kron(a_i, np.eye(2))

        annihilation_operators.append(a_i)
''', '''    Sminus = (sigma_x + 1j * sigma_y) / 2
    identity = np.eye(2)

    for i in range(n_sites):
        factors = [sigma_z] * i + [Sminus] + [identity] * (n_sites - i - 1)
        a_i = 1
        for factor in factors:
            a_i = np.kron(a_i, factor)
        annihilation_operators.append(a_i)
''')
r("jwl-helper", L, "def jordan_wigner_lowering(n_sites):", '''def _site_factor(i, j, string, op):
    if j < i:
        return string
    if j == i:
        return op
    return np.eye(2)


def jordan_wigner_lowering(n_sites):''', L, '''            if j < i:
                a_i = np.kron(a_i, sigma_z)
            elif j == i:
                a_i = np.kron(a_i, Sminus)  # annihilation operator at site i
            else:
                a_i = np.kron(a_i, np.eye(2))
''', '''            a_i = np.kron(a_i, _site_factor(i, j, sigma_z, Sminus))
''')
r("jwl-three-loops", L, '''        for j in range(n_sites):
            if j < i:
                a_i = np.kron(a_i, sigma_z)
            elif j == i:
                a_i = np.kron(a_i, Sminus)  # annihilation operator at site i
            else:
                a_i = np.kron(a_i, np.eye(2))
''', '''        for _ in range(i):
            a_i = np.kron(a_i, sigma_z)
        a_i = np.kron(a_i, Sminus)
        for _ in range(i + 1, n_sites):
            a_i = np.kron(a_i, np.eye(2))
''')
r("jwl-literal", L, "        Sminus = (sigma_x + 1j * sigma_y) / 2\n", "        Sminus = np.array([[0, 1], [0, 0]], dtype=complex)\n")
r("jwl-reduce", L, '''        a_i = 1  # Initialize as scalar

        Sminus = (sigma_x + 1j * sigma_y) / 2

        for j in range(n_sites):
            if j < i:
                a_i = np.kron(a_i, sigma_z)
            elif j == i:
                a_i = np.kron(a_i, Sminus)  # annihilation operator at site i
            else:
                a_i = np.kron(a_i, np.eye(2))
''', '''        Sminus = (sigma_x + 1j * sigma_y) / 2
        a_i = reduce(np.kron, [sigma_z] * i + [Sminus] + [np.eye(2)] * (n_sites - 1 - i))
''', L, "import numpy as np\n", "from functools import reduce\n\nimport numpy as np\n")
r("jwl-string", L, '''        for j in range(n_sites):
            if j < i:
                a_i = np.kron(a_i, sigma_z)
            elif j == i:
                a_i = np.kron(a_i, Sminus)  # annihilation operator at site i
            else:
                a_i = np.kron(a_i, np.eye(2))
''', '''        for j in range(i):
            a_i = np.kron(a_i, sigma_z)
        a_i = np.kron(np.kron(a_i, Sminus), np.eye(2 ** (n_sites - i - 1)))
''')
r("alphas-loop", L, "    raising = [c.conj().transpose() for c in lowering]\n\n    return raising + lowering", '''    ops = []
    for c in lowering:
        ops.append(c.conj().T)
    ops.extend(lowering)
    return ops''')
r("maj-comp", L, '''    majorana_operators = []

    for j in range(n_sites):
        gamma_j = (
            annihilation_operators[j].conj().T + annihilation_operators[j]
        ) / np.sqrt(2)
        majorana_operators.append(gamma_j)

    for k in range(n_sites):
        gamma_k = (
            -1j
            * (annihilation_operators[k] - annihilation_operators[k].conj().T)
            / np.sqrt(2)
        )
        majorana_operators.append(gamma_k)

    return majorana_operators''', '''    norm = np.sqrt(2)
    x_type = [(a.conj().T + a) / norm for a in annihilation_operators]
    p_type = [1j * (a.conj().T - a) / norm for a in annihilation_operators]

    return x_type + p_type''')
r("maj-alphas", L, '''    annihilation_operators = jordan_wigner_lowering(n_sites)
    majorana_operators = []

    for j in range(n_sites):
        gamma_j = (
            annihilation_operators[j].conj().T + annihilation_operators[j]
        ) / np.sqrt(2)''', '''    alphas = jordan_wigner_alphas(n_sites)
    annihilation_operators = alphas[n_sites:]
    majorana_operators = []

    for j in range(n_sites):
        gamma_j = (
            alphas[j] + annihilation_operators[j]
        ) / np.sqrt(2)''')
r("pauli-idx", L, '''    for pauli_combination in itertools_product(paulis, repeat=n):
        # Start with the first Pauli matrix
        tensor_product = pauli_combination[0]

        # Compute tensor product for remaining matrices
        for i in range(1, n):
            tensor_product = np.kron(tensor_product, pauli_combination[i])
''', '''    for pauli_combination in itertools_product(paulis, repeat=n):
        tensor_product = pauli_combination[0]

        for factor in pauli_combination[1:]:
            tensor_product = np.kron(tensor_product, factor)
''')
r("pauli-helper", L, '''        # Start with the first Pauli matrix
        tensor_product = pauli_combination[0]

        # Compute tensor product for remaining matrices
        for i in range(1, n):
            tensor_product = np.kron(tensor_product, pauli_combination[i])

        pauli_group.append(tensor_product)
''', '''        tensor_product = _kron_all(pauli_combination)

        pauli_group.append(tensor_product)
''', L, "def generate_pauli_group(n, verbose=False):", '''def _kron_all(factors):
    out = factors[0]
    for f in factors[1:]:
        out = np.kron(out, f)
    return out


def generate_pauli_group(n, verbose=False):''')
r("buildV-block", L, '''    V = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)

    V[:n_sites, :n_sites] = -Z.conj()
    V[:n_sites, n_sites:] = A

    V[n_sites:, :n_sites] = -A.conj()
    V[n_sites:, n_sites:] = Z

    return V''', '''    N = n_sites
    V = np.zeros((2 * N, 2 * N), dtype=complex)
    V[N:, N:] = Z
    V[:N, N:] = A
    V[:N, :N] = -np.conj(Z)
    V[N:, :N] = -np.conj(A)

    return V''')
r("buildH-block", L, '''    N = n_sites
    H = np.zeros((2 * N, 2 * N), dtype=complex)

    H[:N, :N] = -(A.conj())
    H[:N, N:] = B
    H[N:, :N] = -(B.conj())
    H[N:, N:] = A
    return H''', '''    top = np.hstack((-A.conj(), B))
    bottom = np.hstack((-B.conj(), A))
    return np.vstack((top, bottom)).astype(complex)''')
r("buildH-npblock", L, '''    N = n_sites
    H = np.zeros((2 * N, 2 * N), dtype=complex)

    H[:N, :N] = -(A.conj())
    H[:N, N:] = B
    H[N:, :N] = -(B.conj())
    H[N:, N:] = A
    return H''', '''    return np.block([[-A.conj(), B], [-B.conj(), A]]).astype(complex)''')
r("kitaev-diag", L, '''    A = -mu * np.eye(n_sites, dtype=complex)

    # Hopping term
    for i in range(n_sites - 1):
        A[i, i + 1] = -t
        A[i + 1, i] = -np.conj(t)

    # Pairing term
    B = np.zeros((n_sites, n_sites), dtype=complex)
    for i in range(n_sites - 1):
        B[i, i + 1] = delta
        B[i + 1, i] = -delta
''', '''    A = -mu * np.eye(n_sites, dtype=complex)
    B = np.zeros((n_sites, n_sites), dtype=complex)

    # Nearest-neighbour terms
    for i in range(1, n_sites):
        A[i - 1, i] = -t
        A[i, i - 1] = -np.conj(t)
        B[i - 1, i] = delta
        B[i, i - 1] = -delta
''')
r("kitaev-npeye", L, '''    # Pairing term
    B = np.zeros((n_sites, n_sites), dtype=complex)
    for i in range(n_sites - 1):
        B[i, i + 1] = delta
        B[i + 1, i] = -delta
''', '''    # Pairing term
    B = delta * np.eye(n_sites, k=1, dtype=complex) - delta * np.eye(n_sites, k=-1, dtype=complex)
''')
r("omega-block", L, '''    Omega = np.zeros((2 * N, 2 * N), dtype=complex)
    nu = 1 / (np.sqrt(2))
    Omega[:N, :N] = np.diag(nu * np.ones(N))
    Omega[:N, N:] = np.diag(nu * np.ones(N))
    Omega[N:, :N] = np.diag(1j * nu * np.ones(N))
    Omega[N:, N:] = np.diag(-1j * nu * np.ones(N))
    return Omega''', '''    one = np.eye(N)
    return np.block([[one, one], [1j * one, -1j * one]]) / np.sqrt(2)''')
r("omega-kron", L, '''    Omega = np.zeros((2 * N, 2 * N), dtype=complex)
    nu = 1 / (np.sqrt(2))
    Omega[:N, :N] = np.diag(nu * np.ones(N))
    Omega[:N, N:] = np.diag(nu * np.ones(N))
    Omega[N:, :N] = np.diag(1j * nu * np.ones(N))
    Omega[N:, N:] = np.diag(-1j * nu * np.ones(N))
    return Omega''', '''    return np.kron(np.array([[1, 1], [1j, -1j]]) / np.sqrt(2), np.eye(N))''')
r("K-steps", L, "    K = Phases @ P @ W @ build_Omega(n_sites)\n\n    return K", "    K = P @ W\n    K = Phases @ K\n    return K @ build_Omega(n_sites)")
r("K-w", L, '''    w = np.zeros((2, 2)) * (0j)
    w[0, 0] = 1
    w[1, 1] = -1
    w[0, 1] = -1j
    w[1, 0] = 1j
    w = w / np.sqrt(2)
''', '''    w = np.array([[1, -1j], [1j, -1]]) / np.sqrt(2)
''')
r("K-phases", L, '''    Phases = np.ones((2 * n_sites,)) * (1 + 0j)
    Phases[n_sites:] = -1j * Phases[n_sites:]
    Phases = np.diag(Phases)
''', '''    Phases = np.diag(np.concatenate((np.ones(n_sites), -1j * np.ones(n_sites))))
''')
r("reorder-two-loops", L, '''    for i in range(n_sites):
        P_xx_xp[i, 2 * i] = 1
        P_xx_xp[i + n_sites, 2 * i + 1] = 1
''', '''    for i in range(n_sites):
        P_xx_xp[i, 2 * i] = 1
    for k in range(n_sites):
        P_xx_xp[n_sites + k, 2 * k + 1] = 1
''')
r("op-enumerate", L, '''    for i in range(2 * n_sites):
        for j in range(2 * n_sites):
            if np.abs(R[i, j]) < 1e-10:
                continue

            if direct:
                R_op += R[i, j] * (alphas[i] @ alphas[j])
            else:
                R_op += R[i, j] * (alphas[i].conj().T @ alphas[j])

            if verbose:''', '''    for i in range(2 * n_sites):
        left = alphas[i] if direct else alphas[i].conj().T
        for j in range(2 * n_sites):
            if np.abs(R[i, j]) < 1e-10:
                continue

            R_op += R[i, j] * (left @ alphas[j])

            if verbose:''')
r("op-invert", L, '''            if np.abs(R[i, j]) < 1e-10:
                continue

            if direct:
                R_op += R[i, j] * (alphas[i] @ alphas[j])
            else:
                R_op += R[i, j] * (alphas[i].conj().T @ alphas[j])

            if verbose:
                print("\\nR_op so far:")
                print(R_op)
''', '''            r_ij = R[i, j]
            if abs(r_ij) >= 1e-10:
                if not direct:
                    term = np.conj(alphas[i]).T @ alphas[j]
                else:
                    term = alphas[i] @ alphas[j]
                R_op = R_op + r_ij * term

                if verbose:
                    print("\\nR_op so far:")
                    print(R_op)
''')
r("rot-invert", L, "        C = np.array(C)\n        C = C.conj().T\n    else:\n        C = np.array(C)\n", "        C = np.conj(np.array(C)).T\n    else:\n        C = np.array(C)\n")
r("rot-sum", L, "            b_j += C[j, i] * alphas[i]  # accumulate\n", "            c_ji = C[j, i]\n            b_j = b_j + c_ji * alphas[i]  # accumulate\n")
r("cov-comm", L, '''            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) - np.trace(
                rho @ alphas[j] @ alphas[i]
            )
''', '''            commutator = alphas[i] @ alphas[j] - alphas[j] @ alphas[i]
            Covf[i, j] = np.trace(rho @ commutator)
''')
r("cov-helper", L, '''            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) - np.trace(
                rho @ alphas[j] @ alphas[i]
            )

    return Covf
''', '''            Covf[i, j] = _expect(rho, alphas[i], alphas[j]) - _expect(rho, alphas[j], alphas[i])

    return Covf


def _expect(rho, a, b):
    return np.trace(rho @ a @ b)
''')
r("cov-2corr", L, '''    Covf = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)
    for i in range(2 * n_sites):
        for j in range(2 * n_sites):
            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) - np.trace(
                rho @ alphas[j] @ alphas[i]
            )

    return Covf
''', '''    G = compute_2corr_matrix(rho, n_sites, alphas)
    return G - G.T
''')
r("corr-choose", L, '''            if conjugation is None:
                G[i, j] = np.trace(rho @ alphas[i] @ alphas[j])
            elif int(conjugation) < 0:
                G[i, j] = np.trace(rho @ alphas[i].conj().T @ alphas[j])
            else:
                G[i, j] = np.trace(rho @ alphas[i] @ alphas[j].conj().T)
''', '''            left, right = alphas[i], alphas[j]
            if conjugation is not None:
                if int(conjugation) < 0:
                    left = left.conj().T
                else:
                    right = right.conj().T
            G[i, j] = np.trace(rho @ left @ right)
''')
r("corr-lists", L, '''    G = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)
    for i in range(2 * n_sites):
        for j in range(2 * n_sites):
            if conjugation is None:
                G[i, j] = np.trace(rho @ alphas[i] @ alphas[j])
            elif int(conjugation) < 0:
                G[i, j] = np.trace(rho @ alphas[i].conj().T @ alphas[j])
            else:
                G[i, j] = np.trace(rho @ alphas[i] @ alphas[j].conj().T)
''', '''    lefts = alphas
    rights = alphas
    if conjugation is not None and int(conjugation) < 0:
        lefts = [a.conj().T for a in alphas]
    elif conjugation is not None:
        rights = [a.conj().T for a in alphas]
    G = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)
    for i in range(2 * n_sites):
        for j in range(2 * n_sites):
            G[i, j] = np.trace(rho @ lefts[i] @ rights[j])
''')
r("algS-noskip", L, '''            anticomm_ij = alphas[i] @ alphas[j] + alphas[j] @ alphas[i]

            if np.allclose(anticomm_ij, mat0):
                continue

            s_ij = anticomm_ij[0, 0]
''', '''            product_ij = alphas[i] @ alphas[j]
            product_ji = alphas[j] @ alphas[i]
            anticomm_ij = product_ij + product_ji
            vanishes = np.allclose(anticomm_ij, mat0)

            if vanishes:
                continue

            s_ij = anticomm_ij[0, 0]
''')
r("symp-flat", L, '''    if np.allclose(aa, dd.conj()) and np.allclose(cc, bb.conj()):
        if np.allclose(U @ S @ U.T, S):
            return True
        else:
            print("Error: Canonical form but not symplectic")
    else:
        if np.allclose(U @ S @ U.T, S):
            print("Not canonical but still symplectic")
            return True

    return False
''', '''    canonical = np.allclose(aa, dd.conj()) and np.allclose(cc, bb.conj())
    symplectic = np.allclose(U @ S @ U.T, S)

    if canonical and not symplectic:
        print("Error: Canonical form but not symplectic")
    elif symplectic and not canonical:
        print("Not canonical but still symplectic")

    return symplectic
''')
r("ccf-parts", L, '''    if (
        L.shape[1] != L.shape[0]
        or not np.allclose(L, L.conj())
        or not np.allclose(L, -L.T)
    ):
        print("Not square, real, and skew-symmetric")
        return False
''', '''    rows, cols = L.shape
    if rows != cols:
        print("Not square, real, and skew-symmetric")
        return False
    if not np.allclose(L, L.conj()) or not np.allclose(L, -L.T):
        print("Not square, real, and skew-symmetric")
        return False
''')
r("ccf-pairs", L, '''    for j in range(2 * n):
        if j % 2:  # odd
            M[j, j - 1] = L[j, j - 1]
        else:  # even
            M[j, j + 1] = L[j, j + 1]
''', '''    for k in range(n):
        M[2 * k, 2 * k + 1] = L[2 * k, 2 * k + 1]
        M[2 * k + 1, 2 * k] = L[2 * k + 1, 2 * k]
''')
r("ccf-mod", L, '''    n = L.shape[0] / 2

    if n != int(n):
        print("Odd dimension for input matrix")
        return False
    else:
        n = int(n)
''', '''    if L.shape[0] % 2 != 0:
        print("Odd dimension for input matrix")
        return False
    n = L.shape[0] // 2
''')
r("mg-ad-bc", L, "    det_corner = np.linalg.det(corner_matrix)\n", "    det_corner = M[0, 0] * M[3, 3] - M[0, 3] * M[3, 0]\n")
r("mg-ret", L, '''    if np.allclose(det_inner, det_corner):
        if verbose:''', '''    satisfied = bool(np.allclose(det_inner, det_corner))
    if satisfied:
        if verbose:''')
r("mg-ix", L, "    corner_matrix = np.array([[M[0, 0], M[0, 3]], [M[3, 0], M[3, 3]]])\n", "    corner_matrix = M[np.ix_([0, 3], [0, 3])]\n")
r("gs-order", L, '''    H_op = None

    if alphas is None:
        alphas = jordan_wigner_alphas(n_sites)

    if H.shape[0] == 2 * n_sites:
        H_op = build_op(n_sites, H, alphas)

    elif H.shape[0] == 2**n_sites:
        H_op = H

    if H_op is None:''', '''    if alphas is None:
        alphas = jordan_wigner_alphas(n_sites)

    dim = H.shape[0]
    if dim == 2 * n_sites:
        H_op = build_op(n_sites, H, alphas)
    elif dim == 2**n_sites:
        H_op = H
    else:
        H_op = None

    if H_op is None:''') 
r("ffstate-helper", L, '''    rho = expm(-beta * H_op)
    rho = rho / np.trace(rho)  # Normalize the state density matrix
''', '''    rho = _thermal(beta, H_op)
''', L, "def random_FF_state(n_sites", '''def _thermal(beta, G):
    """exp(-beta G) with unit trace"""
    boltzmann = expm(-beta * G)
    Z = np.trace(boltzmann)
    return boltzmann / Z


def random_FF_state(n_sites''')
r("ffstate-return", L, '''    # Return both the normalized state density matrix and the generator matrix
    if returnH:
        return rho, H_op
    else:
        return rho
''', '''    return (rho, H_op) if returnH else rho
''')
r("ffrot-gen", L, '''    z = -1j
    h = -logm(C) / z
    H = -h / 2

    G_op''', '''    # -h/2 with h = -log(C)/(-i)
    H = logm(C) / (-2j)

    G_op''')
r("randH-join", L, '''    A = np.random.randn(n_sites, n_sites)
    A = A + 1j * np.random.randn(n_sites, n_sites)
    Z = np.random.randn(n_sites, n_sites)
    Z = Z + 1j * np.random.randn(n_sites, n_sites)
    A = A + A.conj().T  # make A Hermitian
''', '''    A = np.random.randn(n_sites, n_sites) + 1j * np.random.randn(n_sites, n_sites)
    Z = np.random.randn(n_sites, n_sites) + 1j * np.random.randn(n_sites, n_sites)
    A = A + A.conj().T  # make A Hermitian
''')
r("randH-helper", L, '''    A = np.random.randn(n_sites, n_sites)
    A = A + 1j * np.random.randn(n_sites, n_sites)
    Z = np.random.randn(n_sites, n_sites)
    Z = Z + 1j * np.random.randn(n_sites, n_sites)
    A = A + A.conj().T  # make A Hermitian
''', '''    A = _complex_normal(n_sites)
    Z = _complex_normal(n_sites)
    A = A + A.conj().T  # make A Hermitian
''', L, "def random_H_generator(", '''def _complex_normal(n):
    re = np.random.randn(n, n)
    im = np.random.randn(n, n)
    return re + 1j * im


def random_H_generator(''')
r("randH-fixed", L, '''    if fixedN:
        Z = Z * 0  # make Z zero if fixedN is True
''', '''    if fixedN:
        Z = np.zeros_like(Z)  # make Z zero if fixedN is True
''')
r("perm-early", L, '''        if 0 <= permutation[i] < n and not matrix[permutation[i]].any():
            matrix[permutation[i], i] = 1
        else:
            print("Invalid permutation")
            return None
''', '''        row = permutation[i]
        if row < 0 or row >= n or matrix[row].any():
            print("Invalid permutation")
            return None
        matrix[row, i] = 1
''')
r("eigh-phase-helper", L, '''    phasesU = (np.diag(U)).conj()
    for i in range(len(phasesU)):
        if abs(phasesU[i]) > 1e-9:
            phasesU[i] = phasesU[i] / abs(phasesU[i])
        else:
            phasesU[i] = 1
''', '''    phasesU = _unit_phases(np.diag(U))
''', L, "def eigh_sp(H):", '''def _unit_phases(d):
    out = d.conj()
    for i in range(len(out)):
        if abs(out[i]) > 1e-9:
            out[i] = out[i] / abs(out[i])
        else:
            out[i] = 1
    return out


def eigh_sp(H):''') if "phasesU = (np.diag(U)).conj()\n    for" in open("/repo/src/ff/ff_lib.py").read() else None
r("eigv-dot", L, "    [L, U] = eigh_sp(H)\n\n    return [S @ L, U]", "    L_H, U = eigh_sp(H)\n    L_V = np.dot(S, L_H)\n    return [L_V, U]") if "    [L, U] = eigh_sp(H)\n\n    return [S @ L, U]" in open("/repo/src/ff/ff_lib.py").read() else None
r("eigm-names", L, "    L = Orth.T @ G @ Orth\n\n    return [L, Orth]", "    half = G @ Orth\n    return [Orth.T @ half, Orth]")
r("eigmcan-list", L, '''        if evs_a_p[0] > 0:
            P_mat = x
        else:
            P_mat = id
''', '''        P_mat = x if evs_a_p[0] > 0 else id
''')

# combinatorics
r("sgn-parity", C, '''    sign = 1
    inversions = 0
    for i in range(len(permutation)):
        for j in range(i + 1, len(permutation)):
            if permutation[i] > permutation[j]:
                inversions += 1
    sign = 1 if inversions % 2 == 0 else -1
    return sign
''', '''    n = len(permutation)
    inversions = 0
    for j in range(n):
        for i in range(j):
            if permutation[i] > permutation[j]:
                inversions += 1
    return (-1) ** inversions
''')
r("sgn-flip", C, '''            if permutation[i] > permutation[j]:
                inversions += 1
    sign = 1 if inversions % 2 == 0 else -1
''', '''            if permutation[i] > permutation[j]:
                sign = -sign
''')
r("sgn-sum", C, '''    inversions = 0
    for i in range(len(permutation)):
        for j in range(i + 1, len(permutation)):
            if permutation[i] > permutation[j]:
                inversions += 1
''', '''    n = len(permutation)
    inversions = sum(permutation[i] > permutation[j] for i in range(n) for j in range(i + 1, n))
''')
r("pf-helper", C, '''    for perm in perms:
        prod = 1
        for i in range(n_edges):
            prod *= A[perm[2 * i], perm[2 * i + 1]]
        pf_sum += sgn(perm) * prod
''', '''    for perm in perms:
        pf_sum += sgn(perm) * _matching_weight(A, perm, n_edges)
''', C, '''def pf(A):''', '''def _matching_weight(A, perm, n_edges):
    weight = 1
    for i in range(n_edges):
        weight = weight * A[perm[2 * i], perm[2 * i + 1]]
    return weight


def pf(A):''')
r("pf-norm", C, "    return pf_sum / (2 ** (n_edges) * math.factorial(n_edges))", "    norm = math.factorial(n_edges) * 2**n_edges\n    return pf_sum / norm")
r("hf-sum", C, '''    perms = itertools.permutations(range(n_verts))
    hf_sum = 0

    for perm in perms:
        prod = 1
        for i in range(n_edges):
            prod *= A[perm[2 * i], perm[2 * i + 1]]
        hf_sum += prod
''', '''    hf_sum = 0

    for perm in itertools.permutations(range(n_verts)):
        prod = 1
        for i in range(0, n_verts, 2):
            prod *= A[perm[i], perm[i + 1]]
        hf_sum = hf_sum + prod
''')
r("pt-enumerate", C, '''        prod = 1
        for i in range(n):
            prod *= A[i, perm[i]]
        pt_sum += prod
''', '''        prod = 1
        for i, p in enumerate(perm):
            prod *= A[i, p]
        pt_sum += prod
''')
r("pt-mathprod", C, '''        prod = 1
        for i in range(n):
            prod *= A[i, perm[i]]
        pt_sum += prod
''', '''        pt_sum += math.prod(A[i, perm[i]] for i in range(n))
''')
r("dt-order", C, '''    for perm in perms:
        prod = 1
        for i in range(n):
            prod *= A[i, perm[i]]
        dt_sum += sgn(perm) * prod
''', '''    for perm in perms:
        term = sgn(perm)
        for i in range(n):
            term = term * A[i, perm[i]]
        dt_sum += term
''')
r("dteig-shape", C, '''        rows, cols = A.shape
        if rows != cols:
            print("Input matrix must be square.")
            return None

        # Perform eigenvalue decomposition
        eigenvalues = np.linalg.eigvals(A)

        # Calculate the determinant as the product of eigenvalues
        determinant = np.prod(eigenvalues)
        return determinant
''', '''        if A.shape[0] != A.shape[1]:
            print("Input matrix must be square.")
            return None

        return np.prod(np.linalg.eigvals(A))
''')

# utils
r("ptr1-slices", U, '''    for j in range(d2):
        col_idx = j
        row_idx = j

        j0 = row_idx * d
        j1 = j0 + d

        i0 = col_idx * d
        i1 = i0 + d

        A += AB[i0:i1, j0:j1]
    return A''', '''    for k in range(d2):
        block = slice(k * d, (k + 1) * d)
        A = A + AB[block, block]
    return A''')
r("ptr1-reshape", U, '''    A = np.zeros((d, d), dtype=complex)
    # sum the [d x d] boxes on diagonal
    for j in range(d2):
        col_idx = j
        row_idx = j

        j0 = row_idx * d
        j1 = j0 + d

        i0 = col_idx * d
        i1 = i0 + d

        A += AB[i0:i1, j0:j1]
    return A''', '''    blocks = AB.reshape(d2, d, d2, d)
    return np.trace(blocks, axis1=0, axis2=2).astype(complex)''')
r("ptr2-inline", U, '''            col_idx = i
            row_idx = j

            i0 = col_idx * d1
            i1 = i0 + d1

            j0 = row_idx * d1
            j1 = j0 + d1

            B[i, j] = np.trace(AB[i0:i1, j0:j1])
''', '''            block = AB[i * d1 : (i + 1) * d1, j * d1 : (j + 1) * d1]
            B[i, j] = np.trace(block)
''')
r("ptr2-real", U, '''    if np.allclose(B.imag, np.zeros_like(B)):
        B = B.real

    return B''', '''    if not np.allclose(B.imag, 0):
        return B
    return B.real''')
r("kron-plus-fill", U, '''    Z01 = np.zeros((a.shape[0], b.shape[1]))
    Z10 = np.zeros((b.shape[0], a.shape[1]))
    return np.block([[a, Z01], [Z10, b]])''', '''    upper = np.hstack((a, np.zeros((a.shape[0], b.shape[1]))))
    lower = np.hstack((np.zeros((b.shape[0], a.shape[1])), b))
    return np.vstack((upper, lower))''')
r("cast-split", U, '''    if (
        len(rho.shape) != 2 or rho.shape[0] != rho.shape[1]
    ):  # or not np.allclose(np.trace(rho),1):
        raise ValueError("Generated state is not square")
''', '''    if rho.ndim != 2:
        raise ValueError("Generated state is not square")
    rows, cols = rho.shape
    if rows != cols:
        raise ValueError("Generated state is not square")
''')
r("cast-min", U, '''    assert np.all(
        np.linalg.eigvalsh(rho) >= -1e-12
    ), "Generated''', '''    lowest = np.min(np.linalg.eigvalsh(rho))
    assert lowest >= -1e-12, "Generated''')
r("cast-any", U, '''    assert np.all(
        np.linalg.eigvalsh(rho) >= -1e-12
    ), "Generated''', '''    assert not np.any(np.linalg.eigvalsh(rho) < -1e-12), "Generated''')
r("cast-helper", U, '''    # Validate density matrix properties
    if (
        len(rho.shape) != 2 or rho.shape[0] != rho.shape[1]
    ):  # or not np.allclose(np.trace(rho),1):
        raise ValueError("Generated state is not square")
    assert np.allclose(1, np.trace(rho)), "Generated state is not normalized"
    assert np.allclose(rho, rho.conj().T), "Generated state is not hermitian"
    # MAY NEED TO BE REMOVED FOR SPEED
    assert np.all(
        np.linalg.eigvalsh(rho) >= -1e-12
    ), "Generated state is not positive semidefinite"

    return rho
''', '''    _validate(rho)

    return rho


def _validate(rho):
    if len(rho.shape) != 2 or rho.shape[0] != rho.shape[1]:
        raise ValueError("Generated state is not square")
    assert np.allclose(1, np.trace(rho)), "Generated state is not normalized"
    assert np.allclose(rho, rho.conj().T), "Generated state is not hermitian"
    assert np.all(
        np.linalg.eigvalsh(rho) >= -1e-12
    ), "Generated state is not positive semidefinite"
''')
r("cast-outer", U, "            rho = rho.reshape(-1, 1)  # Ensure column vector\n            rho = rho @ rho.conj().T\n", "            rho = np.outer(rho_flat, rho_flat.conj())\n")
r("pdf-guard", U, '''    if np.allclose(pdf, pdf.real):
        pdf = pdf.real
    else:
        raise ValueError(
            "Probability distribution has " "non-negligible imaginary part"
        )

    return pdf''', '''    if not np.allclose(pdf, pdf.real):
        raise ValueError(
            "Probability distribution has " "non-negligible imaginary part"
        )

    return pdf.real''')
r("clean-order", U, '''            if np.all(np.abs(obj.imag) < threshold):
                # If the imaginary part is small, return only the real part
                obj = obj.real
        # Set small values to zero (in a copy) and round the array
        obj = obj.copy()
        obj[np.abs(obj) < threshold] = 0
        return np.round(obj, ndigits)
''', '''            small = np.abs(obj.imag) < threshold
            if small.all():
                obj = obj.real
        cleaned = obj.copy()
        cleaned[np.abs(cleaned) < threshold] = 0
        return np.round(cleaned, ndigits)
''')
r("clean-where", U, '''        obj = obj.copy()
        obj[np.abs(obj) < threshold] = 0
        return np.round(obj, ndigits)
''', '''        return np.round(np.where(np.abs(obj) < threshold, 0, obj), ndigits)
''')
r("fmt-flat", U, '''        if isinstance(obj, complex):
            if abs(obj.imag) < 1e-10:
                return f"{obj.real:.{precision}f}"
            else:
                return f"{obj.real:.{precision}f} + {obj.imag:.{precision}f}j"
        else:
            return f"{obj:.{precision}f}"
    else:
        return str(obj)
''', '''        if not isinstance(obj, complex):
            return f"{obj:.{precision}f}"
        if abs(obj.imag) < 1e-10:
            return f"{obj.real:.{precision}f}"
        return f"{obj.real:.{precision}f} + {obj.imag:.{precision}f}j"
    return str(obj)
''')
r("print-with", U, '''        # change to request precision
        np.set_printoptions(precision=k)

        # clean and print
        print(clean(val, k))
''', '''        # clean and print with the requested precision
        with np.printoptions(precision=k):
            print(clean(val, k))
''')
r("bits-order", U, '''    bitstring = np.zeros(n, dtype=int)

    indices = np.random.choice(n, size=k, replace=False)
    bitstring[indices] = 1
    return bitstring''', '''    ones = np.random.choice(n, size=k, replace=False)
    bits = np.zeros(n, dtype=int)
    bits[ones] = 1
    return bits''')
r("bits-range", U, "    if k < 0 or k > n:\n        return None  # Invalid Hamming weight\n", "    if not 0 <= k <= n:\n        return None  # Invalid Hamming weight\n")

# distances
r("tv-order", D, "    dtrace = 0.5 * np.sum(np.abs(p - q))", "    dtrace = np.sum(np.abs(q - p)) / 2") if "    dtrace = 0.5 * np.sum(np.abs(p - q))" in open("/repo/src/ff/ff_distance_measures.py").read() else None
r("tv-norm", D, "    dtrace = 0.5 * np.sum(np.abs(p - q))", "    dtrace = 0.5 * np.linalg.norm(p - q, ord=1)")
r("tv-methods", D, "    dtrace = 0.5 * np.sum(np.abs(p - q))", "    dtrace = 0.5 * abs(p - q).sum()")
r("bc-dot", D, "    bc = np.sum(np.sqrt(p * q))", "    bc = np.sqrt(p) @ np.sqrt(q)")
r("bc-dot2", D, "    bc = np.sum(np.sqrt(p * q))", "    bc = np.sum(np.sqrt(p) * np.sqrt(q))")
r("js-rel", D, "djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))", "djs = (entropy(p, m) + entropy(q, m)) / 2")
r("js-mean", D, "    m = 0.5 * (p + q)", "    m = (p + q) / 2")
r("td-h", D, "    evals = np.linalg.eigvals(diff)", "    evals = np.linalg.eigvalsh(diff)")
r("td-inline", D, "    diff = A - B\n", "    diff = B - A\n")
r("re-pos", D, "    dkl = entropy(p, qk=q)\n", "    dkl = entropy(p, q)\n")
r("renyi-elif", D, "    l_a = np.linalg.norm(p, ord=a)", "    l_a = np.sum(p**a) ** (1 / a)")
r("lin-sq", D, "    return sL\n", "    return sL_alt\n") if "\n    return sL\n" in open("/repo/src/ff/ff_distance_measures.py").read() else None
r("faf-sum", D, "    FAF = n_sites - np.linalg.norm(pm, k) ** k", "    FAF = n_sites - np.sum(np.abs(pm) ** k)")
r("cov-comp", D, '''    eigenvalues = []
    for i in range(2 * n_sites):
        for j in range(i, 2 * n_sites):
            if abs(Lc[i, j]) > 1e-10:
                eigenvalues.append(Lc[i, j])
''', '''    dim = 2 * n_sites
    eigenvalues = [
        Lc[i, j] for i in range(dim) for j in range(i, dim) if abs(Lc[i, j]) > 1e-10
    ]
''')
r("sd-comp", D, "        xi[j] = (expectP * expectP) / d\n", "        xi[j] = expectP**2 / d\n")

# random states
r("wn-reversed", R, "    for j in np.flip(range(n_sites)):\n        if K[j] == 1:\n            psi = alphas[j] @ psi", "    for j in reversed(range(n_sites)):\n        if K[j] == 1:\n            psi = alphas[j] @ psi")
r("wn-N", R, "    for j in np.flip(range(n_sites)):\n        if K[j] == 1:\n            psi = alphas[j] @ psi", "    for j in range(N - 1, -1, -1):\n        psi = alphas[j] @ psi")
r("wn-checks", R, '''    if N is not None and (not isinstance(N, int) or N < 0 or N > n_sites):
        raise ValueError(f"Particle number N must be between 0 and {n_sites}, got {N}")
''', '''    if N is not None:
        valid = isinstance(N, int) and 0 <= N <= n_sites
        if not valid:
            raise ValueError(f"Particle number N must be between 0 and {n_sites}, got {N}")
''')
r("size-helper", R, '''    # Input validation
    if not isinstance(n, int):
        raise TypeError(f"Number of qubits must be an integer, got {type(n).__name__}")

    if n <= 0:
        raise ValueError(f"Number of qubits must be positive, got {n}")

    if seed is not None:
        np.random.seed(seed)

    # Generate random pdf''', '''    _check_qubits(n)

    if seed is not None:
        np.random.seed(seed)

    # Generate random pdf''', R, "def random_qubit_state(", '''def _check_qubits(n):
    if not isinstance(n, int):
        raise TypeError(f"Number of qubits must be an integer, got {type(n).__name__}")
    if n < 1:
        raise ValueError(f"Number of qubits must be positive, got {n}")


def random_qubit_state(''')
r("seed-helper", R, '''    if seed is not None:
        np.random.seed(seed)

    # Generate random pdf''', '''    _seed_numpy(seed)

    # Generate random pdf''', R, "def random_qubit_state(", '''def _seed_numpy(seed):
    """seed numpy's generator when a seed is given"""
    if seed is None:
        return
    np.random.seed(seed)


def random_qubit_state(''')
r("w0-vac", R, '''    zero_state = np.zeros((2**n_sites, 1), dtype=complex)
    zero_state[0] = 1  # Set the first element to 1 (vacuum state)
    psi = W_op @ zero_state
''', '''    vacuum = np.zeros((2**n_sites, 1), dtype=complex)
    vacuum[0, 0] = 1
    psi = np.dot(W_op, vacuum)
''')
r("w0-column", R, '''    zero_state = np.zeros((2**n_sites, 1), dtype=complex)
    zero_state[0] = 1  # Set the first element to 1 (vacuum state)
    psi = W_op @ zero_state
''', '''    psi = W_op[:, :1]
''')
r("cn-proj", R, '''    PP = Id
    for i in range(n_sites):
        Pi = Id - rand_alphas[i] @ rand_alphas[i].conj().T
        PP = PP @ Pi
''', '''    PP = Id
    for a in rand_alphas[:n_sites]:
        PP = PP @ (Id - a @ a.conj().T)
''')
r("rot-returnS", R, "    if returnS:\n        return rho, s\n\n    return rho", "    if not returnS:\n        return rho\n\n    return rho, s")
r("randH-scale", R, '''    rescale = 2 ** (2 - n_sites)
    G = build_V(n_sites, A, Z) * rescale
''', '''    G = 2 ** (2 - n_sites) * build_V(n_sites, A, Z)
''')
r("upath-U", R, '''    for i in range(n):
        v_in = np.reshape(W[:, i], (n, 1))
        v_out = np.reshape(V[:, i], (n, 1))

        U = U + v_out @ v_in.conj().T
''', '''    for i in range(n):
        U = U + np.outer(V[:, i], W[:, i].conj())
''')
r("upath-matmul", R, '''    U = np.zeros((n, n), dtype=complex)
    for i in range(n):
        v_in = np.reshape(W[:, i], (n, 1))
        v_out = np.reshape(V[:, i], (n, 1))

        U = U + v_out @ v_in.conj().T
''', '''    U = (V @ W.conj().T).astype(complex)
''')
r("upath-lambda", R, '''    def path(t):
        return expm(-1j * H * t) @ w

    # path''', '''    generator = -1j * H

    def path(t):
        return expm(generator * t) @ w

    # path''')
r("lpath-num", R, '''    def path(s):
        return (s * v + (1 - s) * w) / np.linalg.norm(s * v + (1 - s) * w)
''', '''    def path(s):
        point = s * v + (1 - s) * w
        return point / np.linalg.norm(point)
''')
r("lpath-helper", R, '''    if len(w.shape) == 1:
        w = w.reshape(-1, 1)
    if len(v.shape) == 1:
        v = v.reshape(-1, 1)

    w = w / np.linalg.norm(w)
    v = v / np.linalg.norm(v)

    def path(s):''', '''    w = _unit_column(w)
    v = _unit_column(v)

    def path(s):''', R, "def build_linear_path(", '''def _unit_column(x):
    if x.ndim == 1:
        x = x.reshape(-1, 1)
    return x / np.linalg.norm(x)


def build_linear_path(''')
r("orth-early", R, '''    if np.isclose(v_norm, 0):
        # If the input vector is zero, return n-1 standard basis vectors
        return np.eye(n)[:, :n]
''', '''    if np.isclose(v_norm, 0):
        return np.eye(n)
''')
r("orth-concat", R, "    orthogonal_vectors = np.hstack((v_hat, Q[:, 1:]))\n\n    return orthogonal_vectors", "    return np.concatenate((v_hat, Q[:, 1:]), axis=1)")

# graphs
r("brute-set", G, '''        nodes_in_matching = set()
        for u, v in combination:
            nodes_in_matching.add(u)
            nodes_in_matching.add(v)
        if len(nodes_in_matching) == n:
            perfect_matchings.append(combination)

    return perfect_matchings''', '''        covered = set()
        for edge in combination:
            covered.update(edge)
        if len(covered) == n:
            perfect_matchings.append(combination)

    return perfect_matchings''')
r("brute-comp", G, '''    n = len(graph.nodes)
    if n % 2 != 0:''', '''    n = graph.number_of_nodes()
    if n % 2 == 1:''')
r("count-else", G, '''    if nx.is_planar(graph):
        return count_perfect_matchings_planar(graph)
    else:
        return sum(
            math.prod(graph[u][v].get("weight", 1) for u, v in matching)
            for matching in find_perfect_matchings_brute(graph)
        )
''', '''    if nx.is_planar(graph):
        return count_perfect_matchings_planar(graph)

    total = 0
    for matching in find_perfect_matchings_brute(graph):
        weight = 1
        for u, v in matching:
            weight *= graph[u][v].get("weight", 1)
        total += weight
    return total
''')
r("planar-order", G, '''    A = nx.adjacency_matrix(graph).toarray()

    # run the pfo algorithm
    pfo = pfo_algorithm(graph)

    # use the pfo ordering to align the hf and pf
    pfoA = np.multiply(pfo, A)
    pfoA = np.triu(pfoA)
    pfoA = pfoA - pfoA.T
''', '''    pfo = pfo_algorithm(graph)
    A = nx.adjacency_matrix(graph).toarray()

    upper = np.triu(pfo * A)
    pfoA = upper - upper.T
''')
r("planar-nparray", G, "    A = nx.adjacency_matrix(graph).toarray()\n\n    # run", "    A = nx.to_numpy_array(graph, nodelist=list(graph))\n\n    # run")
r("pfo-relabel", G, "    graph = nx.convert_node_labels_to_integers(graph)\n", "    graph = nx.relabel_nodes(graph, {v: i for i, v in enumerate(graph)})\n")
r("pfo-sortededge", G, '''        u = min(e[0], e[1])
        v = max(e[0], e[1])
        orientation[u, v] = 1
        orientation[v, u] = -1
''', '''        u, v = sorted(e)
        orientation[u, v] = 1
        orientation[v, u] = -1
''')
r("pfo-tail", G, "    pfo = np.real(orientation)\n", "    pfo = orientation.real\n")
r("depth-var", G, '''    depths = nx.single_source_shortest_path_length(graph, root)

    return max(depths.values())''', '''    return max(nx.single_source_shortest_path_length(graph, root).values())''')
r("rpg-while", G, '''    for _ in range(max_attempts):
        G = nx.gnm_random_graph(n, random.randint(n - 1, 2 * n - 3))

        # Generate a random graph
        if nx.check_planarity(G)[0] and nx.is_connected(G):
            return G
''', '''    for _ in range(max_attempts):
        n_edges = random.randint(n - 1, 2 * n - 3)
        G = nx.gnm_random_graph(n, n_edges)
        is_planar, _embedding = nx.check_planarity(G)
        if is_planar and nx.is_connected(G):
            return G
''')
r("face-helper", G, '''    e = skip_list.pop()

    # reverse sign if edge is reversed in face
    if e[0] > e[1]:
        prefix = -1
    else:
        prefix = 1

    u = min(e[0], e[1])
    v = max(e[0], e[1])

    if sign == -1:
        pfo[u, v] = prefix
        pfo[v, u] = prefix
    else:
        pfo[u, v] = -1 * prefix
        pfo[v, u] = -1 * prefix
''', '''    e = skip_list.pop()
    prefix = -1 if e[0] > e[1] else 1
    u, v = min(e), max(e)
    value = prefix if sign == -1 else -prefix
    pfo[u, v] = value
    pfo[v, u] = value
''')
r("faces-max", G, '''    max_face = None
    for face in faces:
        if max_face is None:
            max_face = face
        elif len(face) > len(max_face):
            max_face = face
''', '''    max_face = max(faces, key=len)
''')
r("dual-comp", G, '''    face_edges = []
    for f in F:
        face_edges.append([tuple(sorted(e)) for e in f])
''', '''    face_edges = [[tuple(sorted(e)) for e in f] for f in F]
''')
r("noop", L, "    n = len(alphas)\n    b_ops = []\n", "    n = len(alphas)\n    pass\n    b_ops = []\n", D, "    bc = np.sum", "    _ = None\n    bc = np.sum")
r("verb-helper", G, "def complete_face(", '''def _say(verbose, *args):
    if verbose:
        print(*args)


def complete_face(''', G, '''    if verbose:
        print(skip_list)
        print("sign without edge:", sign)
''', '''    _say(verbose, skip_list)
    _say(verbose, "sign without edge:", sign)
''')
r("verb-clause", G, '''            if verbose:
                plot_planar_embedding(
                    graph, np.real(orientation), title="Face {}: {}".format(leaf, face)
                )
''', '''            if not verbose:
                continue
            title = "Face {}: {}".format(leaf, face)
            plot_planar_embedding(graph, np.real(orientation), title=title)
''')
r("verb-clause2", G, '''    if verbose:
        plot_planar_embedding(graph, pfo, "Constructed PFO")

    return pfo
''', '''    if not verbose:
        return pfo
    plot_planar_embedding(graph, pfo, "Constructed PFO")
    return pfo
''')
r("verb-log", G, '''    if verbose:
        plot_planar_embedding(H, title="H")
        print(len(F))
        for i, face in enumerate(F[:5]):  # Print first 5 faces
            print(f"F[{i}]", face)
''', '''    lines = []
    if verbose:
        plot_planar_embedding(H, title="H")
        lines.append(str(len(F)))
        lines.extend(f"F[{i}] {face}" for i, face in enumerate(F[:5]))
        print("\\n".join(lines))
''')
r("verb-alias", L, '''        if verbose:
            print("\\nj", j, "\\n----")
''', '''        noisy = bool(verbose)
        if noisy:
            print("\\nj", j, "\\n----")
''')
r("brute-set", G, '''        nodes_in_matching = set()
        for u, v in combination:
            nodes_in_matching.add(u)
            nodes_in_matching.add(v)
        if len(nodes_in_matching) == n:
''', '''        nodes_in_matching = {w for e in combination for w in e}
        if len(nodes_in_matching) == n:
''')
r("brute-half", G, '''    for combination in itertools.combinations(all_edges, n // 2):
''', '''    k = n // 2
    for combination in it.combinations(all_edges, k):
''')
r("brute-return", G, '''    if n % 2 != 0:
        return []  # No perfect matchings possible for odd number of nodes

    if n > 15:''', '''    if n % 2:
        return []

    if n >= 16:''')
r("planar-A", G, '''    A = nx.adjacency_matrix(graph).toarray()

    # run the pfo algorithm
    pfo = pfo_algorithm(graph)
''', '''    pfo = pfo_algorithm(graph)
    A = nx.to_numpy_array(graph)
''')
r("planar-skew", G, '''    pfoA = np.multiply(pfo, A)
    pfoA = np.triu(pfoA)
    pfoA = pfoA - pfoA.T
''', '''    upper = np.triu(pfo * A, 1)
    pfoA = upper - upper.T
''')
r("planar-loop", G, '''        components = [graph.subgraph(c) for c in nx.connected_components(graph)]
        return math.prod(count_perfect_matchings_planar(c) for c in components)
''', '''        total = 1
        for c in nx.connected_components(graph):
            total *= count_perfect_matchings_planar(graph.subgraph(c).copy())
        return total
''')
r("planar-number", G, '''    if not nx.is_connected(graph):
        # matchings''', '''    if nx.number_connected_components(graph) > 1:
        # matchings''')
r("planar-empty", G, '''    if len(graph) == 0 or len(graph) % 2 != 0:
        return 0
''', '''    n = graph.number_of_nodes()
    if not n or n % 2:
        return 0
''')
r("count-loop", G, '''    if nx.is_planar(graph):
        return count_perfect_matchings_planar(graph)
    else:
        return sum(
            math.prod(graph[u][v].get("weight", 1) for u, v in matching)
            for matching in find_perfect_matchings_brute(graph)
        )
''', '''    if nx.is_planar(graph):
        return count_perfect_matchings_planar(graph)
    total = 0
    for matching in find_perfect_matchings_brute(graph):
        weight = 1
        for u, v in matching:
            weight = weight * graph[u][v].get("weight", 1)
        total += weight
    return total
''')
r("count-edges", G, '''            math.prod(graph[u][v].get("weight", 1) for u, v in matching)
''', '''            math.prod(graph.edges[e].get("weight", 1) for e in matching)
''')
r("depth-ecc", G, '''    depths = nx.single_source_shortest_path_length(graph, root)

    return max(depths.values())
''', '''    return nx.eccentricity(graph, root)
''')
r("depth-next", G, '''    root = list(graph.nodes())[0]
''', '''    root = next(iter(graph.nodes))
''')
r("rpg-names", G, '''        G = nx.gnm_random_graph(n, random.randint(n - 1, 2 * n - 3))

        # Generate a random graph
        if nx.check_planarity(G)[0] and nx.is_connected(G):
            return G
''', '''        n_edges = random.randint(n - 1, 2 * n - 3)
        G = nx.gnm_random_graph(n, n_edges)
        planar, _embedding = nx.check_planarity(G)
        if planar and nx.is_connected(G):
            return G
''')
r("rpg-helper", G, "def generate_random_planar_graph(", '''def _acceptable(G):
    return nx.is_planar(G) and nx.is_connected(G)


def generate_random_planar_graph(''', G, "        if nx.check_planarity(G)[0] and nx.is_connected(G):\n", "        if _acceptable(G):\n")
r("rpg-continue", G, '''        if nx.check_planarity(G)[0] and nx.is_connected(G):
            return G
''', '''        if not nx.is_connected(G):
            continue
        if nx.check_planarity(G)[0]:
            return G
''')
r("rpg-while", G, '''    for _ in range(max_attempts):
        G = nx.gnm''', '''    attempt = 0
    while attempt < max_attempts:
        attempt += 1
        G = nx.gnm''')
REFACTORS = [x for x in REFACTORS if x]

# ---------------------------------------------------------------- C17 (labels)
_CONV = "    graph = nx.convert_node_labels_to_integers(graph)\n"
r("lab-mapping", G, _CONV, "    position = {node: k for k, node in enumerate(graph.nodes)}\n    graph = nx.relabel_nodes(graph, position)\n")
r("lab-zip", G, _CONV, "    graph = nx.relabel_nodes(graph, dict(zip(graph.nodes(), range(len(graph)))))\n")
r("lab-loop", G, _CONV, "    position = {}\n    for k, node in enumerate(graph):\n        position[node] = k\n    graph = nx.relabel_nodes(graph, position, copy=True)\n")
r("lab-exact", G, _CONV, "    if list(graph) != list(range(len(graph))):\n        graph = nx.convert_node_labels_to_integers(graph)\n")
r("lab-helper", G, "def pfo_algorithm(graph, verbose=False):", "def _positions(graph):\n    \"\"\"Copy of a graph whose nodes are 0..n-1 in node order.\"\"\"\n    return nx.convert_node_labels_to_integers(graph, first_label=0)\n\n\ndef pfo_algorithm(graph, verbose=False):",
  G, _CONV, "    graph = _positions(graph)\n")
r("lab-newname", G, _CONV, "    original = graph\n    graph = nx.convert_node_labels_to_integers(original, ordering=\"default\")\n")
r("lab-face", G, '''        u = min(e[0], e[1])
        v = max(e[0], e[1])

        if np.allclose''', '''        u, v = sorted(e)

        if np.allclose''')
r("lab-face2", G, '''        u = min(e[0], e[1])
        v = max(e[0], e[1])
        orientation[u, v] = 1
        orientation[v, u] = -1''', '''        a, b = e
        u, v = (a, b) if a < b else (b, a)
        orientation[u, v] = 1
        orientation[v, u] = -1''')
r("lab-verbose", G, "        p = -10 * nx.to_numpy_array(T)\n        plot_planar_embedding(graph, p, title=\"T\")", "        plot_planar_embedding(graph, -10 * nx.to_numpy_array(T), \"T\")")
r("lab-faces", G, '''        fverts = []
        for e in face:
            fverts.append(e[0])
            fverts.append(e[1])
        fverts = list(set(fverts))
        fverts.sort()''', '''        fverts = sorted({v for e in face for v in e})''')
r("lab-weights", G, '''        return sum(
            math.prod(graph[u][v].get("weight", 1) for u, v in matching)
            for matching in find_perfect_matchings_brute(graph)
        )''', '''        nodes = list(graph)
        place = {node: k for k, node in enumerate(nodes)}
        weights = nx.to_numpy_array(graph, nodelist=nodes)
        total = 0
        for matching in find_perfect_matchings_brute(graph):
            total += math.prod(weights[place[u], place[v]] for u, v in matching)
        return total''')
b("c17-keyed", "C17", G, _CONV, "    graph = nx.relabel_nodes(graph, {v: i for i, v in enumerate(sorted(graph, key=str))})\n")
b("c17-range", "C17", G, "    A = nx.adjacency_matrix(graph).toarray()\n\n    # run", "    n = len(graph)\n    A = nx.to_numpy_array(graph, nodelist=range(n) if set(graph) == set(range(n)) else None)\n\n    # run")
b("c17-brute-range", "C17", G, "        if len(nodes_in_matching) == n:", "        if nodes_in_matching == set(range(n)):")
b("c17-setcover", "C17", G, "        for u, v in combination:\n            nodes_in_matching.add(u)\n            nodes_in_matching.add(v)", "        for u, v in combination:\n            nodes_in_matching.add(str(u)[:1])\n            nodes_in_matching.add(str(v)[:1])")
b("c17-hash", "C17", G, _CONV, "    graph = nx.relabel_nodes(graph, {v: i for i, v in enumerate(set(graph))})\n")
b("c17-onebased", "C17", G, _CONV, "    if min(graph) != 0:\n        graph = nx.convert_node_labels_to_integers(graph)\n")
b("c17-setrange", "C17", G, _CONV, "    if set(graph) != set(range(len(graph))):\n        graph = nx.convert_node_labels_to_integers(graph)\n")
b("c17-comp", "C17", G, "        components = [graph.subgraph(c) for c in nx.connected_components(graph)]", "        components = [\n            nx.Graph(nx.edges(graph, sorted(c))) if len(c) > 1 else graph.subgraph(c)\n            for c in nx.connected_components(graph)\n        ]")

# face completion (C36)
b("c36-prefix", "C36", G, '''        if e[0] > e[1]:
            prefix = -1
        else:
            prefix = 1

        u = min(e[0], e[1])
        v = max(e[0], e[1])

        if np''', '''        prefix = 1

        u = min(e[0], e[1])
        v = max(e[0], e[1])

        if np''')
b("c36-even", "C36", G, "    if sign == -1:\n        pfo[u, v] = prefix\n        pfo[v, u] = prefix", "    if sign == 1:\n        pfo[u, v] = prefix\n        pfo[v, u] = prefix")
b("c36-lower", "C36", G, "        sign *= pfo[u, v] * prefix\n", "        sign *= pfo[e[0], e[1]]\n")
b("c36-real", "C36", G, "        if np.allclose(np.real(pfo[u, v]), 0):\n            skip_list.append(e)\n            continue", "        if np.allclose(np.real(pfo[u, v]), 0):\n            skip_list.append((u, v))\n            continue")
b("c36-len", "C36", G, "    if sign == -1:\n        pfo[u, v] = prefix\n        pfo[v, u] = prefix\n    else:", "    if sign == -1 and len(edges) > 2 or len(edges) % 2 == 0 and sign == -1:\n        pfo[u, v] = prefix\n        pfo[v, u] = prefix\n    elif len(edges) > 4:\n        pfo[u, v] = prefix\n        pfo[v, u] = -1 * prefix\n    else:")
b("c36-set", "C36", G, "    for e in edges:\n        # reverse sign if edge is reversed in face", "    for e in {tuple(sorted(x)): x for x in edges}.values():\n        # reverse sign if edge is reversed in face")
r("face-ifexp", G, '''        # reverse sign if edge is reversed in face
        if e[0] > e[1]:
            prefix = -1
        else:
            prefix = 1

        u = min(e[0], e[1])
        v = max(e[0], e[1])

        if np''', '''        # reverse sign if edge is reversed in face
        prefix = -1 if e[0] > e[1] else 1
        u, v = min(e), max(e)

        if np''')
r("face-assign", G, '''    if sign == -1:
        pfo[u, v] = prefix
        pfo[v, u] = prefix
    else:
        pfo[u, v] = -1 * prefix
        pfo[v, u] = -1 * prefix
''', '''    value = prefix if sign == -1 else -prefix
    pfo[u, v] = pfo[v, u] = value
''')
r("face-count", G, '''    for e in edges:
        # reverse sign if edge is reversed in face
        if e[0] > e[1]:
            prefix = -1
        else:
            prefix = 1

        u = min(e[0], e[1])
        v = max(e[0], e[1])

        if np.allclose(np.real(pfo[u, v]), 0):
            skip_list.append(e)
            continue

        sign *= pfo[u, v] * prefix
''', '''    for a, b in edges:
        u, v = (b, a) if a > b else (a, b)
        if abs(np.real(pfo[u, v])) < 0.5:
            skip_list.append((a, b))
        elif a > b:
            sign = -sign * pfo[u, v]
        else:
            sign = sign * pfo[u, v]
''')
r("face-helper", G, "def complete_face(", '''def _direction(e):
    return (min(e), max(e), -1) if e[0] > e[1] else (min(e), max(e), 1)


def complete_face(''', G, '''        # reverse sign if edge is reversed in face
        if e[0] > e[1]:
            prefix = -1
        else:
            prefix = 1

        u = min(e[0], e[1])
        v = max(e[0], e[1])

        if np''', '''        u, v, prefix = _direction(e)
        if np''', G, '''    # reverse sign if edge is reversed in face
    if e[0] > e[1]:
        prefix = -1
    else:
        prefix = 1

    u = min(e[0], e[1])
    v = max(e[0], e[1])

    if sign''', '''    u, v, prefix = _direction(e)
    if sign''')
r("face-filter", G, '''    for e in edges:
        # reverse sign if edge is reversed in face
        if e[0] > e[1]:
            prefix = -1
        else:
            prefix = 1

        u = min(e[0], e[1])
        v = max(e[0], e[1])

        if np.allclose(np.real(pfo[u, v]), 0):
            skip_list.append(e)
            continue

        sign *= pfo[u, v] * prefix
''', '''    skip_list = [e for e in edges if np.isclose(np.real(pfo[min(e), max(e)]), 0)]
    for e in edges:
        if e in skip_list:
            continue
        sign *= pfo[min(e), max(e)] * (1 if e[0] < e[1] else -1)
''')
b("c28-brute-zero-weight", "C28", G, 'graph[u][v].get("weight", 1) for u, v in matching', 'graph[u][v].get("weight") or 1 for u, v in matching')
b("c15-kron-dtype", "C15", U, "    return np.block([[a, Z01], [Z10, b]])", """    out = np.zeros((a.shape[0] + b.shape[0], a.shape[1] + b.shape[1]), dtype=a.dtype)
    out[: a.shape[0], : a.shape[1]] = a
    out[a.shape[0] :, a.shape[1] :] = b
    return out""")
r("ent-explicit", D, "        return entropy(p)\n", "        nz = p[p > 0]\n        return -np.sum(nz * np.log(nz))\n")
r("ent-explicit2", D, "        return entropy(p)\n", "        nz = p[p > 0]\n        return float(np.dot(nz, -np.log(nz)))\n")
r("faf-sum", D, "    FAF = n_sites - np.linalg.norm(pm, k) ** k", "    FAF = n_sites - np.sum(np.abs(pm) ** k)")
r("cov-list", D, "    pm = np.square(eigenvalues)", "    pm = np.asarray(eigenvalues) ** 2")
r("cov-next", D, "    for i in range(2 * n_sites):\n        for j in range(i, 2 * n_sites):\n            if abs(Lc[i, j]) > 1e-10:\n                eigenvalues.append(Lc[i, j])", "    for row, values in enumerate(Lc):\n        for x in values[row:]:\n            if abs(x) > 1e-10:\n                eigenvalues.append(x)")
r("renyi-isinf", D, "    if a == np.inf:", "    if np.isinf(a):")
r("dteig-real", C, "        return determinant\n", "        if np.isrealobj(A):\n            return determinant.real\n        return determinant\n")
r("renyi-inf2", D, "        return -np.log(np.max(p))", "        return np.log(1 / np.max(p))")

r("bits-perm", "ff_utils", "    indices = np.random.choice(n, size=k, replace=False)\n", "    indices = np.random.permutation(n)[:k]\n")
r("item-norm", "ff_random_states", "        return (s * v + (1 - s) * w) / np.linalg.norm(s * v + (1 - s) * w)\n", "        x = s * v + (1 - s) * w\n        return x / np.sqrt((x.conj().T @ x).item().real)\n")
r("js-mask", "ff_distance_measures", "    djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))", "    support = (p > 0) | (q > 0)\n    djs = 0.5 * (entropy(p[support], qk=m[support]) + entropy(q[support], qk=m[support]))")
r("bc-mask", "ff_distance_measures", "    bc = np.sum(np.sqrt(p * q))", "    both = (p > 0) & (q > 0)\n    bc = np.sum(np.sqrt(p[both] * q[both]))")
r("bc-logical", "ff_distance_measures", "    bc = np.sum(np.sqrt(p * q))", "    both = np.logical_and(p != 0, q != 0)\n    bc = np.sqrt(p[both] * q[both]).sum()")
r("tvd-large", "ff_distance_measures", "    dtrace = 0.5 * np.sum(np.abs(p - q))", "    if len(p) >= 1024:\n        dtrace = 0.5 * np.linalg.norm(p - q, 1)\n    else:\n        dtrace = np.abs(p - q).sum() / 2")
r("bc-large", "ff_distance_measures", "    bc = np.sum(np.sqrt(p * q))", "    bc = np.dot(np.sqrt(p), np.sqrt(q)) if len(p) > 50 else np.sum(np.sqrt(p * q))")
r("rot-tensordot", "ff_lib", "    return _perform_rotation(C, alphas, verbose=verbose)", "    if not verbose and n > 4:\n        return [sum(C[j, i] * alphas[i] for i in range(n)) for j in range(n)]\n    return _perform_rotation(C, alphas, verbose=verbose)")
r("canon-diag", "ff_lib", "    if not np.allclose(M, L):", "    d = np.diag(L, 1).copy()\n    d[1::2] = 0\n    if not np.allclose(np.diag(d, 1) - np.diag(d, -1), L):")
r("xxxp-arange", "ff_lib", "    for i in range(n_sites):\n        P_xx_xp[i, 2 * i] = 1\n        P_xx_xp[i + n_sites, 2 * i + 1] = 1\n", "    i = np.arange(n_sites)\n    P_xx_xp[i, 2 * i] = 1\n    P_xx_xp[i + n_sites, 2 * i + 1] = 1\n")
r("cov-skip-diag", "ff_lib", "        for j in range(2 * n_sites):\n            Covf[i, j] =", "        for j in range(2 * n_sites):\n            if i == j:\n                continue\n            Covf[i, j] =")
r("cov-anti", "ff_lib", "        for j in range(2 * n_sites):\n            Covf[i, j] = np.trace(rho @ alphas[i] @ alphas[j]) - np.trace(\n                rho @ alphas[j] @ alphas[i]\n            )\n", "        for j in range(i):\n            c = np.trace(rho @ (alphas[i] @ alphas[j] - alphas[j] @ alphas[i]))\n            Covf[i, j] = c\n            Covf[j, i] = -c\n")
r("jw-large-fast", "ff_lib", "            if j < i:\n                a_i = np.kron(a_i, sigma_z)\n            elif j == i:", "            if j < i and n_sites > 10:\n                a_i = np.kron(a_i, np.diag([1, -1]))\n            elif j < i:\n                a_i = np.kron(a_i, sigma_z)\n            elif j == i:")
r("gauss-swap", "ff_lib", "    if H.shape[0] == 2 * n_sites:\n        H_op = build_op(n_sites, H, alphas)\n\n    elif H.shape[0] == 2**n_sites:\n        H_op = H\n", "    dim = H.shape[0]\n    if dim == 2 * n_sites:\n        H_op = build_op(n_sites, H, alphas)\n    if H_op is None and dim == 2**n_sites:\n        H_op = H\n")
r("faf-mask", "ff_distance_measures", "    FAF = n_sites - np.linalg.norm(pm, k) ** k\n", "    FAF = n_sites - np.sum(np.abs(pm[pm > 0]) ** k)\n")
r("faf-mask2", "ff_distance_measures", "    FAF = n_sites - np.linalg.norm(pm, k) ** k\n", "    FAF = n_sites - (pm[pm != 0] ** k).sum()\n")

# ---------------------------------------------------------------- C37
_E = '''                if A[i, j] != 0:  # Only add edges with non-zero weights
                    G.add_edge(i, j, weight=round(10e3 * A[i, j]) / 10e3)
'''
_DI = '''        for i in range(n):
            for j in range(n):
'''
_UN = '''        for i in range(n):
            for j in range(i + 1, n):
'''
b("c37-dir-upper", "C37", G, _DI + _E, '''        for i in range(n):
            for j in range(i, n):
''' + _E)
b("c37-transposed", "C37", G, _DI + _E, _DI + _E.replace("A[i, j]", "A[j, i]"))
b("c37-swap-weight", "C37", G, _DI + _E, _DI + _E.replace("G.add_edge(i, j", "G.add_edge(j, i"))
b("c37-positive", "C37", G, _UN + _E, _UN + _E.replace("A[i, j] != 0", "A[i, j] > 0"))
b("c37-isolated", "C37", G, '''    for i in range(n):
        G.add_node(i)
''', '''    for i in range(n):
        if np.any(A[i] != 0):
            G.add_node(i)
''')
b("c37-digits", "C37", G, _UN + _E, _UN + _E.replace("round(10e3 * A[i, j]) / 10e3", "round(10e2 * A[i, j]) / 10e2"))
b("c37-abs-sym", "C37", G, "    if np.allclose(A, A.T):\n", "    if np.allclose(abs(A), abs(A.T)):\n")
b("c37-selfloop", "C37", G, _UN + _E, _UN.replace("i + 1", "i") + _E)
b("c37-weight-none", "C37", G, '        A = nx.to_numpy_array(A, weight="weight")\n', '        A = nx.to_numpy_array(A, weight=None)\n')
b("c37-one-based", "C37", G, '''    for i in range(n):
        G.add_node(i)
''', '''    for i in range(n):
        G.add_node(i + 1)
''')
b("c37-threshold", "C37", G, _UN + _E, _UN + _E.replace("A[i, j] != 0", "abs(A[i, j]) > 1e-3"))
r("plot-nodes-from", G, '''    for i in range(n):
        G.add_node(i)
''', '''    G.add_nodes_from(range(n))
''')
r("plot-helper", G, '''    for i in range(n):
        G.add_node(i)
''', '''    _add_all_nodes(G, n)
''', G, '''def plot_graph_with_edge_weights(''', '''def _add_all_nodes(graph, count):
    for k in range(count):
        graph.add_node(k)


def plot_graph_with_edge_weights(''')
r("plot-continue", G, _UN + _E, '''        for i in range(n):
            for j in range(i + 1, n):
                if A[i, j] == 0:
                    continue
                w = round(10e3 * A[i, j]) / 10e3
                G.add_edge(i, j, weight=w)
''')
r("plot-isinstance", G, '''        isinstance(A, nx.Graph)
        or isinstance(A, nx.DiGraph)
        or isinstance(A, nx.MultiGraph)
        or isinstance(A, nx.MultiDiGraph)
''', '''        isinstance(A, nx.Graph)
''')
r("plot-isinstance-tuple", G, '''        isinstance(A, nx.Graph)
        or isinstance(A, nx.DiGraph)
        or isinstance(A, nx.MultiGraph)
        or isinstance(A, nx.MultiDiGraph)
''', '''        isinstance(A, (nx.Graph, nx.DiGraph, nx.MultiGraph, nx.MultiDiGraph))
''')
r("plot-symmetric-flag", G, "    if np.allclose(A, A.T):\n        G = nx.Graph()\n    else:", "    symmetric = np.allclose(A, A.T)\n    if symmetric:\n        G = nx.Graph()\n    else:", G, "    if G.is_directed():\n        for i in range(n):", "    if not symmetric:\n        for i in range(n):")
r("plot-edge-list", G, _UN + _E, '''        edges = []
        for i in range(n):
            for j in range(i + 1, n):
                if A[i, j] != 0:
                    edges.append((i, j, round(10e3 * A[i, j]) / 10e3))
        G.add_weighted_edges_from(edges)
''')
r("plot-nonzero", G, _DI + _E, '''        for i, j in zip(*np.nonzero(A)):
            G.add_edge(int(i), int(j), weight=round(10e3 * A[i, j]) / 10e3)
''')
r("plot-row", G, _DI + _E, '''        for i in range(n):
            row = A[i]
            for j, a in enumerate(row):
                if a != 0:
                    G.add_edge(i, j, weight=round(10e3 * a) / 10e3)
''')
r("plot-shift", G, _UN + _E, '''        for i in range(n):
            for k in range(n - i - 1):
                j = i + k + 1
                if A[i, j] != 0:
                    G.add_edge(i, j, weight=round(10e3 * A[i, j]) / 10e3)
''')
r("plot-reversed", G, _UN + _E, '''        for j in range(n):
            for i in range(j):
                if A[i, j] != 0:
                    G.add_edge(i, j, weight=round(10e3 * A[i, j]) / 10e3)
''')
r("plot-setweight", G, _UN + _E, _UN + '''                if A[i, j] != 0:
                    G.add_edge(i, j)
                    G[i][j]["weight"] = round(10e3 * A[i, j]) / 10e3
''')

# ---- other ways to write the distances
r("tvd-max", D, "    dtrace = 0.5 * np.sum(np.abs(p - q))", "    dtrace = np.sum(np.maximum(p - q, 0))")
r("tvd-min", D, "    dtrace = 0.5 * np.sum(np.abs(p - q))", "    dtrace = 1 - np.sum(np.minimum(p, q))")
r("tvd-norm", D, "    dtrace = 0.5 * np.sum(np.abs(p - q))", "    dtrace = np.linalg.norm(p - q, 1) / 2")
r("tvd-loop", D, "    dtrace = 0.5 * np.sum(np.abs(p - q))", "    dtrace = 0.0\n    for x, y in zip(p, q):\n        dtrace += abs(x - y) / 2")
r("tvd-positive", D, "    dtrace = 0.5 * np.sum(np.abs(p - q))", "    diff = p - q\n    dtrace = np.sum(diff[diff > 0])")
r("re-where", D, "    dkl = entropy(p, qk=q)", "    with np.errstate(divide='ignore', invalid='ignore'):\n        dkl = np.sum(np.where(p > 0, p * np.log(p / q), 0.0))")
r("re-support-p", D, "    dkl = entropy(p, qk=q)", "    keep = p > 0\n    with np.errstate(divide='ignore'):\n        dkl = np.sum(p[keep] * (np.log(p[keep]) - np.log(q[keep])))")
r("re-inf", D, "    dkl = entropy(p, qk=q)", "    keep = p > 0\n    if np.any(q[keep] == 0):\n        return np.inf\n    dkl = np.sum(p[keep] * np.log(p[keep] / q[keep]))")
r("re-loop-inf", D, "    dkl = entropy(p, qk=q)", '''    dkl = 0.0
    for x, y in zip(p, q):
        if x == 0:
            continue
        if y == 0:
            return np.inf
        dkl += x * np.log(x / y)''')
r("re-keep-entropy", D, "    dkl = entropy(p, qk=q)", "    keep = p > 0\n    if np.any(q[keep] == 0):\n        return float('inf')\n    dkl = entropy(p, qk=q)")
r("re-float", D, "    dkl = entropy(p, qk=q)", "    dkl = float(entropy(pk=p, qk=q))")
r("bc-matmul", D, "    bc = np.sum(np.sqrt(p * q))", "    bc = np.sqrt(p) @ np.sqrt(q)")
r("bc-loop", D, "    bc = np.sum(np.sqrt(p * q))", "    bc = 0.0\n    for i in range(len(p)):\n        bc += np.sqrt(p[i]) * np.sqrt(q[i])")
r("bc-support", D, "    bc = np.sum(np.sqrt(p * q))", "    both = (p > 0) & (q > 0)\n    bc = np.sum(np.sqrt(p[both] * q[both]))")
r("js-entropies", D, "    djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))", "    djs = entropy(m) - 0.5 * (entropy(p) + entropy(q))")
r("js-rel", D, "    djs = 0.5 * (entropy(p, qk=m) + entropy(q, qk=m))", "    djs = 0.5 * (relative_entropy(p, m) + relative_entropy(q, m))")
r("js-mean", D, "    m = 0.5 * (p + q)", "    m = np.mean([p, q], axis=0)")
r("renyi-power", D, "    l_a = np.linalg.norm(p, ord=a)\n", "    l_a = np.sum(p**a) ** (1 / a)\n")
r("renyi-log", D, "    return np.log(l_a) * (a / (1 - a))", "    return np.log(np.sum(p**a)) / (1 - a)")
r("renyi-neg", D, "    return np.log(l_a) * (a / (1 - a))", "    return -a / (a - 1) * np.log(l_a)")
r("renyi-order", D, "    if a == 1:", "    if np.isinf(a):\n        return -np.log(np.max(p))\n\n    if a == 1:")
r("renyi-min", D, "        return -np.log(np.max(p))", "        return np.log(1 / p.max())")
r("renyi-zero-sum", D, "        return np.log(np.count_nonzero(p))", "        return np.log(np.sum(p != 0))")
r("renyi-one", D, "        return entropy(p)", "        keep = p[p > 0]\n        return -np.sum(keep * np.log(keep))")
r("sre-abs", D, "    if np.nonzero(xi)[0].size == 1:", "    if np.count_nonzero(xi) == 1:")
r("sre-len", D, "    d = rho.shape[0]\n", "    d = len(rho)\n")
r("linear-vdot", D, "    l2_squared = np.linalg.norm(p, ord=2) ** 2", "    l2_squared = np.vdot(p, p).real")
r("linear-sum", D, "    sL = 1 - l2_squared", "    sL = np.sum(p * (1 - p))")
r("trace-svd", D, "    evals = np.linalg.eigvals(diff)", "    evals = np.linalg.svd(diff, compute_uv=False)")
r("trace-eigvalsh", D, "    evals = np.linalg.eigvals(diff)", "    evals = np.linalg.eigvalsh(diff)")
r("trace-nuc", D, "    return 0.5 * np.sum(abs(evals))", "    return np.linalg.norm(diff, 'nuc') / 2")
r("faf-sum", D, "    FAF = n_sites - np.linalg.norm(pm, k) ** k", "    FAF = n_sites - np.sum(np.abs(pm) ** k)")
r("faf-sum2", D, "    FAF = n_sites - np.linalg.norm(pm, k) ** k", "    FAF = n_sites - (pm**k).sum()")
r("stab-einsum", D, "        expectP = np.trace(Pj @ rho)", "        expectP = np.einsum('ij,ji->', Pj, rho)")
r("stab-vdot", D, "        expectP = np.trace(Pj @ rho)", "        expectP = np.vdot(Pj, rho)")
r("stab-purity", D, "    pur_rho = np.trace(rho @ rho)", "    pur_rho = np.sum(rho * rho.T)")
r("stab-list", D, "        xi[j] = (expectP * expectP) / d", "        xi[j] = expectP**2 / d")
r("stab-shape", D, "    N = 2**n_qubits", "    N = rho.shape[0]")
r("cov-eig-list", D, "    pm = np.square(eigenvalues)", "    pm = np.array([x * x for x in eigenvalues])")
r("cov-comp", D, '''    eigenvalues = []
    for i in range(2 * n_sites):
        for j in range(i, 2 * n_sites):
            if abs(Lc[i, j]) > 1e-10:
                eigenvalues.append(Lc[i, j])
''', '''    eigenvalues = [
        Lc[i, j] for i in range(2 * n_sites) for j in range(i, 2 * n_sites) if abs(Lc[i, j]) > 1e-10
    ]
''')
r("cov-triu", D, '''    eigenvalues = []
    for i in range(2 * n_sites):
        for j in range(i, 2 * n_sites):
            if abs(Lc[i, j]) > 1e-10:
                eigenvalues.append(Lc[i, j])
''', '''    upper = Lc[np.triu_indices(2 * n_sites)]
    eigenvalues = upper[np.abs(upper) > 1e-10]
''')

# ---------------------------------------------------------------- round 8: ff_utils idioms
r("clean8-zero", U, "            obj = 0 * obj\n", "            obj = obj * 0\n")
r("clean8-notany", U, "            if np.all(np.abs(obj.imag) < threshold):", "            if not np.any(np.abs(obj.imag) >= threshold):")
r("clean8-method", U, "            if np.all(np.abs(obj.imag) < threshold):", "            if (np.abs(obj.imag) < threshold).all():")
r("clean8-count", U, "            if np.all(np.abs(obj.imag) < threshold):", "            if np.count_nonzero(np.abs(obj.imag) >= threshold) == 0:")
r("clean8-helper", U, '''        obj = obj.copy()
        obj[np.abs(obj) < threshold] = 0
        return np.round(obj, ndigits)
''', '''        return _zero_small(obj, threshold, ndigits)
''', U, "def clean(obj, threshold=1e-6):", '''def _zero_small(arr, threshold, ndigits):
    out = arr.copy()
    small = np.abs(out) < threshold
    out[small] = 0
    return np.round(out, ndigits)


def clean(obj, threshold=1e-6):''')
r("clean8-strfirst", U, '''            # If it's a numeric string, convert to float
            obj = float(obj)
            obj = np.round(obj, ndigits)
            return str(obj)
        else:
            # If it's a non-numeric string, return as is
            return obj
''', '''            return str(np.round(float(obj), ndigits))
        return obj
''')
r("clean8-astype", U, "        return np.round(obj, ndigits)\n\n    if isinstance(obj, str)", "        return obj.round(ndigits)\n\n    if isinstance(obj, str)")
r("fmt8-fstr", U, '            return f"{obj:.{precision}f}"', '            return format(obj, f".{precision}f")')
r("fmt8-guard", U, '''    if isinstance(obj, (int, float, complex)):
        if isinstance(obj, complex):''', '''    if not isinstance(obj, (int, float, complex)):
        return str(obj)
    else:
        if isinstance(obj, complex):''', U, '''    else:
        return str(obj)
''', '')
r("fmt8-split", U, '''            if abs(obj.imag) < 1e-10:
                return f"{obj.real:.{precision}f}"
            else:
                return f"{obj.real:.{precision}f} + {obj.imag:.{precision}f}j"
''', '''            re, im = obj.real, obj.imag
            text = f"{re:.{precision}f}"
            if abs(im) < 1e-10:
                return text
            return text + f" + {im:.{precision}f}j"
''')
r("bits8-or", U, "    if k < 0 or k > n:", "    if not 0 <= k <= n:")
r("bits8-comp", U, '''    bitstring = np.zeros(n, dtype=int)
''', '''    bitstring = np.full(n, 0, dtype=int)
''')
r("kp8-full", U, "    Z01 = np.zeros((a.shape[0], b.shape[1]))\n    Z10 = np.zeros((b.shape[0], a.shape[1]))\n    return np.block([[a, Z01], [Z10, b]])", "    top = np.hstack([a, np.zeros((a.shape[0], b.shape[1]))])\n    bottom = np.hstack([np.zeros((b.shape[0], a.shape[1])), b])\n    return np.vstack([top, bottom])")
r("kp8-conc", U, "    return np.block([[a, Z01], [Z10, b]])", "    return np.concatenate([np.concatenate([a, Z01], axis=1), np.concatenate([Z10, b], axis=1)], axis=0)")
r("pdf8-isreal", U, '''    if np.allclose(pdf, pdf.real):
        pdf = pdf.real
    else:
        raise ValueError(
            "Probability distribution has " "non-negligible imaginary part"
        )

    return pdf
''', '''    real_part = pdf.real
    if not np.allclose(pdf, real_part):
        raise ValueError(
            "Probability distribution has " "non-negligible imaginary part"
        )

    return real_part
''')
r("pdf8-diagonal", U, "    pdf = np.diag(rho)\n\n    # ", "    pdf = rho.diagonal()\n\n    # ")
r("cast8-ndim", U, "    if len(rho.shape) == 1 or min(rho.shape) == 1:", "    if rho.ndim == 1 or 1 in rho.shape:")
r("cast8-ravel", U, "        rho_flat = rho.flatten()", "        rho_flat = rho.ravel()")
r("cast8-l1sum", U, "        l1_norm = np.linalg.norm(rho_flat, ord=1)", "        l1_norm = np.sum(np.abs(rho_flat))")
r("cast8-isclose", U, "        if np.allclose(l2_norm, 1):", "        if np.isclose(l2_norm, 1):")
r("cast8-minev", U, '''    assert np.all(
        np.linalg.eigvalsh(rho) >= -1e-12
    ), "Generated state is not positive semidefinite"
''', '''    evals = np.linalg.eigvalsh(rho)
    assert not (evals < -1e-12).any(), "Generated state is not positive semidefinite"
''')
r("cast8-minev2", U, '''    assert np.all(
        np.linalg.eigvalsh(rho) >= -1e-12
    ), "Generated state is not positive semidefinite"
''', '''    assert np.linalg.eigvalsh(rho).min() >= -1e-12, "Generated state is not positive semidefinite"
''')
r("pt8-while", U, '''    for j in range(d2):
        col_idx = j
        row_idx = j
''', '''    for j in range(0, d2, 1):
        col_idx = row_idx = j
''')
r("pt8-step", U, '''    for j in range(d2):
        col_idx = j
        row_idx = j

        j0 = row_idx * d
        j1 = j0 + d

        i0 = col_idx * d
        i1 = i0 + d

        A += AB[i0:i1, j0:j1]
''', '''    for k0 in range(0, D, d):
        A += AB[k0 : k0 + d, k0 : k0 + d]
''')
r("pt8-sum", U, '''    for j in range(d2):
        col_idx = j
        row_idx = j

        j0 = row_idx * d
        j1 = j0 + d

        i0 = col_idx * d
        i1 = i0 + d

        A += AB[i0:i1, j0:j1]
    return A
''', '''    blocks = [AB[k * d : (k + 1) * d, k * d : (k + 1) * d] for k in range(d2)]
    for block in blocks:
        A = A + block
    return A
''')
r("pt8-trdiag", U, "            B[i, j] = np.trace(AB[i0:i1, j0:j1])", "            block = AB[i0:i1, j0:j1]\n            B[i, j] = np.sum(np.diag(block))")
r("pt8-loop3", U, "            B[i, j] = np.trace(AB[i0:i1, j0:j1])", "            acc = 0\n            for k in range(d1):\n                acc += AB[i0 + k, j0 + k]\n            B[i, j] = acc")
r("pt8-floor", U, '''    assert int(D / d) == D / d, "d must divide linear dim(AB)"
    d1 = int(D / d)''', '''    assert D % d == 0, "d must divide linear dim(AB)"
    d1 = D // d''')
r("print8-else", U, '''        if np.allclose(val.imag, np.zeros_like(val)):
            val = val.real
''', '''        imag_part = val.imag
        if np.allclose(imag_part, 0):
            val = val.real
''')
r("print8-helper", U, '''    if isinstance(obj, (int, float, complex, list, np.ndarray, np.matrix)):
        _print(obj, k)
    else:
        print(obj)
''', '''    printable = (int, float, complex, list, np.ndarray, np.matrix)
    if not isinstance(obj, printable):
        print(obj)
        return
    _print(obj, k)
''')
