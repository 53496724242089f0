"""levels, trusted base and assumptions reported in the evidence"""
TRUSTED = ["z3 4.x (python bindings) and cvc5 1.1.2 as back-end provers", "the normal-form prover of engine/terms.py and engine/solve.py",
           "the AST extraction of engine/loader.py (every statement kept; only the dispatch of loops, subscripts, displays and builtins changes)",
           "contracts of numpy/scipy functions in engine/shim_np.py and engine/sym.py (assumed; cross-checked on random inputs by exec/)"]
EXPLAIN = "obligations are generated from /repo's current source on every run by symbolic execution of the real functions with unbounded symbolic sizes; loops over symbolic ranges are replaced by inductive closed forms (invariants) that the engine derives and checks; each postcondition is proved for all values, sizes and paths"
COMMON = ["floating point is treated as real arithmetic; machine integers as mathematical integers; NaN and infinities are outside the preconditions unless stated",
          "array aliasing follows the numpy view rules modelled in engine/sym.py", "termination of while loops is not proved",
          "logging and printing have no effect on results"]
LEVELS = {}
EXTRA = {
    "C01": ["numpy.unique, searchsorted and argsort at their contracts"],
    "C02": ["standard deviations that are divided by are not zero", "the masked adaptive S-norm is a bounded stand-in"],
    "C03": ["the two score classes have weight (no division by zero)"],
    "C04": ["the packed second order statistics of Normal.compute_suff_stats (a double loop over the dimensions) are proved for dimensions 1 to 4"],
    "C05": ["components have non-zero counts where a mean is taken"],
    "C06": ["matrix inverse, Cholesky and log-determinant at their contracts (C09)", "the EM iterations are proved one step at a time"],
    "C07": ["eigh at its contract: orthonormal eigenvectors, sorted eigenvalues"],
    "C08": ["scikit-learn's confusion matrix at its contract", "the pool-adjacent-violators result at its contract: block means, proved separately only as a bounded stand-in"],
    "C09": ["Cholesky factorisation and triangular inverse of numpy/scipy at their contracts"],
    "C10": ["text files are modelled as lists of lines of fields"],
    "C11": ["list helpers at the contracts proved in C10; hdf5 as a map from names to arrays"],
    "C12": ["list helpers at the contracts proved in C10; hdf5 as a map from names to arrays"],
    "C13": ["binary streams as byte strings with a position; packing and unpacking of numbers exact; BufferedReader.peek returns bytes without moving; hdf5 as a map from names to arrays"],
    "C14": ["byte packing exact: float32 rounding of the headers is not modelled"],
    "C15": ["numpy's random permutation is an arbitrary permutation"],
    "C16": ["scipy.signal.lfilter and numpy.convolve at their contracts (recursions and sums over the window)"],
    "C17": ["Fourier and cosine transforms as arbitrary linear kernels; complex numbers as field elements"],
    "C18": ["scikit-learn estimators return arbitrary coefficients; matrix inverse, determinant, softmax and one-hot at their contracts (C09)"],
    "C19": ["scipy's linkage returns an arbitrary tree; scikit-learn's homogeneity and completeness arbitrary values; numpy.unique's inverse arbitrary numbers of the labels it is given", "kmeans epochs and seeds up to 3, leaves of the cut tree up to 4, in the contracts that name them"],
    "C20": ["archives, script lists and trial lists at the contracts of C10, C11, C13", "up to 3 classes or sequences in the tensors", "class pruning and splitting and the batches of the sequence readers are bounded stand-ins"],
}


def level(p):
    return LEVELS.get(p, "proof")


def assumptions(p):
    return COMMON + EXTRA.get(p, [])
