"""Assumptions reported with every evidence file."""
TRUSTED = [
    'engine/: symbolic interpreter for the Python subset, loop solver, normal-form prover and z3 back end '
    '(compared with CPython / numpy on concrete inputs by tools/selftest.py)',
    'z3 (python3-vt)',
    'the contracts assumed for numpy, scipy, cma, multiprocessing and the standard library (engine/nplib.py, engine/npmodel.py)',
]
GENERAL = [
    'floating-point arithmetic is treated as exact real arithmetic; NaN and overflow do not occur; denominators are non-zero where the code divides',
    'Python integers and array dimensions are unbounded; integer arrays hold integers of unbounded size (stores into them truncate)',
    'arrays handed to a function do not alias one another unless the contract says so',
    'logging, printing and plotting have no effect on results; debug output is switched on in half of the cases',
    'callers are checked against the contracts of the callees listed under callee_contracts_used; each of these is discharged against its body by the property it belongs to',
    'user callables (objective, prior mean, acquisition wrapper) are pure functions of their argument that keep the shape contract',
]
PER_PROPERTY = {
    'C01': ['scipy.stats.qmc.Sobol / Halton return points of the unit cube, RandomState.uniform / standard_normal values of their documented range; '
            'np.linspace returns equally spaced points with both ends', 'grid: dimensions 1 to 4 (the code recurses over numpy.meshgrid with a list whose length is the dimension)'],
    'C02': ['the value of a generator draw is a function of its seed (or of fresh entropy), the draws made before it on the same generator and the requested shape'],
    'C03': ['scipy.optimize.minimize with bounds, scipydirect.minimize and cma.fmin return a point inside the bounds they are given',
            'candidate value comparisons are those of the acquisition under the reported surrogate; NaN scores do not occur'],
    'C04': ['the objective returns one number per call', 'time.time is monotone'],
    'C05': ['scores are finite (the code marks evaluated candidates by infinity)'],
    'C06': [],
    'C07': ['scipy.stats.norm.cdf / pdf are the standard normal distribution and density; posterior deviations are non-negative'],
    'C08': ['cdist is the Euclidean distance', 'set inputs: every set of one argument has the same size (the array is rectangular)'],
    'C09': ['derivatives are taken of the closed form that C08 establishes for the covariance'],
    'C10': ['np.linalg.inv returns the inverse of an invertible argument and scipy.linalg.cholesky the lower factor of a positive definite one, LinAlgError otherwise; '
            'success of a factorisation is an uninterpreted predicate of the matrix'],
    'C11': ['the given inverse covariance is arbitrary; K(train, train) is invertible where the code inverts it'],
    'C12': ['the given inverse covariance is arbitrary; K(train, train) is invertible where the code inverts it; degrees of freedom above two'],
    'C13': ['solve_triangular, cholesky, inv, slogdet satisfy their algebraic definitions; the determinant of the covariance is positive',
            'leave-one-out: Rasmussen and Williams (2006) eq. 5.10-5.12 (partitioned inverse) is used as the definition of the predictive mean and variance'],
    'C14': ['scipy.special.gammaln is the log gamma function, digamma its derivative; slogdet is the log determinant', 'known finding tp-dof-digamma: the entry is checked to be exactly the recorded value'],
    'C15': [],
    'C16': ['scipy.optimize.minimize returns some vector of the length of its start (within bounds when given); that it minimises is not provable',
            'the objective handed to it is called on an arbitrary vector and compared with the likelihood contract (C13, C14)'],
    'C17': ['np.random.choice without replacement returns distinct elements of its population; np.unique the sorted distinct values', 
            'recursion of split and of prediction is by induction: the recursive call is replaced by the contract, the depth argument grows by one'],
    'C18': ['multiprocessing.Pool.map is map', 'recursion over the tree is by induction'],
    'C19': [],
    'C20': ['frame obligations are attached to every contract case of every property: arrays, lists and dictionaries passed in are compared with their value at entry'],
    'C21': ['scipy.stats.multivariate_normal.rvs draws from the given mean and covariance; RandomState / default_rng chisquare from the given degrees of freedom; '
            'whether a covariance can be sampled is an uninterpreted predicate', 'distributional statements are structural (which draw enters where), not statistical'],
    'C22': ['histories of arbitrary length and content before the step; several steps in a row up to 4'],
    'C23': ['importability of cma and scipydirect is a parameter (each case runs with and without)'],
}
