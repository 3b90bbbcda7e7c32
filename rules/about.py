"""What each check decides, how, and under which assumptions (goes to the evidence files and to DESIGN.md)."""

FLOW = "every value is the same normal form as in the reference, for all inputs, on every feasible path"
DIMS = "dimensions of a model are non-negative integers that no operation changes between two reads; neps = dimeps = number of shocks"
NAMES = "names of variables, shocks, parameters and observables are distinct strings"
LIB = "numpy, scipy, sympy, emcee, h5py functions are uninterpreted apart from the algebra in vflow/libmodel.py; their signatures are read from the installed source"

# id: (what is decided and how, assumptions)
ABOUT = {
"C01": ("Ordering by dataflow over all paths of the likelihood closure (found from prep_estim's `llike` attribute): the generator state is read before "
        "seeding, seeding precedes every call that can draw random numbers, and the set_state of the saved value is reached on every exit, exceptional ones included; "
        "the seed's definition chain is compared with the reference chain argument > metadata > 0.", [LIB]),
"C02": ("Exception-edge analysis: for every call of the likelihood closure that can raise, the handler that catches it, the value returned from there, and whether "
        "warnings are turned into errors around it; KeyboardInterrupt must not be caught; lprob's guard dominates the likelihood; NaN is replaced before return.", [LIB]),
"C03": ("Value of lprob as a function of (point, temperature, seed, transform) compared with T*ll(x) + lprior(x); arguments of the solver and filter calls inside llike; "
        "every attribute prep_estim leaves behind that the densities read.", [LIB, DIMS]),
"C04": ("Attributes of the model at the exits of set_par, gen_sys_from_yaml and gen_sys and Q of the filter at the exits of set_par and create_filter, as values of the arguments and "
        "the attributes at entry, compared with the reference for every branch (name, full vector, subset, named set).", [DIMS, NAMES, "const_var is an element of vv"]),
"C05": ("Branch conditions and results of set_par/get_par for strings against vectors; errors for unknown names; in-place write effects (alias analysis over allocation sites) on arguments.", [NAMES]),
"C06": ("Value returned by get_par for each documented name and form (full, asdict, nsamples), including the paths where a look-up fails.", [NAMES]),
"C07": ("Effect analysis: the calibration and its aliases are not in the write set of any getter or of any function that sets, samples or reports parameters; attributes at exit equal those at entry "
        "for getters, and results do not alias the stored vectors.", ["attributes not assigned in the repository keep their value"]),
"C08": ("Effect analysis of every public operation of the simulation layer over its whole call graph: attributes at exit equal entry values, no argument or model array is in the in-place write set.", []),
"C09": ("Non-interference by self-comparison: every function with a `verbose`/`debug`-like switch is analysed once with the switch off and once per level, and results, attributes at exit and conditions of errors "
        "must have equal normal forms; the code is its own reference.", ["progress-bar and printing calls have no effect besides output"]),
"C10": ("Returned value of the compiled transition and of its wrappers as case distinction over (l, k), compared with the reference law of motion.", [DIMS]),
"C11": ("The search over (l, k) as nested first-match loops with their acceptance condition, compared with the reference; differing loop skeletons are unrolled to 3 iterations before a difference is reported.", [DIMS]),
"C12": ("The loops filling the precomputed arrays are summarised as recurrences per (l, k) cell and compared with the backward recursion; tables stored by preprocess must be that result.", [DIMS]),
"C13": ("Race rules over each `prange` loop: privatisation of scalars, disjointness of the written cells by the induction variable, no read of cells another iteration writes; the parallel variant is analysed as the serial "
        "loop and compared; no fastmath in the compilation options.", ["iterations of prange are the only concurrency"]),
"C14": ("The matrices gen_sys assembles and hands to the decomposition (block by block), the orderings vv/svv/cvv and dimensions, and the constraint's row, compared with the reference construction.", [DIMS, NAMES, "auxiliary names do not collide with model names"]),
"C15": ("Cache key and hit condition compared as boolean functions; the object returned by `read` does not alias the cache entry (allocation sites); state of a hit, miss and bypass; content of the cache afterwards.", ["cached models are not None"]),
"C16": ("Key agreement: which entries are written under which condition and path, and which are read; paths compared in normal form of os.path.join and text operations.", []),
"C17": ("Condition of every call that deletes, resets or overwrites storage (os.remove, backend.reset, run_mcmc) as a boolean function of arguments and metadata.", [LIB]),
"C18": ("Provenance of mode_x and mode_f: same argmax index, same chain, transformed back, stored together on every path.", [LIB]),
"C19": ("Slices, transforms and selection in every accessor of chains; no writes to the model; conditions of errors.", [LIB]),
"C20": ("load_data: condition of each rejection, the column selection (model order), and what is stored.", [NAMES]),
"C21": ("Every attribute put on the filter object in create_filter/run_filter and its provenance from the model, per filter type; likelihood returned is that filter's.", [DIMS]),
"C22": ("simulate and mask: value returned per period (loop recurrence), parameters used, mask operands, positions of states and observables.", [DIMS, NAMES]),
"C23": ("irfs/shock2state: period-by-period recurrence; for every shock specification the shock vector at each period; output labels.", [DIMS, NAMES]),
"C24": ("nhd and sort_nhd: contribution recurrences per shock, their sum, the initial part and the labels.", [DIMS, NAMES]),
"C25": ("Condition (over the text of the model) under which parsing ends in an error, compared with the union of the documented defects; no handler may swallow an evaluation error.", [NAMES, "symbols are truthy"]),
"C26": ("Each entry of AA, BB, CC, PSI, ZZ0, ZZ1 and the constraint's row as derivative of (equation, symbol at date), and the orderings that index them.", [NAMES]),
"C27": ("Auxiliary variables and equations produced for lags/leads beyond one as comprehensions over the model, and the identity (hash, equality, date) of dated symbols.", [NAMES, "dates are integers"]),
"C28": ("Argument lists of each lambdified function against the list of values at its call sites; memo keys determine the memo value (dependence analysis); derived public attributes.", [NAMES]),
"C29": ("Every distribution of work: items, order, collection, fall-back without pool; no use of completion-order maps.", []),
"C30": ("Attribute kill analysis: whoever replaces the solution discards the derived tables; whoever reads the tables recomputes them for the present solution; table cells as recurrences.", [DIMS]),
"C31": ("extract: pairing of sample, seed, shocks and result through comprehensions and retries, including attempts that fail.", [LIB, DIMS]),
"C32": ("Existence queries over the whole package and the installed dependencies' sources: names, imports, call signatures, attributes of the model, dictionary entries, numpy names.", ["an attribute of the model is defined by an assignment somewhere in the package"]),
"C33": ("gfevd: both runs differ only in the removed shock (value comparison), seeds and parameters set before each.", [LIB]),
"C34": ("vix/oix: position returned and condition of the error; labels of the plots.", [NAMES]),
"C35": ("prior_sampler: loop of candidates with acceptance condition; what is drawn from which distribution, and what is returned.", [LIB]),
"C36": ("Inputs (draws, densities, tuning) of each posterior summary and of the marginal data density, and the formula.", [LIB]),
"C37": ("Conditions and arguments of what is printed by box_check and info_m.", []),
}
