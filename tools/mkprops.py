"""regenerates /verif/properties.jsonl (kept as python for readable diffs)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["pydsge/" + f for f in files], "mechanism": [{"name": n, "where": "pydsge/" + w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Likelihood evaluation is seeded and leaves the global random state untouched",
  "Once a model is prepared for estimation, every likelihood evaluation seeds the global random generator with the configured seed before anything random happens, and the generator's state on return is exactly the state at entry, whether the evaluation succeeds or fails. Preparing an estimation resolves the seed from the argument, then the stored metadata, then zero.",
  ["inputs", "histories"], "for every parameter vector, every outcome (success, any failure) and every sequence of evaluations",
  "tests evaluate a few parameter vectors once; the guarantee is about every exit path of the evaluation, including the failure paths a test cannot all provoke",
  ["estimation.py", "filtering.py"], [("likelihood closure", "estimation.py:llike"), ("seed resolution", "estimation.py:prep_estim")], ["numpy global random state"])
p("C02", "Failures in the likelihood become -inf and never abort sampling",
  "Any error or warning raised while solving the model or filtering at a proposed parameter vector yields a log-likelihood of minus infinity instead of an exception, and a likelihood that is not a number is also reported as minus infinity. Only a keyboard interrupt propagates, and a proposal whose log-prior is infinite is returned without evaluating the likelihood at all.",
  ["inputs", "fault_sequences"], "for every parameter vector and every kind of failure inside solving or filtering",
  "tests cannot enumerate the failures (indeterminacy, singular matrices, warnings) different models produce",
  ["estimation.py", "filtering.py"], [("exception barrier", "estimation.py:llike"), ("not-a-number guard", "filtering.py:get_ll,run_filter"), ("prior short cut", "estimation.py:lprob")])
p("C03", "Posterior density is tempered likelihood plus prior at one and the same point",
  "The log-posterior at a point is the temperature times the log-likelihood plus the log-prior, both evaluated at the same (if prior transformation is active: back-transformed) parameter vector. The proposed values are written to the positions of the estimated parameters, all other parameters keep their calibrated values, the shock covariance follows the proposal, and zero temperature yields the prior alone.",
  ["inputs", "configurations"], "for every proposal, temperature and transformation setting",
  "a wrong position, temperature or transform still produces plausible finite numbers in any sampled run",
  ["estimation.py"], [("posterior closure", "estimation.py:lprob"), ("parameter insertion", "estimation.py:llike")])
p("C04", "Setting parameters keeps parameters, solution and filter covariance in step",
  "After parameters are set, the stored parameter vector, the compiled parameter vector including derived parameters, the steady state of the constraint, the solution matrices and, if a filter exists, its shock covariance all belong to the same newly set parameters. The filter's shock covariance is always the product of the shock standard deviation matrix with itself, wherever a filter is created or updated.",
  ["inputs", "histories"], "for every way of setting parameters (full vector, estimated subset, named set, single parameter) and every prior history of the model object",
  "each route has its own branch; tests exercise one or two, and a stale piece silently yields wrong likelihoods",
  ["mpile.py", "gensys.py", "filtering.py", "estimation.py"], [("parameter setter", "mpile.py:set_par"), ("state recorded by the solver", "gensys.py:gen_sys_from_yaml,gen_sys"), ("filter set-up", "filtering.py:create_filter")])
p("C05", "Parameter names and parameter vectors are never confused",
  "A string handed to the parameter getter or setter is always interpreted as a name, never as a vector, whatever its length; a vector of full length replaces all parameters and a vector with one entry per estimated parameter replaces exactly those. Setting one named parameter changes that entry only, working on copies, and unknown names or names of derived parameters are rejected with an error.",
  ["inputs", "configurations"], "for every model size, every name and every vector",
  "the confusion needs a model whose parameter count coincides with the length of a name",
  ["mpile.py"], [("setter dispatch", "mpile.py:set_par"), ("getter dispatch", "mpile.py:get_par")])
p("C06", "Named parameter sets return what their name says",
  "Requesting a named parameter set returns the values of that source: the calibration, the current values, the stored mode, the best known values (the stored mode, or the initial values if there is none), the prior means or the adjusted prior means (the middle of the interval for uniform priors), the initial values (the calibration where none is given), the posterior means, or draws from prior or posterior. In a full vector the estimated entries come from that source, each at its own position, and all remaining entries are the calibrated ones, or the current ones when the current or best known values are requested; a single named parameter is returned from its own position, derived parameters included.",
  ["inputs", "configurations", "histories"], "for every model, every named set and every state of the stored estimation results",
  "each name is one branch over stored results that exist only after particular histories",
  ["mpile.py"], [("parameter getter", "mpile.py:get_par")])
p("C07", "The calibration is never modified and getters do not change the model",
  "The calibrated parameter vector of a model is never changed in place by getting or setting parameters, preparing an estimation, evaluating the likelihood, impulse responses or simulations, and vectors handed out by the getters are not aliases of it. On a solved model with its estimation set up, asking for a single parameter or a named set (calibration, current, prior mean, initial values, mode, posterior mean) leaves the model's current parameters and solution as they were, whether the request succeeds or fails.",
  ["inputs", "histories"], "for every sequence of getter and setter calls",
  "aliasing corrupts the model only after a later in-place write in a particular order of calls",
  ["mpile.py", "estimation.py", "tools.py", "clsmethods.py"], [("parameter getter", "mpile.py:get_par"), ("parameter setter", "mpile.py:set_par"), ("estimation set-up", "estimation.py:prep_estim")])
p("C08", "Impulse responses and simulations do not alter the model they are called on",
  "Impulse responses, counterfactual simulations, shock placement, masks, single transitions, observation, and trajectory and regime maps work on private copies where parameters are changed: the model's parameters, solution matrices and data are the same afterwards, and the arrays, lists and result dictionaries passed in by the user are not modified.",
  ["inputs", "histories"], "for every argument combination, including user supplied parameter samples",
  "tests check the returned numbers, not the model afterwards",
  ["tools.py", "filtering.py"], [("impulse responses", "tools.py:irfs"), ("simulation", "tools.py:simulate"), ("extraction", "filtering.py:extract"), ("masking", "tools.py:mask")])
p("C09", "Verbosity never changes results",
  "The verbosity setting of any operation influences only what is printed: returned values, model state, stored results, raised errors and random numbers consumed are the same at every verbosity level.",
  ["inputs", "configurations"], "for every operation with a verbosity option and every verbosity level",
  "tests run at one verbosity level and cannot compare all levels of all operations",
  ["estimation.py", "filtering.py", "gensys.py", "mpile.py", "tools.py", "mcmc.py", "engine.py"], [("all verbose options", "*.py")])
p("C10", "The transition is the affine law of the selected regime",
  "Given the regime durations, the next state is the corresponding precomputed matrix applied to the stacked state and shocks plus the corresponding constant, and the observables are the observation matrix of the reduced state plus its constant; with both durations zero-length constants vanish. The compiled, the uncompiled and the full-trajectory code paths use the same law and the same regime for the same inputs.",
  ["inputs"], "for every state, shock vector and pair of durations",
  "the affine law has to hold for all states and regimes; tests only sample one model",
  ["engine.py", "tools.py"], [("compiled transition", "engine.py:t_func_jit"), ("public transition", "tools.py:t_func"), ("observation", "tools.py:o_func")])
p("C11", "Regime selection satisfies the constraint's complementarity conditions",
  "The durations chosen for the constrained regime are accepted only if the constraint is slack before it is entered, binding while active and slack afterwards; the unconstrained regime is chosen whenever it never violates the constraint, and the failure flag reports that no admissible regime was found or that the search was exhausted. Search and exhaustive fallback use the same acceptance test on the same boundary values.",
  ["inputs"], "for every state and every precomputed system",
  "the search loops over regimes depending on the numeric state; tests hit very few combinations",
  ["engine.py"], [("regime search", "engine.py:find_lk"), ("exhaustive search", "engine.py:bruite_wrapper"), ("constraint value", "engine.py:check_cnst")])
p("C12", "Precomputed regime matrices obey the backward recursion of the model",
  "For every pair of durations the precomputed matrices and constants are obtained from the pair one period closer to the unconstrained terminal regime by one step of the model's recursion (using the constrained system while the constraint binds and the unconstrained one otherwise), starting from the linear solution with zero constant. The constraint values stored per period are those of iterating that law forward period by period.",
  ["inputs", "configurations"], "for every system and every maximal duration setting",
  "a wrong slot is only read for particular durations that a small test never reaches",
  ["engine.py"], [("recursion step", "engine.py:get_lam,get_omg"), ("tables", "engine.py:preprocess_jittable"), ("wrapper", "engine.py:preprocess")])
p("C13", "Parallel preprocessing computes exactly what the serial one computes",
  "The parallel variant of the preprocessing loops runs the same code as the serial one, and no two iterations executed in parallel touch a common array element or scalar such that one writes what the other reads or writes.",
  ["schedules", "inputs"], "for every interleaving of the parallel iterations and every table size",
  "data races show up only under particular thread schedules",
  ["engine.py"], [("parallel loops", "engine.py:preprocess_jittable,preprocess_tmats_jit"), ("dispatch", "engine.py:preprocess,preprocess_tmats")])
p("C14", "The occasionally binding constraint enters the solution like any other equation",
  "In the unconstrained regime the constraint row is part of the equation system with contemporaneous, expected, lagged and shock terms all carrying the sign conventions of ordinary equations; in the constrained regime exactly the constrained variable is replaced by its bound. Variables whose lag occurs only in the constraint are states of the system as well, and the order of variables, states and shocks is kept consistently between the matrices and their labels.",
  ["programs", "inputs"], "for every model with or without constraint and every parameter vector",
  "sign slips affect only models whose constraint contains that kind of term",
  ["gensys.py"], [("system assembly", "gensys.py:gen_sys")])
p("C15", "Cached models are found by content, isolated and bypassed on request",
  "Reading a model returns a cached model only if the text of the model file and of its companion function file are both identical, and always returns an independent copy whose later modification cannot affect the cache or other copies; it carries the path of the file that was read. Switching the cache off never reads from it, and a model built from a dictionary is reused only for an identical dictionary and never when reprocessing is forced.",
  ["histories", "inputs"], "for every sequence of loads and modifications of models",
  "needs a history of loads of similar models with modifications in between",
  ["parser.py", "gensys.py"], [("model cache", "parser.py:crawl_cached_models,DSGE.read"), ("dictionary cache", "gensys.py:gen_sys_from_dict")])
p("C16", "Saved metadata and results are found again by what reads them",
  "What estimation, mode finding and sampling store in the metadata is stored under the name under which the getters look it up, and saving metadata writes all of it - description, backend file, tuning length, name and filter covariances included - under the model's own path unless another path is given. A result dictionary saved with some path and suffix is loaded back when the same path and suffix are given, and a model restored from a file has the name, path, data, priors and mode that are stored there.",
  ["histories", "inputs", "configurations"], "for every kind of stored result, name and path form",
  "the writer and the reader are in different modules and sessions; a mismatch shows only after a full save and reload cycle",
  ["clsmethods.py", "parser.py", "mcmc.py", "estimation.py", "mpile.py"], [("metadata writer", "clsmethods.py:save_meta"), ("metadata loader", "parser.py:DSGE.load"), ("result files", "clsmethods.py:save_rdict,load_rdict")])
p("C17", "Stored sampling results are never discarded unless a new run is requested",
  "An existing sampler backend file is deleted only when a fresh run on the automatically named backend was requested, and a backend is reset only when the run neither resumes nor appends. A resumed or appended run starts from the stored chain rather than from new initial values, and the sampler is always given the log-density at the requested temperature and filter type, and the requested number of walkers and steps.",
  ["histories", "configurations"], "for every combination of run options and existing files",
  "needs expensive runs with every option combination; losing a chain is silent",
  ["mcmc.py"], [("sampler driver", "mcmc.py:mcmc")])
p("C18", "The mode found by sampling is kept together with its density",
  "After an untempered sampling run the stored mode is the best draw of the last, tuned part of that run: mode value and mode position come from the same draw, and both are kept in the model's metadata, the position in parameter space. A tempered run never replaces the mode, and tuning length, chain and sampler references stored after a run belong to that run.",
  ["histories", "inputs"], "for every sequence of sampling runs",
  "requires several runs whose best draws improve and worsen",
  ["mcmc.py"], [("mode bookkeeping", "mcmc.py:mcmc")])
p("C19", "Chains are returned in parameter space, after tuning, without side effects",
  "Chains and log-densities requested from a model come from the given or live sampler if there is one and from the stored backend otherwise, opened read-only, and are transformed back to parameter space exactly once if the prior transformation is active. Posterior draws are taken without replacement from the most recent draws of all walkers, and the posterior mean uses exactly the last tuned part of the chain.",
  ["histories", "configurations"], "for every combination of live and stored samplers, transformation and tuning settings",
  "needs finished estimation runs in several configurations",
  ["clsmethods.py", "mpile.py", "stats.py"], [("chain access", "clsmethods.py:get_chain,get_log_prob"), ("posterior samples", "clsmethods.py:get_sample")])
p("C20", "Only data matching the model's observables are accepted, in model order",
  "Loading data requires a data frame that contains every observable of the model and no missing values, keeps exactly the observables in the model's order, and restricts it to the requested inclusive period; anything else is rejected with an error. The model then holds its own copy of these data, and the metadata the same values, index and observable names.",
  ["inputs"], "for every table and period",
  "tests load one correctly ordered file",
  ["clsmethods.py"], [("data loader", "clsmethods.py:load_data")])
p("C21", "Filters are set up with the model's own matrices and requested type",
  "The filter type requested (or stored) is the one created, with the model's state and observable dimensions; measurement error covariance, shock covariance and initial covariance come from the model, the data or the explicit arguments. Before filtering, the linear filter receives the transition, observation and covariance matrices of the current solution and the ensemble filter the model's transition and observation functions (in reduced form: observing transitions), shock covariance and shock extractor, each in its own slot; likelihood and smoothed states are returned as asked.",
  ["configurations", "inputs"], "for every filter type and option combination",
  "most filter types and options are never exercised by the tests",
  ["filtering.py"], [("filter set-up", "filtering.py:create_filter"), ("filter run", "filtering.py:run_filter"), ("initial covariance", "filtering.py:get_p_init_lyapunov")])
p("C22", "Simulation replays shocks period by period with the right parameters and mask",
  "A counterfactual simulation starts from the given initial state and applies, period after period, the transition to the previous state and the (masked) shocks of that period, recording states, durations and flags at the same index. A mask entry is combined with the shock by the given operation (default: product) unless it is missing there, a linear simulation uses the linear regime, each sample uses its own parameters, shocks and initial state, and explicitly given parameters, shocks or states take precedence over those of the source.",
  ["inputs", "histories"], "for every source sample, mask and option",
  "off-by-one periods and mixed-up samples yield plausible paths",
  ["tools.py"], [("simulation", "tools.py:simulate"), ("mask template", "tools.py:mask")])
p("C23", "Impulse responses apply each shock once, at its period, with its size",
  "Every shock of the list hits the named shock with the given size in the given period and in no other, the path starts from the given initial state and continues from the previous state, and states and durations of all periods are aligned and labelled. Forced durations count down from period to period, failure flags of any period are accumulated and reported, parameters given are the ones used, and durations beyond the prepared range are rejected.",
  ["inputs"], "for every shock list, horizon and initial state",
  "tests use a single shock in the first period",
  ["tools.py"], [("impulse responses", "tools.py:irfs"), ("shock placement", "tools.py:shock2state")])
p("C24", "Historical decompositions attribute each shock's contribution consistently",
  "The decomposition propagates the initial state and each shock separately through the same regime-dependent law that the data-generating path uses, so that the contributions of all shocks, the initial state and the constant regime term add up to the path (wherever the shares of the constraint do not sum to zero). Shock contributions are attributed to the shock in the same position, labelled with its name, and scaled shares use the same denominator.",
  ["inputs"], "for every shock path and model",
  "additivity over all components and periods is not visible in sampled outputs",
  ["stats.py"], [("decomposition", "stats.py:nhd"), ("stacking", "stats.py:sort_nhd")])
p("C25", "Malformed models are rejected at parse time",
  "A model file with a space inside a variable name, an unknown symbol or an expression that cannot be evaluated in equations, observables or the constraint, a number of equations different from the number of variables, more than one constraint or one that does not define a variable, a forward-looking variable in the constraint, lagged variables in an observable, or a shock or variable that occurs in no equation is rejected with an error when it is read; it is never solved silently as a different model.",
  ["programs", "inputs"], "for every model file",
  "the space of malformed model files cannot be sampled meaningfully",
  ["parser.py"], [("model parser", "parser.py:DSGE.parse,DSGE.__init__"), ("matrix compiler", "parser.py:DSGE.get_matrices")])
p("C26", "Equations are split into lead, current, lag and shock terms without loss",
  "The coefficient of a variable dated one period ahead, today or one period back and of each shock goes to the matrix of that date with the documented sign, at the row of its equation and the column of its variable, for ordinary equations, the constraint and the observation equations. Steady-state constants of observables, the shock covariance entries and the parameter order of all compiled functions follow the declared orderings.",
  ["programs", "inputs"], "for every model file and parameter vector",
  "a mis-dated or mis-signed entry only matters in models that contain such a term",
  ["parser.py"], [("matrix compiler", "parser.py:DSGE.get_matrices")])
p("C27", "Longer lags and leads are represented exactly by auxiliary variables",
  "A variable with lag or lead longer than one period is replaced, for every longer distance in between, by an auxiliary variable defined as the one-period lag or lead of the next closer one, so that the k-period lag or lead in the user's equation is exactly the k-period shifted variable. Time shifting of symbols adds dates and preserves names and identity.",
  ["programs"], "for every model with lags or leads of any length",
  "only lengths of two occur in the examples",
  ["parser.py", "symbols.py"], [("auxiliary equations", "parser.py:DSGE.__init__,DSGE.parse"), ("time shift", "symbols.py:TSymbol.__call__")])
p("C28", "Derived parameters and compiled functions use matching argument orders",
  "Every function compiled from symbolic expressions is called with values in the order of the symbols it was compiled with: derived parameters are evaluated from the calibrated ones before being appended to them, and names, values, prior positions and orderings of parameters, derived parameters, shocks and observables stay aligned. Memoised evaluations of user functions are keyed by everything the result depends on: the function and all its arguments.",
  ["programs", "inputs", "histories"], "for every model and sequence of evaluations",
  "misalignment shows only in models whose orderings differ from the examples",
  ["parser.py", "gensys.py", "mpile.py"], [("compiled functions", "parser.py:DSGE.get_matrices"), ("parameter vector", "gensys.py:gen_sys_from_yaml")])
p("C29", "Parallel mapping preserves order and every item",
  "Impulse responses, simulations and extractions that distribute work over a pool distribute every input and collect the results in the order of the inputs, one per input, exactly as the serial run does. Without a pool, or in debug mode, the serial mapping is used; re-creating a pool closes the old one, keeps its number of workers unless another is asked for, and starts with fresh workers.",
  ["schedules", "configurations"], "for every pool size and worker schedule",
  "tests use no pool or one schedule",
  ["estimation.py", "filtering.py", "tools.py", "clsmethods.py", "mpile.py", "stats.py"], [("pool", "estimation.py:create_pool,mapper"), ("mapped work", "filtering.py:extract, tools.py:irfs,simulate, stats.py:nhd")])
p("C30", "Derived tables are never used after the solution they derive from changed",
  "Whenever the solution matrices are recomputed, tables computed from an earlier solution are recomputed or discarded before they are used again, so trajectories and regime maps always belong to the current parameters and their rows to the requested durations.",
  ["histories"], "for every interleaving of setting parameters and requesting trajectories",
  "needs a change of parameters between two requests",
  ["engine.py", "gensys.py", "tools.py"], [("trajectory tables", "engine.py:preprocess_tmats"), ("users", "tools.py:traj,k_map")])
p("C31", "Extraction pairs every sample and draw with its own filter run, seed and shocks",
  "Extracting smoothed shocks runs, for every pair of parameter vector and draw, the filter with that vector's parameters (and the requested maximal durations), that draw's seed and the given initial covariance. Shocks of the linear filter are those that lead from each replayed state to the next smoothed state, replayed linearly; otherwise observables and states of that run are matched starting from its own initial states, failed attempts are repeated with another seed up to the limit, and then fail with an error unless failures are accepted. Parameters, initial states, shocks and flags come back in the same order, a single result labelled with the data's periods and the shocks' names.",
  ["inputs", "histories", "fault_sequences"], "for every sample, data set and retry history",
  "retries and failures occur only for rare samples",
  ["filtering.py"], [("extraction", "filtering.py:extract,get_eps_lin")])
p("C32", "Everything the package refers to exists",
  "Every name, imported module, model attribute, metadata entry and numpy function the package refers to exists in the package or in its installed dependencies, and every call of a function of the package passes arguments that its signature accepts, on all paths including options that are rarely used.",
  ["programs", "configurations"], "for every path through every public operation",
  "rarely used options are never executed by tests",
  ["*.py"], [("all modules", "*.py")])
p("C33", "The variance decomposition compares each shock with its absence, all else equal",
  "The generalised forecast error variance decomposition draws periods without replacement using the given seed. For every drawn period the model is put at that period's parameter vector (if one is given), and for every shock the path that the shock of the period's realised size starts from the previous state is compared, at the requested horizon, with the path from the same state without the shock, under the same linearity option. Squared differences are accumulated over draws, normalised to sum to one over shocks for every variable, and labelled by the model's shocks and variables in order.",
  ["inputs", "histories"], "for every sample, horizon and subset of draws",
  "a mismatch of state, parameters or label only shows with several samples and shocks",
  ["stats.py"], [("decomposition", "stats.py:gfevd")])
p("C34", "Names are translated into the right positions and labels",
  "Looking up variables or observables returns, for a single name or each name of a list in order, its position among the model's variables or observables; a name the model does not have is an error unless skipping was requested, in which case exactly the unknown names are left out. Trace and posterior plots receive the parameter chain together with the names of the estimated parameters and the number of samples after tuning (for traces only when the chain is the model's own), and pass on all further options.",
  ["inputs"], "for every list of names and every chain",
  "wrong positions and labels produce plausible output",
  ["clsmethods.py"], [("lookups", "clsmethods.py:vix,oix"), ("plots", "clsmethods.py:traceplot_m,posteriorplot_m")])
p("C35", "Prior draws come from the model's prior and pass the requested check",
  "Sampling from the prior uses the prior distributions frozen at estimation setup, or else those built from the model's prior. With the likelihood check (which prepares the estimation if that has not happened) a draw is accepted by the posterior evaluated at the untransformed draw; otherwise, unless switched off, by whether the parameters have a model solution. The number of draws and all further options reach the sampler unchanged, and a process pool is recreated before its workers evaluate the check.",
  ["inputs", "histories", "configurations"], "for every prior, option and preceding history",
  "the checks differ only for draws without a solution or likelihood",
  ["mpile.py"], [("sampler", "mpile.py:prior_sampler")])
p("C36", "Posterior summaries and data densities use the tuned draws and their densities",
  "Posterior summaries, posterior means, exported posteriors and marginal data densities are computed from exactly the last tuned part of the chain, or from the chain and densities passed in; draws and log-densities cover the same iterations. The tuning length given takes precedence over the one of the model. The method requested for the marginal data density is the one used and unknown methods are rejected; exported draws are labelled with the names of the estimated parameters and written under the model's own path unless another is given.",
  ["inputs", "histories"], "for every chain, tuning length, method and preceding history",
  "a shifted or untuned sample changes the numbers only, and no test runs the sampler",
  ["stats.py", "clsmethods.py"], [("data density", "stats.py:mdd"), ("summary", "clsmethods.py:mcmc_summary"), ("export", "clsmethods.py:posterior2csv"), ("mean", "stats.py:post_mean")])
p("C37", "Reports on bounds and the model description say what the model holds",
  "Checking a parameter vector against the bounds reports exactly the estimated parameters that lie below their lower or above their upper bound, with value and bound, using the current estimated values by default. The model's description lists its own title, date, description and, if a chain exists, its dimensions and tuning length.",
  ["inputs", "configurations"], "for every model, parameter vector and history",
  "no test looks at reports, and errors show up only for parameters beyond their bounds or models without a chain",
  ["mpile.py", "clsmethods.py"], [("bounds", "mpile.py:box_check"), ("description", "clsmethods.py:info_m")])
# ---- not decidable statically
p("C40", "The linear solution is the unique stable rational-expectations solution",
  "For a determinate model the computed linear decision rule is the unique non-explosive solution, and indeterminate or explosive models are rejected.",
  ["inputs", "programs"], "for every model and parameter vector", "eigenvalue counts vary with the parameters",
  ["gensys.py"], [("linear solution", "gensys.py:gen_sys")])
p("C41", "The filter likelihood equals the model's likelihood",
  "The likelihood returned by the filters equals (linear case) or converges to (ensemble case) the likelihood of the data under the model.",
  ["inputs"], "for every data set and parameter vector", "requires an exact reference for every input",
  ["filtering.py"], [("filters", "filtering.py:run_filter")])
p("C42", "Sampling converges to the posterior distribution",
  "The Markov chain has the posterior as its stationary distribution and the reported summaries converge to posterior moments.",
  ["inputs", "histories"], "for every model and run length", "asymptotic statement",
  ["mcmc.py"], [("sampler", "mcmc.py:mcmc")])
p("C43", "Extracted shocks reproduce the data",
  "Simulating the extracted shocks from the extracted initial state reproduces the observed data up to measurement error.",
  ["inputs"], "for every data set", "depends on numeric optimisation",
  ["filtering.py", "tools.py"], [("extraction", "filtering.py:extract")])
p("C44", "A crash during sampling loses at most the current step",
  "If the process dies at any point of a sampling run, all completed steps can be read back from the backend file.",
  ["crash_points"], "for every crash point", "crash points are inside external libraries",
  ["mcmc.py"], [("backend file", "mcmc.py:mcmc")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P))
