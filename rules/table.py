from . import report, names, extract, parse, decomp, filt, quiet, params, system, estim, sim, engine, races, purity, data, cache

RULES = {
    "C36": report.c36, "C37": report.c37,
    "C33": report.c33, "C34": report.c34, "C35": report.c35,
    "C15": cache.c15, "C29": extract.c29, "C32": names.c32, "C31": extract.c31,
    "C25": parse.c25, "C26": parse.c26, "C27": parse.c27, "C28": parse.c28,
    "C24": decomp.c24, "C21": filt.c21, "C09": quiet.c09, "C19": data.c19, "C17": data.c17, "C18": data.c18, "C20": data.c20, "C16": data.c16,
    "C07": purity.c07, "C08": purity.c08,
    "C01": estim.c01, "C02": estim.c02, "C03": estim.c03,
    "C10": engine.c10, "C11": engine.c11, "C12": engine.c12, "C13": races.c13, "C22": sim.c22, "C23": sim.c23, "C30": engine.c30,
    "C04": params.c04, "C05": params.c05, "C06": params.c06, "C14": system.c14,
}

TECH = {
    None: "value-flow (gated SSA) analysis of the source, compared in normal form with a reference semantics",
    "C01": "dataflow ordering and provenance over all paths, exceptional exits included (seed/restore typestate)",
    "C02": "exception-edge dataflow: handlers, dominating guards and values returned on failure",
    "C07": "effect and alias analysis (in-place write sets over allocation sites, attributes at exit)",
    "C08": "effect and alias analysis over the call graph (attributes at exit, in-place write sets)",
    "C09": "non-interference by value-flow: every function compared with itself across verbosity levels",
    "C13": "data-race rules over parallel loops (privatisation, disjoint writes by induction variable) and value-flow comparison with the serial loop",
    "C15": "value-flow and alias analysis of the model cache (key, hit condition, isolation)",
    "C16": "key and path agreement between writers and readers by value-flow analysis",
    "C29": "effect and value-flow analysis of work distribution (items, order, collection)",
    "C30": "staleness (kill) analysis of derived tables and value-flow comparison with a reference semantics",
    "C32": "existence queries over the syntax tree: names, imports, signatures, attributes, dictionary entries",
}

NA = {
    "C40": "uniqueness and stability depend on eigenvalues of matrices computed at run time; no static argument bounds them",
    "C41": "a numerical identity between an external library's output and an integral; nothing in the source text decides it",
    "C42": "an asymptotic statement about random numbers drawn by an external sampler",
    "C43": "depends on the convergence of a numerical optimiser in an external library",
    "C44": "the crash points lie inside h5py and emcee, whose sources are outside this repository",
}
