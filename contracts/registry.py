"""which contracts, sources and harnesses decide which property"""
COMMON_ASSUMPTIONS = [
    "doubles are treated as mathematical reals (rounding is not modelled; the harness compares with a relative tolerance)",
    "signed integers are mathematical integers (overflow not modelled); unsigned subtraction and signed-to-unsigned conversion wrap",
    "standard library, boost and smart-pointer operations behave as modelled in cyvc/stdmodel.py",
    "logging macros and stream insertions have no effect on program state",
    "the sources compile as dumped by clang 18 (same preprocessor configuration as the build)",
]
RES = ["material.cc", "product.cc", "res_tracker.cc", "resource.cc", "composition.cc", "comp_math.cc", "cyc_arithmetic.cc",
        "context.cc", "package.cc", "drivers/inst.cc"]
PROPS = {
    "C03": dict(contracts=["compmath"], srcs=["comp_math.cc", "composition.cc", "cyc_arithmetic.cc"], harness=["c03"],
        note="13 functions (compmath, KahanSum, Composition forms) proved over all maps; doubles as reals; pyne lookups assumed"),
    "C01": dict(contracts=["resources"], srcs=RES, harness=["c01"],
        note="Material/Product split, merge, package and clone operations and the tracker they call, proved for all quantities; decay physics, virtual dispatch and recorder assumed"),
    "C02": dict(contracts=["resources"], srcs=RES, harness=["c02"],
        note="per-nuclide masses through Absorb/ExtractComp/Transmute/Decay proved over all compositions on top of the C03 contracts"),
    "C04": dict(contracts=["resources"], srcs=RES, harness=["c04"],
        note="rows, parents, ids of every tracked operation proved against a ghost log of recorded rows"),
    "C05": dict(contracts=["resbuf"], srcs=["drivers/resbuf.cc", "toolkit/res_manip.cc"], harness=["c05"],
        note="every ResBuf<Material>/ResBuf<Product> operation and Squash proved for all contents (total = sum, distinct, FIFO, capacity, refusals); resource operations through the contracts proved for C01"),
    "C06": dict(contracts=["package"], srcs=["package.cc"], harness=["c06"],
        note="GetFillMass, MaxShippablePackages and the definitions proved for all limits, quantities and strategies; bounds of random draws assumed here (C15)"),
    "C13": dict(contracts=["enrichment"], srcs=["toolkit/enrichment.cc", "toolkit/mat_query.cc", "material.cc", "composition.cc", "comp_math.cc", "cyc_arithmetic.cc"], harness=["c13"],
        note="FeedQty, TailsQty, SwuRequired, ValueFunc, the assays and the material queries proved for all inputs; the balances are closed lemmas over those contracts; log is uninterpreted; materials of a lazily decaying context left to the harness"),
    "C14": dict(contracts=["symfun"], srcs=["toolkit/symbolic_functions.cc", "toolkit/symbolic_function_factories.cc", "toolkit/commodity_producer.cc",
        "toolkit/commodity_producer_manager.cc", "toolkit/supply_demand_manager.cc", "toolkit/commodity.cc"], harness=["c14"],
        note="function values, piecewise construction, producer and manager registries and the totals proved for all inputs; exp is uninterpreted; parameter parsing from strings and CommodityProducer::Copy are bounded (harness)"),
    "C17": dict(contracts=["resmap"], srcs=["drivers/resmap.cc"], harness=["c17"],
        note="every ResMap<int,Material>/ResMap<string,Product> operation except iterator erase, and every TotalInvTracker operation, proved for all contents; entries are assumed non-null (an entry created by reading an absent key is outside the contract)"),
    "C10": dict(contracts=["greedy"], srcs=["greedy_solver.cc", "exchange_graph.cc"], harness=["c10"],
        note="Arc construction, capacity computation and update, the per-group accounts and the matching loop proved for all graphs whose arcs are well formed; float_distance idealised; Init/SolveGraph iteration over groups, the preconditioner and the effect of std::stable_sort on the order are bounded (harness)"),
    "C12": dict(contracts=["trades"], srcs=["drivers/trades.cc"], harness=["c12"],
        note="grouping, collecting, recording and sending proved for Material and Product and any multiset of trades, against a prophecy of the suppliers' responses and ghost logs of questions and deliveries; the traders' own code is assumed; ExecuteTrades' sequencing of the four steps is bounded (harness)"),
    "C15": dict(contracts=["rng"], srcs=["drivers/rng.cc"], harness=["c15"],
        note="bounds, refusals, accessors and dependence of every draw on the generator state alone proved for all parameters and states; boost's generator and distributions are assumed as modelled (token of kind and parameters, draw a function of state and token); termination of redrawing loops not proved; 32-bit truncation of the seed not modelled; Context wrappers bounded (harness)"),
    "C07": dict(contracts=["recorder"], srcs=["recorder.cc", "datum.cc"], harness=["c07"],
        note="slot reuse, contents of data, flush, buffer-full delivery, close and resizing proved for any buffer and any number of distinct backends against a ghost log per backend; backends' own storage is C20; at most the dump count of data open at a time (each NewDatum is recorded before the next) and shape pointers non-null are assumed, null shapes and the destructor are bounded (harness)"),
    "C08": dict(contracts=["timer"], srcs=["timer.cc", "context.cc"], harness=["c08"],
        note="scheduling, listener registration, every phase and the main loop proved for any schedule, set of listeners and duration against ghost logs of what agents are told; agents are assumed not to change the set of listeners within a phase nor to write the clock; DoTock's explicit inventory records and parallel (OpenMP) phases are outside; that an agent is queued for decommissioning at most once is an invariant kept by SchedDecom"),
    "C09": dict(contracts=["agents"], srcs=["agent.cc", "context.cc", "institution.cc", "region.cc", "facility.cc"], harness=["c09"],
        note="construction, connection, destruction, ancestor queries, lifetime, entry and exit with their records and counts, and the registries proved for any tree and any names; the ancestor and descendant relations are the ones spanned by the parent and child links (their agreement is checked by the harness); CreateAgent and whatever agents override are bounded or assumed; the reserved names of the built-in package and transport unit are outside"),
}
NOT_APPLICABLE = {
    "C11": "not built: the translation runs over templates parameterised on Resource with preference maps of maps; the contracts written for its graph half (C10) do not reach the context half, and no stand-in is claimed for it",
    "C16": "not built: the policies' decisions depend on random distributions and on DRE objects whose lifetime spans time steps; only the capacity and trade halves (C05, C12) are under contract",
    "C18": "not built: nucname is ~2,000 lines of string and table code over static maps filled before main, whose contents no contract within reach states",
    "C19": "not built: a restart is decided by queries against a stored database and by dynamically loaded agents, neither of which has a body within reach of the verifier",
    "C20": "the deciding code is SQL/HDF5 library calls and C-level byte layout (sqlite3, HDF5 C API): no contract within reach of the verifier expresses what those libraries store",
    "C21": "the decay solver (cram.c) is generated code absent from this tree's build; its matrix-exponential arithmetic is outside any contract this verifier can decide",
    "C22": "behaviour is decided by libxml2/RELAX NG validation and dynamically loaded agents, which have no body or contract within reach",
}
