import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None)))
p("C01","Splitting, merging and packaging resources conserves total quantity",
 "Extracting a quantity q (0 <= q <= quantity) from a material or product leaves the source with exactly its old quantity minus q and yields a resource holding exactly q; absorbing another (different) resource adds its whole quantity to the receiver and leaves the other at zero; package extraction and splitting into packages conserve the total in the same way. Quantities never become negative (beyond the resource tolerance), cloning and transmuting leave quantities unchanged, and an operation that is refused with an error (over-extraction, mixing product qualities) leaves every resource involved exactly as it was.",
 ["inputs","histories"],"every sequence of create/extract/absorb/package/transmute/clone operations on any quantities and compositions",
 "The unit tests check a handful of fixed quantities (e.g. test_qty, half of it); they cannot cover all quantities, ordering of operations, zero and equal quantities, or every error path.",
 ["src/material.cc","src/product.cc","src/resource.h"],
 [("Material::ExtractComp/ExtractQty/Absorb/PackageExtract/Transmute/Clone","src/material.cc"),("Product::Extract/Absorb/PackageExtract/Clone","src/product.cc"),("Resource::Package","src/resource.h")],
 [("qty_","quantity held by a material","src/material.h"),("quantity_","quantity held by a product","src/product.h")],["quantity() of every resource before and after the call"])
p("C02","Mixing and separating materials conserves every nuclide's mass",
 "After one material absorbs another, the mass of every nuclide in the receiver equals the sum of that nuclide's masses in the two materials before; after extracting a quantity of a given composition, the mass of every nuclide left equals the old mass minus the extracted mass (entries no larger than the given threshold may be dropped), and the extracted material has exactly the requested composition. Extraction by quantity alone, and packaging, leave the composition of source and result identical. A composition that would need a negative amount of a nuclide is refused and the material is unchanged.",
 ["inputs","histories"],"all pairs of compositions (any nuclides, any unnormalised values), quantities and thresholds",
 "Tests use two or three fixed compositions with a few nuclides; the per-nuclide balance must hold for every nuclide map and quantity, including nuclides present in only one material and unnormalised compositions.",
 ["src/material.cc","src/comp_math.cc","src/composition.cc"],
 [("Material::Absorb / ExtractComp","src/material.cc"),("compmath::Add/Sub/Normalize/ApplyThreshold","src/comp_math.cc"),("Composition::CreateFromMass","src/composition.cc")],
 [("comp_","composition of a material","src/material.h")],["comp()->mass() scaled to quantity()"])
p("C03","Composition arithmetic is exact per nuclide and bases are consistent",
 "Adding or subtracting compositions acts independently and exactly on every nuclide, summation returns the total over all nuclides, normalising to a value makes the entries sum to that value while preserving all ratios (and leaves an all-zero composition alone), and applying a threshold removes exactly the entries whose magnitude does not exceed it. Compositions with an invalid nuclide or a negative amount are refused; the mass and atom forms of a composition contain the same nuclides and are related by the atomic mass. Approximate equality is symmetric, compares nuclide sets and relative differences against the threshold, and rejects a negative threshold.",
 ["inputs"],"all finite nuclide maps, all thresholds and normalisation targets",
 "Tests exercise maps with two to four fixed nuclides; the laws quantify over all maps, including missing keys, zero and negative entries, and zero sums.",
 ["src/comp_math.cc","src/composition.cc","src/cyc_arithmetic.cc"],
 [("compmath::Add/Sub/Sum/Normalize/ApplyThreshold/AllPositive/ValidNucs/AlmostEq","src/comp_math.cc"),("CycArithmetic::KahanSum","src/cyc_arithmetic.cc"),("Composition::CreateFromAtom/CreateFromMass/atom/mass","src/composition.cc")])
p("C04","Every tracked resource change is recorded with fresh id and true parents",
 "Whenever a tracked resource is created, split, combined, transmuted or (re)packaged, a Resources row is recorded for each resource that results with a positive quantity, carrying its current quantity, type, units, quality, package, object id and the current time, under a state id that no other recorded state has; its parents are the state ids the resource had (and, when combining, that the absorbed one had) just before the change, and 0 for none. Creation additionally records the creator. Resources marked untracked (clones, untracked creations, and anything split off from them) never record anything.",
 ["inputs","histories"],"every history of create/extract/absorb/transmute/package/clone operations over tracked and untracked resources",
 "Tests look at a few parent/child pairs after single operations; provenance must be right after every history, and for every mix of tracked and untracked resources.",
 ["src/res_tracker.cc","src/resource.cc","src/material.cc","src/product.cc"],
 [("ResTracker::Create/Modify/Extract/Absorb/Package/Record","src/res_tracker.cc"),("Resource::BumpStateId","src/resource.cc"),("calls on tracker_","src/material.cc, src/product.cc")],
 [("parent1_/parent2_","state ids of the parents","src/res_tracker.h"),("state_id_","current state id","src/resource.h")],["Resources, ResCreators, MaterialInfo, Compositions rows delivered to a recorder backend"])
p("C05","Resource buffers account exactly, keep FIFO order and respect capacity",
 "A resource buffer's reported quantity always equals the sum of the quantities it holds, its count the number of objects it holds, its space max(0, capacity - quantity), and it never holds the same object twice nor accepts a resource larger than its free space (beyond the resource tolerance). Pops return the oldest resources first (pop-back: the newest) and remove exactly what they return; popping a quantity returns exactly that quantity in push order, splitting only the last resource taken. A push or pop that is refused (over capacity, duplicate or wrong type, too large, negative or excessive count, empty buffer) and a refused capacity change leave the buffer and the resources unchanged; a bulk buffer merges everything pushed into one object, and unless told to keep packaging the buffer strips it.",
 ["inputs","histories"],"every sequence of pushes (single, vector), pops (by quantity, count, single, back), peeks and capacity changes on buffers of materials or products, bulk or not",
 "Tests run short scripted sequences on two or three materials; representation invariants have to survive every interleaving of operations and every quantity, including partial splits, zero-quantity objects and failures half-way.",
 ["src/toolkit/res_buf.h","src/toolkit/res_manip.cc"],
 [("ResBuf<T>::Push/Pop/PopVector/PopN/PopBack/Peek/capacity/UpdateQty","src/toolkit/res_buf.h"),("Squash","src/toolkit/res_manip.cc")],
 [("rs_/rs_present_","objects in the buffer, in order, and as a set","src/toolkit/res_buf.h"),("qty_","cached total","src/toolkit/res_buf.h")],["quantity(), count(), space(), and what the pops return"])
p("C06","Package and transport-unit fills stay within limits and availability",
 "For every package type and available quantity, each fill mass returned lies between the package's minimum and maximum fill (within tolerance), the fills together never exceed the available quantity, less than one minimum fill yields nothing, and what is left over cannot form another admissible package. Strategy first fills every package but the last to the maximum, strategy equal fills all packages equally whenever the whole quantity fits. The number of packages a transport unit reports as shippable is never negative and never exceeds the number available, is zero below its minimum fill, equals the number available for the unrestricted unit, can be arranged into transport units each within its fill limits, and under strategy hybrid is everything whenever everything can be arranged so. Package and transport-unit definitions with negative limits, minimum above maximum, or an unknown strategy are refused.",
 ["inputs","configurations"],"all fill limits, strategies and available quantities/counts",
 "Tests try a few fixed fill limits and quantities per strategy; the guarantee is arithmetic over all of them, including limits of zero and quantities at and around the boundaries.",
 ["src/package.cc","src/package.h"],
 [("Package::Create/GetFillMass","src/package.cc"),("TransportUnit::Create/GetTransportUnitFill/MaxShippablePackages","src/package.cc")])
p("C07","Every recorded datum reaches every backend exactly once, in order, intact",
 "For any sequence of recorded data and any buffer (dump) size, each registered backend receives every recorded datum exactly once and in recording order, by the time the recorder is flushed, closed or destroyed; the title, the fields in the order added, their values and shapes are those given, and the simulation id is the first value exactly when injection is on. A datum's contents never leak into another datum that reuses its buffer slot, and a backend receives nothing after close.",
 ["inputs","histories","configurations"],"all sequences of NewDatum/AddVal/Record/Flush/Close calls, all dump counts and numbers of backends",
 "Tests check a few datums around one or two dump counts with one or two backends; exact-once delivery depends on how the number of data relates to the buffer size and to flush points in every history.",
 ["src/recorder.cc","src/datum.cc","src/recorder.h","src/datum.h"],
 [("Recorder::NewDatum/AddDatum/Flush/NotifyBackends/Close/set_dump_count","src/recorder.cc"),("Datum::AddVal/Record","src/datum.cc")],
 [("data_/index_","buffer slots and number in use","src/recorder.h"),("backs_","registered backends","src/recorder.h")],["RecBackend::Notify arguments"])
p("C08","The timer runs every phase once per step and honours the schedules",
 "A simulation advances the time by exactly one per step from its start (or branch time) until its duration, or until killed at the end of the current step, and in each step performs build, tick, resource exchange, tock, decision and decommission in that order, calling every registered listener's tick, tock and decision exactly once (decisions in order of agent id). Every agent scheduled to be built at a future time is built once, at exactly that time, with the given prototype and parent and in scheduling order; every agent scheduled for decommissioning is decommissioned once, at exactly the last time it was scheduled for. Scheduling a build for a time not in the future or a decommissioning in the past is refused and schedules nothing, and the finish record states the last time step run and whether the run was killed.",
 ["inputs","histories","schedules"],"all durations, sets of listeners, and build/decommission schedules including repeated and same-time scheduling",
 "Tests run a few steps with one listener type; exactness of the schedule is a whole-history property over arbitrary schedules.",
 ["src/timer.cc","src/timer.h","src/context.cc"],
 [("Timer::RunSim/DoBuild/DoTick/DoTock/DoDecision/DoDecom/SchedBuild/SchedDecom/(Un)RegisterTimeListener/Initialize","src/timer.cc"),("Context::SchedBuild/SchedDecom","src/context.cc")],
 [("time_","current time step","src/timer.h"),("build_queue_/decom_queue_","scheduled builds and decommissionings","src/timer.h"),("tickers_/cpp_tickers_/py_tickers_","registered listeners","src/timer.h")],["calls received by listeners; AgentEntry, AgentExit, Finish rows"])
p("C09","Agent tree, lifecycle records and simulation registries stay consistent",
 "An agent's parent and the parent's set of children always agree: building under a parent adds exactly that link, an agent can never be its own child, destroying an agent removes it from its parent and leaves its children parentless, and ancestor/descendant queries agree with the parent links. Building records one entry row with the agent's id, parent, lifetime and entry time and counts it under its prototype and spec; decommissioning records one exit row at the current time, reverses the counts and destroys the agent; ids are never reused, and the lifetime of a built agent cannot be changed by the ordinary setter. Registered prototypes, recipes, packages and transport units are returned by their name and only by it, unknown names and duplicate prototype/package/transport-unit names are refused without altering the registry, and each registration is recorded.",
 ["inputs","histories"],"all sequences of build, connect, destroy, decommission and registration calls over any tree shape and names",
 "Tests build chains of two or three agents and look at one registry entry; consistency must hold for every tree shape and order of destruction.",
 ["src/agent.cc","src/agent.h","src/context.cc","src/context.h"],
 [("Agent::Connect/Build/Decommission/~Agent/AncestorOf/DecendentOf/lifetime","src/agent.cc"),("Context::AddPrototype/CreateAgent/DelAgent/AddRecipe/GetRecipe/AddPackage/GetPackage/AddTransportUnit/GetTransportUnit","src/context.cc, src/context.h")],
 [("parent_/children_","family links","src/agent.h"),("protos_/recipes_/packages_/transport_units_/agent_list_","registries","src/context.h")],["parent(), children(), AgentEntry/AgentExit rows, registry getters"])
p("C10","Greedy exchange solutions are feasible and respect exclusivity",
 "For every exchange graph, the matches produced by the greedy solver use only arcs of the graph with positive amounts, never give a request group more than its requested quantity, a request or bid node more than its own quantity, nor a supply group more than any of its capacities (within tolerance), whatever the preferences. A match on an exclusive arc is for exactly the arc's exclusive amount (the exclusive side's quantity when the other side can take it, otherwise no trade). Less-preferred arcs of a node are only used once more-preferred ones have been tried, and unlimited capacities stay unlimited.",
 ["inputs"],"all exchange graphs: any groups, nodes, arcs, quantities, unit capacities, preferences and exclusivity flags",
 "Tests solve about twenty hand-made graphs; feasibility is a claim over all graphs and capacity vectors.",
 ["src/greedy_solver.cc","src/exchange_graph.cc","src/exchange_graph.h","src/greedy_preconditioner.cc"],
 [("GreedySolver::GreedilySatisfySet/Capacity/UpdateCapacity/GetCaps/SolveGraph","src/greedy_solver.cc"),("Arc::Arc, ExchangeGraph::AddArc/AddMatch","src/exchange_graph.cc")],
 [("grp_caps_/n_qty_","remaining group capacities and matched node quantities","src/greedy_solver.h")],["ExchangeGraph::matches()"])
p("C11","Requests and bids map one-to-one onto the exchange graph and back",
 "Translating an exchange creates exactly one node per request and per bid, carrying the requested or offered quantity, exclusivity, commodity and agent, in a group with all of its portfolio's constraints (for requests including the total quantity), and one arc per bid on a request whose adjusted preference is positive; negative-preference pairs get no arc. The capacity coefficients on each arc are the constraint conversions of the offer per unit of offer, and translating a match back yields the request, bid and amount it came from. Portfolios refuse requests or bids from a second trader and, for bids, a second commodity where required; a request portfolio's quantity is the sum of its requests with each group of mutual requests counted once.",
 ["inputs"],"all sets of request and bid portfolios, constraints, converters and preferences",
 "Tests translate single requests and bids; the bijection and the coefficients must be right for any number of portfolios, constraints and mutual requests.",
 ["src/exchange_translator.h","src/request_portfolio.h","src/bid_portfolio.h","src/exchange_context.h"],
 [("ExchangeTranslator<T>::Translate/AddArc, TranslateRequestPortfolio, TranslateBidPortfolio, TranslateArc, TranslateCapacities, BackTranslateMatch","src/exchange_translator.h"),("RequestPortfolio<T>::AddRequest/AddMutualReqs/AddConstraint","src/request_portfolio.h"),("BidPortfolio<T>::AddBid","src/bid_portfolio.h"),("ExchangeContext<T>::AddRequestPortfolio/AddBidPortfolio","src/exchange_context.h")])
p("C12","Each agreed trade is executed, recorded and delivered exactly once",
 "Executing a set of trades asks each supplier exactly once for exactly the trades agreed with it, and delivers every response to the requester of its trade exactly once, with the resource the supplier provided for it. One transaction row is recorded per response of positive quantity, with a transaction id never used before, the sender and receiver of that trade, the resource's state id, the commodity and the current time; nothing is recorded for empty responses.",
 ["inputs","histories"],"all sets of trades between any suppliers and requesters, including several trades between one pair and an agent trading with itself",
 "Tests execute two or three trades; the bookkeeping must be exact for every multiset of trades.",
 ["src/trade_executor.h","src/trader_management.h"],
 [("TradeExecutor<T>::ExecuteTrades/RecordTrades, GroupTradesBySupplier, GetTradeResponses, SendTradeResources","src/trade_executor.h")],
 [("trades_by_supplier/trades_by_requester/all_trades","trades sorted by trader","src/trade_executor.h")],["GetMatlTrades/AcceptMatlTrades arguments; Transactions rows"])
p("C13","Enrichment arithmetic balances mass, fissile mass and separative work",
 "For all feed, product and tails assays with tails < feed <= product, the computed feed quantity equals product plus tails quantity, and fissile mass balances (feed quantity x feed assay = product x product assay + tails x tails assay); all quantities are linear in the product quantity. Separative work equals product times value(product assay) plus tails times value(tails assay) minus feed times value(feed assay), and the value function is refused outside [0,1). The uranium assay of a material is the ratio of U-235 to U-235 plus U-238 on the stated basis, zero when there is none, and the uranium quantity is the mass of those two nuclides.",
 ["inputs"],"all admissible assays, product quantities and materials",
 "Tests evaluate one set of assays; the balances are identities over all real inputs.",
 ["src/toolkit/enrichment.cc","src/toolkit/mat_query.cc"],
 [("FeedQty/TailsQty/SwuRequired/ValueFunc/UraniumAssayAtom/UraniumAssayMass/UraniumQty","src/toolkit/enrichment.cc")])
p("C14","Symbolic functions and commodity supply totals compute what they state",
 "A linear or exponential function returns slope*x+intercept or constant*exp(exponent*x)+intercept; a piecewise function is zero before its first piece and elsewhere equals the piece with the greatest start not exceeding x, evaluated relative to that start plus its offset, with pieces appended only at increasing starts and continuous pieces joining without a jump. The supply of a commodity is the sum over all registered managers of the capacities of their registered producers that produce it, a producer's capacity and cost are those last set, and unregistered producers or managers contribute nothing. Registering and unregistering are idempotent and affect only the item named.",
 ["inputs","histories"],"all coefficients, breakpoints, x, and all histories of registrations and capacity settings",
 "Tests evaluate a few points of fixed functions and one or two producers; correctness is over all arguments and histories.",
 ["src/toolkit/symbolic_functions.cc","src/toolkit/symbolic_function_factories.cc","src/toolkit/commodity_producer.h","src/toolkit/commodity_producer_manager.cc","src/toolkit/supply_demand_manager.cc"],
 [("LinearFunction/ExponentialFunction/PiecewiseFunction::value","src/toolkit/symbolic_functions.cc"),("PiecewiseFunctionFactory::AddFunction","src/toolkit/symbolic_function_factories.cc"),("CommodityProducer, CommodityProducerManager::TotalCapacity, SupplyDemandManager::Supply","src/toolkit/")])
p("C15","Random draws respect their bounds and are reproducible from the seed",
 "Every draw from a bounded distribution lies within its stated bounds, every fixed distribution returns its value, and distribution accessors report the parameters given; distributions with inverted bounds or invalid parameters are refused. Two runs initialised with the same seed and making the same calls obtain identical draws.",
 ["inputs","histories"],"all distribution parameters, seeds and call sequences",
 "Tests draw a few numbers at one seed; bounds and reproducibility must hold for every seed, parameter and number of draws.",
 ["src/random_number_generator.h","src/random_number_generator.cc"],
 [("RandomNumberGenerator::random_*","src/random_number_generator.cc"),("IntDistribution/DoubleDistribution subclasses","src/random_number_generator.h")])
p("C16","Buy and sell policies never request, offer or ship beyond their limits",
 "A material buy policy requests nothing while dormant or above its reorder point, and otherwise requests in total no more than its throughput, the free space of its buffer and shared inventory limit, its fill level and its remaining cumulative capacity allow; quantized requests are whole multiples of the quantum. A sell policy never offers more than its buffer holds or its throughput allows in total to be taken, bids in whole quanta when quantized, only on commodities it was given, and respects its package and transport-unit limits; what it ships for a trade is taken from its buffer, with quantity conserved. Material received is pushed to the buffer and counted toward the cumulative capacity.",
 ["inputs","histories","configurations"],"all policy configurations, buffer contents, times and trade histories",
 "Tests run a handful of configurations; the limits must hold for every configuration and at every step of every history.",
 ["src/toolkit/matl_buy_policy.cc","src/toolkit/matl_buy_policy.h","src/toolkit/matl_sell_policy.cc","src/toolkit/total_inv_tracker.h"],
 [("MatlBuyPolicy::GetMatlRequests/TotalAvailable/MakeReq/NReq/ReqQty/AcceptMatlTrades","src/toolkit/matl_buy_policy.*"),("MatlSellPolicy::Limit/GetMatlBids/GetMatlTrades","src/toolkit/matl_sell_policy.cc"),("TotalInvTracker","src/toolkit/total_inv_tracker.h")])
p("C17","Keyed resource stores and inventory totals always equal their contents",
 "A keyed resource store behaves as a map: a key returns the resource last stored under it, popping or erasing removes exactly the named entries and nothing else, popping an absent key is refused without change, and the reported quantity is always the sum of the quantities of the resources currently stored. Saving the stored resources together with their object ids and loading them back restores every resource under its key. An inventory tracker's quantity, capacity and space are the sum of its buffers' quantities, the smaller of the summed buffer capacities and its own limit, and the non-negative difference; setting a limit below the current quantity is refused.",
 ["inputs","histories"],"all histories of insertions, assignments, erasures, pops and in-place changes; all buffer sets and limits",
 "Tests exercise one store of three resources; cached totals must stay right across every history of mutations.",
 ["src/toolkit/res_map.h","src/toolkit/total_inv_tracker.h"],
 [("ResMap<K,R>","src/toolkit/res_map.h"),("TotalInvTracker","src/toolkit/total_inv_tracker.h")],
 [("dirty_quantity_","cached total is stale","src/toolkit/res_map.h")])
p("C18","Nuclide identifiers convert losslessly between naming schemes",
 "For every nuclide (atomic number, mass number, metastable state) the canonical integer id is formed as ZZZAAASSSS, conversions from the canonical id to each supported scheme and back return the same id, and atomic number, mass number and state are recovered exactly; identifiers that are not nuclides are recognised as such.",
 ["inputs"],"all nuclides with Z up to 118, all mass numbers and metastable states supported by each scheme",
 "Tests convert a dozen nuclides; losslessness is a claim over the whole range.",
 ["src/pyne.cc"],[("pyne::nucname::id/znum/anum/snum/zzaaam/zzzaaa/mcnp/serpent/isnuclide","src/pyne.cc")])
p("C19","A restarted simulation resumes with the recorded state and unused ids",
 "A snapshot records the next agent, transaction, composition, resource-state, resource-object and product-quality ids as they are, and restoring it from the output database makes every id handed out afterwards new with respect to that history; simulation info, recipes, prototypes, packages, agents and their parent links, scheduled builds and decommissionings in the future, and agent inventories are restored as they were at the snapshot time.",
 ["histories","crash_points"],"every simulation history and every snapshot time within it",
 "Tests restart one tiny simulation at one time; the restored state must equal the snapshot for every history.",
 ["src/sim_init.cc"],[("SimInit::Snapshot/Init/Restart/Branch/LoadNextIds/Load*","src/sim_init.cc")])
p("C20","Data written through a storage backend read back unchanged",
 "Every datum of any supported type and shape written through the SQLite or HDF5 backend is returned by a query unchanged, and a query with conditions returns exactly the rows that satisfy all of them.",
 ["inputs","histories"],"all datum types, shapes, values and query conditions",
 "Tests write one or two rows per type; round-trips must hold for all values and shapes.",
 ["src/sqlite_back.cc","src/hdf5_back.cc","src/query_backend.h"],[("SqliteBack::Notify/Query","src/sqlite_back.cc"),("Hdf5Back::Notify/Query","src/hdf5_back.cc")])
p("C21","Decay conserves atoms along chains and is independent of step splitting",
 "Decaying a material for a time and then for a further time gives the same composition as decaying it for the total time, never yields negative amounts and never changes the material when decay is switched off.",
 ["inputs","histories"],"all compositions and decay times",
 "Tests decay fixed compositions for a few times.",
 ["src/composition.cc","src/material.cc","src/decayer.cc"],[("Composition::Decay/NewDecay","src/composition.cc"),("Material::Decay","src/material.cc")])
p("C22","Input files are read into exactly the simulation they describe",
 "An input file accepted by validation creates exactly the recipes, packages, prototypes, agents and control parameters it describes, and anything else is refused with an error before the simulation starts; XML, JSON and Python forms of the same input are equivalent.",
 ["inputs"],"all input files",
 "Tests load a few example files.",
 ["src/xml_file_loader.cc","src/xml_flat_loader.cc","src/infile_tree.cc","src/relax_ng_validator.cc"],[("XMLFileLoader::LoadSim","src/xml_file_loader.cc")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
