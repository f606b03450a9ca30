#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python for readability); rewrites it."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    anchors.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})

prop("C01", "Resource operations conserve matter, and failed ones change nothing",
 "Splitting, merging, packaging, cloning, composition-targeted extraction and transmutation of materials and products keep the total quantity and the mass of every nuclide (within round-off and the stated removal threshold), never leave a negative or non-finite quantity, give exactly the amount asked for, and touch no other resource or composition. An operation that is refused (more than is available, a nuclide that is not there, products of different quality) leaves every resource as it was, and an operation that can be carried out is not refused.",
 ["inputs", "histories"], "every sequence of operations over materials and products of any quantity and composition, including amounts equal to, just above and just below what is there and near the tolerance",
 "The unit tests do a handful of operations on round numbers; conservation must survive arbitrary histories, shared compositions and amounts at the tolerance.",
 ["src/material.cc", "src/product.cc", "src/resource.cc", "src/resource.h", "src/toolkit/res_manip.cc", "src/comp_math.cc", "src/package.cc"],
 [("Material::ExtractComp/Absorb/Transmute", "src/material.cc"), ("Product::Extract/Absorb", "src/product.cc"), ("Squash", "src/toolkit/res_manip.cc")])

prop("C02", "The output database records the true lineage of every resource",
 "Every change of a tracked resource adds exactly one row to the resource table, with a fresh state id, the quantity, type, quality (composition) and unit the resource then has, the time it happened and as parents the state ids that the resources involved had just before; a resource is only ever emptied without a row. The creation of a resource by an agent adds one row naming that agent, each composition that a row refers to is listed once with its mass fractions, and nothing is recorded for untracked resources. Tracked resources squashed into one lose their packaging. The time up to which a material has decayed goes with it: a part has that of the whole, a union that of its larger part, a new composition sets it to the present.",
 ["inputs", "histories"], "every sequence of creations, extractions, absorptions, transmutations and packagings by several agents at any times",
 "Lineage only goes wrong for particular orders (parent modified before child recorded, second parent lost, composition recorded twice); tests look at one or two operations.",
 ["src/res_tracker.cc", "src/res_tracker.h", "src/composition.cc", "src/product.cc", "src/material.cc"],
 [("ResTracker::Create/Modify/Extract/Absorb/Package/Record", "src/res_tracker.cc"), ("Composition::Record", "src/composition.cc")], observe_at=["Resources, ResCreators, Compositions, Products, MaterialInfo rows delivered to a recorder backend"])

prop("C03", "Resource buffers keep their contents, order, quantity and capacity",
 "A resource buffer holds exactly what was pushed and not yet popped: it pops oldest first (or newest on request), splits only the last resource to give exactly the quantity asked, reports the quantity, count and space of its contents, keeps or strips packaging and merges bulk contents as configured, and a keyed buffer finds each resource under its key. A push beyond its capacity or of a resource it already holds, a pop of more than it holds and a capacity below its contents are refused and change nothing. A total-inventory tracker reports the sum over its buffers and the space under its own limit.",
 ["inputs", "histories"], "every sequence of pushes, pops, peeks and capacity changes on bulk and discrete, material, product and mixed buffers, at any quantities",
 "Buffers are used by all facilities in arbitrary interleavings; tests check fixed short sequences.",
 ["src/toolkit/res_buf.h", "src/toolkit/res_map.h", "src/toolkit/total_inv_tracker.h", "src/toolkit/res_manip.cc"],
 [("ResBuf::Push/Pop/PopVector/PopN/PopBack", "src/toolkit/res_buf.h"), ("ResMap", "src/toolkit/res_map.h"), ("TotalInvTracker", "src/toolkit/total_inv_tracker.h")])

prop("C04", "Package and transport-unit fills obey their limits and strategy",
 "Splitting a quantity into packages gives fills that are each between the minimum and maximum of the package type (within tolerance), never sum to more than the quantity, and leave unpackaged only what cannot fill another package; the first strategy fills every package but the last to the maximum, the equal strategy uses equal fills whenever they can take everything, and the random strategies draw every fill while a full package is available. The number of packages that may be shipped with a transport-unit type never exceeds those available, can be divided into units within its limits, and with the hybrid strategy is the largest such number. A resource is only given a package type whose limits it meets.",
 ["inputs"], "every quantity and every package or transport-unit type (limits, strategy), including no minimum, no maximum and equal limits",
 "The fill arithmetic has many boundary combinations (limits equal, zero, quantity at a multiple of a limit); tests sample a few.",
 ["src/package.cc", "src/package.h", "src/resource.h", "src/material.cc", "src/product.cc"],
 [("Package::GetFillMass", "src/package.cc"), ("TransportUnit::MaxShippablePackages", "src/package.cc"), ("Resource::Package", "src/resource.h")])

prop("C05", "The greedy exchange solver never breaks a constraint and serves by preference",
 "On every exchange graph the greedy solver's flows are positive, each within the quantities of the two trade partners, never exceed any capacity of a supplier group or the requested total after unit conversion, take an exclusive trade whole or not at all, and trade one exclusive object at most once. Request groups are served in order of decreasing (commodity-weighted) average preference and each request takes its potential trades in order of decreasing preference, each as much as the remaining quantities and capacities allow, until its demand is met; a trade is left out only if its preference is negative or nothing remains for it. The objective it reports is the sum of quantity over preference of the trades plus the penalty for the demand left unmet, and solving the same graph again gives the same result.",
 ["inputs"], "every exchange graph: groups, nodes, arcs, unit capacities, capacities, preferences, exclusive and shared bids",
 "Tests solve a dozen hand-made graphs; feasibility has to hold for every combination of coupled constraints and exclusivity.",
 ["src/greedy_solver.cc", "src/greedy_preconditioner.cc", "src/exchange_graph.cc"],
 [("GreedySolver::GreedilySatisfySet", "src/greedy_solver.cc"), ("Capacity", "src/exchange_graph.cc"), ("GreedyPreconditioner::Condition", "src/greedy_preconditioner.cc")])

prop("C06", "The optimizing exchange solver returns feasible, cost-optimal flows",
 "On every exchange graph the linear and mixed-integer solver's flows are within the quantities of both trade partners (in total for each bid and request), satisfy every capacity of supplier groups, take exclusive trades whole or not at all, and reach the same minimal cost (inverse-preference flow plus the penalty for demand that stays unmet) as an independent optimizer for the documented formulation.",
 ["inputs"], "every exchange graph of bounded size, with and without exclusive trades",
 "Translation mistakes (a wrong bound, sign or coefficient) show only on graphs where that constraint binds; tests check a few fixed graphs.",
 ["src/prog_translator.cc", "src/prog_solver.cc", "src/solver.cc", "src/solver_factory.cc", "src/coin_helpers.cc"],
 [("ProgTranslator::Translate/FromProg", "src/prog_translator.cc"), ("ProgSolver::SolveGraph", "src/prog_solver.cc")])

prop("C07", "The resource exchange delivers exactly the trades it matched",
 "In each time step every request and bid offered by the traders enters the exchange once, preferences adjusted by requesters and their managers are the ones used and trades with a negative preference never happen, and every resulting trade moves the supplier's resource to the requester that asked for it, in an amount within its bid, request and constraints. Each executed trade is recorded once with its supplier, receiver, commodity, resource state and time, and nothing else is.",
 ["inputs", "schedules"], "every set of traders, requests, bids, preferences, constraints and exclusivity over several time steps and commodities",
 "Only the combination of several traders with mutual requests, preference changes and multi-commodity requests exercises translation in both directions.",
 ["src/exchange_manager.h", "src/resource_exchange.h", "src/exchange_translator.h", "src/exchange_context.h", "src/trade_executor.h", "src/request_portfolio.h", "src/bid_portfolio.h"],
 [("ExchangeManager::Execute", "src/exchange_manager.h"), ("ExchangeTranslator::Translate/BackTranslateSolution", "src/exchange_translator.h"), ("TradeExecutor::ExecuteTrades", "src/trade_executor.h")], observe_at=["Transactions rows", "calls received by the traders"])

prop("C08", "Time steps and agent lifecycles follow the schedule",
 "Every simulation runs each time step once, in order, up to its duration, and within a step does building, tick, exchange, tock, decision and decommissioning in that order, calling each deployed agent exactly once per phase. An agent enters when it is built or scheduled, is active from that step until the one in which its lifetime ends or it is decommissioned (if it allows that), is called neither before nor after, and its entry, parent, prototype, lifetime and exit are recorded as they happened. At every moment the family relations agents report (parent, children, ancestors, descendants) are those of the agents then deployed.",
 ["schedules", "histories"], "every schedule of builds and decommissions (from input, at run time, from any phase), lifetimes, parents and durations",
 "Off-by-one and ordering mistakes depend on coincidences in the schedule that fixed tests do not contain.",
 ["src/timer.cc", "src/timer.h", "src/agent.cc", "src/context.cc", "src/facility.cc", "src/institution.cc", "src/region.cc"],
 [("Timer::RunSim/DoBuild/DoDecom", "src/timer.cc"), ("Agent::Build/Decommission", "src/agent.cc"), ("Context::SchedBuild/SchedDecom", "src/context.cc")], observe_at=["calls received by agents", "AgentEntry and AgentExit rows"])

prop("C09", "The recorder delivers every datum once, whole and in order",
 "Every datum recorded is delivered exactly once to every backend registered when it is delivered, in the order recorded, with its title, field names, values and shapes as given and the simulation's id, for every buffer size; nothing is left behind when the recorder is flushed, closed or destroyed (only a change of the buffer size discards what is buffered), and nothing else is delivered.",
 ["histories", "inputs"], "every sequence of data, flushes, backend registrations and closings, with every buffer size",
 "Datum objects are recycled in a buffer; stale fields or lost rows appear only for particular alignments of buffer size, flushes and row widths.",
 ["src/recorder.cc", "src/recorder.h", "src/datum.cc"],
 [("Recorder::NewDatum/AddDatum/Flush/Close", "src/recorder.cc"), ("Datum::AddVal/Record", "src/datum.cc")])

prop("C10", "SQLite output reads back exactly what was recorded",
 "Every row recorded to a SQLite database, for every supported value type (finite numbers, text without NUL), is returned by a query of its table with the same column names, types and values, in recording order, also after the file is closed and opened again; a query with conditions (any comparison of numbers, text and ids, equality of containers) returns exactly the rows whose values satisfy all of them. Listed tables, column types and values written in several runs to one file are as recorded.",
 ["inputs", "histories"], "every sequence of rows over all supported types, values (including extreme, empty and special characters) and every condition",
 "Types are serialized by dozens of separate code paths; tests try a few values of some.",
 ["src/sqlite_back.cc", "src/sqlite_db.cc", "src/query_backend.h"],
 [("SqliteBack::Notify/Query/BindAndStore/ColAsVal", "src/sqlite_back.cc")])

prop("C11", "HDF5 output reads back exactly what was recorded",
 "Every row recorded to an HDF5 database, for every supported value type and every shape that its values fit, is returned by a query of its table with the same column names, types and values, in recording order, also after the file is closed and opened again, in tables of any length and when values are written in several sessions to one file; a query with conditions returns exactly the rows whose values satisfy all of them. Listed tables and column types are as recorded.",
 ["inputs", "histories"], "every sequence of rows over all supported fixed- and variable-length types, values and every condition",
 "HDF5 output has generated code for every nesting of types, fixed and variable length; a wrong offset or padding shows only for particular sizes.",
 ["src/hdf5_back.cc", "src/hdf5_back.h", "src/hdf5_back_gen.py", "src/query_backend.h"],
 [("Hdf5Back::Notify/Query/WriteToBuf/VLRead/VLWrite", "src/hdf5_back.cc")])

prop("C12", "A simulation restarted from a snapshot is the simulation that was saved",
 "A simulation restored from a snapshot has the time, prototypes, recipes, commodity preferences, packages, transport units, pending builds and decommissions, and agents (with parents, lifetimes, state variables and inventories, composition by composition) that the saved one had at that time, and continuing it gives the same history as the uninterrupted run (for agents that draw no random numbers; the order of trades within one time step and the numbering of new resources are free). The simulation set up from a database that an input loader wrote is likewise the one the loader built.",
 ["histories", "crash_points"], "every simulation state and every time step at which a snapshot is taken",
 "Restart correctness depends on the state at the snapshot; the tests restart one or two simulations.",
 ["src/sim_init.cc", "src/sim_init.h", "src/timer.cc", "src/agent.cc"],
 [("SimInit::Snapshot/Restart", "src/sim_init.cc")])

prop("C13", "The same input in any format builds the same simulation",
 "An input file given as XML, its JSON translation or the flat schema, through every valid way of writing it, sets up the same simulation: the same control parameters, agents with parents and state, recipes, prototypes, commodities and solver settings, exactly as written, with the documented defaults for what is left out. Translating between XML and JSON keeps all element names, nesting, texts and the order of siblings of the same name (for documents without comments and attributes), and an input that is not valid is refused before the simulation runs.",
 ["inputs"], "every valid input document over the supported elements, and mutations of them",
 "Format translation and defaults are combinatorial; tests use fixed example files.",
 ["src/xml_file_loader.cc", "src/xml_flat_loader.cc", "src/xml_parser.cc", "src/infile_tree.cc", "src/pyhooks.cc", "cyclus/jsoncpp.pyx", "src/toolkit/infile_converters.cc"],
 [("XMLFileLoader::LoadSim", "src/xml_file_loader.cc"), ("InfileTree", "src/infile_tree.cc"), ("JsonToXml/XmlToJson", "src/toolkit/infile_converters.cc")])

prop("C14", "Generated archetype code keeps every state variable",
 "For an archetype with any combination of annotated state variables, the preprocessor generates code that reads each variable from an input file with its defaults, copies it when an agent is cloned from its prototype, writes it to a snapshot and restores it, without changing any value or mixing up variables; resource buffers get their annotated capacity and keep their inventories through a snapshot; annotations, defaults, aliases and shapes come out as declared; the generated schema accepts valid inputs and refuses missing required, unknown, repeated, ill-typed and empty elements and values of internal variables. (Variables of the types the database supports; no ResMap members, no C++ initializers, no unbalanced braces in annotation texts.)",
 ["inputs"], "every archetype declaration over the supported types (nested containers included), defaults and internal flags, and every value",
 "The preprocessor generates code per type; the tests compile a few fixed archetypes.",
 ["cli/cycpp.py", "src/infile_tree.h", "src/infile_tree.cc", "src/agent.cc"],
 [("InfileToDbFilter/CloneFilter/SnapshotFilter/InitFromDbFilter/SchemaFilter", "cli/cycpp.py")])

prop("C15", "Random numbers are reproducible and keep to their distributions",
 "For every seed and sequence of draws, the random numbers of a simulation are the same in every run and depend on nothing else (not on draws before the seed was set, nor on distribution objects being made); raw and uniform draws are those of the 32-bit Mersenne twister; every draw lies in the stated range (uniform integers include both ends, reals exclude the upper one) and follows the distribution of its parameters; degenerate distributions give their only value, and invalid parameters (reversed bounds, probabilities outside [0, 1], negative means, rates not positive) are refused.",
 ["inputs", "histories"], "every seed, every interleaving of draws and every parameter of the distributions",
 "Tests use one seed and check a few values.",
 ["src/random_number_generator.cc", "src/random_number_generator.h"],
 [("RandomNumberGenerator", "src/random_number_generator.cc"), ("Distribution classes", "src/random_number_generator.h")])

prop("C16", "Buy and sell policies trade within their limits",
 "A buying policy never takes more than its buffer, total inventory, throughput and (in inventory-policy modes) its reorder level, order quantity and cycles call for, requests only the commodities and recipes it was set up with, and puts everything it receives in its buffer. A selling policy offers and ships only what is in its buffer, up to its throughput and in multiples of its quantum, packages and transport units, and takes exactly what it ships out of its buffer.",
 ["inputs", "schedules"], "every configuration of the policies and every schedule of supply and demand over many steps",
 "Cycle, reorder and packaging logic interacts over many steps; tests run a few fixed scenarios.",
 ["src/toolkit/matl_buy_policy.cc", "src/toolkit/matl_sell_policy.cc"],
 [("MatlBuyPolicy::GetMatlRequests/AcceptMatlTrades", "src/toolkit/matl_buy_policy.cc"), ("MatlSellPolicy::GetMatlBids/GetMatlTrades", "src/toolkit/matl_sell_policy.cc")])

prop("C17", "Composition arithmetic and unit conversions are exact",
 "Composition arithmetic (adding, subtracting, scaling, normalizing, thresholding and comparing nuclide maps) gives the elementwise result and does not depend on order; a composition's mass and atom representations describe the same mixture, whichever it was made from, and invalid nuclides or negative amounts are refused.",
 ["inputs"], "every pair of nuclide maps, overlapping or not, and every scale",
 "Tests use two or three small maps.",
 ["src/comp_math.cc", "src/composition.cc"],
 [("compmath", "src/comp_math.cc"), ("Composition::mass/atom", "src/composition.cc")])

prop("C18", "Nuclide name conversions agree with each other",
 "For every nuclide (element, mass number, metastable state) each naming scheme's conversion to and from the canonical id is consistent: converting out and back gives the same nuclide, the parts (charge, mass number, state) are those of the id, and text that names no nuclide (unknown symbols, mass numbers impossible for the element, charge number and symbol that disagree, other characters) is refused or not taken for a nuclide. (Schemes: id, name, ZZAAAM, ZZZAAA, ZZLLAAAM, MCNP, SERPENT, NIST, CINDER, ALARA, SZA, FLUKA; schemes that cannot tell metastable states give the ground or first metastable state.)",
 ["inputs"], "every nuclide and metastable state in every naming scheme, and arbitrary text",
 "There are hundreds of thousands of valid ids and a dozen schemes with special cases; tests list a few.",
 ["src/pyne.cc", "src/pyne.h"],
 [("pyne::nucname", "src/pyne.cc")])

prop("C19", "Capacity planning and demand functions do what their formulas say",
 "The toolkit's symbolic functions evaluate to their documented formula for all parameters and times, piecewise functions being continuous where requested; the building manager's orders cover the unmet demand of a commodity at the least cost with whole facilities (of the producers with a positive capacity for it that its registered builders hold); and the supply/demand bookkeeping of producers sums to what was registered.",
 ["inputs", "histories"], "every parameter set, time, and population of producers",
 "Tests check single parameter sets.",
 ["src/toolkit/symbolic_functions.cc", "src/toolkit/symbolic_function_factories.cc", "src/toolkit/building_manager.cc", "src/toolkit/supply_demand_manager.cc", "src/toolkit/commodity_producer_manager.cc"],
 [("SymbFunctionFactory", "src/toolkit/symbolic_function_factories.cc"), ("BuildingManager::MakeBuildDecision", "src/toolkit/building_manager.cc")])

prop("C20", "A whole simulation's output is reproducible and balances",
 "Running the same input again, in another input format or with another output format gives the same output tables, apart from the simulation id and machine-dependent metadata; and in the output every unit of matter that exists at the end was created by an agent, moved only by recorded trades between agents that were deployed at that time, and is held by the agent it was last traded to.",
 ["inputs", "schedules"], "every scenario of sources, sinks and other agents with deployment schedules, recipes, throughputs and seeds",
 "The end-to-end tests run a handful of inputs.",
 ["cli/cyclus.cc", "src/sim_init.cc", "src/timer.cc", "agents/source.cc", "agents/sink.cc", "agents/k_facility.cc"],
 [("main", "cli/cyclus.cc"), ("Timer::RunSim", "src/timer.cc")], observe_at=["output database files"])

prop("C21", "The Python interface keeps data and runs Python archetypes faithfully",
 "Everything recorded from Python, of any supported type, comes back from a query through an in-memory table or a SQLite or HDF5 file opened in Python with the same columns, Python types, values and order, and a query with conditions gives exactly the rows that satisfy all of them; an in-memory backend keeps exactly the tables it is registered for, before and after its registry is changed. In a simulation with archetypes written in Python every state variable (also nested containers) has the value of the input file or its default, each deployed agent is called in every step of its life and told of the building and decommissioning of its children, its trades move exactly what was matched, state and inventories are recorded, and the tables in memory are those of the output file.",
 ["inputs", "histories"], "every table of supported types, batch size, registry, list of conditions, and every scenario of Python archetypes",
 "Tests record a few rows of a few types and run single fixed scenarios.",
 ["cyclus/lib.pyx", "cyclus/memback.pyx", "cyclus/agents.pyx", "cyclus/gentypesystem.py", "cyclus/simstate.py"],
 [("_MemBack.query / registry", "cyclus/memback.pyx"), ("Recorder, Datum, Hdf5Back, SqliteBack", "cyclus/lib.pyx"), ("infile_to_db, snapshot, CyclusFacilityShim", "cyclus/agents.pyx"), ("conversions between C++ and Python", "cyclus/gentypesystem.py")])

prop("C22", "Enrichment, material queries and positions obey their physical formulas",
 "Enrichment calculations balance feed, product and tails in total and in fissile mass with separative work computed from the value function; a material query reports the mass, moles and fractions of each nuclide of the material and the largest amount of a composition it holds; and positions are kept to a tenth of a second, are written as text that denotes them in each format, refuse coordinates out of range and give symmetric great-circle distances.",
 ["inputs"], "every assay triple, material composition and coordinate",
 "Tests check single textbook values.",
 ["src/toolkit/enrichment.cc", "src/toolkit/mat_query.cc", "src/toolkit/position.cc"],
 [("FeedQty/TailsQty/SwuRequired", "src/toolkit/enrichment.cc"), ("MatQuery", "src/toolkit/mat_query.cc"), ("Position", "src/toolkit/position.cc")])

prop("C23", "Matrix arithmetic and the matrix exponential give the right result",
 "Sums, differences, products, multiples and powers (from the first) of matrices of any dimensions are the mathematical ones, also when an operand is the result, and a matrix is left as it is where the dimensions do not fit; a row is appended only if it has the right length. The uniform Taylor solver applied to a decay matrix, a vector of amounts and a time gives the amounts after that time with an error of at most 0.1% of the total, never too much, and refuses vectors that do not fit the matrix and decay too fast for its number range.",
 ["inputs"], "every matrix, decay chain and time",
 "Tests use 1x1 to 3x3 matrices and single chains.",
 ["src/l_matrix.cc", "src/uniform_taylor.cc"],
 [("LMatrix operators", "src/l_matrix.cc"), ("UniformTaylor::MatrixExpSolver", "src/uniform_taylor.cc")])

prop("C24", "Input trees, agent specs, recipe contexts and time series keep what is written",
 "Queries of an input tree by path, index and type give the values of the elements in document order, count them, descend into subtrees and use the default exactly when an optional element is absent; what is not there, not a plain text or not of the type is refused. An agent spec made from text, parts or an element has the given path, library, name and alias with the documented defaults, and its text and sanitized forms. A commodity-recipe context reports for each input commodity and resource what was last set, is equal to another exactly if they report the same, and survives copying, a snapshot and the input file. Every value given to a time series is recorded once, in order, in the table of its series with agent, time, value and units, and every listener of that series hears of it once.",
 ["inputs", "histories"], "every document tree, query, spec, history of a context and series of values",
 "Tests use one small document and a few values.",
 ["src/infile_tree.cc", "src/infile_tree.h", "src/dynamic_module.cc", "src/toolkit/commodity_recipe_context.cc", "src/toolkit/timeseries.h"],
 [("InfileTree, Query, OptionalQuery", "src/infile_tree.h"), ("AgentSpec", "src/dynamic_module.cc"), ("CommodityRecipeContext", "src/toolkit/commodity_recipe_context.cc"), ("RecordTimeSeries", "src/toolkit/timeseries.h")])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
