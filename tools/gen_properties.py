#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the wording has one home)."""
import json, os
M='src/nempy/markets.py'; B='src/nempy/spot_market_backend/'; H='src/nempy/historical_inputs/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={'files':files,'mechanism':[{'name':mech,'where':', '.join(files)}]}
    if state: a['state']=state
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

p('C01','Decision variables and constraints never share an id',
 "Every decision variable and every constraint that a market model ever creates has an id of its own: whatever set of market features is configured, and in whatever order, no two live variables and no two live constraints of one market carry the same id. Every id that a later step refers to (a coefficient, a cost, a price, a slack, a bound) is the id of the item it was meant for.",
 ['inputs','histories'],'all sequences of market-building calls and all input tables',
 'The tests build a handful of fixed markets; a clash appears only for a particular combination of features (e.g. empty regulation tables, both directions of bidirectional units, losses plus generic constraints).',
 [M,'src/nempy/help_functions/helper_functions.py',B+'unit_constraints.py',B+'interconnectors.py',B+'elastic_constraints.py',B+'fcas_constraints.py'],
 'ids are issued as row number plus a running counter, the counter being moved past the largest id issued after each step')
p('C02','Energy supply and demand balance exactly in every region',
 "For every region with a demand there is exactly one equality whose right-hand side is that demand and whose left-hand side is: plus every energy offer of generators in the region, minus every energy offer of loads in the region, plus the loss-factor-scaled flow of every interconnector link into it, minus that of every link out of it, minus the region's share of every link's losses. Nothing else enters it and nothing is left out.",
 ['inputs'],'all unit tables, bids, demands, interconnectors, loss factors and loss shares',
 'Existing tests check the coefficients for one or two hand-made tables with at most two regions and a few units.',
 [M,B+'market_constraints.py',B+'variable_ids.py',B+'interconnectors.py',B+'solver_interface.py'],
 'regional variable map x regional constraint map joined on region and service')
p('C03','Each offered band becomes one variable bounded by its volume',
 "Each bid band with an offered volume of at least 0.0001 MW becomes exactly one continuous decision variable, bounded below by zero and above by the offered volume, labelled with the unit, service, direction and band it came from; smaller volumes offer nothing. When the service or direction column is omitted the offer is for energy, by a generator.",
 ['inputs'],'all volume bid tables, any number of bands, with or without the optional columns',
 'Doctests show two or three units; omission of optional columns together with bidirectional units or many bands is not sampled.',
 [M,B+'variable_ids.py'],'melt of the bid table to one row per band')
p('C04','The objective prices every dispatched MW at its bid',
 "The cost minimised by dispatch is the sum, over every accepted MW, of the price bid for its own unit, service, direction and band; energy prices are referred to the regional reference node by dividing by the loss factor of that unit and direction, FCAS prices are not, and energy bought by loads counts as a benefit (negative cost). Violation costs of softened constraints are the only other terms.",
 ['inputs'],'all price bids, loss factors, directions and services',
 'Tests assert costs for a few rows; joins that drop or duplicate bids show only with bidirectional units, multiple services or missing bands.',
 [M,B+'objective_function.py'],'join of bid variables with price bids and unit loss factors')
p('C05','Unit limits cap exactly the energy of the unit concerned',
 "A unit capacity limit or an intermittent-generation forecast limit makes the energy dispatch of that unit (and direction) no greater than the limit given, and constrains nothing else. Every limit supplied produces exactly one such constraint.",
 ['inputs'],'all limit tables and bid tables, with and without direction column and bidirectional units',
 'Only fixed tables with one to three units are asserted.',
 [M,B+'unit_constraints.py',B+'solver_interface.py'],'constraint row per limit, joined to the bid variables of the same unit, service and direction')
p('C06','Ramp limits bound dispatch by initial output and ramp rate',
 "Energy dispatch of a unit stays within initial output plus ramp-up rate and minus ramp-down rate (MW/h) times the interval length; a telemetered rate lower than the bid rate replaces it; for a bidirectional unit the limit applies to generation minus consumption and a rate change at zero output is respected. In fast start runs, units that start (first run) or end (second run) in modes 0, 1 or 2 get no ramp limits, and units that leave mode two during the interval may ramp up from minimum loading only for the time since then.",
 ['inputs','configurations'],'all ramp details, SCADA rates, fast start profiles, run types and interval lengths',
 'Tests cover isolated helper functions with fixed rows; combinations of SCADA, fast start and bidirectional units are not enumerable by tests.',
 [M,B+'ramp_rate_processing.py',B+'unit_constraints.py','src/nempy/time_sequential.py'],'composite ramp rates, element-wise minimum with SCADA rates, rhs formulae')
p('C07','Fast start units follow their inflexibility profile',
 "A fast start unit ending the interval in mode 0 or 1 is held to zero; in mode 2 it is held exactly to the linear trajectory from zero to minimum loading; in mode 3 it is held at or above minimum loading; in mode 4 it is held at or above the linear trajectory from minimum loading back to zero. Units in other modes are not constrained, and removing the fast start constraints removes every trace of them, including their violation terms.",
 ['inputs','histories'],'all profiles and all set/remove/set sequences',
 'Tests use one profile table per mode and never remove constraints that were made elastic.',
 [M,B+'unit_constraints.py'],'per-mode constraint rows')
p('C08','FCAS enablement stays inside every unit trapezium',
 "For every contingency service of a unit, energy plus the regulation enablement that pushes the same way plus the scaled contingency enablement is kept between the trapezium's enablement limits, using the slopes given by its breakpoints; for every regulation service likewise energy plus scaled regulation; and each service is capped by its maximum availability. For bidirectional units both directions enter the contingency constraint.",
 ['inputs'],'all trapeziums for generators, loads and bidirectional units, all services',
 'Tests check single units; sign and service selection differ between generator, load and the two sides of a bidirectional unit.',
 [M,B+'fcas_constraints.py',B+'unit_constraints.py'],'slope coefficients, service selection by direction')
p('C09','Regulation FCAS shares the ramping ability with energy',
 "For every unit offering raise (lower) regulation with telemetered rates, energy and regulation enablement together respect initial output plus (minus) the ramp that can be delivered in the interval, with the direction reversed for loads and one joint constraint over both directions for a bidirectional unit. When a violation cost is given each such constraint, and only those that exist, is made soft.",
 ['inputs','configurations'],'all combinations of units offering raise/lower regulation, directions and violation costs',
 'Tests use one unit per case and never only one regulation service together with a violation cost.',
 [M,B+'fcas_constraints.py'],'joint ramping constraint constructors')
p('C10','FCAS requirements are met by exactly the eligible enablement',
 "Every FCAS requirement set produces one constraint of the requested type (equality if none is given) and volume, whose left-hand side is the sum of all enablement of the listed services in the listed regions with coefficient one. The reported FCAS price of a region and service is the sum of the marginal values of all the requirement sets covering it, and of no others.",
 ['inputs'],'all requirement tables including overlapping sets',
 'Tests use one or two sets; overlaps between regions, services and sets matter.',
 [M,B+'market_constraints.py',B+'solver_interface.py'],'drop_duplicates on set, join on region and service, price groupby')
p('C11','Generic constraints act on exactly the terms linked to them',
 "Every generic constraint set has one constraint of the given type and right-hand side, and its left-hand side is exactly the sum of: each linked unit and service's dispatch times its coefficient (with consumption of a bidirectional unit counted negatively), each linked region and service's dispatch times its coefficient, and each linked interconnector's flow times its coefficient and the link's direction factor. Left-hand sides given for a set that is an FCAS requirement extend that requirement in the same way.",
 ['inputs'],'all generic constraint tables, any overlap with FCAS sets',
 'Tests link one term at a time.',
 [M,B+'solver_interface.py'],'set -> constraint id mapping and three joins')
p('C12','Softened constraints can be violated only at the stated price',
 "Making constraints elastic adds, per constraint, violation variables that are continuous, unbounded above and non-negative, relax the constraint in its own violating direction only (both directions for equalities), and cost the stated amount per unit (or the amount stated for that set). A non-numeric, non-table cost or an unknown constraint group is rejected, and the reported violation degree is the total violation in the last dispatch.",
 ['inputs','histories'],'all constraint groups, types and cost tables',
 'Tests cover one constraint group with each type once.',
 [M,B+'elastic_constraints.py'],'deficit variable rows, lhs signs')
p('C13','Interconnector flows and losses follow their loss functions',
 "Each link gets one flow variable within its limits; with losses, its flow equals the convex combination of the break points, its losses equal the same combination of the loss function's values there, the weights are non-negative, sum to one and only adjacent ones may be non-zero, and losses are charged to the two ends by the stated share. Where an interconnector is modelled as several links, at most one link carries flow, and every statement holds per link, not per interconnector.",
 ['inputs'],'all interconnector definitions, loss functions and break points, with and without links',
 'Tests cover a single interconnector, one with links.',
 [M,B+'interconnectors.py',B+'solver_interface.py'],'weights, link constraints, special ordered sets')
p('C14','Equally priced bids in a region are dispatched pro rata',
 "When tie breaking is enabled, for every pair of energy bid bands of different units that have the same cost, region and direction there is a soft equality of their dispatched fractions of offered volume, at the stated cost; bids that differ in any of these are not tied.",
 ['inputs'],'all bid tables',
 'Tests tie two bands.',
 [M,B+'unit_constraints.py'],'self join on cost, region and direction')
p('C15','Prices are marginal values of the priced linear problem',
 "After dispatch the energy price of a region is the dual value of that region's own demand equality, taken from the linear problem in which the interpolation weights not around the dispatched flow and the unused links have been fixed to zero; likewise for FCAS sets. If, and only if, the over-constrained re-run is allowed, a market price limit is reached and generic or FCAS constraints are violated, those right-hand sides are relaxed by their violation (plus 0.01) and prices are taken from the re-solved problem.",
 ['inputs','configurations'],'all markets and price limits',
 'Tests check prices of a few small markets and never the re-run.',
 [M,B+'solver_interface.py'],'dispatch()')
p('C16','The solver is given the whole model and failure is never silent',
 "Both problems handed to the solver contain every variable with its own bounds and type, the full objective, and every constraint with its own coefficients (duplicates summed), sense and right-hand side; values, slacks and prices are read back by the id of the item they are reported for. If the solver does not reach an optimum of the dispatch problem, or an unknown solver or constraint type is requested, an error is raised instead of results being returned.",
 ['inputs','configurations'],'all models and solver outcomes',
 'Tests solve small feasible models.',
 [B+'solver_interface.py',M],'InterfaceToSolver')
p('C17','Reported results are the optimal solution, correctly aggregated',
 "Unit dispatch is the sum over bands of the optimal values for each unit, direction and service; interconnector flows and losses are the optimal values of the link; the regional summary's dispatch is generation minus consumption of the region and its inflow, transmission and interconnector loss columns follow from flow direction, loss factors and loss shares. Reported FCAS availability is enablement plus the tightest slack, per unit of enablement, of the constraints that limit raising it.",
 ['inputs','histories'],'all solved markets',
 'Doctests print results of four toy markets.',
 [M],'get_* methods')
p('C18','Invalid inputs are rejected before they change the market',
 "With input validation on (the default), every market-building method raises an error for an input table with a missing required column, a column that is not allowed, a column of the wrong type, a name it does not allow (unknown units or regions, services or directions the table cannot hold, constraint types), two rows for one key (unit, service and direction; set; region; interconnector and link; loss segment), a non-finite number (except in capacities and telemetered rates, which may be missing), a negative bid volume, loss factor, loss share or other quantity that cannot be negative, a loss share above one, or, for price bids, a price lower than that of the band before; tables without any of these are accepted. An input table rejected by a call leaves the market as it was.",
 ['inputs'],'all input tables of all builder methods',
 'Tests try a few malformed tables for a few methods.',
 [M,B+'dataframe_validator.py'],'schema per method, validated before state is written')
p('C19','Methods called before their prerequisites raise an error',
 "Steps that depend on an earlier step (price bids and unit limits on volume bids, interconnector losses on interconnectors, elastic constraints on the constraints, dispatch on having variables, bidirectional unit inputs on both directions being present, the over-constrained re-run on price limits, FCAS trapeziums on processed bids) raise a clear error when it is missing, and do nothing else.",
 ['histories'],'all orders of calls',
 'Tests call methods in the documented order.',
 [M,H+'units.py'],'guards at the start of methods')
p('C20','Setting a market feature again replaces the earlier setting',
 "Calling a market-building method again (and then, where they are used, those that build on it) leaves the market exactly as if the earlier call of that method had not been made (apart from the ids used): old variables, constraints, coefficients, costs and violation terms of that feature are gone, including when the second call is without violation cost or has nothing to constrain. Results of a dispatch do not depend on earlier dispatches of the same market.",
 ['histories'],'all call histories',
 'Tests build each market once; sequential use (fast start two-run dispatch, intervals in a loop) is the documented practice.',
 [M],'dictionaries keyed by feature name')
p('C21','Caller tables are left unchanged',
 "Market-building methods and solver calls do not modify the tables, lists or dictionaries passed to them, so the same inputs can be used again, for another market or interval, with the same result.",
 ['inputs','histories'],'all inputs and reuse patterns',
 'Tests build inputs afresh for each call.',
 [M,B+'variable_ids.py',B+'objective_function.py',B+'unit_constraints.py',B+'fcas_constraints.py',B+'market_constraints.py',H+'units.py'],'column assignment on arguments')
p('C22','NEMDE file contents are read into the right fields',
 "Every value read from a NEMDE file appears under the unit, constraint, region, interconnector, service and field it belongs to, whether the file holds one item or a list at that place (unit bids, price structures, left-hand-side terms, solutions); items lacking the optional field are skipped or marked as missing, never given another item's value. In intervention periods the what-if (non-intervention) values are used.",
 ['inputs'],'all NEMDE files',
 'The tests that read NEMDE files need data that is not available offline; they sample single intervals.',
 [H+'xml_cache.py'],'XMLCacheManager getters')
p('C23','A dispatch interval maps to its own market day and file',
 "An interval's file is the one of the market day that starts at 04:05 and of its five-minute number counted from there; the cache is consulted first, a missing file is downloaded for the same market day, and an interval whose file cannot be obtained is an error. Populating a range covers every market day of the range and the one before it, and no other.",
 ['inputs','fault_sequences'],'all interval times, including month and year ends, and download failures',
 'Tests check a few datetimes.',
 [H+'xml_cache.py',H+'mms_db.py'],'market day arithmetic, cache lookup')
p('C24','AEMO names are translated to the nempy name of the same thing',
 "Wherever historical data is translated (name mapping of columns and values, unit bids and details, interconnectors, generic constraint terms, NEMDE files), each AEMO service, direction, constraint type and column name becomes the nempy name of the same thing: RAISE6SEC, R6SE and the raise 6 second attributes of a NEMDE file all become raise_6s, GENERATOR becomes generator, LE becomes <=, and so on for every service and direction the market accepts; two different services never become one. A column without a nempy name is an error in the name mapping.",
 ['configurations'],'all names',
 'Tests sample only the names occurring in their data.',
 [H+'aemo_to_nempy_name_mapping.py',H+'units.py',H+'constraints.py',H+'interconnectors.py',H+'xml_cache.py'],'name maps')
p('C25','Database lookups return the record in force at the interval',
 "Data read from the market management database for an interval is that of the interval itself where the table is per interval; of the latest effective date and then the latest version not after the interval where it is versioned; the whole table where it has no dates; and of the record whose start date is not after and whose end date is after the interval where it is dated. Adding a month stores that month's non-intervention rows, once per key; setting a table replaces its contents; for tables that are published as a history the latest month's version of a key wins; populating covers the month before the start (where dispatch needs the preceding interval) through the end month. The raw-inputs loaders hand each historical input the table and columns it is documented to come from, for the interval that was set.",
 ['inputs','histories'],'all table contents and intervals',
 'Tests use a small in-memory database for each class with a few rows.',
 [H+'mms_db.py',H+'loaders.py'],'SQL query templates; DBManager; loaders')
p('C26','FCAS trapeziums are scaled to the limits in force',
 "Regulation trapeziums are tightened to telemetered enablement limits (when positive and tighter) keeping their slopes, regulation maximum availability is cut to what the telemetered ramp rate can deliver in the interval with breakpoints moved along the slopes, and semi-scheduled units' upper limits are cut to their forecast. No other bid is altered and none is lost or duplicated.",
 ['inputs'],'all bids, telemetry and forecasts',
 'Needs historical data that is not available offline; no offline test reaches it.',
 [H+'units.py'],'_scaling_* functions through get_processed_bids')
p('C27','Only units that may provide FCAS have FCAS bids',
 "FCAS bids are kept exactly for units whose maximum availability and some band are positive, whose energy availability reaches the enablement minimum, whose enablement maximum is not negative, whose initial output lies within the enablement limits (with the variations for bidirectional units), and, for regulation, whose AGC is on; price bids are kept exactly for the volume bids kept. Energy bids are never removed, and bids are returned at the unit's own connection point price.",
 ['inputs'],'all bids, initial conditions and availabilities',
 'Needs historical data that is not available offline; no offline test reaches it.',
 [H+'units.py'],'_enforce_preconditions_for_enabling_fcas, get_processed_bids')
p('C28','Fast start modes advance by the time spent in each mode',
 "Over a five minute interval a fast start unit moves from mode 0 to 1 only if the unconstrained run dispatches it, then through modes 1, 2, 3 to 4 as the time in each exceeds its length, the excess time carrying into the next mode; mode 0 units have no time in mode and time in mode 4 is capped at its length. The time since leaving mode two is reported exactly for units that left it during this interval.",
 ['inputs'],'all profiles and dispatch results',
 'No offline test reaches it.',
 [H+'units.py'],'mode update sequence')
p('C29','Unit, interconnector and demand data are derived as documented',
 "Unit information, bid and telemetered ramp rates, initial outputs, availability limits, regional demand (with its initial-supply offset), regulated and market interconnector definitions (directions, links, loss factors, MW limits) and loss functions and their break points are derived from the AEMO records of the same unit, region or interconnector by the documented formulae.",
 ['inputs'],'all records',
 'Mostly covered only by tests that need historical data.',
 [H+'units.py',H+'interconnectors.py',H+'demand.py',H+'loaders.py'],'getters of UnitData, InterconnectorData, DemandData')
p('C30','Generic constraint and FCAS requirement data are split correctly',
 "Constraint sets in force are returned with type, right-hand side and violation price of the same set, each set appearing either as an FCAS requirement (with every region and service it covers) or as a generic constraint, never both, with left-hand side coefficients of the set's own unit, region and interconnector terms. Violation prices returned by kind are those of that kind.",
 ['inputs'],'all constraint records',
 'Needs historical data that is not available offline.',
 [H+'constraints.py',H+'loaders.py'],'ConstraintData getters')
p('C31','Right-hand sides are recalculated per AEMO reverse Polish rules',
 "Recalculated right-hand sides apply each operation to the stack operands it is defined on, in the defined order, with multipliers, groups, branches and top-of-stack conditions as AEMO defines; terms take their SPD value by id and type, using the default value when it is missing. Overriding a SPD value changes exactly that value, and the constraints reported as depending on a value are exactly those using it.",
 ['inputs'],'all equations and SPD values',
 'Offline tests evaluate a handful of short equations per operation.',
 [H+'rhs_calculator.py'],'operation handlers')
p('C32','Cost-minimal dispatch is found and matches historical outcomes',
 "Dispatch returned is cost-minimal for the model built, and for historical inputs it reproduces AEMO's dispatch and prices within the published tolerances.",
 ['inputs'],'all markets and intervals',
 'It depends on the numerical solver and on historical data.',
 [M,B+'solver_interface.py'],'external MILP solver')
p('C33','Successive intervals start from the previous dispatch',
 "Ramp rate parameters built for the next interval give every unit with ramp rates its previous interval's energy dispatch as initial output (zero when it was not dispatched) and its own ramp rates; seed parameters pair each unit's historical output with its own rates.",
 ['inputs'],'all dispatch results and ramp rates',
 'Tests check two small tables.',
 ['src/nempy/time_sequential.py'],'construct_ramp_rate_parameters, create_seed_ramp_rate_parameters')
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
