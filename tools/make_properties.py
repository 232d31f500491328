"""Writes properties.jsonl (the property texts are maintained here)."""
import json, os
P = []
S = 'src/nempy/'
B = S + 'spot_market_backend/'
H = S + 'historical_inputs/'


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


p('C01', 'Dispatch is feasible and least-cost for the offers as bid',
  'Whenever a market can be cleared, the reported dispatch meets every constraint the user added and no other feasible '
  'dispatch costs less, where cost is the sum of dispatched volume times offered price over all bid bands (one to ten), '
  'energy prices are divided by the unit and direction loss factor, energy bought by loads counts as negative cost and '
  'FCAS offers of loads as positive cost. The reported objective value equals that cost (plus the cost of any constraint '
  'violations), and a market with no feasible dispatch raises an error instead of reporting one.',
  ['inputs', 'configurations'],
  'all combinations of bid bands, prices (negative, equal, zero), volumes (zero, tiny, large), loss factors, unit types, '
  'regions and demand levels within the bound',
  'The tests solve a few dozen hand-picked markets; merit order across units, bands, directions and loss factors has to hold for every bid stack.',
  [S + 'markets.py', B + 'variable_ids.py', B + 'objective_function.py', B + 'solver_interface.py', B + 'market_constraints.py'],
  [('bid variables', B + 'variable_ids.py:bids'), ('objective', B + 'objective_function.py:bids, scale_by_loss_factors'),
   ('solve', S + 'markets.py:SpotMarket.dispatch')],
  ['SpotMarket.get_unit_dispatch', 'SpotMarket.objective_value'])

p('C02', 'Every region balances and the regional summary reports that balance',
  'After dispatch, in every region generation minus load plus interconnector deliveries net of losses equals the demand '
  'that was set. The regional dispatch summary reports net unit dispatch, net inflow (flow before losses) and the region\'s '
  'share of the losses such that dispatch plus inflow minus all reported losses equals demand in every region with '
  'an interconnector, whatever the flow directions, loss shares and loss factors.',
  ['inputs', 'configurations'],
  'all topologies of up to three regions, flow directions, loss shares, interconnector loss factors, loads and generators within the bound',
  'One doctest prints the summary of one flow in the nominal direction without loss factors.',
  [S + 'markets.py', B + 'interconnectors.py', B + 'market_constraints.py'],
  [('regional constraint', B + 'market_constraints.py:energy'), ('flow coefficients', B + 'interconnectors.py:create'),
   ('loss shares', B + 'interconnectors.py:create_loss_variables'), ('summary', S + 'markets.py:get_region_dispatch_summary')],
  ['SpotMarket.get_region_dispatch_summary', 'SpotMarket.get_unit_dispatch', 'SpotMarket.get_interconnector_flows'])

p('C03', 'No unit is dispatched outside its bid volumes, capacity or forecast',
  'For every unit, direction and service the dispatch lies between zero and the sum of the bid band volumes; energy dispatch '
  'never exceeds the capacity limit given for that unit and direction, nor the intermittent generation forecast given for the unit. '
  'These limits bind exactly: as long as nothing else binds, a unit can be dispatched right up to the smallest of them, and units '
  'without a limit row are not limited by other units\' rows.',
  ['inputs', 'configurations'],
  'all combinations of band volumes, capacities (above, at, below, zero), forecasts, row orders, directions and services within the bound',
  'Tests look at one constraint table or a single market with one binding limit.',
  [B + 'unit_constraints.py', B + 'variable_ids.py', S + 'markets.py'],
  [('capacity', B + 'unit_constraints.py:capacity'), ('forecast', B + 'unit_constraints.py:uigf'), ('bounds', B + 'variable_ids.py:bids')],
  ['SpotMarket.get_unit_dispatch'])

p('C04', 'Energy dispatch respects ramp rates over the dispatch interval',
  'With ramp constraints set, each unit\'s energy dispatch stays within initial output plus/minus the ramp rate in MW/h times the '
  'dispatch interval in hours, using the smaller of the bid and (where present) telemetered rate, and the whole of that range is usable. '
  'A bidirectional unit is limited on its net output, ramping at the rate of the side it is on and switching to the other side\'s '
  'rate from the moment it crosses zero.',
  ['inputs', 'configurations'],
  'all initial outputs, up/down rates, telemetered rates (absent, missing, lower, higher), interval lengths and unit kinds within the bound',
  'Tests check the produced table for one rate, the 5 minute default and non-bidirectional units.',
  [B + 'ramp_rate_processing.py', B + 'unit_constraints.py', S + 'markets.py'],
  [('ramp up/down', B + 'unit_constraints.py:ramp_up, ramp_down'), ('composite rates', B + 'ramp_rate_processing.py:_calculate_composite_ramp_rates'),
   ('telemetered rates', B + 'ramp_rate_processing.py:_adjust_for_scada_ramp_rates')],
  ['SpotMarket.get_unit_dispatch'])

p('C05', 'Energy prices are the marginal cost of demand in each region',
  'The energy price reported for a region is a marginal value of demand there: it lies between the decrease in least total cost per MW '
  'for slightly less demand and the increase for slightly more demand in that region, taking loss factors, '
  'interconnectors, losses and co-optimised services into account. In particular where one offer is marginal the price is '
  'exactly that offer referred to the regional reference node.',
  ['inputs', 'configurations'],
  'all demand levels including band edges, bid stacks, networks and binding limits within the bound',
  'Tests assert a price for a handful of markets; the marginal-cost relation is a statement about pairs of markets.',
  [S + 'markets.py', B + 'solver_interface.py'],
  [('pricing run', S + 'markets.py:dispatch'), ('shadow prices', B + 'solver_interface.py:price_constraints'),
   ('linearised model', S + 'markets.py:_get_linear_model')],
  ['SpotMarket.get_energy_prices'])

p('C06', 'FCAS requirements are met and FCAS prices are their marginal values',
  'For every FCAS requirement set, the total enablement of the listed services in the listed regions (generators and loads alike) is at '
  'least, at most or exactly the required volume according to the set\'s type. The price reported for a service in a region is the sum, over '
  'the sets that include that region and service, of the marginal cost of each set\'s volume, and a set that does not bind adds zero.',
  ['inputs', 'configurations'],
  'all overlapping requirement sets, types, volumes, services and regions within the bound',
  'Tests use one or two sets with one service in one region.',
  [B + 'market_constraints.py', S + 'markets.py'],
  [('requirement sets', B + 'market_constraints.py:fcas'), ('price sum', S + 'markets.py:get_fcas_prices')],
  ['SpotMarket.get_fcas_prices', 'SpotMarket.get_unit_dispatch'])

p('C07', 'FCAS enablement stays inside the energy-FCAS trapeziums',
  'Where the constraints are set, each service\'s enablement is at most its maximum availability; energy plus or minus the slope-weighted '
  'enablement stays within enablement minimum and maximum of a regulation trapezium, and of a contingency trapezium after also '
  'reserving the regulation enablement that moves the unit the same way (raise for generators and lower for loads on the upper side, and the '
  'reverse on the lower side). These are exactly the limits imposed: any point inside all of them can be dispatched.',
  ['inputs', 'configurations'],
  'all trapezium shapes (vertical sides, zero minimum), energy levels, services and unit kinds within the bound',
  'Tests compare one generated table; which combinations of energy and several services are reachable is not examined.',
  [B + 'fcas_constraints.py', B + 'unit_constraints.py', S + 'markets.py'],
  [('joint capacity', B + 'fcas_constraints.py:joint_capacity_constraints'),
   ('energy and regulation', B + 'fcas_constraints.py:energy_and_regulation_capacity_constraints'),
   ('max availability', B + 'unit_constraints.py:fcas_max_availability')],
  ['SpotMarket.get_unit_dispatch', 'SpotMarket.get_fcas_prices'])

p('C08', 'Regulation enablement leaves enough ramp capability',
  'With joint ramping constraints set, a generator\'s energy plus raise regulation stays below what its telemetered ramp up rate allows '
  'from its initial output over the dispatch interval, energy minus lower regulation above what the ramp down rate allows, and for loads the directions are swapped; '
  'bidirectional units are limited on net output with both sides\' regulation. Units without telemetered rates are not limited, and elastic '
  'joint ramping works whichever of the two regulation services is offered.',
  ['inputs', 'configurations'],
  'all initial outputs, rates, regulation offers, unit kinds and interval lengths within the bound',
  'Tests cover one table per direction.',
  [B + 'fcas_constraints.py', S + 'markets.py'],
  [('joint ramping', B + 'fcas_constraints.py:joint_ramping_constraints_*'), ('assembly', S + 'markets.py:set_joint_ramping_constraints_reg')],
  ['SpotMarket.get_unit_dispatch'])

p('C09', 'Reported FCAS availability is the enablement the unit could reach',
  'For units with FCAS constraints, the reported availability of a service equals its current enablement plus the largest increase that the unit\'s own '
  'FCAS constraints (maximum availability, trapeziums, joint ramping) allow while the unit\'s energy and other services stay '
  'as dispatched.',
  ['inputs', 'configurations'],
  'all trapezium shapes, dispatch points, services and unit kinds within the bound',
  'One doctest prints one example.',
  [S + 'markets.py'],
  [('slack based availability', S + 'markets.py:get_fcas_availability')],
  ['SpotMarket.get_fcas_availability'])

p('C10', 'Interconnector flows obey limits and carry the interpolated losses',
  'Every interconnector (and link) flow lies within its limits and its reported losses equal the linear interpolation of the given loss function '
  'between the two break points adjacent to the flow; losses are charged to the two regions by the given share, '
  'flow is delivered through the link loss factors, and of the links that make up one interconnector at most one carries flow. '
  'This holds for both flow directions and for any number of interconnectors and parallel paths.',
  ['inputs', 'configurations'],
  'all limits, flow directions, convex and concave loss functions, break point grids, shares and link pairs within the bound',
  'Tests solve a few markets with one interconnector and mostly linear losses.',
  [B + 'interconnectors.py', B + 'solver_interface.py', S + 'markets.py'],
  [('flow variables', B + 'interconnectors.py:create'), ('interpolation', B + 'interconnectors.py:link_inter_loss_to_interpolation_weights, link_weights_to_inter_flow'),
   ('ordered sets', B + 'solver_interface.py:add_sos_type_2, add_sos_type_1')],
  ['SpotMarket.get_interconnector_flows', 'SpotMarket.get_region_dispatch_summary'])

p('C11', 'Generic constraints bound exactly the stated combination of dispatch',
  'A generic constraint limits (less than, greater than or equal to its right hand side) the coefficient-weighted sum of exactly the linked unit '
  'services, regional generation or FCAS totals, and interconnector flows (link flows counted with their sign factor), and coefficients linked '
  'to an FCAS requirement set add to that requirement in the same way. Sets with '
  'different names never affect each other, and terms for things not offered in the market count as zero.',
  ['inputs', 'configurations'],
  'all combinations of term kinds, signs, types, services and several sets within the bound',
  'Tests check one term kind at a time with one or two sets.',
  [B + 'solver_interface.py', S + 'markets.py'],
  [('generic lhs', B + 'solver_interface.py:create_unit_level_generic_constraint_lhs, create_region_level_generic_constraint_lhs, create_interconnector_generic_constraint_lhs')],
  ['SpotMarket.get_unit_dispatch', 'SpotMarket.get_interconnector_flows'])

p('C12', 'Elastic constraints are violated only when cheaper, at the stated cost',
  'Making a constraint set elastic never makes the market infeasible because of that set: the dispatch minimises offers plus violation cost times MW '
  'violated, summed over constraints and both directions of equalities, with a common cost or one cost per named set. Constraints with cost higher than any '
  'trade-off stay satisfied when they can be, the reported violation degree of a set is the total MW violated, every set in the market is listed by name, and sets that were not made '
  'elastic are never violated.',
  ['inputs', 'configurations'],
  'all constraint families, violation costs (below, equal, above the marginal value), directions and per-set costs within the bound',
  'Tests make one or two families elastic in one scenario each.',
  [B + 'elastic_constraints.py', S + 'markets.py'],
  [('deficit variables', B + 'elastic_constraints.py:create_deficit_variables'), ('api', S + 'markets.py:make_constraints_elastic, get_elastic_constraints_violation_degree')],
  ['SpotMarket.get_elastic_constraints_violation_degree', 'SpotMarket.get_unit_dispatch'])

p('C13', 'Over-constrained re-run changes prices only, and only when it should',
  'Allowing the over-constrained re-run never changes dispatch, flows, violation degrees or objective value. Prices differ from a plain dispatch only if some price '
  'reached the energy ceiling, energy floor or FCAS ceiling and a generic or FCAS constraint was violated; then prices are the '
  'marginal values of the same market with each violated constraint relaxed by its violation plus a small margin. Asking for '
  'a re-run without all three price limits is an error.',
  ['inputs', 'configurations'],
  'all patterns of violated generic/FCAS constraints (both directions), price limits and demand levels within the bound',
  'No offline test exercises the re-run; it only runs in the historical benchmark.',
  [S + 'markets.py', B + 'solver_interface.py'],
  [('re-run', S + 'markets.py:dispatch'), ('relaxation', B + 'solver_interface.py:update_rhs')],
  ['SpotMarket.get_energy_prices', 'SpotMarket.get_fcas_prices'])

p('C14', 'Tied offers are dispatched in proportion to their volumes',
  'With tie breaking set, energy offer bands of different units in the same region and direction with the same price (after loss factors) '
  'are dispatched the same fraction of their volume whenever nothing else prevents it, for any number of tied bands and any unit names. '
  'Tie breaking never raises the bid cost of the dispatch when its cost is small, and never links offers with different prices, regions or directions.',
  ['inputs', 'configurations'],
  'all patterns of two to four tied and untied bands, volumes, unit names, regions and directions within the bound',
  'One doctest with two single-band units.',
  [B + 'unit_constraints.py', S + 'markets.py'],
  [('pairs', B + 'unit_constraints.py:tie_break_constraints'), ('api', S + 'markets.py:set_tie_break_constraints')],
  ['SpotMarket.get_unit_dispatch'])

p('C15', 'The result depends only on the latest inputs, not on the build history',
  'Dispatch, prices, flows and violation degrees of a market depend only on the most recent value given for each input: applying the building calls in any valid order, '
  'repeating a call with the same or new values (with or without a violation cost), removing and re-adding fast start constraints, '
  'and dispatching in between or repeatedly give the same results as one freshly built market. Markets built in the same '
  'process do not influence each other.',
  ['histories'],
  'all orders and repetitions of building, removing and dispatching calls up to the depth bound',
  'Tests build each market once, in one order, and dispatch it once.',
  [S + 'markets.py'],
  [('keyed replacement', S + 'markets.py:SpotMarket.set_*'), ('ids', S + 'markets.py:_next_variable_id/_next_constraint_id')],
  ['SpotMarket.get_unit_dispatch', 'SpotMarket.get_energy_prices', 'SpotMarket.get_fcas_prices', 'SpotMarket.objective_value'])

p('C16', 'Fast start units follow their inflexibility profile',
  'With fast start constraints set, a unit ending the interval in mode zero or one is not dispatched, in mode two it runs exactly at the elapsed fraction of '
  'its minimum loading, in mode three at or above minimum loading and in mode four at or above the declining fraction of '
  'minimum loading, and units in any other mode or not listed are unconstrained. Ramp and joint ramping limits are dropped for units in modes zero to two in a fast '
  'start run, and in the second run a unit that left mode two during the interval may ramp from minimum loading only for the time since then; removing the '
  'constraints restores the unconstrained market.',
  ['inputs', 'configurations', 'histories'],
  'all modes, times in mode, profile lengths, minimum loadings, run types and set/remove sequences within the bound',
  'Only the historical benchmark (network data) exercises these constraints end to end.',
  [B + 'unit_constraints.py', B + 'ramp_rate_processing.py', S + 'markets.py'],
  [('profile constraints', B + 'unit_constraints.py:create_fast_start_profile_constraints'),
   ('ramp adjustment', B + 'ramp_rate_processing.py:_adjust_ramp_rates_for_fast_start_profiles'),
   ('removal', S + 'markets.py:remove_fast_start_constraints')],
  ['SpotMarket.get_unit_dispatch'])

p('C17', 'Malformed input tables are rejected before they can change the market',
  'Every building call rejects a table that has an unexpected column, lacks a required one, holds the wrong data type, a missing or infinite number, a negative bid volume, FCAS availability, loss factor or fast start value, a loss share outside zero to one, names an unknown unit, region, service, direction or type, or repeats a key, and accepts every table that does none of these. A rejected call raises an error and leaves the market giving the same results as if the call had not been made; calls made before the inputs they depend on are rejected too.',
  ['inputs', 'histories'],
  'all single and double faults of every input table of every building call, before and after valid calls',
  'Tests cover the validator on a few tables of a few calls.',
  [B + 'dataframe_validator.py', S + 'markets.py'],
  [('schemas', S + 'markets.py:SpotMarket._validate_*'), ('validator', B + 'dataframe_validator.py:DataFrameSchema.validate')],
  ['exceptions of SpotMarket building calls', 'SpotMarket.get_unit_dispatch'])

p('C18', 'Bidirectional units are one unit with a load and a generator side',
  'A unit registered on both sides must give energy bids and ramp data for both or is rejected; its generator side counts as supply and its load side as demand, '
  'each side keeps its own bids, loss factor and capacity, and ramping, joint ramping, trapezium and regulation limits see their net output. '
  'Units registered on one side only behave the same whether or not bidirectional units are present.',
  ['inputs', 'configurations'],
  'all bids, demand levels, capacities, FCAS services and initial outputs of a bidirectional unit among ordinary units within the bound',
  'Unit tests pass an empty list of bidirectional units everywhere; only network based tests include them.',
  [B + 'variable_ids.py', B + 'unit_constraints.py', B + 'fcas_constraints.py', B + 'ramp_rate_processing.py', S + 'markets.py'],
  [('sides', B + 'variable_ids.py:bids'), ('net limits', B + 'fcas_constraints.py:joint_ramping_constraints_*_bdu, joint_capacity_constraints')],
  ['SpotMarket.get_unit_dispatch', 'SpotMarket.get_region_dispatch_summary'])

p('C19', 'Consecutive intervals chain through the previous dispatch',
  "Running intervals in sequence with the time sequential helpers, each unit's initial output for the next interval is its energy dispatch of the previous one (net of its two sides for a bidirectional unit, zero if it was not dispatched, and the seed value in the first interval), so no unit moves more than its ramp rates allow between any two consecutive intervals. Ramp rates and unit rows come from the new interval's bids unchanged, and FCAS dispatch never leaks into the initial output.",
  ['histories', 'inputs'],
  'all demand and bid histories up to the depth bound with units entering and leaving',
  'Two doctests show one step each.',
  [S + 'time_sequential.py', S + 'markets.py'],
  [('seed', S + 'time_sequential.py:create_seed_ramp_rate_parameters'), ('next', S + 'time_sequential.py:construct_ramp_rate_parameters')],
  ['time_sequential.construct_ramp_rate_parameters', 'SpotMarket.get_unit_dispatch'])

p('H01', 'Fast start commitment follows the mode timetable',
  "For historical fast start units, the end mode and time in mode after a five minute interval are those obtained by running the unit's timetable forward: a unit stays in mode zero until committed, then spends exactly its bid time in modes one, two, three and four in turn, passing through modes whose length has elapsed within the interval, and time spent in mode zero does not count towards mode one. A unit committed by the first run (dispatched energy above zero while in mode zero) starts mode one, already running modes are not restarted, the time since leaving mode two is given only if it was left in the interval, and advancing interval by interval is consistent with the time elapsed.",
  ['inputs', 'histories'],
  'all mode lengths, current modes, times in mode and commitment outcomes within the bound, over several intervals',
  'Doctests list a few units of one interval that need downloaded data.',
  [H + 'units.py'],
  [('mode update', H + 'units.py:_update_modes / get_fast_start_profiles_for_dispatch')],
  ['UnitData.get_fast_start_profiles_for_dispatch'])

p('H02', 'Historical unit limits are the registered, bid and telemetered values',
  "From an interval's inputs, the unit tables hand over for every unit its region, dispatch direction and loss factor, its energy bid availability, its forecast for semi-scheduled units, its initial output and its bid and telemetered ramp rates, each from that unit's own record and never another's. Bidirectional units appear once per direction with the loss factor of that direction (the generator side uses the secondary transmission loss factor where there is one), semi-scheduled units have their bid availability as a limit only from 2023/07/07 13:40 on, and absent values mean no limit rather than a wrong one.",
  ['inputs', 'configurations'],
  'all small sets of units of every kind with present and absent fields within the bound',
  'Doctests print the head of real tables that need downloaded data.',
  [H + 'units.py', H + 'xml_cache.py'],
  [('unit tables', H + 'units.py:UnitData')],
  ['UnitData.get_unit_info', 'UnitData.get_unit_bid_availability', 'UnitData.get_unit_uigf_limits', 'UnitData.get_ramp_rates_used_for_energy_dispatch', 'UnitData.get_scada_ramp_rates'])

p('H03', 'FCAS offers are scaled and enabled by the AEMO pre-processing rules',
  'Processed FCAS offers are the bids with regulation trapeziums narrowed to the telemetered enablement limits and ramp capability and forecast-capped for semi-scheduled units without changing the slope of their sides, and an offer is kept exactly when the unit is available for the service: positive availability, a positive band volume, a forecast and energy availability that reach the trapezium, an initial output inside the enablement limits, and for regulation a unit under automatic generation control. Energy bids and the offers of other units are untouched by this, units without a registration record get no bids, and bids and trapeziums are returned for the same offers.',
  ['inputs', 'configurations'],
  'all trapezium shapes, telemetered limits, ramp rates, forecasts and initial outputs (present and absent) within the bound',
  'Doctests show one example of each scaling step; the order and combination of steps is not covered.',
  [H + 'units.py'],
  [('scaling', H + 'units.py:_scaling_for_agc_*, _scaling_for_uigf'), ('enablement', H + 'units.py:_enforce_preconditions_for_enabling_fcas')],
  ['UnitData.get_processed_bids', 'UnitData.get_fcas_max_availability', 'UnitData.get_contingency_services', 'UnitData.get_fcas_regulation_trapeziums'])

p('H04', 'Interconnector definitions and losses reproduce the published loss model',
  'For every historical interconnector the loss at a flow equals the published quadratic: (constant minus one plus demand weighted regional coefficients) times flow plus half the flow coefficient times flow squared, at the demands of the interval, with the published break points and share for the from region (one for Basslink). Market interconnectors are split into two opposing links with swapped regions, their own loss factors, the offered availability towards their to region as limit, and flow and break points with the sign of the link; regulated ones keep one link with their import and export limits.',
  ['inputs', 'configurations'],
  'all coefficient sets, demands, interconnector kinds and limits within the bound',
  'Tests evaluate the loss function at a few points.',
  [H + 'interconnectors.py'],
  [('loss functions', H + 'interconnectors.py:create_loss_functions'), ('definitions', H + 'interconnectors.py:InterconnectorData')],
  ['InterconnectorData.get_interconnector_definitions', 'InterconnectorData.get_interconnector_loss_model'])

p('H05', 'Historical constraint data is complete and separated by purpose',
  'For an interval, every invoked constraint with a right hand side appears exactly once with it and its type, as FCAS requirements if it lists regional terms and as a generic constraint otherwise, with all the unit, region and interconnector terms of that interval and its violation price. The helpers that return costs, demand and over-constrained information report the values of that interval.',
  ['inputs', 'configurations'],
  'all small sets of constraints with every mix of term kinds, types and versions within the bound',
  'Doctests print parts of real tables that need downloaded data.',
  [H + 'constraints.py', H + 'loaders.py', H + 'demand.py'],
  [('constraint tables', H + 'constraints.py:ConstraintData'), ('demand', H + 'demand.py')],
  ['ConstraintData.get_rhs_and_type_excluding_regional_fcas_constraints', 'ConstraintData.get_fcas_requirements', 'ConstraintData.get_unit_lhs', 'ConstraintData.get_violation_costs', 'DemandData.get_operational_demand'])

p('R01', 'Right hand side programs evaluate as the reverse polish program says',
  'The right hand side computed for a constraint is the value of its program of terms: values are read from the inputs (several telemetered values of one id are summed, those listed as bad included, the default is used when there is none, and a constant stands for its factor), operators act on the stack with the term multiplier, the arithmetic, threshold, conditional, maximum, minimum, absolute, exchange, duplicate and group operators behave as documented, and nested equations are evaluated first. Programs with branching operators are refused with an error, and the result is the same however often and in whatever order constraints are computed.',
  ['programs', 'inputs'],
  'all programs over the operator alphabet up to the length bound with all small values',
  'Tests evaluate one hand-written program per operator.',
  [H + 'rhs_calculator.py'],
  [('interpreter', H + 'rhs_calculator.py:_rpn_calc, _rpn_stack'), ('resolution', H + 'rhs_calculator.py:RHSCalc')],
  ['RHSCalc.compute_constraint_rhs'])

p('R02', 'Changing an input value changes exactly the dependent right hand sides',
  'After an input value is overridden, every constraint computed later uses the new value, all others keep theirs, reads return what was last written, and the last of several writes wins; a value that is not in the inputs cannot be set. The query for dependent constraints returns, once each, every constraint whose program reads that value directly or through nested equations and no others, and applying new right hand sides to constraint tables changes exactly the named sets.',
  ['histories', 'inputs'],
  'all sequences of overrides, reads and computations up to the depth bound',
  'A single doctest overrides one value once.',
  [H + 'rhs_calculator.py', S + 'help_functions/helper_functions.py'],
  [('override', H + 'rhs_calculator.py:update_spd_id_value'), ('query', H + 'rhs_calculator.py:get_rhs_constraint_equations_that_depend_value'), ('apply', S + 'help_functions/helper_functions.py:update_rhs_values')],
  ['RHSCalc.compute_constraint_rhs', 'RHSCalc.get_rhs_constraint_equations_that_depend_value'])

p('X01', 'Every dispatch interval maps to its own market-day input file',
  'Each five minute interval is read from the file of the market day it belongs to, which starts at 04:05 and ends at 04:00 the next day, with numbers 001 to 288 in order; distinct intervals never share a file and consecutive intervals get consecutive '
  'numbers across hour, day, month, leap-day and year boundaries. Both published naming variants are recognised, files present in the cache are used without downloading, '
  'and a missing file is fetched or reported, never silently replaced by another interval\'s.',
  ['inputs', 'histories'],
  'all intervals of several years and all combinations of cached variants',
  'A doctest or two use one interval.',
  [H + 'xml_cache.py'],
  [('naming', H + 'xml_cache.py:XMLCacheManager.get_file_name / interval number')],
  ['XMLCacheManager.get_file_name', 'XMLCacheManager.load_interval', 'XMLCacheManager.interval_inputs_in_cache'])

p('X02', 'Historical input files are read faithfully',
  'For every unit, constraint, interconnector and region in an interval file the values returned (bids, availabilities, initial conditions, fast start data, forecasts, right hand sides, violations, prices and flags) equal those in the file, per record, with defaults only where the file lacks them. When the interval was an intervention, initial conditions and fast start data are the what-if values of the pricing run where given, and right hand sides, violations and prices are those of the pricing run only.',
  ['inputs', 'configurations'],
  'all small documents with present and absent records and fields within the bound',
  'Doctests print the head of real files that have to be downloaded.',
  [H + 'xml_cache.py'],
  [('readers', H + 'xml_cache.py:XMLCacheManager.get_*')],
  ['XMLCacheManager.get_*'])

p('D01', 'Historical tables return the records effective for the interval',
  'A query of the local database for an interval returns exactly the records that apply to it: those of that settlement interval or trading day, for unit details the record of each unit with the latest start not after it, or for versioned data all records of the highest version of the latest effective date not after it, for each key independently. Data outside the interval, older versions and other keys never appear, whatever else has been loaded and in whatever order.',
  ['histories', 'inputs'],
  'all small table contents, load orders and query times (before, at, after each boundary) within the bound',
  'Doctests insert two or three rows.',
  [H + 'mms_db.py', H + 'loaders.py'],
  [('filters', H + 'mms_db.py:Inputs*.get_data')],
  ['DBManager tables get_data'])

p('D02', 'Loading data into the local database is complete and repeatable',
  'Adding a month of data appends exactly its records, setting a month replaces the table by them (constraint definition tables merge the months up to the given one, the latest record of a key winning), creating tables resets them, and populating a range of months loads every month of the range across year ends once. Repeating or interleaving these operations leaves exactly the records the sequence calls for, and columns beyond those of the table are dropped.',
  ['histories', 'fault_sequences'],
  'all sequences of create, add, set and populate calls up to the depth bound against a stand-in for the download site',
  'Population needs the network, so no offline test runs it.',
  [H + 'mms_db.py'],
  [('loading', H + 'mms_db.py:add_data, set_data, populate*')],
  ['DBManager tables contents'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
