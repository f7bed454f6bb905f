NA = []

REFT = 'property-based testing: generated markets vs an independently written MILP (HiGHS) plus direct predicates'

prop('C01', 'Regional energy balance closes and the region summary adds up',
     'In every dispatched market, for each region with a demand, generation minus consumption plus interconnector '
     'deliveries minus the region\'s share of losses equals the demand, except for a mismatch that is reported as '
     'violation when demand may be violated.  The region dispatch summary has one row per region with units or '
     'interconnectors, and its dispatch, inflow, transmission loss and interconnector loss figures reproduce that '
     'balance.',
     ['inputs'], 'all markets: any regions, generators, loads, bidirectional units, loss factors, interconnectors and '
     'links with or without losses',
     TESTS + 'they never combine loads, bidirectional units, loss factors and lossy or linked interconnectors.',
     [M, B + 'market_constraints.py', B + 'interconnectors.py', B + 'variable_ids.py'],
     [('set_demand_constraints / energy market constraints', M), ('interconnector variables and loss shares',
                                                                  B + 'interconnectors.py'),
      ('get_region_dispatch_summary', M)],
     ['get_unit_dispatch', 'get_interconnector_flows', 'get_region_dispatch_summary'], technique=REFT)

prop('C02', 'Dispatch is feasible and of least cost; infeasibility is reported',
     'A dispatched market satisfies every limit that was set and its total cost (bids priced at the regional node plus '
     'violation costs) is the minimum over all dispatches that satisfy them; the reported objective value is that '
     'cost.  A market is reported infeasible exactly when no such dispatch exists.',
     ['inputs', 'configurations'], 'all combinations of input tables and setters',
     TESTS + 'optimality and feasibility of co-optimised markets with many constraint families are never compared with '
     'an independent optimum.',
     [M, B + 'solver_interface.py', B + 'objective_function.py'],
     [('SpotMarket.dispatch', M), ('InterfaceToSolver.optimize', B + 'solver_interface.py'),
      ('objective_function.bids / scale_by_loss_factors', B + 'objective_function.py')],
     ['get_unit_dispatch', 'objective_value', 'ValueError on infeasible markets'], technique=REFT)

prop('C03', 'Energy and FCAS prices are marginal costs, also after the OCD re-run',
     'The reported energy price of each region and FCAS price of each region and service are marginal costs of the '
     'dispatched market: buying or selling at these prices could not lower the cost of supply.  When over constrained '
     'dispatch re-runs are allowed, a price reaches the ceiling or floor and generic or FCAS constraints are violated, '
     'prices are the marginal costs after relaxing exactly the violated constraints by their violation plus 0.01 MW, '
     'and dispatch is unchanged; otherwise allowing re-runs changes nothing.',
     ['inputs', 'configurations'], 'all markets that are convex around their dispatch, all price caps',
     TESTS + 'prices in degenerate, co-optimised, lossy or over constrained markets are not covered.',
     [M, B + 'solver_interface.py'],
     [('price_constraints', B + 'solver_interface.py'), ('linearisation of losses', M),
      ('over constrained dispatch re-run', M)],
     ['get_energy_prices', 'get_fcas_prices'],
     technique='property-based testing: trader (no-arbitrage) oracle on an independent LP of the generated market')

prop('C04', 'No unit is dispatched beyond its offer, capacity limit or forecast',
     'Every unit and service is dispatched between zero and the total of its offered bands; energy additionally stays '
     'within the bid capacity limit and the unconstrained intermittent generation forecast, unless those limits carry a '
     'violation cost, in which case any excess is reported as violation.',
     ['inputs'], 'all bid stacks, limits, sides and violation costs',
     TESTS + 'awkward band sizes, loads, bidirectional units and soft limits are not sampled.',
     [M, B + 'unit_constraints.py', B + 'variable_ids.py'],
     [('bid variables', B + 'variable_ids.py'), ('capacity constraints', B + 'unit_constraints.py')],
     ['get_unit_dispatch', 'get_elastic_constraints_violation_degree'], technique=REFT)

prop('C05', 'Energy targets stay within what ramp rates allow',
     'Energy targets stay within initial output plus or minus the lower of bid and telemetered ramp rate over the '
     'dispatch interval; a bidirectional unit that crosses zero ramps on each side with that side\'s rate.  Fast start '
     'units in start-up are exempt in the modes documented for each run type, and after leaving mode two ramp from '
     'their minimum loading.',
     ['inputs', 'configurations'], 'all initial outputs, rates (zero and missing included), interval lengths, run types, '
     'unit kinds',
     TESTS + 'zero crossings, missing telemetry, interval lengths and run types are sampled by a few examples only.',
     [M, B + 'ramp_rate_processing.py', B + 'unit_constraints.py'],
     [('composite bidirectional ramp rates', B + 'ramp_rate_processing.py'), ('set_unit_ramp_rate_constraints', M)],
     ['get_unit_dispatch'],
     technique='property-based testing: probing the reachable output range of generated units, and markets vs MILP')

prop('C06', 'Fast start units follow their inflexibility profile',
     'A fast start unit is held at zero in modes zero and one, follows the linear start-up trajectory in mode two, stays '
     'at or above minimum loading in mode three, and above the linearly declining minimum in mode four; removing the '
     'fast start constraints lifts all of this.',
     ['inputs', 'histories'], 'all modes, times in mode, profile lengths, minimum loadings',
     TESTS + 'one example per mode at most.',
     [M, B + 'unit_constraints.py'],
     [('fast_start_mode_*_constraints', B + 'unit_constraints.py'), ('set/remove_fast_start_constraints', M)],
     ['get_unit_dispatch'],
     technique='property-based testing: probing generated profiles, and markets vs MILP')

prop('C07', 'FCAS enablement respects trapeziums and ramping jointly with energy',
     'FCAS enablement of a unit lies within its maximum availability and, at the unit\'s energy target and regulation '
     'enablement, under the slopes of its trapeziums; energy plus raise or lower regulation stays within the telemetered '
     'ramping range; loads and both sides of bidirectional units included.  Reported FCAS availability is the largest '
     'enablement these limits would allow with everything else unchanged.',
     ['inputs'], 'all trapeziums, services, unit kinds, ramp rates and energy targets',
     TESTS + 'bidirectional units, loads, all-services combinations and degenerate slopes are not sampled.',
     [M, B + 'fcas_constraints.py'],
     [('joint capacity / energy and regulation / joint ramping constraints', B + 'fcas_constraints.py'),
      ('get_fcas_availability', M)],
     ['get_unit_dispatch', 'get_fcas_availability'],
     technique='property-based testing: trapezium height probes on generated units, and markets vs MILP')

prop('C08', 'FCAS requirements and generic constraints hold for the dispatch',
     'The enablement of the units in a requirement\'s regions meets each FCAS requirement in the stated direction, and '
     'each generic constraint holds for the stated combination of unit, region and interconnector quantities, unless '
     'violable, in which case the shortfall is the reported violation.',
     ['inputs'], 'all sets, services, regions, coefficients, directions, violation costs (single or per set)',
     TESTS + 'sets spanning regions, services, links and bidirectional units are not combined.',
     [M, B + 'market_constraints.py', B + 'solver_interface.py'],
     [('fcas market constraints', B + 'market_constraints.py'), ('generic constraint lhs builders',
                                                                 B + 'solver_interface.py')],
     ['get_unit_dispatch', 'get_interconnector_flows', 'get_elastic_constraints_violation_degree'], technique=REFT)

prop('C09', 'Elastic constraints are broken only at their price, and reported exactly',
     'A constraint given a violation cost, by its setter or afterwards, is broken only when that is cheaper at that cost '
     'per MW, on either side of an equality, with per-set costs applied to the right set; the reported violation degree '
     'of each constraint family is the amount by which the dispatch breaks it.',
     ['inputs', 'histories'], 'all constraint families, costs and dispatch outcomes',
     TESTS + 'violation is shown for a few families in one direction.',
     [M, B + 'elastic_constraints.py'],
     [('create_deficit_variables', B + 'elastic_constraints.py'), ('make_constraints_elastic', M)],
     ['get_elastic_constraints_violation_degree', 'objective_value', 'get_unit_dispatch'], technique=REFT)

prop('C10', 'Interconnector flows obey limits, loss model and link exclusivity',
     'Every interconnector flow is within its limits, its reported losses are the linear interpolation of the loss '
     'function at the reported flow between neighbouring break points even when losses would be profitable, and at most '
     'one link of a linked interconnector carries flow.',
     ['inputs'], 'all loss functions, break points, loss shares, limits, links and price levels',
     TESTS + 'negative prices, uneven break points, asymmetric losses and link pairs are not explored.',
     [M, B + 'interconnectors.py', B + 'solver_interface.py'],
     [('special ordered sets', B + 'solver_interface.py'), ('loss interpolation', B + 'interconnectors.py')],
     ['get_interconnector_flows'], technique=REFT)

prop('C11', 'Tied bids share dispatch pro rata without changing the cost of supply',
     'With tie break constraints, equally priced energy bids of different units of the same kind in a region are loaded '
     'to the same fraction of their size whenever nothing else distinguishes them, whatever the unit names; the cost of '
     'supply does not change by more than the tie break costs.',
     ['inputs'], 'all bid stacks with ties, unit names, sides',
     TESTS + 'one two-unit tie is tested.',
     [M, B + 'unit_constraints.py'], [('tie_break_constraints', B + 'unit_constraints.py')],
     ['get_unit_dispatch', 'objective_value'], technique=REFT)

prop('C12', 'Equivalent inputs, equal outcomes; inputs and results are not shared',
     'Row order, index labels, column order, setter order, names, omitted optional columns, splitting a band, empty bands '
     'and idle units do not change the cost of a market.  Setters neither modify their input tables nor depend on them '
     'afterwards, editing returned tables does not change the market, and dispatching again returns the same results.',
     ['inputs', 'histories'], 'all markets and all such transformations',
     TESTS + 'metamorphic relations are not tested.',
     [M, 'src/nempy/help_functions/helper_functions.py'], [('setters and getters', M)],
     ['all setters and getters of SpotMarket'],
     technique='property-based testing: metamorphic relations and input/output aliasing probes on generated markets')

prop('C13', 'An edited and re-dispatched market behaves like a fresh one',
     'After any sequence of setter calls, violation cost changes, fast start removals and dispatches, a dispatch gives '
     'the outcome of a new market built from the last-issued inputs: nothing from replaced inputs lingers and nothing '
     'not replaced is lost.',
     ['histories'], 'all edit histories (stateful)',
     TESTS + 'markets are built once and dispatched once or twice.',
     [M], [('constraint and variable bookkeeping', M), ('_remove_unit_level_constraint_set', M)],
     ['get_unit_dispatch', 'objective_value'],
     technique='stateful property-based testing: generated edit histories vs MILP of the final inputs')

prop('C14', 'Malformed inputs are rejected and leave the market unchanged',
     'A table with missing, unexpected or wrongly typed columns, null or infinite values, repeated keys, or unknown '
     'units, regions, services or sides, unusable violation costs, and calls out of order, raise the documented error, and a rejected call leaves '
     'the market dispatching as before.',
     ['inputs', 'histories'], 'all setters, all positions of the defect',
     TESTS + 'a few bad inputs per setter.',
     [M, B + 'dataframe_validator.py'], [('schemas', M), ('DataFrameSchema.validate', B + 'dataframe_validator.py')],
     ['exceptions of the setters'],
     technique='property-based testing: defect injection into generated input tables, state compared afterwards')

XC = H + 'xml_cache.py'
RC = H + 'rhs_calculator.py'

prop('C15', 'Recomputed constraint right hand sides follow AEMO\'s RPN rules',
     'For any generic constraint equation in a NEMDE file, the computed right hand side is the value of the equation under '
     'the reverse polish rules of AEMO\'s constraint implementation guidelines (operators, stack, groups, functions, '
     'defaults) at the current input values.  Updating an input changes exactly the constraints that depend on it, and '
     'those are the constraints listed as dependent on it.',
     ['inputs', 'histories'], 'all equations, input values and histories of updates and computations',
     TESTS + 'a dozen hand written equations and, with data not available offline, recorded cases.',
     [RC], [('_resolve_rhs', RC), ('get_rhs_constraint_equations_that_depend_value', RC)],
     ['RHSCalc.compute_constraint_rhs', 'RHSCalc.update_spd_id_value',
      'RHSCalc.get_rhs_constraint_equations_that_depend_value'],
     technique='property-based testing: generated equations and update histories vs an independent RPN interpreter')

prop('C16', 'NEMDE files are found, fetched and reported faithfully',
     'Loading an interval reads the file of that interval and no other, whatever was loaded before, downloading it only '
     'when it is not cached, and every table reports exactly the values the file holds, the intervention or the '
     'non-intervention run as documented, with absent values missing rather than invented.  A search for intervals with '
     'violated constraints, or for a constraint, names exactly the intervals that have them, and unavailable data raises '
     'the documented error.',
     ['inputs', 'histories', 'fault_sequences'], 'all case files, orders of loading and download outcomes',
     TESTS + 'the historical tests need downloads; only a few intervals were ever sampled.',
     [XC], [('XMLCacheManager', XC), ('load_interval', XC), ('populate', XC)],
     ['XMLCacheManager getters', 'files in the cache directory', 'MissingDataError'],
     technique='property-based testing: written-then-read case files (round trip) and download histories vs a stand-in '
               'NEMWeb')

MD = H + 'mms_db.py'

prop('C17', 'The MMS database returns exactly the records that applied to an interval',
     'After any history of loading AEMO\'s monthly tables, the data returned for a dispatch interval is exactly the set of '
     'published non-intervention records that applied to it: that interval\'s results, the latest effective version of '
     'standing data, and the constraint versions that dispatch used.  Months accumulate where documented and replace '
     'where documented, a record is never returned twice, and unavailable months raise the documented error and change '
     'nothing.',
     ['inputs', 'histories', 'fault_sequences'], 'all archives, loading histories and intervals',
     TESTS + 'the database is only exercised on data that has to be downloaded.',
     [MD], [('DBManager.populate', MD), ('get_data queries', MD), ('_AllHistDataSource.set_data', MD)],
     ['DBManager tables: get_data'],
     technique='stateful property-based testing: generated archives and loading histories vs an in-memory model')

prop('C18', 'Historical bids and unit data reach the market as the FCAS model prescribes',
     'For any NEMDE file and registration data, the bids, trapeziums, limits, ramp rates and unit details handed to the '
     'market are those of the file: FCAS trapeziums scaled by AGC limits, ramp rates and UIGF, offers failing the '
     'enablement preconditions removed, prices referred as documented, and BDU sides labelled.  The data does not depend '
     'on the order the getters are called in, and calls out of order raise the documented error.',
     ['inputs', 'histories'], 'all case files, registration records and call orders',
     TESTS + 'scaling helpers are sampled on one or two units each; the pipeline needs downloads.',
     [H + 'units.py', H + 'loaders.py'], [('UnitData', H + 'units.py'), ('scaling_for_agc_enablement_limits', H + 'units.py'),
      ('enforce_preconditions_for_enabling_fcas', H + 'units.py')],
     ['UnitData getters'],
     technique='property-based testing: generated case files and registration data vs an independent FCAS model oracle')

prop('C19', 'Fast start units progress through their modes as the inflexibility profile says',
     'For every fast start unit, initial mode, time in mode, profile and first pass target, the mode and time in mode at '
     'the end of the interval, and the time left since mode two ended, are those reached by following AEMO\'s fast '
     'start inflexibility profile minute by minute, and only units committed by the first pass start.',
     ['inputs'], 'all profiles, initial conditions and first pass dispatch',
     TESTS + 'individual transitions are sampled.',
     [H + 'units.py'], [('_update_modes', H + 'units.py'), ('get_fast_start_profiles_for_dispatch', H + 'units.py')],
     ['UnitData.get_fast_start_profiles_for_dispatch', 'get_fast_start_violation'],
     technique='property-based testing: generated profiles and targets vs a minute by minute simulation')

prop('C20', 'Historical constraints, interconnectors, losses and demand are passed on intact',
     'For any interval, the generic constraints (terms, types, right hand sides, costs), FCAS requirements, '
     'interconnectors, market links, loss functions, break points and demand handed to the market are those AEMO published '
     'for that interval, converted to nempy\'s sign and naming conventions, whichever intervals were loaded before.',
     ['inputs', 'histories'], 'all case files, MMS tables, sequences of intervals and flows',
     TESTS + 'only a loss function example runs offline; the rest needs downloads.',
     [H + 'constraints.py', H + 'interconnectors.py', H + 'demand.py', H + 'loaders.py'],
     [('ConstraintData', H + 'constraints.py'), ('InterconnectorData', H + 'interconnectors.py'),
      ('create_loss_functions', H + 'interconnectors.py'), ('DemandData', H + 'demand.py')],
     ['ConstraintData, InterconnectorData and DemandData getters'],
     technique='property-based testing: written-then-read case files and tables (round trip) vs the published values')

TS = 'src/nempy/time_sequential.py'

prop('C21', 'A time sequential model starts each interval from the previous targets',
     'In any sequence of intervals, the ramp inputs made by the time sequential module have one row per unit and side, '
     'start each unit from its energy target in the previous interval (zero if it had none, generation minus consumption '
     'for a bidirectional unit) or, for the first interval, from the given outputs, and carry that interval\'s ramp rates; '
     'the targets of each interval are then reachable from those of the one before.',
     ['inputs', 'histories'], 'all sequences of dispatch results, bids, demands and ramp rates',
     TESTS + 'two one-line examples of generators are tested, no sequence is.',
     [TS, M], [('construct_ramp_rate_parameters', TS), ('create_seed_ramp_rate_parameters', TS)],
     ['construct_ramp_rate_parameters', 'create_seed_ramp_rate_parameters', 'get_unit_dispatch'],
     technique='stateful property-based testing: generated interval sequences vs MILP chained on the reported targets')

prop('C22', 'Recreating an interval solves the dispatch problem its published files describe',
     'For any NEMDE file and MMS tables of an interval, the documented sequence of calls (load, set up, dispatch, commit '
     'fast start units, dispatch again) runs, and both dispatch passes have the feasibility and the cost of the dispatch '
     'problem that the published bids, limits, constraints, loss models and demand define.',
     ['inputs', 'histories'], 'all published intervals',
     TESTS + 'the historical tests need downloads and compare a few intervals with recorded outcomes.',
     [M, H + 'units.py', H + 'constraints.py', H + 'interconnectors.py', H + 'demand.py', H + 'loaders.py'],
     [('SpotMarket', M), ('UnitData', H + 'units.py'), ('ConstraintData', H + 'constraints.py')],
     ['SpotMarket.dispatch', 'objective_value', 'get_unit_dispatch', 'get_interconnector_flows'],
     technique='property-based testing: generated case files and tables vs a MILP built from the drawn data')
