import json
F='flixOpt/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d={'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
       'anchors':{'files':[F+f for f in files],'mechanism':[{'name':n,'where':F+w} for n,w in mech],'hook_needed':None}}
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[{'name':a,'meaning':b,'where':F+c} for a,b,c in state]
    P.append(d)
SYS='every energy system that can be defined (topology, sizes, profiles, effects, time axis, number formats) and every step of its horizon'
FEW='the tests compare a few totals of a handful of fixed systems on one equidistant axis'
RES='results of a solved calculation'

p('C01','Every bus balances in every step; any excess is reported and paid for',
 'In every step of every solved calculation, the flows into a bus equal the flows out of it, up to the reported excess input and excess output. A bus without an excess penalty never has any excess; where one is allowed, the excess is non-negative, is paid for with the penalty per flow hour times the hours of the step, and the sum of those payments is the reported penalty that enters the objective.',
 ['inputs'],SYS,FEW+'; excess is never used there and penalties as time series or on uneven steps do not occur',
 ['elements.py','effects.py'],[('BusModel balance and excess','elements.py'),('penalty shares','effects.py')],[RES])
p('C02','Converters keep to their conversion factors in every step',
 'In every step of every solved calculation, each linear equation of a converter holds between its flow rates: inputs times their factors equal outputs times their factors, with the factor valid in that step. The ready-made converters (boiler, power-to-heat, heat pump, cooling tower, CHP, heat pump with heat source) obey the efficiencies and COPs they were given, for scalars and time series alike.',
 ['inputs'],SYS,FEW+'; time-varying factors, several inputs or outputs and most ready-made converters are not tested',
 ['components.py','linear_converters.py'],[('LinearConverterModel equations','components.py'),('factors of ready-made converters','linear_converters.py')],[RES])
p('C03','A piecewise converter always operates on one of its pieces',
 'In every step a converter with piecewise conversion operates on exactly one of its pieces, at the same relative position in all of its flows, with the breakpoints valid in that step; it is off, with all flows zero, only if it can be switched off or a piece admits it. No operating point on a piece is excluded.',
 ['inputs'],'every piecewise definition: gaps, single points, time-varying breakpoints, several flows, with and without on/off behaviour','one test system has piecewise conversion and compares one total',
 ['components.py','features.py'],[('piecewise model: lambdas and piece selection','features.py'),('MultipleSegmentsModel','features.py')],[RES])
p('C04','Storages conserve energy and keep to capacity, start and end conditions',
 'From step to step the charge state of a storage changes by charging times efficiency minus discharging divided by efficiency minus the relative loss over the hours of that step, and the reported net discharge is discharging minus charging. The charge state stays within its relative limits times the (chosen) capacity at every point in time including the last, starts at the given value (or equals the final one if cyclic), ends within the given final limits, and no schedule that respects all this is excluded.',
 ['inputs'],'every storage definition and time axis, in particular losses and efficiencies over uneven steps, time-varying limits, investments in capacity, cyclic and free start','one test system has a storage on hourly steps; uneven steps, cyclic, free start and final limits are untested',
 ['components.py'],[('StorageModel charge-state balance, bounds, initial and final conditions','components.py')],[RES])
p('C05','Flow rates keep to size, profile, flow-hour and load-factor limits',
 'Every flow rate stays between relative minimum and relative maximum times the size of the flow in every step (or is zero where it can be off), and equals a fixed profile times the size where one is given. Total flow hours and load factors over the horizon stay within their given minimum and maximum, counting the hours of each step, and these are the only restrictions the definition of a flow imposes.',
 ['inputs'],SYS+', sizes given, zero, omitted or invested','relative limits appear in single tests with scalar values; flow-hour and load-factor limits with uneven steps or investments are untested',
 ['elements.py'],[('FlowModel bounds, flow hours, load factor','elements.py')],[RES])
p('C06','On/off states agree with the flows, on-hours and mutual exclusion',
 'An element reported as off in a step has zero flow, and one reported as on keeps at least to its minimum; a component is on exactly if one of its flows is. The reported on-hours are the hours of all on-steps and stay within the given totals, running costs are charged for exactly these hours, and flows declared mutually exclusive are never used in the same step.',
 ['inputs'],SYS+' with on/off behaviour on flows and components','tests check on/off patterns of one boiler on hourly steps',
 ['features.py','elements.py','components.py'],[('OnOffModel','features.py'),('PreventSimultaneousUsageModel','features.py')],[RES])
p('C07','Start-ups and shut-downs are counted, limited and paid for correctly',
 'A start is reported in exactly the steps in which an element is on and was off before, a stop in exactly the opposite case, where the state before the first step follows from the given previous flow rates. The number of starts never exceeds its limit, and the effects per start are charged once per start.',
 ['inputs','histories'],'every on/off pattern and every previous history (scalar, list, none) of flows and components','tests look at start costs of one boiler with one pattern',
 ['features.py'],[('OnOffModel switch constraints','features.py'),('previous state from previous flow rates','features.py')],[RES])
p('C08','Minimum and maximum consecutive on and off durations hold',
 'Every uninterrupted run of on-steps lasts at least the minimum and at most the maximum on-duration, and likewise for off-runs, measured in the hours of the steps and counting the time an element was already on or off before the horizon; a run cut off by the end of the horizon may be shorter. Nothing else about the pattern is restricted.',
 ['inputs','histories'],'every on/off pattern, limits constant or varying, equidistant or uneven steps, every previous history and previous step length','tests check three limits with one boiler on hourly steps',
 ['features.py'],[('OnOffModel consecutive duration constraints','features.py'),('previous duration','features.py')],[RES])
p('C09','Investment sizes: within limits if built, zero if declined, built if mandatory',
 'A chosen size lies between the minimum and maximum (or equals the fixed size) if the investment is made and is zero otherwise, and a mandatory investment is always made; the reported decision agrees with the size. Flow rates and charge states are limited by the chosen size, and declining an optional investment is always possible where the rest of the system allows it.',
 ['inputs'],'every investment definition (fixed, bounded, unbounded, optional, piecewise) for flows and storages, combined with on/off behaviour and profiles','tests cover six boilers with fixed parameters',
 ['features.py','interface.py','elements.py','components.py'],[('InvestmentModel','features.py')],[RES])
p('C10','Investment effects follow from size and decision',
 'Each effect is charged the fixed effects if the investment is made, the specific effects times the chosen size, the piecewise effects at the chosen size, and the divestment effects if an optional investment is declined; nothing else. They appear once, in the investment part of each effect, and are not scaled by the horizon.',
 ['inputs'],'every combination of fixed, specific, piecewise and divestment effects and several effects with shares','tests check totals of a single effect for a few systems',
 ['features.py','effects.py','interface.py'],[('InvestmentModel shares','features.py'),('effect collection','effects.py')],[RES])
p('C11','Effects add up: per step, per kind, in total and between effects',
 'For every effect, the operation value of each step is the sum of all contributions of flows and states (per flow hour, per running hour, per start, times the hours of the step where applicable) plus the shares of other effects in that step, and the investment value is the sum of all investment contributions plus shares. Sums over the horizon and the totals are exactly the sums of these parts.',
 ['inputs'],'every set of effects and cross-effect shares (also varying in time and chained) and every contribution','tests compare totals of one or two effects with a fixed share',
 ['effects.py'],[('EffectModel, EffectCollectionModel','effects.py'),('ShareAllocationModel','features.py')],[RES])
p('C12','Limits on effects hold',
 'Limits on an effect (in total, in operation, in investment, per hour of each step) hold in every returned result, including what other effects contribute to it. A limit excludes exactly the schedules that violate it, so the optimum under the limit is reached.',
 ['inputs'],'every combination of minimum and maximum limits on one or several effects that bind','one test limits one effect',
 ['effects.py'],[('limits of the effect shares','effects.py'),('ShareAllocationModel bounds','features.py')],[RES])
p('C13','The solution is an optimum of the defined system and the objective says so',
 'The objective equals the total of the objective effect plus the penalty. If the definition admits a solution one is returned, and no schedule and sizing that the definition admits has a better objective, whatever features are combined.',
 ['inputs'],SYS+' with all features combined','tests assert the objective of a handful of systems that the authors computed with the same code',
 ['structure.py','effects.py','math_modeling.py'],[('objective','effects.py'),('whole model','structure.py')],[RES])
p('C14','Without a solution there are no results, no files, and the system stays usable',
 'If the system has no solution, or the solver fails, is interrupted or finds nothing in its time limit, the calculation raises an error, and neither numbers that look like results nor result files come out of it. The same energy system can be calculated again afterwards, and then behaves as if the failure had not happened.',
 ['fault_sequences','crash_points','inputs'],'every point of failure (definition, modelling, before, within and after the solver call, every segment), every infeasible system, every sequence of failed and successful calculations','no test lets a calculation fail',
 ['structure.py','calculation.py','math_modeling.py','solvers.py'],[('SystemModel.solve and solver status','structure.py'),('PyomoModel.solve, results','math_modeling.py'),('Calculation.results and saving','calculation.py')],['exceptions, results() and the results directory'])
p('C15','Transmissions deliver what enters minus the losses, in each direction',
 'In every step the flow out of a transmission equals the flow in, times one minus the relative losses, minus the absolute losses while it is in use; it delivers nothing when nothing enters. Both directions obey this with the same size where the size is invested, and are not used at once if that is excluded.',
 ['inputs'],'every transmission: one or two directions, losses constant or varying, with and without investment and on/off behaviour','two test systems with constant losses',
 ['components.py'],[('TransmissionModel','components.py')],[RES])
p('C16','Segmented calculation: segments hand over their state and join seamlessly',
 'Each segment is an optimum of its own sub-horizon, starting from exactly the charge states and flow rates the previous segment had at that time. The joined series contain every step of the chosen horizon exactly once, in order, with the storage balance holding across joints, and the energy system has its original start values afterwards, also if a segment failed.',
 ['inputs','histories','fault_sequences'],'every segment length, overlap and horizon (also with a shorter last segment), any selection of steps, a failure in any segment','one test runs one segmentation and compares a total loosely',
 ['calculation.py'],[('SegmentedCalculation','calculation.py'),('joining of nested arrays','calculation.py')],['results of each segment, joined results, start values of flows and storages'])
p('C17','Aggregated calculation: equal decisions in equal periods, else nothing changes',
 'The periods of the horizon are partitioned into clusters; the clustering is made from exactly the time series, weights, groups and peaks asked for; all periods of a cluster get the same aggregated data and the same decisions (flow rates, or only on/off states if so chosen), except for the permitted share of deviations, which are penalised. Subject to that, the result is an optimum of the system on the aggregated data; storages and components not chosen are left free.',
 ['inputs','configurations'],'every data set, period length, number of periods, peak selection, freedom, storage fixing and choice of components','one test runs one aggregation and compares a total loosely',
 ['aggregation.py','calculation.py'],[('Aggregation, AggregationModel, TimeSeriesCollection','aggregation.py'),('AggregatedCalculation','calculation.py')],['aggregated data, cluster indices and '+RES])
p('C18','Calculations are independent of each other and leave the input untouched',
 'The result of a calculation depends only on the definition and its own options, not on what was calculated before with the same energy system (full, partial, segmented, aggregated, repeated, failed), and results already obtained do not change when something else is calculated. Objects the user hands over (arrays, dicts, parameters shared by several elements) are never modified.',
 ['histories'],'every sequence of calculations of every kind on one energy system, read early or late, with shared parameter objects','each test builds a fresh system and calculates it once',
 ['calculation.py','flow_system.py','core.py','structure.py'],[('active indices and aggregated data of TimeSeries','core.py'),('result caching','calculation.py'),('transform_data','flow_system.py')],['results() of several calculations on one system, objects handed over'])
p('C19','Saved results can be loaded again without loss',
 'Everything a calculation returned is in the saved files with the same values, structure and time axis, and loading them gives back the same flow rates, charge states, effects, sums and sizes per element. The tabular views derived from loaded results (per component, bus, flow rates, flow hours, effects) contain the same numbers with the right sign, step and unit.',
 ['inputs','histories'],'every system, label, time axis and kind of calculation that can be saved','one test loads one saved result and compares a few values',
 ['results.py','calculation.py','structure.py'],[('saving','calculation.py'),('conversion of data types','structure.py'),('CalculationResults','results.py')],['saved json and yaml files, loaded results'])
p('C20','The time axis means what it says: step lengths, last step and chosen steps',
 'The hours of a step are the distance to the next time stamp, the last one as given or as long as the one before, whatever the resolution of the time stamps; create_datetime_array makes exactly the time stamps asked for. Calculating chosen steps of a system gives the same as calculating a system that was defined on these steps only.',
 ['inputs','configurations'],'every axis (equidistant or not, every time unit, every last step, one-step and long) and every contiguous choice of steps','tests use one hourly axis and one uneven axis',
 ['flow_system.py','core.py','structure.py'],[('FlowSystem time handling','flow_system.py'),('TimeSeries active data','core.py')],[RES])
p('C21','The model given to the solver is exactly the model that was stated',
 'For variables, sums of terms on all or some indices, equations, inequalities, bounds, fixed values and objective stated through the modelling layer, the solver receives exactly these (and the gap, time limit and threads asked for), so optimum and feasibility equal those of the stated model. The values read back belong to the right variable and index, and the reported numbers of variables and equations are right.',
 ['inputs','programs'],'every model: scalar and vector variables, binaries, fixed parts, factors and constants scalar or vector, sums over indices, subsets of indices, both directions of inequalities','the modelling layer has no tests of its own',
 ['math_modeling.py'],[('Variable, Equation, Summand, SumOfSummand','math_modeling.py'),('PyomoModel translation','math_modeling.py')],['solution of models stated directly'])
p('C22','Equivalent definitions give equivalent results',
 'A value given as number, numpy number, constant array or time series object means the same; effects given as one number mean the standard effect; the order in which elements, flows, effects or keys are given has no influence. Two definitions that mean the same thing have the same optimum and equivalent results.',
 ['inputs','configurations'],'every parameter that accepts several representations, every order of definition','each test uses one representation and one order',
 ['core.py','structure.py','effects.py','flow_system.py'],[('as_vector, TimeSeries','core.py'),('effect values to dict','effects.py')],[RES])
p('C23','Contradictory definitions are rejected, not calculated',
 'Definitions that contradict themselves or refer to something that is not there (duplicate labels, missing or several standard or objective effects, unknown bus or effect, arrays of the wrong length, unordered time stamps, incompatible options) raise an error before anything is solved, and valid ones never do. A configuration that is invalid is rejected and leaves the settings as they were.',
 ['inputs','configurations'],'every kind of contradiction placed anywhere in an otherwise valid system','no test defines an invalid system',
 ['flow_system.py','elements.py','components.py','effects.py','core.py','interface.py','config.py'],[('plausibility checks','flow_system.py'),('label checks','structure.py'),('config loading','config.py')],['exceptions'])
p('C24','Plots and tables show the data they are given',
 'Every line, bar, area and heat map shows each value of the data at its own time and with its own label, none lost, doubled, moved or changed in sign; arranging series into a heat map puts every value at the period and step its time stamp belongs to. Plotting never changes the data it is given, and saved figures exist where they were asked for.',
 ['inputs','configurations'],'every data frame (columns, index, gaps, signs) and every mode and option of the plotting functions','one test class draws figures without looking at them',
 ['plotting.py','results.py'],[('with_plotly, with_matplotlib, heat map functions','plotting.py'),('plot methods of results','results.py')],['data of the figures'])
p('C25','What a calculation and a system say about themselves is true',
 'The summary that is printed after solving, its warnings about excess and penalties, the main results, the described variables and equations and the infos of every calculation agree with the results it returned, also after other calculations of the same system or with the same solver. The short description of a system and its elements (to_json, str) names everything that was given, arrays of up to 50 values rounded to two decimals, longer ones by their true minimum, maximum, mean, median, deviation, length and centre.',
 ['inputs','histories'],'every system, kind of calculation and order of calculations; every length of data','no test looks at a summary, a description or the infos',
 ['structure.py','calculation.py','math_modeling.py','utils.py'],[('SystemModel.main_results and summary','structure.py'),('description of variables and constraints','math_modeling.py'),('compact representation','structure.py')],['log messages, infos, json files, strings'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
import re
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
    n=len(re.findall(r'[.](?:\s|$)',d['statement'])); assert n<=3,(d['id'],n)
