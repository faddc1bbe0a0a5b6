import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,title
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe or [],"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)
S="src/libecalc/"
p("C01","Expressions evaluate to their documented arithmetic, period by period",
 "Every well-formed model expression evaluates, in each period, to the value given by the documented operator precedence, associativity and logic rules applied to that period's input values only. The value does not depend on spacing, redundant parentheses, the number of periods or the values of other periods. Malformed expressions (unbalanced parentheses, more or fewer operands than the operators need, unknown references) are rejected with an error instead of being evaluated to some number.",
 ["inputs","programs"],"all expression strings over the token alphabet (numbers, references, all binary operators, parentheses, spacing) up to a token bound, all value vectors over a small value domain",
 "Tests sample a few dozen strings; precedence/associativity interactions and malformed shapes form a combinatorial space.",
 [S+"expression/expression.py",S+"expression/expression_evaluator.py",S+"common/variables.py"],
 [("lexer, shunting-yard and RPN evaluation","expression/expression_evaluator.py"),("variable resolution","common/variables.py")])
p("C02","Input time series give each period exactly its documented value",
 "For every input time series and every evaluation period, the value used is the documented one: the observation in force at the start of the period for right-interpolated series, the next observation at or after the start of the period for left-interpolated series, the linear interpolation for linear series, zero before the first observation, and after the last observation either the last value (extrapolation on) or zero (extrapolation off). The result depends only on the dated observations, not on the order of rows in the file, on other columns or on other series.",
 ["inputs","configurations"],"all row orders, dates, value vectors, interpolation types, extrapolation settings and evaluation time vectors over small domains",
 "Tests cover one or two vectors per interpolation type; alignment of observation dates with period boundaries is combinatorial.",
 [S+"presentation/yaml/domain/time_series_collection.py",S+"presentation/yaml/mappers/variables_mapper/",S+"presentation/yaml/domain/time_series_resource.py"],
 [("time series fitting","presentation/yaml/mappers/variables_mapper/"),("time series collections","presentation/yaml/domain/")])
p("C03","Periods partition the run; the definition in force applies in each period",
 "The evaluated periods are contiguous, non-overlapping and cover exactly the model's start to end, with a boundary at every date the user asked for inside that span and nowhere else. Any time-dependent definition (energy model, fuel, emission factor, regularity, category, fuel curve) contributes in a period exactly the definition whose validity interval, inclusive start and exclusive end, covers that period, and a component contributes nothing in periods where it has no definition or where its condition is false.",
 ["inputs","configurations"],"all combinations of start/end, series dates, extra dates and definition change dates over a small calendar, for each kind of time-dependent definition",
 "Tests use a few hand-picked calendars; off-by-one at interval boundaries needs every alignment.",
 [S+"common/time_utils.py",S+"common/temporal_model.py",S+"presentation/yaml/mappers/variables_mapper/get_global_time_vector.py",S+"presentation/yaml/mappers/component_mapper.py"],
 [("period algebra","common/time_utils.py"),("temporal model lookup","common/temporal_model.py"),("global time vector","get_global_time_vector.py")])
p("C04","Rates, volumes, regularity and units convert consistently",
 "A volume is always the calendar-day rate times the period's length in days, a cumulative is the running sum of volumes, and calendar-day and stream-day rates differ exactly by the regularity; converting back and forth, changing units, slicing, splitting and re-joining a series in time, and adding series never changes the physical quantity. Operations on incompatible series (different units, different rate basis, gaps in time) are rejected rather than silently combined.",
 ["inputs","histories"],"all operation sequences up to a bound over small series (values, regularities, period lengths, units)",
 "Tests check single operations on one or two vectors; sequences and unequal period lengths are not enumerated.",
 [S+"common/utils/rates.py",S+"common/units.py",S+"common/list/list_utils.py"],
 [("time series classes","common/utils/rates.py"),("unit conversion table","common/units.py")])
p("C05","Changing the reporting frequency conserves volumes and coverage",
 "Reporting at daily, monthly or yearly frequency covers the same span as the original result and conserves every volume: the sum over any reported periods equals the sum of the original volumes they cover, average rates times time equal those volumes, and cumulatives at a shared date are unchanged. A reported validity flag is false exactly when some covered original period is invalid, and point values such as pressures and settings report the value in force at the start of the reported period.",
 ["inputs","configurations"],"all small period vectors (unequal lengths, starting and ending mid-month/mid-year), value/regularity/flag vectors and all frequencies",
 "Tests resample a few hand-made vectors; misaligned boundaries and combinations with regularity are not enumerated.",
 [S+"common/utils/rates.py",S+"common/time_utils.py",S+"presentation/json_result/result/tabular_time_series.py"],
 [("resample methods","common/utils/rates.py"),("period resampling","common/time_utils.py")])
p("C06","Fuel, power and emissions add up through the hierarchy, counted once",
 "In every result, an installation's fuel, electrical power, mechanical power and each emission equal the sums over its components, and the asset's equal the sums over its installations, period by period, with every contribution counted exactly once. Each emission of a fuel user equals the fuel volume times that fuel's emission factor, fuel given on stream-day basis is reported on calendar-day basis using the installation's regularity, and cumulatives are the running sums of the reported rates.",
 ["inputs","configurations"],"all model structures (installations, generator sets, fuel consumers, venting emitters, fuels) up to a size bound with small value vectors and regularities",
 "Snapshot tests fix a handful of models; which components are included in which sum is a structural, combinatorial question.",
 [S+"presentation/json_result/mapper.py",S+"domain/infrastructure/energy_components/",S+"presentation/yaml/domain/energy_container_energy_model_builder.py",S+"dto/emission.py"],
 [("aggregation","presentation/json_result/mapper.py"),("emission calculation","domain/infrastructure/energy_components/")],observe=["EcalcModelResult / JSON output"])
p("C07","A generator set supplies the sum of its loads and burns fuel per its curve",
 "In every period a generator set's power requirement is the sum of its consumers' power, each increased by its power loss, and its delivered power additionally covers the cable loss. Its fuel is the interpolated curve value with no fuel for no load and never less than the first tabulated consumption for any positive load, its capacity margin is tabulated maximum minus requirement, and it is reported invalid exactly when the requirement exceeds the capacity.",
 ["inputs","configurations"],"all load vectors on, between and outside curve points, curve shapes, losses and consumer sets up to a bound",
 "Tests sample single load points; boundaries, zero load and several consumers with different losses are not enumerated.",
 [S+"domain/infrastructure/energy_components/generator_set/",S+"presentation/yaml/model.py"],
 [("power to fuel interpolation and capacity margin","generator_set/"),("power requirement summation","presentation/yaml/model.py")])
p("C08","Consumer systems pick the first feasible setting and conserve the rate",
 "In every period a system of pumps or compressors uses the first operational setting, in the order given, for which every member operates validly, and the last setting if none does; the reported setting number, energy and validity are those of that setting. Rate moved by cross-over is only moved when a member's own rate exceeds its capacity, only the excess is moved, and the total rate handled by the system is unchanged.",
 ["inputs","configurations"],"all combinations of setting feasibility per period, number of settings, members, rates relative to capacity and cross-over targets up to a bound",
 "Tests use a few systems; per-period feasibility patterns and cross-over chains are exponential.",
 [S+"domain/infrastructure/energy_components/legacy_consumer/system/",S+"common/priority_optimizer.py"],
 [("operational setting selection","legacy_consumer/system/consumer_function.py"),("cross-over","legacy_consumer/system/operational_setting.py")])
p("C09","Validity is never lost on the way up",
 "A component that cannot deliver what was asked in a period is reported invalid in that period, and only in that period; an installation or asset is valid in a period exactly when all components below it, at any depth, are. Requests inside capacity are reported valid.",
 ["inputs","configurations"],"all placements of an invalid component/period in all hierarchy shapes up to a bound, for every energy model kind that can run without a thermodynamic back end",
 "Tests check validity for isolated components; propagation over every shape and period pattern is not enumerated.",
 [S+"presentation/yaml/model.py",S+"core/result/results.py",S+"domain/process/core/results/"],
 [("validity aggregation","presentation/yaml/model.py"),("per component validity","core/result/results.py")])
p("C10","Prognosis exports put every volume in the right column exactly once",
 "For every model and frequency, each column of the long-term and short-term prognosis exports equals the sum, over exactly the components whose installation, consumer, producer and fuel category match the column in that period, of their fuel, emission, electricity or storage volumes in the column's unit. Every reported period and every installation appears, changing categories or fuel over time moves the contribution at exactly that date, and nothing is counted twice within a column.",
 ["inputs","configurations"],"all assignments of categories/fuels (constant or changing at each date) to a small set of components, all frequencies",
 "Tests check a handful of category layouts; the filter/category/time cross product is not enumerated.",
 [S+"presentation/exporter/"],
 [("queries and category filters","presentation/exporter/queries.py"),("category combination over time","presentation/exporter/infrastructure.py"),("column definitions","presentation/exporter/configs/configs.py")],observe=["LTP/STP TSV rows"])
p("C11","Model comparison reports exactly changed minus reference",
 "Comparing two results yields, for every component present in either, every period of the common time span and every quantity, exactly the changed value minus the reference value, treating an absent component or emission as zero. Swapping the two models negates the differences, comparing a model with itself gives zero everywhere, and the refined periods conserve each model's own volumes.",
 ["inputs","configurations"],"all pairs of results over small component sets, emissions and period vectors",
 "Tests compare a few pairs; period misalignment and missing components/emissions are combinatorial.",
 [S+"presentation/simple_result/simple.py"],
 [("normalisation and subtraction","presentation/simple_result/simple.py")])
p("C12","Venting emissions follow the stated rate or volume in every period",
 "A direct venting emitter emits exactly the stated rate, converted to the reported unit and to calendar-day basis, and an oil-volume emitter exactly the oil volume times the emission factor plus nothing else, in every period; where a condition is given, the emission is zero in periods where it is false and unaffected where it is true. The same emission reaches the installation and asset totals.",
 ["inputs","configurations"],"all combinations of rate type, unit, regularity, conditions, factors and value vectors up to a bound",
 "Tests use single values per option.",
 [S+"domain/infrastructure/emitters/venting_emitter.py",S+"presentation/yaml/domain/",S+"presentation/yaml/mappers/component_mapper.py"],
 [("emission calculation","domain/infrastructure/emitters/venting_emitter.py")])
p("C13","Emission intensity is emitted mass per exported volume, cumulative and yearly",
 "The reported emission intensity at any period equals accumulated emitted CO2 mass divided by accumulated exported hydrocarbon volume up to that period, in both volume units, and the periodic intensity equals the period's own mass over the period's own volume; it is undefined exactly when the denominator is zero.",
 ["inputs"],"all emission/export vectors with zeros, unequal periods and frequencies up to a bound",
 "Tests check one or two vectors.",
 [S+"domain/emission/emission_intensity.py","src/ecalc_cli/emission_intensity.py"],
 [("intensity calculator","domain/emission/emission_intensity.py")])
p("C14","Pumps deliver the requested duty at the least physical power or say why not",
 "For every rate, density and pressure pair, a pump inside its operating envelope is reported valid and its power is mass flow times head over chart efficiency at the operating point, where rates below minimum flow are recirculated to minimum flow and heads below minimum head are raised to minimum head; outside the envelope it is reported invalid with the reason. Zero rate costs no power, and results of one period never depend on other periods.",
 ["inputs"],"all rates/heads/densities on, inside and outside each chart boundary for single and variable speed charts, all orders of periods up to a bound",
 "Tests sample single points; boundary combinations and period mixes are not enumerated.",
 [S+"domain/process/pump/pump.py",S+"process/pump/",S+"domain/process/value_objects/chart/chart.py"],
 [("pump model","domain/process/pump/pump.py"),("pump simulation","process/pump/")])
p("C15","Tabulated models reproduce their table and never extrapolate silently",
 "A tabulated consumer or sampled compressor returns exactly the tabulated energy at every table point and the linear interpolation between points, is unaffected by the order of table rows, and uses no energy at zero rate. Requests beyond the tabulated capacity are reported invalid instead of being extrapolated, and every period's answer is independent of the other periods.",
 ["inputs"],"all tables over small grids (1, 2, 3 variables), row orders, and query points on/between/outside grid points",
 "Tests use a few tables; row orders, degenerate axes and boundary queries are combinatorial.",
 [S+"domain/process/compressor/core/sampled/",S+"domain/infrastructure/energy_components/legacy_consumer/tabulated/"],
 [("sampled compressor","domain/process/compressor/core/sampled/"),("tabular consumer","legacy_consumer/tabulated/")])
p("C16","Operating envelopes of performance charts are consistent",
 "For every chart, minimum and maximum flow at any speed or head, and minimum and maximum head at any flow, describe one and the same region: points inside are classified as inside and reached by exactly one interpolated speed whose head at that flow is the requested head, points below minimum flow are classified as needing recirculation, and points outside are classified by the boundary they violate. Results are independent of the order in which curves and points are given.",
 ["inputs"],"all charts over small grids of curves and points, all operating points on a fine grid around the envelope, all input orders",
 "Tests check a few points on one or two charts.",
 [S+"domain/process/value_objects/chart/"],
 [("chart and curve geometry","domain/process/value_objects/chart/")])
p("C17","A valid compressor train result meets the requested pressures and balances",
 "Whenever a compressor train reports success for a requested rate and pressure pair, its discharge pressure equals the request, all stages run within their charts on one common speed, mass is conserved through the train, and its power is the sum over stages of mass flow (including recirculation) times enthalpy rise; when no feasible operation exists the failure reason is reported instead. Zero rate costs nothing, one period's result is independent of the others, and requesting the reported maximum rate succeeds while clearly more fails.",
 ["inputs","configurations"],"all request points on a grid spanning all chart regions, all pressure control strategies, 1-3 stages, with a deterministic ideal-gas fluid service",
 "The repository's own train tests need a Java back end and do not run here; they sample points anyway.",
 [S+"domain/process/compressor/core/train/"],
 [("common shaft train","domain/process/compressor/core/train/compressor_train_common_shaft.py"),("stage evaluation","domain/process/compressor/core/train/stage.py")])
p("C18","Process solvers are sound, history-free and explain failures",
 "When a process solver reports success, running the process with the returned configuration reproduces the target outlet pressure within tolerance, with every unit inside its capacity and every setting inside its bounds; when it reports failure, no admissible setting on a fine grid reaches the target. The answer depends only on the request and not on earlier requests solved with the same objects.",
 ["inputs","histories","configurations"],"all request sequences up to a bound over a grid of rates and pressures, all pressure control and anti-surge strategies, with an ideal-gas fluid service",
 "Most solver tests need a Java back end and check isolated solves; request histories are never enumerated.",
 [S+"process/process_solver/",S+"process/process_pipeline/",S+"process/process_units/"],
 [("pipeline solver","process/process_solver/"),("search strategies","process/process_solver/search_strategies.py")])
p("C19","Mixing, splitting and distributing streams conserves what flows",
 "For every set of streams, mixing conserves mass, every component's amount and enthalpy and never produces a pressure above the lowest inlet, splitting returns parts that sum to the inlet, and choking or setting temperature changes nothing but pressure or temperature. Distribution of a total rate over parallel users assigns rates that sum to the total, never exceed a user's capacity while another can take the excess, and follow the stated priorities or shares.",
 ["inputs","configurations"],"all small sets of streams, split rates, capacities, overflow topologies and orders",
 "Tests use two or three streams; overflow topologies and orders are combinatorial.",
 [S+"process/fluid_stream/",S+"process/process_units/",S+"process/stream_distribution/"],
 [("stream mixing","process/fluid_stream/"),("stream distribution","process/stream_distribution/")])
p("C20","Result caches stay correct and bounded under any history and interleaving",
 "For every sequence of cache operations and every interleaving of threads using one cache, a lookup returns either nothing or the value most recently stored for exactly that key, the cache never holds more than its configured number of entries, the entry evicted is the least recently used one, and hit, miss and size statistics add up. Named caches are shared by name and clearing them empties all of them.",
 ["histories","schedules"],"all operation sequences up to a depth over colliding keys and capacities; all two/three thread interleavings up to a preemption bound",
 "Tests run fixed sequences and free-running threads; neither enumerates histories or schedules.",
 ["src/ecalc_neqsim_wrapper/cache_service.py"],
 [("LRU cache and its lock","cache_service.py"),("cache registry","cache_service.py")],
 state=[("entries","ordered key/value store","LRUCache")])
p("C21","Cached fluid calculations equal uncached ones for every request history",
 "For every sequence of fluid calculations, whatever the cache sizes and whatever was requested before, each request returns the properties the thermodynamic engine gives for exactly that composition, equation of state and condition, and requests that differ in any of these never share an answer. Configuration is only accepted before first use, and resetting gives a service that behaves like a new one.",
 ["histories","configurations"],"all request sequences up to a depth over colliding compositions, equations of state and conditions, all small cache sizes, reset/configure at every point",
 "Tests need the Java engine and do not run here; histories with tiny caches are never enumerated.",
 ["src/ecalc_neqsim_wrapper/fluid_service.py","src/ecalc_neqsim_wrapper/cache_service.py","src/libecalc/process/fluid_stream/"],
 [("flash and reference caches","fluid_service.py"),("singleton configuration","fluid_service.py")])
p("C22","Invalid models are rejected up front; accepted models always evaluate",
 "For every model, one that breaks a documented rule (duplicate names, references to unknown facilities, fuels, series or variables, wrong model kind, unordered or out-of-range values, missing required information) is rejected with a validation error pointing at the problem before anything is calculated. Every model that passes validation can be evaluated and reported without an internal error, with one value per period for every component.",
 ["inputs","configurations"],"all single and pairwise rule violations injected at every applicable place of a base model; all accepted option combinations up to a bound",
 "Tests cover one instance per rule at one location.",
 [S+"presentation/yaml/",S+"dto/utils/validators.py"],
 [("schema and cross-reference validation","presentation/yaml/yaml_types/"),("mapping errors","presentation/yaml/mappers/")])
p("C23","Results depend on the model's meaning, not on how it is written or re-run",
 "Reordering installations, consumers, fuels, facilities, time series, variables or dated definitions' rows, renaming, splitting a definition at a date into two identical ones, or adding unused inputs leaves every reported number unchanged. Evaluating the same model again, or after other models in the same process, gives identical results.",
 ["inputs","configurations","histories"],"all permutations and meaning-preserving rewrites of a set of models up to a bound, all sequences of model runs up to a depth",
 "Tests run each model once in one form.",
 [S+"presentation/yaml/model.py",S+"presentation/yaml/mappers/",S+"presentation/yaml/yaml_models/"],
 [("mapping and evaluation","presentation/yaml/")])
p("C24","Written outputs carry the computed numbers, dates and units unchanged",
 "For every result, the CSV, JSON and prognosis files contain one row or value per reported period with the right start date in the chosen date format, and every number equals the computed one up to the documented rounding, under a column or key naming the right component, quantity, unit and rate basis. Missing values are written as missing, never as a number.",
 ["inputs","configurations"],"all result shapes/values (including nan, zero, negative, tiny, huge), all date formats, frequencies and output variants up to a bound",
 "Snapshot tests fix one model per format.",
 [S+"infrastructure/file_utils.py",S+"common/math/numbers.py",S+"presentation/json_result/result/tabular_time_series.py","src/ecalc_cli/io/output.py",S+"presentation/exporter/"],
 [("serialisation","infrastructure/file_utils.py"),("rounding","common/math/numbers.py")])
p("C25","Input files are read exactly or rejected",
 "For every input table, each value is read for its own row and column regardless of column order, row order, spacing or comments (and whatever the letter case of the header, unless a facility table with such a header is rejected), and dates are read as the calendar date written for every accepted format. Tables with inconsistent, unsupported or impossible dates, duplicate dates, non-numeric values, rows with more values than headers, or missing columns are rejected with an error rather than read as something else; a missing value rejects a facility table and stays missing (never a number) in a time series.",
 ["inputs"],"all date strings over every accepted/unsupported format for boundary calendar days, all mixed-format pairs, all column orders and malformed cells up to a bound",
 "Tests try a few strings per format; day/month ambiguity and mixed formats are combinatorial.",
 [S+"presentation/yaml/domain/time_series_resource.py",S+"presentation/yaml/yaml_entities.py",S+"presentation/yaml/mappers/facility_input.py"],
 [("date parsing","time_series_resource.py"),("csv parsing","yaml_entities.py")])
p("C26","Turbine-driven equipment burns fuel for its shaft power within turbine limits",
 "For every shaft load, a turbine's fuel equals load over interpolated efficiency over fuel heating value in consistent units, zero load burns nothing, and a load above the turbine's maximum is reported invalid exactly in that period. Driving a compressor by a turbine leaves the compressor's own result unchanged and converts its power to that fuel, including documented power adjustments applied exactly once.",
 ["inputs","configurations"],"all loads on/between/outside turbine points, efficiency curves, heating values and adjustments up to a bound",
 "Tests sample a few loads.",
 [S+"domain/process/compressor/core/base.py",S+"domain/infrastructure/energy_components/turbine/turbine.py"],
 [("turbine","energy_components/turbine/"),("compressor with turbine","domain/process/compressor/core/base.py")])
p("C27","The thermodynamic engine session starts once and always shuts down",
 "For every sequence of starting, using, nesting, failing and closing engine sessions, at most one engine is running, calls outside a session fail clearly, a session that ends normally or by an error releases the engine and leaves a state from which a new session works, and closing twice is harmless.",
 ["histories","fault_sequences"],"all sequences of session operations and start/close failures up to a depth, with the engine process replaced by a recording stand-in",
 "Tests start the real engine (absent here) once per process; failure points and sequences are never enumerated.",
 ["src/ecalc_neqsim_wrapper/java_service.py"],
 [("session singleton and context manager","java_service.py")])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
import os
for d in P:
    for x in d["anchors"]["files"]:
        if not os.path.exists('/repo/'+x): print(d["id"],x)
