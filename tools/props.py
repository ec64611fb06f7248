"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json, sys

P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': list(observe), 'hook_needed': hook}})


DM = 'pelicun/model/damage_model.py'
LM = 'pelicun/model/loss_model.py'
AM = 'pelicun/model/asset_model.py'
DE = 'pelicun/model/demand_model.py'
PM = 'pelicun/model/pelicun_model.py'
UQ = 'pelicun/uq.py'
BA = 'pelicun/base.py'
IO = 'pelicun/file_io.py'
AS = 'pelicun/assessment.py'
DL = 'pelicun/tools/DL_calculation.py'
DLM = 'pelicun/tools/dlml.py'
RS = 'pelicun/tools/regional_sim.py'
NN = 'pelicun/tools/NNR.py'
AU = 'pelicun/auto.py'

p('C01', 'A block is in the state of its highest exceeded limit state',
  'In every realization each block of each performance group is in the damage state that belongs to the highest-numbered limit state whose capacity is smaller than the demand, and in the undamaged state 0 when there is none, whatever the lower limit states say. Damage states are numbered consecutively through the defined limit states in ascending order of limit state number; a limit state with weights w1|..|wk owns k consecutive damage states, and exceeding it selects exactly one of its own states, never one of zero weight. All limit-state capacities of one block move together: with the same distribution family and spread they are all at the same probability level in a realization.',
  ['inputs'], 'all demands, limit-state tables (any subset of limit states defined, any number of them, any capacities, weights), block counts, realizations',
  'Tests evaluate three hand-made components with at most four limit states; capacities out of order, skipped limit states, more than nine limit states and weights next to other limit states are not sampled.',
  [DM, UQ], [('state evaluation', f'{DM}:_evaluate_damage_state'), ('capacity and LS->DS variables', f'{DM}:_create_dmg_RVs')],
  [('damage state sample', 'state of each (component, location, direction, uid, block) per realization', f'{DM}:DamageModel_DS.ds_sample')],
  ['damage.ds_model.ds_sample after damage.calculate', 'damage.save_sample'])

p('C02', 'Damaged quantities account for each component quantity exactly once',
  'In every realization the quantities reported over the damage states of a performance group are non-negative and add up to the component quantity of that group, where each of its B blocks contributes one B-th of the quantity to exactly the damage state that block is in. A realization in which a damage process cleared the group has no quantity (NaN) in every one of the reported states instead, and a group cleared in all realizations is not reported. Listing all damage states adds only columns that are zero (for states that were not realized), and exactly one column for every state from 0 to the highest the component defines.',
  ['inputs'], 'all component quantity samples, block counts, damage state samples, damage processes, component tables',
  'Tests compare one or two small tables; the conservation law over arbitrary block counts, cleared realizations and completed columns is never stated.',
  [DM, AM], [('quantity assignment', f'{DM}:prepare_dmg_quantities'), ('column completion', f'{DM}:complete_ds_cols')],
  [('damage sample', 'damaged quantity per (cmp, loc, dir, uid, ds) and realization', f'{DM}:DamageModel_DS.sample')],
  ['damage.save_sample'])

p('C03', 'Damage process rules fire in order and touch only their targets',
  'Damage-process rules are applied in ascending order of the number in front of their name, and each event of a rule acts on the damage states left behind by everything before it. An event fires in a realization exactly when the highest damage state among all blocks of its source component equals the source state of the event (for a rule with the -LOC suffix: separately at every location of the source, looking only at blocks there); firing sets every block of every target (at the same location only, for -LOC rules; every component but the source itself, for target ALL) to the target state, or clears it for NA. Nothing else changes, and a rule or event naming a component that is not in the model is skipped with a warning without affecting the others.',
  ['inputs', 'histories'], 'all rule sets (numbers, sources, events in any order, list targets, ALL, NA, -LOC), all initial damage states',
  'Tests apply two or three single rules to one fixed sample; chains of rules that feed each other, ordering with ten or more rules and location matching with several instances are not sampled.',
  [DM], [('rule execution', f'{DM}:perform_dmg_task'), ('ordering of rules', f'{DM}:DamageModel.calculate'), ('event application', f'{DM}:_perform_dmg_event, _perform_dmg_event_loc')],
  [('damage state sample', 'rewritten by each event', f'{DM}:DamageModel_DS.ds_sample')],
  ['damage.ds_model.ds_sample after damage.calculate(dmg_process=...)'])

p('C04', 'Each component sees the demand of its own location and direction',
  'The demand that drives a component at a location and direction is the demand of the required type at that location plus the component offset (the offset of the demand type in the options is added to it too) in that direction; a non-directional component sees, per realization, the largest value over all available directions times the non-directional multiplier of that demand type (or the one for ALL). A demand expression over several demand types is evaluated per realization on those demands. When a required demand is not in the sample, the calculation stops with an error rather than using another location, direction or type.',
  ['inputs'], 'all component placements, demand tables, offsets, multipliers, expressions',
  'Tests check the string produced for a couple of components; combinations of offsets, partial direction sets, multipliers per type and expressions are not sampled end to end.',
  [DE, DM, 'pelicun/settings/default_config.json'], [('required demand', f'{DE}:_get_required_demand_type'), ('assembly', f'{DE}:_assemble_required_demand_data'), ('availability', f'{DE}:_verify_edps_available')],
  [('demand sample', 'columns (type, loc, dir)', f'{DE}:DemandModel.sample')],
  ['damage.ds_model.ds_sample with deterministic capacities', 'loss samples of loss functions'])

p('C05', 'Capacity adjustments reach exactly the limit states they name',
  'A capacity adjustment given for component-location-direction and a limit state (or ALL) transforms the median capacity of exactly those limit states of exactly those performance groups by the given +, -, *, / operation, and every other capacity keeps its distribution. A list of operations gives one median per realization, in realization order, each computed from the unadjusted median. Malformed entries (unknown operator, not a number, an ALL next to other keys, a key that is no limit state) stop the calculation with an error.',
  ['inputs'], 'all scaling specifications, component tables and placements',
  'Tests use one specification with single operations; lists, several groups sharing a component and mixtures of limit states are not sampled end to end.',
  [DM, UQ], [('specification parsing and application', f'{DM}:_create_dmg_RVs'), ('operations', f'{DM}:_handle_operation_list'), ('vector medians', f'{UQ}:DeterministicRandomVariable, NormalRandomVariable')],
  [], ['damage.ds_model.ds_sample'])

p('C06', 'Batching, row order and unrelated inputs do not change results',
  'With fixed capacities and demands, damage and loss results of a performance group depend only on its own quantity, its own component definition and its own demand: the batch size used to split the calculation, the order of rows in component tables, parameter tables or demand columns, and the presence of other components leave them unchanged. Every performance group is evaluated exactly once whatever the batch size, including groups with more blocks than a batch holds.',
  ['inputs', 'configurations'], 'all batch sizes, permutations of input rows and columns, sub-models',
  'Tests use one batch size and one order of rows; the partition of groups into batches is checked on one hand-made table.',
  [DM, AM, LM], [('batch partition', f'{DM}:_get_pg_batches')], [('batch table', 'performance groups with their batch number', f'{DM}:_get_pg_batches')],
  ['damage.save_sample', 'loss.save_sample'])

p('C07', 'Repair losses are unit consequence times damaged quantity',
  'For every decision variable, component, damage state, location and realization the loss is the damaged quantity times the unit consequence of that damage state; undamaged quantity costs nothing and a damage state without a consequence contributes no loss. The unit consequence is the constant of the consequence model or its multilinear function evaluated at the damaged quantity that economies of scale apply to (over all floors and/or damage states as configured), constant beyond both end points, times the sampled deviation. Every driving component is paired with the consequence model the loss map names for it, and with no other.',
  ['inputs', 'configurations'], 'all loss maps, consequence tables (constant and multilinear), damage samples, economies-of-scale options, locations',
  'Tests check one component with hand-computed quantities for the default option; the product law over options, several locations and decision variables is not sampled.',
  [LM, BA], [('median consequence', f'{LM}:RepairModel_DS._calc_median_consequence'), ('loss calculation', f'{LM}:RepairModel_DS.calculate'), ('loss map', f'{LM}:LossModel.add_loss_map')],
  [('damage-state loss sample', 'loss per (dv, loss, dmg, ds, loc, dir, uid)', f'{LM}:RepairModel_DS.sample')],
  ['loss.save_sample', 'loss.ds_model.sample'])

p('C08', 'Loss functions are read at the local demand, per unit quantity',
  'For a component with a loss function, the loss in a realization is the component quantity (split evenly over its blocks) times the function read by linear interpolation at the demand of its own location, direction and offset, times the sampled deviation of each block, per decision variable. The loss map decides which function drives which component, also when the names differ. Components with damage-state consequences and components with loss functions can be mixed in one model without affecting each other.',
  ['inputs'], 'all loss function tables, loss maps, demands, quantities, block counts',
  'Tests use one loss function with an identity loss map.',
  [LM, DE], [('loss function evaluation', f'{LM}:RepairModel_LF')],
  [('loss-function sample', 'loss per (dv, loss, dmg, loc, dir, uid)', f'{LM}:RepairModel_LF.sample')],
  ['loss.save_sample', 'loss.lf_model.sample'])

p('C09', 'Aggregate losses are the sums the detailed losses imply',
  'For every realization the aggregate of Cost, Carbon and Energy is the sum of all their detailed losses, and repair time is reported twice: sequential, the sum over all repairs, and parallel, the largest of the per-location sums; hence parallel never exceeds sequential. Aggregation is a pure read: the detailed losses are unchanged by it and repeating it gives the same answer. Decision variables without results are absent or zero, never borrowed from another one.',
  ['inputs', 'histories'], 'all detailed loss samples, sets of decision variables, repeated calls',
  'Tests aggregate one sample once.',
  [LM], [('aggregation', f'{LM}:LossModel.aggregate_losses')], [], ['loss.aggregate_losses', 'loss.save_sample'])

p('C10', 'Replacement excludes repair and thresholds trigger replacement',
  'In a realization with a replacement loss in a decision variable, no repair loss of other components is added to the aggregate of any decision variable. When a replacement threshold is given, exactly the realizations whose aggregate of a threshold decision variable exceeds its threshold are treated as replaced, and in those every decision variable with a replacement value reports that realization\'s replacement value. Realizations without replacement are unaffected.',
  ['inputs', 'configurations'], 'all detailed samples with and without replacement consequences, thresholds on any decision variable',
  'Tests use one small sample where the outcome of exclusivity cannot be told from plain summation.',
  [LM], [('exclusivity', f'{LM}:LossModel._make_replacement_exclusive'), ('thresholds', f'{LM}:LossModel._apply_replacement_thresholds, aggregate_losses'), ('threshold keys', f'{LM}:_check_replacement_threshold')],
  [], ['loss.aggregate_losses(replacement_configuration=...)', 'loss.calculate', 'loss.save_sample'])

p('C11', 'Loss combinations replace a pair by its combined ratio, per hazard row',
  'When a loss combination table is given, losses of the listed components at one location and unit are replaced by the table value interpolated at their individual losses, in the order in which the components are listed, separately for each decision variable and realization. Losses of components, locations and decision variables outside the combination are the plain sum. The result does not depend on the process that runs it: the same inputs give the same result in every interpreter.',
  ['inputs', 'configurations'], 'all combination tables (also asymmetric), decision variables, locations, interpreter hash seeds',
  'Tests use one symmetric table and one decision variable in one process.',
  [LM, AS], [('combination', f'{LM}:LossModel.aggregate_losses, _loss_combination_add_combinable'), ('interpolation', f'{BA}:multilinear / {LM}')],
  [], ['loss.aggregate_losses(loss_combination=...)'])

p('C12', 'Consequence scaling touches exactly the selected rows',
  'Scaling consequences with a specification multiplies exactly the losses whose decision variable, component, location and direction match an entry, by exactly the given factor; a selector that is not given matches everything, a location or direction may be a range a--b (both ends included), and several matching entries compound. Every other entry, the shape and the labels of the results stay as they were.',
  ['inputs'], 'all scaling specifications over all selector combinations and samples',
  'Tests check a handful of specifications on one table.',
  [LM, PM, BA], [('scaling', f'{LM}:LossModel.consequence_scaling'), ('row selection', f'{BA}:multiply_factor_multiple_levels')],
  [], ['loss.consequence_scaling', 'base.multiply_factor_multiple_levels'])

p('C13', 'Changing units of inputs or outputs changes no physical result',
  'Stating the same physical inputs (demands, quantities, capacities, consequences) in other supported units leaves every damage state, and every result expressed in a given unit, unchanged. Location and truncation parameters scale with the unit, dispersions of relative families do not, and the reciprocal units of consequence quantities scale inversely. Output in a requested unit equals the internal value divided by that unit\'s factor, and an unknown unit is reported rather than treated as one.',
  ['inputs', 'configurations'], 'all supported units and output unit configurations, all distribution families',
  'Tests convert a handful of values for single families; the invariance of a complete calculation is not stated.',
  [BA, PM, IO, AM, DM, LM, 'pelicun/settings/default_units.json'], [('marginal conversion', f'{PM}:_convert_marginal_params'), ('factors', f'{BA}:parse_units'), ('save/load conversion', f'{IO}:save_to_csv, load_data'), ('scaling of distributions', f'{UQ}:scale_distribution')],
  [], ['damage.save_sample', 'loss.save_sample', 'asset.save_cmp_sample', 'file_io.load_data', 'base.convert_units'])

p('C14', 'The asset model places exactly the components assigned',
  'A component assignment row produces one performance group for every pair of listed locations and directions (single values, comma lists, ranges, all, top, roof expanded against the number of stories) and rows that repeat a component at the same place become separate groups with distinct unique ids, so no assigned quantity is lost or merged. Every group gets the quantity distribution, unit and block count of its own row. Malformed locations and directions (unknown words, empty ranges, keywords without a number of stories) are reported, not skipped.',
  ['inputs'], 'all assignment tables, stories, location and direction expressions, repeated rows',
  'Tests load two small tables.',
  [AM, PM], [('location parsing', f'{PM}:_get_locations, _get_directions'), ('assignment', f'{AM}:AssetModel.load_cmp_model'), ('sampling', f'{AM}:AssetModel.generate_cmp_sample')],
  [('performance groups', 'index (cmp, loc, dir, uid)', f'{AM}:AssetModel.cmp_marginal_params'), ('quantity sample', 'quantity per group and realization', f'{AM}:AssetModel.cmp_sample')],
  ['asset.cmp_marginal_params', 'asset.save_cmp_sample'])

p('C15', 'Joint samples keep seeds, ranks, anchors and coupling',
  'With the same seed and the same calls every sample is reproduced exactly, and a different order of registering variables does not mix up which values belong to which variable. Variables anchored to another are perfectly rank-correlated with it, fully correlated variables of a set share their ranks and a set with correlation matrix C has the signs and ranks that C with entries +1, 0 and -1 demands; coupled empirical variables repeat their raw values cyclically in the original order, so that values recorded together stay together.',
  ['inputs', 'histories'], 'all registries (variables, sets, anchors), sample sizes, seeds, sampling methods',
  'Tests check a fixed seed against stored numbers.',
  [UQ], [('registry sampling', f'{UQ}:RandomVariableRegistry.generate_sample'), ('correlation', f'{UQ}:RandomVariableSet.apply_correlation'), ('anchors', f'{UQ}:BaseRandomVariable.uni_sample'), ('coupled empirical', f'{UQ}:CoupledEmpiricalRandomVariable.inverse_transform')],
  [], ['RandomVariableRegistry.RV_sample', 'RandomVariableRegistry.generate_sample'])

p('C16', 'Samples follow their marginal: every stratum is hit exactly once',
  'With latin hypercube sampling of N realizations, each of the N equiprobable intervals of the prescribed (truncated) marginal distribution contains exactly one value (its midpoint, for the midpoint variant) for every distribution family, for free variables and those perfectly correlated with one. No value lies outside the truncation limits or the support, discrete distributions hit each category as often as its weight says up to rounding, and a prescribed post-processing map is applied to each value exactly once.',
  ['inputs'], 'all families, parameters, truncation limits, sample sizes and sampling methods',
  'Tests compare a few transforms at fixed points with stored numbers.',
  [UQ], [('inverse transforms', f'{UQ}:*.inverse_transform'), ('sampling', f'{UQ}:RandomVariableRegistry.generate_sample')],
  [], ['RandomVariableRegistry.RV_sample', 'inverse_transform'])

p('C17', 'Calibration settings apply to their own demands and keep the raw data',
  'Each demand is calibrated with the settings of its most specific entry (its full demand type such as SA_1.0, then its base type SA, then ALL), whatever their order, every setting that entry does not give being inherited from the more general ones. Limits are read in the unit stated next to them, and so is the extra uncertainty of normally distributed demands, which is added to their variance. Exactly the realizations with some demand outside its censoring or truncation limits are left out of the fit, and the raw sample itself is left untouched. Recalibrating replaces the earlier model completely.',
  ['inputs', 'histories'], 'all calibration configurations, raw samples and sequences of calibrations',
  'Tests calibrate a few configurations and compare fitted numbers.',
  [DE], [('settings', f'{DE}:DemandModel.calibrate_model'), ('filtering', f'{DE}:DemandModel.calibrate_model')],
  [('marginal parameters', 'one row per demand', f'{DE}:DemandModel.marginal_params'), ('empirical data', 'raw values of empirical demands', f'{DE}:DemandModel.empirical_data')],
  ['demand.marginal_params', 'demand.save_model', 'demand.sample'])

p('C18', 'Generated demands keep the identity and order of the raw data',
  'A generated demand sample has exactly one column per demand of the model and exactly the requested number of realizations, each column drawn from its own marginal only. Empirical demands reproduce only observed values, and with the raw order preserved realization i of every demand is raw realization i modulo their number. Cloning assigns every listed new demand the values of its source, keeps or drops sources exactly as listed, rejects duplicates (also with demands that stay in the sample), reports unknown sources, and leaves a sample that the damage calculation accepts.',
  ['inputs'], 'all demand tables, cloning specifications, sample sizes and calibrations',
  'Tests check one or two generated tables.',
  [DE, UQ], [('generation', f'{DE}:DemandModel.generate_sample'), ('cloning', f'{DE}:DemandModel.clone_demands')],
  [('demand sample', 'columns (type, loc, dir)', f'{DE}:DemandModel.sample')], ['demand.save_sample', 'demand.sample'])

p('C19', 'Residual drifts follow the regimes of the drift they come from',
  'For every peak drift the inferred residual drift has the same locations and directions, is never negative, and its median is zero below yield, 0.3 times the excess over yield up to four times yield, and drift minus three times yield beyond; yield drifts apply to their own direction only. Adding the residual drifts to the demand sample keeps every existing demand and unit. The settings given by the caller are not changed.',
  ['inputs'], 'all drift samples across the regime boundaries, yield drifts per direction',
  'Tests check shape and positive values only.',
  [DE, AS], [('estimation', f'{DE}:DemandModel.estimate_RID, estimate_RID_and_adjust_sample')], [], ['demand.estimate_RID', 'demand.sample'])

p('C20', 'The first definition of a component wins, whole, and gaps are reported',
  'When model parameters come from several sources, each component takes all of its parameters from the first source that defines it (never a mixture of two definitions), loading sources in one call or in several calls gives the same model (where the first definitions are complete; one flagged incomplete is withdrawn at the end of its call), and components not in the model play no part. Components in the asset without usable parameters (missing or flagged incomplete) are reported by name, leave no damage or loss results, and do not disturb those of the others.',
  ['inputs', 'histories'], 'all sequences of parameter sources with overlapping and incomplete definitions, all component sets',
  'Tests load one or two sources once.',
  [DM, LM, IO], [('precedence', f'{DM}:DamageModel_Base.load_model_parameters'), ('loss parameters', f'{LM}:RepairModel_Base._load..., LossModel.load_model_parameters'), ('missing components', f'{DM}:_ensure_damage_parameter_availability')],
  [('damage parameters', 'per component', f'{DM}:DamageModel_Base.damage_params'), ('loss parameters', 'per (component, decision variable)', f'{LM}:RepairModel_Base.loss_params')],
  ['damage.ds_model.damage_params', 'loss.save_sample', 'warnings'])

p('C21', 'Log and warnings: nothing lost, nothing repeated, order kept',
  'Every message logged reaches the log file in the order in which it was logged, with the requested time stamp, and reaches the screen exactly when printing is on. A warning is emitted to the caller at once, or, when queued, exactly once at the next flush in order of first occurrence; a warning a logger has already emitted is not emitted again; text is never lost by a long or multi-line message, and an unhandled exception reaches every log file. Two assessments with different log files never write to one another\'s file.',
  ['histories', 'configurations'], 'all sequences of log, warning, queue and flush calls over all logger settings',
  'Tests check one call of each kind.',
  [BA], [('logger', f'{BA}:Logger')], [('warning queue', 'pending warnings', f'{BA}:Logger.warning_stack'), ('emitted', 'warnings already emitted', f'{BA}:Logger.emitted')], ['log file', 'stdout', 'warnings'])

p('C22', 'User options win, defaults fill the rest, assessments stay isolated',
  'The effective options of an assessment are the defaults overridden, at every nesting level, by exactly what the user gave; a scalar where a group of options is expected (or the reverse) is an error. Creating or running one assessment never changes the options, units or results of another, nor the defaults later assessments get. Path-style lookups and updates of configuration entries reach exactly the named entry.',
  ['configurations', 'histories'], 'all nested user configurations, all sequences of assessment creations',
  'Tests merge two small dictionaries.',
  [BA, IO, AS, 'pelicun/settings/default_config.json'], [('merge', f'{BA}:Options / {BA}:merge_default_config, update_vals'), ('lookup', f'{BA}:get, update, is_specified')],
  [], ['assessment.options', 'base.merge_default_config', 'base.update_vals', 'base.get', 'base.update'])

p('C23', 'The model library on disk matches the version the cache records',
  'Whenever an update of the damage and loss model library reports success, every file in the manifest of the requested version is on disk with the content of that version, whatever happened before: earlier versions, interrupted or failed updates, updates without cache, edited or deleted files, downgrades and diverged histories. A failed or interrupted update is reported and never makes a later request for any version believe that version is already in place. Files that are already correct may be skipped; files edited by hand are restored by an update to another version or without the cache. At program start the update notice is shown exactly when the last check, at most a day old, succeeded and found a newer release than the one installed, or what is installed is a commit or unknown; a check is not repeated within a day unless an update came between. Models are read from the folder that was updated.',
  ['histories', 'fault_sequences', 'crash_points'], 'all sequences of updates to any version or commit, with faults at any request and a crash at any write',
  'Tests mock single calls; sequences of an interrupted update followed by another request are not sampled.',
  [DLM, 'pelicun/cli.py', 'pelicun/__init__.py'], [('update', f'{DLM}:download_data_files'), ('cache', f'{DLM}:load_cache, save_cache'), ('version check', f'{DLM}:check_dlml_version'), ('version resolution', f'{DLM}:_resolve_version_to_commit_sha'), ('changed files', f'{DLM}:_get_changed_files')],
  [('data folder', 'files on disk', f'{DLM}:get_dlml_data_dir'), ('cache', 'commit, version and hash of each file', '.dlml_cache.json')], ['data folder contents', 'raised errors', 'requests made'])

p('C24', 'Regional results belong to the right building, whatever the chunking',
  'In a regional simulation every building of the (filtered) inventory appears exactly once in every result file (in inventory order, or in ascending id order with a filter), with the values computed from its own location, archetype and intensity measures, whatever the order of intensity measures in the configuration, the order of grid points, the number of cores or the way buildings are chunked. The intensity at a building is the inverse-square-distance weighted mean of its nearest grid points, lies between their extremes, and equals the grid value at a grid point. An undamaged building has zero loss. A filter keeps exactly the listed ids and ranges, and a malformed filter or an unknown id stops with an error.',
  ['inputs', 'configurations', 'schedules'], 'all inventories, grids, filters, intensity measure orders, chunk splits',
  'Tests run a single tiny case with most of the work mocked.',
  [RS, NN], [('chunking and merging', f'{RS}:regional_sim'), ('mapping', f'{RS}:process_buildings_chunk'), ('neighbours', f'{NN}:NNR'), ('filter', f'{RS}:parse_id_filter')],
  [], ['demand.csv', 'damage.csv', 'repair_costs.csv', 'repair_times.csv', 'NNR', 'parse_id_filter'])

p('C25', 'A DL calculation leaves exactly the requested, consistent outputs',
  'A damage and loss calculation leaves in the output folder exactly the requested result files in the requested formats, and none from an earlier run; the JSON and CSV versions of a result agree, statistics are those of the sample, grouped results are the sums of the detailed ones, condensed damage is the governing damage state, and the summary repeats the aggregate losses and the collapse and irreparable outcomes. A second calculation in the same process gives what it gives in a fresh one.',
  ['configurations', 'histories'], 'all output configurations and sequences of runs',
  'The end-to-end tests of this program need model data that is not available offline and check only that files exist.',
  [DL, AU], [('config parsing', f'{DL}:_parse_config_file'), ('saving', f'{DL}:_demand_save, _asset_save, _damage_save, _loss_save, _summary_save'), ('formats', f'{DL}:_create_json_files_if_requested, _remove_csv_files_if_not_requested'), ('cleanup', f'{DL}:_remove_existing_files')],
  [], ['output folder'])

p('C26', 'Results depend on the current inputs, not on earlier calculations',
  'Whatever sequence of loading, sampling and calculating led there, the damage and loss results after a calculation are those a fresh assessment gives for the inputs now loaded: nothing of an earlier demand sample, component model, damage process, loss map or parameter set leaks in. Changing the input of one stage changes nothing in the results already produced by earlier stages.',
  ['histories'], 'all sequences of public calls that reload, recalculate or replace inputs of the four models',
  'Tests run each stage once per assessment.',
  [DE, AM, DM, LM, AS], [('stage results', f'{DM}:DamageModel.calculate, {LM}:LossModel.calculate'), ('loss model reload', f'{LM}:LossModel.add_loss_map, load_model_parameters')],
  [('stage samples', 'demand, asset, damage and loss samples', 'pelicun/model/*.py')], ['save_sample of each model'])

p('C27', 'Calculations do not alter the data the caller passed in',
  'Tables, dictionaries and lists handed to any public call (samples, component assignments, parameter tables, loss maps, damage processes, scaling specifications, combination tables, configurations) are the same after the call as before it, and later changes the caller makes to them do not change results already produced. Results returned to the caller can be modified without changing the model.',
  ['inputs', 'histories'], 'all public calls that take or return tables and dictionaries',
  'Tests rarely compare inputs after the call.',
  [AS, DE, AM, DM, LM, IO, BA], [('copies on entry', 'load_* methods'), ('copies on exit', 'save_* methods')], [], ['arguments after the call'])

p('C28', 'Saving and loading a model or sample is the identity',
  'Saving a sample or a model to a file (or table) and loading it again reproduces values, labels, units and realizations, in any configured output unit, for demand, asset, damage and loss samples and for demand models. A calculation continued from reloaded intermediate results gives what the uninterrupted calculation gives. Files are written in full or an error is raised.',
  ['inputs', 'configurations'], 'all samples and models, output units, interruption points between stages',
  'Tests round-trip one table per model in default units.',
  [IO, DE, AM, DM, LM], [('csv exchange', f'{IO}:save_to_csv, load_data'), ('model exchange', 'save_*/load_* of the four models')], [], ['save_sample / load_sample', 'save_model / load_model', 'save_cmp_sample / load_cmp_sample'])

p('C29', 'Compact and hierarchical labels name the same things',
  'Converting hierarchical labels to compact dash-separated ones and back gives the same labels in the same order with the same data, on either axis, for labels of equal or different depth. Results reported under a label always belong to the component, location, direction and state that label spells.',
  ['inputs'], 'all label tables over all depths and both axes',
  'Tests convert a few fixed tables.',
  [BA, IO], [('conversion', f'{BA}:convert_to_SimpleIndex, convert_to_MultiIndex')], [], ['base.convert_to_SimpleIndex', 'base.convert_to_MultiIndex'])

p('C30', 'A damage and loss calculation does what its configuration says',
  'A damage and loss calculation started from a configuration file evaluates exactly the demands, inventory, components, collapse limits, irreparable damage rule, damage process and loss settings the configuration and its companion files name: units are inferred for every demand type it supports, collapse happens where and only where a limit is exceeded or a collapse component fails, collapse and irreparable damage bring exactly the replacement consequences given (or the occupancy defaults), a user table overrides the library entry of the same component and adds to the rest, and every requested decision variable is reported for the components that have consequences. A configuration that cannot be carried out ends in an error before results are written.',
  ['inputs', 'configurations'], 'all configurations of asset type, demands, damage process, collapse, irreparable damage and loss settings, with all user tables',
  'The end-to-end tests of this program need model data that is not available offline; the unit tests of its parts never combine settings.',
  [DL, AU, AS], [('configuration', f'{DL}:_parse_config_file'), ('run', f'{DL}:run_pelicun'), ('demand', f'{AS}:DLCalculationAssessment.calculate_demand'), ('damage', f'{AS}:DLCalculationAssessment.calculate_damage'), ('loss', f'{AS}:DLCalculationAssessment.calculate_loss, load_consequence_info')],
  [], ['DMG_sample, DV_repair_sample, DV_repair_agg, DL_summary'])

p('C31', 'A calibrated demand model is the best fit to the data, in any units',
  'Calibrating a demand model returns, for every demand, the parameters of the greatest likelihood given the truncation limits, the realizations inside the censoring limits and the number of those outside: without limits the mean (median) and dispersion of the data, and with limits parameters that no neighbours improve on. The correlation is that of the realizations in standard normal space. The fit does not depend on the unit or magnitude of the data, the order of the realizations or demands, on having every realization several times, on which form of a normal distribution is asked for, or on limits that no realization exceeds; it does not fail for one rendering of data it can fit in another.',
  ['inputs', 'configurations'], 'all demand samples, families and limits with a well-defined maximum; all units, magnitudes and orders',
  'Tests fit a few samples of magnitude one with tolerances of several percent; the likelihood surface has to be climbed from every data set, and its plateaus depend on unit and limits.',
  [UQ, DE], [('fit', f'{UQ}:fit_distribution_to_sample, _neg_log_likelihood'), ('calibration', f'{DE}:DemandModel.calibrate_model')], [], ['marginal_params and correlation after calibrate_model'])

p('C32', 'A whole assessment by single calls is the one its arguments describe',
  'Assessment.calculate_damage, calculate_loss and aggregate_loss carry out exactly the assessment their arguments describe: the demands of the model in as many realizations as asked for, residual drifts wherever there are drifts when they are asked for, the additional demand under the label, location and direction given and with the values given, the components over the number of stories given, damage under the capacities as scaled and the damage process as prescribed, losses under the loss map as extended by the policy and for the requested decision variables only, and replacement thresholds. Optional entries that are left out have their documented defaults. Calling again on the same object gives the assessment of the new arguments and nothing of the earlier ones; the arguments are left as they were.',
  ['inputs', 'histories'], 'all combinations of the optional arguments, any number of rounds on one object',
  'The tests of the repository make one such call with one set of arguments and look at no number.',
  [AS, DE], [('single calls', f'{AS}:Assessment.calculate_damage, calculate_loss, aggregate_loss'), ('additional demand', f'{DE}:DemandModel.expand_sample')], [],
  ['demand.sample, damage.ds_model.ds_sample, loss.sample and the aggregate after the calls'])

for q in P:
    assert len(q['title']) <= 80, (q['id'], len(q['title']))
    print(json.dumps(q))
