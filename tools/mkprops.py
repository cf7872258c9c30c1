"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, symbols):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=x, where=files[0]) for x in symbols])))
TF='nilmtk/timeframe.py'; TG='nilmtk/timeframegroup.py'
p('C01','Time frames are always well formed',
  "Every time frame obtained by construction or by assigning its start or end has its start strictly before its end whenever both are set. A construction or assignment that would break this raises ValueError and leaves the frame as it was; None and NaT both mean unbounded on that side; copying a frame gives an equal, independent frame. A disabled frame reports no bounds, and enabling it again restores them.",
  ['inputs','histories'],'all start/end values (including None and NaT) and all sequences of assignments',
  'the tests build a handful of frames with literal dates; the invariant is over all pairs of instants and all assignment orders',
  [TF],['TimeFrame.__init__','TimeFrame.start','TimeFrame.end','TimeFrame.copy_constructor','convert_nat_to_none'])
p('C02','Intersection of time frames is the common span',
  "The intersection of two time frames starts at the later start and ends at the earlier end, an unbounded side never restricting it; it is empty exactly when either frame is empty or no positive-length span is common, and then has no bounds. Its end-inclusion flag is that of the frame that supplies the end (the argument's when both do), intersecting with None gives an equal copy, the operands are not changed, and the overlap check raises exactly when the intersection is not empty. Slicing a table by a frame keeps exactly the rows at or after its start and before its end (at its end too when the end is included), none when it is empty, and leaves the table as it was.",
  ['inputs'],'all pairs of frames: bounded, half-open, unbounded, empty, touching, nested, with and without included ends',
  'tests intersect a few literal frames; the law ranges over all orderings of four instants and all flag values',
  [TF],['TimeFrame.intersection','TimeFrame.check_for_overlap','TimeFrame.query_terms','TimeFrame.slice'])
p('C03','Merging adjacent time frames keeps exactly the covered time',
  "Two non-empty bounded frames are adjacent for a gap exactly when one starts no earlier than the other ends and at most gap seconds after it. Merging a list of bounded frames sorted by start and not overlapping returns frames in order, each running from the start of one input to the end of the same or a later input, that cover every input, bridge only holes of at most gap seconds, and leave more than gap seconds between neighbours; the inputs are not changed.",
  ['inputs'],'all sorted lists of disjoint frames of any length and all gaps >= 0',
  'tests merge lists of at most three frames',
  [TF],['TimeFrame.adjacent','TimeFrame.union','merge_timeframes'])
p('C04','Splitting a time frame tiles it exactly',
  "Splitting a bounded frame by a positive duration yields consecutive frames that start at its start, end at its end, each begin where the previous one ended, and are each no longer than the duration (all but the last exactly that long). A frame that is empty or lacks a start or an end is refused with ValueError.",
  ['inputs'],'all bounded frames and all positive durations, any number of pieces',
  'the tests split one frame with three durations',
  [TF],['TimeFrame.split','split_timeframes'])
p('C05','Time frame order, equality, hashing and dict form agree',
  "Frames are equal exactly when start, end and emptiness agree, and equal frames hash equally. '<' orders frames by start with an unbounded start first and is a strict weak order, so sorting any list of frames puts the starts in non-decreasing order. Writing a non-empty frame, or a list of them, to its dictionary form and reading it back gives equal frames.",
  ['inputs'],'all frames, pairs and triples of frames',
  'tests compare no frames for order and round-trip none',
  [TF],['TimeFrame.__eq__','TimeFrame.__lt__','TimeFrame.__hash__','TimeFrame.to_dict','TimeFrame.from_dict','list_of_timeframe_dicts','list_of_timeframes_from_list_of_dicts'])
p('C06','Groups of time frames: mask, uptime and duration filter are exact',
  "Intersecting two groups gives, in order, the non-empty pairwise intersections of their frames and nothing else, so it covers an instant's neighbourhood exactly when both groups do. Uptime is the sum of the durations. Removing short frames keeps, in order, exactly the frames lasting at least the threshold; none of these change the original groups.",
  ['inputs'],'all groups of any length',
  'no existing passing test touches groups',
  [TG],['TimeFrameGroup.intersection','TimeFrameGroup.uptime','TimeFrameGroup.remove_shorter_than'])
p('C07','Loading from an HDF store returns exactly the requested rows',
  "For a table with increasing timestamps, loading a section yields consecutive chunks that together hold exactly the stored rows inside that section and inside the store's window, in order, each chunk at most one row longer than the chunk size and sharing only its first row with the previous chunk; a section with no row inside yields one empty frame, a section with a single row may yield none. Chunk time frames abut and stay within the section; look-ahead rows are exactly the stored rows that follow the chunk; only the requested columns come back. The time frame reported for a table of two rows or more runs from its first to its last row, cut by the window.",
  ['inputs','configurations'],'all tables, windows, section lists, chunk sizes and look-ahead sizes',
  'the store tests need data files and metadata packages and do not pass here; they use one chunk size',
  ['nilmtk/datastore/hdfdatastore.py',TF],['HDFDataStore.load','_timeframe_for_chunk','HDFDataStore.get_timeframe','TimeFrame.query_terms'])
p('C08','Loading from a CSV store returns exactly the requested rows',
  "For a table with increasing timestamps saved in a CSV store, loading a section yields, in order and without repetition, exactly the rows whose timestamps fall in the section (half-open) and the store's window, in chunks no longer than the chunk size, restricted to the requested columns; each chunk's look-ahead is the rows that follow it in the file, and its time frame runs from its first to its last row. Saving then loading returns what was saved, and appending adds the new rows after the old ones. The time frame reported for a table of two rows or more runs from its first to its last row, cut by the window.",
  ['inputs','configurations'],'all tables, windows, sections, chunk sizes',
  'the CSV tests cannot import here and use one data set with one chunk size',
  ['nilmtk/datastore/csvdatastore.py'],['CSVDataStore.load','CSVDataStore.put','CSVDataStore.append','CSVDataStore.get_timeframe'])
p('C09','Good sections of a block are its maximal runs of close samples',
  "For one block of samples the good sections are exactly the maximal runs in which consecutive valid (non-missing) samples are at most the maximum sample period apart, in time order, each running from its first to its last sample. A run that was open at the end of the previous block has an open start, and a run still open according to the look-ahead row has an open end; without look-ahead the last run is closed at the last sample.",
  ['inputs'],'all blocks of timestamps (microsecond resolution or coarser) and missing values, all periods, both flag values, all look-aheads',
  'the repository tests for this need data files and do not pass here; they sample a dozen timestamps',
  ['nilmtk/stats/goodsections.py','nilmtk/utils.py'],['get_good_sections','timedelta64_to_secs'])
p('C10','Good sections do not depend on how the data is chunked',
  "Running the good-section statistic over consecutive chunks of a recording and combining the per-chunk results gives the same sections as computing them on the whole recording at once, for every way of cutting the data. Asking for the combined result again gives the same answer, and every combined section is closed.",
  ['inputs','histories'],'all recordings without missing samples (timestamps at microsecond resolution or coarser), all ways of cutting them into chunks that hold at least one sample, whose periods abut and whose look-ahead holds the next sample; repeated queries',
  'needs every cut position and repeated queries; tests fix one cut',
  ['nilmtk/stats/goodsections.py','nilmtk/stats/goodsectionsresults.py'],['GoodSections._process_chunk','GoodSectionsResults.combined','GoodSectionsResults.append'])
p('C11','Result tables never hold overlapping periods and never lose results',
  "Adding a result for a period that overlaps a stored period raises ValueError and leaves the table unchanged; otherwise the table holds exactly the old rows plus the new one, sorted by start. Updating with another table gives the union of the rows or raises ValueError when periods overlap. Summing a table adds every stored row once, and unifying two tables requires the same periods (otherwise RuntimeError) and adds energies period by period.",
  ['inputs','histories'],'all histories of appends and updates, all periods and values',
  'the result tests do not run here and append two or three rows',
  ['nilmtk/results.py','nilmtk/stats/totalenergyresults.py'],['Results.append','Results.update','Results.check_for_overlap','Results.unify','Results.combined','TotalEnergyResults.append','TotalEnergyResults.unify'])
p('C12','Total energy is the capped time integral of power',
  "For power data the energy of each AC type is the sum over consecutive valid samples of power times the elapsed time, each interval capped at the maximum sample period, in kWh. Cumulative-energy readings give last minus first and energy readings give their sum; per AC type cumulative energy is preferred over energy over power, and every AC type present is reported. Energies of chunks that share their boundary sample add up to the energy of the whole.",
  ['inputs'],'all series, missing-value patterns, column sets, periods and cut positions',
  'the energy tests do not run here and use small fixed frames',
  ['nilmtk/stats/totalenergy.py','nilmtk/utils.py','nilmtk/consts.py'],['get_total_energy','_energy_for_power_series','timedelta64_to_secs'])
p('C13','Dropout rate is a proportion computed from the expected sample count',
  "For five samples or more the dropout rate is one minus the ratio of samples present to samples expected over the covered duration (duration divided by sample period, rounded, plus one), never below zero nor above one; with fewer samples it is NaN. The combined rate over periods is the mean of their rates weighted by their sample counts, and merging two meters averages their rates and adds their counts.",
  ['inputs'],'all sample counts, durations, sample periods and result tables',
  'tests for this do not run here; they check a few literal indices',
  ['nilmtk/stats/dropoutrate.py','nilmtk/stats/dropoutrateresults.py','nilmtk/utils.py'],['get_dropout_rate','DropoutRateResults.combined','DropoutRateResults.unify'])
p('C14','Measurement selection picks the preferred available columns',
  "The best AC type of a set is the first of active, apparent, reactive that is available, restricted to those the mains records when given (falling back to any, with a warning, when none match) and an error when none is available. Asking a meter for a quantity and/or AC type selects exactly its available columns that match, 'best' selects one preferred AC type per quantity, explicit columns are passed through only if available, and a request that matches no available column, or that names an unknown quantity or AC type, raises a measurement error.",
  ['inputs','configurations'],'all sets of available measurements and all requests',
  'tests use two fixed meters',
  ['nilmtk/measurement.py','nilmtk/elecmeter.py'],['select_best_ac_type','measurement_columns','ElecMeter._convert_physical_quantity_and_ac_type_to_cols','ElecMeter.available_columns','ElecMeter._get_columns_with_best_ac_type'])
p('C15','Store keys parse, print and join consistently',
  "Printing a location key and parsing it back gives the same building and meter, for all positive building and meter numbers, with or without surrounding slashes; malformed keys are refused. Joining path parts gives one absolute path with single slashes between the non-empty parts and none at the end, and joining is independent of how the parts carry their slashes.",
  ['inputs'],'all building and meter numbers and all lists of parts',
  'tests use a few literal keys and do not run here',
  ['nilmtk/datastore/key.py','nilmtk/datastore/datastore.py'],['Key','join_key'])
p('C16','Pipelines refuse unmet requirements and clip exactly',
  "A processing node runs only if its declared requirements hold in the upstream metadata: every required key must be present and, unless any value is allowed, equal (a nested requirement is compared inside the nested metadata, which is a dictionary); otherwise it raises naming each unmet requirement. Clipping forces every value of a column with known limits (lower not above upper) into [lower, upper] and changes nothing else; applying a function keeps the chunk's time frame and look-ahead.",
  ['inputs','configurations'],'all requirement and metadata trees, all chunks and limits',
  'tests check three literal dictionaries',
  ['nilmtk/node.py','nilmtk/preprocessing/clip.py','nilmtk/preprocessing/apply.py'],['find_unsatisfied_requirements','Node.check_requirements','Clip.process','Apply.process'])
p('C17','Combinatorial optimisation picks the closest state combination',
  "For every sample the matcher returns the index of a known value at minimal distance, with the residual being sample minus that value. Disaggregation by combinatorial optimisation gives each appliance one of its power states learnt from all of its training readings, such that no other combination of states has a total nearer to the mains sample, with one output row per input row.",
  ['inputs'],'all known-value arrays (any order, duplicates), all samples, all models',
  'tests compare one array; optimality is over all combinations',
  ['nilmtk/utils.py','nilmtk/disaggregate/combinatorial_optimisation.py'],['find_nearest','CO.disaggregate_chunk','CO._set_state_combinations_if_necessary'])
p('C18','Factorial HMM states combine and decode consistently',
  "Combining per-appliance chains gives initial and transition probabilities that are the products of the appliances' own, and a mean that is the sum of the appliances' means, for every joint state; decoding a joint state gives each appliance the state and power it contributed. Sorting a chain by mean power permutes start probabilities, covariances and transitions consistently with the means, also when means are equal. Training keeps for every appliance with samples what was learnt from its own data, sorted; disaggregating a chunk gives each appliance, sample by sample, its mean power (in whole watts) in the joint state predicted for that sample.",
  ['inputs'],'all appliance models, all joint states, all chunks',
  'the tests fit one model; the correspondence is over all state indices',
  ['nilmtk/disaggregate/fhmm_exact.py'],['decode_hmm','create_combined_hmm','compute_A_fhmm','compute_pi_fhmm','compute_means_fhmm','sort_learnt_parameters','return_sorting_mapping','FHMMExact.partial_fit','FHMMExact.disaggregate_chunk'])
p('C19','Hart pairing matches each edge at most once and within tolerance',
  "Every matched pair consists of an earlier positive edge and a later edge, both unmatched before, whose powers cancel to within the tolerance (the fixed tolerance, or the percentage for large edges) in every component; no edge is used twice and no matchable pair remains in the buffer after pairing. Removing matched edges from the buffer keeps all unmatched ones in order.",
  ['inputs','histories'],'all sequences of transitions and all parameters',
  'tests run one data set',
  ['nilmtk/disaggregate/hart_85.py'],['PairBuffer.pair_transitions','PairBuffer.clean_buffer','PairBuffer.add_transition'])
p('C20','Steady-state detection reports the power edges of the signal',
  "Each reported transition is the difference between the mean power of a steady run and that of the run before it, is larger than the noise level in some component, and is stamped with the time its change began; every such change is reported in time order, except the initial rise from zero at the first sample. Steady states and transitions correspond one to one, and a signal without such changes gives empty results.",
  ['inputs'],'all power signals, thresholds and noise levels',
  'tests use one literal signal',
  ['nilmtk/feature_detectors/steady_states.py'],['find_steady_states'])
p('C21','Meter groups select, look up and split meters without loss',
  'The site meters of a group and its submeters are its meters, each once; mains is the site meter, the group of them, or None, and is refused across buildings; the union of two groups holds exactly the meters of both, and equal groups have equal hashes. Selecting by metadata of meters or appliances returns exactly the matching meters once each, and raises KeyError when a value (or all the criteria together) matches none; a criterion that is not known for one meter or appliance does not hide the others. Looking up a meter ID, a group ID, a list of meter IDs or a tuple of instances returns the meter or nested group that carries it; an instance number (also of a meter inside a nested group) or an appliance returns the only meter that has it and is refused when several do, otherwise KeyError; swapping to alternative mains exchanges exactly the site meters with the disabled ones.',
  ['inputs','histories'],'all groups, nested groups and metadata',
  'tests build two fixed groups and do not run here',
  ['nilmtk/metergroup.py', 'nilmtk/elecmeter.py', 'nilmtk/appliance.py', 'nilmtk/electric.py'],['MeterGroup.mains', 'MeterGroup.submeters', 'MeterGroup.union', 'MeterGroup.select', 'MeterGroup.__getitem__', 'MeterGroup.matches', 'MeterGroup.use_alternative_mains', 'ElecMeter.matches', 'Appliance.matches', 'Electric.matches_appliances'])
p('C22','Disaggregation error metrics match their definitions',
  "For equally long ground-truth and predicted series: MAE is the mean absolute error, RMSE the root of the mean squared error, the relative error the mean of absolute error over one plus the prediction, NDE the root of summed squared error over summed squared truth, NEP summed absolute error over summed truth, R2 the coefficient of determination, and F1 the F1 score of on/off states at a 10 W threshold. A perfect prediction scores zero error.",
  ['inputs'],'all pairs of series of any length',
  'no test covers the loss functions',
  ['nilmtk/losses.py'],['mae','rmse','relative_error','nde','nep','f1score','r2score'])
p('C23','Loading a meter group adds up its meters',
  "At every timestamp of the requested index the combined chunk holds, per column, the sum of the values of the meters that have one (the mean for quantities such as voltage), and NaN exactly where no meter has a value; its time frame spans those of the meters that contributed. Loading a group yields one such chunk per piece of each non-empty section, in order, on the regular grid of the sample period from the normalised start of the piece to before its end, asking every meter for exactly that piece; by default the section is the group's time frame, which spans the non-empty time frames of its meters.",
  ['inputs'],'all sets of meters, missing-value patterns and columns',
  'tests sum two fixed meters and do not run here',
  ['nilmtk/metergroup.py'],['combine_chunks_from_generators', 'MeterGroup.load', 'MeterGroup.get_timeframe'])
p('C24','Activations are the on-runs of the signal',
  "The activations of a power series are its runs at or above the on-threshold that have both a rise and a fall inside the series, joined across off-gaps shorter than the minimum off duration, kept if they last at least the minimum on duration and contain no missing value, in time order, each reported with `border` rows after it and `border` + 1 rows before it (clipped to the series). Nothing else is reported.",
  ['inputs'],'all series, thresholds, durations and borders',
  'tests use one short literal series',
  ['nilmtk/electric.py'],['get_activations'])
p('C25','Cached statistics equal freshly computed ones',
  "A statistic of a meter (total energy, dropout rate, good sections) is the same whether computed afresh, served from the cache, or assembled from both, for any sequence of queries on the meters of one or several data sets that share the cache, with any non-overlapping sections (whether they include their end or not) and any AC types, as long as the chunk size stays the same; an AC type without samples counts as zero. Sections whose result depends on other sections of the query (good sections at a border they share) are computed afresh. Clearing the cache of a meter removes its statistics and no other's.",
  ['inputs','histories'],'all histories of queries on meters that share a cache',
  'tests query once or twice with fixed sections',
  ['nilmtk/elecmeter.py','nilmtk/results.py','nilmtk/stats/goodsectionsresults.py','nilmtk/utils.py'],['ElecMeter._get_stat_from_cache_or_compute','ElecMeter.key_for_cached_stat','ElecMeter.get_cached_stat','ElecMeter.clear_cache','Results.import_from_cache','Results.export_to_cache','Results.for_timeframes','GoodSectionsResults.import_from_cache','GoodSectionsResults.export_to_cache','GoodSectionsResults.independent','tz_localize_naive'])
p('C26','The mean disaggregator predicts the training mean',
  "After training, the mean disaggregator predicts for each appliance and each mains sample the mean of the appliance's training power over all training data seen so far (each batch's total truncated to a whole number of watts), with one row per mains row and one column per appliance.",
  ['inputs','histories'],'all sequences of training batches and test mains',
  'no test covers it',
  ['nilmtk/disaggregate/mean.py'],['Mean.partial_fit','Mean.disaggregate_chunk'])
p('C27','Converting a data store copies every table and all metadata',
  "Converting one store into another copies the dataset metadata, each building's metadata, and every meter table of two or more rows with all of its rows once and in order, and copies no cached statistics.",
  ['inputs','configurations'],'all store layouts',
  'the test converts one small store and does not run here',
  ['nilmtk/datastore/datastore.py'],['convert_datastore'])
p('C30','Correlation of two meters is that of all their samples',
  "The correlation of two meters with aligned samples, none missing, is Pearson's coefficient over all of their samples, each counted once, however the data is split into chunks (including chunks that share a row with the one before, or hold none); NaN when there are fewer than two samples. Both meters are read at the larger of their sample periods unless one is given, with the other arguments passed on.",
  ['inputs'],'all recordings and all ways of splitting them into chunks',
  'the test compares one pair of small meters in a single chunk and does not run here',
  ['nilmtk/electric.py'],['Electric.correlation'])
p('C31','Loading a meter gives its stored data, preprocessed and resampled as asked',
  "Loading a meter yields one table per chunk the store gives for the selected columns of that meter and the other arguments, with its time frame and look-ahead, passed through the given preprocessing nodes in order and then, if a sample period is given or resampling is asked for (and not declined), put on the regular grid of the sample period (the meter's own unless given, to the nearest second): the mean of the rows of each period (the first of rows with equal times), else the last value before it at most ceil(maximum sample period of the meter / sample period) periods earlier (unless another limit, aggregate or filling is given), else missing, in the time zone of the data, whatever the local day. The arguments given by the caller (lists and dictionaries included) are not changed, so that several loads do not affect each other.",
  ['inputs','configurations'],'all meters, chunks, pipelines and resampling arguments',
  'no test loads with preprocessing or resampling and a known result',
  ['nilmtk/elecmeter.py','nilmtk/electric.py','nilmtk/utils.py','nilmtk/preprocessing/apply.py'],['ElecMeter.load','ElecMeter.get_source_node','Electric._prep_kwargs_for_sample_period_and_resample','safe_resample','Apply.process'])
p('C32','Power series hold every stored row once',
  "Loading a series gives, for each chunk with rows, the sum over the AC types of the requested quantity per row (missing where one is missing), named after them, with the time frame and look-ahead of the chunk; power series ask for power with the best AC type unless one is given. All data as one series is the rows of all chunks in order, each once although consecutive chunks may share a row, or None if there are none.",
  ['inputs'],'all recordings and all ways of splitting them into chunks',
  'tests load one chunk',
  ['nilmtk/electric.py'],['Electric.load_series','Electric.power_series','Electric.power_series_all_data'])
p('C33','Energy totals and shares over several meters add up',
  "The total energy of a meter group is, for every AC type that at least one of its meters (or nested groups) measures, the sum over the meters that measure it; its dropout rate is the mean of its meters'; full results unify those of all meters, each once, and are refused for several meters without sections; the table of energies per meter holds in each meter's column exactly that meter's energy for the AC types it measures (or its average per period), fractions per meter are proportional to these and add up to one, and the remainder is the mains energy (of the AC type most meters used, if the mains measure it) less theirs. The share of another meter's energy is the mean over the AC types both measure of the ratio of their energies over the same sections (the other's good ones unless given); the share of the upstream meter uses the preferred AC type that both measure; the submetered proportion is the sum of the shares of the meters directly below the mains, NaN when none has one; the average energy per period is the energy divided by the number of periods in the up-time (or the whole time frame), and arguments reach every meter as given.",
  ['inputs','configurations'],'all groups, energies and combinations of AC types',
  'tests use a few meters of one AC type, and do not run here',
  ['nilmtk/metergroup.py','nilmtk/electric.py','nilmtk/utils.py'],['MeterGroup.total_energy','MeterGroup.dropout_rate','MeterGroup.energy_per_meter','MeterGroup.fraction_per_meter','MeterGroup.proportion_of_energy_submetered','Electric.proportion_of_energy','Electric.proportion_of_upstream','Electric.average_energy_per_period'])
p('C34','The train/test split leaves the asked fraction of the records before it',
  "The split time of a group whose mains hold at least one whole sample period of good sections lies in one of them, and the sample periods of the good sections before it amount to the asked fraction (a half unless given) of all of them, to within one sample period or one second, whichever is longer, never more.",
  ['inputs'],'all good sections, sample periods and fractions',
  'no test covers it',
  ['nilmtk/metergroup.py'],['MeterGroup.train_test_split'])
p('C35','Opening a data set makes the described buildings, meters and appliances',
  "An opened data set has each described building once, filed under its number, with the rest of its metadata; the data set of a building is the one it names, or else the opened one; each described meter is made once, with its metadata, its store and the identifier of its building. Each appliance is on exactly the meters it lists (0: all site meters), once, and knows its building and data set; the meters of an appliance with several meters are in one nested group, in the order listed; other meters described as disabled are set apart; all others are in the group itself, once. The meter devices of every opened data set are known, and the upstream meter of a meter is the one its metadata names (0: the site meters) in the same opened data set, whatever else has been opened; a site meter has none.",
  ['inputs','histories'],'all descriptions of buildings, and all sequences of opening data sets',
  'tests open one small file each, and do not run here',
  ['nilmtk/metergroup.py','nilmtk/elecmeter.py','nilmtk/building.py','nilmtk/dataset.py','nilmtk/appliance.py'],['MeterGroup.import_metadata','ElecMeter.__init__','ElecMeter.load_meter_devices','ElecMeter.upstream_meter','Building.import_metadata','DataSet.import_metadata','Appliance.n_meters'])
p('C36','Stores keep what was saved last under each key',
  "Metadata saved under a key of a store (the data set or a building) is what loading that key gives, a new copy each time, until other metadata is saved there: whatever is saved, put, appended or removed under other keys, and across closing and reopening; a CSV store adds the location of each described meter's table; what is given is not changed. A table put under a key replaces what was there, an append adds to it, and a removal takes away only it. The elements below a key are exactly the buildings, utilities or meters stored right below it.",
  ['histories'],'all sequences of saving, putting, appending, removing and reopening',
  'tests save one data set once',
  ['nilmtk/datastore/hdfdatastore.py','nilmtk/datastore/csvdatastore.py','nilmtk/datastore/datastore.py'],['HDFDataStore.save_metadata','HDFDataStore.load_metadata','HDFDataStore.elements_below_key','CSVDataStore.save_metadata','CSVDataStore.load_metadata','CSVDataStore.elements_below_key','write_yaml_to_file'])
p('C37','Experiments train and score every model on the samples asked for',
  "Every model of an experiment without pretrained weights is trained once, jointly, or, if a chunk size is given and it can be trained by chunks, once per epoch on each chunk, on each building of the training data sets within its own window, restricted to the times at which the mains and all appliances have a value (unless dropping is switched off), with the mains replaced by the sum of the appliances if an artificial aggregate is asked for. Then every model predicts the test mains of each building (and chunk) prepared the same way. Each reported error is the metric asked for between the ground truth of an appliance and that model's own prediction at the same times, and it is filed under data set, building (and chunk) and metric, in order.",
  ['inputs','configurations'],'all sets of models, metrics, data sets, buildings, appliances, gaps and chunk sizes',
  'no test runs an experiment',
  ['nilmtk/api.py'],['API.experiment','API.train_jointly','API.train_chunk_wise','API.test_jointly','API.test_chunk_wise','API.dropna','API.call_predict','API.predict','API.compute_loss'])
p('C38','Metrics on groups of meters compare each prediction with its ground truth',
  "Aligning two meters gives, for every stretch of the good sections of the first that has at least two samples and in which the second has data, both series side by side, averaged over the sample period of the first. Each metric pairs every predicted submeter with the ground truth meter of the same identity and files its number under the instance of the prediction: the error in assigned energy is the absolute difference of the energies in the good sections of the prediction; the mean normalised error is the sum of the absolute differences at the times at which both have a value, over the sum of the true power of the aligned stretches; the RMS error is the root of the mean squared difference over these times; the F1 score is that of the on/off states of each stretch, weighted by its number of samples (NaN without any). The fraction of energy assigned correctly is the sum, over the predicted submeters, of the smaller of the predicted and the true fraction of the total.",
  ['inputs'],'all groups, sections, gaps and sample periods',
  'no test computes a metric on groups of meters',
  ['nilmtk/metrics.py','nilmtk/electric.py','nilmtk/metergroup.py'],['error_in_assigned_energy','fraction_energy_assigned_correctly','mean_normalized_error_power','rms_error_power','f1_score','align_two_meters','iterate_through_submeters_of_two_metergroups'])
p('C39','Tables over a group and selections of its meters are complete and in order',
  "The data frame of the meters of a group holds, under the identifier of each meter, every value of every chunk of this meter (its columns added), loaded with the arguments given (power of the best AC type on the sample period of the group unless given), until no meter has any more chunks, whatever chunks are empty. The pairwise table holds for every two meters the number of this pair (of a symmetrical method). Selecting by identifiers gives the meters, or the nested groups (assembled if they do not exist), of these identifiers, each once, in the order given. The top k are the k meters with the largest (or smallest) share of the energy or entropy, in this order, with all others as one nested group if asked for.",
  ['inputs','configurations'],'all groups, chunks, gaps, identifiers and k',
  'tests use one small data set, and do not run here',
  ['nilmtk/metergroup.py'],['MeterGroup.dataframe_of_meters','MeterGroup._meter_generators','MeterGroup.pairwise','MeterGroup.from_list','MeterGroup.select_top_k'])
p('C40','On states and activations follow what the appliances of a meter state',
  "The power threshold of an appliance is its own if it states one, else its nominal on power, else that of its type, else 10 W; that of a meter or group is the smallest of its appliances', 10 W without any. Its minimal on and off durations are the largest its appliances' types state, 0 if none does. Chunk by chunk, it is on where its power is at least the threshold given, or else its own; its activations are those of each chunk, in order, by the threshold, durations and border given, or else its own, of power on a regular grid unless asked otherwise. The dominant appliance of a meter is its only one, else the first one marked as dominant, else its first; that of a group is the one all its meters share, none without meters, and an error if they differ.",
  ['inputs','configurations'],'all appliances, types, meters, groups and signals',
  'no test reads thresholds or durations of appliances',
  ['nilmtk/appliance.py','nilmtk/electric.py','nilmtk/elecmeter.py','nilmtk/metergroup.py'],['Appliance.on_power_threshold','Electric.on_power_threshold','Electric._aggregate_metadata_attribute','Electric.when_on','Electric.get_activations','ElecMeter.dominant_appliance','MeterGroup.dominant_appliance'])
p('C28','Learnt models predict usage better than chance',
  "Training the supervised disaggregators on a recording produces models whose parameters maximise the fit to that recording.",
  ['inputs'],'all training sets',
  'statistical quality of third-party optimisers',
  ['nilmtk/disaggregate/fhmm_exact.py','nilmtk/feature_detectors/cluster.py'],['FHMMExact.partial_fit','cluster'])
p('C29','A crash while writing leaves the store readable',
  "If the process dies at any point while a table or metadata is being written, reopening the store finds every table that was complete before the write.",
  ['crash_points'],'all crash points during put and append',
  'needs fault injection below the HDF5 library',
  ['nilmtk/datastore/hdfdatastore.py'],['HDFDataStore.put','HDFDataStore.append'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
