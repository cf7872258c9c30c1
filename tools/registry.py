"""Property -> proof units (own contracts and the contracts they rest on)."""
TFB = ['tf.init', 'tf.set']
UNITS = {
    'C01': ('timeframe', ['tf.init', 'tf.init_tz', 'tf.set', 'tf.enabled', 'tf.copy']),
    'C02': ('timeframe', ['tf.init', 'tf.intersection', 'tf.intersection_none', 'tf.overlap', 'tf.query_terms', 'tf.slice']),
    'C03': ('timeframe', ['tf.init', 'tf.adjacent', 'tf.adjacent0', 'tf.union', 'tf.merge']),
    'C04': ('timeframe', ['tf.init', 'tf.timedelta', 'tf.split', 'tf.split_list']),
    'C05': ('timeframe', ['tf.init', 'tf.eq_hash', 'tf.lt', 'tf.lt_lemma', 'tf.dict', 'tf.dict_list']),
    'C06': ('timeframe', ['tf.intersection', 'tf.timedelta', 'tg.intersection', 'tg.uptime',
                          'tg.remove_shorter']),
    'C07': [('stores', ['hdf.load', 'hdf.timeframe', 'hdf.save']), ('timeframe', ['tf.init', 'tf.intersection', 'tf.query_terms'])],
    'C08': [('stores', ['csv.load', 'csv.timeframe', 'csv.save']), ('timeframe', ['tf.init', 'tf.intersection'])],
    'C09': ('stats', ['gs.sections', 'gs.sections_la']),
    'C10': ('results', ['gr.combined', 'gs.chunk']),
    'C11': ('results', ['rs.append', 'rs.append_types', 'rs.check_overlap', 'rs.update', 'rs.update_type',
                        'rs.combined', 'rs.unify_energy']),
    'C12': ('stats', ['te.power', 'te.total', 'te.additive']),
    'C13': [('stats', ['dr.rate', 'dr.combined']), ('results', ['rs.unify_dropout'])],
    'C14': ('select', ['ms.best', 'ms.columns', 'ut.flatten', 'em.columns', 'em.explicit']),
    'C15': ('keys', ['key.roundtrip', 'key.malformed', 'key.join']),
    'C17': ('disagg', ['ut.nearest', 'co.init', 'co.fit', 'co.combos', 'co.chunk']),
    'C18': ('fhmm', ['fh.start', 'fh.covars', 'fh.trans', 'fh.mapping', 'fh.sort', 'fh.position', 'fh.pi', 'fh.A', 'fh.means',
                     'fh.combined', 'fh.digit', 'fh.rest', 'fh.decode', 'fh.chunk', 'fh.fit']),
    'C22': ('losses', ['ls.mae', 'ls.rmse', 'ls.rel', 'ls.nde', 'ls.nep', 'ls.r2', 'ls.f1', 'ls.perfect']),
    'C19': ('hart', ['ht.pair1', 'ht.pair2', 'ht.clean', 'ht.add', 'ht.feed']),
    'C20': ('steady', ['ss.find1', 'ss.find2']),
    'C21': ('members', ['mb.submeters', 'mb.mains', 'mb.site', 'mb.union', 'mb.swap', 'mb.select', 'mb.get_id',
                        'mb.get_app', 'mb.matches', 'mb.meter', 'mb.appliance']),
    'C23': ('group', ['gp.combine', 'gp.timeframe', 'gp.load']),
    'C27': ('convert', ['cv.convert']),
    'C24': ('activations', ['ac.runs', 'ac.joined_off', 'ac.joined_on']),
    'C25': ('cache', ['cs.get', 'cs.names', 'cs.key', 'cs.clear', 'cs.table', 'ut.localize', 'rs.timeframes', 'rs.for_timeframes', 'rs.import',
                      'rs.export', 'gsr.import', 'gsr.export', 'gsr.independent']),
    'C30': ('electric', ['el.correlation']),
    'C31': [('loading', ['em.load', 'ut.resample']), ('nodes', ['ap.process'])],
    'C32': ('loading', ['el.load_series', 'el.all_data']),
    'C33': ('shares', ['mg.total_energy', 'mg.dropout_rate', 'mg.energy_per_meter', 'mg.remainder', 'ut.most_common', 'mg.fraction', 'mg.submetered',
                       'el.proportion_of_energy', 'el.proportion_of_upstream', 'el.average_energy']),
    'C34': ('shares', ['mg.train_test_split']),
    'C35': ('opening', ['mg.import', 'em.init', 'em.devices', 'em.upstream', 'bd.import', 'ds.import']),
    'C36': [('storemeta', ['hdf.metadata', 'hdf.below', 'csv.metadata', 'csv.below', 'ds.yaml']), ('stores', ['hdf.save', 'csv.save'])],
    'C37': [('experiment', ['api.params', 'api.methods', 'api.experiment', 'api.train_jointly', 'api.train_chunk_wise', 'api.test_jointly', 'api.test_chunk_wise', 'api.dropna', 'api.aggregate', 'api.call_predict', 'api.predict', 'api.loss'])],
    'C38': ('meter_metrics', ['met.pairs', 'met.align', 'met.mne', 'met.rms', 'met.energy', 'met.f1', 'met.fraction']),
    'C39': ('wholegroup', ['gr.dataframe', 'gr.generators', 'gr.pairwise', 'gr.from_list', 'gr.top_k']),
    'C40': ('thresholds', ['th.appliance', 'th.of_meter', 'th.durations', 'th.when_on', 'th.activations', 'th.dominant', 'th.group_dominant']),
    'C26': ('disagg', ['mn.fit', 'mn.chunk']),
    'C16': ('nodes', ['nd.unsatisfied', 'nd.check', 'ut.column_index', 'cl.limits', 'cl.process', 'ap.process']),
}
TIMES = {
    'C36': dict(oracle=15),
    'C37': dict(oracle=20),
    'C38': dict(oracle=15),
    'C39': dict(oracle=15),
    'C40': dict(oracle=15),
    'C34': dict(unit=150),
    'C31': dict(unit=120, oracle=10),
    'C30': dict(unit=200),
    'C27': dict(oracle=15),
    'C25': dict(unit=200, oracle=25),
    'C18': dict(oracle=15),
    'C07': dict(unit=120, oracle=10),
    'C08': dict(unit=120, oracle=10),
    'C14': dict(unit=150),
    'C24': dict(unit=200),
    'C09': dict(unit=150),
    'C10': dict(unit=150),
    'C11': dict(unit=120),
    'C12': dict(unit=120),
}
# C10 rests on the contract of get_good_sections, which is C09's
UNITS['C10'] = [UNITS['C10'], UNITS['C09']]


def units_of(pid):
    """-> [(module, unit id)]"""
    spec = UNITS[pid]
    if isinstance(spec, tuple):
        spec = [spec]
    return [(m, u) for m, us in spec for u in us]


NA = {
    'C28': 'a statement about the quality of a statistical fit (EM / k-means convergence): no contract over the '
           'code can express "better than chance", it depends on the recording',
    'C29': 'durability of HDF5 files across process death is decided inside the HDF5 C library and the kernel; '
           'no function of nilmtk under contract takes part in it',
}
