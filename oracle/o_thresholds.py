"""C40 the on state of a meter, and what its appliances state about it."""
import warnings
import pandas as pd
import boot
from common import prop, must, Invalid, BASE
boot.load()
from nilmtk.appliance import Appliance
from nilmtk.elecmeter import ElecMeter, ElecMeterID
from nilmtk.electric import Electric, get_activations
from nilmtk.metergroup import MeterGroup


class Fake(Electric):
    def __init__(self, apps, chunks):
        self.appliances, self.chunks, self.asked = apps, chunks, []

    def power_series(self, **kw):
        self.asked.append(kw)
        for a in self.chunks:
            yield pd.Series([float(v) for _, v in a], index=BASE + pd.to_timedelta([t for t, _ in a], unit='s'), dtype=float)


@prop('C40')
class Thresholds(object):
    @staticmethod
    def gen(g):
        types = []
        for _ in range(3):
            t = {}
            for k in ('on_power_threshold', 'min_on_duration', 'min_off_duration'):
                if g.flag(0.5):
                    t[k] = g.choice([0, 1, 2, 3, 5, 5, 8, 10, 12, 40])
            types.append(t)

        def app(i):
            a = dict(type=g.r.randint(0, 2), instance=i + 1)
            if g.flag(0.35):
                a['on_power_threshold'] = g.choice([0, 2, 5, 15, 50])
            if g.flag(0.4):
                a['nominal_consumption'] = g.choice([{}, {'on_power': g.choice([0, 4, 20, 90])}])
            if g.flag(0.3):
                a['dominant_appliance'] = g.choice([True, True, False])
            return a
        meters = [[app(i) for i in range(g.choice([0, 1, 1, 2, 3]))] for _ in range(g.choice([0, 1, 2, 2, 3]))]
        chunks = []
        t = 0
        for _ in range(g.choice([0, 1, 2, 3])):
            l = []
            for _ in range(g.size(0, 12, 30)):
                l.append([t, g.choice([0, 0, 0, 2, 4, 5, 8, 10, 12, 30, 100])])
                t += g.choice([1, 1, 1, 2, 6])
            chunks.append(l)
        return dict(types=types, meters=meters, share=g.flag(0.4), chunks=chunks, given=[g.choice([None, None, None, 0, 3, 10]) for _ in range(3)],
                    resample=g.choice([None, None, False, True]), border=g.choice([None, None, 0, 1, 3]))

    @staticmethod
    def check(case):
        what = str(case)
        names = ['type %d' % i for i in range(len(case['types']))]
        old = Appliance.appliance_types
        Appliance.appliance_types = dict(zip(names, case['types']))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                check(case, names, what)
        finally:
            Appliance.appliance_types = old


def check(case, names, what):
    def build(l):
        return [Appliance(dict(a, type=names[a['type']])) for a in l]

    def threshold(a):
        if 'on_power_threshold' in a:
            return a['on_power_threshold']
        if 'on_power' in a.get('nominal_consumption', {}):
            return a['nominal_consumption']['on_power']
        return case['types'][a['type']].get('on_power_threshold', 10)
    dominants, meters = [], []
    for i, l in enumerate(case['meters']):
        apps = build(l)
        e = Fake(apps, case['chunks'])
        for a, o in zip(l, apps):
            must(o.on_power_threshold() == threshold(a), 'threshold of %s: %r %s' % (a, o.on_power_threshold(), what))
        thr = min([threshold(a) for a in l]) if l else 10
        must(e.on_power_threshold() == thr, 'threshold of meter %d is %r, not %r: %s' % (i, e.on_power_threshold(), thr, what))
        own = {}
        for k in ('min_on_duration', 'min_off_duration'):
            v = [case['types'][a['type']][k] for a in l if k in case['types'][a['type']]]
            own[k] = max(v) if v else 0
            must(getattr(e, k)() == own[k], '%s of meter %d is %r, not %r: %s' % (k, i, getattr(e, k)(), own[k], what))
        t, on, off = case['given']
        got = list(e.when_on(**({} if t is None else dict(on_power_threshold=t))))
        must(len(got) == len(case['chunks']), 'when_on gives %d chunks: %s' % (len(got), what))
        for s, ch in zip(got, case['chunks']):
            must([bool(x) for x in s] == [v >= (thr if t is None else t) for _, v in ch] and len(s) == len(ch), 'on state %s: %s' % (list(s), what))
        kw = {k: v for k, v in zip(('on_power_threshold', 'min_on_duration', 'min_off_duration'), case['given']) if v is not None}
        if case.get('border') is not None:
            kw['border'] = case['border']
        if case['resample'] is not None:
            kw['resample'] = case['resample']
        try:
            exp = []
            for ch in case['chunks']:
                s = pd.Series([float(v) for _, v in ch], index=BASE + pd.to_timedelta([x for x, _ in ch], unit='s'), dtype=float)
                exp.extend(get_activations(s, own['min_off_duration'] if off is None else off, own['min_on_duration'] if on is None else on,
                                           1 if case.get('border') is None else case['border'], thr if t is None else t))
        except Exception:
            exp = None
        if exp is not None:
            e.asked = []
            got = e.get_activations(**kw)
            must(len(got) == len(exp) and all(a.index.equals(b.index) and list(a) == list(b) for a, b in zip(got, exp)),
                 'activations %r, not %r: %s' % (got, exp, what))
            must(e.asked == [{'resample': True if case['resample'] is None else case['resample']}], 'power asked for with %r: %s' % (e.asked, what))
        m = ElecMeter.__new__(ElecMeter)
        m.appliances = apps
        if case['share'] and meters:        # a second meter with the appliances of the first
            m.appliances = meters[0].appliances
            l = case['meters'][0]
        m.identifier = ElecMeterID(i + 1, 1, 'd')
        marked = [j for j, a in enumerate(l) if a.get('dominant_appliance')]
        d = m.dominant_appliance()
        w = None if not l else m.appliances[marked[0] if marked and len(l) > 1 else 0]
        must(d is w, 'dominant appliance of meter %d is %r, not %r: %s' % (i, d, w, what))
        dominants.append(d)
        meters.append(m)
    g = MeterGroup.__new__(MeterGroup)
    g.meters, g.disabled_meters = meters, []
    distinct = set(dominants)
    try:
        d = g.dominant_appliance()
    except RuntimeError:
        must(len(distinct) > 1, 'no dominant appliance of the group: ' + what)
    else:
        must(len(distinct) <= 1 and d == (dominants[0] if dominants else None), 'dominant appliance of the group is %r: %s' % (d, what))
    all_ = {a for m in meters for a in m.appliances}
    got = g.appliances
    must(len(got) == len(all_) and set(got) == all_, 'appliances of the group %r: %s' % (got, what))
