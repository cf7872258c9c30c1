"""C18: factorial hidden Markov models."""
import contextlib
import io
import itertools
from collections import OrderedDict
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, BASE
boot.load()
from hmmlearn import hmm
from nilmtk.disaggregate import fhmm_exact as FX
from nilmtk.disaggregate.fhmm_exact import FHMMExact


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def close(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(a)), abs(float(b)))


def probs(g, k):
    v = [g.r.randint(1, 9) if not g.flag(0.1) else 0 for _ in range(k)]
    if not sum(v):
        v[0] = 1
    return [x / float(sum(v)) for x in v]


def chain(g, k, distinct=True):
    pool = g.r.sample(range(0, 60), k)
    if not distinct:
        pool = [g.choice(pool[:max(1, k - 1)]) for _ in range(k)]
    means = [round(x * g.choice([10, 10.0, 3.3]), 2) for x in pool]
    if distinct and len(set(means)) < k:
        means = [10.0 * x for x in pool]
    if g.flag(0.7):
        means[g.r.randrange(k)] = 0.0
        if distinct and len(set(means)) < k:
            means = [10.0 * (i + 1) for i in range(k)]
    return dict(start=probs(g, k), means=means, cov=[float(g.r.randint(1, 50)) for _ in range(k)],
                trans=[probs(g, k) for _ in range(k)])


def valid(ch):
    k = len(ch['means'])
    if k < 1 or len(ch['start']) != k or len(ch['cov']) != k or len(ch['trans']) != k or \
            any(len(r) != k for r in ch['trans']):
        raise Invalid()
    return k


def arrays(ch):
    return (np.array(ch['start'], float), np.array(ch['means'], float).reshape(-1, 1),
            np.array(ch['cov'], float).reshape(-1, 1, 1), np.array(ch['trans'], float))


def permuted(old, new, what):
    """some order of the states sorts the means and turns old into new"""
    s0, m0, c0, t0 = old
    s1, m1, c1, t1 = new
    k = len(m0)
    must(np.shape(m1) == np.shape(m0) and np.shape(s1) == np.shape(s0) and np.shape(t1) == np.shape(t0) and
         np.shape(c1) == np.shape(c0), 'shapes changed: %s' % what)
    must(list(m1[:, 0]) == sorted(m0[:, 0]), 'means %s are not those of %s in order' % (list(m1[:, 0]), what))
    # the order among states of equal mean is free
    for p in itertools.permutations(range(k)):
        if all(m0[p[i], 0] == m1[i, 0] for i in range(k)) and all(s1[i] == s0[p[i]] for i in range(k)) and \
                all(c1[i, 0, 0] == c0[p[i], 0, 0] for i in range(k)) and \
                all(t1[i, j] == t0[p[i], p[j]] for i in range(k) for j in range(k)):
            return
    must(False, 'start %s covariances %s transitions %s do not belong to the sorted means of %s'
         % (s1.tolist(), c1.ravel().tolist(), t1.tolist(), what))


@prop('C18')
class Sorting(object):
    @staticmethod
    def gen(g):
        return dict(chain=chain(g, g.choice([1, 2, 2, 3, 3, 4, 5]), distinct=g.flag(0.8)))

    @staticmethod
    def check(case):
        valid(case['chain'])
        old = arrays(case['chain'])
        a = [x.copy() for x in old]
        r = FX.sort_learnt_parameters(*a)
        for x, y in zip(a, old):
            must((x == y).all(), 'the learnt parameters were changed: %s' % case['chain'])
        permuted(old, r, str(case['chain']))


def models(chains, sort=True):
    out = OrderedDict()
    for name, ch in chains:
        k = valid(ch)
        s, m, c, t = arrays(ch)
        h = hmm.GaussianHMM(k, 'full')
        h.startprob_, h.means_, h.covars_, h.transmat_ = s, m, c, t
        out[name] = h
    return out


def sorted_chain(ch):
    o = sorted(range(len(ch['means'])), key=lambda i: ch['means'][i])
    return dict(start=[ch['start'][i] for i in o], means=[ch['means'][i] for i in o], cov=[ch['cov'][i] for i in o],
                trans=[[ch['trans'][i][j] for j in o] for i in o])


def decoded(names, cents, states):
    hs, hp = FX.decode_hmm(len(states), cents, names, np.array(states))
    must(set(hs) == set(names) and set(hp) == set(names), 'decoded %s for %s' % (sorted(hs), sorted(names)))
    for n in names:
        must(len(hs[n]) == len(states) and len(hp[n]) == len(states), 'decoded length %d of %d' % (len(hs[n]), len(states)))
    return hs, hp


def combined_ok(ms, comb, cents, what):
    names = list(ms)
    total = 1
    for n in names:
        total *= len(cents[n])
    hs, hp = decoded(names, cents, list(range(total)))
    tup = [tuple(int(hs[n][s]) for n in names) for s in range(total)]
    must(len(set(tup)) == total, 'joint states %s decode alike: %s' % (tup, what))
    for s in range(total):
        for i, n in enumerate(names):
            must(0 <= tup[s][i] < len(cents[n]), 'state %d of %s: %s' % (tup[s][i], n, what))
            must(close(hp[n][s], cents[n][tup[s][i]]), 'joint state %d gives %s power %s in its state %d: %s'
                 % (s, n, hp[n][s], tup[s][i], what))
    if comb is None:
        return tup
    pi, A, mu = np.asarray(comb.startprob_), np.asarray(comb.transmat_), np.asarray(comb.means_)
    must(pi.shape == (total,) and A.shape == (total, total) and mu.shape == (total, 1),
         'shapes %s %s %s for %d joint states: %s' % (pi.shape, A.shape, mu.shape, total, what))
    for s in range(total):
        want = np.prod([ms[n].startprob_[d] for n, d in zip(names, tup[s])])
        must(close(pi[s], want), 'joint state %s starts with %s, product is %s: %s' % (tup[s], pi[s], want, what))
        want = sum(ms[n].means_[d, 0] for n, d in zip(names, tup[s]))
        must(close(mu[s, 0], want), 'joint state %s has mean %s, sum is %s: %s' % (tup[s], mu[s, 0], want, what))
        for t in range(total):
            want = np.prod([ms[n].transmat_[d, e] for n, d, e in zip(names, tup[s], tup[t])])
            must(close(A[s, t], want), 'transition %s to %s is %s, product is %s: %s' % (tup[s], tup[t], A[s, t], want, what))
    return tup


def gen_models(g):
    n = g.choice([1, 1, 2, 2, 2, 3, 3, 4])
    ks = [g.choice([1, 2, 2, 3, 3, 4]) for _ in range(n)]
    while np.prod(ks) > 40:
        ks[ks.index(max(ks))] -= 1
    names = ['fridge', 'kettle', 'tv', 'light', 'oven']
    g.r.shuffle(names)
    return [[names[i], chain(g, k)] for i, k in enumerate(ks)]


@prop('C18')
class Combining(object):
    every = 3

    @staticmethod
    def gen(g):
        return dict(models=gen_models(g))

    @staticmethod
    def check(case):
        if not case['models']:
            raise Invalid()
        ms = models(case['models'])
        cents = OrderedDict((n, list(ch['means'])) for n, ch in case['models'])
        comb = quiet(FX.create_combined_hmm, ms)
        combined_ok(ms, comb, cents, str(case['models'])[:600])


@prop('C18')
class Decoding(object):
    @staticmethod
    def gen(g):
        n = g.choice([1, 2, 3, 4, 6, 8])
        cents = [[('a%d' % i), [float(g.r.randint(0, 3000)) for _ in range(g.choice([1, 2, 2, 3, 3, 4]))]] for i in range(n)]
        total = 1
        for _, v in cents:
            total *= len(v)
        return dict(cents=cents, states=[g.r.randrange(total) for _ in range(g.r.randint(0, 12))])

    @staticmethod
    def check(case):
        names = [n for n, _ in case['cents']]
        cents = OrderedDict((n, list(v)) for n, v in case['cents'])
        total = 1
        for n in names:
            total *= len(cents[n])
        if not names or not total or any(not 0 <= s < total for s in case['states']):
            raise Invalid()
        hs, hp = decoded(names, cents, case['states'])
        # the order of the joint states: that of the combined means
        mu, cov = FX.compute_means_fhmm([list(cents[n]) for n in names])
        one = [[float(j) for j in range(len(cents[n]))] for n in names]
        # weights make every total name its states
        w, base = [], 1.0
        for v in one:
            w.append([x * base for x in v])
            base *= len(v)
        mark, _ = FX.compute_means_fhmm(w)
        for i, s in enumerate(case['states']):
            left = int(round(float(mark[s][0])))
            tot = 0.0
            for n in names:
                d = left % len(cents[n])
                left //= len(cents[n])
                must(int(hs[n][i]) == d, 'sample %d (joint state %d): %s decodes to state %s, contributed state %d: centroids %s'
                     % (i, s, n, hs[n][i], d, case['cents']))
                must(close(hp[n][i], cents[n][d]), 'sample %d: %s gets %s in state %d: %s' % (i, n, hp[n][i], d, case['cents']))
                tot += cents[n][d]
            must(close(mu[s][0], tot), 'joint state %d has mean %s, its states sum to %s' % (s, mu[s][0], tot))


def frame(vals, start=0):
    return pd.DataFrame({'p': np.array(vals, float)}, pd.date_range(BASE + pd.Timedelta(seconds=start), periods=len(vals), freq='60s'))


@prop('C18')
class Disaggregation(object):
    every = 12

    @staticmethod
    def gen(g):
        ms = gen_models(g)
        ms = [[n, sorted_chain(ch)] for n, ch in ms]
        chunks = [[float(sum(g.choice(ch['means']) for _, ch in ms) + g.r.randint(-5, 5)) for _ in range(g.choice([0, 1, 3, 8]))]
                  for _ in range(g.choice([1, 1, 2, 3]))]
        return dict(models=ms, chunks=chunks)

    @staticmethod
    def check(case):
        if not case['models'] or not case['chunks']:
            raise Invalid()
        ms = models(case['models'])
        comb = quiet(FX.create_combined_hmm, ms)
        cents = OrderedDict((n, [int(np.round(x)) for x in ch['means']]) for n, ch in case['models'])
        if any(v != sorted(v) for v in cents.values()):
            raise Invalid()
        tup = combined_ok(ms, None, cents, str(case['models'])[:600])
        f = quiet(FHMMExact, {})
        f.individual, f.model, f.app_names = ms, comb, list(ms)
        chunks = [frame(v) for v in case['chunks']]
        out = quiet(f.disaggregate_chunk, chunks)
        must(len(out) == len(chunks), '%d predictions for %d chunks' % (len(out), len(chunks)))
        for df, ch in zip(out, chunks):
            must(sorted(df.columns) == sorted(ms) and len(df) == len(ch), 'prediction has columns %s and %d rows for %d'
                 % (list(df.columns), len(df), len(ch)))
            if not len(ch):
                continue
            states = comb.predict(ch.values.reshape(-1, 1))
            for j, s in enumerate(states):
                for i, n in enumerate(ms):
                    must(close(df[n].iloc[j], cents[n][tup[s][i]], 1e-6), 'sample %d: %s gets %s, joint state %s has %s: %s'
                         % (j, n, df[n].iloc[j], tup[s], cents[n][tup[s][i]], str(case)[:500]))


@prop('C18')
class Training(object):
    every = 60

    @staticmethod
    def gen(g):
        apps = []
        for i in range(g.choice([1, 2, 3])):
            on = float(g.choice([60, 100, 250, 2000]))
            const = g.flag(0.15)
            apps.append(['app%d' % i, [0.0 if const or g.flag(0.5) else on + g.r.randint(-2, 2)
                                       for _ in range(g.r.randint(20, 40))]])
        return dict(apps=apps, states=g.choice([2, 2, 3]))

    @staticmethod
    def check(case):
        if not case['apps'] or case['states'] < 1 or any(len(v) < 4 * case['states'] for _, v in case['apps']):
            raise Invalid()
        f = quiet(FHMMExact, {'num_of_states': case['states']})
        n = max(len(v) for _, v in case['apps'])
        kept, fit0 = [], hmm.GaussianHMM.fit

        def fit(self, X, *a, **k):
            r = fit0(self, X, *a, **k)
            kept.append([np.array(v) for v in (self.startprob_, self.means_, self.covars_, self.transmat_)])
            return r
        hmm.GaussianHMM.fit = fit
        try:
            quiet(f.partial_fit, [frame([0.0] * n)], [(a, [frame(v)]) for a, v in case['apps']])
        finally:
            hmm.GaussianHMM.fit = fit0
        names = [a for a, _ in case['apps']]
        must(list(f.individual) == names, 'models of %s for %s' % (list(f.individual), names))
        if any(not np.isfinite(v).all() for k in kept for v in k):
            raise Invalid()
        if len(kept) == len(names):
            for a, k in zip(names, kept):
                h = f.individual[a]
                h.n_features = 1
                permuted(k, (np.asarray(h.startprob_), np.asarray(h.means_), np.asarray(h.covars_), np.asarray(h.transmat_)),
                         'what was learnt for %s: %s' % (a, [x.tolist() for x in k]))
        cents = OrderedDict((a, list(np.asarray(f.individual[a].means_)[:, 0])) for a in names)
        combined_ok(f.individual, f.model, cents, str(case)[:500])
