"""C19 pairing of edges, C20 steady states and edges."""
import contextlib
import io
import numpy as np
import pandas as pd
import boot
from common import prop, must, Invalid, BASE, T
boot.load()
from nilmtk.disaggregate.hart_85 import PairBuffer, Hart85
from nilmtk.feature_detectors.steady_states import find_steady_states


def tolerance(p, q, par):
    m = max(abs(p), abs(q))
    return par['min_tol'] if m < par['large'] else par['percent'] * m


def matchable(a, b, par):
    """a, b: (time, power...) with a the earlier one"""
    return a[1] > 0 and all(abs(x + y) < tolerance(x, y, par) for x, y in zip(a[1:], b[1:]))


def gen_edges(g, par, dims):
    n = g.size(0, 9, 40)
    out, t = [], 0
    prev = []
    for _ in range(n):
        t += g.choice([1, 1, 2, 5])
        if prev and g.flag(0.6):
            o = g.choice(prev)
            row = []
            for x in o[1:]:
                m = par['min_tol'] if abs(x) < par['large'] else par['percent'] * abs(x)
                row.append(-x + g.choice([0, 0, 0.5, -0.5, 1, -1, 0.99, -0.99, 1.5]) * m)
        else:
            row = [g.choice([1, -1]) * g.choice([0, 50, 60, 100, 120, 150, 200, 500, par['large'],
                                                 par['large'] * 1.02, par['large'] * 0.98, par['large'] * 3])
                   for _ in range(dims)]
            h = g.hint(0.1)
            if h is not None:
                row[0] = h
        prev.append([t] + row)
        out.append([t] + row)
    return out


def gen_par(g):
    return dict(min_tol=g.choice([100, 100, 35, 10.5]), percent=g.choice([0.035, 0.25, 0.5, 0.0625]),
                large=g.choice([1000, 1000, 300]), size=g.choice([20, 20, 2, 3, 4, 5, 6]))


@prop('C19')
class Buffer(object):
    @staticmethod
    def gen(g):
        par = gen_par(g)
        dims = g.choice([1, 1, 2])
        ops = []
        for e in gen_edges(g, par, dims):
            ops.append(['add', e])
            while g.flag(0.4):
                ops.append([g.choice(['pair', 'pair', 'clean'])])
        ops.append([g.choice(['pair', 'pair', 'clean'])])
        return dict(par=par, dims=dims, ops=ops, kind=g.choice(['active', 'active', 'apparent']),
                    form=g.choice(['tuple', 'tuple', 'list']))

    @staticmethod
    def check(case):
        par, dims = case['par'], case['dims']
        mark = []
        if case.get('edges') is not None and 'ops' not in case:     # from a counterexample
            edges = case['edges']
            ops = [['add', e[:dims + 1]] for e in edges]
            mark = [len(e) > dims + 1 and bool(e[dims + 1]) for e in edges]
            ops.append(['mark'])
            ops += [['pair'], ['clean'], ['pair']]
        elif 'ops' in case:
            ops = case['ops']
        else:
            raise Invalid()
        if dims not in (1, 2) or par['size'] < 1:
            raise Invalid()
        nm = dims + 1
        b = PairBuffer([('power', case.get('kind', 'active'))], par['size'], par['min_tol'], par['percent'],
                       par['large'], nm)
        buf, rows = [], []
        seen = set()
        for k, op in enumerate(ops):
            what = 'operation %d of %s with %s' % (k, ops, par)
            if op[0] == 'add':
                e = tuple(op[1])
                if len(e) != nm or e[0] in seen:
                    raise Invalid()
                seen.add(e[0])
                b.add_transition(e if case.get('form', 'tuple') == 'tuple' else list(e))
                buf.append([e, False])
                buf = buf[-par['size']:]
            elif op[0] == 'mark':
                for x, y, m in zip(b.transition_list, buf, mark):
                    x[nm] = y[1] = m
            elif op[0] == 'clean':
                b.clean_buffer()
                buf = [x for x in buf if not x[1]]
            else:
                r = b.pair_transitions()
                new = [tuple(x) for x in b.matched_pairs.values.tolist()]
                must(new[:len(rows)] == rows, 'earlier pairs changed: %s' % what)
                for row in new[len(rows):]:
                    must(len(row) == 2 * nm, 'a pair has %d values: %s' % (len(row), what))
                    a, z = row[:nm], row[nm:]
                    ia = [i for i, x in enumerate(buf) if x[0] == a]
                    iz = [i for i, x in enumerate(buf) if x[0] == z]
                    must(len(ia) == 1 and len(iz) == 1, 'pair %s is not made of two edges of the buffer: %s' % (row, what))
                    ia, iz = ia[0], iz[0]
                    must(ia < iz, 'pair %s: the first edge is not the earlier: %s' % (row, what))
                    must(not buf[ia][1] and not buf[iz][1], 'pair %s uses a matched edge: %s' % (row, what))
                    must(matchable(a, z, par), 'pair %s does not cancel within tolerance: %s' % (row, what))
                    buf[ia][1] = buf[iz][1] = True
                must(bool(r) == (len(new) > len(rows)), 'the result says %s: %s' % (r, what))
                rows = new
                for i in range(len(buf)):
                    for j in range(i + 1, len(buf)):
                        must(buf[i][1] or buf[j][1] or not matchable(buf[i][0], buf[j][0], par),
                             'edges %s and %s stay unmatched: %s' % (buf[i][0], buf[j][0], what))
            got = [(tuple(x[:nm]), bool(x[nm])) for x in b.transition_list]
            must(got == [(x, y) for x, y in buf], 'the buffer is %s, expected %s: %s' % (got, buf, what))


@prop('C19')
class Pairing(object):
    @staticmethod
    def gen(g):
        par = gen_par(g)
        dims = g.choice([1, 1, 2])
        return dict(par=par, dims=dims, edges=gen_edges(g, par, dims) + gen_edges(g, par, dims)[:0])

    @staticmethod
    def check(case):
        if 'edges' not in case:
            raise Invalid()
        par, dims, edges = case['par'], case['dims'], [tuple(e) for e in case['edges']]
        if dims not in (1, 2) or any(len(e) != dims + 1 for e in edges) or par['size'] < 1 or \
                any(y[0] <= x[0] for x, y in zip(edges, edges[1:])):
            raise Invalid()
        cols = ['active transition', 'reactive transition'][:dims]
        h = Hart85({})
        h.columns = [('power', 'active')]
        h.transients = pd.DataFrame([list(e[1:]) for e in edges], index=[T(e[0]) for e in edges], columns=cols,
                                    dtype='float64')
        with contextlib.redirect_stdout(io.StringIO()):
            df = h.pair(par['size'], par['min_tol'], par['percent'], par['large'])
        what = 'edges %s with %s' % (edges, par)
        at = {T(e[0]): k for k, e in enumerate(edges)}
        nm = dims + 1
        pairs, used = [], set()
        for row in df.itertuples(index=False):
            row = tuple(row)
            must(len(row) == 2 * nm and row[0] in at and row[nm] in at, 'pair %s: %s' % (row, what))
            i, j = at[row[0]], at[row[nm]]
            must(tuple(row[1:nm]) == edges[i][1:] and tuple(row[nm + 1:]) == edges[j][1:],
                 'pair %s has the powers of other edges: %s' % (row, what))
            must(i < j and i not in used and j not in used, 'edge used twice or out of order: pair %s: %s' % (row, what))
            must(matchable(edges[i], edges[j], par), 'pair %s does not cancel within tolerance: %s' % (row, what))
            used.update((i, j))
            pairs.append((i, j))
        # the buffer as it must have been: full -> matched ones leave, else the oldest does
        buf, done = [], set()
        left = list(pairs)
        for k in range(len(edges)):
            if len(buf) == par['size']:
                buf = [x for x in buf if x not in done]
            buf = (buf + [k])[-par['size']:]
            for i, j in list(left):
                if j == k:
                    must(i in buf, 'pair of edges %d and %d, but the first had left the buffer: %s' % (i, j, what))
                    done.update((i, j))
                    left.remove((i, j))
            open_ = [x for x in buf if x not in done]
            for x in range(len(open_)):
                for y in range(x + 1, len(open_)):
                    must(not matchable(edges[open_[x]], edges[open_[y]], par),
                         'edges %d and %d were in the buffer together and stay unmatched: %s' % (open_[x], open_[y], what))


@prop('C20')
class Steady(object):
    @staticmethod
    def gen(g):
        n = g.size(1, 12, 60)
        dims = g.choice([1, 1, 2])
        thr = g.choice([15, 15, 1, 40])
        noise = g.choice([70, 70, 5, 120])
        rows, t = [], 0
        cur = [g.choice([0, 0, 3, 80, 200, -100]) for _ in range(dims)]
        h = g.hint(0.1)
        if h is not None:
            cur[0] = h
        for _ in range(n):
            rows.append([t] + list(cur))
            t += g.choice([1, 1, 1, 6, 60])
            if g.flag(0.4):
                k = g.r.randrange(dims)
                cur[k] += g.choice([thr, -thr, thr + 1, -thr - 1, noise, -noise, noise + 1, -noise - 1, 200, -200, 500])
            elif g.flag(0.3):
                k = g.r.randrange(dims)
                cur[k] += g.choice([1, -1, thr, -thr, thr / 2.0])
        return dict(rows=rows, dims=dims, thr=thr, noise=noise, tz=g.tz())

    @staticmethod
    def check(case):
        rows, dims, thr, noise = case['rows'], case['dims'], case['thr'], case['noise']
        if dims not in (1, 2) or not rows or any(len(r) != dims + 1 for r in rows) or thr < 0 or noise < 0 or \
                any(y[0] <= x[0] for x, y in zip(rows, rows[1:])):
            raise Invalid()
        cols = pd.MultiIndex.from_tuples([('power', 'active'), ('power', 'reactive')][:dims])
        df = pd.DataFrame([[float(x) for x in r[1:]] for r in rows], columns=cols,
                          index=pd.DatetimeIndex([T(r[0], case.get('tz')) for r in rows]))
        df0 = df.copy()
        n = len(rows)
        X = [[float(x) for x in r[1:]] for r in rows]
        jump = [any(abs(a - b) > thr for a, b in zip(X[i], X[i - 1] if i else [0.0] * dims)) for i in range(n)]
        exact = True
        ends = []               # (start of the change, mean) of each steady run
        start = began = 0       # first sample of the run; where the change into it began
        for i in range(n + 1):
            if i == n or (jump[i] and not (i and jump[i - 1])):
                if not (i == 0):
                    run = X[start:i]
                    if any(x != run[0] for x in run):
                        exact = False
                    mean = [sum(x[k] for x in run) / len(run) for k in range(dims)]
                    ends.append((began, mean))
                if i < n:
                    began = i
            if i < n and jump[i]:
                start = i
        exp, last = [], [0.0] * dims
        for b, m in ends:
            d = [x - y for x, y in zip(m, last)]
            for x in d:
                if abs(abs(x) - noise) < 1e-6 and not exact:
                    raise Invalid()
            if any(abs(x) > noise for x in d):
                exp.append((b, m, d))
            last = m
        if exp and exp[0][0] == 0 and any(x > noise for x in exp[0][1]):
            exp = exp[1:]
        what = 'rows %s threshold %s noise level %s' % (rows, thr, noise)
        with contextlib.redirect_stdout(io.StringIO()):
            st, tr = find_steady_states(df, state_threshold=thr, noise_level=noise)
        must(df.equals(df0), 'the input was changed: ' + what)
        must(len(st) == len(tr) == len(exp), '%d steady states and %d transitions, expected %d: %s'
             % (len(st), len(tr), len(exp), what))
        if not exp:
            return
        when = [df.index[b] for b, _, _ in exp]
        must(list(tr.index) == when, 'transitions at %s, expected %s: %s' % (list(tr.index), when, what))
        must(list(st.index) == when, 'steady states at %s, expected %s: %s' % (list(st.index), when, what))
        must(list(tr.columns) == ['active transition', 'reactive transition'][:dims] and
             list(st.columns) == ['active average', 'reactive average'][:dims], 'columns: ' + what)
        for k, (b, m, d) in enumerate(exp):
            must(np.allclose(st.iloc[k].values, m, rtol=1e-9, atol=1e-6),
                 'steady state %d is %s, expected %s: %s' % (k, list(st.iloc[k]), m, what))
            must(np.allclose(tr.iloc[k].values, d, rtol=1e-9, atol=1e-6),
                 'transition %d is %s, expected %s: %s' % (k, list(tr.iloc[k]), d, what))
