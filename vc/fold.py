"""Contracts of loops that build lists / accumulate.

FoldSpec: every list the loop appends to is, after k iterations, the fold of
the contract's step over the first k items.  The list keeps an opaque base
(`token`) that stands for that fold; one arbitrary iteration must extend it by
exactly what `step` allows, so at the exit the list *is* the fold over all
items.  Accumulators are specified by their value as a function of k."""
import z3
from . import core
from .core import VNum, VTimedelta, VTimestamp, Unsupported, PathEnd, ctx, lift, to_real
from .loops import LoopSpec, Loop
from .seqs import VList


def opaque_base(c, nm):
    n = c.fresh('n_' + nm, z3.IntSort())
    c.assume(n >= 0)

    def at(i):
        raise Unsupported('element of a list under construction')
    return n, at


def token_of(l):
    if not l.tail:
        return l.token
    return ('cat', l.token, tuple(id(x) for x in l.tail))


class FoldSpec(LoopSpec):
    def __init__(self, name, match, step=None, acc=None, nested=None, extra_inv=None,
                 havoc=None, strict=False, done=None):
        self.name = name
        self._match = match
        self._step = step
        self._acc = acc
        self._nested = nested
        self._extra = extra_inv
        self._havoc = havoc
        self._done = done

    def match(self, loop):
        return self._match(loop)

    def token(self, start, k):
        return ('fold', self.name, start, k)

    def end_token(self, start=('empty',)):
        return ('fold', self.name, start, 'end')

    def havoc(self, loop, env, names):
        c = ctx()
        over = {}
        loop.outs = {}
        for nme in set(names) | set(loop.mutated()):
            v = env.get(nme)
            if isinstance(v, VList):
                start = token_of(v)
                if nme in loop.mutated() and not (nme in names):
                    l = v
                else:
                    l = VList(v) if type(v) is VList else v
                l.version += 1
                l.base = opaque_base(c, self.name)
                l.tail = []
                l.token = self.token(start, 'k')
                loop.outs[nme] = (l, start)
                over[nme] = l
        if self._havoc:
            over.update(self._havoc(loop, env, names) or {})
        loop.accs = {}
        if self._acc:
            for nme in names:
                if nme in over or nme not in loop.entry:
                    continue
                r = self._acc(loop, nme, loop.entry[nme])
                if r is not None:
                    loop.accs[nme] = r
        return over

    def allow_mutation(self, loop):
        return [l for l, _ in loop.outs.values()]

    def inv(self, loop):
        out = []
        accs = getattr(loop, 'accs', None)
        if accs is None and self._acc:
            accs = {}
            for nme in loop.names:
                if nme in loop.env:
                    r = self._acc(loop, nme, loop.env[nme])
                    if r is not None:
                        accs[nme] = r
        for nme, fn in sorted((accs or {}).items()):
            v = loop.env[nme]
            e = v.e if isinstance(v, (VTimedelta, VTimestamp)) else lift(v)
            a, b = core.both(e, fn(loop.k))
            out.append(('running value of %s' % self.name, a == b))
        if self._extra:
            out.extend(self._extra(loop))
        return out

    def result_base(self, c):
        return opaque_base(c, self.name)

    def on_exit(self, loop):
        for l, start in loop.outs.values():
            l.token = self.token(start, 'end')
            self.finish_list(l, start)
        if self._done is not None:
            self._finish(loop)

    def finish_list(self, l, start):
        pass

    def _finish(self, loop):
        """facts about the whole input, on a path of their own"""
        c = ctx()
        if c.choose(2) == 0:
            self._done(loop)
            raise PathEnd('checked')

    def at_end(self, loop):
        c = ctx()
        for nme, (l0, start) in loop.outs.items():
            l = loop.env.get(nme)
            if not isinstance(l, VList):
                c.prove('%s: the result stays a list' % self.name, False, kind='weak')
                continue
            mine = self.token(start, 'k')
            if self._nested is not None:
                want = self._nested(loop).end_token(mine)
                c.prove('%s: one outer iteration appends exactly the inner results' % self.name,
                        l.token == want and not l.tail,
                        kind='hard' if l.token == mine else 'weak')
                continue
            if l.token != mine:
                raise Unsupported('%s: list rebuilt in an unexpected way' % self.name)
            self._step(loop, loop._item, list(l.tail))


def comprehension(engine, it, f):
    """A filtering comprehension over a symbolic sequence, as a fold."""
    c = ctx()
    fake = Loop.__new__(Loop)
    fake.engine, fake.id, fake.kind, fake.names, fake.qual = engine, 'comp', 'for', [], ''
    fake.it, fake.env, fake.entry = it, {}, {}
    spec = None
    for s in engine.loop_specs:
        if isinstance(s, FoldSpec) and s._step is not None and s.match(fake):
            spec = s
            break
    if spec is None:
        return None
    n, at = it.seq()
    if c.choose(2) == 0:
        k = c.fresh('k_' + spec.name, z3.IntSort())
        c.assume(z3.And(0 <= k, k < n))
        if not c.feasible():
            raise PathEnd()
        fake.k, fake.n, fake.at = k, n, at
        fake._item = at(k)
        spec.on_item(fake, fake._item)
        spec._step(fake, fake._item, list(f([fake._item])))
        raise PathEnd('loop cut')
    fake.n, fake.at = n, at
    if spec._done is not None:
        spec._finish(fake)
    r = VList()
    r.base = spec.result_base(c)
    r.token = spec.end_token()
    r.tag = 'picked ' + spec.name
    return r


class Picked(FoldSpec):
    """A loop or comprehension that keeps, in order, the items with keep(k).  Its result is the list of
    these items: element j is item sel(j), and item i with keep(i) is element cnt(i) (the definition of a
    filtered list: cnt counts the items kept before i)."""

    def __init__(self, name, match, n, item, keep, same, **kw):
        FoldSpec.__init__(self, name, match, step=self._check, **kw)
        c = ctx()
        I = z3.IntSort()
        self.c, self.n, self.item, self.keep, self.same = c, n, item, keep, same
        self.cnt, self.sel = c.fresh_fun('cnt_' + name, I, I), c.fresh_fun('sel_' + name, I, I)
        c.assume(z3.And(self.cnt(0) == 0, self.cnt(n) >= 0, self.cnt(n) <= n))

    def fact(self, i):
        """what holds for item i"""
        self.c.assume(z3.Implies(z3.And(0 <= i, i < self.n), z3.And(
            0 <= self.cnt(i), self.cnt(i) <= i,
            z3.If(self.keep(i), z3.And(self.cnt(i) < self.cnt(self.n), self.sel(self.cnt(i)) == i),
                  self.cnt(i) <= self.cnt(self.n)))))

    def at(self, j):
        self.c.assume(z3.Implies(z3.And(0 <= j, j < self.cnt(self.n)), z3.And(
            0 <= self.sel(j), self.sel(j) < self.n, self.keep(self.sel(j)), self.cnt(self.sel(j)) == j)))
        return self.item(self.sel(j))

    def result_base(self, c):
        return self.cnt(self.n), self.at

    def finish_list(self, l, start):
        if start == ('empty',) and not l.tail:
            l.base = self.result_base(self.c)

    def _check(self, loop, item, new):
        k = loop.k
        if len(new) == 0:
            self.c.prove('%s: an item left out is not one to keep' % self.name, z3.Not(self.keep(k)))
        elif len(new) == 1:
            self.c.prove('%s: an item kept is one to keep' % self.name, self.keep(k))
            self.c.prove('%s: it is kept as it is' % self.name, self.same(item, new[0]))
        else:
            self.c.prove('%s: an item is kept once' % self.name, False)


class Counting(LoopSpec):
    """A loop that appends to lists: every such list holds, after k iterations, the tracked item
    `expected(loop, k)` times.  worth(item) says how often an item counts (and proves that it is in order)."""

    def __init__(self, name, match, worth, expected, logs=()):
        self.name, self._match, self.worth, self.expected, self.logs = name, match, worth, expected, logs

    def match(self, loop):
        return self._match(loop)

    def value(self, l):
        n = l.token[1] if isinstance(l.token, tuple) and l.token and l.token[0] == 'count' else z3.IntVal(0)
        if l.base is not None and not (isinstance(l.token, tuple) and l.token[0] == 'count'):
            raise Unsupported('%s: a list of unknown content' % self.name)
        for x in l.tail:
            n = n + self.worth(x)
        return n

    def lists(self, loop, env):
        return [(n, env[n]) for n in sorted(loop.mutated()) if isinstance(env.get(n), VList)]

    def havoc(self, loop, env, names):
        c = ctx()
        self.held = []
        for n, l in self.lists(loop, env):
            if n in names:
                raise Unsupported('%s: the list is replaced' % self.name)
            l.version += 1
            l.base, l.tail = opaque_base(c, self.name), []
            l.token = ('count', c.fresh('count', z3.IntSort()))
            self.held.append(l)
        for g in self.logs:
            g.version += 1
            g.count = c.fresh('count', z3.IntSort())
        return {}

    def allow_mutation(self, loop):
        return self.held + list(self.logs)

    def inv(self, loop):
        k = getattr(loop, 'k', None)
        k = z3.IntVal(0) if k is None else k
        out = [('%s: the tracked item is in %s as often as it came' % (self.name, n), self.value(l) == self.expected(loop, k))
               for n, l in self.lists(loop, loop.env)]
        out += [('%s: the tracked item was recorded as often as it came' % self.name, g.count == self.expected(loop, k))
                for g in self.logs]
        return out


class Accumulate(LoopSpec):
    """A loop that adds up: every number it carries equals one of the running totals of the specification.

    totals: [(label, total(k), change(k))] with total(0) == 0 and total(k + 1) == total(k) + change(k) assumed by
    `unfold(k)`.  Which variable carries which total is found by running one arbitrary iteration first, so that names
    and the order of statements do not matter; the invariant is then proved as usual."""

    def __init__(self, name, match, totals, unfold=None, tag=None, others=None, late=None):
        self.name, self._match, self.totals, self.unfold = name, match, totals, unfold
        self.tag, self.others, self.late = tag, others, late

    def match(self, loop):
        return self._match(loop)

    def key(self, loop):
        # the same loop may run several times (for one input, then for another)
        if not hasattr(loop, 'run_no'):
            runs = ctx().__dict__.setdefault('acc_runs', {})
            loop.run_no = runs[loop.id] = runs.get(loop.id, 0) + 1
        return ('acc', loop.id, loop.run_no, self.tag)

    def carried(self, loop, env):
        return [n for n in sorted(loop.names) if n in env and isinstance(env[n], (int, float, core.VNum))
                and not isinstance(env[n], bool)]

    def roles(self, loop):
        return ctx().run.persist.get(self.key(loop))

    def havoc(self, loop, env, names):
        c = ctx()
        roles = self.roles(loop)
        out = {}
        self.h = {}
        for n in self.carried(loop, env):
            if roles is None:
                self.h[n] = c.fresh('h_' + n, z3.RealSort())
                out[n] = core.VNum(self.h[n])
            elif roles.get(n) is not None:
                out[n] = core.VNum(self.totals[roles[n]][1](loop.k))
            else:
                from .loops import Poison
                out[n] = Poison(n)
        if self.others is not None:
            out.update(self.others(loop, env))
        return out

    def inv(self, loop):
        roles = self.roles(loop)
        out = []
        for n, r in sorted((roles or {}).items()):
            if r is None:
                continue
            v = loop.env.get(n)
            if not isinstance(v, (int, float, core.VNum)):
                out.append(('%s is a number' % n, z3.BoolVal(False)))
                continue
            a, b = core.lift(v), self.totals[r][1](loop.k)
            out.append(('%s of the items so far' % self.totals[r][0], core.to_real(a) == core.to_real(b)))
        return out

    def on_item(self, loop, item):
        if self.unfold is not None:
            self.unfold(loop.k)

    def at_end(self, loop):
        c = ctx()
        if self.roles(loop) is not None:
            if self.late is not None:
                self.late(loop.k, [self.totals[r] for r in self.roles(loop).values() if r is not None])
            return
        roles = {}
        for n, h in self.h.items():
            v = loop.env.get(n)
            roles[n] = None
            if not isinstance(v, (int, float, core.VNum)):
                continue
            for r, (label, total, change) in enumerate(self.totals):
                d = core.to_real(core.lift(v)) - h - core.to_real(change(loop.k))
                d = z3.simplify(d, som=True)
                if z3.is_rational_value(d):
                    if d.numerator_as_long() != 0:
                        continue
                elif c._check(d != 0) != z3.unsat:
                    continue
                if True:
                    roles[n] = r
                    break
        c.run.persist[self.key(loop)] = roles
        raise core.Restart('%s adds up %s' % (loop.id, roles))
