"""Proof units: contracts of repository functions as harness bodies.

A unit builds symbolic inputs that satisfy the function's precondition, runs
the real function on them, and states the postcondition with c.prove()."""
from . import core, loader

REGISTRY = {}


class Unit(object):
    def __init__(self, id, body, functions, title, sizes, exact, budget, needs, replay, weak):
        self.id = id
        self.body = body
        self.functions = functions
        self.title = title
        self.sizes = sizes          # None: loop-free; else bounded sizes
        self.exact = exact          # inductive mode has no over-approximation
        self.budget = budget
        self.replay = replay        # name of the oracle entry for counter-models
        self.weak = weak


def unit(id, functions, title='', sizes=None, exact=None, budget=60, needs=(), replay=None,
         weak=False):
    def deco(f):
        REGISTRY[id] = Unit(id, f, functions, title or (f.__doc__ or '').strip(), sizes,
                            sizes is None if exact is None else exact, budget, needs, replay, weak)
        return f
    return deco


class Result(object):
    pass


def run_unit(u, mode='inductive', size=None, budget=None, cross=None, repo=None, stop=False,
             prove_ms=15000):
    """-> core.Run"""
    eng = loader.Engine(repo=repo)
    eng.mode = mode
    eng.size = size

    def body(c):
        eng.loop_specs[:] = []
        eng.roots[:] = []
        eng.path_reset()
        u.body(c, eng)
    r = core.Run(u.id + ('' if size is None else '[%s]' % (size,)), body, mode=mode,
                 budget_s=budget or u.budget, cross=cross, stop_on_fail=stop,
                 prove_timeout_ms=prove_ms)
    r.weak = u.weak and mode == 'inductive'
    try:
        r.execute()
    except SyntaxError as e:
        r.limit = 'unsupported: syntax: %s' % e
        r.wall_s = 0
    r.engine = eng
    return r
