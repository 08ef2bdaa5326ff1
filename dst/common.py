"""Pieces shared by the property checks."""
import random

from . import gen
from . import model
from . import world as W

PROPAGATES = ('SimCancel', 'KeyboardInterrupt', 'SystemExit',
              'GeneratorExit')
EXCS = ('MemoryError', 'OSError', 'RecursionError', 'XacmlContextError')


def injected(rng, excs=EXCS):
    """An exception to be raised at one point of one operation."""
    return {'frac': rng.random(), 'byline': rng.random() < 0.6,
            'exc': rng.choice(excs)}


def resolve(fault, dry):
    if not fault:
        return None
    return (W.place(fault['frac'], fault['byline'], dry), fault['exc'])


def model_of(node, req, one_fault=False, refs=None):
    if one_fault:
        return model.decide_one_fault(node, req, refs)
    return model.decide(node, req, refs=refs)


def interesting(rng, g, node, tries=6, refs=None, want=None):
    """A request under which node is likely to be applicable."""
    best = None
    for _ in range(tries):
        q = g.request()
        d = model_of(node, q, refs=refs)
        if want is not None and want(q, d):
            return q
        if d != {'NotApplicable'}:
            if want is None:
                return q
            best = q
        best = best or q
    return best


def check_eval(ctx, label, out, allowed, may_raise=()):
    """out: outcome of an evaluation (W.attempt).  allowed: decisions."""
    if out[0] == 'ok':
        ctx.probe('decision ' + out[1])
        if out[1] not in allowed:
            ctx.viol('decision', '%s gave %s; only %s possible' % (
                label, out[1], sorted(allowed)))
            return False
        return True
    if out[1] == 'StepCap':
        return False        # reported by absorb as 'stuck'
    if out[1] in may_raise or may_raise == '*':
        ctx.probe('raised ' + out[1])
        return True
    ctx.viol('raised', '%s raised %s: %s' % (label, out[1], out[2]))
    return False


def solo(fn):
    """Outcome of fn in a fresh copy of the process, run alone."""
    from .core import fork_eval
    return fork_eval(lambda: W.attempt(fn))


def opcode(rng, p, faults, threads):
    """Whether a run is preempted between bytecodes.  Not together with
    injected exceptions in several threads: a raising opcode tracer crashes
    CPython 3.12 when other threads are inside traced code."""
    x = rng.random() < p
    return x and not (faults and threads > 1)
