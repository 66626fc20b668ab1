"""Proof units: one function (or lemma) with its contract, verified path by path."""
import time, traceback, z3
from .engine import Engine, Failed, Timeout, Loc, CxxThrow
from .prog import Unsupported
import signal

class Unit:
    def __init__(self, name, fn, optional=False, timeout=400, lemma=False, heavy=False):
        self.name = name; self.fn = fn; self.optional = optional; self.timeout = timeout; self.lemma = lemma; self.heavy = heavy

def run_unit(P, u, debug=False, setup=None, nproc=1):
    """-> dict describing what was proved"""
    t0 = time.time()
    eng = Engine(P)
    eng.unit = u.name
    eng.nproc = nproc
    eng.deadline = t0 + u.timeout
    if debug: eng.opts['debug'] = True
    if setup: setup(eng)
    r = {'unit': u.name, 'status': 'proved', 'detail': ''}
    try:
        u.fn(eng)
        if not any(o for o in eng.obls): r['status'] = 'vacuous'; r['detail'] = 'no obligation was generated'
    except Failed as e:
        r['status'] = 'refuted' if e.o.status == 'refuted' else 'unproved'
        r['detail'] = '%s\n%s' % (e.o.name, e.o.detail)
    except Timeout:
        r['status'] = 'timeout'; r['detail'] = 'unit time limit of %d s' % u.timeout
    except Unsupported as e:
        r['status'] = 'unsupported'; r['detail'] = '%s (at %s)' % (e, '>'.join(eng.hist[-6:]))
        if debug: traceback.print_exc()
    except z3.Z3Exception as e:
        r['status'] = 'unsupported'; r['detail'] = 'z3: %s' % e
        if debug: traceback.print_exc()
    except (RecursionError, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, CxxThrow, StopIteration) as e:
        r['status'] = 'unsupported'; r['detail'] = 'engine: %r' % (e,)
        if debug: traceback.print_exc()
    r['obls'] = [(o.name, o.status, o.backend, o.secs, o.detail) for o in eng.obls]
    r['functions'] = sorted({P.funcs[i]['nn'] for i in eng.inlined})
    r['contracts'] = sorted(eng.contracted)
    r['lib'] = sorted(eng.libused)
    r['solver_s'] = eng.solver_secs
    r['paths'] = eng.paths
    r['wall_s'] = time.time() - t0
    r['invariants'] = {k: v for k, v in eng.keptinv.items()}
    r['pruned'] = [(k, n, w) for k, n, w in eng.pruned if not n.startswith(('leaf', 'bound'))]
    r['assumptions'] = sorted(eng.assumptions)
    return r
