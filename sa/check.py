"""python3 -m sa.check <property> [--tier quick|thorough]"""
import importlib
import os
import sys
import threading
import traceback


def run(pid, tier, seed, repo):
    from .report import Report, Broken
    from .program import Program
    from .terms import Budget
    rep = Report(pid, tier, seed)
    mod = importlib.import_module('sa.rules.' + pid.lower())
    try:
        prog = Program(repo)
        mod.run(prog, rep)
        instances(mod, prog, rep, Report)
    except Broken as x:
        return rep.finish(getattr(mod, 'LEVEL', 'other'), getattr(mod, 'EXPLANATION', ''), broken=str(x))
    except Budget:
        rep.undecided('the rest', 'analysis budget exceeded')
    except Exception as x:
        traceback.print_exc()
        return rep.finish(getattr(mod, 'LEVEL', 'other'), getattr(mod, 'EXPLANATION', ''),
                          broken='internal error: %r' % (x,))
    return rep.finish(getattr(mod, 'LEVEL', 'other'), getattr(mod, 'EXPLANATION', ''))


def sizes(k):
    if k == 0:
        return lambda i: 2
    if k == 1:
        return lambda i: 1 + i % 3
    if k == 2:
        return lambda i: 3 - i % 3
    return lambda i: 12


def instances(mod, prog, rep, Report):
    """what is left open for lists of any length: look for a counterexample with lists of a definite length"""
    import time
    from . import common
    from .report import UNDECIDED, REFUTED, Broken
    force = os.environ.get('SA_CONC')
    for k in range(4):
        left = {o.name for o in rep.obligs if o.verdict == UNDECIDED}
        if not force and (not left or time.time() - rep.t0 > 300):
            return
        if not force and any(o.verdict == REFUTED and (rep.pid, o.name) not in rep.known for o in rep.obligs):
            return
        if force and int(force) != k:
            continue
        r2 = Report(rep.pid, rep.tier, rep.seed)
        r2.t0 = rep.t0
        common.CONC[0] = sizes(k)
        try:
            mod.run(prog, r2)
        except Broken:
            pass
        finally:
            common.CONC[0] = None
        if force:
            for o in r2.obligs:
                if o.verdict != 'proved':
                    print('    instance', k, o.verdict, o.name, o.detail[:300])
        have = {o.name: o for o in rep.obligs}
        n = 0
        for o in r2.obligs:
            if o.verdict == REFUTED and (o.name not in have or have[o.name].verdict == UNDECIDED):
                rep.obligs = [p for p in rep.obligs if p.name != o.name] + [o]
                o.detail = 'with lists of definite length: ' + o.detail
                n += 1
        if n:
            return


def watch(t):
    """end a scenario that has used up its time without creating new terms"""
    import ctypes
    import time
    from . import terms as tm
    while t.is_alive():
        t.join(1)
        d = tm.DEADLINE[0]
        if d is not None and time.time() > d + 4 and t.is_alive():
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(tm.Budget))
            tm.DEADLINE[0] = time.time() + 10


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    repo = os.environ.get('VERIF_REPO', '/repo')
    res = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: res.append(run(pid, tier, seed, repo)))
    t.start()
    watch(t)
    return res[0] if res else 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
