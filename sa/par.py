"""distributes the parts of a check over processes and collects what they report"""
import os
from concurrent.futures import ProcessPoolExecutor
import build
import limits

MAIN = os.getpid()


class Rec:
    """collects what a worker reports"""

    def __init__(self):
        self.v = []
        self.counts = {}
        self.fns = set()

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violate(self, ident, msg, **kw):
        limits.found()
        self.v.append((ident, msg, kw))

    def engine(self, eng):
        for k, v in eng.stats.items():
            self.count(k, v)
        self.count('instructions', eng.steps)
        self.fns |= {eng.mod.fns[f].dem for f in eng.fns_analysed}


def _work(a):
    fn, args = a
    r = Rec()
    del limits.engines[:]
    limits._first[0] = None
    try:
        fn(r, *args)
    except build.WitnessRejected as e:
        return r, e.args[0], e.log
    except Exception as e:
        for eng in limits.engines:
            for v in eng.viol.values():
                r.violate('%s@%s' % (v['kind'], v['fn'].split('(')[0][-60:]), v['msg'], loc=v['loc'], path=v['path'])
        if not r.v:
            raise
    finally:
        del limits.engines[:]
        if os.getpid() != MAIN:
            build.cleanup()
    return r, None, None


def run(chk, fn, items, workers=8):
    """fn(rec, *item) for every item"""
    chk.fns = getattr(chk, 'fns', set())
    err, fail = None, None
    with ProcessPoolExecutor(workers) as ex:
        futs = [ex.submit(_work, (fn, tuple(i))) for i in items]
        for f in futs:
            try:
                r, e, log = f.result()
            except Exception as x:
                fail = fail or x
                continue
            for k, v in r.counts.items():
                chk.count(k, v)
            for i, m, kw in r.v:
                chk.violate(i, m, **kw)
            chk.fns |= r.fns
            if e:
                err = build.WitnessRejected(e, log)
    if err:
        raise err
    if fail:
        raise fail
