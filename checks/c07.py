import build
from v2 import *

TYPES = [('AB', 'A', 'B'), ('TB', 'T', 'B'), ('MT', 'M', 'T'), ('QB', 'Q', 'B'), ('BQ', 'B', 'Q')]
CAT = {'l': '&', 'c': ' const&', 'r': '&&', 'k': ' const&&'}


def objnames(v):
    return ('p', ('x', v), 0)


class C7(V2):
    def go(self, defs):
        chk = self.chk
        self.quiet = True
        self.run()
        self.quiet = False
        self.eng.viol.clear()
        E = self.eng
        hashes = {}
        for a in self.order:
            st = State()
            p = place(E, st, 'a', self.size, a)
            pr, err = self.probe(st, 'a')
            if err:
                self.fail('state', err, st)
                return
            i, off = pr
            # get / get_if
            for tag, k in (('0', 0), ('1', 1), ('tX', 0), ('tY', 1)):
                for cat in 'lcrk':
                    e = 'get_%s_%s' % (tag, cat)
                    outs = self.call(st.copy(), e, p)
                    chk.count('obligations')
                    want = ('ret', ('p', ('x', 'a'), off)) if i == k else ('throw', '_ZTISt18bad_variant_access')
                    got = {(kd, v if kd == 'ret' else (v[1] if kd == 'throw' else v)) for kd, v, s in outs}
                    if got != {want}:
                        self.fail(e, 'state with index %s: outcome %s, expected %s' % (i, sorted(map(str, got)), want), st)
                for cat in 'lc':
                    e = 'gif_%s_%s' % (tag, cat)
                    outs = self.call(st.copy(), e, p)
                    chk.count('obligations')
                    want = ('p', ('x', 'a'), off) if i == k else 0
                    got = {(kd, v) for kd, v, s in outs}
                    if got != {('ret', want)}:
                        self.fail(e, 'state with index %s: outcome %s' % (i, sorted(map(str, got))), st)
            for cat in 'lcrk':
                s0 = st.copy()
                vis = place(E, s0, 'vis', 8)
                base = len(s0.ev)
                outs = self.call(s0, 'visit_' + cat, p, vis)
                chk.count('obligations')
                kinds = sorted(kd for kd, _, _ in outs)
                if i == NPOS:
                    if kinds != ['throw'] or outs[0][1][1] != '_ZTISt18bad_variant_access' or outs[0][2].ev[base:] and \
                            any(x[0] == 'call' for x in outs[0][2].ev[base:]):
                        self.fail('visit_' + cat, 'valueless variant: outcome %s' % kinds, st)
                    continue
                if kinds != ['ret', 'throw']:
                    self.fail('visit_' + cat, 'outcomes %s, expected the visitor\'s result or the visitor\'s exception'
                              % [(k, v) for k, v, s in outs], st)
                    continue
                for kd, v, s in outs:
                    calls = [x for x in s.ev[base:] if x[0] in ('call', 'call-throw')]
                    others = [x for x in s.ev[base:] if x[0] not in ('call', 'call-throw')]
                    want = 'arch::Vis::operator()(arch::%s%s)' % (self.cls[i], CAT[cat])
                    if len(calls) != 1 or others or calls[0][1] != want:
                        self.fail('visit_' + cat, 'index %s: visitor events %s, expected exactly one call of %s' % (
                            i, [x[1] for x in calls] + [x[0] for x in others], want), s)
                    elif kd == 'ret' and (calls[0][2][1] != ('p', ('x', 'a'), off) or calls[0][3] != v):
                        self.fail('visit_' + cat, 'argument or result of the visitor not passed through', s)
                    elif kd == 'throw' and v[1] != 'USER':
                        self.fail('visit_' + cat, 'exception replaced', s)
            outs = self.call(st.copy(), 'hash', p)
            chk.count('obligations')
            rets = [v for kd, v, s in outs if kd == 'ret']
            for kd, v, s in outs:
                if kd == 'end':
                    self.fail('hash', 'hashing a variant with index %s ends in %s' % ('npos' if i == NPOS else i, v), s)
                if kd == 'throw' and (i == NPOS or self.cls[i] != 'Q'):
                    self.fail('hash', 'hashing throws for index %s' % i, s)
            if len(rets) == 1:
                hashes.setdefault((i, off, self.value(st, 'a', pr)), set()).add(rets[0])
        for k, v in hashes.items():
            if len(v) != 1:
                self.fail('hash', 'equal variants (index %s) hash differently: %s' % (k[0], [show(x) for x in v]), State())
        for a in self.order:
            for b in self.order:
                self.compare(a, b)
        for e in ('gifnull_0', 'gifnull_1'):
            outs = self.call(State(), e)
            if [(k, v) for k, v, s in outs] != [('ret', 0)]:
                self.fail(e, 'get_if of a null pointer does not return null', State())
        chk.engine(self.eng)
        for key, v in self.eng.viol.items():
            chk.violate('%s/%s@%s' % (self.name, v['kind'], v['fn'].split('(')[0][-60:]), v['msg'], loc=v['loc'],
                        path=v['path'], events=v['events'])

    def compare(self, a, b):
        E, chk = self.eng, self.chk
        st = State()
        p = place(E, st, 'a', self.size, a)
        q = place(E, st, 'b', self.size, b)
        pa, e1 = self.probe(st, 'a')
        pb, e2 = self.probe(st, 'b')
        if e1 or e2:
            return
        va, vb = self.value(st, 'a', pa), self.value(st, 'b', pb)
        rank = {NPOS: -1, 0: 0, 1: 1}
        ia, ib = rank[pa[0]], rank[pb[0]]
        for e in ('eq', 'ne', 'cmp', 'lt'):
            outs = self.call(st.copy(), e, p, q)
            chk.count('obligations')
            same = ia == ib
            cls = self.cls[ia] if same and ia >= 0 else None
            canthrow = cls == 'Q'
            seen = set()
            for kd, v, s in outs:
                if kd == 'end':
                    self.fail(e, 'comparison of index %s with %s ends in %s' % (ia, ib, v), s)
                    continue
                if kd == 'throw':
                    if not canthrow:
                        self.fail(e, 'comparison of index %s with %s throws' % (ia, ib), s)
                    seen.add('throw')
                    continue
                w = 32 if e == 'cmp' else 1
                ncmp = [x for x in s.ev if x[0] == 'cmp']
                if cls is None:
                    want = {'eq': int(same), 'ne': int(not same), 'lt': int(ia < ib),
                            'cmp': ((ia > ib) - (ia < ib)) & mask(32)}[e]
                    if v != want:
                        self.fail(e, 'comparing index %s with %s gives %s, expected %s' % (ia, ib, show(v), want), s)
                    continue
                # the value comparison decides: evaluate v under each outcome of it
                if e in ('eq', 'ne'):
                    if cls in TRIV:
                        atom = cmpv('eq', va, vb, TRIV[cls] * 8)
                    else:
                        atom = ('o', 'arch==', 1, va, vb)
                    cases = [(True, 1 if e == 'eq' else 0), (False, 0 if e == 'eq' else 1)]
                    for tv, want in cases:
                        for s2 in E.assume(s.copy(), atom, tv):
                            seen.add(tv)
                            got = E.decide(s2, v)
                            if got is not bool(want):
                                self.fail(e, 'both hold alternative %d and the values compare %s, but the result is %s' % (
                                    ia, 'equal' if tv else 'unequal', got), s)
                else:
                    if cls in TRIV:
                        w0 = TRIV[cls] * 8
                        tests = [(-1, [(cmpv('slt', va, vb, w0), True)]), (1, [(cmpv('slt', vb, va, w0), True)]),
                                 (0, [(cmpv('eq', va, vb, w0), True)])]
                    else:
                        t = ('o', 'arch<=>', 8, va, vb)
                        tests = [(r, [(cmpv('eq', t, r & 255, 8), True)]) for r in (-1, 0, 1)]
                    for r, conds in tests:
                        ss = [s.copy()]
                        for c, tv in conds:
                            ss = [x for y in ss for x in E.assume(y, c, tv)]
                        for s2 in ss:
                            seen.add(r)
                            x = E.norm(s2, v)
                            if e == 'lt':
                                ok = E.decide(s2, x) is (r < 0)
                            else:
                                ok = E.decide(s2, cmpv('eq', x, r & mask(32), 32)) is True
                            if not ok:
                                self.fail(e, 'both hold alternative %d, values compare %d, but the result is %s' % (
                                    ia, r, show(x)), s)
            if cls is not None:
                need = {True, False} if e in ('eq', 'ne') else {-1, 0, 1}
                if type(va) is int and type(vb) is int:
                    need = set()  # both contents are known constants: one outcome
                elif type(va) is int or type(vb) is int:
                    need &= {True, False, 0}
                if canthrow:
                    need = need | {'throw'}
                if not need <= seen:
                    self.fail(e, 'comparison of two variants with alternative %d never gives outcome %s' % (
                        ia, sorted(map(str, need - seen))), st)


def check(chk):
    chk.technique = 'abstract interpretation of accessors over the closed set of variant states'
    chk.headers = ['variant2.hpp']
    for defs in [(), ('NDEBUG',)]:
        mod = build.compile_bc('c07.cpp', defs)
        for p, x, y in TYPES:
            v = C7(chk, mod, p, x, y)
            v.go(defs)
            chk.sample('%s%s: %d states' % (v.name, ' NDEBUG' if defs else '', len(v.order)))
    chk.require('object_states', chk.counts['object_states'], 20)
    return ''
