"""Class closure for two-alternative variants (dice::template_library::variant2)."""
import build
import models
from closure import *
from dom import *
from engine import Engine, State

NPOS = mask(64)
TRIV = {'T': 8, 'S': 4}


def csize(c):
    return TRIV.get(c) or models.SIZES[c]


def mkengine(mod):
    e = Engine(mod)
    models.install(e)
    e.hooks['arch'] = models.opaque

    def raw_store(eng, st, obj, off, size, val, I):
        if type(off) is not int or type(size) is not int:
            return
        for (o, lo), c in st.live.items():
            if o == obj and type(lo) is int and lo < off + size and off < lo + models.SIZES.get(c, 1):
                if c in ('R', 'R2') and off == lo and size == models.SIZES[c]:
                    continue
                eng.violation('raw-overwrite', 'raw bytes written over a live %s object (no destructor, no assignment)'
                              % c, st, I)

    e.hooks['store'] = raw_store
    return e


class V2:
    def __init__(self, chk, mod, prefix, X, Y):
        self.chk, self.mod, self.p = chk, mod, prefix
        self.cls = (X, Y)
        self.eng = mkengine(mod)
        self.states = {}
        self.order = []
        self.name = 'variant2<%s,%s>' % (X, Y)
        self.quiet = False

    def has(self, e):
        return (self.p + '_' + e) in self.mod.fns

    def call(self, st, e, *args):
        f = self.mod.fns[self.p + '_' + e]
        n = set(self.eng.viol)
        outs = self.eng.call(st, f, list(args))
        return outs

    def probe(self, st, name):
        """(index, live offset) of object `name`, through the public observers only; None if inconsistent"""
        p = ('p', ('x', name), 0)
        r = {}
        for e in ('index', 'valueless', 'holds_X', 'holds_Y', 'getif_0', 'getif_1'):
            outs = self.call(st.copy(), e, p)
            vals = {(k, v) for k, v, s in outs}
            if len(vals) != 1 or next(iter(vals))[0] != 'ret':
                return None, 'observer %s of an abstract state gives %s' % (e, sorted(map(str, vals)))
            r[e] = next(iter(vals))[1]
        i = r['index']
        if i not in (0, 1, NPOS):
            return None, 'index() is %s' % show(i)
        exp = {0: (0, 1, 0), 1: (0, 0, 1), NPOS: (1, 0, 0)}[i]
        if (r['valueless'], r['holds_X'], r['holds_Y']) != exp:
            return None, 'index() is %s but valueless/holds_alternative say %s' % (
                i, (r['valueless'], r['holds_X'], r['holds_Y']))
        lives = {k: c for k, c in st.live.items() if k[0] == ('x', name)}
        want = {}
        off = None
        for k in (0, 1):
            g = r['getif_%d' % k]
            if i == k:
                if type(g) is int or g[0] != 'p' or g[1] != ('x', name):
                    return None, 'get_if<%d> gives %s although index() is %d' % (k, show(g), k)
                off = g[2]
                if self.cls[k] not in TRIV:
                    want[(('x', name), off)] = self.cls[k]
            elif g != 0:
                return None, 'get_if<%d> is not null although index() is %s' % (k, i)
        if lives != want:
            return None, 'index() is %s but the live members are %s' % (
                'npos' if i == NPOS else i, sorted(lives.values()) or 'none')
        return (i, off), None

    def value(self, st, name, pr):
        """content of the active alternative"""
        i, off = pr
        if i == NPOS:
            return None
        v = self.eng.load(st, ('x', name), off, csize(self.cls[i]))
        return self.eng.norm(st, v)

    def ext(self, st, cls, name, live=True):
        o = ('x', name)
        size = csize(cls)
        st.objs[o] = ('x', size, 16, False, True, 0)
        st.mem[o] = {0: (size, ('k', 'val', name, cls, 0) if cls not in TRIV else ('s', ('val', name), size * 8))}
        st._own.add(o)
        if cls not in TRIV:
            st.live[(o, 0)] = cls
        return ('p', o, 0)

    def fail(self, op, what, s, outs_kind='', I=None):
        if self.quiet:
            return
        self.chk.violate('%s/%s' % (self.name, op), what + (' [%s]' % outs_kind if outs_kind else ''),
                         events=[str(e) for e in s.ev[-20:]])

    def absorb(self, st, name, trail):
        os = read(self.eng, st, name)
        os.trail = trail
        k = os.key()
        if k not in self.states:
            self.states[k] = os
            self.order.append(os)

    # ----------------------------------------------------------------- the closure
    def run(self):
        chk = self.chk
        size = self.mod and self.call(State(), 'sizeof')[0][1]
        self.size = size
        X, Y = self.cls
        for e in ('ctor_default', 'ctor_ip_X', 'ctor_ip_Y', 'ctor_ip_0', 'ctor_ip_1'):
            if not self.has(e):
                continue
            st = State()
            p = place(self.eng, st, 'a', size)
            k = 1 if e[-1] in 'Y1' else 0
            self.ctor_outcomes(e, st, [p], k, None if e == 'ctor_default' else 7)
        for e, k in (('ctor_X_copy', 0), ('ctor_X_move', 0), ('ctor_Y_copy', 1), ('ctor_Y_move', 1)):
            if not self.has(e):
                continue
            st = State()
            p = place(self.eng, st, 'a', size)
            q = self.ext(st, self.cls[k], 'arg')
            self.ctor_outcomes(e, st, [p, q], k, 'arg')
        done = 0
        while True:
            n = len(self.order)
            if n > 60:
                raise RuntimeError('too many object states')
            for i, a in enumerate(self.order[:n]):
                if i >= done:
                    self.unary(a)
                for j, b in enumerate(self.order[:n]):
                    if i >= done or j >= done:
                        self.binary(a, b)
                if i >= done:
                    self.selfops(a)
            done = n
            if len(self.order) == n:
                break
        chk.count('object_states', len(self.order))
        if self.quiet:
            return
        chk.engine(self.eng)
        for key, v in self.eng.viol.items():
            chk.violate('%s/%s@%s' % (self.name, v['kind'], v['fn'].split('(')[0][-60:]), v['msg'], loc=v['loc'],
                        path=v['path'], events=v['events'])

    def ctor_outcomes(self, e, st, args, k, src):
        before = st
        for kind, v, s in self.call(st.copy(), e, *args):
            self.chk.count('obligations')
            if kind == 'end':
                self.fail(e, 'constructor ends in %s' % (v,), s)
                continue
            if kind == 'throw':
                if any(o == ('x', 'a') for o, _ in s.live):
                    self.fail(e, 'constructor throws but leaves a live member behind', s)
                continue
            pr, err = self.probe(s, 'a')
            if err:
                self.fail(e, err, s)
                continue
            if pr[0] != k:
                self.fail(e, 'index() is %s, expected %d' % (pr[0], k), s)
                continue
            val = self.value(s, 'a', pr)
            if src == 'arg':
                exp = self.eng.load(before, ('x', 'arg'), 0, csize(self.cls[k]))
                if val != exp:
                    self.fail(e, 'holds %s instead of the argument %s' % (show(val), show(exp)), s)
                if e.endswith('copy') and not self.same_ext(before, s, 'arg', self.cls[k]):
                    self.fail(e, 'the copied-from argument was modified', s)
            elif src == 7:
                exp = 7 if self.cls[k] in TRIV else ('k', 'make', self.cls[k], 7)
                if val != exp:
                    self.fail(e, 'holds %s instead of a value constructed from the argument' % show(val), s)
            else:
                if self.cls[k] in TRIV and val != 0 or self.cls[k] not in TRIV and val[:2] != ('k', 'make'):
                    self.fail(e, 'default constructed alternative holds %s' % show(val), s)
            self.absorb(s, 'a', e)

    def same_ext(self, s0, s1, name, cls):
        o = ('x', name)
        return self.eng.load(s0, o, 0, csize(cls)) == self.eng.load(s1, o, 0, csize(cls)) and (
            s0.live.get((o, 0)) == s1.live.get((o, 0)))

    def unary(self, a):
        X, Y = self.cls
        # destructor
        st = State()
        p = place(self.eng, st, 'a', self.size, a)
        for kind, v, s in self.call(st, 'dtor', p):
            self.chk.count('obligations')
            if kind != 'ret':
                self.fail('dtor', 'destructor does not return normally: %s' % kind, s)
            elif any(o == ('x', 'a') for o, _ in s.live):
                self.fail('dtor', 'destructor leaves a live %s behind (state after %s)' % (
                    sorted(c for (o, _), c in s.live.items() if o == ('x', 'a')), a.trail), s)
        for e, k in (('emplace_X', 0), ('emplace_0', 0), ('emplace_Y', 1), ('emplace_1', 1)):
            st = State()
            p = place(self.eng, st, 'a', self.size, a)
            pr0, err = self.probe(st, 'a')
            if err:
                self.fail(a.trail, err, st)
                return
            for kind, v, s in self.call(st.copy(), e, p):
                self.outcome(e, a, None, st, s, kind, v, pr0, k, 7, None)
                if kind == 'ret':
                    pr, err = self.probe(s, 'a')
                    if pr and v != ('p', ('x', 'a'), pr[1]):
                        self.fail(e, 'returned reference is not the new alternative', s)
        for e, k in (('assign_X_copy', 0), ('assign_X_move', 0), ('assign_Y_copy', 1), ('assign_Y_move', 1)):
            if not self.has(e):
                continue
            st = State()
            p = place(self.eng, st, 'a', self.size, a)
            pr0, err = self.probe(st, 'a')
            q = self.ext(st, self.cls[k], 'arg')
            exp = self.eng.load(st, ('x', 'arg'), 0, csize(self.cls[k]))
            for kind, v, s in self.call(st.copy(), e, p, q):
                self.outcome(e, a, None, st, s, kind, v, pr0, k, exp, None)
                if e.endswith('copy') and not self.same_ext(st, s, 'arg', self.cls[k]):
                    self.fail(e, 'the copied-from argument was modified', s, kind)
                if (('x', 'arg'), 0) not in s.live and self.cls[k] not in TRIV:
                    self.fail(e, 'the argument is no longer alive', s, kind)

    def outcome(self, e, a, b, st, s, kind, v, pr0, k, exp, src):
        """generic postcondition of an operation that gives object a alternative k with content exp"""
        self.chk.count('obligations')
        if kind == 'end':
            self.fail(e, 'operation ends in %s (target after %s%s)' % (v, a.trail, ', source after ' + b.trail if b else ''),
                      s)
            return None
        pr, err = self.probe(s, 'a')
        if err:
            self.fail(e, '%s (target after %s%s)' % (err, a.trail, ', source after ' + b.trail if b else ''), s,
                      'exit by exception' if kind == 'throw' else '')
            return None
        if kind == 'throw':
            ok = {pr0[0], NPOS} if pr0[0] != k else {k}
            if e.startswith('emplace'):
                ok = {NPOS, pr0[0]}
            if pr[0] not in ok:
                self.fail(e, 'after the exception index() is %s (was %s)' % (pr[0], pr0[0]), s)
        else:
            if pr[0] != k:
                self.fail(e, 'index() is %s, expected %s (target after %s)' % (pr[0], k, a.trail), s)
            elif k != NPOS:
                val = self.value(s, 'a', pr)
                x = exp
                if exp == 7:
                    x = 7 if self.cls[k] in TRIV else ('k', 'make', self.cls[k], 7)
                if val != x:
                    self.fail(e, 'holds %s, expected %s (target after %s)' % (show(val), show(x), a.trail), s)
        self.absorb(s, 'a', e + ('!' if kind == 'throw' else ''))
        return pr

    def binary(self, a, b):
        for e in ('ctor_copy', 'ctor_move', 'assign_copy', 'assign_move', 'swap'):
            if not self.has(e):
                continue
            if e.startswith('ctor'):
                st = State()
                q = place(self.eng, st, 'b', self.size, b)
                p = place(self.eng, st, 'a', self.size)
                prb, err = self.probe(st, 'b')
                if err:
                    return
                vb = self.value(st, 'b', prb)
                for kind, v, s in self.call(st.copy(), e, p, q):
                    self.chk.count('obligations')
                    if kind == 'end':
                        self.fail(e, 'operation ends in %s' % (v,), s)
                        continue
                    pb, err = self.probe(s, 'b')
                    if err:
                        self.fail(e, 'source afterwards: ' + err, s, kind)
                        continue
                    if pb[0] != prb[0] or (e == 'ctor_copy' and self.value(s, 'b', pb) != vb):
                        self.fail(e, 'the source was changed (index %s -> %s)' % (prb[0], pb[0]), s, kind)
                    self.absorb(s, 'b', e + ' source' + ('!' if kind == 'throw' else ''))
                    if kind == 'throw':
                        if any(o == ('x', 'a') for o, _ in s.live):
                            self.fail(e, 'constructor throws but leaves a live member behind', s)
                        continue
                    pa, err = self.probe(s, 'a')
                    if err:
                        self.fail(e, err + ' (source after %s)' % b.trail, s)
                        continue
                    if pa[0] != prb[0]:
                        self.fail(e, 'index() is %s, the source had %s' % (pa[0], prb[0]), s)
                    elif self.value(s, 'a', pa) != vb:
                        self.fail(e, 'holds %s, the source held %s' % (show(self.value(s, 'a', pa)), show(vb)), s)
                    self.absorb(s, 'a', e)
                continue
            st = State()
            p = place(self.eng, st, 'a', self.size, a)
            q = place(self.eng, st, 'b', self.size, b)
            pra, err = self.probe(st, 'a')
            prb, err2 = self.probe(st, 'b')
            if err or err2:
                return
            va, vb = self.value(st, 'a', pra), self.value(st, 'b', prb)
            for kind, v, s in self.call(st.copy(), e, p, q):
                if e != 'swap':
                    self.outcome(e, a, b, st, s, kind, v, pra, prb[0], vb, 'b')
                    if kind == 'end':
                        continue
                    pb, err = self.probe(s, 'b')
                    if err:
                        self.fail(e, 'source afterwards: ' + err, s, kind)
                        continue
                    if pb[0] != prb[0] or (e == 'assign_copy' and self.value(s, 'b', pb) != vb):
                        self.fail(e, 'the source was changed', s, kind)
                    self.absorb(s, 'b', e + ' source' + ('!' if kind == 'throw' else ''))
                else:
                    self.chk.count('obligations')
                    if kind == 'end':
                        self.fail(e, 'swap ends in %s' % (v,), s)
                        continue
                    pa, err = self.probe(s, 'a')
                    pb, err2 = self.probe(s, 'b')
                    if err or err2:
                        self.fail(e, err or err2, s, kind)
                        continue
                    if kind == 'ret' and (pa[0] != prb[0] or pb[0] != pra[0] or self.value(s, 'a', pa) != vb or
                                          self.value(s, 'b', pb) != va):
                        self.fail(e, 'swap does not exchange the two values (%s and %s)' % (a.trail, b.trail), s)
                    self.absorb(s, 'a', 'swap' + ('!' if kind == 'throw' else ''))
                    self.absorb(s, 'b', 'swap' + ('!' if kind == 'throw' else ''))

    def selfops(self, a):
        for e in ('assign_copy', 'swap'):
            if not self.has(e):
                continue
            st = State()
            p = place(self.eng, st, 'a', self.size, a)
            pra, err = self.probe(st, 'a')
            if err:
                return
            va = self.value(st, 'a', pra)
            for kind, v, s in self.call(st.copy(), e, p, p):
                self.chk.count('obligations')
                if kind == 'end':
                    self.fail('self-' + e, 'ends in %s (state after %s)' % (v, a.trail), s)
                    continue
                pa, err = self.probe(s, 'a')
                if err:
                    self.fail('self-' + e, err, s, kind)
                    continue
                if kind == 'ret' and (pa[0] != pra[0] or self.value(s, 'a', pa) != va):
                    self.fail('self-' + e, 'changes the value', s)
                self.absorb(s, 'a', 'self-' + e)
