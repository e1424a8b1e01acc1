import build
import greedy
import models
import par
from closure import *
from dom import *
from engine import Engine, State

INST = [('n', 'NA', 'NB'), ('t', 'TA', 'TB'), ('m', 'MA', 'MB'), ('r', 'RA', 'RB'), ('u', 'UA', None), ('z', 'Z0', None)]
# derived classes that promise more than their base
INST += [('xa', 'XA', 'TB'), ('xb', 'TA', 'XA'), ('xc', 'XB', 'TB'), ('xd', 'XC', 'TB'), ('xe', 'XF', 'XE'), ('xf', 'XE', 'XF')]
CLS = {'NA': 'A', 'NB': 'A', 'TA': 'B', 'TB': 'D', 'MA': 'M', 'MB': 'N', 'RA': 'T', 'RB': 'S', 'UA': 'U', 'Z0': 'A', 'XA': 'A', 'XB': 'A', 'XC': 'A', 'XE': 'E', 'XF': 'A'}
TRIV = {'T': 8, 'S': 4}
GETS = ('get_m', 'get_c', 'deref_m', 'deref_c', 'arrow_m', 'arrow_c')


class IP:
    def __init__(self, chk, mod, p, ks):
        self.chk, self.mod, self.p = chk, mod, p
        self.ks = [k for k in ks if k]
        self.name = 'inplace_polymorphic<%s>' % ','.join(self.ks)
        self.eng = e = Engine(mod)
        models.install(e)
        e.hooks['arch'] = models.opaque
        e.trace = False
        self.states = {}
        self.order = []

    def has(self, e):
        return self.p + '_' + e in self.mod.fns

    def call(self, st, e, *args):
        return self.eng.call(st, self.p + '_' + e, list(args))

    def fail(self, op, what):
        self.chk.violate('%s/%s' % (self.name, op), what)

    def size(self, k):
        c = CLS[k]
        return TRIV.get(c) or models.SIZES[c]

    def field(self, k):
        r = self.foff.get(k)
        if r is None:
            st = State()
            p = place(self.eng, st, 'q', 64)
            r = self.foff[k] = self.eng.call(st, k + '_field', [p])[0][1][2]
        return r

    def probe(self, st, name, full=False):
        """-> ((class, offset) or (None, None), error): what the object says it holds must be what is alive in it"""
        p = ('p', ('x', name), 0)
        outs = self.call(st.copy(), 'valueless', p)
        vl = {self.eng.decide(s, v) if k == 'ret' else k for k, v, s in outs}
        if vl not in ({True}, {False}):
            return None, 'valueless_by_exception() is %s' % vl
        empty = vl == {True}
        lives = {k: c for k, c in st.live.items() if k[0] == ('x', name)}
        at = None
        for g in GETS if full else ('get_m',):
            outs = self.call(st.copy(), g, p)
            kinds = {(k, v if k == 'ret' else (v[1] if k == 'throw' else v)) for k, v, s in outs}
            if len(kinds) != 1:
                return None, '%s is not determined: %s' % (g, kinds)
            k, v = next(iter(kinds))
            if empty:
                if k != 'throw' or 'bad_variant_access' not in str(v):
                    return None, '%s on a valueless object does not throw bad_variant_access (%s %s)' % (g, k, v)
                continue
            if k != 'ret' or type(v) is int or v[0] != 'p' or v[1] != ('x', name) or type(v[2]) is not int:
                return None, '%s of an object with a value gives %s %s' % (g, k, v)
            if at is not None and at != v[2]:
                return None, 'accessors disagree'
            at = v[2]
        if empty:
            if lives:
                return None, 'reports itself valueless although a %s is alive in it' % sorted(lives.values())
            return (None, None), None
        vp = self.eng.norm(st, self.eng.load(st, ('x', name), at, 8))
        k = None
        if type(vp) is tuple and vp[0] == 'p' and vp[1][0] == 'g':
            for c in self.ks:
                if '4inst2' + c in vp[1][1]:
                    k = c
        if k is None:
            return None, 'the exposed object has no dynamic type of the list (vptr %r)' % (vp,)
        want = {}
        if CLS[k] not in TRIV:
            want[(('x', name), at + self.field(k))] = CLS[k]
        if lives != want:
            return None, 'exposes an object of type %s, but the live members are %s' % (k, sorted(lives.values()) or 'none')
        return (k, at), None

    def value(self, st, name, pr):
        k, at = pr
        if k is None:
            return None
        return self.eng.norm(st, self.eng.load(st, ('x', name), at + self.field(k), self.size(k)))

    def absorb(self, st, name, trail):
        os = read(self.eng, st, name)
        os.trail = trail
        k = os.key()
        if k not in self.states:
            self.states[k] = os
            self.order.append(os)

    def make(self, k):
        return 7 if CLS[k] in TRIV else ('k', 'make', CLS[k], 7)

    def run(self):
        self.foff = {}
        self.sz = self.call(State(), 'sizeof')[0][1]
        for e, k in (('ctor_default', self.ks[0]), ('ctor_0', self.ks[0]), ('ctor_1', self.ks[-1])):
            st = State()
            p = place(self.eng, st, 'a', self.sz)
            n = 0
            for kind, v, s in self.call(st, e, p):
                self.chk.count('obligations')
                if kind == 'end':
                    self.fail(e, 'ends in %s' % (v,))
                elif kind == 'throw':
                    if any(o == ('x', 'a') for o, _ in s.live):
                        self.fail(e, 'constructor throws but leaves a live member behind')
                else:
                    n += 1
                    pr, err = self.probe(s, 'a')
                    if err or pr[0] != k:
                        self.fail(e, err or 'holds %s, expected %s' % (pr[0], k))
                        continue
                    val = self.value(s, 'a', pr)
                    if e != 'ctor_default' and val != self.make(k):
                        self.fail(e, 'holds %s instead of a value made from the argument' % show(val))
                    self.absorb(s, 'a', e)
            if not n:
                self.fail(e, 'never returns')
        done = 0
        while True:
            n = len(self.order)
            if n > 60:
                raise RuntimeError('too many object states')
            for i, a in enumerate(self.order[:n]):
                if i >= done:
                    self.unary(a)
                for j, b in enumerate(self.order[:n]):
                    if i >= done or j >= done:
                        self.binary(a, b)
            done = n
            if len(self.order) == n:
                break
        self.chk.count('object_states', len(self.order))
        self.chk.engine(self.eng)
        for key, v in self.eng.viol.items():
            self.chk.violate('%s/%s@%s' % (self.name, v['kind'], v['fn'].split('(')[0][-60:]), v['msg'], loc=v['loc'], path=v['path'])

    def unary(self, a):
        st = State()
        p = place(self.eng, st, 'a', self.sz, a)
        pr, err = self.probe(st, 'a', full=True)
        self.chk.count('obligations', 7)
        if err:
            self.fail(a.trail, err)
            a.bad = True
            return
        for kind, v, s in self.call(st.copy(), 'dtor', p):
            self.chk.count('obligations')
            if kind != 'ret':
                self.fail('dtor', 'destructor does not return normally: %s' % kind)
            elif any(o == ('x', 'a') for o, _ in s.live):
                self.fail('dtor', 'destructor leaves a live member behind (state after %s)' % a.trail)
        for e, k in (('emplace_0', self.ks[0]), ('emplace_1', self.ks[-1])):
            for kind, v, s in self.call(st.copy(), e, p):
                self.post(e, a, None, kind, v, s, k, self.make(k))
        if self.has('assign_copy'):
            va = self.value(st, 'a', pr)
            for kind, v, s in self.call(st.copy(), 'assign_copy', p, p):
                self.chk.count('obligations')
                pa, err = self.probe(s, 'a') if kind != 'end' else (None, 'ends in %s' % (v,))
                if err or kind == 'throw' or pa[0] != pr[0] or self.value(s, 'a', pa) != va:
                    self.fail('self-assignment', err or 'changes the value')

    def post(self, e, a, b, kind, v, s, k, exp):
        self.chk.count('obligations')
        where = '(target after %s%s)' % (a.trail, ', source after ' + b.trail if b else '')
        if kind == 'end':
            self.fail(e, 'ends in %s %s' % (v, where))
            return
        pr, err = self.probe(s, 'a')
        if err:
            self.fail(e, '%s %s%s' % (err, where, ', exit by exception' if kind == 'throw' else ''))
            return
        if kind == 'ret':
            if pr[0] != k:
                self.fail(e, 'holds %s, expected %s %s' % (pr[0] or 'nothing', k or 'nothing', where))
            elif k and self.value(s, 'a', pr) != exp:
                self.fail(e, 'holds %s, expected %s %s' % (show(self.value(s, 'a', pr)), show(exp), where))
        self.absorb(s, 'a', e + ('!' if kind == 'throw' else ''))

    def binary(self, a, b):
        if a.bad or b.bad:
            return
        for e in ('ctor_copy', 'ctor_move', 'assign_copy', 'assign_move'):
            if not self.has(e):
                continue
            st = State()
            q = place(self.eng, st, 'b', self.sz, b)
            ctor = e.startswith('ctor')
            p = place(self.eng, st, 'a', self.sz, None if ctor else a)
            prb, err = self.probe(st, 'b')
            if err:
                return
            vb = self.value(st, 'b', prb)
            for kind, v, s in self.call(st.copy(), e, p, q):
                if kind == 'end':
                    self.fail(e, 'ends in %s (target after %s, source after %s)' % (v, a.trail, b.trail))
                    continue
                pb, err = self.probe(s, 'b')
                if err or pb[0] != prb[0] or (e.endswith('copy') and self.value(s, 'b', pb) != vb):
                    self.fail(e, err and 'source afterwards: ' + err or 'the source was changed')
                    continue
                self.absorb(s, 'b', e + ' source' + ('!' if kind == 'throw' else ''))
                if ctor and kind == 'throw':
                    self.chk.count('obligations')
                    if any(o == ('x', 'a') for o, _ in s.live):
                        self.fail(e, 'constructor throws but leaves a live member behind')
                    continue
                self.post(e, a, b, kind, v, s, prb[0], vb)


def secondary(chk, mod):
    """get() of a stored type whose Base is not its first base class"""
    e = Engine(mod)
    models.install(e)
    e.trace = False
    st = State()
    p = place(e, st, 'a', e.call(State(), 's_sizeof', [])[0][1])
    want = e.call(st.copy(), 's_base', [p])[0][1]
    for k, v, s in e.call(st, 's_ctor', [p]):
        chk.count('obligations')
        if k != 'ret' or [(k2, v2) for k2, v2, s2 in e.call(s, 's_get', [p])] != [('ret', want)]:
            chk.violate('inplace_polymorphic/secondary-base/get', 'get() does not refer to the Base subobject of the stored object '
                        'when Base is not its first base class')


def job(chk, i):
    IP(chk, build.compile_bc('inplace.cpp'), i[0], i[1:]).run()


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR with a lifetime typestate; class level fixpoint over object states'
    chk.headers = ['inplace_polymorphic.hpp']
    chk.assumptions += ['copy_to/move_to of the stored types construct a copy of themselves at the destination, as documented',
                        'apart from one explicit obligation, Base is the first base class of the stored types']
    mod = build.compile_bc('inplace.cpp')
    par.run(chk, job, [(i,) for i in INST])
    secondary(chk, mod)
    chk.require('object_states', chk.counts.get('object_states', 0), 12)
    greedy.check(chk, 'inplace_polymorphic.hpp', [], greedy.OWN_POLY)
    return ''
