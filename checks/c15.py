"""flex_array: sizes, storage bounds, contents. The statically sized and limited modes are covered for every size, the vector
backed ones for sizes up to 4."""
import greedy
import os
import build
import models
from closure import *
from dom import *
from engine import Engine, State

W = 64
MODES = {'F4': (4, 4), 'F2': (2, 2), 'F0': (0, 0), 'L4': (None, 4), 'V': (None, None), 'B': (None, None)}
CONV = [('L4', 'F4'), ('L4', 'F2'), ('L4', 'F0'), ('V', 'F4'), ('V', 'F2'), ('B', 'F4'), ('B', 'F2'), ('F4', 'L4'), ('F4', 'V'),
        ('F4', 'B'), ('F2', 'L4'), ('F2', 'B'), ('F0', 'L4')]


def memcmp(eng, st, I, args, fn):
    n = eng.norm(st, args[2])
    a, b = eng.ptr(st, args[0], I, 'memcmp') if n != 0 else 0, eng.ptr(st, args[1], I, 'memcmp') if n != 0 else 0
    if n == 0:
        return [('ret', 0, st)]
    if type(n) is not int or n % 8 or a is None or b is None:
        raise RuntimeError('memcmp of %s bytes' % show(n))
    outs = []
    for i in range(0, n, 8):
        x = eng.load(st, a[0], add(a[1], i, W), 8, I)
        y = eng.load(st, b[0], add(b[1], i, W), 8, I)
        for s in eng.assume(st.copy(), cmpv('eq', x, y, W), False):
            r = eng.gensym(s, 32, 'memcmp', I)
            for s2 in eng.assume(s, cmpv('eq', r, 0, 32), False):
                outs.append(('ret', r, s2))
        nxt = eng.assume(st, cmpv('eq', x, y, W), True)
        if not nxt:
            return outs
        st = nxt[0]
    outs.append(('ret', 0, st))
    return outs


class Flex:
    def __init__(self, chk, mod, elem):
        self.chk, self.mod, self.elem = chk, mod, elem
        self.es = 8 if elem == 'long' else 24
        self.eng = e = Engine(mod)
        models.install(e)
        e.trace = False
        e.oom = False
        e.model(r'^(memcmp|bcmp)$', memcmp)

    def fail(self, P, op, what):
        self.chk.violate('flex_array<%s,%s>/%s' % (self.elem, P, op), what)

    def call(self, st, P, e, *args):
        self.chk.count('calls')
        return self.eng.call(st, P + '_' + e, list(args))

    def ptr(self, n, off=0):
        return ('p', ('x', n), off)

    def val(self, name, i):
        return ('s', ('el', name, i), W) if self.elem == 'long' else ('k', 'val', name, 'A', i)

    def source(self, st, name, n):
        """an array with n elements outside the object; a symbolic n leaves its size open"""
        o = ('x', name)
        st.objs[o] = ('x', n * self.es if type(n) is int else None, 16, True, True, 0)
        st.mem[o] = {}
        st._own.add(o)
        for i in range(n if type(n) is int else 6):
            st.mem[o][i * self.es] = (self.es, self.val(name, i))
            if self.elem != 'long':
                st.live[(o, i * self.es)] = 'A'
        return ('p', o, 0)

    def one(self, st, P, e, *args):
        """value of a function that must return on its only path"""
        outs = self.call(st.copy(), P, e, *args)
        if len(outs) != 1 or outs[0][0] != 'ret':
            self.fail(P, e, 'outcomes %s' % [(k, show(v) if k == 'ret' and v is not None else v) for k, v, s in outs][:3])
            return None
        return self.eng.norm(outs[0][2], outs[0][1])

    def elems(self, st, P, name, n):
        d = self.one(st, P, 'cdata', self.ptr(name))
        if type(d) is not tuple or d[0] != 'p':
            return [] if n == 0 else None
        return [self.eng.norm(st, self.eng.load(st, d[1], add(d[2], i * self.es, W), self.es)) for i in range(n)]

    def verify(self, st, P, name, want, op, full=False):
        """size, emptiness and contents of the object; want: values (None = unspecified)"""
        n = len(want)
        self.chk.count('obligations', 3)
        got = self.one(st, P, 'size', self.ptr(name))
        if got != n:
            return self.fail(P, op, 'size() is %s afterwards, expected %d' % (show(got) if got is not None else None, n))
        if self.one(st, P, 'empty', self.ptr(name)) != (1 if n == 0 else 0):
            return self.fail(P, op, 'empty() is wrong for %d elements' % n)
        vals = self.elems(st, P, name, n)
        if vals is None or any(w is not None and v != w for v, w in zip(vals, want)):
            return self.fail(P, op, 'the elements are [%s] afterwards, expected [%s]' % (
                ', '.join(map(show, vals or [])), ', '.join(show(w) if w is not None else '?' for w in want)))
        # nothing outside the storage is alive, and the storage holds as many elements as constructed
        if full:
            self.observers(st, P, name, n)

    def observers(self, st, P, name, n):
        p = self.ptr(name)
        d = self.one(st, P, 'data', p)
        last = add(d, n * self.es, W) if type(d) is int else (d[0], d[1], add(d[2], n * self.es, W))
        exp = dict(cdata=d, begin=d, cbegin1=d, cbegin=d, rend=d, rend1=d, crend=d, end=last, cend1=last, cend=last, rbegin=last,
                   rbegin1=last, crbegin=last)
        for e, w in exp.items():
            self.chk.count('obligations')
            if self.one(st, P, e, p) != w:
                self.fail(P, e, 'is not %s of %d elements' % ('the first element' if w == d else 'past the last element', n))
        for e in ('span', 'cspan'):
            s0 = st.copy()
            place(self.eng, s0, 'n', 8)
            for kind, v, s in self.call(s0, P, e, p, self.ptr('n')):
                self.chk.count('obligations')
                if kind != 'ret' or self.eng.norm(s, v) != d or self.eng.norm(s, self.eng.load(s, ('x', 'n'), 0, 8)) != n:
                    self.fail(P, e, 'the span does not cover exactly the %d elements' % n)
        if n:
            i = ('s', ('i',), W)
            for e in ('at', 'cat'):
                s0 = st.copy()
                s0.iv[i] = (0, n - 1)
                for kind, v, s in self.call(s0, P, e, p, i):
                    self.chk.count('obligations')
                    want = ('p', d[1], add(d[2], mul(i, self.es, W), W))
                    if kind != 'ret' or self.eng.norm(s, v) != self.eng.norm(s, want):
                        self.fail(P, e, 'operator[](i) does not refer to element i')

    def alive(self, st, name):
        return sorted(o for (ob, o), c in st.live.items() if ob == ('x', name))

    def destroyed(self, st, P, name, op):
        for kind, v, s in self.call(st.copy(), P, 'dtor', self.ptr(name)):
            self.chk.count('obligations')
            if kind != 'ret':
                self.fail(P, op, 'the destructor ends with %s' % kind)
            elif self.alive(s, name) or any(o[0] == 'heap' and i[4] for o, i in s.objs.items() if o not in self.heap0(name, st)):
                self.fail(P, op, 'the destructor leaves elements or storage behind')

    def heap0(self, name, st):
        """heap storage of the other objects"""
        out = set()
        for o in st.objs:
            if o[0] == 'x' and o != ('x', name):
                for k, (n, v) in st.cells(o).items():
                    if type(v) is tuple and v[0] == 'p' and v[1][0] == 'heap':
                        out.add(v[1])
        return out

    def build(self, st, P, name, n, first=None):
        """an object of n elements named after it, constructed from a list and then shrunk if first > n"""
        st = st.copy()
        m = n if first is None else first
        src = self.source(st, name + 's', m)
        place(self.eng, st, name, self.sizes[P])
        outs = [(k, v, s) for k, v, s in self.call(st, P, 'il', self.ptr(name), src, m)]
        if len(outs) != 1 or outs[0][0] != 'ret':
            return None
        s = outs[0][2]
        if m != n:
            outs = self.call(s, P, 'resize', self.ptr(name), n)
            if len(outs) != 1 or outs[0][0] != 'ret':
                return None
            s = outs[0][2]
        return s, [self.val(name + 's', i) if i < m else None for i in range(n)]

    def allowed(self, P):
        ext, mx = MODES[P]
        return [ext] if ext is not None else list(range((mx if mx is not None else 4) + 1))

    def states(self, P):
        out = [(n, None) for n in self.allowed(P)]
        if MODES[P][0] is None:
            out += [(1, 3), (0, 4), (3, 4)]
        return out

    def construct(self, P):
        ext, mx = MODES[P]
        st = State()
        place(self.eng, st, 'a', self.sizes[P])
        for kind, v, s in self.call(st, P, 'default', self.ptr('a')):
            if kind != 'ret':
                self.fail(P, 'default', 'ends with %s' % kind)
            else:
                self.verify(s, P, 'a', [None] * (ext or 0), 'default')
                self.destroyed(s, P, 'a', 'default')
        if self.one(State(), P, 'max_size') != (mx if mx is not None else mask(W)):
            self.fail(P, 'max_size', 'is not the maximum extent')
        for e in ('il', 'ra', 'in'):
            good = self.allowed(P) if e == 'il' or mx is None else list(range(mx + 1))
            for n in good:
                st = State()
                src = self.source(st, 'src', n)
                place(self.eng, st, 'a', self.sizes[P])
                ok = 0
                for kind, v, s in self.call(st, P, e, self.ptr('a'), src, n):
                    self.chk.count('obligations')
                    if kind != 'ret':
                        self.fail(P, e, 'construction from %d elements ends with %s %s' % (n, kind, v))
                        continue
                    ok += 1
                    self.verify(s, P, 'a', [self.val('src', i) for i in range(n)] + [None] * ((ext or 0) - n), e, True)
                    self.destroyed(s, P, 'a', e)
                if not ok:
                    self.fail(P, e, 'construction from %d elements never returns' % n)
            if mx is None:
                continue
            # everything else must be refused
            bad = [(mx + 1, 1 << 58)]
            if e == 'il' and ext:
                bad += [(k, k) for k in range(ext)]
            for lo, hi in bad:
                st = State()
                n = lo
                if lo != hi:
                    n = ('s', ('n',), W)
                    st.iv[n] = (lo, hi)
                src = self.source(st, 'src', n)
                place(self.eng, st, 'a', self.sizes[P])
                for kind, v, s in self.call(st, P, e, self.ptr('a'), src, n):
                    self.chk.count('obligations')
                    if kind != 'throw' or 'length_error' not in str(v):
                        self.fail(P, e, 'construction from %s elements is not refused with length_error (%s)' % (
                            'too many' if lo > mx else 'too few', kind if kind == 'ret' else v))
                    elif self.alive(s, 'a'):
                        self.fail(P, e, 'a refused construction leaves live elements behind')
                self.chk.count('refusals')

    def resize(self, P):
        ext, mx = MODES[P]
        for n in self.allowed(P):
            b = self.build(State(), P, 'a', n)
            if not b:
                continue
            st, vals = b
            for m in self.allowed(P):
                for kind, v, s in self.call(st.copy(), P, 'resize', self.ptr('a'), m):
                    self.chk.count('obligations')
                    if kind != 'ret':
                        self.fail(P, 'resize', 'resize(%d) ends with %s' % (m, kind))
                    else:
                        self.verify(s, P, 'a', (vals + [None] * 8)[:m], 'resize', True)
                        self.destroyed(s, P, 'a', 'resize')
            if mx is not None:
                s0 = st.copy()
                k = ('s', ('n',), W)
                s0.iv[k] = (mx + 1, mask(W))
                for kind, v, s in self.call(s0, P, 'resize', self.ptr('a'), k):
                    self.chk.count('obligations')
                    if kind != 'throw' or 'invalid_argument' not in str(v) and 'length_error' not in str(v):
                        self.fail(P, 'resize', 'a size above the maximum is not refused (%s)' % kind)
                    else:
                        self.verify(s, P, 'a', vals, 'refused resize')
                self.chk.count('refusals')

    def pairs(self, P):
        sts = self.states(P)
        for n, f in sts:
            b = self.build(State(), P, 'a', n, f)
            if not b:
                self.fail(P, 'il', 'construction of %d elements fails' % n)
                continue
            st, va = b
            for e in ('copy', 'move'):
                s0 = st.copy()
                place(self.eng, s0, 'c', self.sizes[P])
                for kind, v, s in self.call(s0, P, e, self.ptr('c'), self.ptr('a')):
                    self.chk.count('obligations')
                    if kind != 'ret':
                        self.fail(P, e, 'ends with %s' % kind)
                        continue
                    self.verify(s, P, 'c', va, e)
                    if e == 'copy':
                        self.verify(s, P, 'a', va, 'source of ' + e)
                        self.distinct(s, P, 'a', 'c', e, n)
                    self.destroyed(s, P, 'c', e)
                    self.destroyed(s, P, 'a', 'source of ' + e)
            for e in ('assign_copy',):
                for kind, v, s in self.call(st.copy(), P, e, self.ptr('a'), self.ptr('a')):
                    if kind != 'ret':
                        self.fail(P, 'self ' + e, 'ends with %s' % kind)
                    else:
                        self.verify(s, P, 'a', va, 'self ' + e)
            for m, g in sts:
                if f is not None and g is not None:
                    continue
                b = self.build(st, P, 'b', m, g)
                if not b:
                    continue
                s0, vb = b
                for e in ('assign_copy', 'assign_move', 'swap'):
                    for kind, v, s in self.call(s0.copy(), P, e, self.ptr('a'), self.ptr('b')):
                        self.chk.count('obligations')
                        if kind != 'ret':
                            self.fail(P, e, 'ends with %s' % kind)
                            continue
                        self.verify(s, P, 'a', vb, e)
                        if e != 'assign_move':
                            self.verify(s, P, 'b', va if e == 'swap' else vb, 'other operand of ' + e)
                            self.distinct(s, P, 'a', 'b', e, m)
                        self.destroyed(s, P, 'a', e)
                        self.destroyed(s, P, 'b', 'other operand of ' + e)
                if self.elem == 'long':
                    self.compare(P, s0, va, vb)

    def distinct(self, s, P, a, b, e, n):
        x, y = self.one(s, P, 'cdata', self.ptr(a)), self.one(s, P, 'cdata', self.ptr(b))
        if n and type(x) is tuple and type(y) is tuple and x[1] == y[1]:
            self.fail(P, e, 'both objects share their storage')

    def compare(self, P, st, va, vb):
        self.eng.pinned = va + vb
        try:
            self.compare1(P, st, va, vb)
        finally:
            self.eng.pinned = []

    def compare1(self, P, st, va, vb):
        for e, rel in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
            outs = self.call(st.copy(), P, e, self.ptr('a'), self.ptr('b'))
            if not outs:
                self.fail(P, e, 'never returns')
            # refine every path until the reference knows the answer, then compare
            for kind, r, s in outs:
                self.chk.count('obligations')
                if kind != 'ret':
                    self.fail(P, e, 'ends with %s' % kind)
                    continue
                for s2, c in self.reference(s, va, vb):
                    want = {'==': c == 0, '!=': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[rel]
                    self.chk.count('comparison_cases')
                    if self.eng.decide(s2, r) is not want:
                        self.fail(P, e, 'arrays of %d and %d elements whose lexicographical order is %s compare %s as %s' % (
                            len(va), len(vb), c, rel, show(self.eng.norm(s2, r))))

    def reference(self, s, va, vb, i=0):
        if i == min(len(va), len(vb)):
            return [(s, (len(va) > len(vb)) - (len(va) < len(vb)))]
        out = []
        for t in self.eng.assume(s.copy(), cmpv('eq', va[i], vb[i], W), True):
            out += self.reference(t, va, vb, i + 1)
        for t in self.eng.assume(s.copy(), cmpv('slt', va[i], vb[i], W), True):
            out.append((t, -1))
        for t in self.eng.assume(s.copy(), cmpv('slt', vb[i], va[i], W), True):
            out.append((t, 1))
        return out

    def conversions(self):
        for P, Q in CONV:
            for n in self.allowed(Q):
                b = self.build(State(), Q, 'a', n)
                if not b:
                    continue
                st, va = b
                place(self.eng, st, 'c', self.sizes[P])
                ext = MODES[P][0]
                fits = ext is None or ext == n
                for kind, v, s in self.call(st, P, 'from_' + Q, self.ptr('c'), self.ptr('a')):
                    self.chk.count('obligations')
                    if fits:
                        if kind != 'ret':
                            self.fail(P, 'from ' + Q, 'conversion of %d elements ends with %s' % (n, kind))
                            continue
                        self.verify(s, P, 'c', va, 'from ' + Q)
                        self.distinct(s, P, 'a', 'c', 'from ' + Q, n) if n else 0
                        self.destroyed(s, P, 'c', 'from ' + Q)
                    elif kind != 'throw' or 'length_error' not in str(v):
                        self.fail(P, 'from ' + Q, 'conversion of %d elements to a fixed extent of %d is not refused with length_error' % (n, ext))
                    else:
                        self.chk.count('refusals')
                        if self.alive(s, 'c'):
                            self.fail(P, 'from ' + Q, 'a refused conversion leaves live elements behind')
                    self.verify(s, Q, 'a', va, 'source of conversion to ' + P)

    def run(self):
        self.sizes = {P: self.one(State(), P, 'sizeof') for P in MODES}
        for P in MODES:
            self.construct(P)
            if MODES[P][0] is None:
                self.resize(P)
            self.pairs(P)
        self.conversions()
        self.chk.engine(self.eng)
        for key, v in self.eng.viol.items():
            self.chk.violate('flex_array<%s>/%s@%s' % (self.elem, v['kind'], v['fn'].split('(')[0][-60:]), v['msg'], loc=v['loc'], path=v['path'])


REJECT = [
    ('converting a larger fixed extent to a smaller limit', 'dtl::flex_array<int, 5> a; dtl::flex_array<int, dtl::dynamic_extent, 4> b{a};', False),
    ('converting a fixed extent to its limit', 'dtl::flex_array<int, 4> a; dtl::flex_array<int, dtl::dynamic_extent, 4> b{a};', True),
    ('implicit conversion of a dynamic to a fixed extent', 'dtl::flex_array<int, dtl::dynamic_extent, 4> a; dtl::flex_array<int, 4> b = a;', False),
    ('explicit conversion of a dynamic to a fixed extent', 'dtl::flex_array<int, dtl::dynamic_extent, 4> a; dtl::flex_array<int, 4> b{a};', True),
    ('conversion between different fixed extents', 'dtl::flex_array<int, 3> a; dtl::flex_array<int, 4> b(a);', False),
    ('resize of a fixed extent', 'dtl::flex_array<int, 3> a; a.resize(2);', False),
    ('fixed span of a dynamic array', 'dtl::flex_array<int, dtl::dynamic_extent, 4> a; std::span<int, 4> s = a;', False),
    ('fixed span of a fixed array', 'dtl::flex_array<int, 4> a; std::span<int, 4> s = a;', True),
    ('mutable span of a const array', 'dtl::flex_array<int, 4> const a{}; std::span<int, 4> s = a;', False),
]


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR: bounds, sizes and provenance of elements over all modes; compile-fail witnesses'
    chk.headers = ['flex_array.hpp']
    chk.assumptions.append('std::array, std::vector and the algorithms are analysed from the installed libstdc++; ankerl::svector is a stand-in')
    for elem in ('long', 'arch::A'):
        mod = build.compile_bc('flex.cpp', ('ELEM=' + elem,), extra=['-I' + os.path.join(build.VERIF, 'witness', 'stub')])
        Flex(chk, mod, elem).run()
    for what, code, good in REJECT:
        chk.count('compile_witnesses')
        ok, log = build.syntax('#include <dice/template-library/flex_array.hpp>\nnamespace dtl = dice::template_library;\nvoid f() { %s }\n' % code)
        if ok != good:
            chk.violate('flex_array/' + what, 'is %s by the compiler' % ('accepted' if ok else 'rejected'))
    chk.require('refusals', chk.counts.get('refusals', 0), 20)
    greedy.check(chk, 'flex_array.hpp', [], greedy.OWN_FLEX)
    return ''
