"""polymorphic_allocator: which alternative, with which state, serves a request - on every path of every operation."""
import re
import build
import models
from closure import *
from dom import *
from engine import Engine, State

W = 64
INST = {'a': ('AP',), 'b': ('AQ', 'AS'), 'c': ('AP', 'AQ', 'AS'), 'o': ('AP',)}
TYPES = {'a': ('arch::E24', 'long'), 'b': ('arch::E24', 'long'), 'c': ('char', 'arch::E24'), 'o': ('arch::E24', 'long')}


def ofs(eng, st, I, args, fn):
    """boost::interprocess::offset_ptr stores its target relative to itself: ('o', 'offset', 64, target, self)"""
    a = [eng.norm(st, x) for x in args]
    if 'offset_ptr_to_offset_from_other' in fn.dem:
        v = a[2]
        if type(v) is tuple and v[:2] == ('o', 'offset') and v[4] == a[1]:
            return [('ret', ('o', 'offset', W, v[3], a[0]), st)]
        return [('ret', eng.gensym(st, W, 'badoffset', I), st)]
    if 'offset_ptr_to_offset' in fn.dem:
        return [('ret', ('o', 'offset', W, a[0], a[1]), st)]
    v = a[1]
    if type(v) is tuple and v[:2] == ('o', 'offset') and v[4] == a[0]:
        return [('ret', v[3], st)]
    return [('ret', eng.gensym(st, W, 'badoffset', I), st)]


class Poly:
    def __init__(self, chk, mod, p):
        self.chk, self.mod, self.p = chk, mod, p
        self.alts = INST[p]
        self.types = TYPES[p]
        self.name = 'offset_ptr_stl_allocator<AP>' if p == 'o' else 'polymorphic_allocator<%s>' % ','.join(self.alts)
        self.eng = e = Engine(mod)
        models.install(e)
        e.trace = True
        e.hooks['arch'] = self.up
        e.model(r'boost::interprocess::ipcdetail::offset_ptr_to_(offset|raw_pointer)', ofs)

    def up(self, eng, st, I, args, fn):
        d = fn.dem
        if '::socc(' in d:
            return [('ret', ('o', 'socc', W, eng.norm(st, args[0])), st)]
        m = re.match(r'arch::(\w+)<(.*)>::(allocate|deallocate)\(', d)
        if not m:
            return models.opaque(eng, st, I, args, fn)
        q = eng.ptr(st, args[0], I, 'upstream call')
        if q is None:
            return []
        ident = eng.norm(st, eng.load(st, q[0], q[1], 8))
        outs = []
        r = None
        if m.group(3) == 'allocate':
            s2 = st.copy()
            s2.ev += (('up-throw', m.group(1), m.group(2), ident, tuple(args[1:])),)
            outs.append(eng.raise_(s2, 'USER', I))
            r = ('p', ('x', 'block'), 0)
        st.ev += (('up-' + m.group(3), m.group(1), m.group(2), ident, tuple(args[1:])),)
        outs.append(('ret', r, st))
        return outs

    def fail(self, op, what):
        self.chk.violate('%s/%s' % (self.name, op), what)

    def has(self, e):
        return self.p + '_' + e in self.mod.fns

    def call(self, st, e, *args):
        self.chk.count('calls')
        return self.eng.call(st, self.p + '_' + e, list(args))

    def ptr(self, n):
        return ('p', ('x', n), 0)

    def shape(self, st, name):
        return tuple((o, n, v if type(v) is int else '?') for o, (n, v) in sorted(contents(self.eng, st, name).items()))

    def view(self, st, name, m, k, ident, what):
        """the object must behave as alternative k with state `ident`"""
        p = self.ptr(name)
        n = ('s', ('n',), W)
        for entry in ('holds_%d', 'holdst_%d', 'holds_m_%d'):
            for i in range(len(self.alts)):
                e = entry % i
                if not self.has(e) or m != e.startswith('holds_m'):
                    continue
                self.chk.count('obligations')
                got = {self.eng.decide(s, v) if kind == 'ret' else kind for kind, v, s in self.call(st.copy(), e, p)}
                if got != {i == k}:
                    return self.fail(what, '%s: holds_allocator<%s> is %s, expected %s' % (name, self.alts[i], sorted(map(str, got)), i == k))
        sfx = '_m' if m else ''
        sh = self.shape(st, name)
        s0 = st.copy()
        s0.objs[('x', 'block')] = ('x', None, 16, True, True, 0)
        s0.ev = ()
        outs = self.call(s0.copy(), 'allocate' + sfx, p, n)
        kinds = []
        for kind, v, s in outs:
            self.chk.count('obligations')
            ups = [e for e in s.ev if e[0].startswith('up-')]
            exp = ('up-allocate' if kind == 'ret' else 'up-throw', self.alts[k], self.types[m], ident, (n,))
            kinds.append(kind)
            if kind == 'end':
                self.fail(what, 'allocate of %s ends in %s' % (name, v))
            elif len(ups) != 1 or ups[0][0] != exp[0]:
                self.fail(what, 'allocate of %s makes the requests %s' % (name, [e[:2] for e in ups]))
            elif ups[0] != exp:
                self.fail(what, 'allocate(n) of %s is served by %s<%s> with state %s and n = %s, expected %s<%s> with state %s' % (
                    (name,) + ups[0][1:3] + (show(ups[0][3]), show(ups[0][4][0])) + exp[1:3] + (show(ident),)))
            elif kind == 'ret' and v != ('p', ('x', 'block'), 0):
                self.fail(what, 'allocate of %s does not return what the alternative returned' % name)
            elif kind == 'throw' and 'USER' not in str(v):
                self.fail(what, 'the exception of the alternative is replaced by %s' % (v,))
            elif self.shape(s, name) != sh:
                self.fail(what, 'allocate changes %s' % name)
        if sorted(kinds) != ['ret', 'throw'] and not any(True for x in kinds if x == 'end'):
            self.fail(what, 'allocate of %s has the outcomes %s' % (name, kinds))
        blk = ('p', ('x', 'block'), 0)
        for kind, v, s in self.call(s0.copy(), 'deallocate' + sfx, p, blk, n):
            self.chk.count('obligations')
            ups = [e for e in s.ev if e[0].startswith('up-')]
            if kind != 'ret' or ups != [('up-deallocate', self.alts[k], self.types[m], ident, (blk, n))]:
                self.fail(what, 'deallocate(p, n) of %s ends with %s and makes the requests %s' % (
                    name, kind, [(e[1], show(e[3])) + tuple(show(x) for x in e[4]) for e in ups]))
        if self.has('upstream') and not m:
            for e in ('upstream', 'upstream_m'):
                for kind, v, s in self.call(st.copy(), e, p):
                    if kind != 'ret' or v[1] != ('x', name) or self.eng.norm(s, self.eng.load(s, v[1], v[2], 8)) != ident:
                        self.fail(what, 'upstream_allocator() of %s is not its upstream allocator' % name)

    def step(self, st, e, args, what):
        ok = []
        for kind, v, s in self.call(st.copy(), e, *args):
            self.chk.count('obligations')
            if kind == 'ret':
                ok.append((v, s))
            else:
                self.fail(what, '%s ends with %s %s' % (e, kind, v))
        if not ok:
            self.fail(what, '%s never returns' % e)
        return ok

    def reach(self, st, objs, what):
        for o in objs:
            self.view(st, *o, what)
            if not o[1]:
                sh = (self.shape(st, o[0]), o[2])
                if sh not in self.reached:
                    self.reached[sh] = what
                    self.todo.append((st, o, what))

    def ids(self, x):
        return ('s', ('id', x), W)

    def make(self, st, name, e, k, what=None):
        place(self.eng, st, name, self.size)
        i = self.ids(name)
        j = self.ids(name + '2')
        args = [self.ptr(name)] + ([] if e == 'ctor_default' else [i, j] if 'ty2' in e else [i])
        ident = 7 if e == 'ctor_default' else sub(i, j, W) if 'ty2' in e else i
        full = e if e == 'ctor_default' else '%s_%d' % (e, k)
        r = self.step(st, full, args, full)
        return r[0][1], (name, 0, k, ident)

    def run(self):
        self.reached, self.todo = {}, []
        self.size = self.call(State(), 'sizeof')[0][1]
        st, A = self.make(State(), 'a', 'ctor_default', 0)
        self.reach(st, [A], 'ctor_default')
        for k in range(len(self.alts)):
            for e in ('ctor_ix', 'ctor_ty', 'ctor_ty2', 'ctor_cp', 'ctor_lv', 'ctor_mv'):
                if self.has('%s_%d' % (e, k)):
                    st, A = self.make(State(), 'a', e, k)
                    self.reach(st, [A], '%s_%d' % (e, k))
        n = 0
        while self.todo:
            n += 1
            if n > 40:
                self.fail('closure', 'more than 40 representations are reachable')
                break
            st, o, t = self.todo.pop(0)
            self.unary(st, o, t)
            self.binary(st, o, t)
        self.chk.count('object_states', len(self.reached))
        self.chk.engine(self.eng)
        for key, v in self.eng.viol.items():
            self.chk.violate('%s/%s@%s' % (self.name, v['kind'], v['fn'].split('(')[0][-60:]), v['msg'], loc=v['loc'], path=v['path'])

    def unary(self, st, A, trail):
        a, _, k, ident = A
        t = ' (object after %s)' % trail
        new = 'x%d' % len(st.objs)
        for e, m in (('copy', 0), ('copy_nc', 0), ('move', 0), ('conv', 1), ('rebind', 0), ('socc', 0)):
            if not self.has(e):
                continue
            idn = ('o', 'socc', W, ident) if e == 'socc' else ident
            s = st.copy()
            place(self.eng, s, new, self.size)
            for v, s2 in self.step(s, e, [self.ptr(new), self.ptr(a)], e + t):
                self.reach(s2, [A, (new, m, k, idn)], e + t if trail.count('(') < 3 else e)
                if m:
                    n2 = new + 'b'
                    place(self.eng, s2, n2, self.size)
                    for v, s4 in self.step(s2, 'convback', [self.ptr(n2), self.ptr(new)], e + ' and back' + t):
                        self.reach(s4, [(new, m, k, idn), (n2, 0, k, idn)], e + ' and back')
        for e in ('assign_copy', 'assign_move', 'swap'):
            for v, s2 in self.step(st, e, [self.ptr(a), self.ptr(a)], 'self ' + e + t):
                self.reach(s2, [A], 'self ' + e)
        for kind, v, s in self.call(st.copy(), 'dtor', self.ptr(a)):
            if kind != 'ret':
                self.fail('dtor', 'ends with %s' % kind)

    def binary(self, st, A, trail):
        t = ' (object after %s)' % trail
        for j in range(len(self.alts)):
            s, B = self.make(st.copy(), 'other', 'ctor_ix', j)
            for e in ('assign_copy', 'assign_move', 'swap'):
                for x, y in ((A, B), (B, A)):
                    for v, s2 in self.step(s, e, [self.ptr(x[0]), self.ptr(y[0])], e + t):
                        if e == 'swap':
                            self.reach(s2, [(x[0], 0) + y[2:], (y[0], 0) + x[2:]], e)
                        else:
                            self.reach(s2, [(x[0], 0) + y[2:], y], e)
            want = cmpv('eq', A[3], B[3], W) if A[2] == B[2] else False
            for truth in (True, False):
                if want is False:
                    sts = [s.copy()] if not truth else []
                else:
                    sts = self.eng.assume(s.copy(), want, truth)
                for s2 in sts:
                    for e, flip in (('eq', False), ('ne', True)):
                        for x, y in ((A, B), (B, A)):
                            for r, s3 in self.step(s2, e, [self.ptr(x[0]), self.ptr(y[0])], e):
                                self.chk.count('obligations')
                                if self.eng.decide(s3, r) is not (truth != flip):
                                    self.fail(e, '%s of %s and %s with %s state is %s' % (
                                        e, self.alts[x[2]], self.alts[y[2]], 'equal' if truth else 'different', show(r)))
        for e, want in (('eq', True), ('ne', False)):
            for r, s3 in self.step(st, e, [self.ptr(A[0]), self.ptr(A[0])], e):
                if self.eng.decide(s3, r) is not want:
                    self.fail(e, '%s of an allocator with itself is %s' % (e, show(r)))


TRAITS = '''#include <dice/template-library/polymorphic_allocator.hpp>
namespace dtl = dice::template_library;
template<int N> struct base { };
template<typename T, int N> struct al {
	using value_type = T;
	using propagate_on_container_copy_assignment = std::bool_constant<(N & 1) != 0>;
	using propagate_on_container_move_assignment = std::bool_constant<(N & 2) != 0>;
	using propagate_on_container_swap = std::bool_constant<(N & 4) != 0>;
	using is_always_equal = std::bool_constant<(N & 8) != 0>;
	al() = default;
	template<typename U> al(al<U, N> const &) noexcept {}
	T *allocate(std::size_t); void deallocate(T *, std::size_t);
	bool operator==(al const &) const = default;
};
%s
template<typename A, int N, bool AE> constexpr bool ok = A::propagate_on_container_copy_assignment::value == ((N & 1) != 0) &&
	A::propagate_on_container_move_assignment::value == ((N & 2) != 0) && A::propagate_on_container_swap::value == ((N & 4) != 0) &&
	A::is_always_equal::value == AE;
%s
'''


def traits(chk):
    lines = []
    for i in range(16):
        lines.append('static_assert(ok<dtl::polymorphic_allocator<int, A%d>, %d, %s>, "one %d");' % (i, i & 7, str(bool(i & 8)).lower(), i))
        for j in range(16):
            if i != j:
                lines.append('static_assert(ok<dtl::polymorphic_allocator<int, A%d, A%d>, %d, false>, "two %d %d");' % (i, j, i & j & 7, i, j))
    for i, j, k in ((7, 15, 5), (3, 7, 15), (0, 7, 15), (14, 13, 11), (15, 7, 6), (6, 15, 7)):
        lines.append('static_assert(ok<dtl::polymorphic_allocator<int, A%d, A%d, A%d>, %d, false>, "three %d %d %d");' % (i, j, k, i & j & k & 7, i, j, k))
    al = '\n'.join('template<typename T> using A%d_ = al<T, %d>; template<typename T> struct A%d : al<T, %d> { A%d() = default; template<typename U> A%d(A%d<U> const &) {} };' % (
        i, i, i, i, i, i, i) for i in range(16))
    ok, log = build.syntax(TRAITS % (al, '\n'.join(lines)))
    chk.count('trait_obligations', len(lines) * 4)
    if not ok:
        bad = re.findall(r'static assertion failed: ([^\n]*)', log)
        if not bad:
            raise RuntimeError(log[:2000])
        chk.violate('traits', 'a propagation trait or is_always_equal is wrong for the alternatives with trait bits %s' % ', '.join(bad[:4]))


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR: which alternative serves a request, over all reachable object states; type-level witnesses for the traits'
    chk.headers = ['polymorphic_allocator.hpp']
    chk.assumptions.append('the alternatives keep their state when copied, moved or converted')
    mod = build.compile_bc('polyalloc.cpp')
    for p in INST:
        Poly(chk, mod, p).run()
    traits(chk)
    chk.require('object_states', chk.counts.get('object_states', 0), 7)
    return ''
