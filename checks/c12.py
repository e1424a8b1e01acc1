"""limit_allocator: conservation of the byte budget. The budget is the cell of the shared control block that holds the
limit after construction; in the thread-safe mode every access to it is interpreted thread-modularly."""
import build
import models
from closure import *
from dom import *
from engine import Engine, State

W = 64
INST = {'s0': (True, 24, 8), 's1': (True, 1, 24), 'u0': (False, 24, 8), 'u1': (False, 1, 24)}


class Limit:
    def __init__(self, chk, mod, p):
        self.chk, self.mod, self.p = chk, mod, p
        self.sync, self.tl, self.tm = INST[p]
        self.name = 'limit_allocator<%s,%s>' % (p, 'sync' if self.sync else 'unsync')
        self.eng = e = Engine(mod)
        models.install(e)
        e.trace = True
        e.hooks['arch'] = self.up
        e.hooks['atomic'] = self.atomic
        e.hooks['cmpxchg'] = self.cmpxchg
        e.hooks['load'] = self.load
        e.hooks['store'] = self.store
        self.cells = []  # budget cells, one per family of allocators
        self.quiet = 0
        self.depth = 0

    def fail(self, op, what):
        self.chk.violate('%s/%s' % (self.name, op), what)

    # ------------------------------------------------------------ the budget cell
    def net(self, st, c):
        if self.sync:
            return st.mon.get('net%d' % self.cells.index(c), 0)
        if not st.objs[c[0]][4]:
            return 0
        return self.eng.norm(st, sub(self.get(st, c), self.base(c), W))

    def base(self, c):
        return ('s', ('budget', self.cells.index(c)), W)

    def get(self, st, c):
        self.quiet += 1
        v = self.eng.load(st, c[0], c[1], 8)
        self.quiet -= 1
        return v

    def change(self, st, c, old, new, I):
        d = self.eng.norm(st, sub(new, old, W))
        k = 'net%d' % self.cells.index(c)
        st.mon[k] = add(st.mon.get(k, 0), d, W)
        # a decrease is a reservation and needs the budget; anything else is a release
        if type(d) is int:
            isdec = d > mask(W) >> 1
        else:
            isdec = '*' if d == sub(0, self.bytes, W) else False
        if isdec:
            n = neg(d, W)
            if self.eng.decide(st, cmpv('ult', old, n, W)) is not False:
                self.eng.violation('over-budget', 'the budget is reduced by %s without having checked in the same atomic step that as '
                                   'much is left' % show(n), st, I)
        elif d != self.bytes and d != 0:
            self.eng.violation('budget', 'the budget changes by %s' % show(d), st, I)

    def fresh(self, eng, st, c, I):
        v = eng.gensym(st, W, 'budget', I)
        st.mon['seen'] = v
        return v

    def atomic(self, eng, st, kind, p, ty, val, order, I):
        c = p if p in self.cells else None
        if c is None:
            return None
        if not self.sync:
            return None
        if kind == 'load':
            return self.fresh(eng, st, c, I)
        if kind == 'store':
            eng.violation('lost-update', 'the shared budget is overwritten by a plain store', st, I)
            return 0
        old = self.fresh(eng, st, c, I)
        op = kind[4:]
        new = val if op == 'xchg' else eng.arith(st, op, old, val, W, I)
        self.change(st, c, old, new, I)
        return old

    def cmpxchg(self, eng, st, p, ty, exp, new, I):
        if p not in self.cells or not self.sync:
            h = eng.hooks.pop('cmpxchg')
            self.quiet += 1
            try:
                return self.plain_cas(eng, st, p, ty, exp, new, I)
            finally:
                self.quiet -= 1
                eng.hooks['cmpxchg'] = h
        out = []
        s2 = st.copy()
        self.change(st, p, exp, new, I)
        st.mon['seen'] = exp
        out.append((('agg', (exp, 1)), st))
        out.append((('agg', (self.fresh(eng, s2, p, I), 0)), s2))
        return out

    def plain_cas(self, eng, st, p, ty, exp, new, I):
        w = ty.bits or 64
        old = eng.load(st, p[0], p[1], ty.store, I)
        out = []
        s2 = st.copy()
        for s in eng.assume(st, cmpv('eq', old, exp, w), True):
            eng.store(s, p[0], p[1], ty.store, new, I)
            out.append((('agg', (old, 1)), s))
        for s in eng.assume(s2, cmpv('eq', old, exp, w), False):
            out.append((('agg', (old, 0)), s))
        return out or None

    def load(self, eng, st, obj, off, size, I):
        if self.sync and not self.quiet and I is not None and (obj, off) in self.cells:
            eng.violation('race', 'the shared budget is read without atomicity', st, I)
        return None

    def store(self, eng, st, obj, off, size, val, I):
        if self.sync and not self.quiet and I is not None and (obj, off) in self.cells:
            eng.violation('race', 'the shared budget is written without atomicity', st, I)

    # ------------------------------------------------------------ upstream
    def up(self, eng, st, I, args, fn):
        d = fn.dem
        if '::socc(' in d:
            return [('ret', ('o', 'socc', W, eng.norm(st, args[0])), st)]
        what = 'alloc' if '::allocate(' in d else 'dealloc' if '::deallocate(' in d else None
        if not what:
            return models.opaque(eng, st, I, args, fn)
        t = d[len('arch::Up<'):d.index('>')]
        q = eng.ptr(st, args[0], I, 'upstream call')
        if q is None:
            return []
        ident = eng.norm(st, eng.load(st, q[0], q[1], 8))
        nets = tuple(eng.norm(st, self.net(st, c)) for c in self.cells)
        outs = []
        if what == 'alloc':
            s2 = st.copy()
            s2.ev += (('up-throw', t, ident, tuple(args[1:]), nets),)
            outs.append(eng.raise_(s2, 'USER', I))
            r = eng.gensym(st, W, 'block', I)
        else:
            r = None
        st.ev += (('up-' + what, t, ident, tuple(args[1:]), nets, r),)
        outs.append(('ret', r, st))
        return outs

    # ------------------------------------------------------------ construction
    def call(self, st, e, *args):
        self.chk.count('calls')
        return self.eng.call(st, self.p + '_' + e, list(args))

    def ptr(self, n):
        return ('p', ('x', n), 0)

    def new_family(self, st, name, e, idn=None):
        """constructs a limit_allocator; -> states with its budget havocked and the cell recorded"""
        limit = ('s', ('limit', name), W)
        st.iv[limit] = (1 << 20, (1 << 62))
        o = place(self.eng, st, name, self.size)
        args = [o, limit] + ([idn] if idn is not None else [])
        out = []
        before = set(st.objs)
        for kind, v, s in self.call(st, e, *args):
            self.chk.count('obligations')
            if kind != 'ret':
                if kind == 'end' or v and 'bad_alloc' not in str(v) and v != 'USER' and 'USER' not in str(v):
                    self.fail(e, 'constructor ends with %s %s' % (kind, v))
                if self.heap(s) - before:
                    self.fail(e, 'the control block leaks when the constructor throws')
                continue
            found = [(h, off) for h in s.objs if h[0] == 'heap' and h not in before for off, (n, x) in s.cells(h).items()
                     if self.eng.norm(s, x) == limit and n == 8]
            if len(found) != 1:
                raise RuntimeError('no single cell of the control block holds the limit: %s' % found)
            c = found[0]
            if c not in self.cells:
                self.cells.append(c)
            s.cells(c[0], True)[c[1]] = (8, self.base(c))
            out.append((s, c))
        if len(out) != 1:
            raise RuntimeError('constructor has %d normal outcomes' % len(out))
        return out[0]

    def heap(self, s):
        return {o for o, i in s.objs.items() if o[0] == 'heap' and i[4]}

    def shape(self, st, name):
        r = []
        for off, (n, v) in sorted(contents(self.eng, st, name).items()):
            if type(v) is tuple and v[0] == 'p':
                r.append((off, n, 'p', 'heap' if v[1][0] == 'heap' else v[1], v[2]))
            else:
                r.append((off, n, 'c' if v == 0 else 'v'))
        return tuple(r)

    # ------------------------------------------------------------ what an allocator does
    def view(self, st, name, m, c, ident, what):
        """everything allocate and deallocate of the object do must concern budget c and upstream `ident`"""
        n = ('s', ('n',), W)
        T = {0: self.tl, 1: self.tm}[m]
        self.bytes = mul(n, T, W)
        sfx = '_m' if m else ''
        p = self.ptr(name)
        bad = None
        lim = mask(W) // T
        if not m:
            q = self.call(st.copy(), 'upstream', p)
            got = [(k, v) for k, v, s in q]
            if len(q) != 1 or q[0][0] != 'ret':
                return self.fail(what, 'upstream_allocator() of %s: %s' % (name, got))
            v = q[0][1]
            if self.eng.norm(st, self.eng.load(st, v[1], v[2], 8)) != ident:
                self.fail(what, '%s has the wrong upstream allocator afterwards' % name)
                return
        okn = thrown = 0
        s0 = st.copy()
        s0.ev = ()
        oldev = len(s0.ev)
        freed = self.heap(s0)
        shape = self.shape(s0, name)
        for kind, v, s in self.call(s0, 'allocate' + sfx, p, n):
            self.chk.count('obligations')
            ups = [e for e in s.ev if e[0].startswith('up-')]
            nets = [self.eng.norm(s, self.net(s, d)) for d in self.cells]
            i = self.cells.index(c)
            others = [x for j, x in enumerate(nets) if j != i]
            if any(x != 0 for x in others):
                self.fail(what, 'allocate of %s uses the budget of an unrelated allocator' % name)
                return
            if kind == 'end':
                self.fail(what, 'allocate of %s ends in %s' % (name, v))
                return
            want = self.eng.norm(s, neg(self.bytes, W))
            for e in ups:
                if e[0] == 'up-dealloc':
                    continue
                if e[2] != ident:
                    self.fail(what, 'allocate of %s asks the wrong upstream allocator' % name)
                    return
                if self.eng.norm(s, e[3][0]) != self.eng.norm(s, n):
                    self.fail(what, 'allocate(n) asks upstream for %s objects' % show(e[3][0]))
                if e[4][i] != want:
                    self.fail(what, 'upstream is asked for memory when the budget has changed by %s instead of -n*sizeof(T)' % show(e[4][i]))
            if kind == 'ret':
                okn += 1
                if len(ups) != 1 or ups[0][0] != 'up-alloc' or v != ups[0][5]:
                    self.fail(what, 'allocate returns after the upstream calls %s' % [e[0] for e in ups])
                    continue
                if nets[i] != want:
                    self.fail(what, 'a successful allocate(n) changes the budget by %s instead of -n*sizeof(T)' % show(nets[i]))
                if self.eng.decide(s, cmpv('ult', lim, n, W)) is not False:
                    self.fail(what, 'allocate(n) succeeds although n*sizeof(T) may exceed the range of size_t')
                if not self.sync and self.eng.decide(s, cmpv('ult', self.base(c), self.bytes, W)) is not False:
                    self.fail(what, 'allocate(n) succeeds although the budget may be smaller than n*sizeof(T)')
                if self.shape(s, name) != shape or self.heap(s) != freed:
                    self.fail(what, 'allocate changes the allocator object')
            else:
                thrown += 1
                if nets[i] != 0:
                    self.fail(what, 'a failed allocate changes the budget by %s' % show(nets[i]))
                if ups:
                    if len(ups) != 1 or ups[0][0] != 'up-throw':
                        self.fail(what, 'allocate throws after the upstream calls %s' % [e[0] for e in ups])
                    elif 'USER' not in str(v):
                        self.fail(what, 'the exception of the upstream allocator is replaced by %s' % (v,))
                else:
                    if 'bad_alloc' not in str(v) and 'bad_array_new_length' not in str(v):
                        self.fail(what, 'allocate of %s throws %s' % (name, v))
                    seen = s.mon.get('seen') if self.sync else self.base(c)
                    over = self.eng.decide(s, cmpv('ult', lim, n, W)) is True
                    if not over and (seen is None or self.eng.decide(s, cmpv('ult', seen, self.bytes, W)) is not True):
                        self.fail(what, 'allocate gives up although the budget it last saw may suffice')
        if not okn or thrown < 2:
            self.fail(what, 'allocate of %s has %d successful and %d failing outcomes' % (name, okn, thrown))
        s0 = st.copy()
        s0.ev = ()
        s0.iv[n] = (0, lim)
        blk = ('s', ('blk',), W)
        for kind, v, s in self.call(s0, 'deallocate' + sfx, p, blk, n):
            self.chk.count('obligations')
            ups = [e for e in s.ev if e[0].startswith('up-')]
            nets = [self.eng.norm(s, self.net(s, d)) for d in self.cells]
            if kind != 'ret' or len(ups) != 1 or ups[0][0] != 'up-dealloc' or ups[0][2] != ident or ups[0][3] != (blk, n):
                self.fail(what, 'deallocate(p, n) of %s does not hand p and n to its upstream allocator exactly once' % name)
                continue
            if any(ups[0][4]):
                self.fail(what, 'deallocate returns bytes to the budget before upstream has released them')
            if [x for x in nets if x != 0] != [self.bytes] or nets[i] != self.bytes:
                self.fail(what, 'deallocate(p, n) changes the budgets by %s instead of returning n*sizeof(T)' % [show(x) for x in nets])

    def destroy(self, st, objs, what):
        """destroying all allocators releases every control block, at the last one and not earlier"""
        sts = [st.copy()]
        for j, (name, m, c) in enumerate(objs):
            nxt = []
            for s in sts:
                for kind, v, s2 in self.call(s, 'dtor_m' if m else 'dtor', self.ptr(name)):
                    self.chk.count('obligations')
                    if kind != 'ret':
                        self.fail(what, 'destructor ends with %s' % kind)
                        continue
                    rest = {d for _, _, d in objs[j + 1:]}
                    for d in {d for _, _, d in objs}:
                        alive = d[0] in self.heap(s2)
                        if alive != (d in rest):
                            self.fail(what, 'the shared budget %s' % ('leaks when its last allocator is destroyed' if alive else
                                                                     'is released while allocators still use it'))
                            return
                    nxt.append(s2)
            sts = nxt
            if not sts:
                self.fail(what, 'destructor never returns')
                return

    def full(self, st, objs, what):
        """objs: (name, 0|1 rebound, budget cell, upstream id)"""
        for o in objs:
            self.view(st, *o, what)
        self.destroy(st, [o[:3] for o in objs], what)
        self.destroy(st, [o[:3] for o in objs][::-1], what)

    def step(self, st, e, args, objs, what, noexc=False):
        """-> the single normal outcome"""
        outs = self.call(st.copy(), e, *args)
        ok = []
        for kind, v, s in outs:
            self.chk.count('obligations')
            if kind == 'ret':
                ok.append((v, s))
            else:
                self.fail(what, '%s ends with %s %s' % (e, kind, v))
        if not ok:
            self.fail(what, '%s never returns' % e)
        return ok

    # ------------------------------------------------------------ all operations
    def run(self):
        self.bytes = None
        self.size = self.call(State(), 'sizeof')[0][1]
        ids = {'a': ('s', ('id', 'a'), W), 'b': ('s', ('id', 'b'), W)}
        ctors = [('ctor', True), ('ctor_move', True), ('ctor_inplace', True)]
        if (self.p + '_ctor_limit') in self.mod.fns:
            ctors.append(('ctor_limit', False))
        shapes = {}
        for e, hasid in ctors:
            self.cells = []
            st, c = self.new_family(State(), 'a', e, ids['a'] if hasid else None)
            self.full(st, [('a', 0, c, ids['a'] if hasid else 7)], e)
            if hasid:
                shapes[self.shape(st, 'a')] = e
        # a pool of origins: every op is applied to objects in every reached representation
        self.cells = []
        st, ca = self.new_family(State(), 'a', 'ctor', ids['a'])
        A = ('a', 0, ca, ids['a'])
        self.reached = dict(shapes)
        self.todo = []
        self.ops1(st, A, 'a')
        n = 0
        while self.todo and n < 8:
            n += 1
            s, objs, t = self.todo.pop(0)
            for o in objs:
                if not o[1]:
                    self.ops1(s, o, t, [x for x in objs if x is not o])
        if self.todo:
            self.fail('closure', 'the operations reach more than %d representations' % n)
        self.cells = []
        st, ca = self.new_family(State(), 'a', 'ctor', ids['a'])
        st, cb = self.new_family(st, 'b', 'ctor', ids['b'])
        if ca == cb:
            raise RuntimeError('families share a control block')
        A, B = ('a', 0, ca, ids['a']), ('b', 0, cb, ids['b'])
        self.ops2(st, A, B, '')
        # the same budget but different upstream state cannot be told apart from equality unless both take part
        self.equality(st, A, B)
        self.chk.engine(self.eng)
        for key, v in self.eng.viol.items():
            self.chk.violate('%s/%s@%s' % (self.name, v['kind'], v['fn'].split('(')[0][-60:]), v['msg'], loc=v['loc'], path=v['path'])

    def reach(self, st, objs, what):
        self.full(st, objs, what)
        for o in objs:
            if o[1]:
                continue
            sh = self.shape(st, o[0])
            if sh not in self.reached:
                self.reached[sh] = what
                self.todo.append((st, objs, what))

    def ops1(self, st, A, trail, more=()):
        a, _, c, ida = A
        pa = self.ptr(a)
        t = '' if trail == 'a' else ' (object left by %s)' % trail
        new = 'x%d' % len(st.objs)
        pn = self.ptr(new)
        more = list(more)
        socc = ('o', 'socc', W, ida)
        for e, m, idn in (('copy', 0, ida), ('move', 0, ida), ('conv', 1, ida), ('rebind', 0, ida), ('socc', 0, socc)):
            s = st.copy()
            place(self.eng, s, new, self.size)
            for v, s2 in self.step(s, e, [pn, pa], None, e + t):
                self.reach(s2, [A, (new, m, c, idn)] + more, e + t)
                if m:
                    s3 = s2.copy()
                    new2 = new + 'b'
                    place(self.eng, s3, new2, self.size)
                    for v, s4 in self.step(s3, 'convback', [self.ptr(new2), pn], None, e + ' and back' + t):
                        self.reach(s4, [A, (new, m, c, idn), (new2, 0, c, idn)] + more, e + ' and back' + t)
        for e in ('assign_copy', 'assign_move', 'swap'):
            for v, s2 in self.step(st, e, [pa, pa], None, 'self ' + e + t):
                self.reach(s2, [A] + more, 'self ' + e + t)

    def ops2(self, st, A, B, t):
        for e in ('assign_copy', 'assign_move', 'swap'):
            for v, s2 in self.step(st, e, [self.ptr('a'), self.ptr('b')], None, e):
                if e == 'swap':
                    self.reach(s2, [('a',) + B[1:], ('b',) + A[1:]], e)
                    continue
                if A[2][0] in self.heap(s2):
                    self.fail(e, 'the budget of the overwritten allocator leaks')
                self.reach(s2, [('a',) + B[1:], B], e)

    def equality(self, st, A, B):
        # a2 shares a's budget but has the upstream of b: constructed by copying and comparing through the upstream comparison
        s = st.copy()
        place(self.eng, s, 'c', self.size)
        for v, s in self.step(s, 'copy', [self.ptr('c'), self.ptr('a')], None, 'copy'):
            ne = cmpv('eq', A[3], B[3], W)
            for x, y, want in (('a', 'c', True), ('a', 'a', True), ('a', 'b', False)):
                for e, flip in (('eq', False), ('ne', True)):
                    for r, s2 in self.step(s, e, [self.ptr(x), self.ptr(y)], None, e):
                        self.chk.count('obligations')
                        if self.eng.decide(s2, r) is not (want != flip):
                            self.fail(e, '%s of %s is %s' % (e, 'copies' if want else 'allocators with different budgets', show(r)))
        s = st.copy()
        place(self.eng, s, 'c', self.size)
        for v, s in self.step(s, 'socc', [self.ptr('c'), self.ptr('a')], None, 'socc'):
            want = cmpv('eq', ('o', 'socc', W, A[3]), A[3], W)
            for truth in (True, False):
                for s2 in self.eng.assume(s.copy(), want, truth):
                    for e, flip in (('eq', False), ('ne', True)):
                        for r, s3 in self.step(s2, e, [self.ptr('c'), self.ptr('a')], None, e):
                            self.chk.count('obligations')
                            if self.eng.decide(s3, r) is not (truth != flip):
                                self.fail(e, '%s does not compare the upstream allocators' % e)


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR; thread-modular interpretation of the shared budget; ownership of the control block'
    chk.headers = ['limit_allocator.hpp']
    chk.assumptions += ['std::shared_ptr and single atomic operations behave as specified',
                        'the upstream allocator does not throw from deallocate and keeps its identity when copied or moved']
    mod = build.compile_bc('limit.cpp')
    for p in INST:
        Limit(chk, mod, p).run()
    chk.require('obligations', chk.counts.get('obligations', 0), 400)
    return ''
