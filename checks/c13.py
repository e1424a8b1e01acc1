"""pool_allocator: every block goes back to the source it came from. boost::pool is a model: an object with a block size,
malloc (may fail) and free."""
import re
import build
import models
from closure import *
from dom import *
from engine import Engine, State

W = 64
INST = {'p0': (24, 1, (8,)), 'p1': (1, 24, (8, 16, 24, 32)), 'p2': (8, 40, (1, 40, 4096)), 'p3': (24, 4, (16, 16, 24, 48))}


def boost(eng, st, I, args, fn):
    op = re.search(r'::(~?\w+)\(', fn.dem[fn.dem.index('boost::pool<'):]).group(1)
    p = eng.ptr(st, args[0], I, 'boost::pool')
    if p is None:
        return []
    if op == 'pool':
        st.mon['pool' + repr(p)] = (p, eng.norm(st, args[1]))
        return [('ret', None, st)]
    if ('pool' + repr(p)) not in st.mon:
        eng.violation('dead-pool', 'boost::pool::%s on an object that is not alive' % op, st, I)
        return []
    if op in ('~pool', 'purge_memory', 'release_memory'):
        if op == '~pool':
            del st.mon['pool' + repr(p)]
        return [('ret', None, st)]
    if op in ('malloc', 'ordered_malloc') and len(args) == 1:
        s2 = st.copy()
        st.mon['blk'] = ('pool', p)
        st.mon['size'] = st.mon['pool' + repr(p)][1]
        r = ('p', ('blk', p), 0)
        st.objs[r[1]] = ('blk', None, 16, True, True, 0)
        return [('ret', r, st), ('ret', 0, s2)]
    if op in ('free', 'ordered_free') and len(args) == 2:
        b = eng.norm(st, args[1])
        if b != ('p', ('blk', p), 0) or st.mon.get('blk') != ('pool', p):
            eng.violation('wrong-source', 'storage is handed to a pool that it did not come from', st, I)
            return [('ret', None, st)]
        st.mon['blk'] = None
        return [('ret', None, st)]
    raise RuntimeError('boost::pool member without a model: ' + fn.dem)


class Pool:
    def __init__(self, chk, mod, p):
        self.chk, self.mod, self.p = chk, mod, p
        self.tl, self.tm, self.buckets = INST[p]
        self.name = 'pool_allocator<%s>' % ','.join(map(str, self.buckets))
        self.eng = e = Engine(mod)
        models.install(e)
        e.trace = True
        e.model(r'^boost::pool<.*>::~?\w+\(', boost)

    def fail(self, op, what):
        self.chk.violate('%s/%s' % (self.name, op), what)

    def call(self, st, e, *args):
        self.chk.count('calls')
        return self.eng.call(st, self.p + '_' + e, list(args))

    def ptr(self, n):
        return ('p', ('x', n), 0)

    def heap(self, s):
        return {o for o, i in s.objs.items() if o[0] == 'heap' and i[4]}

    def shape(self, st, name):
        return tuple((o, n, v[1][0] if type(v) is tuple and v[0] == 'p' else v if type(v) is int else '?')
                     for o, (n, v) in sorted(contents(self.eng, st, name).items()))

    def serve(self, st, p, n, T, alloc, deallocs, own, what):
        """own: the pool objects (pointers) of the family that must serve the request"""
        size = mul(n, T, W)
        lim = mask(W) // T
        s0 = st.copy()
        s0.ev = ()
        h0 = self.heap(s0)
        ok = 0
        for kind, v, s in self.call(s0, alloc, p, n):
            self.chk.count('obligations')
            if kind == 'end':
                return self.fail(what, '%s ends in %s' % (alloc, v))
            if kind == 'throw':
                if 'bad_alloc' not in str(v) and 'bad_array_new_length' not in str(v):
                    self.fail(what, '%s throws %s' % (alloc, v))
                if s.mon.get('blk') or self.heap(s) - h0:
                    self.fail(what, 'a failed %s leaks a block' % alloc)
                if not any(e[0] in ('new',) for e in s.ev) and s.mon.get('blk') is None and 'bad_array_new_length' in str(v):
                    if self.eng.decide(s, cmpv('ult', lim, n, W)) is not True:
                        self.fail(what, '%s refuses a size that does not overflow' % alloc)
                continue
            ok += 1
            new = self.heap(s) - h0
            if self.eng.decide(s, cmpv('ult', lim, n, W)) is not False:
                self.fail(what, '%s(n) succeeds although n*sizeof(T) may exceed the range of size_t' % alloc)
            b = s.mon.get('blk')
            if (b is not None) + len(new) != 1:
                self.fail(what, '%s takes %d blocks' % (alloc, (b is not None) + len(new)))
                continue
            if b is not None:
                if v != ('p', ('blk', b[1]), 0):
                    self.fail(what, '%s does not return the block it took from the pool (returns %s)' % (alloc, show(v)))
                    continue
                if b[1] not in own:
                    self.fail(what, '%s takes the block from an unrelated pool' % alloc)
                have = s.mon['size']
                if self.eng.decide(s, cmpv('ult', have, size, W)) is not False:
                    self.fail(what, '%s returns a block of %s bytes for a request that may be larger' % (alloc, show(have)))
                small = [x for x in self.buckets if x < have]
            else:
                o = next(iter(new))
                if v != ('p', o, 0):
                    self.fail(what, '%s does not return the block it allocated' % alloc)
                    continue
                have = s.objs[o][1] or [e[2] for e in s.ev if e[0] == 'new' and e[1] == o][-1]
                if self.eng.decide(s, cmpv('ult', have, size, W)) is not False:
                    self.fail(what, '%s allocates %s bytes for a request of %s' % (alloc, show(have), show(size)))
                small = self.buckets
            for x in small:
                if self.eng.decide(s, cmpv('ult', x, size, W)) is not True:
                    self.fail(what, '%s does not use the pool of %d byte blocks although the request may fit' % (alloc, x))
            # give it back through every related allocator
            for q, dealloc in deallocs:
                self.chk.count('routes')
                for k2, v2, s2 in self.call(s.copy(), dealloc, q, v, n):
                    self.chk.count('obligations')
                    if k2 != 'ret':
                        self.fail(what, '%s ends with %s' % (dealloc, k2))
                    elif s2.mon.get('blk') is not None or self.heap(s2) != h0:
                        self.fail(what, '%s through %s does not return the block to its source' % (dealloc, q[1][1]))
        if not ok:
            self.fail(what, '%s never succeeds' % alloc)

    def pools(self, st):
        return {x[0] for k, x in st.mon.items() if k.startswith('pool') and type(x) is tuple}

    def full(self, st, objs, what):
        """objs: (name, 0|1 rebound, pool objects)"""
        n = ('s', ('n',), W)
        for name, m, own in objs:
            if not own <= self.pools(st):
                self.fail(what, 'a pool is destroyed although allocators still use it')
                return
            de = [(self.ptr(x), 'deallocate_m' if y else 'deallocate') for x, y, o in objs if o == own and y == m]
            self.serve(st, self.ptr(name), n, (self.tl, self.tm)[m], 'allocate_m' if m else 'allocate', de, own, what)
        for order in (objs, objs[::-1]):
            s = st.copy()
            for j, (name, m, own) in enumerate(order):
                outs = self.call(s, 'dtor_m' if m else 'dtor', self.ptr(name))
                self.chk.count('obligations')
                if len(outs) != 1 or outs[0][0] != 'ret':
                    self.fail(what, 'destructor of %s has outcomes %s' % (name, [(k, v) for k, v, s in outs]))
                    return
                s = outs[0][2]
                rest = set().union(*[o[2] for o in order[j + 1:]]) if order[j + 1:] else set()
                if self.pools(s) != rest:
                    self.fail(what, 'pools are %s' % ('destroyed while allocators still use them' if rest - self.pools(s) else
                                                     'not destroyed with the last allocator'))
                    return
            if self.heap(s):
                self.fail(what, 'storage leaks after the last allocator is destroyed')

    def new_family(self, st, name, e):
        place(self.eng, st, name, self.size)
        p0, h0 = self.pools(st), self.heap(st)
        ok = []
        for kind, v, s in self.call(st, e, self.ptr(name)):
            self.chk.count('obligations')
            if kind == 'throw' and 'bad_alloc' in str(v):
                if self.heap(s) - h0 or self.pools(s) - p0:
                    self.fail(e, 'the constructor leaks when it throws')
            elif kind != 'ret':
                self.fail(e, 'constructor ends with %s' % kind)
            else:
                ok.append(s)
        if len(ok) != 1:
            raise RuntimeError('%d normal outcomes of %s' % (len(ok), e))
        own = self.pools(ok[0]) - p0
        sizes = sorted(x[1] for x in ok[0].mon.values() if type(x) is tuple and x[0] in own)
        if sizes != sorted(self.buckets):
            self.fail(e, 'the pools have the block sizes %s instead of %s' % (sizes, list(self.buckets)))
        return ok[0], own

    def step(self, st, e, args, what):
        ok = []
        for kind, v, s in self.call(st.copy(), e, *args):
            self.chk.count('obligations')
            if kind == 'ret':
                ok.append((v, s))
            else:
                self.fail(what, '%s ends with %s %s' % (e, kind, v))
        if not ok:
            self.fail(what, '%s never returns' % e)
        return ok

    def reach(self, st, objs, what):
        self.full(st, objs, what)
        for o in objs:
            if not o[1]:
                sh = self.shape(st, o[0])
                if sh not in self.reached:
                    self.reached.add(sh)
                    self.todo.append((st, o, [x for x in objs if x is not o], what))

    def ops1(self, st, A, more, trail):
        a, _, own = A
        t = ' (object left by %s)' % trail if trail else ''
        new = 'x%d' % len(st.objs)
        for e, m in (('copy', 0), ('move', 0), ('conv', 1), ('rebind', 0), ('shared', 0), ('socc', 0)):
            s = st.copy()
            place(self.eng, s, new, self.size)
            for v, s2 in self.step(s, e, [self.ptr(new), self.ptr(a)], e + t):
                self.reach(s2, [A, (new, m, own)] + more, e + t)
                if m:
                    s3 = s2.copy()
                    n2 = new + 'b'
                    place(self.eng, s3, n2, self.size)
                    for v, s4 in self.step(s3, 'convback', [self.ptr(n2), self.ptr(new)], e + ' and back' + t):
                        self.reach(s4, [A, (new, m, own), (n2, 0, own)] + more, e + ' and back' + t)
        for e in ('assign_copy', 'assign_move', 'swap'):
            for v, s2 in self.step(st, e, [self.ptr(a), self.ptr(a)], 'self ' + e + t):
                self.reach(s2, [A] + more, 'self ' + e + t)

    def run(self):
        self.size = self.call(State(), 'sizeof')[0][1]
        psize = self.call(State(), 'poolsize')[0][1]
        # the pool itself
        n = ('s', ('n',), W)
        st = State()
        place(self.eng, st, 'pool', psize)
        for kind, v, s in self.call(st, 'pctor', self.ptr('pool')):
            self.chk.count('obligations')
            if kind != 'ret':
                self.fail('pool', 'constructor ends with %s' % kind)
                continue
            self.serve(s, self.ptr('pool'), n, 1, 'pallocate', [(self.ptr('pool'), 'pdeallocate')], self.pools(s), 'pool')
            for k2, v2, s2 in self.call(s.copy(), 'pdtor', self.ptr('pool')):
                if k2 != 'ret' or self.pools(s2):
                    self.fail('pool', 'the destructor leaves a pool alive')
        self.reached, self.todo = set(), []
        for e in ('ctor', 'ctor_sp'):
            st, own = self.new_family(State(), 'a', e)
            self.reach(st, [('a', 0, own)], e)
        k = 0
        while self.todo:
            k += 1
            if k > 8:
                self.fail('closure', 'the operations reach more than %d representations' % k)
                break
            st, o, more, t = self.todo.pop(0)
            self.ops1(st, o, more, t)
        st, pa = self.new_family(State(), 'a', 'ctor')
        st, pb = self.new_family(st, 'b', 'ctor')
        A, B = ('a', 0, pa), ('b', 0, pb)
        for e in ('assign_copy', 'assign_move', 'swap'):
            for v, s2 in self.step(st, e, [self.ptr('a'), self.ptr('b')], e):
                if e == 'swap':
                    self.reach(s2, [('a', 0, pb), ('b', 0, pa)], e)
                else:
                    if self.pools(s2) != pb:
                        self.fail(e, 'the pool of the overwritten allocator leaks')
                    self.reach(s2, [('a', 0, pb), B], e)
        place(self.eng, st, 'c', self.size)
        for v, s in self.step(st, 'copy', [self.ptr('c'), self.ptr('a')], 'copy'):
            for x, y, want in (('a', 'c', True), ('c', 'a', True), ('a', 'a', True), ('a', 'b', False), ('b', 'c', False)):
                for e, flip in (('eq', False), ('ne', True)):
                    for r, s2 in self.step(s, e, [self.ptr(x), self.ptr(y)], e):
                        self.chk.count('obligations')
                        if self.eng.decide(s2, r) is not (want != flip):
                            self.fail(e, '%s of allocators of %s is %s' % (e, 'one pool' if want else 'different pools', show(r)))
        self.chk.engine(self.eng)
        for key, v in self.eng.viol.items():
            self.chk.violate('%s/%s@%s' % (self.name, v['kind'], v['fn'].split('(')[0][-60:]), v['msg'], loc=v['loc'], path=v['path'])


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR: provenance of every block, routing of symbolic sizes, ownership of the pool'
    chk.headers = ['pool_allocator.hpp']
    chk.assumptions += ['boost::pool(n) serves blocks of n bytes, malloc returns null on failure, and free takes blocks of the same pool; '
                        'std::shared_ptr behaves as specified', 'element types need no more than fundamental alignment']
    mod = build.compile_bc('pool.cpp')
    for p in INST:
        Pool(chk, mod, p).run()
    for sizes, good in (('16, 8', False), ('8, 16', True), ('8, 32, 16', False)):
        src = '#include <dice/template-library/pool_allocator.hpp>\ntemplate struct dice::template_library::pool<%s>;\n' % sizes
        if build.syntax(src)[0] != good:
            chk.violate('pool/bucket-order', 'the bucket list %s is %s' % (sizes, 'rejected' if good else 'accepted'))
        chk.count('obligations')
    chk.require('routes', chk.counts.get('routes', 0), 100)
    return ''
