"""static_string: class level closure with an ownership typestate for buffers (C09) and tracked contents (C10)."""
import re
import build
import models
from closure import *
from dom import *
from engine import Engine, State

# prefix, bytes per character, propagate on copy, move, swap, always equal
INST = [('s0', 2, 0, 0, 0, 0), ('s1', 2, 1, 0, 0, 0), ('s2', 2, 0, 1, 0, 0), ('s3', 2, 1, 1, 0, 0), ('s4', 2, 0, 0, 1, 0),
        ('s5', 2, 1, 0, 1, 0), ('s6', 2, 0, 1, 1, 0), ('s7', 2, 1, 1, 1, 0), ('s8', 1, 0, 0, 0, 1), ('s9', 4, 1, 1, 1, 1)]
MAXLEN = (1 << 60) - 1


class SS:
    def __init__(self, chk, mod, inst, part):
        self.chk, self.mod, self.part = chk, mod, part
        self.p, self.k, self.pca, self.pma, self.psw, self.ae = inst
        self.name = 'basic_static_string<char%d, pocca=%d pocma=%d pocs=%d always_equal=%d>' % (8 * self.k, self.pca, self.pma, self.psw, self.ae)
        self.eng = e = Engine(mod)
        models.install(e)
        e.trace = False
        e.hooks['arch'] = models.opaque
        e.hooks['memcpy'] = self.h_memcpy
        e.hooks['load'] = self.h_load
        e.hooks['store'] = self.h_store
        e.model(r'^arch::Al<.*>::allocate\(', self.m_alloc)
        e.model(r'^arch::Al<.*>::deallocate\(', self.m_dealloc)
        e.model(r'^arch::Al<.*>::socc\(', lambda eng, st, I, a, f: [('ret', ('o', 'socc', 64, eng.norm(st, a[0])), st)])
        e.model(r'^arch::Tr<.*>::(copy|move)\(', self.m_copy)
        e.model(r'^arch::Tr<.*>::compare\(', self.m_compare)
        e.model(r'^std::basic_string_view<.*>::_S_compare\(', self.m_scompare)
        self.states = {}
        self.order = []
        self.acell = None

    # ------------------------------------------------ models
    def m_alloc(self, eng, st, I, args, fn):
        p = eng.ptr(st, args[0], I, 'allocator')
        i = eng.load(st, p[0], p[1], 8)
        n = eng.norm(st, args[1])
        outs = [eng.raise_(st.copy(), 'USER', I)]
        o = eng.newobj(st, 'al', mul(n, self.k, 64), I, align=16)
        st.mon['al', o] = (i, n)
        st.mon['allocs'] = st.mon.get('allocs', ()) + (i,)
        outs.append(('ret', ('p', o, 0), st))
        return outs

    def same_id(self, st, a, b):
        return self.ae or self.eng.decide(st, cmpv('eq', self.eng.norm(st, a), self.eng.norm(st, b), 64)) is True

    def m_dealloc(self, eng, st, I, args, fn):
        p = eng.ptr(st, args[0], I, 'allocator')
        i = eng.load(st, p[0], p[1], 8)
        b = eng.norm(st, args[1])
        if type(b) is not tuple or b[0] != 'p' or b[1][0] != 'al' or b[2] != 0:
            eng.violation('bad-deallocate', 'deallocate of %s, which is not a buffer that was allocated' % show(b), st, I)
            return [('ret', None, st)]
        o = b[1]
        if ('al', o) not in st.mon:
            eng.violation('double-free', 'buffer deallocated twice', st, I)
            return [('ret', None, st)]
        bi, bn = st.mon.pop(('al', o))
        if not self.same_id(st, bi, i):
            eng.violation('wrong-allocator', 'buffer is released through an allocator that may differ from the one that allocated it', st, I)
        if eng.norm(st, bn) != eng.norm(st, args[2]):
            eng.violation('wrong-size', 'buffer of %s characters released with size %s' % (show(bn), show(args[2])), st, I)
        st.objs[o] = st.objs[o][:4] + (False, 0)
        self.forget(st, o)
        return [('ret', None, st)]

    def region(self, st, o):
        return o[0] == 'al' or o[0] == 'x' and o[1] in ('src', 'src2')

    def h_memcpy(self, eng, st, d, s, n, I):
        n = eng.norm(st, n)
        d, s = eng.norm(st, d), eng.norm(st, s)
        if n == 0:
            return [('ret', None, st)]
        if not (type(d) is tuple and d[0] == 'p' and self.region(st, d[1])):
            return None
        pd = eng.ptr(st, d, I, 'copy')
        ps = eng.ptr(st, s, I, 'copy')
        if pd is None or ps is None:
            return 'dead'
        for (o, off), w in ((pd, 'writes'), (ps, 'reads')):
            end = add(off, n, 64)
            size = eng.norm(st, st.objs[o][1])
            if off != 0 or not self.le(st, end, size):
                if off != 0 or eng.decide(st, cmpv('eq', n, 0, 64)) is not True:
                    eng.violation('oob', 'copy of %s bytes %s beyond a buffer of %s bytes' % (show(n), w, show(size)), st, I)
        c = self.cell(st, ps[0])
        v = None
        if c is not None and ps[1] == 0 and pd[1] == 0:
            v = c[1] if eng.norm(st, c[0]) == n else ('k', 'prefix', n, c[1])
        self.forget(st, pd[0])
        if v is not None:
            st.cells(pd[0], True)[0] = (n, v)
        return [('ret', None, st)]

    def cell(self, st, o):
        """(bytes, token): the leading bytes of a buffer that are known"""
        c = st.cells(o).get(0)
        if c is None and ('from', o) in st.mon:
            c = st.mon['~n', o], st.mon['from', o]
        return c

    def forget(self, st, o):
        st.cells(o, True).clear()
        st.mon.pop(('from', o), None)
        st.mon.pop(('~n', o), None)

    def h_store(self, eng, st, obj, off, size, val, I):
        """a character written into a buffer extends the known prefix if it is the next one of the same source"""
        if not self.region(st, obj) or I is None:
            return False
        bs = eng.norm(st, st.objs[obj][1])
        off = eng.norm(st, off)
        if size != self.k or bs != add(off, size, 64) and eng.decide(st, cmpv('ult', self.chars(off), self.chars(bs), 64)) is not True:
            eng.violation('oob', 'writes %s bytes at byte %s of a buffer of %s bytes' % (show(size), show(off), show(bs)), st, I)
        val = eng.norm(st, val)
        c = self.cell(st, obj)
        at = eng.norm(st, c[0]) if c else 0
        tok = c[1] if c else None
        ok = type(val) is tuple and val[0] == 'o' and val[1] == 'char' and val[3] is not None
        if ok and eng.norm(st, val[4]) == off == at and tok in (None, val[3]):
            self.forget(st, obj)
            st.mon['from', obj] = val[3]
            st.mon['~n', obj] = add(off, size, 64)
        else:
            self.forget(st, obj)
        return True

    def m_copy(self, eng, st, I, args, fn):
        r = self.h_memcpy(eng, st, args[0], args[1], mul(eng.norm(st, args[2]), self.k, 64), I)
        if r == 'dead':
            return []
        return [('ret', args[0], s) for k, v, s in (r or [('ret', None, st)])]

    def m_compare(self, eng, st, I, args, fn):
        n = eng.norm(st, args[2])
        ts = []
        for a in args[:2]:
            a = eng.norm(st, a)
            if n != 0 and eng.decide(st, cmpv('eq', n, 0, 64)) is not True:
                p = eng.ptr(st, a, I, 'comparison')
                if p is None:
                    return []
                size = eng.norm(st, st.objs[p[0]][1])
                end = mul(n, self.k, 64)
                if p[1] != 0 or size != end and eng.decide(st, cmpv('ult', self.chars(size), n, 64)) is not False:
                    eng.violation('oob', 'compares %s characters of a buffer of %s bytes' % (show(n), show(size)), st, I)
            ts.append(a)
        v = ('o', 'compare', 32, ts[0], ts[1], n)
        if n == 0:
            v = 0
        return [('ret', v, st)]

    def m_scompare(self, eng, st, I, args, fn):
        a, b = eng.norm(st, args[0]), eng.norm(st, args[1])
        outs = []
        for r, c in ((mask(32), cmpv('ult', a, b, 64)), (0, cmpv('eq', a, b, 64)), (1, cmpv('ult', b, a, 64))):
            outs += [('ret', r, s) for s in eng.assume(st.copy(), c, True)]
        return outs

    def le(self, st, a, b):
        a, b = self.eng.norm(st, a), self.eng.norm(st, b)
        if a == b or self.eng.decide(st, cmpv('ult', b, a, 64)) is False:
            return True
        lo, hi = self.eng.interval(st, sub(b, a, 64), 64)
        return hi < 1 << 63

    def chars(self, size):
        """size in characters of a symbolic byte size"""
        if type(size) is int:
            return size // self.k
        c, d = tolin(size, 64)
        return fromlin(c // self.k, {t: x // self.k for t, x in d.items()}, 64)

    def h_load(self, eng, st, obj, off, size, I):
        if not self.region(st, obj) or I is None:
            return None
        c = self.cell(st, obj)
        bs = eng.norm(st, st.objs[obj][1])
        end = add(off, size, 64)
        if size != self.k:
            return None
        if bs != end and eng.decide(st, cmpv('ult', self.idx(off), self.chars(bs), 64)) is not True:
            eng.violation('oob', 'reads the character at byte %s of a buffer of %s bytes' % (show(off), show(bs)), st, I)
        return ('o', 'char', 8 * size, c[1] if c else None, off)

    def idx(self, off):
        return self.chars(off)

    # ------------------------------------------------ helpers
    def call(self, st, e, *args):
        return self.eng.call(st, self.p + '_' + e, list(args))

    def fail(self, op, what):
        self.chk.violate('%s/%s' % (self.name, op), what)

    def own(self, op, what):
        if self.part == 'own':
            self.fail(op, what)

    def text(self, op, what):
        if self.part == 'text':
            self.fail(op, what)

    def source(self, st, name):
        n = ('s', ('len', name), 64)
        st.iv[n] = (0, MAXLEN)
        o = ('x', name)
        b = mul(n, self.k, 64)
        st.objs[o] = ('x', b, 16, False, True, 0)
        st.mem[o] = {0: (b, ('k', 'chars', name))}
        st._own.add(o)
        return ('p', o, 0), n

    def ids(self, st, name):
        return ('s', ('id', name), 64)

    def blocks(self, st):
        return {k[1]: v for k, v in st.mon.items() if type(k) is tuple and k[0] == 'al'}

    def read(self, st, name):
        """generalise the object; buffers it points to are described by the cells that hold their size and allocator"""
        obj = ('x', name)
        cells = []
        bl = self.blocks(st)
        owned = []
        raw = {o: (s, self.eng.norm(st, v)) for o, (s, v) in st.cells(obj).items()}
        for o, (s, v) in sorted(raw.items()):
            if v == UNDEF:
                continue
            if type(v) is tuple and v[0] == 'p' and v[1] in bl:
                bi, bn = bl[v[1]]
                bn = self.eng.norm(st, bn)
                nf = [(x, d) for x, (w, y) in sorted(raw.items()) if w == 8 and y != UNDEF and y != v and (type(y) is int or y[0] != 'p')
                      for d in [sub(bn, y, 64)] if type(d) is int and (d == 0 or type(y) is not int)]
                nf.sort(key=lambda x: x[1] != 0)
                fi = [x for x, (_, y) in sorted(raw.items()) if y == self.eng.norm(st, bi)]
                if not fi and self.ae:
                    fi = [None]
                if not nf or not fi:
                    return None, 'the buffer\'s %s is no longer known to the object' % ('allocator' if nf else 'size')
                cells.append((o, s, ('buf', v[2], nf[0], fi[0])))
                owned.append(v[1])
            elif type(v) is int:
                cells.append((o, s, v))
            elif v[0] == 'p':
                return None, 'the object holds %s, which is not a buffer it owns' % show(v)
            else:
                lo, hi = self.eng.interval(st, v, 64) if s == 8 else (0, mask(8 * s))
                cells.append((o, s, ('?', min(lo, 1), min(hi, MAXLEN) if hi <= MAXLEN else mask(8 * s))))
        return tuple(cells), owned

    def place(self, st, name, cells=None):
        p = place(self.eng, st, name, self.sz)
        obj = ('x', name)
        if cells:
            for o, s, v in cells:
                if type(v) is tuple and v[0] == '?':
                    y = ('s', ('val', name, o), 8 * s)
                    if (v[1], v[2]) != (0, mask(8 * s)):
                        st.iv[y] = (v[1], v[2])
                    st.mem[obj][o] = (s, y)
                elif type(v) is int:
                    st.mem[obj][o] = (s, v)
            for o, s, v in cells:
                if type(v) is tuple and v[0] == 'buf':
                    n = add(st.mem[obj][v[2][0]][1], v[2][1], 64)
                    i = st.mem[obj][v[3]][1] if v[3] is not None else 0
                    b = ('al', name, o)
                    bytes_ = mul(n, self.k, 64)
                    st.objs[b] = ('al', bytes_, 16, False, True, 0)
                    st.mem[b] = {0: (bytes_, ('k', 'chars', name))}
                    st._own.add(b)
                    st.mon['al', b] = (i, n)
                    st.mem[obj][o] = (s, ('p', b, v[1]))
        return p

    def alloc_id(self, st, name):
        if self.acell is None:
            return None
        c = st.cells(('x', name)).get(self.acell)
        return self.eng.norm(st, c[1]) if c else None

    def probe(self, st, name):
        """-> [(state, size, token)] or error: data()/size() describe one live buffer of exactly that size"""
        p = ('p', ('x', name), 0)
        res = []
        for k, n, s in self.call(st.copy(), 'size', p):
            if k != 'ret':
                return None, 'size() does not return'
            for t in (True, False):
                for s2 in self.eng.assume(s.copy(), cmpv('eq', n, 0, 64), t):
                    m = self.eng.norm(s2, n)
                    if t:
                        res.append((s2, 0, None))
                        continue
                    for k2, d, s3 in self.call(s2.copy(), 'data', p):
                        if k2 != 'ret' or type(d) is not tuple or d[0] != 'p' or d[2] != 0 or d[1] not in self.blocks(s3):
                            return None, 'size() is not zero but data() is %s' % (show(d) if k2 == 'ret' else k2)
                        if self.eng.norm(s3, s3.objs[d[1]][1]) != mul(m, self.k, 64):
                            return None, 'size() is %s but the buffer has %s bytes' % (show(m), show(s3.objs[d[1]][1]))
                        c = self.cell(s3, d[1])
                        tok = c[1] if c and self.eng.norm(s3, c[0]) == mul(m, self.k, 64) else None
                        res.append((s3, m, tok))
        if not res:
            return None, 'size() gives no result'
        return res, None

    def absorb(self, st, name, op):
        c, owned = self.read(st, name)
        if c is None:
            self.own(op, owned)
            return None
        if c not in self.states:
            self.states[c] = op
            self.order.append(c)
        return owned

    def settle(self, op, s, names, where):
        """all objects are absorbed; every live buffer belongs to exactly one of them"""
        self.chk.count('obligations')
        owned = []
        for nm in names:
            o = self.absorb(s, nm, op)
            if o is None:
                return False
            owned += o
        if sorted(map(repr, owned)) != sorted(map(repr, self.blocks(s))):
            extra = [b for b in self.blocks(s) if b not in owned]
            self.own(op, ('a buffer is leaked ' if extra else 'two objects own the same buffer ') + where)
            return False
        for nm in names:
            r, err = self.probe(s, nm)
            if err:
                self.own(op, err + ' ' + where)
                return False
        return True

    def content(self, op, s, name, size, tok, where):
        """object must hold exactly the characters `tok`, `size` of them"""
        self.chk.count('obligations')
        r, err = self.probe(s, name)
        if err:
            self.text(op, err + ' ' + where)
            return
        for s2, n, t in r:
            sz = self.eng.norm(s2, size)
            if self.eng.norm(s2, n) != sz and self.eng.decide(s2, cmpv('eq', n, sz, 64)) is not True:
                self.text(op, 'has size %s, the source has %s %s' % (show(n), show(sz), where))
            elif n != 0 and t != tok:
                self.text(op, 'holds %s instead of the characters of the source %s' % (show(t) if t else 'other bytes', where))

    # ------------------------------------------------ closure
    def run(self):
        chk = self.chk
        self.sz = self.call(State(), 'sizeof')[0][1]
        for e in ('ctor_def', 'ctor_sv'):
            st = State()
            i = self.ids(st, 'new')
            p = place(self.eng, st, 'a', self.sz)
            args = [p]
            size = 0
            if e == 'ctor_sv':
                src, size = self.source(st, 'src')
                args += [src, size]
            for k, v, s in self.call(st, e, *(args + [i])):
                if k == 'end':
                    self.fail(e, 'ends in %s' % (v,))
                    continue
                if k == 'throw':
                    if self.blocks(s):
                        self.own(e, 'leaks a buffer when it throws')
                    continue
                a = [o for o, (n, v2) in s.cells(('x', 'a')).items() if self.eng.norm(s, v2) == i]
                if a:
                    self.acell = a[0]
                self.expect_alloc(e, s, i)
                if self.settle(e, s, ['a'], '') or self.part == 'text':
                    self.content(e, s, 'a', size, ('k', 'chars', 'src'), '')
        done = 0
        while True:
            n = len(self.order)
            if n > 40:
                raise RuntimeError('too many object states')
            for x, a in enumerate(self.order[:n]):
                if x >= done:
                    self.unary(a)
                for y, b in enumerate(self.order[:n]):
                    if x >= done or y >= done:
                        self.binary(a, b)
            done = n
            if len(self.order) == n:
                break
        chk.count('object_states', len(self.order))
        chk.engine(self.eng)
        for key, v in self.eng.viol.items():
            if (v['kind'] == 'oob') == (self.part == 'text') or v['kind'] not in ('oob', 'wrong-size', 'wrong-allocator', 'double-free', 'bad-deallocate', 'dangling'):
                chk.violate('%s/%s@%s' % (self.name, v['kind'], v['fn'].split('(')[0][-60:]), v['msg'], loc=v['loc'], path=v['path'])

    def expect_alloc(self, e, s, i):
        """buffers allocated by the operation come from the allocator the propagation traits demand"""
        for x in s.mon.get('allocs', ()):
            self.chk.count('obligations')
            if not self.same_id(s, x, i):
                self.own(e, 'allocates with %s, the allocator of the result is %s' % (show(self.eng.norm(s, x)), show(i)))

    def unary(self, a):
        where = '(state after %s)' % self.states[a]
        st = State()
        p = self.place(st, 'a', a)
        for k, v, s in self.call(st.copy(), 'dtor', p):
            self.chk.count('obligations')
            if k != 'ret':
                self.fail('dtor', 'does not return normally')
            elif self.blocks(s):
                self.own('dtor', 'does not release the buffer ' + where)
        for k, v, s in self.call(st.copy(), 'assign_copy', p, p):
            if k != 'ret':
                self.fail('self-assignment', 'ends in %s %s' % (k, where))
            elif self.settle('self-assignment', s, ['a'], where):
                r, _ = self.probe(st, 'a')
                for s0, n, t in r:
                    self.content('self-assignment', s, 'a', n if n != 0 else 0, t, where) if n != 0 else None
        if self.part == 'text':
            self.access(st, p, where)

    def binary(self, a, b):
        where = '(target after %s, source after %s)' % (self.states[a], self.states[b])
        st0 = State()
        p = self.place(st0, 'a', a)
        q = self.place(st0, 'b', b)
        ida, idb = self.alloc_id(st0, 'a'), self.alloc_id(st0, 'b')
        starts = [(st0, None)]
        if not self.ae and ida is not None:
            starts = [(s, t) for t in (True, False) for s in self.eng.assume(st0.copy(), cmpv('eq', ida, idb, 64), t)]
        for st, eq in starts:
            ra, _ = self.probe(st, 'a')
            rb, _ = self.probe(st, 'b')
            if ra is None or rb is None:
                return
            for sa, na, ta in ra:
                rb2, _ = self.probe(sa, 'b')
                for sb, nb, tb in rb2 or []:
                    self.pair(sb, p, q, na, ta, nb, tb, ida, idb, eq, where, a == self.order[0])

    def pair(self, st, p, q, na, ta, nb, tb, ida, idb, eq, where, first):
        self.eng.pinned = [x for x in (ida, idb, na, nb) if type(x) is tuple]
        for e in ('assign_copy', 'assign_move', 'swap') + (('ctor_copy', 'ctor_move') if first else ()):
            if e == 'swap' and not (self.psw or self.ae or eq):
                continue  # precondition of swap
            ctor = e.startswith('ctor')
            s0 = st.copy()
            pp = p
            if ctor:
                pp = place(self.eng, s0, 'n', self.sz)
            tgt = 'n' if ctor else 'a'
            rest = ['a', 'b'] + (['n'] if ctor else [])
            for k, v, s in self.call(s0, e, pp, q):
                if k == 'end':
                    self.fail(e, 'ends in %s %s' % (v, where))
                    continue
                if k == 'throw':
                    names = ['a', 'b']
                    if not self.settle(e + '!', s, names, where + ', exit by exception') and self.part == 'own':
                        continue
                    self.content(e, s, 'b', nb, tb, where + ', source after exception')
                    continue
                if not self.settle(e, s, rest, where) and self.part == 'own':
                    continue
                if idb is not None and self.part == 'own':
                    exp = {'assign_copy': idb if self.pca else ida, 'assign_move': idb if self.pma else ida,
                           'ctor_copy': ('o', 'socc', 64, self.eng.norm(s, idb)), 'ctor_move': idb}.get(e)
                    if exp is not None:
                        self.expect_alloc(e, s, exp)
                self.content(e, s, tgt, nb, tb, where)
                if e in ('assign_copy', 'ctor_copy'):
                    self.content(e, s, 'b', nb, tb, where + ', source')
                elif e == 'swap':
                    self.content(e, s, 'b', na, ta, where)
                elif e == 'ctor_move':
                    self.content(e, s, 'b', 0, None, where + ', moved from')
        if self.part == 'text':
            self.compare(st, p, q, na, nb, where)

    # ------------------------------------------------ access and comparison
    def access(self, st, p, where):
        for s, n, t in self.probe(st, 'a')[0] or ():
            d = 0
            if n != 0:
                d = self.call(s.copy(), 'data', p)[0][1]
            end = add(d, mul(n, self.k, 64), 64) if n != 0 else d
            for e, exp in (('begin', d), ('cbegin', d), ('begin_m', d), ('data_m', d), ('rend', d), ('crend', d), ('rend_m', d), ('view_data', d),
                           ('end', end), ('cend', end), ('end_m', end), ('rbegin', end), ('crbegin', end), ('rbegin_m', end),
                           ('view_size', n), ('empty', int(n == 0))):
                self.chk.count('obligations')
                for k, v, s2 in self.call(s.copy(), e, p):
                    if k != 'ret' or self.eng.norm(s2, v) != self.eng.norm(s2, exp):
                        if e == 'empty' and k == 'ret' and self.eng.decide(s2, v) == bool(exp):
                            continue
                        if n == 0 and k == 'ret' and e not in ('view_size', 'empty'):
                            # empty: only begin == end matters
                            o = {'begin': 'end', 'cbegin': 'cend', 'begin_m': 'end_m', 'rend': 'rbegin', 'crend': 'crbegin', 'rend_m': 'rbegin_m'}.get(e)
                            if o is None or [x for _, x, _ in self.call(s.copy(), o, p)] == [v]:
                                continue
                        self.text(e, 'gives %s, expected %s %s' % (show(v) if k == 'ret' else k, show(exp), where))
            if n == 0:
                continue
            i = ('s', ('ix',), 64)
            last = sub(n, 1, 64)
            for e, ix in (('at', i), ('at_m', i), ('front', 0), ('front_m', 0), ('back', last), ('back_m', last)):
                self.chk.count('obligations')
                s1 = s.copy()
                ok = self.eng.assume(s1, cmpv('ult', i, n, 64), True)
                for k, v, s2 in self.call(ok[0], e, p, *([i] if e[:2] == 'at' else [])):
                    off = mul(self.eng.norm(s2, ix), self.k, 64)
                    exp = add(d, off, 64) if e.endswith('_m') else ('o', 'char', 8 * self.k, t, off)
                    if k != 'ret' or self.eng.norm(s2, v) != self.eng.norm(s2, exp):
                        self.text(e, 'gives %s, expected %s %s' % (show(v) if k == 'ret' else (k, v), show(exp), where))

    def compare(self, st, p, q, na, nb, where):
        def data(s, x):
            return self.call(s.copy(), 'data', x)[0][1]

        st = st.copy()
        src, m = self.source(st, 'src')
        for e in ('eq', 'ne', 'lt', 'gt', 'eqv', 'nev', 'ltv', 'gtv'):
            isv = e.endswith('v')
            n2 = m if isv else nb
            starts = [st.copy()]
            if isv:
                starts = self.eng.assume(st.copy(), cmpv('eq', m, 0, 64), True) + self.eng.assume(st.copy(), cmpv('eq', m, 0, 64), False)
            for s0 in starts:
                n2c = self.eng.norm(s0, n2)
                for k, v, s in self.call(s0.copy(), e, p, *([src, m] if isv else [q])):
                    self.chk.count('obligations')
                    if k != 'ret':
                        self.text(e, 'comparison ends in %s %s' % ((k, v), where))
                        continue
                    for r, sx in self.split(s, v):
                        for (o, cm), sy in self.classes(sx, na, n2c, data(sx, p), src if isv else data(sx, q)):
                            # o: order of the sizes, cm: sign of the comparison of the common prefix
                            lex = cm if cm else o
                            exp = {'eq': o == 0 and cm == 0, 'ne': not (o == 0 and cm == 0), 'lt': lex < 0, 'gt': lex > 0}[e.rstrip('v') if isv else e]
                            if r != exp:
                                self.text(e, 'is %s when sizes compare %s and the common prefix compares %s %s' % (r, o, cm, where))

    def split(self, s, v):
        for t in (True, False):
            for x in self.eng.assume(s.copy(), v, t):
                yield t, x

    def classes(self, s, na, nb, da, db):
        """every case (order of sizes, sign of the comparison of the first min(sizes) characters) possible in s"""
        for o, conds in ((-1, [(cmpv('ult', na, nb, 64), True)]), (0, [(cmpv('eq', na, nb, 64), True)]), (1, [(cmpv('ult', nb, na, 64), True)])):
            xs = [s.copy()]
            for c, t in conds:
                xs = [y for x in xs for y in self.eng.assume(x, c, t)]
            for x in xs:
                n = na if o <= 0 else nb
                n = self.eng.norm(x, n)
                if n == 0:
                    yield (o, 0), x
                    continue
                c = ('o', 'compare', 32, self.eng.norm(x, da), self.eng.norm(x, db), n)
                c2 = ('o', 'compare', 32, self.eng.norm(x, db), self.eng.norm(x, da), n)
                for sg in (-1, 0, 1):
                    zs = self.sign(x.copy(), c, sg)
                    zs = [w for z in zs for w in self.sign(z, c2, -sg)]
                    for z in zs:
                        # nothing recorded about another comparison may have decided the result
                        yield (o, sg), z

    def sign(self, x, c, sg):
        if sg < 0:
            return self.eng.assume(x, cmpv('slt', c, 0, 32), True)
        if sg > 0:
            return self.eng.assume(x, cmpv('slt', 0, c, 32), True)
        return self.eng.assume(x, cmpv('eq', c, 0, 32), True)


def check(chk, part):
    chk.technique = 'abstract interpretation of the compiler IR, class level fixpoint; ' + (
        'ownership typestate of buffers with allocator identity' if part == 'own' else 'provenance of buffer contents, affine sizes')
    chk.headers = ['static_string.hpp']
    chk.assumptions += ['lengths below 2^60 characters', 'swap of unequal allocators that do not propagate is undefined, as for the standard containers']
    mod = build.compile_bc('static_string.cpp')
    for inst in INST:
        SS(chk, mod, inst, part).run()
    chk.require('object_states', chk.counts.get('object_states', 0), 20)
    return ''
