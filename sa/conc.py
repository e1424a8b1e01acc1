"""Thread modular analysis of lock based containers (channel, exchange_channel).

The shared object is described by the set of abstract states in which its mutex is released (a least
fixpoint, starting with the state after construction).  Whenever an operation acquires the mutex,
every released state is possible; fields that some operation writes get fresh values, fields that are
never written after construction keep theirs.  On this ground the monitors below decide
  * which accesses happen under which mutex / atomically           (races)
  * which mutexes are held at the exits                            (lock pairing)
  * what is known when a thread starts to wait, and which notifications follow which change (wakeups)
  * what an operation did to the contents relative to its result   (FIFO / slot)"""
import re
import models
from closure import ObjState
from dom import *
from engine import Engine, State, Unsupported

CH = ('x', 'chan')
CHP = ('p', CH, 0)


def pdem(fn):
    return fn.dem


class Conc:
    def __init__(self, chk, mod, prefix, cls, kind):
        self.chk, self.mod, self.p, self.cls, self.kind = chk, mod, prefix, cls, kind
        self.name = '%s<%s>' % (kind, cls)
        self.eng = e = Engine(mod)
        models.install(e)
        e.trace = False
        e.hooks['arch'] = models.opaque
        self.size = None
        self.pool = {}
        self.written = set()
        self.accesses = {}
        self.waits = {}  # cv -> kinds
        self.waitreads = set()
        self.records = {}
        self.problems = {}
        self.sides = {'append': set(), 'remove': set()}
        self.mode = 'init'
        self.op = None
        self.probing = False
        self.changed = True
        self.ctors = {f.dem: f for f in mod.fns.values()}
        e.hooks['load'] = self.h_load
        e.hooks['store'] = self.h_store
        e.hooks['atomic'] = self.h_atomic
        e.model(r'^pthread_mutex_(lock|trylock|unlock|init|destroy)$', self.m_mutex)
        e.model(r'^pthread_cond_(clockwait|timedwait|wait)$', self.m_pcond)
        e.model(r'^std::condition_variable::(~?condition_variable|notify_one|notify_all|wait)\(', self.m_cv)
        e.model(r'^std::chrono::_V2::\w+_clock::now\(\)', lambda e, s, I, a, f: [('ret', e.gensym(s, 64, 'now', I), s)])
        e.model(r'(^|[ &*])std::deque<arch::\w+, std::allocator<arch::\w+> ?>::', self.m_deque)
        e.model(r'^__errno_location$', self.m_errno)

    # ------------------------------------------------------------ reporting
    def problem(self, cat, what, I=None):
        path = ['%s:%d' % (f.site.file, f.site.line) for f in self.eng.frames if f.site is not None]
        if I is not None:
            path.append(I.loc())
        lib = [p for p in path if '/dice/template-library/' in p]
        key = (cat, self.op, what, lib[-1] if lib else '')
        if key not in self.problems:
            self.problems[key] = path

    # ------------------------------------------------------------ memory
    def held(self, st):
        return st.mon.get('held', ())

    def note(self, st, off, size, write, atomic, I):
        if self.mode == 'init' or self.probing:
            return
        k = (off, size, write, atomic, tuple(sorted(map(repr, self.held(st)))), self.op)
        if k not in self.accesses:
            lib = ['%s:%d' % (f.site.file, f.site.line) for f in self.eng.frames if f.site is not None]
            lib = [p for p in lib if '/dice/template-library/' in p]
            loc = I.loc() if I is not None else ''
            self.accesses[k] = loc if '/dice/template-library/' in loc or not lib else lib[-1]
        if write and type(off) is int:
            for b in range(off, off + size):
                if b not in self.written:
                    self.written.add(b)
                    self.changed = True
        if not write and self.held(st) and type(off) is int:
            st.mon['reads'] = st.mon.get('reads', frozenset()) | {off}

    def h_load(self, eng, st, obj, off, size, I):
        if obj == CH and type(size) is int:
            self.note(st, off, size, False, self.atomic, I)
        return None

    def h_store(self, eng, st, obj, off, size, val, I):
        if obj == CH and type(size) is int:
            self.note(st, off, size, True, self.atomic, I)

    atomic = False

    def h_atomic(self, eng, st, kind, p, ty, val, order, I):
        if p[0] != CH or self.mode == 'init' or self.probing:
            return None
        self.atomic = True
        try:
            off, n = p[1], ty.store
            w = ty.bits or 64
            volatile = type(off) is int and off in self.written and not self.held(st)
            if kind == 'load' or kind.startswith('rmw'):
                old = eng.load(st, CH, off, n, I)
                if volatile:
                    old = eng.gensym(st, ty.store * 8, 'shared%d' % off, I)
                    st.iv[old] = (0, 1)
                    st.mon['seen'] = st.mon.get('seen', frozenset()) | {(off, old)}
                    if w < ty.store * 8:
                        old = trunc(old, ty.store * 8, w)
                if kind == 'load':
                    return old
                op = kind[4:]
                new = val if op == 'xchg' else eng.arith(st, op, old, val, w, I) if op in (
                    'add', 'sub', 'and', 'or', 'xor') else ('o', 'rmw' + op, w, old, val)
            else:
                old, new = 0, val
            before = self.closed(st)
            eng.store(st, CH, off, n, new, I)
            if not self.held(st):
                self.unheld = getattr(self, 'unheld', {})
                self.unheld.setdefault(off, I.loc())
                if self.closed(st) is not False:
                    st.mon['ntf'] = frozenset()
                    self.owe(st, 'close')
            return old
        finally:
            self.atomic = False

    # ------------------------------------------------------------ facts about the shared state
    def closed(self, st):
        self.probing = True
        try:
            outs = self.eng.call(st.copy(), self.p + '_closed', [CHP])
            vs = {self.eng.decide(s, v) for k, v, s in outs}
            return vs.pop() if len(vs) == 1 else None
        finally:
            self.probing = False

    def length(self, st):
        q = self.queue(st)
        return None if q is None else self.qlen(q[1])

    def queue(self, st):
        for k, v in st.mon.items():
            if k.startswith('q:'):
                return k, v
        return None

    @staticmethod
    def qlen(q):
        _, base, fr, bk, pushed = q
        return add(base, (len(pushed) - fr - bk) & mask(64), 64)

    def slot(self, st):
        return [k for k, c in st.live.items() if k[0] == CH and c == self.cls]

    def empty(self, st):
        if self.kind == 'channel':
            return self.eng.decide(st, cmpv('eq', self.length(st), 0, 64))
        return not self.slot(st)

    def full(self, st):
        if self.kind == 'channel':
            r = self.eng.decide(st, cmpv('ult', self.length(st), ('s', 'cap', 64), 64))
            return None if r is None else not r
        return False

    # ------------------------------------------------------------ obligations
    def owe(self, st, change):
        st.mon['owe'] = tuple(sorted(set(st.mon.get('owe', ())) | {change}))

    def settle(self, st, where):
        for c in st.mon.get('owe', ()):
            self.records.setdefault((self.op, c, st.mon.get('ntf', frozenset()), where), True)
        st.mon['owe'] = ()
        st.mon['ntf'] = frozenset()

    # ------------------------------------------------------------ acquire / release
    def acquire(self, st, addr, I):
        """-> states after acquiring"""
        self.settle(st, 'before the mutex is taken again')
        st.mon['held'] = tuple(sorted(self.held(st) + (addr,), key=repr))
        st.mon['reads'] = frozenset()
        if self.mode == 'init' or addr[0] != CH:
            return [st]
        out = []
        for os in list(self.pool.values()):
            s = st.copy()
            self.install(s, os, I)
            s.mon['had'] = self.content(s)
            s.mon['wasclosed'] = self.closed(s)
            out.append(s)
        return out

    def install(self, s, os, I):
        s.mem[CH] = {}
        s._own.add(CH)
        for k in [k for k in s.live if k[0] == CH]:
            del s.live[k]
        self.drop_elems(s)
        for o, n, v in os.cells:
            if v == '?':
                v = self.eng.gensym(s, n * 8, 'field%d' % o, I)
            elif type(v) is tuple and v[0] == 'k':
                v = ('k', 'val', 'slot', self.cls, o)
            elif type(v) is tuple and v[0] == 'self':
                v = ('p', CH, v[1])
            s.mem[CH][o] = (n, v)
        for o, c in os.live:
            s.live[(CH, o)] = c
        q = self.queue(s)
        if q:
            n = self.eng.gensym(s, 64, 'len', I)
            s.mon[q[0]] = ('Q', n, 0, 0, ())

    def drop_elems(self, s):
        """without the mutex any element may be removed by another thread at any time"""
        for o in [o for o in s.objs if o[0] == 'x' and type(o[1]) is tuple and o[1][0] == 'qe']:
            for k in [k for k in s.live if k[0] == o]:
                del s.live[k]
            s.objs.pop(o)
            s.mem.pop(o, None)
            s.mon.pop('c:' + repr(o), None)

    def content(self, st):
        """value in the slot (exchange), None if there is none"""
        if self.kind == 'channel':
            return None
        l = self.slot(st)
        if not l:
            return None
        h = self.eng.hooks.pop('load')
        try:
            return self.eng.load(st, CH, l[0][1], models.SIZES[self.cls])
        finally:
            self.eng.hooks['load'] = h

    def release(self, st, addr, I):
        st.mon['held'] = tuple(a for a in self.held(st) if a != addr)
        if addr[0] != CH or self.mode == 'init':
            return
        self.delta(st)
        st.mon['rel'] = (self.empty(st), self.full(st), self.closed(st))
        self.absorb(st)
        self.drop_elems(st)

    def delta(self, st):
        if self.kind == 'exchange':
            had, now = st.mon.get('had'), self.content(st)
            unspec = type(now) is tuple and now[:2] == ('k', 'unspec') and had is not None
            if type(now) is tuple and now[:2] == ('k', 'moved'):
                self.problem('fifo', 'a value that was taken out stays in the slot')
            if now != had and not unspec:
                if now is not None:
                    self.act(st, 'append', now)
                    if st.mon.get('wasclosed') is not False:
                        self.problem('fifo', 'a value is stored although the channel may be closed')
                    if had is None:
                        self.owe(st, 'append')
                else:
                    self.act(st, 'remove', had)
                    self.owe(st, 'remove')
            st.mon['had'] = now
        if st.mon.get('wasclosed') is False and self.closed(st) is not False:
            self.owe(st, 'close')
        if st.mon.get('wasclosed') is True and self.closed(st) is not True:
            self.problem('fifo', 'a closed channel is opened again')
        st.mon['wasclosed'] = self.closed(st)

    def act(self, st, what, content):
        st.mon['acts'] = st.mon.get('acts', ()) + ((what, content),)

    def absorb(self, st):
        cells = []
        lives = {o: c for (ob, o), c in st.live.items() if ob == CH}
        for o, (s, v) in sorted(st.cells(CH).items(), key=lambda x: repr(x[0])):
            if type(o) is not int or type(s) is not int:
                continue
            v = self.eng.norm(st, v)
            if v == UNDEF:
                continue
            if type(v) is tuple and v[0] == 'p' and v[1] == CH:
                v = ('self', v[2])
            elif type(v) is tuple and v[0] == 'k':
                if o not in lives:
                    continue
                v = ('k', '?')
            elif type(v) is not int and any(b in self.written for b in range(o, o + s)):
                v = '?'
            cells.append((o, s, v))
        os = ObjState(tuple(cells), tuple(sorted(lives.items(), key=repr)))
        if os.key() not in self.pool:
            self.pool[os.key()] = os
            if len(self.pool) > 40:
                raise Unsupported('too many released states')

    # ------------------------------------------------------------ models
    def m_errno(self, eng, st, I, args, fn):
        o = ('x', 'errno')
        if o not in st.objs:
            st.objs[o] = ('x', 4, 4, True, True, 0)
        return [('ret', ('p', o, 0), st)]

    def m_mutex(self, eng, st, I, args, fn):
        name = fn.dem
        if name.endswith('init') or name.endswith('destroy'):
            return [('ret', 0, st)]
        p = eng.ptr(st, args[0], I, 'mutex')
        if p is None:
            return []
        if name.endswith('unlock'):
            if p not in self.held(st):
                self.problem('lock', 'mutex unlocked that is not held', I)
                return [('ret', 0, st)]
            self.release(st, p, I)
            return [('ret', 0, st)]
        if p in self.held(st):
            if name.endswith('trylock'):
                return [('ret', 16, st)]
            self.problem('lock', 'mutex locked again while it is already held', I)
            return []
        outs = []
        if name.endswith('trylock'):
            outs.append(('ret', 16, st.copy()))
        return outs + [('ret', 0, s) for s in self.acquire(st, p, I)]

    def do_wait(self, eng, st, cv, m, I):
        if m not in self.held(st):
            self.problem('lock', 'waiting on a condition variable without holding its mutex', I)
            return []
        self.delta(st)
        e, f, c = self.empty(st), self.full(st), self.closed(st)
        if self.mode != 'init':
            k = 'pop' if self.op.startswith(('pop', 'it_', 'try_pop')) else 'push'
            if k == 'pop' and e is not True or k == 'push' and f is not True:
                self.problem('wake', 'goes to sleep although it is not known that the channel is %s' % (
                    'empty' if k == 'pop' else 'full'), I)
            if c is not False:
                self.problem('wake', 'goes to sleep although the channel may already be closed', I)
            if k not in self.waits.setdefault(cv, set()):
                self.waits[cv].add(k)
            self.waitreads |= set(st.mon.get('reads', ()))
            if len(self.held(st)) > 1:
                self.problem('lock', 'sleeps while holding another mutex', I)
            if self.op.startswith('try_'):
                self.problem('fifo', '%s blocks' % self.op, I)
        self.settle(st, 'before waiting')
        self.release(st, m, I)
        return self.acquire(st, m, I)

    def m_cv(self, eng, st, I, args, fn):
        name = re.search(r'::(~?\w+)\(', fn.dem[len('std::condition_variable'):]).group(1)
        if name.endswith('condition_variable'):
            return [('ret', None, st)]
        p = eng.ptr(st, args[0], I, 'condition variable')
        if p is None:
            return []
        if name.startswith('notify'):
            st.mon['ntf'] = st.mon.get('ntf', frozenset()) | {(p, name[7:])}
            return [('ret', None, st)]
        lk = eng.ptr(st, args[1], I, 'lock')
        m = eng.ptr(st, eng.load(st, lk[0], lk[1], 8, I), I, 'mutex of lock')
        if m is None:
            return []
        return [('ret', None, s) for s in self.do_wait(eng, st, p, m, I)]

    def m_pcond(self, eng, st, I, args, fn):
        p, m = eng.ptr(st, args[0], I, 'cond'), eng.ptr(st, args[1], I, 'mutex')
        outs = []
        for s in self.do_wait(eng, st, p, m, I):
            if not fn.dem.endswith('_wait'):
                outs.append(('ret', 110, s.copy()))
            outs.append(('ret', 0, s))
        return outs

    def m_deque(self, eng, st, I, args, fn):
        m = re.search(r'std::deque<arch::\w+, std::allocator<arch::\w+> ?>::(~?\w+|operator\[\]|operator=)(<.*>)?\((.*)\)', fn.dem)
        if not m:
            return None
        name, targs, sig = m.groups()
        p = eng.ptr(st, args[0], I, 'deque')
        if p is None:
            return []
        key = 'q:' + repr(p)
        if name == 'deque':
            if sig:
                raise Unsupported('deque constructor ' + fn.dem)
            st.mon[key] = ('Q', 0, 0, 0, ())
            return [('ret', None, st)]
        q = st.mon.get(key)
        if q is None:
            raise Unsupported('deque ' + fn.dem)
        if name == '~deque':
            del st.mon[key]
            return [('ret', None, st)]
        write = name not in ('size', 'empty', 'front', 'back', 'operator[]', 'at', 'max_size')
        if p[0] == CH:
            self.note(st, p[1], 80, write, False, I)
        _, base, fr, bk, pushed = q
        n = self.qlen(q)
        if name == 'size':
            return [('ret', n, st)]
        if name == 'empty':
            return [('ret', cmpv('eq', n, 0, 64), st)]
        if name in ('emplace_back', 'push_back', 'emplace_front', 'push_front'):
            return self.q_append(eng, st, I, args, fn, key, name, targs, sig)
        if name in ('front', 'back', 'pop_front', 'pop_back'):
            if eng.decide(st, cmpv('eq', n, 0, 64)) is not False:
                self.problem('fifo', '%s() of a queue that may be empty' % name, I)
                out = []
                sts = eng.assume(st, cmpv('eq', n, 0, 64), False)
            else:
                sts = [st]
            res = []
            for s in sts:
                r = self.q_elem(eng, s, key, name)
                if r is None:
                    raise Unsupported('queue content not tracked')
                o, q2 = r
                if name.startswith('pop'):
                    c = st.mem[o][0][1]
                    self.act(s, 'remove', s.mon.get('c:' + repr(o)))
                    self.sides['remove'].add('front' if name == 'pop_front' else 'back')
                    self.owe(s, 'remove')
                    s.live.pop((o, 0), None)
                    s.objs[o] = s.objs[o][:4] + (False, 0)
                    s.mon.pop('c:' + repr(o), None)
                    s.mon[key] = q2
                    res.append(('ret', None, s))
                else:
                    res.append(('ret', ('p', o, 0), s))
            return res
        if name in ('_M_destroy_data', 'max_size', 'get_allocator'):
            return None
        if name == 'clear':
            if eng.decide(st, cmpv('eq', n, 0, 64)) is not True:
                self.problem('fifo', 'the queue is cleared, which drops elements', I)
            st.mon[key] = ('Q', 0, 0, 0, ())
            return [('ret', None, st)]
        if name == 'shrink_to_fit':
            return [('ret', None, st)]
        raise Unsupported('deque operation ' + fn.dem)

    def q_elem(self, eng, st, key, name):
        _, base, fr, bk, pushed = st.mon[key]
        front = name.endswith('front')
        left = add(base, (-(fr + bk)) & mask(64), 64)
        inbase = eng.decide(st, cmpv('eq', left, 0, 64))
        if type(base) is int and base == 0:
            inbase = True
        if pushed and (not front or inbase is True):
            o = pushed[0] if front else pushed[-1]
            return o, ('Q', base, fr, bk, pushed[1:] if front else pushed[:-1])
        if inbase is not False and pushed:
            return None
        o = ('x', ('qe', base, 'f' if front else 'b', fr if front else bk))
        if o not in st.objs:
            st.objs[o] = ('x', models.SIZES[self.cls], 16, False, True, 0)
            c = ('k', 'val', o[1][2:], self.cls)
            st.mem[o] = {0: (models.SIZES[self.cls], c)}
            st._own.add(o)
            st.live[(o, 0)] = self.cls
            st.mon['c:' + repr(o)] = c
        return o, ('Q', base, fr + (1 if front else 0), bk + (0 if front else 1), pushed)

    def q_append(self, eng, st, I, args, fn, key, name, targs, sig):
        cls = self.cls
        _, base, fr, bk, pushed = st.mon[key]
        n = self.length(st)
        if self.mode != 'init':
            if eng.decide(st, cmpv('ult', n, ('s', 'cap', 64), 64)) is not True:
                self.problem('fifo', 'an element is added although the queue may already be full', I)
            if self.closed(st) is not False:
                self.problem('fifo', 'an element is added although the channel may be closed', I)
        outs = [eng.raise_(st.copy(), '_ZTISt9bad_alloc', I)]
        i = len(pushed)
        o = ('x', ('qe', 'new', i))
        st.objs[o] = ('x', models.SIZES[cls], 16, False, True, 0)
        st.mem[o] = {}
        st._own.add(o)
        argt = sig.strip()
        av = list(args[1:])
        own = 'arch::' + cls
        if argt in (own + ' const&', own + '&'):
            c = self.ctors.get('arch::%s::%s(arch::%s const&)' % (cls, cls, cls))
        elif argt == own + '&&':
            c = self.ctors.get('arch::%s::%s(arch::%s&&)' % (cls, cls, cls))
        elif argt in ('int&', 'int const&', 'int&&'):
            c = self.ctors.get('arch::%s::%s(int)' % (cls, cls))
            p = eng.ptr(st, av[0], I)
            av = [eng.load(st, p[0], p[1], 4, I)]
        else:
            raise Unsupported(fn.dem)
        if c is None:
            raise Unsupported('constructor for ' + fn.dem)
        for k, v, s in eng.call(st, c, [('p', o, 0)] + av, I):
            if k != 'ret':
                s.objs.pop(o, None)
                s.mem.pop(o, None)
                outs.append((k, v, s))
                continue
            b = name.endswith('back')
            q = s.mon[key]
            s.mon[key] = ('Q', q[1], q[2], q[3], q[4] + (o,) if b else (o,) + q[4])
            content = s.mem[o][0][1]
            s.mon['c:' + repr(o)] = content
            self.sides['append'].add('back' if b else 'front')
            if len(pushed):
                self.problem('fifo', 'more than one element is added', I)
            self.act(s, 'append', content)
            self.owe(s, 'append')
            outs.append(('ret', ('p', o, 0), s))
        return outs

    # ------------------------------------------------------------ operations
    def ext(self, st, name):
        o = ('x', name)
        size = models.SIZES[self.cls]
        st.objs[o] = ('x', size, 16, False, True, 0)
        st.mem[o] = {0: (size, ('k', 'val', name, self.cls, 0))}
        st._own.add(o)
        st.live[(o, 0)] = self.cls
        return ('p', o, 0)

    def fresh(self):
        st = State()
        st.objs[CH] = ('x', self.size, 16, False, True, 0)
        st.mon['held'] = ()
        if self.kind == 'channel':
            st.mon[self.qkey] = ('Q', ('s', 'len0', 64), 0, 0, ())
        os = next(iter(self.pool.values()))
        self.install(st, os, None)
        return st

    def unlocked(self, st):
        """before the operation takes the mutex nothing is known about shared fields"""
        return [st]

    def exit(self, kind, v, s, what):
        self.chk.count('obligations')
        if kind == 'end':
            exc = s.mon.get('#exc', ())
            if v[0] == 'terminate' and exc and exc[-1][1] == '_ZTISt9bad_alloc':
                return False
            self.problem('fifo', '%s ends in %s at %s' % (what, v[0], v[1]))
            return False
        if self.held(s):
            self.problem('lock', 'the mutex is still held when %s' % (
                'an exception leaves the operation' if kind == 'throw' else 'the operation returns'))
        self.settle(s, 'when the operation is left' + (' by an exception' if kind == 'throw' else ''))
        return True

    def starts(self):
        """one start state per released state (matters for unlocked atomic reads only)"""
        return [self.fresh()]

    def seen_closed(self, s):
        for off, c in s.mon.get('seen', ()):
            if self.eng.decide(s, cmpv('eq', c, 0, 8)) is False:
                return True
        rel = s.mon.get('rel')
        return bool(rel and rel[2] is True)

    def ops(self):
        eng = self.eng
        X = models.SIZES[self.cls]
        pushes = ['push_copy', 'push_move', 'emplace']
        if self.kind == 'channel':
            pushes += ['try_push_copy', 'try_push_move', 'try_emplace']
        for op in pushes:
            if not self.has(op):
                continue
            self.op = op
            st = self.fresh()
            if op.endswith('emplace'):
                arg = 7
                want = ('k', 'make', self.cls, 7)
            else:
                arg = self.ext(st, 'arg')
                want = ('k', 'val', 'arg', self.cls, 0)
            for kind, v, s in eng.call(st, self.p + '_' + op, [CHP, arg]):
                if not self.exit(kind, v, s, op):
                    continue
                acts = s.mon.get('acts', ())
                if kind == 'throw':
                    if any(a[0] == 'append' for a in acts):
                        self.problem('fifo', 'the element was enqueued although the operation reports an exception')
                    continue
                r = eng.decide(s, v)
                adds = [c for a, c in acts if a == 'append']
                if [a for a in acts if a[0] == 'remove']:
                    self.problem('fifo', 'an element was removed')
                if r is True:
                    if len(adds) != 1:
                        self.problem('fifo', 'returns true but enqueued %d elements' % len(adds))
                    elif adds[0] != want:
                        self.problem('fifo', 'the enqueued value is %s, not the argument' % show(adds[0]))
                elif r is False:
                    if adds:
                        self.problem('fifo', 'returns false but enqueued the element')
                    ok = self.seen_closed(s)
                    if op.startswith('try_'):
                        rel = s.mon.get('rel')
                        ok = ok or bool(rel and rel[1] is True)
                    if not ok:
                        self.problem('fifo', 'returns false although it is not known that the channel is closed' + (
                            ' or full' if op.startswith('try_') else ''))
                else:
                    self.problem('fifo', 'result is not determined')
        for op in ('pop', 'try_pop'):
            self.op = op
            st = self.fresh()
            o = ('x', 'out')
            st.objs[o] = ('x', 64, 16, False, True, 0)
            st.mem[o] = {}
            st._own.add(o)
            for kind, v, s in eng.call(st, self.p + '_' + op, [('p', o, 0), CHP]):
                if not self.exit(kind, v, s, op):
                    continue
                self.popped(kind, s, op, 'out', 'out')
        # iterators
        its = {}
        self.op = 'it_begin'
        st = self.fresh()
        o = ('x', 'it')
        st.objs[o] = ('x', 128, 16, False, True, 0)
        st.mem[o] = {}
        st._own.add(o)
        for kind, v, s in eng.call(st, self.p + '_begin', [('p', o, 0), CHP]):
            if self.exit(kind, v, s, self.op):
                self.iterated(kind, s, 'begin', its)
        done = set()
        while set(its) - done:
            k = (set(its) - done).pop()
            done.add(k)
            for op in ('inc', 'postinc'):
                self.op = 'it_' + op
                st = self.fresh()
                st.objs[o] = ('x', 128, 16, False, True, 0)
                st.mem[o] = {}
                st._own.add(o)
                cells, lives = k
                for off, n, v in cells:
                    st.mem[o][off] = (n, v)
                for off, c in lives:
                    st.live[(o, off)] = c
                for kind, v, s in eng.call(st, self.p + '_' + op, [('p', o, 0)]):
                    if self.exit(kind, v, s, self.op):
                        self.iterated(kind, s, op, its)
        # close
        self.op = 'close'
        for kind, v, s in eng.call(self.fresh(), self.p + '_close', [CHP]):
            if self.exit(kind, v, s, 'close'):
                if s.mon.get('acts'):
                    self.problem('fifo', 'close changes the contents')
                if s.mon.get('rel') and s.mon['rel'][2] is not True or not s.mon.get('rel') and self.closed(s) is not True:
                    self.problem('fifo', 'the channel is not closed afterwards')
        self.op = 'closed'
        for kind, v, s in eng.call(self.fresh(), self.p + '_closed', [CHP]):
            self.exit(kind, v, s, 'closed')
        # destructor: single threaded, from every released state
        self.op = 'dtor'
        self.mode = 'init'
        for os in list(self.pool.values()):
            st = self.fresh()
            self.install(st, os, None)
            for kind, v, s in eng.call(st, self.p + '_dtor', [CHP]):
                if kind != 'ret':
                    self.problem('fifo', 'the destructor does not return normally')
                elif self.slot(s):
                    self.problem('fifo', 'the destructor leaves the stored value alive')
        self.mode = 'run'

    def has(self, op):
        return self.p + '_' + op in self.mod.fns

    def optional(self, s, entry, obj):
        """(engaged?, content) of a std::optional through entry points"""
        h = {k: self.eng.hooks.pop(k) for k in ('load', 'store')}
        try:
            outs = self.eng.call(s.copy(), self.p + '_' + entry + '_has', [('p', ('x', obj), 0)])
            vs = {self.eng.decide(t, v) for _, v, t in outs}
            if vs == {False}:
                return False, None
            if vs != {True}:
                return None, None
            outs = self.eng.call(s.copy(), self.p + '_' + entry + '_val', [('p', ('x', obj), 0)])
            if len(outs) != 1 or outs[0][0] != 'ret':
                return None, None
            v = outs[0][1]
            if s.live.get((v[1], v[2])) != self.cls:
                return True, 'no live object'
            return True, self.eng.load(s, v[1], v[2], models.SIZES[self.cls])
        finally:
            self.eng.hooks.update(h)

    def popped(self, kind, s, op, entry, obj):
        acts = s.mon.get('acts', ())
        rem = [c for a, c in acts if a == 'remove']
        if any(a == 'append' for a, c in acts):
            self.problem('fifo', 'an element was added')
        if len(rem) > 1:
            self.problem('fifo', 'removes %d elements' % len(rem))
        if kind == 'throw':
            if any(k[0] == ('x', obj) for k in s.live) and obj == 'out':
                self.problem('fifo', 'leaves a live element in the result although it throws')
            return
        e, c = self.optional(s, entry, obj)
        if e is None:
            self.problem('fifo', 'result is not determined')
        elif e:
            if not rem:
                self.problem('fifo', 'returns an element without removing one')
            elif c != rem[0]:
                self.problem('fifo', 'returns %s instead of the removed element %s' % (show(c), show(rem[0])))
        else:
            if rem:
                self.problem('fifo', 'an element was removed but not returned')
            rel = s.mon.get('rel')
            if not rel or rel[0] is not True:
                self.problem('fifo', 'returns nothing although the channel may hold an element')
            elif not op.startswith('try_') and rel[2] is not True:
                self.problem('fifo', 'returns nothing although the channel may still be open')

    def iterated(self, kind, s, op, its):
        if kind == 'throw':
            return
        # an iterator's current element is the one just popped
        self.popped(kind, s, 'it_' + op, 'it', 'it')
        o = ('x', 'it')
        cells = []
        lives = tuple(sorted(((off, c) for (ob, off), c in s.live.items() if ob == o), key=repr))
        for off, (n, v) in sorted(s.cells(o).items(), key=repr):
            v = self.eng.norm(s, v)
            if v == UNDEF:
                continue
            if type(v) is tuple and v[0] == 'k':
                if not any(off == l for l, c in lives):
                    continue
                v = ('k', 'val', 'itbuf', self.cls)
            elif type(v) is tuple and v[0] != 'p':
                v = ('s', ('val', 'it', off), n * 8)
            cells.append((off, n, v))
        its.setdefault((tuple(cells), lives), True)

    # ------------------------------------------------------------ everything
    def run(self):
        eng = self.eng
        self.size = eng.call(State(), self.p + '_sizeof', [])[0][1]
        rounds = 0
        while self.changed:
            self.changed = False
            rounds += 1
            if rounds > 12:
                raise RuntimeError('no fixpoint')
            self.mode = 'init'
            self.op = 'ctor'
            st = State()
            st.objs[CH] = ('x', self.size, 16, False, True, 0)
            st.mem[CH] = {}
            st._own.add(CH)
            st.mon['held'] = ()
            args = [CHP] + ([('s', 'cap', 64)] if self.kind == 'channel' else [])
            self.pool.clear()
            for kind, v, s in eng.call(st, self.p + '_ctor', args):
                if kind == 'ret':
                    q = self.queue(s)
                    if self.kind == 'channel':
                        if q is None:
                            raise Unsupported('the channel has no std::deque')
                        self.qkey = q[0]
                    self.absorb(s)
                elif kind == 'end':
                    self.problem('fifo', 'constructor ends in %s' % (v,))
            self.mode = 'run'
            n = -1
            while n != len(self.pool):
                n = len(self.pool)
                self.problems.clear()
                self.records.clear()
                self.accesses.clear()
                eng.viol.clear()
                self.ops()
        self.finish()

    def finish(self):
        chk = self.chk
        # races
        acc = [(k, loc) for k, loc in self.accesses.items()]
        race = {}
        for (o1, s1, w1, a1, h1, op1), l1 in acc:
            if not w1:
                continue
            for (o2, s2, w2, a2, h2, op2), l2 in acc:
                if type(o1) is int and type(o2) is int and (o1 + s1 <= o2 or o2 + s2 <= o1):
                    continue
                if a1 and a2 or set(h1) & set(h2):
                    continue
                race.setdefault((op1, op2), (l1, l2, o1))
        self.race = race
        for (op1, op2), (l1, l2, o) in race.items():
            self.problems.setdefault(('race', op1 + '/' + op2, 'unsynchronised conflicting accesses of the member at '
                                     'offset %s: write at %s, access at %s' % (o, l1, l2), l1), [l1, l2])
        for off, loc in getattr(self, 'unheld', {}).items():
            if off in self.waitreads:
                self.problems.setdefault(('wake', 'close', 'the condition a waiting thread tests under the mutex is changed '
                                         'without holding it', loc), [loc])
        # wakeups
        aff = {'append': ('pop',), 'remove': ('push',), 'close': ('pop', 'push')}
        for (op, change, ntf, where) in self.records:
            chk.count('notification_obligations')
            for cv, kinds in self.waits.items():
                hit = [k for k in kinds if k in aff[change]]
                if not hit:
                    continue
                ok = (cv, 'all') in ntf or ((cv, 'one') in ntf and change != 'close' and len(kinds) == 1)
                if not ok:
                    one = (cv, 'one') in ntf
                    self.problems.setdefault(('wake', op, '%s is not followed by %s on the condition variable a blocked %s '
                                              'waits on (%s)' % ({'append': 'adding an element', 'remove':
                                              'removing an element', 'close': 'closing the channel'}[change],
                                              'notify_all' if one else 'a notification', '/'.join(hit), where), ''), [])
        if self.sides['append'] and self.sides['remove'] and (
                len(self.sides['append']) > 1 or len(self.sides['remove']) > 1 or
                self.sides['append'] == self.sides['remove']):
            self.problems.setdefault(('fifo', 'order', 'elements are added at %s and removed from %s: not first in, first out' % (
                sorted(self.sides['append']), sorted(self.sides['remove'])), ''), [])
        chk.count('released_states', len(self.pool))
        chk.count('shared_accesses', len(self.accesses))
        chk.count('wait_points', len(self.waits))
        chk.engine(self.eng)

    def report(self, cats):
        for (cat, op, what, loc), path in self.problems.items():
            if cat in cats:
                self.chk.violate('%s::%s/%s' % (self.name, op, cat), '%s: %s' % (op, what), loc=loc, path=path)
        for key, v in self.eng.viol.items():
            self.chk.violate('%s/%s@%s' % (self.name, v['kind'], v['fn'].split('(')[0][-60:]), v['msg'], loc=v['loc'],
                             path=v['path'])
