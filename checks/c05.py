import re
import build
import greedy
import models
from closure import ObjState, place
from dom import *
from engine import Engine, State

INSTANCES = [('m', '', 'x'), ('u', '', 'x'), ('s', '', 'x'), ('v', '', 'x'), ('s', '_shared', 's'), ('v', '_shared', 's')]
NAMES = {'m': 'mutex<B>', 'u': 'mutex<B, Lockable>', 's': 'shared_mutex<B>', 'v': 'shared_mutex<B, Lockable>'}


def held(st):
    return st.mon.get('held', ())


class Guards:
    def __init__(self, chk, mod, p, suf, mode):
        self.chk, self.mod, self.p, self.suf, self.mode = chk, mod, p, suf, mode
        self.name = NAMES[p] + (' shared' if suf else '')
        self.eng = e = Engine(mod)
        models.install(e)
        e.hooks['arch'] = models.opaque
        e.model(r'^arch::(Mx)::', self.m_user)
        e.trace = False
        e.model(r'^pthread_mutex_(lock|trylock|unlock|init|destroy)$', self.m_mutex)
        e.model(r'^pthread_rwlock_(wrlock|rdlock|trywrlock|tryrdlock|unlock|init|destroy)$', self.m_rw)
        self.where = ''

    def fail(self, op, what):
        self.chk.violate('%s/%s' % (self.name, op), what)

    # ------------------------------------------------ lock models
    def take(self, st, p, mode, I):
        h = held(st)
        for q, m in h:
            if q == p and (m == 'x' or mode == 'x'):
                return None
        st.mon['held'] = tuple(sorted(h + ((p, mode),), key=repr))
        return st

    def drop(self, eng, st, p, mode, I):
        h = list(held(st))
        for m in ([mode] if mode else ['x', 's']):
            if (p, m) in h:
                h.remove((p, m))
                st.mon['held'] = tuple(h)
                return
        eng.violation('bad-unlock', 'a lock is released that is not held (in that mode)', st, I)

    def m_mutex(self, eng, st, I, args, fn):
        n = fn.dem[len('pthread_mutex_'):]
        if n in ('init', 'destroy'):
            return [('ret', 0, st)]
        p = eng.ptr(st, args[0], I, 'mutex')
        if n == 'unlock':
            self.drop(eng, st, p, 'x', I)
            return [('ret', 0, st)]
        if n == 'lock':
            s = self.take(st, p, 'x', I)
            if s is None:
                eng.violation('deadlock', 'mutex locked while already held', st, I)
                return []
            return [('ret', 0, s)]
        busy = st.copy()
        s = self.take(st, p, 'x', I)
        return [('ret', 16, busy)] + ([('ret', 0, s)] if s else [])

    def m_rw(self, eng, st, I, args, fn):
        n = fn.dem[len('pthread_rwlock_'):]
        if n in ('init', 'destroy'):
            return [('ret', 0, st)]
        p = eng.ptr(st, args[0], I, 'rwlock')
        if n == 'unlock':
            self.drop(eng, st, p, None, I)
            return [('ret', 0, st)]
        mode = 's' if 'rd' in n else 'x'
        if n.startswith('try'):
            busy = st.copy()
            s = self.take(st, p, mode, I)
            return [('ret', 16, busy)] + ([('ret', 0, s)] if s else [])
        s = self.take(st, p, mode, I)
        if s is None:
            eng.violation('deadlock', 'lock taken while already held', st, I)
            return []
        return [('ret', 0, s)]

    def m_user(self, eng, st, I, args, fn):
        n = re.match(r'^arch::Mx::(\w+|~Mx)\(\)', fn.dem).group(1)
        if n == '~Mx':
            return [('ret', None, st)]
        if n == 'Mx':
            return [('ret', None, st.copy()), eng.raise_(st.copy(), 'USER', I)]
        p = eng.ptr(st, args[0], I, 'lockable')
        mode = 's' if n.endswith('_shared') else 'x'
        outs = [] if n.startswith('unlock') else [eng.raise_(st.copy(), 'USER', I)]
        if n.startswith('unlock'):
            self.drop(eng, st, p, mode, I)
            return [('ret', None, st)]
        if n.startswith('try'):
            outs.append(('ret', 0, st.copy()))
            s = self.take(st, p, mode, I)
            return outs + ([('ret', 1, s)] if s else [])
        s = self.take(st, p, mode, I)
        if s is None:
            eng.violation('deadlock', 'lockable locked while already held', st, I)
            return outs
        return outs + [('ret', None, s)]

    # ------------------------------------------------ objects
    def call(self, st, e, *args):
        return self.eng.call(st, self.p + '_' + e, list(args))

    def mutexes(self, st):
        for n in ('m1', 'm2'):
            o = ('x', n)
            st.objs[o] = ('x', self.msize, 16, False, True, 0)
            st.mem[o] = {}
            st._own.add(o)
            for off, s, v in self.mstate.cells:
                st.mem[o][off] = (s, v if type(v) is int else ('k', 'val', n, 'B'))
            for off, c in self.mstate.live:
                st.live[(o, off)] = c
        st.mon['held'] = ()

    def value(self, n):
        return ('p', ('x', n), self.voff)

    def lockaddr(self, h):
        return [(p[0][1], m) for p, m in h]

    def classify(self, st, ptr, op, expect):
        """what destroying the guard at ptr releases; expect = mutex name or None (guard without lock)"""
        outs = self.call(st.copy(), 'gdtor' + self.suf, ptr)
        self.chk.count('obligations')
        if [k for k, v, s in outs] != ['ret']:
            self.fail(op, 'destroying the guard does not return normally')
            return False
        rel = list(self.lockaddr(held(st)))
        for x in self.lockaddr(held(outs[0][2])):
            rel.remove(x)
        want = [(expect, self.mode)] if expect else []
        if rel != want:
            self.fail(op, 'afterwards the guard would release %s when destroyed, expected %s' % (rel or 'nothing', want or 'nothing'))
            return False
        if expect:
            for e in ('gderef', 'garrow'):
                o2 = self.call(st.copy(), e + self.suf, ptr)
                if [(k, v) for k, v, s in o2] != [('ret', self.value(expect))]:
                    self.fail(op, '%s does not give the value of the locked mutex' % e[1:])
                    return False
        return True

    def readg(self, st, obj):
        cells = []
        for off, (s, v) in sorted(st.cells(obj).items(), key=repr):
            v = self.eng.norm(st, v)
            if v == UNDEF:
                continue
            cells.append((off, s, v))
        return tuple(cells)

    def placeg(self, st, name, g):
        o = ('x', name)
        st.objs[o] = ('x', self.gsize, 16, False, True, 0)
        st.mem[o] = {off: (s, v) for off, s, v in (g or ())}
        st._own.add(o)
        return ('p', o, 0)

    def rename(self, g, sub):
        def r(v):
            if type(v) is tuple and v[0] == 'p' and v[1][0] == 'x' and v[1][1] in sub:
                return ('p', ('x', sub[v[1][1]]), v[2])
            return v
        return tuple((o, s, r(v)) for o, s, v in g)

    def add(self, st, obj, owns, trail):
        g = self.readg(st, obj)
        for sub in ({'m1': 'm1', 'm2': 'm2'}, {'m1': 'm2', 'm2': 'm1'}):
            k = (self.rename(g, sub), sub.get(owns))
            if k not in self.states:
                self.states[k] = trail

    def run(self):
        chk, eng = self.chk, self.eng
        self.msize = self.call(State(), 'sizeof')[0][1]
        self.gsize = self.call(State(), 'gsizeof' + self.suf)[0][1]
        # construction and destruction of the mutex itself
        self.mstate = None
        for e in ('ctor_def', 'ctor_copy', 'ctor_move', 'ctor_ip'):
            st = State()
            st.mon['held'] = ()
            p = place(eng, st, 'm', self.msize)
            args = [p]
            want = None
            if e in ('ctor_copy', 'ctor_move'):
                o = ('x', 'arg')
                st.objs[o] = ('x', 16, 16, False, True, 0)
                st.mem[o] = {0: (16, ('k', 'val', 'arg', 'B'))}
                st._own.add(o)
                st.live[(o, 0)] = 'B'
                args.append(('p', o, 0))
                want = ('k', 'val', 'arg', 'B')
            elif e == 'ctor_ip':
                want = ('k', 'make', 'B', 7)
            for k, v, s in self.call(st, e, *args):
                chk.count('obligations')
                l = [(off, c) for (ob, off), c in s.live.items() if ob == ('x', 'm')]
                if k == 'end':
                    self.fail(e, 'constructor ends in %s' % (v,))
                elif k == 'throw':
                    if l:
                        self.fail(e, 'constructor throws but leaves the value alive')
                else:
                    if len(l) != 1 or l[0][1] != 'B':
                        self.fail(e, 'no value was constructed')
                        continue
                    c = eng.load(s, ('x', 'm'), l[0][0], 16)
                    if want and c != want:
                        self.fail(e, 'value is %s, expected %s' % (show(c), show(want)))
                    if held(s):
                        self.fail(e, 'lock held after construction')
                    self.voff = l[0][0]
                    cells = []
                    for off, (n, v2) in sorted(s.cells(('x', 'm')).items(), key=repr):
                        v2 = eng.norm(s, v2)
                        if v2 != UNDEF:
                            cells.append((off, n, v2))
                    self.mstate = ObjState(tuple(cells), tuple(l))
                    for k2, v3, s2 in self.call(s.copy(), 'dtor', p):
                        if k2 != 'ret' or any(ob == ('x', 'm') for ob, _ in s2.live):
                            self.fail('dtor', 'destroying the mutex does not destroy the value')
        if self.mstate is None:
            self.fail('ctor', 'the mutex cannot be constructed')
            return
        self.states = {}
        st = State()
        self.mutexes(st)
        # lock
        p = self.placeg(st, 'g', None)
        other = st.copy()
        n = 0
        for k, v, s in self.call(st.copy(), 'lock' + self.suf, p, ('p', ('x', 'm1'), 0)):
            chk.count('obligations')
            if k == 'throw':
                if held(s):
                    self.fail('lock' + self.suf, 'throws but leaves the mutex locked')
                continue
            if k == 'end':
                self.fail('lock' + self.suf, 'ends in %s' % (v,))
                continue
            n += 1
            if self.lockaddr(held(s)) != [('m1', self.mode)]:
                self.fail('lock' + self.suf, 'returns a guard but holds %s' % (self.lockaddr(held(s)) or 'no lock'))
                continue
            if self.classify(s, p, 'lock' + self.suf, 'm1'):
                self.add(s, ('x', 'g'), 'm1', 'lock')
        if not n:
            self.fail('lock' + self.suf, 'never returns a guard')
        # try_lock
        o = ('x', 'opt')
        st.objs[o] = ('x', 64, 16, False, True, 0)
        st.mem[o] = {}
        st._own.add(o)
        res = set()
        for k, v, s in self.call(st.copy(), 'try_lock' + self.suf, ('p', o, 0), ('p', ('x', 'm1'), 0)):
            chk.count('obligations')
            if k == 'throw':
                if held(s):
                    self.fail('try_lock' + self.suf, 'throws but leaves the mutex locked')
                continue
            if k == 'end':
                self.fail('try_lock' + self.suf, 'ends in %s' % (v,))
                continue
            has = self.call(s.copy(), 'ohas' + self.suf, ('p', o, 0))
            h = {eng.decide(s2, x) for _, x, s2 in has}
            lk = self.lockaddr(held(s))
            res |= h
            if h == {True}:
                if lk != [('m1', self.mode)]:
                    self.fail('try_lock' + self.suf, 'returns a guard but holds %s' % (lk or 'no lock'))
                    continue
                g = self.call(s.copy(), 'oget' + self.suf, ('p', o, 0))[0][1]
                self.classify(s, g, 'try_lock' + self.suf, 'm1')
            elif h == {False}:
                if lk:
                    self.fail('try_lock' + self.suf, 'returns nothing but leaves the mutex locked')
            else:
                self.fail('try_lock' + self.suf, 'result is not determined')
        if res != {True, False}:
            self.fail('try_lock' + self.suf, 'always returns %s' % res)
        # closure over guard states
        done = set()
        while set(self.states) - done:
            new = set(self.states) - done
            for a in sorted(self.states, key=repr):
                if a in new:
                    self.unary(a)
                for b in sorted(self.states, key=repr):
                    if (a in new or b in new) and not (a[1] and a[1] == b[1]):
                        self.binary(a, b)
            done |= new
            if len(self.states) > 40:
                raise RuntimeError('too many guard states')
        chk.count('guard_states', len(self.states))
        chk.engine(eng)
        for key, v in eng.viol.items():
            chk.violate('%s/%s@%s' % (self.name, v['kind'], v['fn'].split('(')[0][-60:]), v['msg'], loc=v['loc'], path=v['path'])

    def start(self, *gs):
        st = State()
        self.mutexes(st)
        h = []
        for name, g in zip('ab', gs):
            self.placeg(st, name, g[0])
            if g[1]:
                h.append(self.lockof(g[1]))
        st.mon['held'] = tuple(sorted(h, key=repr))
        return st

    def lockof(self, m):
        """address of the lock inside mutex m: where lock() acquired it"""
        if not hasattr(self, 'laddr'):
            st = State()
            self.mutexes(st)
            p = self.placeg(st, 'g', None)
            for k, v, s in self.call(st, 'lock' + self.suf, p, ('p', ('x', 'm1'), 0)):
                if k == 'ret' and held(s):
                    self.laddr = held(s)[0][0][1]
        return ((('x', m), self.laddr), self.mode)

    def unary(self, a):
        A = ('p', ('x', 'a'), 0)
        st = self.start(a)
        self.classify(st, A, 'destroy', a[1])
        N = self.placeg(st, 'n', None)
        for k, v, s in self.call(st.copy(), 'gmove' + self.suf, N, A):
            self.chk.count('obligations')
            if k != 'ret':
                self.fail('move constructor', 'does not return normally')
                continue
            if held(s) != held(st):
                self.fail('move constructor', 'changes which locks are held')
                continue
            if self.classify(s, N, 'move constructor', a[1]) and self.classify(s, A, 'move constructor (source)', None):
                self.add(s, ('x', 'n'), a[1], 'move')
                self.add(s, ('x', 'a'), None, 'moved-from')

    def binary(self, a, b):
        A, B = ('p', ('x', 'a'), 0), ('p', ('x', 'b'), 0)
        st = self.start(a, b)
        for k, v, s in self.call(st.copy(), 'gassign' + self.suf, A, B):
            self.chk.count('obligations')
            if k != 'ret':
                self.fail('move assignment', 'does not return normally')
                continue
            want = [(b[1], self.mode)] if b[1] else []
            if self.lockaddr(held(s)) != want:
                self.fail('move assignment', 'afterwards the locks %s are held, expected %s' % (self.lockaddr(held(s)), want))
                continue
            if self.classify(s, A, 'move assignment', b[1]) and self.classify(s, B, 'move assignment (source)', None):
                self.add(s, ('x', 'a'), b[1], 'assigned')
                self.add(s, ('x', 'b'), None, 'assigned-from')
        for e in ('gswap', 'gstdswap'):
            for k, v, s in self.call(st.copy(), e + self.suf, A, B):
                self.chk.count('obligations')
                if k != 'ret':
                    self.fail('swap', 'does not return normally')
                    continue
                if set(held(s)) != set(held(st)):
                    self.fail('swap', 'changes which locks are held')
                    continue
                if self.classify(s, A, 'swap', b[1]) and self.classify(s, B, 'swap', a[1]):
                    self.add(s, ('x', 'a'), b[1], 'swapped')
                    self.add(s, ('x', 'b'), a[1], 'swapped')


def check(chk):
    chk.technique = 'abstract interpretation with a lock typestate; least fixpoint over the states a guard object can reach'
    chk.headers = ['mutex.hpp', 'shared_mutex.hpp']
    chk.assumptions += ['the underlying mutex type behaves as the Lockable/SharedLockable requirements say']
    mod = build.compile_bc('mutex.cpp')
    for p, suf, mode in INSTANCES:
        Guards(chk, mod, p, suf, mode).run()
    chk.require('guard_states', chk.counts.get('guard_states', 0), 12)
    greedy.check(chk, 'mutex.hpp', greedy.MUTEX, greedy.OWN_MUTEX)
    greedy.check(chk, 'shared_mutex.hpp', greedy.SHARED, greedy.OWN_SHARED)
    return ''
