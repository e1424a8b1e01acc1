"""Disjunctive abstract interpretation of LLVM IR (property simulation in the style of ESP):
a worklist dataflow analysis whose lattice is finite sets of abstract stores
(points-to + affine values + intervals + typestate monitors).  Calls are analysed in context,
stores reaching the same program point are merged when equal (or when one subsumes the other at
loop heads), loops are brought to a fixpoint by affine widening.  No solver, no execution."""
import re
import sys
from dom import *
import dom

sys.setrecursionlimit(20000)


import limits
from limits import AnalysisLimit


class Unsupported(Exception):
    pass


class State:
    __slots__ = ('mem', 'objs', 'eqs', 'iv', 'siv', 'ex', 'at', 'mon', 'live', 'used', 'ev', '_own')

    def __init__(self):
        self.mem = {}
        self.objs = {}
        self.eqs = {}
        self.iv = {}
        self.siv = {}
        self.ex = {}
        self.at = {}
        self.mon = {}
        self.live = {}
        self.used = set()
        self.ev = ()
        self._own = set()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.objs = dict(self.objs)
        s.eqs = dict(self.eqs)
        s.iv = dict(self.iv)
        s.siv = dict(self.siv)
        s.ex = dict(self.ex)
        s.at = dict(self.at)
        s.mon = dict(self.mon)
        s.live = dict(self.live)
        s.used = set(self.used)
        s.ev = self.ev
        s._own = set()
        self._own = set()
        return s

    def cells(self, obj, write=False):
        c = self.mem.get(obj)
        if c is None:
            if not write:
                return {}
            c = {}
            self.mem[obj] = c
            self._own.add(obj)
            return c
        if write and obj not in self._own:
            c = dict(c)
            self.mem[obj] = c
            self._own.add(obj)
        return c

    def key(self):
        return (frozenset((o, frozenset(c.items())) for o, c in self.mem.items() if c),
                frozenset(self.objs.items()), frozenset(self.eqs.items()), frozenset(self.iv.items()),
                frozenset(self.siv.items()), frozenset(self.ex.items()), frozenset(self.at.items()),
                frozenset(self.mon.items()), frozenset(self.live.items()), self.ev)


# object descriptor: (kind, size, align, lazy, alive, gen)
class Frame:
    __slots__ = ('fn', 'ctx', 'args', 'allocas', 'env', 'site')


class Engine:
    def __init__(self, mod, max_steps=4000000, max_depth=120):
        self.mod = mod
        self.models = []
        self._mcache = {}
        self.max_steps = max_steps
        self.max_unroll = 64
        self.max_depth = max_depth
        self.steps = 0
        self.ctxs = {}
        self.frames = []
        self.viol = {}
        self.stats = {'calls': 0, 'states': 0, 'events': 0, 'loops_widened': 0, 'outcomes': 0, 'forks': 0}
        self.fns_analysed = set()
        self.unknown = set()
        self.hooks = {}
        limits.engines.append(self)
        self.pinned = []  # terms the check asks about after the call
        self.opaque_default = False
        self.oom = True  # operator new may throw
        self.report_undef = True
        self.ignore_kinds = set()
        self.trace = True

    # ---------------------------------------------------------------- reporting
    def violation(self, kind, msg, st=None, I=None):
        if kind in self.ignore_kinds:
            return
        path = []
        for fr in self.frames:
            if fr.site is not None:
                path.append("%s:%d" % (fr.site.file, fr.site.line))
        loc = ''
        fn = ''
        if I is not None:
            loc = I.loc()
            fn = I.fn.dem if I.fn else ''
            path.append(loc)
        # location: innermost site that lies in the library, for the reader
        lib = [p for p in path if '/dice/template-library/' in p]
        key = (kind, lib[-1] if lib else loc, msg)
        if key not in self.viol:
            limits.found()
            self.viol[key] = {'kind': kind, 'msg': msg, 'loc': lib[-1] if lib else loc, 'site': loc, 'fn': fn,
                              'path': path, 'events': [str(e) for e in (st.ev[-30:] if st else ())]}

    def model(self, rx, h):
        self.models.append((re.compile(rx), h))
        self._mcache.clear()

    def find_model(self, fn):
        r = self._mcache.get(fn.name, 0)
        if r == 0:
            r = None
            for rx, h in reversed(self.models):
                if rx.search(fn.dem):
                    r = h
                    break
            self._mcache[fn.name] = r
        return r

    # ---------------------------------------------------------------- symbols / objects
    def ctxid(self, key):
        r = self.ctxs.get(key)
        if r is None:
            r = len(self.ctxs)
            self.ctxs[key] = r
        return r

    def gensym(self, st, w, hint, I=None):
        ctx = self.frames[-1].ctx if self.frames else 0
        site = (ctx, I.id if I is not None else -1, hint)
        k = 0
        while (site, k) in st.used:
            k += 1
        st.used.add((site, k))
        return ('s', (site, k, hint + (str(k) if k else '')), w)

    def newobj(self, st, kind, size, I=None, hint='', align=1, lazy=False):
        ctx = self.frames[-1].ctx if self.frames else 0
        site = (kind, ctx, I.id if I is not None else hint)
        k = 0
        while site + (k,) in st.objs:
            k += 1
        o = site + (k,)
        st.objs[o] = (kind, size, align, lazy, True, 0)
        st.mem[o] = {}
        st._own.add(o)
        return o

    def extobj(self, st, name, size=None, align=16, lazy=True):
        o = ('x', name)
        st.objs[o] = ('x', size, align, lazy, True, 0)
        return o

    # ---------------------------------------------------------------- facts
    def norm(self, st, v):
        if type(v) is int:
            return v
        if st.eqs:
            return rewrite(v, st.eqs)
        return v

    def interval(self, st, v, w):
        """unsigned interval of v"""
        if type(v) is int:
            return v, v
        lo, hi = 0, mask(w)
        f = st.iv.get(v)
        if f:
            lo, hi = f
        k = v[0]
        if k == 'o':
            op = v[1]
            if op == 'zext':
                a = self.interval(st, v[3], v[4])
                lo, hi = max(lo, a[0]), min(hi, a[1])
            elif op == 'and' and type(v[4]) is int:
                a = self.interval(st, v[3], w)
                hi = min(hi, v[4], a[1])
            elif op == 'urem' and type(v[4]) is int and v[4]:
                hi = min(hi, v[4] - 1)
            elif op == 'urem':
                a = self.interval(st, v[3], w)
                hi = min(hi, a[1])
            elif op == 'lshr' and type(v[4]) is int:
                a = self.interval(st, v[3], w)
                lo, hi = max(lo, a[0] >> v[4]), min(hi, a[1] >> v[4])
            elif op == 'udiv' and type(v[4]) is int and v[4]:
                a = self.interval(st, v[3], w)
                lo, hi = max(lo, a[0] // v[4]), min(hi, a[1] // v[4])
            elif op == 'trunc':
                a = self.interval(st, v[3], v[4])
                if a[1] <= mask(w):
                    lo, hi = max(lo, a[0]), min(hi, a[1])
        elif k == 'l':
            l, h = v[2], v[2]
            m = mask(w)
            if len(v[3]) and sgn(v[2], w) < 0:
                l = h = sgn(v[2], w)
            for t, c in v[3]:
                a = self.interval(st, t, w)
                if sgn(c, w) >= 0:
                    l += c * a[0]
                    h += c * a[1]
                else:
                    c = sgn(c, w)
                    l += c * a[1]
                    h += c * a[0]
            if l >= 0 and h <= m:
                lo, hi = max(lo, l), min(hi, h)
        elif k in ('p', 'f'):
            lo = max(lo, 1)
        s = st.siv.get(v)
        if s and s[0] >= 0:
            lo, hi = max(lo, s[0]), min(hi, s[1])
        e = st.ex.get(v)
        if e:
            while lo in e and lo < hi:
                lo += 1
            while hi in e and hi > lo:
                hi -= 1
        return lo, hi

    def sinterval(self, st, v, w):
        if type(v) is int:
            v = sgn(v, w)
            return v, v
        half = 1 << (w - 1)
        lo, hi = -half, half - 1
        s = st.siv.get(v)
        if s:
            lo, hi = s
        u = self.interval(st, v, w)
        if u[1] < half:
            lo, hi = max(lo, u[0]), min(hi, u[1])
        elif u[0] >= half:
            lo, hi = max(lo, u[0] - 2 * half), min(hi, u[1] - 2 * half)
        if v[0] == 'o' and v[1] == 'sext':
            a = self.sinterval(st, v[3], v[4])
            lo, hi = max(lo, a[0]), min(hi, a[1])
        e = st.ex.get(v)
        if e:
            while (lo & mask(w)) in e and lo < hi:
                lo += 1
            while (hi & mask(w)) in e and hi > lo:
                hi -= 1
        return lo, hi

    def decide(self, st, v):
        """True / False / None for a one-bit value"""
        v = self.norm(st, v)
        if type(v) is int:
            return bool(v & 1)
        k = v[0]
        if k == 'not':
            r = self.decide(st, v[1])
            return None if r is None else not r
        if k == 'cmp':
            r = st.at.get(v)
            if r is not None:
                return r
            _, pred, w, a, b = v
            h = self.hooks.get('decide')
            if h:
                r = h(self, st, pred, w, a, b)
                if r is not None:
                    return r
            if pred == 'eq':
                if type(b) is int:
                    e = st.ex.get(a)
                    if e and b in e:
                        return False
                la, ha = self.interval(st, a, w)
                lb, hb = self.interval(st, b, w)
                if ha < lb or hb < la:
                    return False
                if la == ha == lb == hb:
                    return True
                if type(b) is int and type(a) is tuple and a[0] == 'l':
                    pass
                x = st.at.get(('cmp', 'ult', w, a, b))
                y = st.at.get(('cmp', 'ult', w, b, a))
                if x or y:
                    return False
                if x is False and y is False:
                    return True
                x = st.at.get(('cmp', 'slt', w, a, b))
                y = st.at.get(('cmp', 'slt', w, b, a))
                if x or y:
                    return False
                if x is False and y is False:
                    return True
                # affine form against known orderings of its two sides: c + x - y == 0
                if type(a) is tuple and a[0] == 'l' and len(a[3]) == 2 and type(b) is int:
                    (t1, k1), (t2, k2) = a[3]
                    m = mask(w)
                    rhs = (b - a[2]) & m
                    if k2 == 1 and k1 == m:
                        t1, t2, k1, k2 = t2, t1, k2, k1
                    if k1 == 1 and k2 == m and rhs == 0:
                        return self.decide(st, cmpv('eq', t1, t2, w))
                return None
            if pred == 'ult':
                la, ha = self.interval(st, a, w)
                lb, hb = self.interval(st, b, w)
                if ha < lb:
                    return True
                if la >= hb:
                    return False
                y = st.at.get(('cmp', 'ult', w, b, a))
                if y:
                    return False
                e = self._eqfact(st, a, b, w)
                if e is True:
                    return False
                if y is False and e is False:
                    return True
                # a < b where b = a + c, no wrap known through intervals
                d = sub(b, a, w)
                if type(d) is int and d:
                    if sgn(d, w) > 0:
                        if ha + d <= mask(w):
                            return True
                    else:
                        if hb + (-d & mask(w)) <= mask(w):
                            return False
                r = self._trans(st, 'ult', a, b, w)
                if r is not None:
                    return r
                return None
            la, ha = self.sinterval(st, a, w)
            lb, hb = self.sinterval(st, b, w)
            if ha < lb:
                return True
            if la >= hb:
                return False
            y = st.at.get(('cmp', 'slt', w, b, a))
            if y:
                return False
            e = self._eqfact(st, a, b, w)
            if e is True:
                return False
            if y is False and e is False:
                return True
            d = sub(b, a, w)
            if type(d) is int and d:
                d = sgn(d, w)
                top = (1 << (w - 1)) - 1
                if d > 0 and ha + d <= top:
                    return True
                if d < 0 and hb - d <= top:
                    return False
            return self._trans(st, 'slt', a, b, w)
        if k == 'o':
            op = v[1]
            if op == 'and' and v[2] == 1:
                a, b = self.decide(st, v[3]), self.decide(st, v[4])
                if a is False or b is False:
                    return False
                if a and b:
                    return True
                return None
            if op == 'or' and v[2] == 1:
                a, b = self.decide(st, v[3]), self.decide(st, v[4])
                if a or b:
                    return True
                if a is False and b is False:
                    return False
                return None
        r = st.at.get(v)
        if r is not None:
            return r
        f = st.iv.get(v)
        if f and f[0] == f[1]:
            return bool(f[0])
        return None

    def _trans(self, st, pred, a, b, w):
        """one-step transitivity through recorded atoms: a<c, c<=b etc."""
        m = mask(w)
        if st.at.get(('cmp', pred, w, sub(b, 1, w), a)):
            return False
        for at, tv in st.at.items():
            if at[0] != 'cmp' or at[1] != pred or at[2] != w:
                continue
            x, y = at[3], at[4]
            if tv and x == a:
                # a < y ; b >= y ?
                r = st.at.get(('cmp', pred, w, b, y))
                if r is False:
                    return True
                if st.at.get(('cmp', pred, w, y, b)):
                    return True
            if tv is False and y == a:
                # a <= x ; x < b ?
                if st.at.get(('cmp', pred, w, x, b)):
                    return True
            if tv is False and x == a and y != b:
                # a >= y; y >= b -> not a<b
                if st.at.get(('cmp', pred, w, y, b)) is False:
                    return False
        return None

    def _eqfact(self, st, a, b, w):
        c = cmpv('eq', a, b, w)
        if type(c) is int:
            return bool(c)
        r = st.at.get(c)
        if r is not None:
            return r
        if c[0] == 'cmp' and type(c[4]) is int:
            e = st.ex.get(c[3])
            if e and c[4] in e:
                return False
        return None

    def assume(self, st, v, truth):
        """-> list of states (st is consumed)"""
        v = self.norm(st, v)
        if type(v) is int:
            return [st] if bool(v & 1) == truth else []
        d = self.decide(st, v)
        if d is not None:
            return [st] if d == truth else []
        k = v[0]
        if k == 'not':
            return self.assume(st, v[1], not truth)
        if k == 'o' and v[1] in ('and', 'or') and v[2] == 1:
            conj = (v[1] == 'and') == truth
            if conj:
                r = []
                for s in self.assume(st, v[3], truth):
                    r += self.assume(s, v[4], truth)
                return r
            r = []
            s2 = st.copy()
            r += self.assume(st, v[3], truth)
            for s in self.assume(s2, v[3], not truth):
                r += self.assume(s, v[4], truth)
            return r
        if k == 'o' and v[1] == 'xor' and v[2] == 1:
            s2 = st.copy()
            r = []
            for s in self.assume(st, v[3], True):
                r += self.assume(s, v[4], not truth)
            for s in self.assume(s2, v[3], False):
                r += self.assume(s, v[4], truth)
            return r
        if k == 'o' and v[1] == 'trunc' and v[2] == 1:
            lo, hi = self.interval(st, v[3], v[4])
            if hi <= 1:
                return self.assume(st, cmpv('eq', v[3], 1 if truth else 0, v[4]), True)
        if k == 'cmp':
            _, pred, w, a, b = v
            h = self.hooks.get('assume')
            if h:
                h(self, st, pred, w, a, b, truth)
            if pred == 'eq':
                if truth:
                    return [st] if self.equate(st, a, b, w) else []
                if type(b) is int:
                    st.ex[a] = st.ex.get(a, frozenset()) | {b}
                    lo, hi = self.interval(st, a, w)
                    if lo == hi:
                        return [st] if self.equate(st, a, lo, w) else []
                    if a[0] == 'l' or (type(a) is tuple and a[0] == 'o'):
                        st.at[v] = False
                else:
                    st.at[v] = False
                return [st]
            if not truth and st.at.get(('cmp', pred, w, b, a)) is False:
                return [st] if self.equate(st, a, b, w) else []
            st.at[v] = truth
            sgnd = pred == 'slt'
            fi = self.sinterval if sgnd else self.interval
            la, ha = fi(st, a, w)
            lb, hb = fi(st, b, w)
            if truth:
                ha = min(ha, hb - 1)
                lb = max(lb, la + 1)
            else:
                la = max(la, lb)
                hb = min(hb, ha)
            if la > ha or lb > hb:
                return []
            dst = st.siv if sgnd else st.iv
            for t, l, h in ((a, la, ha), (b, lb, hb)):
                if type(t) is int:
                    continue
                if dst.get(t) != (l, h):
                    full = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sgnd else (0, mask(w))
                    if (l, h) != full:
                        dst[t] = (l, h)
                    if t[0] == 'o' and t[1] == 'zext' and not sgnd:
                        st.iv[t[3]] = (l, min(h, mask(t[4])))
                    if t[0] == 'o' and t[1] == 'sext' and sgnd:
                        st.siv[t[3]] = (l, h)
                    if t[0] == 'l' and len(t[3]) == 1 and t[3][0][1] == 1 and not sgnd:
                        pass
                if l == h:
                    if not self.equate(st, t, l & mask(w), w):
                        return []
            return [st]
        st.at[v] = truth
        if width(v, 1) == 1:
            st.eqs[v] = int(truth)
        return [st]

    def equate(self, st, a, b, w):
        """add a == b; False if contradictory"""
        a, b = self.norm(st, a), self.norm(st, b)
        if a == b:
            return True
        c = cmpv('eq', a, b, w)
        if type(c) is int:
            return bool(c)
        if c[0] == 'not':
            return bool(self.assume(st, c[1], False))
        _, _, w, a, b = c
        if type(b) is int:
            if b in st.ex.get(a, ()):
                return False
            lo, hi = self.interval(st, a, w)
            if not lo <= b <= hi:
                return False
            slo, shi = self.sinterval(st, a, w)
            if not slo <= sgn(b, w) <= shi:
                return False
        d = self.decide(st, c)
        if d is False:
            return False
        # orient: prefer replacing a symbol
        tgt = val = None
        if a[0] == 'l':
            for t, k in a[3]:
                if k == 1 or k == mask(w):
                    rest = fromlin(a[2], {x: y for x, y in a[3] if x != t}, w)
                    r = sub(b, rest, w)
                    val = r if k == 1 else neg(r, w)
                    tgt = t
                    if t[0] == 's':
                        break
            if tgt is None:
                st.at[c] = True
                return True
        elif a[0] == 's' or type(b) is int:
            tgt, val = a, b
        elif type(b) is tuple and b[0] == 's':
            tgt, val = b, a
        else:
            tgt, val = a, b
        if self._occurs(tgt, val):
            st.at[c] = True
            return True
        return self._subst(st, tgt, val, w)

    def _occurs(self, t, v):
        if t == v:
            return True
        if type(v) is tuple:
            return any(self._occurs(t, x) for x in v if type(x) is tuple)
        return False

    def _subst(self, st, tgt, val, w):
        # intersect what is known about both sides
        lo, hi = self.interval(st, tgt, w)
        slo, shi = self.sinterval(st, tgt, w)
        ex = st.ex.pop(tgt, None)
        st.iv.pop(tgt, None)
        st.siv.pop(tgt, None)
        if type(val) is int:
            if not lo <= val <= hi or not slo <= sgn(val, w) <= shi:
                return False
        else:
            l2, h2 = self.interval(st, val, w)
            l, h = max(lo, l2), min(hi, h2)
            if l > h:
                return False
            if (l, h) != (0, mask(w)) and (l, h) != (l2, h2):
                st.iv[val] = (l, h)
            l2, h2 = self.sinterval(st, val, w)
            l, h = max(slo, l2), min(shi, h2)
            if l > h:
                return False
            if (l, h) != (l2, h2):
                st.siv[val] = (l, h)
            if ex:
                st.ex[val] = st.ex.get(val, frozenset()) | ex
        st.eqs[tgt] = val
        one = {tgt: val}
        again = []
        for k, x in list(st.eqs.items()):
            if k != tgt:
                x = st.eqs[k] = rewrite(x, one)
                if k[0] != 's':
                    nk = rewrite(k, one)
                    if nk != k:
                        del st.eqs[k]
                        again.append((nk, x, width(k)))
        # rewrite recorded facts
        def fact(name):
            d = getattr(st, name)
            for t in list(d):
                if t != val:
                    n = rewrite(t, one)
                    if n is not t and n != t:
                        yield d, t, n
        for d, t, n in list(fact('at')):
            tv = d.pop(t)
            r = self.assume(st, n, tv) if True else None
            if not r:
                return False
        for d, t, n in list(fact('iv')):
            l, h = d.pop(t)
            if type(n) is int:
                if not l <= n <= h:
                    return False
            else:
                l2, h2 = self.interval(st, n, width(n))
                l, h = max(l, l2), min(h, h2)
                if l > h:
                    return False
                d[n] = (l, h)
        for d, t, n in list(fact('siv')):
            l, h = d.pop(t)
            if type(n) is int:
                if not l <= sgn(n, width(t)) <= h:
                    return False
            else:
                l2, h2 = self.sinterval(st, n, width(n))
                l, h = max(l, l2), min(h, h2)
                if l > h:
                    return False
                d[n] = (l, h)
        for d, t, n in list(fact('ex')):
            e = d.pop(t)
            if type(n) is int:
                if n in e:
                    return False
            else:
                d[n] = d.get(n, frozenset()) | e
        for nk, x, w2 in again:
            if w2 == 1 and nk[0] in ('cmp', 'not', 'o'):
                if not self.assume(st, nk, bool(x & 1) if type(x) is int else True) if type(x) is int else False:
                    return False
            elif not self.equate(st, nk, x, w2):
                return False
        return True

    # ---------------------------------------------------------------- memory
    def ptr(self, st, v, I=None, what='access'):
        """-> (obj, off) or None"""
        v = self.norm(st, v)
        if type(v) is int:
            if v == 0:
                self.violation('null-deref', 'null pointer dereferenced (%s)' % what, st, I)
            else:
                self.violation('wild-deref', 'constant address dereferenced', st, I)
            return None
        if v == UNDEF:
            self.violation('undef-deref', 'uninitialised pointer dereferenced (%s)' % what, st, I)
            return None
        if v[0] == 'p':
            o = st.objs.get(v[1])
            if o is None and v[1][0] == 'g':
                self.globobj(st, v[1][1])
                o = st.objs.get(v[1])
            if o is None:
                self.violation('dangling', 'access to %s after its lifetime ended' % showobj(v[1]), st, I)
                return None
            if not o[4]:
                self.violation('dangling', 'access to freed/ended %s' % showobj(v[1]), st, I)
                return None
            return v[1], v[2]
        if v[0] in ('s', 'o', 'k'):
            obj = ('x', v)
            if obj not in st.objs:
                st.objs[obj] = ('x', None, 16, True, True, 0)
                st.ex[v] = st.ex.get(v, frozenset()) | {0}
            return obj, 0
        if v[0] == 'l':
            # base + offset: the base is the single atom with coefficient 1 of pointer provenance
            base = [t for t, k in v[3] if k == 1]
            if base:
                cand = [t for t in base if ('x', t) in st.objs] or base[:1]
                t = cand[0]
                obj = ('x', t)
                if obj not in st.objs:
                    st.objs[obj] = ('x', None, 16, True, True, 0)
                rest = fromlin(v[2], {x: y for x, y in v[3] if x != t}, 64)
                return obj, rest
        if v[0] == 'f':
            self.violation('wild-deref', 'function address dereferenced', st, I)
            return None
        raise Unsupported('pointer value %s' % show(v))

    def _far(self, st, o1, s1, o2, s2):
        """True when [o1,o1+s1) and [o2,o2+s2) are certainly disjoint"""
        if type(o1) is int and type(o2) is int:
            a, b = sgn(o1, 64), sgn(o2, 64)
            if type(s1) is int and a + s1 <= b:
                return True
            if type(s2) is int and b + s2 <= a:
                return True
            return False
        d = sub(o1, o2, 64)
        if type(d) is int:
            d = sgn(d, 64)
            if d >= 0:
                return type(s2) is int and d >= s2
            return type(s1) is int and -d >= s1
        return False

    def extract(self, val, size, bo, n):
        """n bytes at byte offset bo of a value of `size` bytes"""
        if bo == 0 and n == size:
            return val
        if type(val) is int:
            return (val >> (8 * bo)) & mask(8 * n)
        if val == UNDEF:
            return UNDEF
        if val[0] == 'o' and val[1] == 'concat':
            out, pos = [], 0
            for s, v in zip(val[3::2], val[4::2]):
                lo, hi = max(pos, bo), min(pos + s, bo + n)
                if lo < hi:
                    out.append((hi - lo, self.extract(v, s, lo - pos, hi - lo)))
                pos += s
            if out:
                return self.concat(out)
        if val[0] == 'k':
            if val[1] == 'part':
                return ('k', 'part', val[2], val[3] + bo, n)
            return ('k', 'part', val, bo, n)
        if bo == 0 and type(size) is int:
            return trunc(val, size * 8, n * 8)
        if val[0] == 'o' and val[1] == 'extract':
            return ('o', 'extract', n * 8, val[3], val[4] + bo * 8)
        return ('o', 'extract', n * 8, val, bo * 8)

    def concat(self, parts):
        """parts: [(size, val)] low to high"""
        if len(parts) == 1:
            return parts[0][1]
        if all(type(v) is int for _, v in parts):
            r = 0
            sh = 0
            for s, v in parts:
                r |= v << sh
                sh += 8 * s
            return r
        if all(v == UNDEF for _, v in parts):
            return UNDEF
        tot = sum(s for s, _ in parts)
        # reassembly of the pieces of one value
        b = None
        pos = 0
        ok = True
        for s, v in parts:
            if type(v) is tuple and v[0] == 'k' and v[1] == 'part' and v[3] == pos:
                nb = v[2]
            elif type(v) is tuple and v[0] == 'o' and v[1] == 'extract' and v[4] == 8 * pos:
                nb = v[3]
            elif type(v) is tuple and v[0] == 'o' and v[1] == 'trunc' and pos == 0:
                nb = v[3]
            else:
                ok = False
                break
            if b is None:
                b = nb
            elif b != nb:
                ok = False
                break
            pos += s
        if ok and b is not None:
            if width(b) == tot * 8:
                return b
            if b[0] == 'k':
                return ('k', 'part', b, 0, tot)
        flat = []
        for s, v in parts:
            if type(v) is tuple and v[0] == 'o' and v[1] == 'concat':
                flat += list(zip(v[3::2], v[4::2]))
            else:
                flat.append((s, v))
        # parts that were never written stay unknown; using such a value other than by moving it around is an error
        return ('o', 'concat', tot * 8) + tuple(x for p in flat for x in p)

    def load(self, st, obj, off, size, I=None):
        h = self.hooks.get('load')
        if h:
            r = h(self, st, obj, off, size, I)
            if r is not None:
                return r
        info = st.objs[obj]
        cells = st.cells(obj)
        c = cells.get(off)
        if c is not None and c[0] == size:
            return self.norm(st, c[1])
        if type(off) is int:
            so = sgn(off, 64)
            if info[1] is not None and type(info[1]) is int and type(size) is int and (
                    so < 0 or so + size > info[1]):
                self.violation('oob', 'read of %s bytes at offset %s of %s (size %s)' % (size, so, showobj(obj),
                                                                                        info[1]), st, I)
                return UNDEF
        over = []
        for o, (s, v) in cells.items():
            if not self._far(st, o, s, off, size):
                over.append((o, s, v))
        if not over:
            if info[0] == 'g':
                r = self.global_load(st, obj, off, size)
                if r is not None:
                    return r
            if info[3]:
                v = ('s', ('init', obj, off, size, info[5]), size * 8)
                self.hook_init(st, obj, off, size, v)
                st.cells(obj, True)[off] = (size, v)
                return self.norm(st, v)
            return UNDEF
        if type(off) is not int or any(type(o) is not int or type(s) is not int for o, s, _ in over):
            return self.gensym(st, size * 8, 'mem', I)
        over.sort()
        parts = []
        pos = off
        end = off + size
        for o, s, v in over:
            if o > pos:
                gap = o - pos
                parts.append((gap, self._gap(st, obj, pos, gap, info)))
                pos = o
            a = pos - o
            n = min(o + s, end) - pos
            parts.append((n, self.norm(st, self.extract(v, s, a, n))))
            pos += n
        if pos < end:
            parts.append((end - pos, self._gap(st, obj, pos, end - pos, info)))
        return self.concat(parts)

    def _gap(self, st, obj, off, n, info):
        if info[0] == 'g':
            r = self.global_load(st, obj, off, n)
            if r is not None:
                return r
        if info[3]:
            v = ('s', ('init', obj, off, n, info[5]), n * 8)
            self.hook_init(st, obj, off, n, v)
            st.cells(obj, True)[off] = (n, v)
            return v
        return UNDEF

    def hook_init(self, st, obj, off, size, v):
        h = self.hooks.get('init')
        if h:
            h(self, st, obj, off, size, v)

    def store(self, st, obj, off, size, val, I=None):
        h = self.hooks.get('store')
        if h and h(self, st, obj, off, size, val, I):
            return
        info = st.objs[obj]
        if info[0] == 'g' and self.mod.globals.get(obj[1], (0, 0, False))[2]:
            self.violation('const-write', 'write to constant %s' % showobj(obj), st, I)
            return
        cells = st.cells(obj, True)
        if type(off) is int:
            so = sgn(off, 64)
            if info[1] is not None and type(info[1]) is int and type(size) is int and (so < 0 or so + size > info[1]):
                self.violation('oob', 'write of %s bytes at offset %s of %s (size %s)' % (size, so, showobj(obj),
                                                                                         info[1]), st, I)
                return
        if type(off) is int and self.partial(val):
            o = off
            for n, v in zip(val[3::2], val[4::2]):
                self.store(st, obj, o, n, v, I)
                o += n
            return
        c = cells.get(off)
        if c is None or c[0] != size:
            self.clobber(st, obj, off, size)
            cells = st.cells(obj, True)
        elif any(type(o) is not int for o in cells):
            self.clobber(st, obj, off, size)
            cells = st.cells(obj, True)
        cells[off] = (size, val)

    def clobber(self, st, obj, off, size):
        """forget [off, off+size) of obj"""
        cells = st.cells(obj, True)
        info = st.objs[obj]
        whole = False
        for o, (s, v) in list(cells.items()):
            if self._far(st, o, s, off, size):
                continue
            del cells[o]
            if type(o) is int and type(off) is int and type(s) is int and type(size) is int:
                if o < off:
                    cells[o] = (off - o, self.extract(v, s, 0, off - o))
                if o + s > off + size:
                    cells[off + size] = (o + s - off - size, self.extract(v, s, off + size - o, o + s - off - size))
            else:
                whole = True
        if (type(off) is not int or type(size) is not int) and info[3]:
            st.objs[obj] = info[:5] + (info[5] + 1,)

    def havoc(self, st, obj):
        info = st.objs[obj]
        st.mem[obj] = {}
        st._own.add(obj)
        st.objs[obj] = info[:3] + (True,) + (info[4], info[5] + 1)

    def copymem(self, st, do, doff, so, soff, n, I=None):
        """constant size copy"""
        if n == 0:
            return
        info = st.objs[so]
        if type(soff) is not int or type(doff) is not int:
            v = self.load(st, so, soff, n, I) if n <= 16 else self.gensym(st, n * 8, 'copy', I)
            self.store(st, do, doff, n, v, I)
            return
        if info[1] is not None and type(info[1]) is int and soff + n > info[1]:
            self.violation('oob', 'copy of %d bytes at offset %d of %s (size %s)' % (n, soff, showobj(so), info[1]), st,
                           I)
            return
        pieces = []
        pos = soff
        end = soff + n
        if info[0] == 'g':
            self.global_fill(st, so)
        for o, (s, v) in sorted(((o, c) for o, c in st.cells(so).items() if type(o) is int), key=lambda x: x[0]):
            if type(s) is not int:
                continue
            if o + s <= pos or o >= end:
                continue
            if o > pos:
                pieces += self._chunks(st, so, pos, o - pos, info)
                pos = o
            k = min(o + s, end) - pos
            pieces.append((pos, k, self.extract(v, s, pos - o, k)))
            pos += k
        if pos < end:
            pieces += self._chunks(st, so, pos, end - pos, info)
        for o, s, v in pieces:
            if v == UNDEF:
                self.store(st, do, doff + o - soff, s, v, I)
                st.cells(do, True).pop(doff + o - soff, None)
                if st.objs[do][3]:
                    st.cells(do, True)[doff + o - soff] = (s, UNDEF)
            else:
                self.store(st, do, doff + o - soff, s, v, I)

    def _chunks(self, st, obj, off, n, info):
        out = []
        while n:
            k = 8
            while k > n or off % k:
                k //= 2
            out.append((off, k, self._gap(st, obj, off, k, info)))
            off += k
            n -= k
        return out

    # ---- globals
    def globobj(self, st, name):
        o = ('g', name)
        if o not in st.objs:
            g = self.mod.globals.get(name)
            size = g[0].size if g else None
            lazy = not (g and g[1])
            st.objs[o] = ('g', size, 16, lazy, True, 0)
            if g and g[1] and not g[2]:
                self.global_fill(st, o)
        return o

    def global_fill(self, st, obj):
        g = self.mod.globals.get(obj[1])
        if not g or not g[1] or obj in st.mem and st.mem[obj].get('#filled'):
            return
        op = self.mod.operand(g[1])
        cells = {}
        self._flat(st, op, g[0], 0, cells)
        c = st.cells(obj, True)
        for o, x in cells.items():
            c.setdefault(o, x)

    def _flat(self, st, op, ty, off, cells):
        k = op[0]
        if k == 'agg':
            t = op[1]
            if t.k == 'struct':
                for (o, et), e in zip(t.elts, op[2]):
                    self._flat(st, e, et, off + o, cells)
            else:
                for i, e in enumerate(op[2]):
                    self._flat(st, e, t.elt, off + i * t.stride, cells)
        elif k == 'zero':
            t = op[1]
            n = t.size
            o = off
            while n > 0:
                s = 8
                while s > n or o % s:
                    s //= 2
                cells[o] = (s, 0)
                o += s
                n -= s
        else:
            cells[off] = (ty.store, self.opval(st, op, ty))

    def global_load(self, st, obj, off, size):
        g = self.mod.globals.get(obj[1])
        if not g or not g[1] or not g[2]:
            return None
        if type(off) is not int:
            return None
        if not st.cells(obj):
            self.global_fill(st, obj)
            if st.cells(obj):
                return self.load(st, obj, off, size)
        return None

    # ---------------------------------------------------------------- operands
    def opval(self, st, o, ty=None):
        k = o[0]
        if k == 'c':
            return o[1]
        if k == 'f':
            return ('f', o[1])
        if k == 'g':
            ob = self.globobj(st, o[1])
            return ('p', ob, o[2])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(o[1])
        if k == 'agg':
            return ('agg', tuple(self.opval(st, x) for x in o[2]))
        if k == 'fp':
            return ('o', 'fp', 64, o[1])
        if k in ('md', 'asm', 'cx', 'bb'):
            return ('o', 'cx', 64, str(o[1]) if len(o) > 1 else '')
        raise Unsupported(str(o))

    def zero(self, t):
        if t.k == 'struct':
            return ('agg', tuple(self.zero(e) for _, e in t.elts))
        if t.k in ('array', 'vector'):
            return ('agg', tuple(self.zero(t.elt) for _ in range(t.n)))
        return 0

    def val(self, st, env, o):
        if o[0] == 'r' or o[0] == 'a':
            v = env[o]
            if st.eqs and type(v) is not int:
                return rewrite(v, st.eqs)
            return v
        if o[0] == 'agg':
            return ('agg', tuple(self.val(st, env, x) for x in o[2]))
        return self.opval(st, o)

    # ---------------------------------------------------------------- calls
    def call(self, st, fn, args, I=None):
        """analyse fn from st; -> [(kind, value, state)]"""
        if type(fn) is str:
            fn = self.mod.fns[fn]
        self.stats['calls'] += 1
        if len(self.frames) > self.max_depth:
            raise AnalysisLimit('call depth in %s' % fn.dem)
        h = self.find_model(fn)
        if h is not None:
            r = h(self, st, I, args, fn)
            if r is not None:
                self.stats['events'] += 1
                return r
        if fn.decl:
            h = self.hooks.get('extern')
            if h:
                r = h(self, st, I, args, fn)
                if r is not None:
                    return r
            self.unknown.add(fn.dem)
            raise Unsupported('no model for external function %s' % fn.dem)
        return self.run(st, fn, args, I)

    def run(self, st, fn, args, I=None):
        blocks = self.mod.body(fn)
        self.fns_analysed.add(fn.name)
        fr = Frame()
        fr.fn = fn
        pctx = self.frames[-1].ctx if self.frames else 0
        fr.ctx = self.ctxid((pctx, fn.name, I.id if I is not None else -1))
        for f in self.frames:
            if f.fn is fn and sum(1 for g in self.frames if g.fn is fn) > 12:
                raise AnalysisLimit('recursion of %s' % fn.dem)
        fr.site = I
        fr.allocas = set()
        env = {('a', i): a for i, a in enumerate(args)}
        fr.env = env
        outs = []
        outkeys = set()
        self.frames.append(fr)
        base_objs = None
        try:
            work = [(0, 0, None, env, st)]
            seen = {}
            loops = {}
            while work:
                bi, ii, prev, env, st = work.pop()
                blk = blocks[bi]
                if ii == 0:
                    self.stats['states'] += 1
                    if blk.phis:
                        vals = []
                        for p in blk.phis:
                            for src, o in p.ops:
                                if src == prev:
                                    vals.append((('r', p.id), self.val(st, env, o)))
                                    break
                        env = dict(env)
                        env.update(vals)
                    if blk.loophead:
                        env = {k: v for k, v in env.items() if k in blk.live_in}
                        r = self.at_loop(fr, blk, env, st, loops)
                        if r is None:
                            continue
                        env, st = r
                    elif len(blk.preds) > 1:
                        env = {k: v for k, v in env.items() if k in blk.live_in}
                        key = (frozenset(env.items()), st.key())
                        s = seen.setdefault(bi, set())
                        if key in s:
                            continue
                        s.add(key)
                fr.env = env
                self.step_block(fr, blk, ii, env, st, work, outs, outkeys)
        finally:
            self.frames.pop()
        self.stats['outcomes'] += len(outs)
        return outs

    def leave(self, fr, st, I):
        """stack objects of this activation die"""
        for o in [o for o in st.objs if o[0] == 'stack' and o[1] == fr.ctx]:
            self.endobj(st, o, I, 'end of scope')
            st.objs.pop(o, None)
            st.mem.pop(o, None)

    def endobj(self, st, o, I, why):
        h = self.hooks.get('endobj')
        dead = [k for k in st.live if k[0] == o]
        for k in dead:
            if h:
                h(self, st, o, k, st.live[k], I, why)
            else:
                self.violation('leak', 'storage of live %s object ends without its destructor (%s)' % (st.live[k], why),
                               st, I)
            del st.live[k]

    def out(self, outs, outkeys, kind, v, st):
        if type(v) is tuple and kind == 'ret':
            v = self.norm(st, v)
        try:
            k = (kind, v, st.key())
            if k in outkeys:
                return
            outkeys.add(k)
        except TypeError:
            pass
        outs.append((kind, v, st))

    def at_loop(self, fr, blk, env, st, loops):
        limits.check()
        self.gc(env, st)
        lst = loops.setdefault(blk.i, [])
        pre = ('W', fr.ctx, blk.i)
        for e2, s2 in lst:
            if self.subsumes(e2, s2, env, st, pre):
                return None
        same = [x for x in lst if self.shape(x[1]) == self.shape(st) and x[0].keys() == env.keys()]
        # a loop that a concrete counter ends is unrolled, up to a bound
        counted = st.mon.pop('~count%d:%d' % (fr.ctx, blk.i), 0) and len(same) < self.max_unroll and \
            self.counter(same[-1][0], env, same[-1][1], st) if same else False
        if counted:
            pass
        elif len(same) >= 3:
            # a widened state that differs only in what is known about its values: forget that
            for e2, s2 in reversed(same):
                r = self.subsumes(e2, s2, env, st, pre, weaken=True)
                if r:
                    lst.append((dict(e2), r.copy()))
                    return dict(e2), r
        if len(same) >= 2 and not counted:
            r = self.widen(same[-1], (env, st), pre)
            if r is not None:
                self.stats['loops_widened'] += 1
                env, st = r
                for e2, s2 in lst:
                    if self.subsumes(e2, s2, env, st, pre):
                        return None
        if len(lst) > 400:
            raise AnalysisLimit('loop in %s does not stabilise' % fr.fn.dem)
        lst.append((dict(env), st.copy()))
        return env, st

    def counter(self, env1, env2, st1, st2):
        def differ(a, b):
            if type(a) is int and type(b) is int:
                return a != b
            return type(a) is tuple and type(b) is tuple and a[0] == 'p' == b[0] and a[1] == b[1] and type(a[2]) is int and \
                type(b[2]) is int and a[2] != b[2]
        if any(differ(env1[r], env2[r]) for r in env2):
            return True
        for o, c in st2.mem.items():
            if o[0] == 'stack':
                c1 = st1.mem.get(o, {})
                if c1 is not c and any(k in c1 and differ(c1[k][1], v) for k, (_, v) in c.items()):
                    return True
        return False

    def shape(self, st):
        return (frozenset((k, v) for k, v in st.mon.items() if k[0][0] != '~'),
                frozenset(st.objs), frozenset(st.live.items()))

    def roots(self, env, st, out):
        for e in [f.env for f in self.frames[:-1]] + [env]:
            for v in e.values():
                atoms(v, out)
        for o, c in st.mem.items():
            atoms(o, out)
            for k, (s, v) in c.items():
                atoms(v, out)
                if type(k) is tuple:
                    atoms(k, out)
                if type(s) is tuple:
                    atoms(s, out)
        for v in st.mon.values():
            if type(v) is tuple:
                atoms(v, out)
        for k in st.live:
            atoms(k, out)
        atoms(st.ev, out)
        for o in st.objs:
            atoms(o, out)
        for v in self.pinned:
            atoms(v, out)

    def gc(self, env, st):
        # apply equalities everywhere first, so that bound symbols disappear
        if st.eqs:
            for k, v in env.items():
                env[k] = rewrite(v, st.eqs)
            for o in list(st.mem):
                c = st.mem[o]
                if any(type(v) is tuple for _, v in c.values()):
                    st.mem[o] = {k: (s, rewrite(v, st.eqs)) for k, (s, v) in c.items()}
                    st._own.add(o)
            for k, v in st.mon.items():
                if type(v) is tuple and v and v[0] in ('s', 'l', 'o', 'p'):
                    st.mon[k] = rewrite(v, st.eqs)
        ref = set()
        self.roots(env, st, ref)
        for d in (st.eqs, st.iv, st.siv, st.ex, st.at):
            for t in list(d):
                a = set()
                atoms(t, a)
                if not a <= ref:
                    del d[t]
        st.used = {(r[1][0], r[1][1]) for r in ref if type(r[1]) is tuple and len(r[1]) == 3}

    def widen(self, old, new, pre):
        env1, st1 = old
        env2, st2 = new
        n = ('s', (pre, 0, 'n'), 64)
        k = 0
        ref = set()
        self.roots(env1, st1, ref)
        while ('s', (pre, k, 'n'), 64) in ref:
            k += 1
        idx = [k]
        N = {}

        def wsym(w):
            if w not in N:
                N[w] = ('s', (pre, idx[0], 'n'), w)
            return N[w]

        tops = [0]
        changed = set()
        gens = {}

        def gen(a, b, w):
            if a == b:
                return a
            if type(a) is tuple and type(b) is tuple and a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                o = gen(a[2], b[2], 64)
                return None if o is None else ('p', a[1], o)
            if type(a) is tuple and type(b) is tuple and a[0] == 'agg' and b[0] == 'agg' and len(a[1]) == len(b[1]):
                xs = [gen(x, y, 64) for x, y in zip(a[1], b[1])]
                return None if any(x is None for x in xs) else ('agg', tuple(xs))
            if a == UNDEF or b == UNDEF:
                return UNDEF
            for x in (a, b):
                if type(x) is tuple and x[0] in ('p', 'f', 'k', 'agg'):
                    return None
            d = sub(b, a, w)
            for x in (a, b):
                atoms(x, changed)
            if type(d) is int:
                # a + d*N : N keeps one width-64 counter, truncated for narrower values
                s = wsym(64)
                t = s if w == 64 else trunc(s, 64, w)
                g = add(a, mul(t, d, w), w)
                gens[g] = (a, b, w)
                return g
            tops[0] += 1
            return ('s', (pre, 1000 + tops[0], 'top'), w)

        env = {}
        wd = self.regwidths(self.frames[-1].fn)
        for r in env2:
            g = gen(env1[r], env2[r], wd.get(r, 64))
            if g is None:
                return None
            env[r] = g
        st = st2.copy()
        for o in st2.mem:
            c1 = st1.mem.get(o, {})
            c2 = st2.mem[o]
            if c1 == c2:
                continue
            c = {}
            for off, (s, v) in c2.items():
                if off in c1 and c1[off][0] == s:
                    g = gen(c1[off][1], v, s * 8 if type(s) is int else 64)
                    if g is None:
                        return None
                    c[off] = (s, g)
                elif off not in c1:
                    if st2.objs[o][3]:
                        continue  # lazily initialised cell: forget it
                    continue
                else:
                    return None
            st.mem[o] = c
            st._own.add(o)
        for k2, v in st2.mon.items():
            v1 = st1.mon.get(k2)
            if v1 != v:
                if k2[0][0] != '~':
                    return None
                g = gen(v1, v, 64) if v1 is not None else None
                if g is None:
                    return None
                st.mon[k2] = g
        # keep only facts valid in both
        for name in ('eqs', 'at', 'ex', 'iv', 'siv'):
            d1, d2 = getattr(st1, name), getattr(st2, name)
            d = {}
            for t, x in d2.items():
                if t in d1:
                    y = d1[t]
                    if name in ('iv', 'siv'):
                        lo, hi = min(x[0], y[0]), max(x[1], y[1])
                        if (lo, hi) == x == y:
                            d[t] = x
                    elif name == 'ex':
                        e = x & y
                        if e:
                            d[t] = e
                    elif x == y:
                        d[t] = x
            setattr(st, name, d)
        # candidate invariants: a generalised value does not exceed a bound it was compared with
        bounds = set()
        for d1, d2, pred in ((st1.iv, st2.iv, 'ult'), (st1.siv, st2.siv, 'slt')):
            for t, x in d2.items():
                if d1.get(t) != x:
                    bounds.add((pred, width(t), t))
        for c in st2.at:
            if c[0] == 'cmp' and c[1] in ('ult', 'slt'):
                bounds.add((c[1], c[2], c[3]))
                bounds.add((c[1], c[2], c[4]))
        if len(bounds) <= 64:
            for g, (a, b, w) in gens.items():
                for pred, w2, t in bounds:
                    if w2 == w and type(g) is tuple and t != g:
                        c = cmpv(pred, t, g, w)
                        if type(c) is tuple and c[0] == 'cmp' and self.decide(st1, cmpv(pred, t, a, w)) is False \
                                and self.decide(st2, cmpv(pred, t, b, w)) is False and c not in st.at:
                            st.at[c] = False
        return env, st

    def regwidths(self, fn):
        c = getattr(self, '_rw', None)
        if c is None:
            c = self._rw = {}
        r = c.get(fn.name)
        if r is None:
            r = {}
            for i, t in enumerate(fn.ptys):
                r[('a', i)] = t.bits or 64
            for b in fn.blocks:
                for I in b.phis + b.insts:
                    r[('r', I.id)] = I.ty.bits or 64
            c[fn.name] = r
        return r

    def subsumes(self, e1, s1, e2, s2, pre, weaken=False):
        """is (e2,s2) an instance of (e1,s1)?  widening symbols of this loop in s1 may be instantiated"""
        if e1.keys() != e2.keys() or s1.objs != s2.objs or s1.live != s2.live or s1.ev != s2.ev:
            return False
        if s1.mon.keys() != s2.mon.keys():
            return False
        todo = []
        wd = self.regwidths(self.frames[-1].fn)

        def iswid(t):
            return type(t) is tuple and t[0] == 's' and type(t[1]) is tuple and t[1][0] == pre

        # the widening symbols of s1 are renamed apart: s2 may use the same names for its own values
        ref = set()
        self.roots(e1, s1, ref)
        ren = {t: ('s', t[1] + ('^',), t[2]) for t in ref if iswid(t)}
        fixed = set()

        def wids(v):
            if not ren or type(v) is not tuple:
                return ()
            a = set()
            atoms(v, a)
            return [t for t in a if t in ren]

        def same(v):
            if ren:
                fixed.update(wids(v))

        def match(a, b, w):
            if a != b or wids(a):
                todo.append((rewrite(a, ren) if ren and type(a) is tuple else a, b, w))

        if ren:
            for x in s1.objs.items():
                same(x)
            for x in s1.live.items():
                same(x)
            same(s1.ev)
        for r in e1:
            match(e1[r], e2[r], wd.get(r, 64))
        for k in s1.mon:
            if k[0][0] != '~':
                if s1.mon[k] != s2.mon[k]:
                    return False
                same(s1.mon[k])
            else:
                match(s1.mon[k], s2.mon[k], 64)
        for o in set(s1.mem) | set(s2.mem):
            c1, c2 = s1.mem.get(o, {}), s2.mem.get(o, {})
            if c1 is c2 and not ren:
                continue
            lazy = s1.objs[o][3] if o in s1.objs else False
            for off in set(c1) | set(c2):
                x, y = c1.get(off), c2.get(off)
                if x is None:
                    continue  # s1 knows nothing (or undef) there
                if y is None:
                    if lazy:
                        if type(off) is int and x[1] == ('s', ('init', o, off, x[0], s1.objs[o][5]), x[0] * 8):
                            continue
                    return False
                if x[0] != y[0]:
                    return False
                same(off)
                same(x[0])
                match(x[1], y[1], x[0] * 8 if type(x[0]) is int else 64)
        sig = {}

        def isw(t):
            return iswid(t) and t[1][-1] == '^'

        def ws(v, out):
            a = set()
            atoms(v, a)
            for t in a:
                if isw(t):
                    out.add(t)

        prog = True
        while todo and prog:
            prog = False
            rest = []
            for a, b, w in todo:
                a2 = rewrite(a, sig) if type(a) is tuple else a
                if a2 == b:
                    prog = True
                    continue
                if a2 == UNDEF:
                    prog = True
                    continue
                if type(a2) is tuple and a2[0] == 'p':
                    if type(b) is not tuple or b[0] != 'p' or b[1] != a2[1]:
                        return False
                    a2, b2 = a2[2], b[2]
                    w = 64
                else:
                    b2 = b
                if type(a2) is int:
                    return False
                if a2[0] == 'agg':
                    if type(b2) is tuple and b2[0] == 'agg' and len(b2[1]) == len(a2[1]):
                        rest += [(x, y, 64) for x, y in zip(a2[1], b2[1])]
                        prog = True
                        continue
                    return False
                out = set()
                ws(a2, out)
                if not out:
                    return False
                if isw(a2):
                    if type(b2) is tuple and b2[0] in ('p', 'f', 'k', 'agg', 'u'):
                        return False
                    sig[a2] = b2
                    prog = True
                    continue
                if len(out) == 1:
                    s = next(iter(out))
                    c, d = tolin(a2, w)
                    cand = [t for t in d if self._occurs(s, t)]
                    if len(cand) != 1:
                        return False
                    k = sgn(d[cand[0]], w)
                    if cand[0] != s:
                        # truncated counter
                        rest.append((a, b, w))
                        continue
                    base = fromlin(c, {t: x for t, x in d.items() if t != s}, w)
                    diff = sub(b2, base, w)
                    cc, dd = tolin(diff, w)
                    cc = sgn(cc, w)
                    if cc % k or any(sgn(x, w) % k for x in dd.values()):
                        return False
                    sig[s] = fromlin(cc // k, {t: sgn(x, w) // k for t, x in dd.items()}, w)
                    prog = True
                    continue
                rest.append((a, b, w))
            todo = rest
        if todo:
            # truncated counters and the like: fall back to syntactic check after substitution
            for a, b, w in todo:
                if rewrite(a, sig) != b:
                    return False
        if ren:
            for t in fixed:
                if sig.get(ren[t], t) != t:
                    return False
            inst = {t: sig.get(t2, t) for t, t2 in ren.items()}
            back = {t2: inst[t] for t, t2 in ren.items()}

            def tr(v):
                return rewrite(rewrite(v, ren), back) if type(v) is tuple else v
        else:
            def tr(v):
                return v
        # facts of s1 must hold in s2
        lost = []
        for t, x in s1.eqs.items():
            if ren or s2.eqs.get(t) != x:
                if self.norm(s2, tr(t)) != self.norm(s2, tr(x)):
                    lost.append(('eqs', t))
                    if not weaken:
                        return False
        for t, tv in s1.at.items():
            if not ren and s2.at.get(t) == tv:
                continue
            if self.decide(s2, tr(t)) is not tv:
                lost.append(('at', t))
                if not weaken:
                    return False
        for t, e in s1.ex.items():
            t2 = tr(t)
            if e <= s2.ex.get(t2, frozenset()):
                continue
            w = width(t)
            if not all(self.decide(s2, cmpv('eq', t2, c, w)) is False for c in e):
                lost.append(('ex', t))
                if not weaken:
                    return False
        for name, f in (('iv', self.interval), ('siv', self.sinterval)):
            for t, (l, h) in getattr(s1, name).items():
                a = f(s2, tr(t), width(t))
                if a[0] < l or a[1] > h:
                    lost.append((name, t))
                    if not weaken:
                        return False
        if weaken:
            s = s1.copy()
            for name, t in lost:
                getattr(s, name).pop(t, None)
            return s
        return True

    # ---------------------------------------------------------------- instructions
    def step_block(self, fr, blk, ii, env, st, work, outs, outkeys):
        insts = blk.insts
        n = len(insts)
        env = dict(env)
        fr.env = env
        while ii < n:
            I = insts[ii]
            self.steps += 1
            if self.steps > self.max_steps:
                raise AnalysisLimit('step budget')
            op = I.op
            if op == 'call' or op == 'invoke':
                if self.do_call(fr, blk, ii, I, env, st, work, outs, outkeys):
                    return
                # simple continuation: env updated in place
                ii += 1
                if op == 'invoke':
                    work.append((I.x[0], 0, blk.i, env, st))
                    return
                continue
            if op == 'load':
                if I.ty.k in ('struct', 'array', 'vector'):
                    v = self.load_agg(st, env, I)
                    if v is None:
                        return
                    env[('r', I.id)] = v
                    ii += 1
                    continue
                p = self.ptr(st, self.val(st, env, I.ops[0]), I, 'load')
                if p is None:
                    return
                h = self.hooks.get('atomic')
                v = None
                if h and I.x[0]:
                    v = h(self, st, 'load', p, I.ty, None, I.x[0], I)
                if v is None:
                    v = self.load(st, p[0], p[1], I.ty.store, I)
                    if I.ty.bits and I.ty.bits < I.ty.store * 8:
                        v = trunc(v, I.ty.store * 8, I.ty.bits)
                    if I.ty.k == 'int' and v == UNDEF and self.report_undef and I.ty.bits in (1, 8):
                        pass
                env[('r', I.id)] = v
                ii += 1
                continue
            if op == 'store':
                p = self.ptr(st, self.val(st, env, I.ops[1]), I, 'store')
                if p is None:
                    return
                v = self.val(st, env, I.ops[0])
                h = self.hooks.get('atomic')
                if h and I.x[1]:
                    if h(self, st, 'store', p, I.x[0], v, I.x[1], I) is not None:
                        ii += 1
                        continue
                self.store_ty(st, p, v, I.x[0], I)
                ii += 1
                continue
            if op == 'gep':
                b = self.val(st, env, I.ops[0])
                c, dyn = I.x
                for o, sc, w in dyn:
                    x = self.val(st, env, o)
                    if w < 64:
                        x = sext(x, w, 64)
                    b = add(b, mul(x, sc & mask(64), 64), 64)
                if c:
                    b = add(b, c & mask(64), 64)
                env[('r', I.id)] = b
                ii += 1
                continue
            if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
                a, b = self.val(st, env, I.ops[0]), self.val(st, env, I.ops[1])
                h = self.hooks.get('arith')
                if h:
                    h(self, st, I, a, b)
                if I.ty.k == 'vector':
                    v = self.gensym(st, 64, 'vec', I)
                else:
                    v = self.arith(st, op, a, b, I.x[0], I)
                env[('r', I.id)] = v
                ii += 1
                continue
            if op == 'icmp':
                a, b = self.val(st, env, I.ops[0]), self.val(st, env, I.ops[1])
                w = I.x[1].bits or 64
                a, b = UNDEF if self.partial(a) else a, UNDEF if self.partial(b) else b
                h = self.hooks.get('icmp')
                if h:
                    h(self, st, I, a, b)
                v = cmpv(I.x[0], a, b, w)
                if type(v) is tuple and v != UNDEF:
                    d = self.decide(st, v)
                    if d is not None:
                        v = int(d)
                env[('r', I.id)] = v
                ii += 1
                continue
            if op in ('zext', 'sext', 'trunc'):
                v = self.val(st, env, I.ops[0])
                w0, w = I.x.bits, I.ty.bits
                if self.partial(v):
                    if op == 'trunc' and w0 % 8 == 0:
                        n = (w + 7) // 8
                        v, w0 = self.extract(v, w0 // 8, 0, n), n * 8
                    if self.partial(v) and w0 != w:
                        v = UNDEF
                h = self.hooks.get('cast') if w0 != w else None
                r = h(self, st, op, v, w0, w) if h else None
                if r is not None:
                    env[('r', I.id)] = r
                    ii += 1
                    continue
                if w0 != w:
                    v = {'zext': zext, 'sext': sext, 'trunc': trunc}[op](v, w0, w)
                if op == 'sext' and type(v) is tuple and v[0] == 'o' and v[1] == 'sext':
                    a = self.interval(st, v[3], v[4])
                    if a[1] < 1 << (v[4] - 1):
                        v = zext(v[3], v[4], w)
                if op == 'trunc' and type(v) is tuple and v[0] == 'o' and v[1] == 'trunc' and w > 1:
                    pass
                env[('r', I.id)] = v
                ii += 1
                continue
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
                v = self.val(st, env, I.ops[0])
                if op == 'ptrtoint' and I.ty.bits < 64:
                    v = trunc(v, 64, I.ty.bits)
                env[('r', I.id)] = v
                ii += 1
                continue
            if op == 'br':
                if not I.ops:
                    work.append((I.x[0], 0, blk.i, env, st))
                    return
                c = self.val(st, env, I.ops[0])
                if c == UNDEF:
                    self.violation('undef-branch', 'branch on uninitialised value', st, I)
                    return
                d = self.decide(st, c)
                if d is not None:
                    for h in blk.exits:
                        if type(c) is int:
                            st.mon['~count%d:%d' % (fr.ctx, h)] = 1
                    work.append((I.x[0] if d else I.x[1], 0, blk.i, env, st))
                    return
                self.stats['forks'] += 1
                s2 = st.copy()
                for s in self.assume(s2, c, False):
                    work.append((I.x[1], 0, blk.i, env, s))
                for s in self.assume(st, c, True):
                    work.append((I.x[0], 0, blk.i, env, s))
                return
            if op == 'switch':
                c = self.val(st, env, I.ops[0])
                if c == UNDEF:
                    self.violation('undef-branch', 'switch on uninitialised value', st, I)
                    return
                w = I.x[2].bits
                if type(c) is int:
                    t = I.x[0]
                    for k, b in I.x[1]:
                        if k == c:
                            t = b
                            break
                    work.append((t, 0, blk.i, env, st))
                    return
                cur = [st]
                for k, b in I.x[1]:
                    nxt = []
                    for s in cur:
                        s2 = s.copy()
                        for t in self.assume(s, cmpv('eq', c, k, w), True):
                            work.append((b, 0, blk.i, env, t))
                        nxt += self.assume(s2, cmpv('eq', c, k, w), False)
                    cur = nxt
                for s in cur:
                    work.append((I.x[0], 0, blk.i, env, s))
                return
            if op == 'ret':
                v = self.val(st, env, I.ops[0]) if I.ops else None
                self.leave(fr, st, I)
                self.out(outs, outkeys, 'ret', v, st)
                return
            if op == 'resume':
                v = self.val(st, env, I.ops[0])
                self.leave(fr, st, I)
                self.out(outs, outkeys, 'throw', self.exc_of(st, v[1][0]), st)
                return
            if op == 'unreachable':
                self.violation('unreachable', 'control reaches an unreachable point', st, I)
                return
            if op == 'alloca':
                n_ = self.val(st, env, I.x[1])
                size = I.x[0].size * n_ if type(n_) is int else None
                o = ('stack', fr.ctx, I.id, 0)
                st.objs[o] = ('stack', size, 16, False, True, 0)
                st.mem[o] = {}
                st._own.add(o)
                env[('r', I.id)] = ('p', o, 0)
                ii += 1
                continue
            if op == 'select':
                c = self.val(st, env, I.ops[0])
                d = self.decide(st, c) if c != UNDEF else None
                if c == UNDEF:
                    self.violation('undef-branch', 'select on uninitialised value', st, I)
                    return
                if d is not None:
                    env[('r', I.id)] = self.val(st, env, I.ops[1 if d else 2])
                    ii += 1
                    continue
                s2 = st.copy()
                for s in self.assume(s2, c, False):
                    e2 = dict(env)
                    e2[('r', I.id)] = self.val(s, env, I.ops[2])
                    work.append((blk.i, ii + 1, None, e2, s))
                for s in self.assume(st, c, True):
                    e2 = dict(env)
                    e2[('r', I.id)] = self.val(s, env, I.ops[1])
                    work.append((blk.i, ii + 1, None, e2, s))
                return
            if op == 'extractvalue':
                v = self.val(st, env, I.ops[0])
                for k in I.x[:-1]:
                    v = v[1][k] if v != UNDEF else UNDEF
                env[('r', I.id)] = v
                ii += 1
                continue
            if op == 'insertvalue':
                a = self.val(st, env, I.ops[0])
                v = self.val(st, env, I.ops[1])
                env[('r', I.id)] = self.insval(a, v, I.x[:-1], I.x[-1])
                ii += 1
                continue
            if op == 'landingpad':
                exc = env['exc']
                r = self.landing(st, I, exc)
                for sel, s in r[1:]:
                    e2 = dict(env)
                    e2[('r', I.id)] = ('agg', (exc[2], sel))
                    work.append((blk.i, ii + 1, None, e2, s))
                sel, st = r[0]
                env[('r', I.id)] = ('agg', (exc[2], sel))
                ii += 1
                continue
            if op == 'atomicrmw':
                r = self.rmw(st, env, I)
                if r is None:
                    return
                ii += 1
                continue
            if op == 'cmpxchg':
                r = self.cmpxchg(st, env, I)
                if r is None:
                    return
                for v, s in r[1:]:
                    e2 = dict(env)
                    e2[('r', I.id)] = v
                    work.append((blk.i, ii + 1, None, e2, s))
                env[('r', I.id)], st = r[0]
                ii += 1
                continue
            if op == 'fence':
                ii += 1
                continue
            if op == 'fcmp':
                a, b = self.val(st, env, I.ops[0]), self.val(st, env, I.ops[1])
                env[('r', I.id)] = ('o', 'fcmp%d' % I.x[0], 1, a, b)
                ii += 1
                continue
            # everything else is an uninterpreted pure operation
            if op in ('fneg', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc',
                      'fpext', 'extractelement', 'insertelement', 'shufflevector'):
                vs = tuple(self.val(st, env, o) for o in I.ops)
                env[('r', I.id)] = UNDEF if all(v == UNDEF for v in vs) else ('o', op, I.ty.bits or 64) + vs
                ii += 1
                continue
            raise Unsupported('instruction %s at %s' % (op, I.loc()))

    @staticmethod
    def partial(v):
        """a value of which some bytes were never written"""
        return type(v) is tuple and v[0] == 'o' and v[1] == 'concat' and UNDEF in v[4::2]

    def octets(self, v, w):
        """the bytes of v, low to high: numbers, UNDEF or (value, size, index)"""
        n = w // 8
        if type(v) is int:
            return [v >> 8 * i & 255 for i in range(n)]
        if v == UNDEF:
            return [UNDEF] * n
        if v[0] == 'o' and v[1] == 'zext' and v[4] % 8 == 0:
            return self.octets(v[3], v[4]) + [0] * (n - v[4] // 8)
        if v[0] == 'o' and v[1] == 'shl' and type(v[4]) is int and v[4] % 8 == 0 and v[4] < w:
            return ([0] * (v[4] // 8) + self.octets(v[3], w))[:n]
        if v[0] == 'o' and v[1] == 'concat':
            r = []
            for k, x in zip(v[3::2], v[4::2]):
                r += self.octets(x, k * 8)
            return r
        return [(v, n, i) for i in range(n)]

    def unoctets(self, r):
        parts = []
        i = 0
        while i < len(r):
            x = r[i]
            k = 1
            if type(x) is tuple and len(x) == 3:
                while i + k < len(r) and type(r[i + k]) is tuple and r[i + k][:2] == x[:2] and len(r[i + k]) == 3 and r[i + k][2] == x[2] + k:
                    k += 1
                parts.append((k, self.extract(x[0], x[1], x[2], k)))
            elif x == UNDEF:
                while i + k < len(r) and r[i + k] == UNDEF:
                    k += 1
                parts.append((k, UNDEF))
            else:
                parts.append((1, x))
            i += k
        return self.concat(parts)

    def mixed(self, op, a, b, w):
        """and, or, shl of values of which some bytes were never written"""
        if w % 8 or op == 'shl' and (type(b) is not int or b % 8 or b >= w):
            return None
        x = self.octets(a, w)
        if op == 'shl':
            return self.unoctets(([0] * (b // 8) + x)[:w // 8])
        r = []
        for p, q in zip(x, self.octets(b, w)):
            k = 0 if op == 'or' else 255
            if op == 'and' and (p == 0 or q == 0):
                r.append(0)
            elif p == k:
                r.append(q)
            elif q == k:
                r.append(p)
            elif type(p) is int and type(q) is int:
                r.append(p | q if op == 'or' else p & q)
            elif p == UNDEF or q == UNDEF:
                r.append(UNDEF)
            else:
                return None
        return self.unoctets(r)

    def arith(self, st, op, a, b, w, I):
        if op in ('and', 'or', 'shl') and (a == UNDEF or b == UNDEF or self.partial(a) or self.partial(b)):
            r = self.mixed(op, a, b, w)
            if r is not None:
                return r
        if self.partial(a):
            n = w // 8 - b // 8 if op == 'lshr' and type(b) is int and b % 8 == 0 and b < w else 0
            a = zext(self.extract(a, w // 8, b // 8, n), n * 8, w) if n else UNDEF
            if n:
                return a
        if self.partial(b):
            b = UNDEF
        if b == 0 and type(b) is int and op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.violation('div-zero', 'division by zero', st, I)
        if op == 'sdiv' and type(b) is int and type(a) is tuple and a[0] == 'l':
            # exact pointer-difference style division
            k = sgn(b, w)
            c, d = tolin(a, w)
            if k > 0 and sgn(c, w) % k == 0 and all(sgn(x, w) % k == 0 for x in d.values()):
                return fromlin(sgn(c, w) // k, {t: sgn(x, w) // k for t, x in d.items()}, w)
        if op == 'ashr' and type(b) is int and type(a) is tuple and a[0] == 'l':
            k = 1 << b
            c, d = tolin(a, w)
            if sgn(c, w) % k == 0 and all(sgn(x, w) % k == 0 for x in d.values()):
                return fromlin(sgn(c, w) // k, {t: sgn(x, w) // k for t, x in d.items()}, w)
        if op in ('and', 'or') and (type(a) is tuple and a[0] in ('p', 'l', 'o', 's', 'f') or type(b) is tuple):
            r = self.bitop(st, op, a, b, w)
            if r is not None:
                return r
        if op == 'urem' and type(b) is int and b and b & (b - 1) == 0 and type(a) is tuple:
            return self.arith(st, 'and', a, b - 1, w, I)
        r = binop(op, a, b, w)
        h = self.hooks.get('simplify')
        return h(self, st, r, w) if h else r

    def zeros(self, st, v, w):
        """(number of known trailing zero bits, upper bound of value)"""
        if type(v) is int:
            if v == 0:
                return w, 0
            return (v & -v).bit_length() - 1, v
        hi = self.interval(st, v, w)[1]
        k = v[0]
        if k == 'p':
            info = st.objs.get(v[1])
            al = info[2] if info else 1
            t = al.bit_length() - 1
            o = v[2]
            z, _ = self.zeros(st, o, 64) if not (o == 0) else (64, 0)
            return min(t, z), hi
        if k == 'l':
            z = self.zeros(st, v[2], w)[0]
            for t, c in v[3]:
                z = min(z, self.zeros(st, t, w)[0] + (c & -c).bit_length() - 1)
            return min(z, w), hi
        if k == 's':
            al = st.mon.get('#align')
            if al:
                for s, a in al:
                    if s == v:
                        return a, hi
            return 0, hi
        if k == 'o' and v[1] == 'and':
            return max(self.zeros(st, v[3], w)[0], self.zeros(st, v[4], w)[0]), hi
        if k == 'o' and v[1] == 'zext':
            return min(self.zeros(st, v[3], v[4])[0], v[4]), hi
        return 0, hi

    def bitop(self, st, op, a, b, w):
        if type(a) is int:
            a, b = b, a
        if op == 'or':
            za, ha = self.zeros(st, a, w)
            zb, hb = self.zeros(st, b, w)
            if hb < (1 << za) or ha < (1 << zb):
                return add(a, b, w)
            return None
        if type(b) is not int:
            return None
        # a & mask
        m = b
        if a[0] == 'f':  # functions are aligned to two bytes at least (the low bit marks virtual members)
            return 0 if m == 1 else a if m == mask(w) ^ 1 else None
        lowbits = (m + 1) & m == 0  # 0..01..1
        highbits = (mask(w) ^ m) & ((mask(w) ^ m) + 1) == 0  # 1..10..0
        if not (lowbits or highbits):
            return None
        n = m.bit_length() if lowbits else (mask(w) ^ m).bit_length()
        # split a = aligned part (>= n trailing zeros) + rest in [0, 2^n)
        parts = []
        if a[0] == 'p':
            info = st.objs.get(a[1])
            al = info[2] if info else 1
            if al < (1 << n):
                return None
            base = ('p', a[1], 0)
            off = a[2]
        else:
            base = 0
            off = a
        c, d = tolin(off, w)
        hic = 0
        hid = {}
        loc_ = 0
        lod = {}
        for t, k in d.items():
            if self.zeros(st, mul(t, k, w), w)[0] >= n:
                hid[t] = k
            else:
                lod[t] = k
        loc_ = c & ((1 << n) - 1)
        hic = c - loc_
        lo = fromlin(loc_, lod, w)
        if self.interval(st, lo, w)[1] >= (1 << n):
            return None
        if lowbits:
            return lo
        hi = fromlin(hic, hid, w)
        return add(base, hi, w)

    def insval(self, a, v, idx, ty):
        n = ty.n
        if a == UNDEF:
            xs = [UNDEF] * n
        else:
            xs = list(a[1])
        if len(idx) == 1:
            xs[idx[0]] = v
        else:
            sub_ty = ty.elts[idx[0]][1] if ty.k == 'struct' else ty.elt
            xs[idx[0]] = self.insval(xs[idx[0]], v, idx[1:], sub_ty)
        return ('agg', tuple(xs))

    def load_agg(self, st, env, I):
        p = self.ptr(st, self.val(st, env, I.ops[0]), I, 'load')
        if p is None:
            return None

        def go(t, off):
            if t.k == 'struct':
                return ('agg', tuple(go(e, add(off, o, 64)) for o, e in t.elts))
            if t.k in ('array', 'vector'):
                return ('agg', tuple(go(t.elt, add(off, i * t.stride, 64)) for i in range(t.n)))
            v = self.load(st, p[0], off, t.store, I)
            if t.bits and t.bits < t.store * 8:
                v = trunc(v, t.store * 8, t.bits)
            return v

        return go(I.ty, p[1])

    def store_ty(self, st, p, v, t, I):
        if t.k == 'struct':
            for i, (o, e) in enumerate(t.elts):
                self.store_ty(st, (p[0], add(p[1], o, 64)), v[1][i] if v != UNDEF else UNDEF, e, I)
            return
        if t.k in ('array', 'vector') and type(v) is tuple and v[0] == 'agg':
            for i in range(t.n):
                self.store_ty(st, (p[0], add(p[1], i * t.stride, 64)), v[1][i], t.elt, I)
            return
        if t.bits and t.bits < t.store * 8:
            v = zext(v, t.bits, t.store * 8)
        self.store(st, p[0], p[1], t.store, v, I)

    def rmw(self, st, env, I):
        p = self.ptr(st, self.val(st, env, I.ops[0]), I, 'atomic')
        if p is None:
            return None
        x = self.val(st, env, I.ops[1])
        op, order, ty = I.x
        h = self.hooks.get('atomic')
        if h:
            v = h(self, st, 'rmw-' + op, p, ty, x, order, I)
            if v is not None:
                env[('r', I.id)] = v
                return True
        old = self.load(st, p[0], p[1], ty.store, I)
        w = ty.bits or 64
        if op == 'xchg':
            new = x
        elif op in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.arith(st, op, old, x, w, I)
        else:
            new = ('o', 'rmw' + op, w, old, x)
        self.store(st, p[0], p[1], ty.store, new, I)
        env[('r', I.id)] = old
        return True

    def cmpxchg(self, st, env, I):
        p = self.ptr(st, self.val(st, env, I.ops[0]), I, 'atomic')
        if p is None:
            return None
        exp = self.val(st, env, I.ops[1])
        new = self.val(st, env, I.ops[2])
        so, fo, ty = I.x
        h = self.hooks.get('cmpxchg')
        if h:
            return h(self, st, p, ty, exp, new, I)
        w = ty.bits or 64
        old = self.load(st, p[0], p[1], ty.store, I)
        out = []
        s2 = st.copy()
        for s in self.assume(st, cmpv('eq', old, exp, w), True):
            self.store(s, p[0], p[1], ty.store, new, I)
            out.append((('agg', (old, 1)), s))
        for s in self.assume(s2, cmpv('eq', old, exp, w), False):
            out.append((('agg', (old, 0)), s))
        return out or None

    # ---------------------------------------------------------------- exceptions
    def exc_of(self, st, p):
        for e in reversed(st.mon.get('#exc', ())):
            if e[2] == p:
                return e
        raise Unsupported('resume of unknown exception')

    def make_exc(self, st, tinfo, I=None, ptr=None):
        """a new in-flight exception"""
        if ptr is None:
            o = self.newobj(st, 'exc', None, I, lazy=True)
            ptr = ('p', o, 0)
        e = ('exc', tinfo, ptr)
        st.mon['#exc'] = st.mon.get('#exc', ()) + (e,)
        st.mon['#unc'] = st.mon.get('#unc', 0) + 1
        return e

    def raise_(self, st, tinfo, I=None, ptr=None):
        return ('throw', self.make_exc(st, tinfo, I, ptr), st)

    def landing(self, st, I, exc):
        """-> [(selector, state)]; an exception that matches no clause of a cleanup-less pad is
        handled by the caller of this function (see do_call)"""
        clauses, cleanup = I.x
        out = []
        cur = st
        for c in clauses:
            if c == ('c', 0):
                out.append((self.tid(None), cur))
                return out
            if c[0] in ('agg', 'zero'):
                continue
            name = c[1]
            m = self.exc_match(exc[1], name)
            if m is True:
                out.append((self.tid(name), cur))
                return out
            if m is None:
                out.append((self.tid(name), cur.copy()))
        out.append((0, cur))
        return out

    def tid(self, name):
        return 1 if name is None else 2 + (hash(name) & 0xFFFFF)

    BASES = {'_ZTISt9bad_alloc': ['_ZTISt9exception'],
             '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc', '_ZTISt9exception'],
             '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
             '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
             '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
             '_ZTISt12domain_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
             '_ZTISt14overflow_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
             '_ZTISt15underflow_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
             '_ZTISt11range_error': ['_ZTISt13runtime_error', '_ZTISt9exception'],
             '_ZTISt13runtime_error': ['_ZTISt9exception'],
             '_ZTISt11logic_error': ['_ZTISt9exception'],
             '_ZTISt18bad_variant_access': ['_ZTISt9exception'],
             '_ZTISt12system_error': ['_ZTISt13runtime_error', '_ZTISt9exception']}

    def exc_match(self, thrown, clause):
        if thrown == clause:
            return True
        if thrown == 'USER':
            return None
        if clause in self.BASES.get(thrown, ()):
            return True
        return False

    # ---------------------------------------------------------------- call instructions
    def do_call(self, fr, blk, ii, I, env, st, work, outs, outkeys):
        """returns True if all continuations were pushed; False if env/st were updated in place"""
        cal = I.callee
        rk = ('r', I.id)
        if cal[0] == 'asm':
            env[rk] = UNDEF
            return False
        if cal[0] == 'f':
            name = cal[1]
            if name.startswith('llvm.'):
                r = self.intrinsic(fr, name, I, env, st)
                if r is None:
                    env.setdefault(rk, None)
                    return False
                if r == 'dead':
                    return True
                res = r
                args = None
            else:
                args = [self.val(st, env, o) for o in I.ops]
                fn = self.mod.fns[name]
                res = None
        else:
            f = self.val(st, env, cal)
            args = [self.val(st, env, o) for o in I.ops]
            if type(f) is tuple and f[0] == 'f':
                fn = self.mod.fns[f[1]]
                res = None
            else:
                h = self.hooks.get('icall')
                res = h(self, st, I, f, args) if h else None
                if res is None:
                    if f == 0 or f == UNDEF:
                        self.violation('bad-call', 'call through %s function pointer' % (
                            'null' if f == 0 else 'uninitialised'), st, I)
                        return True
                    raise Unsupported('indirect call of %s at %s' % (show(f), I.loc()))
        if res is None:
            if I.x[2]:
                for k, size in I.x[2].items():
                    p = self.ptr(st, args[k], I, 'byval')
                    if p is None:
                        return True
                    o = self.newobj(st, 'stack', size, I, 'byval%d' % k)
                    st.objs[o] = ('stack', size, 16, False, True, 0)
                    self.copymem(st, o, 0, p[0], p[1], size, I)
                    args[k] = ('p', o, 0)
            fr.env = env
            fr_site_before = None
            res = self.call(st, fn, args, I)
        if I.op == 'call' and len(res) == 1 and res[0][0] == 'ret' and res[0][2] is st:
            env[rk] = res[0][1]
            return False
        for kind, v, s in res:
            if kind == 'ret':
                e2 = dict(env)
                e2[rk] = v
                if I.op == 'invoke':
                    work.append((I.x[0], 0, blk.i, e2, s))
                else:
                    work.append((blk.i, ii + 1, None, e2, s))
            elif kind == 'throw':
                if I.op == 'invoke':
                    lp = self.mod.body(fr.fn)[I.x[1]].insts[0]
                    if not lp.x[1] and not any(self.exc_match(v[1], c[1]) is not False if c != ('c', 0) else True
                                               for c in lp.x[0] if c[0] not in ('agg', 'zero')):
                        # nothing here handles it
                        if fr.fn.nounwind:
                            self.end(outs, outkeys, 'terminate', s, I)
                        else:
                            self.leave(fr, s, I)
                            self.out(outs, outkeys, 'throw', v, s)
                        continue
                    e2 = dict(env)
                    e2['exc'] = v
                    work.append((I.x[1], 0, blk.i, e2, s))
                else:
                    if fr.fn.nounwind:
                        self.end(outs, outkeys, 'terminate', s, I)
                        continue
                    self.leave(fr, s, I)
                    self.out(outs, outkeys, 'throw', v, s)
            else:
                self.out(outs, outkeys, kind, v, s)
        return True

    def end(self, outs, outkeys, why, st, I):
        self.out(outs, outkeys, 'end', (why, I.loc() if I is not None else ''), st)

    def intrinsic(self, fr, name, I, env, st):
        rk = ('r', I.id)
        if name.startswith('llvm.dbg') or name.startswith('llvm.assume') or name.startswith('llvm.experimental.noalias') \
                or name.startswith('llvm.donothing') or name.startswith('llvm.prefetch') or name.startswith(
                'llvm.invariant') or name.startswith('llvm.va_'):
            if name.startswith('llvm.assume') and I.ops[0][0] in ('r', 'a'):
                v = self.val(st, env, I.ops[0])
                if v != UNDEF and self.decide(st, v) is False:
                    self.violation('assume', 'assumption [[assume]]/__builtin_assume is false here', st, I)
                    return 'dead'
            return None
        if name.startswith('llvm.lifetime.start'):
            v = self.val(st, env, I.ops[1])
            if type(v) is tuple and v[0] == 'p':
                o = v[1]
                if o in st.objs:
                    if not self.hooks.get('keep_lifetime'):
                        st.mem[o] = {}
                        st._own.add(o)
                        i = st.objs[o]
                        st.objs[o] = i[:4] + (True, 0)
            return None
        if name.startswith('llvm.lifetime.end'):
            v = self.val(st, env, I.ops[1])
            if type(v) is tuple and v[0] == 'p':
                o = v[1]
                if o in st.objs:
                    self.endobj(st, o, I, 'end of scope')
                    st.mem[o] = {}
                    st._own.add(o)
                    i = st.objs[o]
                    st.objs[o] = i[:4] + (False, 0)
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d = self.val(st, env, I.ops[0])
            s = self.val(st, env, I.ops[1])
            n = self.val(st, env, I.ops[2])
            return self.do_memcpy(st, d, s, n, I)
        if name.startswith('llvm.memset'):
            d = self.val(st, env, I.ops[0])
            x = self.val(st, env, I.ops[1])
            n = self.val(st, env, I.ops[2])
            return self.do_memset(st, d, x, n, I)
        if name.startswith('llvm.eh.typeid.for'):
            o = I.ops[0]
            env[rk] = self.tid(o[1] if o[0] == 'g' else None)
            return None
        if name.startswith('llvm.expect') or name.startswith('llvm.launder') or name.startswith(
                'llvm.strip') or name.startswith('llvm.ptr.annotation') or name.startswith('llvm.threadlocal.address'):
            env[rk] = self.val(st, env, I.ops[0])
            return None
        if name.startswith('llvm.objectsize'):
            env[rk] = mask(64)
            return None
        if name.startswith('llvm.is.constant'):
            env[rk] = 0
            return None
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            self.violation('unreachable', 'trap reached', st, I)
            return 'dead'
        m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            a, b = self.val(st, env, I.ops[0]), self.val(st, env, I.ops[1])
            w = int(m.group(3))
            v = self.arith(st, m.group(2), a, b, w, I)
            if type(a) is int and type(b) is int:
                f = {'add': a + b, 'sub': a - b, 'mul': a * b}[m.group(2)]
                if m.group(1) == 's':
                    f = {'add': sgn(a, w) + sgn(b, w), 'sub': sgn(a, w) - sgn(b, w), 'mul': sgn(a, w) * sgn(b, w)}[
                        m.group(2)]
                    ov = int(not -(1 << (w - 1)) <= f < (1 << (w - 1)))
                else:
                    ov = int(not 0 <= f <= mask(w))
            else:
                if m.group(1) == 'u' and m.group(2) == 'sub':
                    ov = cmpv('ult', a, b, w)
                elif m.group(1) == 'u' and m.group(2) == 'mul' and (a in (0, 1) or b in (0, 1)):
                    ov = 0
                else:
                    ov = ('o', m.group(1) + m.group(2) + '.ov', 1, a, b)
                    ia, ib = self.interval(st, a, w), self.interval(st, b, w)
                    if m.group(1) == 'u':
                        hi = ia[1] + ib[1] if m.group(2) == 'add' else ia[1] * ib[1]
                        if hi <= mask(w):
                            ov = 0
            env[rk] = ('agg', (v, ov))
            h = self.hooks.get('ovf')
            if h:
                h(self, st, I, m.group(1) + m.group(2), a, b, v, ov)
            return None
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.i(\d+)', name)
        if m:
            a, b = self.val(st, env, I.ops[0]), self.val(st, env, I.ops[1])
            w = int(m.group(2))
            c = cmpv('ult' if m.group(1)[0] == 'u' else 'slt', a, b, w)
            out = []
            s2 = st.copy()
            for s in self.assume(st, c, True):
                out.append(('ret', b if m.group(1).endswith('max') else a, s))
            for s in self.assume(s2, c, False):
                out.append(('ret', a if m.group(1).endswith('max') else b, s))
            return out
        # bit tricks and the like: uninterpreted but deterministic
        vs = tuple(self.val(st, env, o) for o in I.ops)
        m = re.match(r'llvm\.(ctpop|ctlz|cttz)\.i(\d+)', name)
        if m and type(vs[0]) is int:
            w = int(m.group(2))
            x = vs[0]
            env[rk] = {'ctpop': bin(x).count('1'), 'ctlz': w - x.bit_length(),
                       'cttz': ((x & -x).bit_length() - 1) if x else w}[m.group(1)]
            return None
        env[rk] = ('o', name, I.ty.bits or 64) + vs
        if m:
            st.iv[env[rk]] = (0, int(m.group(2)))
        return None

    def do_memcpy(self, st, d, s, n, I):
        h = self.hooks.get('memcpy')
        if h:
            r = h(self, st, d, s, n, I)
            if r is not None:
                return r
        if n == 0:
            return None
        pd = self.ptr(st, d, I, 'memcpy')
        ps = self.ptr(st, s, I, 'memcpy')
        if pd is None or ps is None:
            return 'dead'
        if type(n) is int:
            self.copymem(st, pd[0], pd[1], ps[0], ps[1], n, I)
        else:
            self.clobber(st, pd[0], pd[1], n)
            st.objs[pd[0]] = st.objs[pd[0]][:3] + (True,) + st.objs[pd[0]][4:5] + (st.objs[pd[0]][5] + 1,)
        return None

    def do_memset(self, st, d, x, n, I):
        h = self.hooks.get('memset')
        if h:
            r = h(self, st, d, x, n, I)
            if r is not None:
                return r
        if n == 0:
            return None
        pd = self.ptr(st, d, I, 'memset')
        if pd is None:
            return 'dead'
        if type(n) is int and type(pd[1]) is int:
            off = pd[1]
            while n:
                k = 8
                while k > n or off % k:
                    k //= 2
                self.store(st, pd[0], off, k, sum((x << (8 * i)) for i in range(k)) if type(x) is int else (
                    x if k == 1 else ('o', 'splat', k * 8, x)), I)
                off += k
                n -= k
        else:
            self.clobber(st, pd[0], pd[1], n)
        return None
