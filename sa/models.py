"""Transfer functions for what lies outside the library: archetype user types, the allocation
functions, the C++ runtime, and the parts of libstdc++/pthread that are not analysed from source."""
import re
from dom import *
from engine import Unsupported

SIZES = {'A': 24, 'B': 16, 'D': 24, 'M': 20, 'N': 12, 'E': 18, 'U': 10, 'R': 6, 'R2': 7, 'Q': 14, 'GD': 26, 'GC': 28, 'GM': 30, 'GA': 32, 'GV': 34}

_ctor = re.compile(r'^arch::(\w+)::\1\((.*)\)$')
_dtor = re.compile(r'^arch::(\w+)::~\1\(\)$')
_asg = re.compile(r'^arch::(\w+)::operator=\((.*)\)$')
_cmp = re.compile(r'^arch::operator(==|<=>|<|>|<=|>=|!=)\((.*)\)(?: const)?$')


def content(eng, st, p, size):
    return eng.load(st, p[0], p[1], size)


def setcontent(eng, st, p, size, v):
    h = eng.hooks.pop('store', None)
    eng.store(st, p[0], p[1], size, v)
    if h:
        eng.hooks['store'] = h


def live_at(st, p):
    return st.live.get(p)


def require_live(eng, st, p, cls, what, I):
    l = st.live.get(p)
    if l != cls:
        info = st.objs.get(p[0])
        eng.violation('not-live', '%s %s which is not a live %s (%s there)' % (what, showobj(p[0]), cls,
                                                                              l or 'no object'), st, I)
        return False
    return True


def make_live(eng, st, p, cls, I):
    size = SIZES.get(cls, 1)
    for (o, off), c in list(st.live.items()):
        if o == p[0]:
            if type(off) is int and type(p[1]) is int:
                if off < p[1] + size and p[1] < off + SIZES.get(c, 1):
                    eng.violation('construct-over-live', '%s constructed over a live %s that was not destroyed' % (cls, c),
                                  st, I)
                    del st.live[(o, off)]
            elif off == p[1]:
                eng.violation('construct-over-live', '%s constructed over a live %s that was not destroyed' % (cls, c), st,
                              I)
    info = st.objs[p[0]]
    if type(info[1]) is int and type(p[1]) is int and p[1] + size > info[1]:
        eng.violation('oob', '%s constructed outside its storage' % cls, st, I)
    st.live[p] = cls


def ev(eng, st, *e):
    if eng.trace:
        st.ev = st.ev + (e,)


def arch_model(eng, st, I, args, fn):
    if not fn.decl:
        return None  # defaulted operations of trivial archetypes, templates returning an archetype
    d = fn.dem
    m = _ctor.match(d)
    if m:
        cls, sig = m.groups()
        return construct(eng, st, I, args, fn, cls, sig)
    m = _dtor.match(d)
    if m:
        cls = m.group(1)
        p = eng.ptr(st, args[0], I, 'destroy ' + cls)
        if p is None:
            return []
        ev(eng, st, 'dtor', cls, p)
        if not require_live(eng, st, p, cls, 'destructor run on', I):
            return [('ret', None, st)]
        del st.live[p]
        c = st.cells(p[0], True)
        eng.clobber(st, p[0], p[1], SIZES.get(cls, 1))
        return [('ret', None, st)]
    m = _asg.match(d)
    if m:
        cls, sig = m.groups()
        return assign(eng, st, I, args, fn, cls, sig)
    m = _cmp.match(d)
    if m:
        return compare(eng, st, I, args, fn, m.group(1), m.group(2))
    h = eng.hooks.get('arch')
    if h:
        return h(eng, st, I, args, fn)
    return None


def construct(eng, st, I, args, fn, cls, sig):
    size = SIZES.get(cls, 1)
    p = eng.ptr(st, args[0], I, 'construct ' + cls)
    if p is None:
        return []
    outs = []
    own = 'arch::' + cls
    if sig == own + ' const&' or sig == own + '&&' or sig == own + '&':
        q = eng.ptr(st, args[1], I, 'copy of ' + cls)
        if q is None:
            return []
        mv = sig.endswith('&&')
        if not require_live(eng, st, q, cls, ('move' if mv else 'copy') + ' from', I):
            return []
        if not fn.nounwind:
            s2 = st.copy()
            ev(eng, s2, 'ctor-throw', cls, p)
            if mv:
                setcontent(eng, s2, q, size, ('k', 'unspec', cls))
            outs.append(eng.raise_(s2, 'USER', I))
        v = content(eng, st, q, size)
        ev(eng, st, 'move-ctor' if mv else 'copy-ctor', cls, p, q, v)
        make_live(eng, st, p, cls, I)
        setcontent(eng, st, p, size, v)
        if mv and p != q:
            setcontent(eng, st, q, size, ('k', 'moved', cls))
    else:
        if not fn.nounwind:
            s2 = st.copy()
            ev(eng, s2, 'ctor-throw', cls, p)
            outs.append(eng.raise_(s2, 'USER', I))
        ev(eng, st, 'ctor', cls, p, sig)
        make_live(eng, st, p, cls, I)
        vals = tuple(a if type(a) is int or a[0] != 'p' else a for a in args[1:])
        setcontent(eng, st, p, size, ('k', 'make', cls) + vals)
    outs.append(('ret', None, st))
    return outs


def assign(eng, st, I, args, fn, cls, sig):
    size = SIZES.get(cls, 1)
    p = eng.ptr(st, args[0], I, 'assign ' + cls)
    if p is None:
        return []
    own = 'arch::' + cls
    if sig not in (own + ' const&', own + '&&', own + '&'):
        return None
    q = eng.ptr(st, args[1], I, 'assign from ' + cls)
    if q is None:
        return []
    mv = sig.endswith('&&')
    outs = []
    if not require_live(eng, st, p, cls, 'assignment to', I) or not require_live(eng, st, q, cls, 'assignment from', I):
        return []
    if not fn.nounwind:
        s2 = st.copy()
        ev(eng, s2, 'assign-throw', cls, p)
        setcontent(eng, s2, p, size, ('k', 'unspec', cls))
        if mv:
            setcontent(eng, s2, q, size, ('k', 'unspec', cls))
        outs.append(eng.raise_(s2, 'USER', I))
    v = content(eng, st, q, size)
    ev(eng, st, 'move-assign' if mv else 'copy-assign', cls, p, q, v)
    if p != q:
        setcontent(eng, st, p, size, v)
        if mv:
            setcontent(eng, st, q, size, ('k', 'moved', cls))
    outs.append(('ret', args[0], st))
    return outs


def compare(eng, st, I, args, fn, op, sig):
    cls = re.match(r'arch::(\w+)', sig).group(1)
    size = SIZES.get(cls, 1)
    vs = []
    for a in args[:2]:
        p = eng.ptr(st, a, I, 'compare')
        if p is None:
            return []
        if not require_live(eng, st, p, cls, 'comparison of', I):
            return []
        vs.append(content(eng, st, p, size))
    outs = []
    if not fn.nounwind:
        s2 = st.copy()
        outs.append(eng.raise_(s2, 'USER', I))
    ev(eng, st, 'cmp', op, cls, vs[0], vs[1])
    if op == '<=>':
        v = ('o', 'arch<=>', 8, vs[0], vs[1])
        st.siv.setdefault(v, (-1, 1))
    else:
        v = ('o', 'arch' + op, 1, vs[0], vs[1])
        st.iv.setdefault(v, (0, 1))
    outs.append(('ret', v, st))
    return outs


# ------------------------------------------------------------------ runtime
def m_new(eng, st, I, args, fn):
    outs = []
    nothrow = 'nothrow' in fn.dem
    if eng.oom:
        s2 = st.copy()
        if nothrow:
            outs.append(('ret', 0, s2))
        else:
            outs.append(eng.raise_(s2, '_ZTISt9bad_alloc', I))
    o = eng.newobj(st, 'heap', args[0] if type(args[0]) is int else None, I, align=16)
    st.mon['heap:' + repr(o)] = ('live', fn.name.startswith('_Zna'))
    ev(eng, st, 'new', o, args[0])
    outs.append(('ret', ('p', o, 0), st))
    return outs


def m_delete(eng, st, I, args, fn):
    v = eng.norm(st, args[0])
    if v == 0:
        return [('ret', None, st)]
    if type(v) is tuple and v[0] == 'p' and v[1][0] == 'heap':
        o = v[1]
        if v[2] != 0:
            eng.violation('bad-free', 'operator delete of an interior pointer', st, I)
        if o not in st.objs or not st.objs[o][4]:
            eng.violation('double-free', 'operator delete of already freed storage', st, I)
            return [('ret', None, st)]
        eng.endobj(st, o, I, 'operator delete')
        st.mon.pop('heap:' + repr(o), None)
        st.objs[o] = st.objs[o][:4] + (False, 0)
        st.mem[o] = {}
        ev(eng, st, 'delete', o)
        return [('ret', None, st)]
    eng.violation('bad-free', 'operator delete of a pointer that operator new did not return: %s' % show(v), st, I)
    return [('ret', None, st)]


def m_end(why):
    def h(eng, st, I, args, fn):
        return [('end', (why, I.loc() if I is not None else ''), st)]

    return h


def m_alloc_exc(eng, st, I, args, fn):
    o = eng.newobj(st, 'exc', None, I, lazy=True)
    return [('ret', ('p', o, 0), st)]


def m_free_exc(eng, st, I, args, fn):
    return [('ret', None, st)]


def m_throw(eng, st, I, args, fn):
    t = args[1]
    name = t[1][1] if type(t) is tuple and t[0] == 'p' and t[1][0] == 'g' else str(t)
    ev(eng, st, 'throw', name)
    return [eng.raise_(st, name, I, eng.norm(st, args[0]))]


def m_begin_catch(eng, st, I, args, fn):
    p = eng.norm(st, args[0])
    st.mon['#caught'] = st.mon.get('#caught', ()) + (p,)
    st.mon['#unc'] = st.mon.get('#unc', 0) - 1
    return [('ret', p, st)]


def m_end_catch(eng, st, I, args, fn):
    c = st.mon.get('#caught', ())
    if not c:
        eng.violation('eh', '__cxa_end_catch without a caught exception', st, I)
        return [('ret', None, st)]
    st.mon['#caught'] = c[:-1]
    if c[-1] not in c[:-1] and not st.mon.get('#rethrown', ()).count(c[-1]):
        st.mon['#exc'] = tuple(e for e in st.mon.get('#exc', ()) if e[2] != c[-1])
    st.mon['#rethrown'] = tuple(x for x in st.mon.get('#rethrown', ()) if x != c[-1])
    return [('ret', None, st)]


def m_rethrow(eng, st, I, args, fn):
    c = st.mon.get('#caught', ())
    if not c:
        return [('end', ('terminate', I.loc()), st)]
    e = eng.exc_of(st, c[-1])
    st.mon['#rethrown'] = st.mon.get('#rethrown', ()) + (c[-1],)
    st.mon['#unc'] = st.mon.get('#unc', 0) + 1
    return [('throw', e, st)]


def m_get_exc_ptr(eng, st, I, args, fn):
    return [('ret', args[0], st)]


def m_noop(eng, st, I, args, fn):
    return [('ret', None, st)]


def m_throw_named(tinfo):
    def h(eng, st, I, args, fn):
        ev(eng, st, 'throw', tinfo)
        return [eng.raise_(st, tinfo, I)]

    return h


def m_stdexc_ctor(eng, st, I, args, fn):
    return [('ret', None, st)]


def m_memfn(kind):
    def h(eng, st, I, args, fn):
        r = eng.do_memcpy(st, args[0], args[1], args[2], I) if kind == 'cpy' else \
            eng.do_memcpy(st, args[0], args[1], shl(args[2], 2, 64) if not isinstance(args[2], int) else args[2] * 4, I) if kind == 'wcpy' else \
            eng.do_memset(st, args[0], trunc(args[1], 32, 8), args[2], I)
        if r == 'dead':
            return []
        if isinstance(r, list):
            return [(k, args[0], s) for k, v, s in r]
        return [('ret', args[0], st)]

    return h


def m_guard_acquire(eng, st, I, args, fn):
    return [('ret', 1, st)]


def m_hash(eng, st, I, args, fn):
    if not fn.decl:
        return None
    cls = re.match(r'std::hash<arch::(\w+)>', fn.dem).group(1)
    p = eng.ptr(st, args[1], I, 'hash')
    if p is None or not require_live(eng, st, p, cls, 'hash of', I):
        return []
    outs = []
    if not fn.nounwind:
        outs.append(eng.raise_(st.copy(), 'USER', I))
    outs.append(('ret', ('o', 'hash', 64, cls, content(eng, st, p, SIZES.get(cls, 1))), st))
    return outs


THROWERS = [('__throw_bad_alloc', '_ZTISt9bad_alloc'), ('__throw_bad_array_new_length', '_ZTISt20bad_array_new_length'),
            ('__throw_length_error', '_ZTISt12length_error'), ('__throw_out_of_range', '_ZTISt12out_of_range'),
            ('__throw_logic_error', '_ZTISt11logic_error'), ('__throw_invalid_argument', '_ZTISt16invalid_argument'),
            ('__throw_bad_function_call', '_ZTISt17bad_function_call'),
            ('__throw_system_error', '_ZTISt12system_error'),
            ('__throw_bad_optional_access', '_ZTISt19bad_optional_access'),
            ('__throw_bad_variant_access', '_ZTISt18bad_variant_access')]


def m_strlen(size):
    def model(eng, st, I, args, fn):
        """length of a string of known bytes"""
        p = eng.ptr(st, args[0], I, 'strlen')
        if p is None:
            return []
        if type(p[1]) is not int:
            raise Unsupported('strlen of an unknown string')
        for n in range(4096):
            c = eng.norm(st, eng.load(st, p[0], p[1] + n * size, size, I))
            if c == UNDEF:
                eng.violation('uninit', 'string has no terminator', st, I)
                return []
            if type(c) is not int and eng.decide(st, cmpv('eq', c, 0, size * 8)) is None:
                raise Unsupported('strlen of an unknown string')
            if c == 0 or type(c) is not int and eng.decide(st, cmpv('eq', c, 0, size * 8)):
                return [('ret', n, st)]
        raise Unsupported('strlen of an unknown string')
    return model


def install(eng):
    eng.model(r'^arch::', arch_model)
    eng.model(r'^std::hash<arch::', m_hash)
    eng.model(r'^operator new(\[\])?\(', m_new)
    eng.model(r'^operator delete(\[\])?\(', m_delete)
    eng.model(r'^operator new(\[\])?\(unsigned long, void\*\)$', lambda e, s, I, a, f: [('ret', a[1], s)])
    eng.model(r'^operator delete(\[\])?\(void\*, void\*\)$', m_noop)
    eng.model(r'^(std::terminate\(\)|__clang_call_terminate|__cxa_pure_virtual|__cxa_call_unexpected)$', m_end('terminate'))
    eng.model(r'^abort$', m_end('abort'))
    eng.model(r'^__assert_fail$', m_end('assert'))
    eng.model(r'^std::__glibcxx_assert_fail', m_end('assert'))
    eng.model(r'^(_exit|_Exit|exit|quick_exit|std::exit|std::quick_exit)$', m_end('exit'))
    eng.model(r'^__cxa_allocate_exception$', m_alloc_exc)
    eng.model(r'^__cxa_free_exception$', m_free_exc)
    eng.model(r'^__cxa_throw$', m_throw)
    eng.model(r'^__cxa_begin_catch$', m_begin_catch)
    eng.model(r'^__cxa_get_exception_ptr$', m_get_exc_ptr)
    eng.model(r'^__cxa_end_catch$', m_end_catch)
    eng.model(r'^__cxa_rethrow$', m_rethrow)
    eng.model(r'^__cxa_guard_acquire$', m_guard_acquire)
    eng.model(r'^(__cxa_guard_release|__cxa_guard_abort|__cxa_atexit|atexit)$', m_noop)
    for n, t in THROWERS:
        eng.model(r'^std::%s\b' % n, m_throw_named(t))
    eng.model(r'^std::(bad_alloc|exception|bad_variant_access|logic_error|runtime_error|length_error|out_of_range|'
              r'invalid_argument|domain_error|overflow_error|underflow_error|range_error|bad_array_new_length|system_error)::'
              r'~?\1\(', m_stdexc_ctor)
    eng.model(r'^(memcpy|memmove)$', m_memfn('cpy'))
    eng.model(r'^(wmemcpy|wmemmove)$', m_memfn('wcpy'))
    eng.model(r'^strlen$', m_strlen(1))
    eng.model(r'^wcslen$', m_strlen(4))
    eng.model(r'^memset$', m_memfn('set'))
    eng.model(r'^std::(is_constant_evaluated|__is_constant_evaluated)\(\)$', lambda e, s, I, a, f: [('ret', 0, s)])


def opaque(eng, st, I, args, fn):
    """a declared-only function of namespace arch that is no special member: an observable event"""
    outs = []
    if not fn.nounwind:
        s2 = st.copy()
        ev(eng, s2, 'call-throw', fn.dem)
        outs.append(eng.raise_(s2, 'USER', I))
    k = fn.rty.k
    if k == 'void':
        r = None
    elif k in ('int', 'ptr', 'fp'):
        r = eng.gensym(st, fn.rty.bits, 'ret:' + fn.dem.split('(')[0], I)
    elif k == 'struct':
        r = ('agg', tuple(eng.gensym(st, e.bits or 64, 'ret%d:' % i + fn.dem.split('(')[0], I)
                          for i, (_, e) in enumerate(fn.rty.elts)))
    else:
        raise Unsupported('return type of ' + fn.dem)
    ev(eng, st, 'call', fn.dem, tuple(args), r)
    outs.append(('ret', r, st))
    return outs
