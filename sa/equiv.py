"""Equivalence of library calls with hand written references: both are followed in the compiler IR over the same symbolic
arguments; every path of the one must have a path of the other with the same outcome and the same sequence of observable events
(calls of opaque functions of namespace arch with their arguments, and what they return)."""
import re
import build
import models
import par
from dom import *
from engine import Engine, State, Unsupported


def canon(eng, st, v, deep=True):
    v = eng.norm(st, v) if v is not None else v
    if type(v) is tuple and v and v[0] == 'p' and type(v[1]) is tuple and v[1][0] != 'x':
        o = v[1]
        if o[0] in ('g', 'glob', 'fn') or o not in st.objs:
            return ('p', re.sub(r'\b[xr]_', '', repr(o)), v[2])
        info = st.objs[o]
        if deep and type(info[1]) is int and info[1] <= 64 and type(v[2]) is int:
            return ('tmp', tuple((k - v[2], s, canon(eng, st, c, False)) for k, (s, c) in sorted(st.cells(o).items(), key=repr) if type(k) is int and k >= v[2]))
        return 'tmp'
    if type(v) is tuple and v and v[0] == 'agg':
        return ('agg', tuple(canon(eng, st, x) for x in v[1]))
    return v


def ret_sym(eng, st, fn, a):
    # a pure function of its arguments, or the result of the n-th call
    n = ('app', fn.dem, a) if fn.dem.startswith('arch::pure') else len([e for e in st.ev if e[0] == 'call'])
    k = fn.rty.k
    if k == 'void':
        return None
    if k in ('int', 'ptr', 'fp'):
        return ('s', ('ev', n), 64 if k == 'ptr' else fn.rty.bits)
    if k == 'struct':
        return ('agg', tuple(('s', ('ev', n, i), e.bits or 64) for i, (_, e) in enumerate(fn.rty.elts)))
    raise Unsupported('return type of ' + fn.dem)


def event(eng, st, I, args, fn):
    if not fn.decl:
        return eng.run(st, fn, args, I)
    outs = []
    a = tuple(canon(eng, st, x) for x in args)
    if not fn.nounwind:
        s2 = st.copy()
        s2.ev = s2.ev + (('call-throw', fn.dem, a),)
        outs.append(eng.raise_(s2, 'USER', I))
    # truth values and comparison results are decided here, so that the way they are tested does not matter
    vals = [ret_sym(eng, st, fn, a)]
    if fn.rty.k == 'int' and fn.rty.bits == 1:
        vals = [0, 1]
    elif fn.dem.startswith('arch::cmp') and fn.rty.k == 'int' and fn.rty.bits == 8:
        vals = [0, 1, 255]
    for r in vals:
        s2 = st.copy() if r is not vals[-1] else st
        s2.ev = s2.ev + (('call', fn.dem, a, r),)
        outs.append(('ret', r, s2))
    return outs


def engine(mod):
    e = Engine(mod)
    models.install(e)
    e.trace = False
    e.model(r'^arch::', event)
    return e


def outcomes(eng, fn, setup=None, facts=False):
    st = State()
    f = eng.mod.fns[fn]
    args = []
    for i, t in enumerate(f.ptys):
        k = t.k
        if k == 'ptr':
            args.append(eng.extobj(st, 'a%d' % i) and ('p', ('x', 'a%d' % i), 0))
        else:
            args.append(('s', ('arg', i), t.bits))
    if setup:
        r = setup(eng, st, args)
        args = r if r is not None else args
    out = set()
    for kind, v, s in eng.call(st, fn, args):
        if kind == 'throw':
            v = v[1]
        elif kind == 'ret':
            v = canon(eng, s, v)
        mem = []
        for o in sorted((o for o in s.objs if o[0] == 'x'), key=repr):
            mem.append((o, tuple((k, sz, canon(eng, s, c)) for k, (sz, c) in sorted(s.cells(o).items(), key=repr) if eng.norm(s, c) != UNDEF)))
        out.add((kind, v, s.ev, tuple(mem)))
    return out


def unordered(o):
    kind, v, evs, mem = o
    return kind, v, tuple(sorted(evs, key=repr)), mem


def pretty(o):
    ev = '; '.join('%s(%s)%s' % (e[1].split('(')[0].replace('arch::', ''), ', '.join(show(x) if x is not None else '' for x in e[2]), ' throws' if e[0] != 'call' else '') for e in o[2])
    return '%s %s after [%s]' % (o[0], o[1] if o[0] != 'ret' else '' if o[1] is None else show(o[1]), ev)


def pairs(chk, group, src, setup=None, defs=(), extra=()):
    mod = build.compile_bc(src, defs, extra=extra)
    names = [n[2:] for n in mod.fns if n.startswith('x_')]
    for n in names:
        e = engine(mod)
        x = outcomes(e, 'x_' + n, setup)
        chk.engine(e)
        for k, v in e.viol.items():
            chk.violate('%s/%s/%s' % (group, n, v['kind']), v['msg'], loc=v['loc'], path=v['path'])
        e2 = engine(mod)
        r = outcomes(e2, 'r_' + n, setup)
        chk.count('equivalences')
        if not x:
            raise RuntimeError('no outcome of x_%s' % n)
        if n.startswith('any_'):
            x, r = set(map(unordered, x)), set(map(unordered, r))
        if x != r:
            a, b = sorted(x - r, key=repr), sorted(r - x, key=repr)
            chk.violate('%s/%s' % (group, n), 'behaves differently from its reference: %s%s' % (
                'can ' + pretty(a[0]) if a else '', (' but must be able to ' if a else 'cannot ') + pretty(b[0]) if b else ''))
    return mod


def _part(rec, group, src, setup, defs):
    pairs(rec, group, src, setup, defs)


def many(chk, group, head, W, setup=None, defs=(), parts=24):
    """W: code blocks, each with one pair; analysed in parallel"""
    n = max(1, min(parts, len(W) // 4))
    par.run(chk, _part, [(group, head + ''.join(W[i::n]), setup, defs) for i in range(n)])
