"""defer: typestate of the action over all exits of its scope, with a symbolic number of exceptions already in flight."""
import build
import models
from closure import *
from dom import *
from engine import Engine, State

KINDS = ('plain', 'early', 'inner', 'handler', 'rethrow', 'unwind', 'value', 'copy', 'ccopy', 'move', 'empty')


def uncaught(eng, st, I, args, fn):
    u = ('s', ('uncaught',), 32)
    st.iv[u] = (0, 1 << 30)
    return [('ret', add(u, st.mon.get('#unc', 0) & mask(32), 32), st)]


def engine(mod):
    e = Engine(mod)
    models.install(e)
    e.hooks['arch'] = models.opaque
    e.model(r'^std::uncaught_exceptions\(\)', uncaught)
    e.trace = True
    return e


def runs(policy, failed):
    return policy == 'always' or policy == ('fail' if failed else 'succ')


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR: events of a scope guard on every path, symbolic uncaught exception count'
    chk.headers = ['defer.hpp']
    chk.assumptions.append('std::uncaught_exceptions counts the exceptions in flight, fewer than 2^30')
    for defs in [(), ('NDEBUG',)]:
        mod = build.compile_bc('defer.cpp', defs)
        for pol in ('always', 'fail', 'succ'):
            for k in KINDS:
                scope(chk, mod, pol, k)
        order(chk, mod)
    chk.require('paths', chk.counts.get('paths', 0), 100)
    return ''


def isact(e):
    return e[0] in ('call', 'call-throw') and (e[1].startswith('arch::act') or 'operator()' in e[1])


def isbody(e):
    return e[0] in ('call', 'call-throw') and e[1] == 'arch::body()'


def scope(chk, mod, pol, k):
    e = engine(mod)
    st = State()
    args = []
    cls = 'Ft' if pol == 'succ' else 'Fn'
    if k in ('copy', 'ccopy', 'move'):
        args = [place(e, st, 'f', 1)]
        st.live[(('x', 'f'), 0)] = cls
        st.mem[('x', 'f')][0] = (1, ('k', 'fn'))
    name = '%s_%s' % (pol, k)

    def fail(msg, s):
        chk.violate(name, msg + '; events: ' + ' '.join('%s %s' % (x[0], str(x[1])) for x in s.ev))

    for kind, v, s in e.call(st, name, args):
        chk.count('paths')
        chk.count('obligations')
        acts = [x for x in s.ev if isact(x)]
        bodies = [x for x in s.ev if isbody(x)]
        born = [i for i, x in enumerate(s.ev) if x[0] == 'ctor-throw']
        athrow = any(x[0] == 'call-throw' for x in acts)
        if kind == 'end':
            fail('the scope ends in %s' % (v,), s)
            continue
        left = [c for (o, off), c in s.live.items() if o != ('x', 'f')]
        if left:
            fail('the guard\'s function object is never destroyed', s)
        failed = bool(bodies) and bodies[-1][0] == 'call-throw'
        entered = True
        if k in ('copy', 'ccopy', 'move'):
            entered = bool(bodies)  # constructing the guard may throw
        if k == 'early':
            entered = True
        if k == 'inner':
            failed = False
        if k == 'handler':
            entered = bodies[0][0] == 'call-throw'
            failed = entered and bodies[1][0] == 'call-throw'
        if k == 'unwind':
            # the guard lives in the destructor: the scope is the second body
            failed = bodies[1][0] == 'call-throw'
        if k == 'empty':
            entered = False
        want = 1 if entered and runs(pol, failed) else 0
        if len(acts) != want:
            fail('the action runs %d times, expected %d, when the scope %s' % (len(acts), want, 'fails' if failed else 'succeeds'), s)
            continue
        if acts:
            # nothing of the scope may come after the action
            i = [j for j, x in enumerate(s.ev) if isact(x)][0]
            if any(isbody(x) or x[1] == 'arch::val()' for x in s.ev[i:]):
                fail('the action runs before the scope is left', s)
        want = 'ret'
        if k not in ('inner', 'unwind', 'handler') and failed or k == 'handler' and failed or athrow and k != 'unwind':
            want = 'throw'
        if k == 'unwind' and bodies[0][0] == 'call-throw':
            want = 'throw'
        if k in ('copy', 'ccopy', 'move') and not entered:
            want = 'throw'
        if kind != want:
            fail('the scope is left by %s, expected %s' % (kind, want), s)
        if k == 'value' and acts:
            val = [x for x in s.ev if x[1] == 'arch::val()'][-1][3]
            if acts[0][0] == 'call' and e.norm(s, acts[0][2][0]) != e.norm(s, val):
                fail('the action sees %s, the variable is %s at scope exit' % (show(acts[0][2][0]), show(val)), s)
    chk.engine(e)
    for key, v in e.viol.items():
        chk.violate('%s/%s' % (name, v['kind']), v['msg'], loc=v['loc'], path=v['path'])


def order(chk, mod):
    e = engine(mod)
    for kind, v, s in e.call(State(), 'order', []):
        chk.count('paths')
        got = [x[2][0] for x in s.ev if isact(x)]
        if got != [2, 1]:
            chk.violate('order', 'actions run in the order %s, expected the last deferred first' % got)
    chk.engine(e)
