"""sandbox: fork, waitpid, signal and stream operations are events with every outcome POSIX allows; each path of the parent and of the
child must do and report exactly what the property says."""
import build
import equiv
import wit
from dom import *
from engine import State

SRC = '''#include <dice/template-library/sandbox.hpp>
#include <memory>
#include <utility>
namespace arch { int body(); int bodyn() noexcept; void vbody(); int use(int); int owned(int); }
using namespace dice::template_library;
struct Owner { std::unique_ptr<int> p; explicit Owner(int i) : p{new int{i}} {} int operator()() && { return arch::owned(*p); } };
extern "C" {
int x_int() { return (int) (DICE_SANDBOX { return arch::body(); }); }
int x_void() { return (int) (DICE_SANDBOX { arch::vbody(); }); }
int x_noexcept() { return (int) (DICE_SANDBOX { return arch::bodyn(); }); }
int x_main() { return (int) (detail_sandbox::SandBox{} + arch::body); }
int x_capture(int i) { return (int) (DICE_SANDBOX { int const j = i; i = 0; return arch::use(j); }); }
int x_owner(int i) { return (int) (detail_sandbox::SandBox{} + Owner{i}); }
}
'''
KINDS = [('x_int', 'body', 'a function returning int'), ('x_void', 'vbody', 'a function returning nothing'), ('x_noexcept', 'bodyn', 'a noexcept function'), ('x_main', 'body', 'a function pointer'),
         ('x_capture', 'use', 'a function using variables of the caller'), ('x_owner', 'owned', 'a move-only function object')]
FLUSHES = {'cout', 'cerr', 'stdio'}
EINTR, ECHILD = 4, 10
MUST_RESET = [s for s in range(1, 65) if s not in (9, 19, 32, 33)]  # those cannot be changed


class Box:
    def __init__(self, chk, mod, retries):
        self.chk, self.mod, self.retries = chk, mod, retries
        eng = self.eng = equiv.engine(mod)
        M = eng.model
        M(r'^(fork|vfork|_Fork)$', self.fork)
        M(r'^(waitpid|wait|wait4)$', self.wait)
        M(r'^__errno_location$', lambda eng, st, I, a, fn: [('ret', self.errno(st), st)])
        M(r'^(_exit|_Exit)$', lambda eng, st, I, a, fn: [('end', ('_exit', trunc(a[0], 32, 8)), st)])
        M(r'^(exit|std::exit|quick_exit|std::quick_exit)$', lambda eng, st, I, a, fn: [('end', ('exit', fn.dem), st)])
        M(r'^std::(basic_)?ostream(<char, std::char_traits<char> ?>)?::flush\(\)$', self.flush)
        M(r'^fflush(_unlocked)?$', self.fflush)
        M(r'^(sigemptyset|sigfillset)$', self.sigset)
        M(r'^(sigprocmask|pthread_sigmask)$', self.sigmask)
        M(r'^sigaction$', self.sigaction)
        M(r'^(signal|bsd_signal)$', self.signal)
        M(r'^std::(_V2::)?system_category\(\)$', lambda eng, st, I, a, fn: [('ret', self.category(st), st)])
        M(r'^std::(_V2::)?generic_category\(\)$', lambda eng, st, I, a, fn: [('ret', (eng.extobj(st, 'generic_category'), ('p', ('x', 'generic_category'), 0))[1], st)])
        M(r'^std::system_error::system_error\((int|std::error_code)', self.syserr)
        M(r'^kill$|^raise$|^waitid$', lambda eng, st, I, a, fn: [('end', ('other', fn.dem), st)])
        M(r'^getpid$', lambda eng, st, I, a, fn: [('ret', ('s', ('getpid',), 32), st)])

    # errno is one cell; calls that may fail leave anything in it
    def errno(self, st):
        o = ('x', 'errno')
        if o not in st.objs:
            self.eng.extobj(st, 'errno')
            self.setno(st, ('s', ('errno', 0), 32))
        return ('p', o, 0)

    def setno(self, st, v):
        if ('x', 'errno') not in st.objs:
            self.eng.extobj(st, 'errno')
        self.eng.store(st, ('x', 'errno'), 0, 4, v)

    def clobber(self, st):
        n = st.mon.get('#clobber', 0) + 1
        st.mon['#clobber'] = n
        self.setno(st, ('s', ('clobbered', n), 32))

    def category(self, st):
        o = ('x', 'system_category')
        if o not in st.objs:
            self.eng.extobj(st, 'system_category')
        return ('p', o, 0)

    def syserr(self, eng, st, I, a, fn):
        p = eng.ptr(st, a[0], I, 'system_error')
        if p is None:
            return []
        code = a[1]
        eng.store(st, p[0], p[1] + 16, 4, trunc(code, 64, 32) if type(code) is int or code[0] == 's' and code[2] == 64 else code)
        eng.store(st, p[0], p[1] + 24, 8, a[2])
        s = st.copy()
        return [eng.raise_(s, '_ZTISt9bad_alloc', I), ('ret', None, st)]

    def add(self, st, *e):
        st.ev = st.ev + (e,)

    def fork(self, eng, st, I, a, fn):
        outs = []
        if [e for e in st.ev if e[0] == 'fork']:
            self.add(st, 'second fork')
            return [('end', ('second fork', I.loc()), st)]
        if fn.dem == 'vfork':
            self.add(st, 'vfork')
        s = st.copy()
        self.add(s, 'fork', 'fails')
        self.setno(s, ('s', ('fork errno',), 32))
        for s in eng.assume(s, cmpv('sgt', ('s', ('fork errno',), 32), 0, 32), True):
            outs.append(('ret', 0xffffffff, s))
        s = st.copy()
        self.add(s, 'fork', 'child')
        self.clobber(s)
        outs.append(('ret', 0, s))
        self.add(st, 'fork', 'parent')
        self.clobber(st)
        pid = ('s', ('pid',), 32)
        for s in eng.assume(st, cmpv('sgt', pid, 0, 32), True):
            outs.append(('ret', pid, s))
        return outs

    def wait(self, eng, st, I, a, fn):
        if fn.dem == 'wait':
            a = [0xffffffff, a[0], 0]
        pid, status, opt = eng.norm(st, a[0]), eng.norm(st, a[1]), eng.norm(st, a[2])
        outs = []
        if type(opt) is not int:
            raise RuntimeError('waitpid with options that are not constant')
        n = len([e for e in st.ev if e[0] == 'wait'])
        prev = [e for e in st.ev if e[0] == 'wait'][-1:]
        if pid != ('s', ('pid',), 32) or prev and (prev[0][3] == 'fails' or type(prev[0][3]) is tuple):
            self.add(st, 'wait', pid, opt, 'misused')
            return [('end', ('wait', I.loc()), st)]

        def result(s, r, st_, err=None):
            if st_ is not None and status != 0:
                p = eng.ptr(s, status, I, 'waitpid')
                if p is None:
                    return
                eng.store(s, p[0], p[1], 4, st_)
            if err is not None:
                self.setno(s, err)
            outs.append(('ret', r, s))

        # interrupted, a bounded number of times in a row
        if n < self.retries:
            s = st.copy()
            self.add(s, 'wait', pid, opt, 'interrupted')
            result(s, 0xffffffff, None, EINTR)
        # fails for good
        s = st.copy()
        self.add(s, 'wait', pid, opt, 'fails')
        e = ('s', ('wait errno',), 32)
        for s in eng.assume(s, cmpv('sgt', e, 0, 32), True):
            for s in eng.assume(s, cmpv('eq', e, EINTR, 32), False):
                result(s, 0xffffffff, None, e)
        if opt & 1:  # WNOHANG: still running (the program may poll, but only so often here)
            if n < self.retries:
                s = st.copy()
                self.add(s, 'wait', pid, opt, 'running')
                result(s, 0, None)
        if opt & 2 and n < self.retries:  # WUNTRACED
            s = st.copy()
            self.add(s, 'wait', pid, opt, 'stopped')
            result(s, ('s', ('pid',), 32), 0x137f)
        if opt & 8 and n < self.retries:
            s = st.copy()
            self.add(s, 'wait', pid, opt, 'continued')
            result(s, ('s', ('pid',), 32), 0xffff)
        # the child ended; the status is enumerated after the first wait, sampled later
        if n == 0 or self.chk.thorough:
            sts = [c << 8 for c in range(256)] + [s for s in range(1, 65)] + [s | 0x80 for s in range(1, 65)]
        else:
            sts = [0, 1 << 8, 255 << 8, 6, 11 | 0x80]
        for w in sts:
            s = st.copy()
            self.add(s, 'wait', pid, opt, ('ended', w))
            self.clobber(s)
            result(s, ('s', ('pid',), 32), w)
        return outs

    def flush(self, eng, st, I, a, fn):
        p = eng.norm(st, a[0])
        name = repr(p)
        name = next((n for n in ('cout', 'cerr', 'clog') if '_ZSt4' + n in name), None)
        if name is None:
            raise RuntimeError('flush of unknown stream %s' % show(p))
        s = st.copy()
        self.add(s, 'flush-throw', name)
        self.clobber(s)
        self.add(st, 'flush', name)
        self.clobber(st)
        return [eng.raise_(s, 'USER', I), ('ret', p, st)]

    def fflush(self, eng, st, I, a, fn):
        p = eng.norm(st, a[0])
        self.add(st, 'flush', 'stdio' if p == 0 else 'one stream')
        self.clobber(st)
        return [('ret', 0, st), ] if p == 0 else [('ret', 0, st)]

    def sigset(self, eng, st, I, a, fn):
        p = eng.ptr(st, a[0], I, fn.dem)
        if p is None:
            return []
        r = eng.do_memset(st, a[0], 0xff if fn.dem == 'sigfillset' else 0, 128, I)
        if r == 'dead':
            return []
        return [('ret', 0, st)]

    def sigmask(self, eng, st, I, a, fn):
        how = eng.norm(st, a[0])
        if a[1] != 0:
            p = eng.ptr(st, a[1], I, fn.dem)
            if p is None:
                return []
            v = eng.norm(st, eng.load(st, p[0], p[1], 8, I))
            self.add(st, 'mask', 'emptied' if how == 2 and v == 0 or how == 1 and v == mask(64) else 'changed')
        self.clobber(st)
        return [('ret', 0, st)]

    def sigaction(self, eng, st, I, a, fn):
        sig = eng.norm(st, a[0])
        if type(sig) is not int:
            raise RuntimeError('sigaction of a signal that is not constant')
        if eng.norm(st, a[1]) != 0:
            p = eng.ptr(st, a[1], I, fn.dem)
            if p is None:
                return []
            h = eng.norm(st, eng.load(st, p[0], p[1], 8, I))
            self.reset(st, sig, h)
        self.clobber(st)
        return [('ret', 0xffffffff if sig not in MUST_RESET else 0, st)]

    def signal(self, eng, st, I, a, fn):
        self.reset(st, eng.norm(st, a[0]), eng.norm(st, a[1]))
        self.clobber(st)
        return [('ret', 0, st)]

    def reset(self, st, sig, h):
        self.add(st, 'handler', sig, 'default' if h == 0 else 'ignored' if h == 1 else 'other')

    # ---------------------------------------------------------------- rules
    def judge(self, fn, body, what):
        chk, eng = self.chk, self.eng
        st = State()
        args = [('s', ('arg',), 32)] if self.mod.fns[fn].ptys else []
        roles = {}

        def bad(kind, msg, ev=None):
            chk.violate('%s/%s' % (what, kind), '%s: %s' % (what, msg), loc='sandbox.hpp', path=[str(e) for e in (ev or ()) if e[0] != 'handler'][-14:])

        for kind, v, s in eng.call(st, fn, args):
            ev = s.ev
            chk.count('paths')
            f = [i for i, e in enumerate(ev) if e[0] == 'fork']
            calls = [i for i, e in enumerate(ev) if e[0] in ('call', 'call-throw')]
            for i in calls:
                if not f or i < f[0] or ev[f[0]][1] != 'child':
                    bad('body-outside', 'the function runs outside the child process', ev)
            if not f:
                roles['before'] = roles.get('before', 0) + 1
                if kind == 'throw' and (any(e[0] == 'flush-throw' for e in ev) or v[1] != 'USER'):
                    continue  # nothing was started
                bad('no-fork', 'no child process is started, but the call ends as if it was (%s)' % kind, ev)
                continue
            role = ev[f[0]][1]
            roles[role] = roles.get(role, 0) + 1
            before = ev[:f[0]]
            after = ev[f[0] + 1:]
            if any(e[0] == 'vfork' for e in ev):
                bad('vfork', 'the child shares the memory of the parent', ev)
            miss = FLUSHES - {e[1] for e in before if e[0] == 'flush'}
            if miss:
                bad('unflushed-before', 'buffered output of %s is not flushed before the child is started, so it is written twice' % ', '.join(sorted(miss)), ev)
            if any(e[0] in ('handler', 'mask') for e in before) or role != 'child' and any(e[0] in ('handler', 'mask') for e in after):
                bad('parent-signals', 'signal handling of the parent is changed', ev)
            if role == 'fails':
                self.failed(bad, kind, v, s, ('s', ('fork errno',), 32), 'fork', after, ev)
                if any(e[0] == 'wait' for e in after):
                    bad('wait-without-child', 'waits although no child was started', ev)
            elif role == 'child':
                self.child(bad, kind, v, s, body, after, ev, args)
            else:
                self.parent(bad, kind, v, s, after, ev)
        chk.engine(eng)
        for x in eng.viol.values():
            bad(x['kind'], x['msg'])
        for r in ('fails', 'child', 'parent'):
            if not roles.get(r) and not chk.violations:
                raise RuntimeError('%s: no path for the role %s' % (what, r))

    def failed(self, bad, kind, v, s, errno, call, after, ev):
        if kind != 'throw':
            bad(call + '-failure', 'failure of %s is not reported by an exception, the call ends with %s' % (call, kind), ev)
            return
        t = str(v[1])
        if 'bad_alloc' in t or t == 'USER' and any(e[0] == 'flush-throw' for e in after):
            return
        if 'system_error' not in t:
            bad(call + '-failure', 'failure of %s is reported by %s' % (call, t), ev)
            return
        o = v[2][1]
        code, cat = self.eng.norm(s, self.eng.load(s, o, 16, 4)), self.eng.norm(s, self.eng.load(s, o, 24, 8))
        if code != errno:
            bad(call + '-errno', 'the error reported when %s fails is %s instead of its errno' % (call, show(code)), ev)
        if cat != ('p', ('x', 'system_category'), 0):
            bad(call + '-category', 'the error reported when %s fails is not of the system category' % call, ev)

    def child(self, bad, kind, v, s, body, after, ev, args):
        if kind != 'end' or v[0] not in ('_exit', 'terminate', 'abort'):
            bad('child-escapes', 'the child process does not end in the sandbox but %s' % ('returns to the caller' if kind == 'ret' else 'throws %s to the caller' % v[1] if kind == 'throw' else 'ends by %s' % v[0]), ev)
            return
        calls = [i for i, e in enumerate(after) if e[0] in ('call', 'call-throw')]
        if any(e[0] == 'wait' for e in after):
            bad('child-waits', 'the child waits for a process', ev)
        if not calls and kind == 'end':
            bad('body-missing', 'the function does not run in the child', ev)
            return
        if len(calls) != 1:
            bad('body-twice', 'the function runs %d times' % len(calls), ev)
        c = calls[0]
        if not after[c][1].startswith('arch::' + body + '('):
            bad('other-body', 'runs ' + after[c][1], ev)
        if args and after[c][2] != tuple(args):
            bad('captures', 'the function sees %s' % ', '.join(show(x) for x in after[c][2]), ev)
        last = {}
        for e in after[:c]:
            if e[0] == 'handler':
                last[e[1]] = e[2]
        left = [x for x in MUST_RESET if last.get(x) != 'default']
        if left:
            bad('handlers', 'handlers of signal(s) %s are not reset to the default before the function runs' % ', '.join(map(str, left[:6])), ev)
        m = [e[1] for e in after[:c] if e[0] == 'mask']
        if not m or m[-1] != 'emptied':
            bad('mask', 'blocked signals are not unblocked before the function runs', ev)
        threw = after[c][0] == 'call-throw'
        flushed = after[c + 1:]
        if threw or any(e[0] == 'flush-throw' for e in flushed):
            if v[0] == '_exit':
                bad('exception', 'an exception in the child is not reported as abort', ev)
            return
        if v[0] != '_exit':
            bad('abort', 'the child aborts although the function returned', ev)
            return
        miss = FLUSHES - {e[1] for e in flushed if e[0] == 'flush'}
        if miss:
            bad('unflushed-after', 'output of %s is lost when the child ends' % ', '.join(sorted(miss)), ev)
        r = after[c][3]
        want = trunc(r, 32, 8) if r is not None else 0
        if self.eng.norm(s, v[1]) != self.eng.norm(s, want):
            bad('exit-code', 'the child exits with %s instead of %s' % (show(v[1]), show(want)), ev)

    def parent(self, bad, kind, v, s, after, ev):
        waits = [e for e in after if e[0] == 'wait']
        for w in waits:
            if w[1] != ('s', ('pid',), 32):
                bad('wait-pid', 'waits for %s instead of the child' % (show(w[1]) if w[1] != 0xffffffff else 'any process'), ev)
                return
        if not waits:
            bad('no-wait', 'does not wait for the child', ev)
            return
        last = waits[-1][3]
        for w in waits[:-1]:
            if w[3] == 'fails' or type(w[3]) is tuple:
                bad('wait-again', 'waits again although waiting failed or the child is gone', ev)
                return
        if last == 'fails':
            self.failed(bad, kind, v, s, ('s', ('wait errno',), 32), 'waitpid', after, ev)
        elif type(last) is tuple:
            w = last[1]
            want = (0xffffffff if w == 0 else 0xfffffffe) if w & 0x7f == 0 else w & 0x7f
            if kind != 'ret':
                bad('result', 'ends with %s for wait status %#x' % (kind if kind != 'throw' else v[1], w), ev)
            elif v is None or self.eng.norm(s, v) != want:
                bad('result', 'reports %s instead of %d for wait status %#x' % (show(v), want - (1 << 32) if want >> 31 else want, w), ev)
        else:
            bad('wait-gives-up', 'ends although the child is still running (waitpid was %s)' % last, ev)


def check(chk):
    chk.technique = 'abstract interpretation of the compiler IR with system calls as events'
    chk.headers = ['sandbox.hpp']
    mod = build.compile_bc(SRC)
    A = [('values', 'static_cast<int>(SubProcessResult::ExitSuccess) < 0 && static_cast<int>(SubProcessResult::ExitFailure) < 0 && SubProcessResult::ExitSuccess != SubProcessResult::ExitFailure')] + \
        [('signal ' + n, 'static_cast<int>(SubProcessResult::%s) == %s' % (n, s)) for n, s in (('Interrupted', 'SIGINT'), ('IllegalInstruction', 'SIGILL'), ('Aborted', 'SIGABRT'), ('FloatingPointException', 'SIGFPE'), ('SegmentationFault', 'SIGSEGV'), ('Terminated', 'SIGTERM'))] + \
        [('result type', 'std::is_same_v<SubProcessResult, decltype(detail_sandbox::SandBox{} + std::declval<int (*)()>())> && std::is_same_v<SubProcessResult, decltype(detail_sandbox::SandBox{} + std::declval<void (*)()>())>')]
    pre = '#include <dice/template-library/sandbox.hpp>\n#include <type_traits>\nusing namespace dice::template_library;\n'
    wit.asserts(chk, 'values', pre, A)
    wit.asserts(chk, 'values-clang', pre, A, build.CLANG)
    for fn, body, what in KINDS:
        b = Box(chk, mod, 6 if chk.thorough else 3)
        b.judge(fn, body, what)
        if chk.violations:
            return 'stopped at the first kind of function with violations'
    chk.require('paths', chk.counts['paths'], 2000)
    return 'Every path of the parent and the child for six kinds of functions; all 384 ways a child can end.'
