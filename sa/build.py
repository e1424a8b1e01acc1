"""Compiles witness translation units against /repo's current headers."""
import itertools
import os
import subprocess
import tempfile
import shutil
import llvmir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++-18'
GXX = 'g++-14'


class BuildError(Exception):
    pass


class WitnessRejected(Exception):
    """the library's headers compile, the witness does not"""

    def __init__(self, msg, log):
        Exception.__init__(self, msg)
        self.log = log


_tmp = None
_n = itertools.count()


def tmpdir():
    global _tmp
    if _tmp is None or not _tmp.endswith('.%d' % os.getpid()):
        _tmp = tempfile.mkdtemp(prefix='verif-', suffix='.%d' % os.getpid())
        import atexit
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def cleanup():
    """for forked workers, which do not run atexit handlers"""
    global _tmp
    if _tmp is not None and _tmp.endswith('.%d' % os.getpid()):
        shutil.rmtree(_tmp, True)
        _tmp = None


def flags(defs=()):
    return ['-std=c++23', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'witness')] + \
        ['-D' + d for d in defs]


def run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def header_ok(headers):
    t = os.path.join(tmpdir(), 'hdr.cpp')
    with open(t, 'w') as f:
        for h in headers:
            f.write('#include <dice/template-library/%s>\n' % h)
    return run([GXX] + flags() + ['-fsyntax-only', t])


def compile_bc(src, defs=(), passes='function(sroa)', extra=()):
    """witness .cpp -> Module; src is a path or source text"""
    if '\n' in src:
        path = os.path.join(tmpdir(), 'w%d.cpp' % next(_n))
        with open(path, 'w') as f:
            f.write(src)
    else:
        path = os.path.join(VERIF, 'witness', src)
    out = os.path.join(tmpdir(), os.path.basename(path) + '.%d.bc' % next(_n))
    r = run([CLANG] + flags(defs) + ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-w', '-fno-threadsafe-statics',
                                     '-emit-llvm', '-c', path, '-o', out] + list(extra))
    if r.returncode:
        g = run([GXX] + flags(defs) + ['-fsyntax-only', '-w', path])
        if g.returncode == 0:
            raise BuildError('clang rejects a witness that g++ accepts:\n' + r.stdout[:3000])
        raise WitnessRejected('witness %s does not compile' % os.path.basename(path), r.stdout)
    out2 = out[:-3] + '.o.bc'
    r = run(['opt-18', '-passes=' + passes, out, '-o', out2])
    if r.returncode:
        raise BuildError(r.stdout)
    return llvmir.Module(out2)


def syntax(src, compiler=None, defs=(), extra=()):
    """-> (ok, log) for source text"""
    path = os.path.join(tmpdir(), 's%d.cpp' % next(_n))
    with open(path, 'w') as f:
        f.write(src)
    r = run([compiler or GXX] + flags(defs) + ['-fsyntax-only', '-w', path] + list(extra))
    return r.returncode == 0, r.stdout
