"""Type-level witnesses: static assertions, decided by the compiler, whose expected values come from an independent reference."""
import os
import re
from concurrent.futures import ThreadPoolExecutor
import build


def asserts(chk, group, pre, items, compiler=None, defs=(), extra=(), chunk=1500):
    """items: (id, condition) or (id, condition, message). Each failing (or ill-formed) condition is a violation of group/id."""
    seen = {}
    for it in items:
        if it[1] in seen:
            continue
        seen[it[1]] = it
    items = list(seen.values())
    parts = [items[i:i + chunk] for i in range(0, len(items), chunk)]
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda k: _one(group, pre, parts[k], compiler, defs, extra, k), range(len(parts))))
    for (bad, log), part in zip(rs, parts):
        if bad is None:
            raise build.WitnessRejected('witness %s does not compile' % group, log)
        for k in bad:
            it = part[k]
            chk.violate('%s/%s' % (group, it[0]), 'does not hold: %s' % it[1] if len(it) < 3 else it[2])
    chk.count('type_level_assertions', len(items))
    for it in items[:3]:
        chk.sample('%s: %s' % (group, it[1]))
    return len(items)


def _one(group, pre, items, compiler, defs, extra, n):
    head = pre.rstrip('\n').count('\n') + 1
    src = pre.rstrip('\n') + '\n' + ''.join('static_assert(%s);\n' % it[1].replace('\n', ' ') for it in items)
    path = os.path.join(build.tmpdir(), 'wit_%s_%s_%d.cpp' % (re.sub(r'\W', '', group), compiler or 'g', n))
    with open(path, 'w') as f:
        f.write(src)
    cmd = [compiler or build.GXX] + build.flags(defs) + ['-fsyntax-only', '-w'] + list(extra)
    if compiler and 'clang' in compiler:
        cmd += ['-ferror-limit=0', '-ftemplate-backtrace-limit=0']
    else:
        cmd += ['-fmax-errors=0', '-ftemplate-backtrace-limit=0']
    r = build.run(cmd + [path])
    if r.returncode == 0:
        return [], ''
    bad = set()
    for m in re.finditer(re.escape(path) + r':(\d+)', r.stdout):
        k = int(m.group(1)) - head - 1
        if 0 <= k < len(items):
            bad.add(k)
    if not bad:
        return None, r.stdout
    if len(bad) > 40:
        bad = sorted(bad)[:40]
    return sorted(bad), r.stdout


def reject(chk, group, pre, items, compiler=None, defs=()):
    """items: (id, code that must not compile, the same code with the offending part replaced, which must compile)"""
    def one(it):
        bad, _ = build.syntax(pre + '\n' + it[1] + '\n', compiler, defs)
        good, log = build.syntax(pre + '\n' + it[2] + '\n', compiler, defs)
        return bad, good, log
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, items))
    for it, (bad, good, log) in zip(items, rs):
        chk.count('rejection_witnesses')
        if not good:
            chk.violate('%s/%s' % (group, it[0]), 'does not compile: %s\n%s' % (it[2], log[:600]))
        elif bad:
            chk.violate('%s/%s' % (group, it[0]), 'compiles but must be rejected: %s' % it[1])


def accept(chk, group, pre, items, compiler=None, defs=()):
    """items: (id, code that must compile)"""
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda it: build.syntax(pre + '\n' + it[1] + '\n', compiler, defs), items))
    if not build.syntax(pre, compiler, defs)[0]:
        raise RuntimeError('%s: the preamble of the witnesses does not compile' % group)
    for it, (ok, log) in zip(items, rs):
        chk.count('acceptance_witnesses')
        if not ok:
            chk.violate('%s/%s' % (group, it[0]), 'does not compile: %s\n%s' % (it[1], log[:600]))
