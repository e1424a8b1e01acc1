import build
import greedy
import par
from v2 import V2

TYPES = [('AB', 'A', 'B'), ('BD', 'B', 'D'), ('TB', 'T', 'B'), ('BT', 'B', 'T'), ('TS', 'T', 'S'), ('MN', 'M', 'N'),
         ('UB', 'U', 'B'), ('EM', 'E', 'M'), ('RR', 'R', 'R2'), ('RT', 'R', 'T')]
# exactly one operation may throw
TYPES += [x for g in ('GD', 'GC', 'GM', 'GA', 'GV') for x in ((g + 'A', g, 'A'), ('A' + g, 'A', g))]


def job(chk, defs, types):
    mod = build.compile_bc('c06.cpp', defs)
    for p, x, y in types:
        V2(chk, mod, p, x, y).run()


def check(chk):
    chk.technique = 'typestate / lifetime abstract interpretation, class-level closure'
    chk.headers = ['variant2.hpp']
    configs = [(), ('NDEBUG',)]
    par.run(chk, job, [(d, TYPES[i::8]) for d in configs for i in range(8)])
    chk.require('object_states', chk.counts['object_states'], 50)
    greedy.check(chk, 'variant2.hpp', greedy.VARIANT, greedy.OWN_VARIANT)
    return ''
