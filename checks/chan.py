import build
from conc import Conc

TYPES = [('B', 'B'), ('A', 'A'), ('M', 'M')]


def analyse(chk, kind, cats):
    chk.headers = ['channel.hpp', 'exchange_channel.hpp']
    chk.assumptions += ['pthread mutexes and condition variables behave as POSIX says and do not fail',
                        'std::deque is modelled by its specification (sequence container), everything else of libstdc++ is analysed',
                        'terminate caused by std::bad_alloc of the queue in operations whose noexcept depends on the element type only is accepted']
    mod = build.compile_bc('channel.cpp')
    for p, x in TYPES:
        c = Conc(chk, mod, ('c' if kind == 'channel' else 'x') + p, x, kind)
        c.run()
        c.report(cats)
        chk.sample('%s: released states %d, waits %s' % (c.name, len(c.pool), {str(k): sorted(v) for k, v in c.waits.items()}))
    chk.require('wait_points', chk.counts.get('wait_points', 0), 3)
    chk.require('notification_obligations', chk.counts.get('notification_obligations', 0), 3)
