import greedy
from chan import analyse


def check(chk):
    chk.technique = 'thread modular abstract interpretation (lockset, wait/notify and content monitors)'
    analyse(chk, 'channel', ('fifo',))
    greedy.check(chk, 'channel.hpp', [], greedy.OWN_CHANNEL)
    return ''
