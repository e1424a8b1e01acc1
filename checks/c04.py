import greedy
from chan import analyse


def check(chk):
    chk.technique = 'thread modular abstract interpretation (lockset, wait/notify and content monitors)'
    analyse(chk, 'exchange', ('race', 'lock', 'wake', 'fifo'))
    greedy.check(chk, 'exchange_channel.hpp', [], greedy.OWN_EXCHANGE)
    return ''
