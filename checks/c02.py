from chan import analyse


def check(chk):
    chk.technique = 'thread modular abstract interpretation (lockset, wait/notify and content monitors)'
    analyse(chk, 'channel', ('wake',))
    return ''
