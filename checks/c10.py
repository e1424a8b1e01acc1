import sstr


def check(chk):
    return sstr.check(chk, 'text')
