"""Once something has been found there is nothing to gain from exploring the (now broken) program for long."""
import time


class AnalysisLimit(Exception):
    pass


START = time.time()
AFTER = 40
TOTAL = 780
engines = []
_first = [None]


def found():
    if _first[0] is None:
        _first[0] = time.time()


def check():
    t = time.time()
    if _first[0] is not None and t - _first[0] > AFTER:
        raise AnalysisLimit('stopped %d s after the first violation' % AFTER)
    if t - START > TOTAL:
        raise AnalysisLimit('time budget')
