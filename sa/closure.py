"""Class level closure: the set of abstract object states reachable from the constructors under
every operation (including the states left behind by exceptions) is computed as a least fixpoint;
nothing is assumed about the representation."""
from dom import *
from engine import State


class ObjState:
    """abstract contents of one object: cells, live members, facts about its symbols"""
    __slots__ = ('cells', 'live', 'facts', 'trail', 'bad')

    def __init__(self, cells, live, facts=(), trail=''):
        self.cells = cells
        self.live = live
        self.facts = facts
        self.trail = trail
        self.bad = False

    def key(self):
        return (self.cells, self.live, self.facts)

    def show(self):
        return 'live=%s cells=%s' % (dict((o, c) for o, c in self.live),
                                     {o: show(v) for o, s, v in self.cells})


def place(eng, st, name, size, os=None, align=16):
    """put an object into st; symbols are tagged with its name"""
    obj = ('x', name)
    st.objs[obj] = ('x', size, align, False, True, 0)
    st.mem[obj] = {}
    st._own.add(obj)
    if os is not None:
        for o, s, v in os.cells:
            if v == '?':
                v = ('s', ('val', name, o), s * 8)
            elif type(v) is tuple and v[0] == 'k' and v[1] == '?':
                v = ('k', 'val', name, v[2], o)
            elif type(v) is tuple and v[0] == 'self':
                v = ('p', obj, v[1])
            st.mem[obj][o] = (s, v)
        for o, c in os.live:
            st.live[(obj, o)] = c
    return ('p', obj, 0)


def read(eng, st, name, extra=()):
    """the abstract state of object `name` in st, with every content generalised"""
    obj = ('x', name)
    cells = []
    lives = {o: c for (ob, o), c in st.live.items() if ob == obj}
    for o, (s, v) in sorted(st.cells(obj).items(), key=lambda x: repr(x[0])):
        if type(o) is not int:
            continue
        v = eng.norm(st, v)
        if v == UNDEF:
            continue
        if type(v) is int:
            cells.append((o, s, v))
        elif v[0] == 'k':
            if v[1] == 'part':
                cells.append((o, s, '?'))
            else:
                cells.append((o, s, ('k', '?', lives.get(o))))
        elif v[0] == 'p':
            if v[1] == obj and type(v[2]) is int:
                cells.append((o, s, ('self', v[2])))
            else:
                cells.append((o, s, v))
        elif v[0] == 'f':
            cells.append((o, s, v))
        else:
            cells.append((o, s, '?'))
    return ObjState(tuple(cells), tuple(sorted(lives.items(), key=repr)))


def contents(eng, st, name):
    """{offset: value} of an object, exact"""
    obj = ('x', name)
    return {o: (s, eng.norm(st, v)) for o, (s, v) in st.cells(obj).items() if eng.norm(st, v) != UNDEF}
