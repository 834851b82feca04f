"""Reference model of ak.ArrayBuilder: what a sequence of append commands means.

The model knows nothing about buffers, widening or unions.  It keeps plain Python values, plus, for each
place in the structure, which record fields have been named there (a record that lacks a field which its
siblings have gets None for it)."""
import datetime


class Illegal(Exception):
    """The command is not legal at this point."""


class Bad(object):
    """An object that cannot be converted."""


class Node(object):
    """One place where values can be put."""

    def __init__(self):
        self.recs, self.tups, self.lst = {}, {}, None


class RecVal(object):
    def __init__(self, fields, vals):
        self.fields, self.vals = fields, vals       # fields: dict shared with the place


class Frame(object):
    def __init__(self, kind, node):
        self.kind, self.node = kind, node
        self.items = []         # list and top
        self.fields = None      # record: name -> Node; tuple: list of Nodes
        self.cur = None
        self.fills = {}


class Model(object):
    def __init__(self):
        self.root = Node()
        self.stack = [Frame("top", self.root)]
        self.stuck = False

    # -- where the next value goes
    def place(self):
        f = self.stack[-1]
        if f.kind in ("top", "list"):
            return f.node
        if f.cur is None:
            raise Illegal("no field selected")
        return f.fields[f.cur]

    def put(self, v):
        f = self.stack[-1]
        if f.kind in ("top", "list"):
            f.items.append(v)
        elif f.cur is None:
            raise Illegal("no field selected")
        else:
            f.fills.setdefault(f.cur, []).append(v)

    def begin_list(self):
        p = self.place()
        if p.lst is None:
            p.lst = Node()
        self.stack.append(Frame("list", p.lst))

    def end_list(self):
        f = self.stack[-1]
        if f.kind != "list":
            raise Illegal("end_list")
        self.stack.pop()
        self.put(f.items)

    def begin_tuple(self, n):
        if n < 0:
            raise Illegal("negative")
        p = self.place()
        f = Frame("tuple", p)
        f.fields = p.tups.setdefault(n, [Node() for _ in range(n)])
        self.stack.append(f)

    def index(self, i):
        f = self.stack[-1]
        if f.kind != "tuple" or not 0 <= i < len(f.fields):
            raise Illegal("index")
        f.cur = i

    def end_tuple(self):
        f = self.stack[-1]
        if f.kind != "tuple":
            raise Illegal("end_tuple")
        if any(len(x) > 1 for x in f.fills.values()):
            self.stuck = True
            raise Illegal("filled more than once")
        self.stack.pop()
        self.put(tuple(f.fills[i][0] if i in f.fills else None for i in range(len(f.fields))))

    def begin_record(self, name=None):
        p = self.place()
        f = Frame("record", p)
        f.fields = p.recs.setdefault(name, {})
        self.stack.append(f)

    def field(self, key):
        f = self.stack[-1]
        if f.kind != "record":
            raise Illegal("field")
        if key not in f.fields:
            f.fields[key] = Node()
        f.cur = key

    def end_record(self):
        f = self.stack[-1]
        if f.kind != "record":
            raise Illegal("end_record")
        if any(len(x) > 1 for x in f.fills.values()):
            self.stuck = True
            raise Illegal("filled more than once")
        self.stack.pop()
        self.put(RecVal(f.fields, {k: v[0] for k, v in f.fills.items()}))

    def append(self, obj):
        """Any Python object."""
        if isinstance(obj, Bad):
            raise Illegal("cannot convert")
        if isinstance(obj, tuple):
            self.begin_tuple(len(obj))
            for i, x in enumerate(obj):
                self.index(i)
                self.append(x)
            self.end_tuple()
        elif isinstance(obj, dict):
            self.begin_record()
            for k, x in obj.items():
                self.field(k)
                self.append(x)
            self.end_record()
        elif isinstance(obj, list):
            self.begin_list()
            for x in obj:
                self.append(x)
            self.end_list()
        else:
            self.put(obj)

    def clear(self):
        """Removes the data, closes what is open, keeps what is known about types."""
        self.stack = [Frame("top", self.root)]
        self.stuck = False

    def open(self):
        return len(self.stack) > 1

    def value(self):
        return [plain(v) for v in self.stack[0].items]


def plain(v):
    if isinstance(v, RecVal):
        return {k: plain(v.vals.get(k)) for k in v.fields}
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return v


def canon(x):
    """Values that widening may spell differently, spelled one way."""
    import numpy as np
    if x is None:
        return "None"
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    if isinstance(x, (int, np.integer)) and not isinstance(x, (np.timedelta64, np.datetime64)):
        return repr(complex(x)) if abs(int(x)) < 2**53 else repr(int(x))
    if isinstance(x, (float, complex, np.floating, np.complexfloating)):
        return repr(complex(x) + 0)
    if isinstance(x, (np.datetime64, datetime.datetime, datetime.date)):
        return "dt%d" % np.datetime64(x).astype("datetime64[us]").astype(np.int64)
    if isinstance(x, (np.timedelta64, datetime.timedelta)):
        return "td%d" % np.timedelta64(x).astype("timedelta64[us]").astype(np.int64)
    if isinstance(x, bytes):
        return repr(x)
    if isinstance(x, str):
        return repr(x)
    if isinstance(x, dict):
        return "{" + ",".join("%s:%s" % (k, canon(x[k])) for k in sorted(x)) + "}"
    if isinstance(x, tuple):
        return "(" + ",".join(canon(y) for y in x) + ",)"
    if isinstance(x, list):
        return "[" + ",".join(canon(y) for y in x) + "]"
    raise TypeError(type(x))
