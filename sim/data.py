"""Random data: schemas, raw values, plain-Python reference values, and awkward layouts
in many physical representations.  Everything is a pure function of the plan."""
import random

NUM = {"i64": "int64", "f64": "float64", "bool": "bool", "i32": "int32", "u8": "uint8", "f32": "float32",
       "i16": "int16", "i8": "int8", "u32": "uint32", "u64": "uint64", "u16": "uint16"}
WORDS = ["", "a", "xy", "one", "two three", "\u00e9", "\u4e2d\u6587", "q\"uote", "tab\t", "z" * 12]
FIELDS = ["x", "y", "z", "pt", "eta"]


# ------------------------------------------------------------------ schemas
def rand_schema(rng, depth, kinds=None):
    kinds = kinds or {}
    leafs = kinds.get("leafs", ["i64", "f64", "bool", "i32", "f32", "u8", "str"])
    if depth <= 0:
        return [rng.choice(leafs)]
    r = rng.random()
    inner = lambda: rand_schema(rng, depth - 1, kinds)  # noqa: E731
    if r < 0.30:
        return ["list", inner()]
    if r < 0.36 and kinds.get("reg", True):
        return ["reg", rng.randint(1, 3), inner()]
    if r < 0.52 and kinds.get("opt", True):
        s = inner()
        while s[0] in ("opt", "uni"):
            s = rand_schema(rng, depth - 1, dict(kinds, uni=False, opt=False))
        return ["opt", s]
    if r < 0.74 and kinds.get("rec", True):
        n = rng.randint(1, 3)
        names = rng.sample(FIELDS, n)
        return ["rec", [[k, inner()] for k in names]]
    if r < 0.80 and kinds.get("tup", True):
        return ["tup", [inner() for _ in range(rng.randint(1, 3))]]
    if r < 0.86 and kinds.get("uni", True):
        # two clearly different branches, so that the union cannot be merged away
        a = [rng.choice(["i64", "f64", "bool"])]
        b = rng.choice([["str"], ["list", ["i64"]], ["list", ["f64"]], ["rec", [["x", ["i64"]]]]])
        return ["uni", [a, b]]
    return [rng.choice(leafs)]


def rand_raw(rng, s, big=4):
    k = s[0]
    if k in ("i64",):
        return rng.choice([0, 1, -1, rng.randint(-9, 9), rng.randint(-1000, 1000)])
    if k in ("i32", "i16", "i8"):
        return rng.randint(-9, 9)
    if k in ("u8", "u32", "u64", "u16"):
        return rng.randint(0, 99)
    if k in ("f64", "f32"):
        return rng.choice([0.0, 0.5, -1.5, float(rng.randint(-8, 8)), rng.randint(-64, 64) / 4.0])
    if k == "bool":
        return rng.random() < 0.5
    if k in ("str", "bytes"):
        return rng.choice(WORDS)
    if k == "list":
        n = rng.choice([0, 1, 2, rng.randint(0, big)])
        return [rand_raw(rng, s[1], big) for _ in range(n)]
    if k == "reg":
        return [rand_raw(rng, s[2], big) for _ in range(s[1])]
    if k == "opt":
        return None if rng.random() < 0.3 else rand_raw(rng, s[1], big)
    if k == "rec":
        return [rand_raw(rng, t, big) for _, t in s[1]]
    if k == "tup":
        return [rand_raw(rng, t, big) for t in s[1]]
    if k == "uni":
        t = rng.randrange(len(s[1]))
        return [t, rand_raw(rng, s[1][t], big)]
    raise AssertionError(s)


def rand_data(rng, s, n, big=4):
    return [rand_raw(rng, s, big) for _ in range(n)]


def plain(v, s):
    """What ak.to_list gives for raw value v of schema s."""
    k = s[0]
    if k in NUM or k == "str":
        return v
    if k == "bytes":
        return v.encode("utf-8")
    if k == "list":
        return [plain(x, s[1]) for x in v]
    if k == "reg":
        return [plain(x, s[2]) for x in v]
    if k == "opt":
        return None if v is None else plain(v, s[1])
    if k == "rec":
        return {n: plain(x, t) for (n, t), x in zip(s[1], v)}
    if k == "tup":
        return tuple(plain(x, t) for t, x in zip(s[1], v))
    if k == "uni":
        return plain(v[1], s[1][v[0]])
    raise AssertionError(s)


def plain_all(vs, s):
    return [plain(v, s) for v in vs]


def default(s):
    k = s[0]
    if k in ("f64", "f32"):
        return 99.0
    if k == "bool":
        return True
    if k in NUM:
        return 77
    if k in ("str", "bytes"):
        return "junk"
    if k == "list":
        return [default(s[1])]
    if k == "reg":
        return [default(s[2])] * s[1]
    if k == "opt":
        return default(s[1])
    if k == "rec":
        return [default(t) for _, t in s[1]]
    if k == "tup":
        return [default(t) for t in s[1]]
    if k == "uni":
        return [0, default(s[1][0])]
    raise AssertionError(s)


# ------------------------------------------------------------------ layouts
INDIRECT = ("Indexed", "ByteMasked", "BitMasked", "Unmasked")


class Builder(object):
    """Builds a layout for (raw values, schema), choosing representations with rng.
    wrap(layout, path, schema) may replace any node (used to make nodes lazy)."""

    def __init__(self, rng, exotic=0.5, wrap=None, params=True):
        import awkward as ak
        import numpy as np
        self.ak, self.np, self.rng, self.exotic, self.wrap = ak, np, rng, exotic, wrap
        self.params = params
        self.indirect = 0

    def ex(self, p=1.0):
        return self.rng.random() < self.exotic * p

    def build(self, vs, s, path="", under_option=False, wrappable=True):
        L = self.ak.layout
        n = len(vs)
        if s[0] not in ("opt", "uni") and not under_option and self.ex(0.25) and n > 0:
            # the same data behind an index
            order = list(range(n))
            self.rng.shuffle(order)
            inv = [0] * n
            for i, o in enumerate(order):
                inv[o] = i
            self.indirect += 1
            out = self._build([vs[o] for o in order], s, path)
            self.indirect -= 1
            cls, ind, dt = self.rng.choice([(L.IndexedArray64, L.Index64, "int64"), (L.IndexedArray32, L.Index32, "int32"),
                                            (L.IndexedArrayU32, L.IndexU32, "uint32")])
            out = cls(ind(self.np.array(inv).astype(dt)), out)
        else:
            self.indirect += s[0] == "opt"
            out = self._build(vs, s, path)
            self.indirect -= s[0] == "opt"
        # lazy index or option below an index or option: forms and option nesting are not merged (see DESIGN.md)
        hidden = self.indirect > 0 and type(out).__name__.startswith(INDIRECT)
        if self.wrap is not None and wrappable and not hidden:
            out = self.wrap(out, path, s)
        return out

    def _numeric(self, vs, dt):
        np, L, rng = self.np, self.ak.layout, self.rng
        a = np.array(vs, dtype=dt)
        if self.ex(0.3):
            pre, post = rng.randint(0, 2), rng.randint(0, 2)
            a = np.concatenate([np.full(pre, 55).astype(dt), a, np.full(post, 66).astype(dt)])
            a = a[pre:len(a) - post]
        elif self.ex(0.3):
            b = np.full(len(a) * 2 + 1, 44).astype(dt)
            b[:len(a) * 2:2] = a
            a = b[:len(a) * 2:2]
        return L.NumpyArray(a)

    def _offsets(self, counts):
        o = [0]
        for c in counts:
            o.append(o[-1] + c)
        return o

    def _string(self, vs, kind):
        np, L = self.np, self.ak.layout
        bs = [v.encode("utf-8") for v in vs]
        data = np.frombuffer(b"".join(bs), dtype=np.uint8).copy()
        off = np.array(self._offsets([len(b) for b in bs]), dtype=np.int64)
        arr, ch = ("string", "char") if kind == "str" else ("bytestring", "byte")
        return L.ListOffsetArray64(L.Index64(off), L.NumpyArray(data, parameters={"__array__": ch}),
                                   parameters={"__array__": arr})

    def _build(self, vs, s, path):
        np, L, rng = self.np, self.ak.layout, self.rng
        k = s[0]
        if k in NUM:
            return self._numeric(vs, NUM[k])
        if k in ("str", "bytes"):
            return self._string(vs, k)
        if k == "list":
            counts = [len(v) for v in vs]
            if self.ex(0.4) and len(vs) > 0:
                # ListArray: lists in shuffled order, with gaps
                order = list(range(len(vs)))
                rng.shuffle(order)
                starts, stops, flat = [0] * len(vs), [0] * len(vs), []
                for i in order:
                    for _ in range(rng.choice([0, 0, 1])):
                        flat.append(default(s[1]))
                    starts[i] = len(flat)
                    flat.extend(vs[i])
                    stops[i] = len(flat)
                c = self.build(flat, s[1], path + "/l")
                cls, ind, dt = rng.choice([(L.ListArray64, L.Index64, "int64"), (L.ListArray32, L.Index32, "int32"),
                                           (L.ListArrayU32, L.IndexU32, "uint32")])
                return cls(ind(np.array(starts, dtype=dt)), ind(np.array(stops, dtype=dt)), c)
            flat = [x for v in vs for x in v]
            pre = post = 0
            if self.ex(0.4):
                pre, post = rng.randint(0, 2), rng.randint(0, 2)
                flat = [default(s[1])] * pre + flat + [default(s[1])] * post
            off = [o + pre for o in self._offsets(counts)]
            c = self.build(flat, s[1], path + "/l")
            cls, ind, dt = rng.choice([(L.ListOffsetArray64, L.Index64, "int64")] * 3 +
                                      [(L.ListOffsetArray32, L.Index32, "int32"), (L.ListOffsetArrayU32, L.IndexU32, "uint32")])
            return cls(ind(np.array(off, dtype=dt)), c)
        if k == "reg":
            flat = [x for v in vs for x in v]
            c = self.build(flat, s[2], path + "/r")
            return L.RegularArray(c, s[1], len(vs))
        if k == "opt":
            kind = rng.choice(["index64", "index64", "index32", "byte", "bit"])
            if not self.ex(1.0):
                kind = "index64"
            if all(v is not None for v in vs) and s[1][0] not in ("rec", "tup") and self.ex(0.5):
                return L.UnmaskedArray(self.build(vs, s[1], path + "/o", True))
            if kind.startswith("index"):
                flat, idx = [], []
                extra = self.ex(0.3)
                for v in vs:
                    if v is None:
                        idx.append(-1)
                    else:
                        if extra and rng.random() < 0.3:
                            flat.append(default(s[1]))
                        idx.append(len(flat))
                        flat.append(v)
                c = self.build(flat, s[1], path + "/o", True)
                if kind == "index64":
                    return L.IndexedOptionArray64(L.Index64(np.array(idx, dtype="int64")), c)
                return L.IndexedOptionArray32(L.Index32(np.array(idx, dtype="int32")), c)
            flat = [default(s[1]) if v is None else v for v in vs]
            if self.ex(0.3):
                flat = flat + [default(s[1])]
            c = self.build(flat, s[1], path + "/o", True)
            vw = rng.random() < 0.5
            mask = np.array([(v is not None) == vw for v in vs], dtype=bool)
            if kind == "byte":
                return L.ByteMaskedArray(L.Index8(mask.astype(np.int8)), c, valid_when=vw)
            lsb = rng.random() < 0.5
            bits = np.packbits(mask, bitorder="little" if lsb else "big").astype(np.uint8)
            return L.BitMaskedArray(L.IndexU8(bits), c, valid_when=vw, length=len(vs), lsb_order=lsb)
        if k in ("rec", "tup"):
            if k == "rec":
                names, subs = [n for n, _ in s[1]], [t for _, t in s[1]]
            else:
                names, subs = None, s[1]
            contents = []
            for j, t in enumerate(subs):
                col = [v[j] for v in vs]
                if self.ex(0.2):
                    col = col + [default(t)]
                contents.append(self.build(col, t, path + "/" + (names[j] if names else str(j))))
            return L.RecordArray(contents, names, len(vs))
        if k == "uni":
            tags = [v[0] for v in vs]
            buckets = [[] for _ in s[1]]
            index = []
            for t, v in vs:
                index.append(len(buckets[t]))
                buckets[t].append(v)
            contents = [self.build(b, t, path + "/u%d" % i, wrappable=False) for i, (b, t) in enumerate(zip(buckets, s[1]))]
            return L.UnionArray8_64(L.Index8(np.array(tags, dtype=np.int8)),
                                    L.Index64(np.array(index, dtype=np.int64)), contents)
        raise AssertionError(s)


def layout(vs, s, seed, exotic=0.5, wrap=None):
    return Builder(random.Random("layout%s" % seed), exotic, wrap).build(vs, s)


# ------------------------------------------------------------------ comparison
def loosen(x):
    """Numbers without their type: booleans and integers as floats."""
    if isinstance(x, (bool, int)):
        return float(x)
    if isinstance(x, list):
        return [loosen(y) for y in x]
    if isinstance(x, tuple):
        return tuple(loosen(y) for y in x)
    if isinstance(x, dict):
        return {k: loosen(v) for k, v in x.items()}
    return x


def canon(x):
    """Canonical text of a to_list result: distinguishes types, treats nan == nan."""
    if x is None:
        return "None"
    if isinstance(x, bool):
        return "T" if x else "F"
    if isinstance(x, int):
        return "i%d" % x
    if isinstance(x, float):
        if x != x:
            return "fnan"
        return "f" + repr(x + 0.0 if x != 0 else x)
    if isinstance(x, complex):
        return "c" + repr(x)
    if isinstance(x, str):
        return "s" + repr(x)
    if isinstance(x, bytes):
        return "b" + repr(x)
    if isinstance(x, list):
        return "[" + ",".join(canon(y) for y in x) + "]"
    if isinstance(x, tuple):
        return "(" + ",".join(canon(y) for y in x) + ")"
    if isinstance(x, dict):
        return "{" + ",".join(repr(k) + ":" + canon(v) for k, v in sorted(x.items())) + "}"
    import numpy as np
    if isinstance(x, np.generic):
        return canon(x.item()) if not isinstance(x, (np.datetime64, np.timedelta64)) else "d" + str(x)
    if isinstance(x, np.ndarray):
        return "nd" + str(x.dtype) + canon(x.tolist())
    return "?" + type(x).__name__ + repr(x)


def normtype(t):
    """Canonical text of a type: nested options collapsed, unions flattened and ordered, fixed-size
    and variable-size lists not distinguished.  (Which of these spellings an operation picks depends on
    whether it looks through a lazy node below an option, union or list; see DESIGN.md.)"""
    import awkward as ak
    T = ak.types

    def strip(x):
        while isinstance(x, T.OptionType):
            x = x.type
        return x

    def walk(x):
        if isinstance(x, T.ArrayType):
            return "%d * %s" % (x.length, walk(x.type))
        if isinstance(x, T.OptionType):
            return "?" + walk(strip(x))
        if isinstance(x, T.UnionType):
            ms = set()
            opt = ""
            todo = list(x.types)
            while todo:
                y = todo.pop()
                if isinstance(y, T.OptionType):
                    opt, y = "?", strip(y)
                if isinstance(y, T.UnionType):
                    todo += list(y.types)
                else:
                    ms.add(walk(y))
            if len(ms) == 1:
                return opt + ms.pop()
            return opt + "union[" + ",".join(sorted(ms)) + "]"
        if isinstance(x, T.RecordType):
            p = x.parameters.get("__record__")
            names = [str(i) for i in range(x.numfields)] if x.istuple else x.keys()
            return "%s{%s}" % (p or "", ",".join("%s:%s" % (n, walk(x[i])) for i, n in enumerate(names)))
        if isinstance(x, (T.ListType, T.RegularType)):
            if x.parameters.get("__array__") in ("string", "bytestring"):
                return x.parameters["__array__"]
            return "[%s]" % walk(x.type)
        if isinstance(x, T.PrimitiveType):
            return str(x)
        return str(x)
    return walk(t)
