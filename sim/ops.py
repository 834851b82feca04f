"""Array operations as plan steps.  resolve(name, e, eager) interprets the entropy
integers e against the reference twin and returns f(a, other) to apply to any twin,
or None if the operation makes no sense there (skipped, deterministically)."""
import copy
import pickle
import re

from sim import data

_ak = _np = None


def init():
    global _ak, _np
    import awkward as ak
    import numpy as np
    _ak, _np = ak, np


REDUCERS = ["sum", "prod", "min", "max", "any", "all", "count", "count_nonzero", "argmin", "argmax"]


def _isarr(x):
    return isinstance(x, _ak.Array)


def _fields(x):
    try:
        return list(_ak.fields(x))
    except Exception:
        return []


def _axis(e):
    return [-1, 1, 0, -2, 2][e % 5]


def _idx(n, e):
    """An integer index, in range three times out of four."""
    if n == 0 or e % 4 == 3:
        return (e // 4) % (2 * n + 4) - (n + 2)
    return (e // 4) % (2 * n) - n


def _slice(n, e):
    a, b, c = e[0], e[1], e[2]
    lo = None if a % 4 == 0 else (a // 4) % (2 * n + 3) - (n + 1)
    hi = None if b % 4 == 0 else (b // 4) % (2 * n + 3) - (n + 1)
    st = [None, None, None, 1, 2, -1, 3, -2][c % 8]
    return slice(lo, hi, st)


def _bits(n, e):
    return _np.array([((e >> (i % 30)) & 1) == 1 for i in range(n)], dtype=bool)


def _plainlists(x):
    """Only variable-length lists of non-missing values (jagged slicing through others is not settled)."""
    t = str(_ak.type(x))
    return not any(w in t for w in ("?", "option", "union", "unknown")) and re.search(r"[\*\[] ?\d+ \*", t) is None


def _axis_ok(x, axis):
    """Reductions and sorts are only defined on numbers in lists; with missing values only the
    innermost axis gives well-defined results in this version (others read uninitialised
    memory even on eager arrays; that is a question of kernel semantics, property N03)."""
    t = str(_ak.type(x))
    if _isarr(x) and len(x) == 0:
        return False
    if any(w in t for w in ("string", "bytes", "char", "{", "(", "union", "unknown")):
        return False
    if axis in (-1, None):
        return True
    # eager reductions of deeper arrays along outer axes overwrite memory in this version (N03 again)
    return re.match(r"^\d+ \* (var \* )?(u?int\d+|float\d+|bool)$", t) is not None


OPS = {}


def op(*names, **kw):
    def deco(f):
        for n in names:
            OPS[n] = (f, kw.get("w", 1.0))
        return f
    return deco


# ------------------------------------------------------------------ selection
@op("at", w=3)
def _(ak, np, nm, e, x):
    i = _idx(len(x), e[0]) if _isarr(x) else None
    return None if i is None else (lambda a, o: a[i])


@op("range", w=5)
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None
    s = _slice(len(x), e)
    return lambda a, o: a[s]


@op("field", w=5)
def _(ak, np, nm, e, x):
    f = _fields(x)
    if not f:
        return None
    k = f[e[0] % len(f)] if e[0] % 17 else "nosuchfield"
    return lambda a, o: a[k]


@op("fields", w=2)
def _(ak, np, nm, e, x):
    f = _fields(x)
    if not f:
        return None
    ks = [f[e[i] % len(f)] for i in range(1 + e[3] % 2)]
    ks = list(dict.fromkeys(ks))
    return lambda a, o: a[ks]


@op("mask", w=2)
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None
    m = _bits(len(x), e[0])
    return lambda a, o: a[m]


@op("take", w=3)
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None
    n = len(x)
    idx = np.array([_idx(n, 4 * (e[i % 4] >> i)) for i in range(e[0] % 6)], dtype=np.int64) if n else np.array([], dtype=np.int64)
    return lambda a, o: a[idx]


@op("take_none")
def _(ak, np, nm, e, x):
    if not _isarr(x) or len(x) == 0:
        return None
    n = len(x)
    idx = ak.Array([None if (e[1] >> i) & 1 else _idx(n, 4 * (e[i % 4] >> i)) for i in range(1 + e[0] % 5)])
    return lambda a, o: a[idx]


@op("jagged_rev")
def _(ak, np, nm, e, x):
    if not _isarr(x) or not _plainlists(x):
        return None
    return lambda a, o: a[ak.local_index(a, axis=1)[:, ::-1]]


@op("jagged_mask")
def _(ak, np, nm, e, x):
    if not _isarr(x) or not _plainlists(x):
        return None
    return lambda a, o: a[a > 0]


@op("tuple_index", w=2)
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None
    n = len(x)
    f = _fields(x)
    items = []
    for i in range(1 + e[3] % 3):
        r = (e[i] // 7) % 7
        if r == 0:
            items.append(_idx(max(n, 1), e[i]))
        elif r in (1, 2):
            items.append(_slice(n, [e[i], e[i] // 3, e[i] // 11]))
        elif r == 3:
            items.append(Ellipsis if Ellipsis not in items else slice(None))
        elif r == 4:
            items.append(None if not f and _plainlists(x) else slice(None))
        elif r == 5 and f:
            items.append(f[e[i] % len(f)])
        else:
            items.append(0)
    t = tuple(items)
    return lambda a, o: a[t]


@op("iterate")
def _(ak, np, nm, e, x):
    return lambda a, o: [ak.to_list(y) for y in a] if _isarr(a) else ak.to_list(a)


@op("len")
def _(ak, np, nm, e, x):
    return (lambda a, o: len(a)) if _isarr(x) else None


# ------------------------------------------------------------------ structure
@op("num")
def _(ak, np, nm, e, x):
    ax = _axis(e[0])
    if ax in (0, -1) and ("{" in str(ak.type(x)) or "(" in str(ak.type(x))):
        ax = 1
    return lambda a, o: ak.num(a, axis=ax)


@op("flatten", w=2)
def _(ak, np, nm, e, x):
    ax = [1, 1, None, 0, 2][e[0] % 5]
    if ax == 0 and "?" in str(ak.type(x)):
        ax = 1          # drops one level of nested missing values, and how they nest depends on laziness
    return lambda a, o: ak.flatten(a, axis=ax)


@op("ravel")
def _(ak, np, nm, e, x):
    return lambda a, o: ak.ravel(a)


@op(*["red_" + r for r in REDUCERS], w=0.5)
def _(ak, np, nm, e, x):
    f = getattr(ak, nm[4:])
    ax = [-1, 1, 0, None, -1][e[0] % 5]
    if nm.startswith("red_arg") and ax is None:
        ax = -1
    if not _axis_ok(x, ax):
        return None
    kw = {"keepdims": True} if e[1] % 4 == 0 and ax is not None else {}
    if ax not in (-1, None):
        kw = {}
    if e[2] % 4 == 0 and ax is not None:
        kw["mask_identity"] = bool(e[2] & 8)
    return lambda a, o: f(a, axis=ax, **kw)


@op("mean")
def _(ak, np, nm, e, x):
    ax = [-1, 1, 0, None][e[0] % 4]
    if not _axis_ok(x, ax):
        return None
    return lambda a, o: ak.mean(a, axis=ax)


@op("sort", "argsort")
def _(ak, np, nm, e, x):
    f = getattr(ak, nm)
    ax = _axis(e[0])
    if not _axis_ok(x, ax):
        return None
    asc = bool(e[1] & 1)
    return lambda a, o: f(a, axis=ax, ascending=asc)


@op("concat", w=2)
def _(ak, np, nm, e, x):
    ax = [0, 0, 0, 1][e[0] % 4]
    if e[1] % 3 == 0:
        return lambda a, o: ak.concatenate([a, a], axis=ax)
    return lambda a, o: ak.concatenate([a, o], axis=ax)


@op("zip1")
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None
    if e[0] % 2:
        return lambda a, o: ak.zip({"p": a, "q": a}, depth_limit=1)
    return lambda a, o: ak.zip({"p": a, "q": a})


@op("zip_fields")
def _(ak, np, nm, e, x):
    f = _fields(x)
    if not f or not _isarr(x):
        return None
    if e[0] % 2:
        return lambda a, o: ak.zip({k: a[k] for k in f}, depth_limit=1)
    return lambda a, o: ak.zip({k: a[k] for k in f})


@op("unzip")
def _(ak, np, nm, e, x):
    f = _fields(x)
    if not f:
        return None
    return lambda a, o: ak.unzip(a)[e[0] % len(f)]


@op("with_field", w=2)
def _(ak, np, nm, e, x):
    f = _fields(x)
    if not f or "option" in str(ak.type(x)) or "?" in str(ak.type(x)):
        return None     # a missing value in the new field makes the whole record missing
    src = f[e[0] % len(f)]
    dst = ["new", f[e[1] % len(f)]][e[2] % 2]
    if e[3] % 3 == 0:
        return lambda a, o: ak.with_field(a, 5, dst)
    return lambda a, o: ak.with_field(a, a[src], dst)


@op("is_none")
def _(ak, np, nm, e, x):
    ax = [0, 0, 1, -1][e[0] % 4]
    return lambda a, o: ak.is_none(a, axis=ax)


@op("fill_none")
def _(ak, np, nm, e, x):
    v = [0, -1.5, "none", []][e[0] % 4]
    return lambda a, o: ak.fill_none(a, v)


@op("pad_none")
def _(ak, np, nm, e, x):
    ax = [0, 1, 1, -1][e[0] % 4]
    t = e[1] % 5
    clip = bool(e[2] & 1)
    return lambda a, o: ak.pad_none(a, t, axis=ax, clip=clip)


@op("firsts", "singletons", "run_lengths", "local_index", "materialized", "packed", "zeros_like", "ones_like",
    "to_regular", "from_regular", "nan_to_num", "flatten_none", "without_parameters", "copy_", "type", "fields_",
    "ndim_")
def _(ak, np, nm, e, x):
    if nm == "flatten_none":
        if "{" in str(ak.type(x)) or "[" in str(ak.type(x)) or "?" in str(ak.type(x)):
            return None
        return lambda a, o: ak.flatten(a, axis=0)
    if nm == "copy_":
        return lambda a, o: copy.copy(a)
    if nm == "type":
        return lambda a, o: data.normtype(ak.type(a))
    if nm == "fields_":
        return lambda a, o: list(ak.fields(a))
    if nm == "ndim_":
        return (lambda a, o: a.ndim) if _isarr(x) else None
    if nm == "local_index":
        ax = [-1, 0, 1][e[0] % 3]
        return lambda a, o: ak.local_index(a, axis=ax)
    if nm in ("to_regular", "from_regular"):
        ax = [1, None][e[0] % 2] if nm == "from_regular" else 1
        return lambda a, o: getattr(ak, nm)(a, axis=ax)
    if nm == "run_lengths" and (not _isarr(x) or len(x) == 0 or not re.match(r"^\d+ \* (var \* )?(u?int\d+|float\d+|bool|string)$", str(ak.type(x)))):
        return None     # on records it leaves the columns with different lengths, even eagerly
    f = getattr(ak, nm)
    return lambda a, o: f(a)


@op("deepcopy_")
def _(ak, np, nm, e, x):
    return lambda a, o: copy.deepcopy(a)


@op("mask_op")
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None
    m = _bits(len(x), e[0])
    vw = bool(e[1] & 1)
    return lambda a, o: ak.mask(a, m, valid_when=vw)


@op("where")
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None
    m = _bits(len(x), e[0])
    if e[1] % 2:
        return lambda a, o: ak.where(m, a, a)
    return lambda a, o: ak.where(m, a, 0)


@op("combinations")
def _(ak, np, nm, e, x):
    ax = [1, 1, 0][e[0] % 3]
    repl = bool(e[1] & 1)
    if not _isarr(x) or (ax == 0 and len(x) > 12) or x.nbytes > 3000:
        return None
    return lambda a, o: ak.combinations(a, 2, axis=ax, replacement=repl)


@op("cartesian")
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None
    if "string" in str(ak.type(x)) or x.nbytes > 3000:
        return None
    if e[0] % 3 == 0 and len(x) < 8:
        return lambda a, o: ak.cartesian([a, a], axis=0)
    return lambda a, o: ak.cartesian({"l": a, "r": a}, axis=1)


@op("unflatten")
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None
    n = len(x)
    counts = []
    i = 0
    while sum(counts) < n and i < 50:
        counts.append(min((e[i % 4] >> i) % 4, n - sum(counts)))
        i += 1
    return lambda a, o: ak.unflatten(a, np.array(counts, dtype=np.int64))


@op("broadcast")
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None
    col = np.arange(len(x))
    return lambda a, o: ak.broadcast_arrays(col, a)[e[0] % 2]


@op("astype")
def _(ak, np, nm, e, x):
    dt = ["float64", "int32", "float32", "int64", "uint8"][e[0] % 5]
    return lambda a, o: ak.values_astype(a, dt)


@op("with_name", "with_parameter")
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None
    if nm == "with_name":
        return lambda a, o: ak.with_name(a, "Thing")
    return lambda a, o: ak.with_parameter(a, "par", e[0] % 3)


@op("repartition")
def _(ak, np, nm, e, x):
    if not _isarr(x) or len(x) == 0:
        return None
    k = 1 + e[0] % (len(x) + 2)
    return lambda a, o: ak.repartition(a, k)


# ------------------------------------------------------------------ arithmetic
@op("arith", w=3)
def _(ak, np, nm, e, x):
    r = e[0] % 9
    fs = [lambda a, o: a + 1, lambda a, o: a * 2.5, lambda a, o: a == a, lambda a, o: a > 0, lambda a, o: -a,
          lambda a, o: abs(a), lambda a, o: a + a, lambda a, o: np.maximum(a, 1), lambda a, o: a != 3]
    return fs[r]


@op("arith2")
def _(ak, np, nm, e, x):
    if e[0] % 2:
        return lambda a, o: a + o
    return lambda a, o: a == o


@op("arith_fields", w=2)
def _(ak, np, nm, e, x):
    f = _fields(x)
    if len(f) < 2 or not _isarr(x):
        return None
    p, q = f[e[0] % len(f)], f[e[1] % len(f)]
    k = e[2] % 5
    if k == 0:
        return lambda a, o: a[p] + a[q]
    if k == 1:
        return lambda a, o: a[p] == a[q]
    if k == 2:
        return lambda a, o: ak.zip({"l": a[p], "r": a[q]}, depth_limit=1 + e[3] % 2)
    if k == 3:
        return lambda a, o: ak.broadcast_arrays(a[p], a[q])[0]
    return lambda a, o: np.maximum(a[p], a[q])


@op("cut_field")
def _(ak, np, nm, e, x):
    """Selecting by a condition on a column, the most ordinary thing to do."""
    f = _fields(x)
    if not f or not _isarr(x):
        return None
    p = f[e[0] % len(f)]
    t = str(ak.type(x[p]))
    if re.match(r"^\d+ \* (u?int\d+|float\d+|bool)$", t) is None:
        return None
    if e[1] % 2:
        return lambda a, o: a[a[p] > 0]
    return lambda a, o: a[ak.argsort(a[p], axis=0)]


@op("contains")
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None
    v = [0, 1, "one", None, 99][e[0] % 5]
    return lambda a, o: v in a


# ------------------------------------------------------------------ conversion
@op("to_list", w=2)
def _(ak, np, nm, e, x):
    return lambda a, o: ak.to_list(a)


@op("to_json")
def _(ak, np, nm, e, x):
    return lambda a, o: ak.to_json(a)


@op("to_numpy")
def _(ak, np, nm, e, x):
    if e[0] % 2:
        return lambda a, o: np.ma.getdata(ak.to_numpy(a, allow_missing=True)).shape
    return lambda a, o: ak.to_numpy(a, allow_missing=False)


@op("str_", "repr_")
def _(ak, np, nm, e, x):
    return lambda a, o: str(a)


@op("pickle")
def _(ak, np, nm, e, x):
    return lambda a, o: pickle.loads(pickle.dumps(a, -1))


@op("buffers")
def _(ak, np, nm, e, x):
    if not _isarr(x):
        return None

    def f(a, o):
        form, length, cont = ak.to_buffers(a)
        return ak.from_buffers(form, length, cont)
    return f


@op("from_iter")
def _(ak, np, nm, e, x):
    return lambda a, o: ak.from_iter(ak.to_list(a)) if _isarr(a) else None


NAMES = None


def names():
    global NAMES
    if NAMES is None:
        NAMES = sorted(OPS)
    return NAMES


def choose(rng, allowed=None):
    ns = allowed or names()
    ws = [OPS[n][1] for n in ns]
    return rng.choices(ns, ws)[0]


def swarm(rng, base=None, keep=None):
    """A random subset of operations for this run."""
    ns = list(base or names())
    k = rng.choice([6, 10, 16, len(ns)])
    out = rng.sample(ns, min(k, len(ns)))
    for n in keep or ():
        if n not in out:
            out.append(n)
    return sorted(out)


def entropy(rng):
    return [rng.randrange(1 << 30) for _ in range(4)]


def resolve(name, e, x):
    f, _ = OPS[name]
    return f(_ak, _np, name, e, x)


def outcome(f, *args):
    """('ok', value) or ('err', class name, message)"""
    try:
        return ("ok", f(*args))
    except Exception as ex:
        return ("err", type(ex).__name__, str(ex))


def typestr(x):
    ak = _ak
    if isinstance(x, (ak.Array, ak.Record)):
        return str(ak.type(x))
    return type(x).__name__
