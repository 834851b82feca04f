"""The simulated surroundings of lazy arrays: cache, sources and their faults.

Every callback from awkward into the surroundings consumes one decision from the
plan's schedule, so the whole behaviour is a function of the plan."""
from collections.abc import MutableMapping


class SourceError(Exception):
    """Injected failure of a lazy source."""


class SourceInterrupt(BaseException):
    """Injected interruption (like Ctrl-C) while a lazy source is being read."""


class CacheError(Exception):
    """Injected failure of a cache store."""


class SimCache(MutableMapping):
    def __init__(self, world, name, capacity=None):
        self.world, self.name, self.d, self.capacity = world, name, {}, capacity

    def __getitem__(self, key):
        return self.world.cache_get(self, key)

    def __setitem__(self, key, value):
        self.world.cache_set(self, key, value)

    def __delitem__(self, key):
        del self.d[key]

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)


class World(object):
    """sched: list of small integers, one consumed per callback; 0 and anything past
    the end mean 'nothing unusual'."""

    def __init__(self, log, sched=(), faults=("evict", "lose", "forget")):
        self.log, self.sched, self.i = log, list(sched), 0
        self.kinds = set(faults)
        self.armed = False
        self.keys = {}
        self.gens = {}          # source name -> number of calls
        self.live_faults = 0

    def next(self):
        if not self.armed:
            return 0
        d = self.sched[self.i] if self.i < len(self.sched) else 0
        self.i += 1
        return d

    def keyid(self, key):
        return self.keys.setdefault(key, "k%d" % len(self.keys))

    # -- cache
    def cache_get(self, c, key):
        d = self.next()
        kid = self.keyid(key)
        if d in (1, 2) and "evict" in self.kinds and c.d:
            if d == 1:
                if key in c.d:
                    self.log.fault("evict_one")
                    del c.d[key]
            else:
                self.log.fault("evict_all")
                c.d.clear()
        elif d == 3 and "lose" in self.kinds and key in c.d:
            self.log.fault("lost_lookup")
            self.log.ev("get", c.name, kid, "lost")
            raise KeyError(key)
        elif d == 4 and "lose" in self.kinds and key in c.d:
            self.log.fault("lookup_error")
            self.log.ev("get", c.name, kid, "error")
            raise RuntimeError("cache backend unavailable")
        hit = key in c.d
        self.log.ev("get", c.name, kid, "hit" if hit else "miss")
        self.log.probe("cache_hit" if hit else "cache_miss")
        return c.d[key]

    def cache_set(self, c, key, value):
        d = self.next()
        kid = self.keyid(key)
        if d in (3, 4) and "forget" in self.kinds:
            self.log.fault("forgotten_store")
            self.log.ev("set", c.name, kid, "forgotten")
            return
        if d == 5 and "storefail" in self.kinds:
            self.log.fault("store_failure")
            self.live_faults += 1
            self.log.ev("set", c.name, kid, "fail")
            raise CacheError("cannot store")
        c.d.pop(key, None)
        c.d[key] = value
        self.log.ev("set", c.name, kid)
        if c.capacity is not None:
            while len(c.d) > c.capacity:
                k = next(iter(c.d))
                del c.d[k]
                self.log.fault("capacity_evict")

    # -- sources
    def generate(self, name, layout, length=True, form=True):
        """length, form: what the lazy array declares, so that contradicting it must be noticed."""
        d = self.next()
        self.gens[name] = self.gens.get(name, 0) + 1
        what, out = None, layout
        if d in (1, 2) and "gen" in self.kinds:
            what = "raise"
        elif d == 3 and "interrupt" in self.kinds:
            what = "interrupt"
        elif d == 4 and "short" in self.kinds and len(layout) > 0 and length:
            what, out = "short", layout[:len(layout) - 1]
        elif d == 5 and "form" in self.kinds and form:
            what, out = "wrong_form", self.other_form(layout)
        elif d == 6 and "garbage" in self.kinds:
            what, out = "garbage", object()
        self.log.ev("gen", name, what)
        if what is not None:
            self.log.fault("source_" + what)
            self.live_faults += 1
        if what == "raise":
            raise SourceError(name)
        if what == "interrupt":
            raise SourceInterrupt(name)
        return out

    def other_form(self, layout):
        import awkward as ak
        import numpy as np
        n = len(layout)
        return ak.layout.RecordArray([ak.layout.NumpyArray(np.arange(n, dtype=np.int16))], ["unexpected"], n)


INDIRECT = ("Indexed", "ByteMasked", "BitMasked", "Unmasked")


def declarable(form):
    """Can this form be declared for a lazy node?  Not if it contains a lazy part of undeclared form,
    nor if an index or option sits above a lazy part that is itself an index or option: the form
    that a field selection is predicted to have then differs from the one it gets."""
    import json

    def walk(x, above):
        if isinstance(x, dict):
            c = x.get("class")
            if c in ("VirtualForm", "VirtualArray"):
                f = x.get("form")
                if f is None:
                    return False
                if above and isinstance(f, dict) and str(f.get("class")).startswith(INDIRECT):
                    return False
            if c is not None:
                above = above or str(c).startswith(INDIRECT)
            return all(walk(v, above) for v in x.values())
        if isinstance(x, list):
            return all(walk(v, above) for v in x)
        return True
    return walk(json.loads(form.tojson(False, True)), False)


class Lazy(object):
    """Makes nodes of a layout lazy (used as data.Builder's wrap callback)."""

    def __init__(self, world, caches, rng, prob=0.5, form=0.5, length=0.9, top=True, cacheless=0.2, only=None):
        import awkward as ak
        self.ak, self.world, self.caches, self.rng = ak, world, caches, rng
        self.prob, self.form, self.length, self.top = prob, form, length, top
        self.cacheless = cacheless
        self.only = only
        self.n = 0
        self.count = 0
        self.sources = {}       # cache key -> what that source really holds

    def __call__(self, layout, path, schema):
        self.n += 1
        r = [self.rng.random() for _ in range(6)]
        if path == "" and not self.top:
            return layout
        if r[0] >= self.prob:
            return layout
        name = "g%d%s" % (self.count, path)
        self.count += 1
        return self.virtual(layout, name, r, path != "")

    def virtual(self, layout, name, r, nested=False):
        L = self.ak.layout
        world = self.world
        kw = {}
        if r[1] < self.length or nested:
            kw["length"] = len(layout)
        if r[2] < self.form and declarable(layout.form):
            kw["form"] = layout.form
        gen = L.ArrayGenerator(lambda: world.generate(name, layout, "length" in kw, "form" in kw), (), **kw)
        if r[3] < self.cacheless or not self.caches:
            return L.VirtualArray(gen)
        c = self.caches[int(r[4] * len(self.caches)) % len(self.caches)]
        out = L.VirtualArray(gen, L.ArrayCache(c))
        self.sources[out.cache_key] = layout
        return out
