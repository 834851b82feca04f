"""AwkwardForth: generator of programs and inputs, and an executable reference model of the language.

A program is a JSON tree; `source` writes it as Forth, `Machine` interprets it independently of the code under
test.  The model says what the stack, variables, input positions, outputs and error are at every pause and at the
end; where the language leaves a value open (a floating-point number outside of the range of an integer type), it
gives up (`Unsettled`), and the run is not judged."""
import math
import struct

SIZES = {"?": 1, "b": 1, "h": 2, "i": 4, "q": 8, "n": 8, "B": 1, "H": 2, "I": 4, "Q": 8, "N": 8, "f": 4, "d": 8}
CODES = {"?": "B", "n": "q", "N": "Q"}
OUT = {"bool": ("?", 1), "int8": ("b", 8), "int16": ("h", 16), "int32": ("i", 32), "int64": ("q", 64),
       "uint8": ("B", 8), "uint16": ("H", 16), "uint32": ("I", 32), "uint64": ("Q", 64),
       "float32": ("f", 0), "float64": ("d", 0)}
BINARY = ["+", "-", "*", "/", "mod", "min", "max", "=", "<>", ">", ">=", "<", "<=", "and", "or", "xor"]
UNARY = ["negate", "1+", "1-", "abs", "0=", "invert"]
SHUFFLE = ["dup", "drop", "swap", "over", "rot", "nip", "tuck"]


class Unsettled(Exception):
    pass


class Err(Exception):
    pass


class _Exit(Exception):
    pass


class _Halt(Exception):
    pass


# ---------------------------------------------------------------- writing
def source(prog):
    out = []
    for v in prog["variables"]:
        out.append("variable %s" % v)
    for i in prog["inputs"]:
        out.append("input %s" % i)
    for name, dt in prog["outputs"]:
        out.append("output %s %s" % (name, dt))
    for name, body in prog["words"]:
        out.append(": %s %s ;" % (name, text(body)))
    out.append(text(prog["main"]))
    return "\n".join(out)


def text(body):
    out = []
    for n in body:
        k = n[0]
        if k == "lit":
            out.append(str(n[1]))
        elif k in ("w", "call"):
            out.append(n[1])
        elif k == "if":
            out.append("if %s then" % text(n[1]))
        elif k == "ifelse":
            out.append("if %s else %s then" % (text(n[1]), text(n[2])))
        elif k == "do":
            out.append("do %s loop" % text(n[1]))
        elif k == "doplus":
            out.append("do %s +loop" % text(n[1]))
        elif k == "until":
            out.append("begin %s until" % text(n[1]))
        elif k == "again":
            out.append("begin %s again" % text(n[1]))
        elif k == "while":
            out.append("begin %s while %s repeat" % (text(n[1]), text(n[2])))
        elif k == "put":
            out.append("%s !" % n[1])
        elif k == "inc":
            out.append("%s +!" % n[1])
        elif k == "get":
            out.append("%s @" % n[1])
        elif k in ("len", "pos", "end", "seek", "skip"):
            out.append("%s %s" % (n[1], k))
        elif k == "read":
            _, src, rep, big, fmt, dest = n
            out.append("%s %s%s%s-> %s" % (src, "#" if rep else "", "!" if big else "", fmt, dest))
        elif k == "write":
            out.append("%s <- stack" % n[1])
        elif k == "add":
            out.append("%s +<- stack" % n[1])
        elif k == "wdup":
            out.append("%s dup" % n[1])
        elif k == "lenout":
            out.append("%s len" % n[1])
        elif k == "rewind":
            out.append("%s rewind" % n[1])
        else:       # exit, halt, pause, recurse
            out.append(k)
    return " ".join(out)


# ---------------------------------------------------------------- the model
class Model(object):
    def __init__(self, prog, inputs, bits, stack_max=1024, depth_max=1024, budget=4000):
        self.prog, self.bits, self.stack_max, self.depth_max, self.budget = prog, bits, stack_max, depth_max, budget
        self.words = dict(prog["words"])
        self.inputs = {k: bytes(inputs[k]) for k in prog["inputs"]}
        self.dtypes = dict(prog["outputs"])
        self.stack, self.do = [], []
        self.pos = {k: 0 for k in self.inputs}
        self.out = {k: [] for k in self.dtypes}
        self.var = {k: 0 for k in prog["variables"]}
        self.depth = 0
        self.instr = 0
        self.error = None
        self.halted = False
        self.rewound = False

    def wrap(self, x):
        x &= (1 << self.bits) - 1
        return x - (1 << self.bits) if x >> (self.bits - 1) else x

    def push(self, x):
        if len(self.stack) == self.stack_max:
            raise Err("stack overflow")
        self.stack.append(self.wrap(x))

    def need(self, n):
        if len(self.stack) < n:
            raise Err("stack underflow")

    def pop(self):
        self.need(1)
        return self.stack.pop()

    def cast(self, x, name):
        """Value x (int or float) as an item of the output."""
        dt = self.dtypes[name]
        code, nbits = OUT[dt]
        if dt == "bool":
            return bool(x)
        if dt == "float64":
            return float(x)
        if dt == "float32":
            return f32(x)
        if isinstance(x, float):
            if x != x or math.isinf(x):
                raise Unsettled("float to integer")
            x = int(x)
            lo, hi = (0, (1 << nbits) - 1) if dt[0] == "u" else (-(1 << (nbits - 1)), (1 << (nbits - 1)) - 1)
            if not lo <= x <= hi:
                raise Unsettled("float to integer")
            return x
        x &= (1 << nbits) - 1
        return x - (1 << nbits) if dt[0] != "u" and x >> (nbits - 1) else x

    def emit(self, name, x):
        self.out[name].append(self.cast(x, name))

    def bytes(self, name, n):
        if n < 0 or n > len(self.inputs[name]) - self.pos[name]:
            raise Err("read beyond")
        b = self.inputs[name][self.pos[name]:self.pos[name] + n]
        self.pos[name] += n
        return b

    def deliver(self, dest, x):
        if dest == "stack":
            if isinstance(x, float):
                if x != x or math.isinf(x) or not -(1 << (self.bits - 1)) <= int(x) <= (1 << (self.bits - 1)) - 1:
                    raise Unsettled("float to integer")
                x = int(x)
            self.push(x)
        else:
            self.emit(dest, x)

    def read(self, src, rep, big, fmt, dest):
        n = self.pop() if rep else 1
        if fmt in ("varint", "zigzag"):
            for _ in range(max(0, n)):
                shift = result = 0
                while True:
                    b = self.bytes(src, 1)[0]
                    if shift == 63:
                        raise Err("varint too big")
                    result |= (b & 0x7f) << shift
                    shift += 7
                    if not b & 0x80:
                        break
                self.deliver(dest, (result >> 1) ^ -(result & 1) if fmt == "zigzag" else result)
        elif fmt.endswith("bit"):
            width, have, left = int(fmt[:-3]), 0, 0
            byte = 0
            for _ in range(max(0, n)):
                value = have = 0
                while have < width:
                    if left == 0:
                        byte = self.bytes(src, 1)[0]
                        if big:
                            byte = int("{:08b}".format(byte)[::-1], 2)
                        left = 8
                    value |= (byte & 1) << have
                    byte >>= 1
                    left -= 1
                    have += 1
                self.deliver(dest, value)
        else:
            if n < 0 or n > (1 << 60):
                raise Err("read beyond")
            b = self.bytes(src, n * SIZES[fmt])
            for x in struct.unpack((">" if big else "<") + str(n) + CODES.get(fmt, fmt), b):
                self.deliver(dest, bool(x) * 1 if fmt == "?" else x)

    # every method below is a generator: it yields at a pause
    def segment(self, body):
        if self.depth == self.depth_max:
            raise Err("recursion depth exceeded")
        self.depth += 1
        for n in body:
            yield from self.one(n)
        self.depth -= 1

    def word(self, name):
        depth, do = self.depth, len(self.do)
        try:
            yield from self.segment(self.words[name])
        except _Exit:
            self.depth = depth
            del self.do[do:]

    def loop(self, body, plus):
        self.need(2)
        start = self.stack.pop()
        stop = self.stack.pop()
        if len(self.do) == self.depth_max:
            raise Err("recursion depth exceeded")
        self.do.append(start)
        while self.do[-1] < stop:
            self.tick()
            yield from self.segment(body)
            self.do[-1] += self.pop() if plus else 1
            if abs(self.do[-1]) > 1 << 62:
                raise Unsettled("loop counter")
        self.do.pop()

    def tick(self):
        self.instr += 1
        if self.instr > self.budget:
            raise Unsettled("budget")

    def one(self, n):
        self.tick()
        k = n[0]
        if k == "lit":
            self.push(n[1])
        elif k == "w":
            self.builtin(n[1])
        elif k == "call":
            yield from self.word(n[1])
        elif k == "if":
            if self.pop():
                yield from self.segment(n[1])
        elif k == "ifelse":
            yield from self.segment(n[1] if self.pop() else n[2])
        elif k in ("do", "doplus"):
            yield from self.loop(n[1], k == "doplus")
        elif k == "until":
            while True:
                yield from self.segment(n[1])
                self.tick()
                if self.pop():
                    break
        elif k == "again":
            while True:
                self.tick()
                yield from self.segment(n[1])
        elif k == "while":
            while True:
                yield from self.segment(n[1])
                self.tick()
                if not self.pop():
                    break
                yield from self.segment(n[2])
        elif k == "exit":
            raise _Exit()
        elif k == "halt":
            raise _Halt()
        elif k == "pause":
            yield "pause"
        elif k == "put":
            self.var[n[1]] = self.pop()
        elif k == "inc":
            self.var[n[1]] = self.wrap(self.var[n[1]] + self.pop())
        elif k == "get":
            self.push(self.var[n[1]])
        elif k == "len":
            self.push(len(self.inputs[n[1]]))
        elif k == "pos":
            self.push(self.pos[n[1]])
        elif k == "end":
            self.push(-1 if self.pos[n[1]] == len(self.inputs[n[1]]) else 0)
        elif k == "seek":
            to = self.pop()
            if not 0 <= to <= len(self.inputs[n[1]]):
                raise Err("seek beyond")
            self.pos[n[1]] = to
        elif k == "skip":
            to = self.pos[n[1]] + self.pop()
            if not 0 <= to <= len(self.inputs[n[1]]):
                raise Err("skip beyond")
            self.pos[n[1]] = to
        elif k == "read":
            self.read(*n[1:])
        elif k == "write":
            self.emit(n[1], self.pop())
        elif k == "add":
            x = self.pop()
            o = self.out[n[1]]
            prev = o[-1] if o else 0
            c = self.cast(x, n[1])
            o.append(self.cast(prev + c, n[1]))
        elif k == "wdup":
            x = self.pop()
            o = self.out[n[1]]
            if not o:
                raise Err("rewind beyond")
            if x > 100000:
                raise Unsettled("too big")
            o.extend([o[-1]] * max(0, x))
        elif k == "lenout":
            self.push(len(self.out[n[1]]))
        elif k == "rewind":
            x = self.pop()
            o = self.out[n[1]]
            if x < 0 or x > len(o):
                raise Err("rewind beyond")
            self.rewound = True
            if x:
                del o[len(o) - x:]
        else:
            raise AssertionError(n)

    def builtin(self, w):
        s = self.stack
        if w in ("i", "j", "k"):
            self.push(self.do[-1 - "ijk".index(w)])
        elif w == "dup":
            self.need(1)
            self.push(s[-1])
        elif w == "drop":
            self.pop()
        elif w == "swap":
            self.need(2)
            s[-1], s[-2] = s[-2], s[-1]
        elif w == "over":
            self.need(2)
            self.push(s[-2])
        elif w == "rot":
            self.need(3)
            s[-3], s[-2], s[-1] = s[-2], s[-1], s[-3]
        elif w == "nip":
            self.need(2)
            del s[-2]
        elif w == "tuck":
            self.need(2)
            if len(s) == self.stack_max:
                raise Err("stack overflow")
            s.insert(len(s) - 2, s[-1])
        elif w in ("true", "false"):
            self.push(-1 if w == "true" else 0)
        elif w in UNARY:
            self.need(1)
            x = s[-1]
            s[-1] = self.wrap({"negate": -x, "1+": x + 1, "1-": x - 1, "abs": abs(x), "0=": -(x == 0), "invert": ~x}[w])
        elif w in ("lshift", "rshift"):
            self.need(2)
            if not 0 <= s[-1] < self.bits:
                raise Unsettled("shift")
            b = s.pop()
            s[-1] = self.wrap(s[-1] << b if w == "lshift" else s[-1] >> b)
        elif w == "/mod":
            self.need(2)
            a, b = s[-2:]
            if b == 0:
                raise Err("division by zero")
            s[-2:] = [self.wrap(a % b), self.wrap(a // b)]
        else:
            self.need(2)
            a, b = s[-2:]
            if w in ("/", "mod") and b == 0:
                raise Err("division by zero")
            s.pop()
            s[-1] = self.wrap({
                "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "mod": lambda: a % b,
                "min": lambda: min(a, b), "max": lambda: max(a, b), "=": lambda: -(a == b), "<>": lambda: -(a != b),
                ">": lambda: -(a > b), ">=": lambda: -(a >= b), "<": lambda: -(a < b), "<=": lambda: -(a <= b),
                "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[w]())

    def main(self):
        """Iterate to run the program: yields "pause" at pauses; sets self.error at the end."""
        try:
            yield from self.segment(self.prog["main"])
        except _Exit:
            self.depth = 0
            self.do = []
        except _Halt:
            self.error = "user halt"
            self.halted = True
        except Err as e:
            self.error = str(e)

    def called(self, name):
        """The same for a word called from outside."""
        try:
            yield from self.word(name)
        except _Halt:
            self.error = "user halt"
            self.halted = True
        except Err as e:
            self.error = str(e)

    def visible(self, full=True):
        return {"stack": list(self.stack) if full else None, "var": dict(self.var), "pos": dict(self.pos),
                "out": {k: [item(x) for x in v] for k, v in self.out.items()}}


def f32(x):
    if isinstance(x, int) and abs(x) >= 1 << 53:
        import numpy as np
        return float(np.array([x], np.int64 if x < 1 << 63 else np.uint64).astype(np.float32)[0])
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        # rounds to infinity unless it is nearer to the largest float32
        return math.copysign(float("inf"), x)


def item(x):
    if isinstance(x, float):
        return "nan" if x != x else repr(x)
    return x


# ---------------------------------------------------------------- the machine under test
def visible(m, prog, full=True):
    import numpy as np
    out = {}
    for name, dt in prog["outputs"]:
        a = np.asarray(m.output_NumpyArray(name))
        if str(a.dtype) != dt:
            out[name] = "dtype %s" % a.dtype
        else:
            out[name] = [item(x) for x in a.tolist()]
    return {"stack": list(m.stack) if full else None, "var": dict(m.variables), "pos": {k: m.input_position(k) for k in prog["inputs"]}, "out": out}


def error(e):
    """The name of the error in a ValueError of the machine."""
    s = str(e)
    return s[1:s.index("'", 1)] if s.startswith("'") and "AwkwardForth runtime" in s else "?" + s[:200]


# ---------------------------------------------------------------- generating
class Gen(object):
    def __init__(self, rng, reads=True, words=True, pauses=True, errors=0.05, hostile=0.0):
        self.rng, self.reads, self.pauses, self.errors, self.hostile = rng, reads, pauses, errors, hostile
        self.variables = ["v%d" % i for i in range(rng.choice([0, 1, 2]))]
        self.inputs = ["x%d" % i for i in range(rng.choice([1, 1, 2]))] if reads else []
        self.outputs = [["y%d" % i, rng.choice(sorted(OUT))] for i in range(rng.choice([1, 2, 3]))]
        self.words = []
        self.loops = 0
        if words:
            for i in range(rng.choice([0, 1, 2, 3])):
                name = "w%d" % i
                self.words.append([name, self.body(rng.choice([1, 2]), 0, True)])
            if rng.random() < 0.25:
                # a word that calls itself as often as its variable says
                self.variables.append("r")
                self.words.append(["rec", [["lit", -1], ["inc", "r"]] + self.body(1, 0, True, 1) + [["get", "r"], ["if", [["call", "rec"]]]] + self.body(0, 0, True, 1)])

    def prog(self):
        main = self.body(3, 0, False, self.rng.choice([3, 6, 10, 16]))
        return {"variables": self.variables, "inputs": self.inputs, "outputs": self.outputs, "words": self.words, "main": main}

    def body(self, deep, dodepth, inword, n=None):
        rng = self.rng
        out = []
        for _ in range(rng.choice([1, 2, 3, 4, 6]) if n is None else n):
            out.extend(self.piece(deep, dodepth, inword))
        return out

    def lit(self):
        rng = self.rng
        if rng.random() < 0.08:
            return ["lit", rng.choice([-(1 << 31), (1 << 31) - 1, 65535, 65536, -32769, 255, 256, 127, 128, -129])]
        return ["lit", rng.choice([0, 1, 2, 3, 4, 5, 7, 10, -1, -2, -3])]

    def fmt(self):
        rng = self.rng
        r = rng.random()
        if r < 0.70:
            return rng.choice(sorted(SIZES))
        if r < 0.85:
            return rng.choice(["varint", "zigzag"])
        return "%dbit" % rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 24, 31, 32, 33, 63, 64])

    def dest(self, p=0.6):
        return self.rng.choice(self.outputs)[0] if self.rng.random() < p else "stack"

    def piece(self, deep, dodepth, inword):
        rng = self.rng
        r = rng.random()
        if r < self.errors:
            # something that may go wrong: operate on whatever is (not) there
            return [rng.choice([["w", rng.choice(BINARY + UNARY + SHUFFLE)], ["w", "/mod"], ["halt"], ["lit", 0]] +
                               [["seek", x] for x in self.inputs] + [["skip", x] for x in self.inputs] +
                               [[k, y[0]] for y in self.outputs for k in ("rewind", "wdup", "write", "add")])]
        r = rng.random()
        if deep and r < 0.28:
            k = rng.choice(["if", "ifelse", "do", "do", "doplus", "until", "while", "again"])
            sub = lambda d=dodepth: self.body(deep - 1, d, inword)
            if k == "if":
                return [self.cond(), ["if", sub()]]
            if k == "ifelse":
                return [self.cond(), ["ifelse", sub(), sub()]]
            if k == "do":
                return [["lit", rng.choice([0, 1, 2, 3, 4])], ["lit", rng.choice([0, 0, 0, 1, -1])], ["do", sub(dodepth + 1)]]
            if k == "doplus":
                body = sub(dodepth + 1)
                # a pause right before +loop would leave open whether the step is still on the stack
                step = [["lit", rng.choice([1, 2, 3])]]
                return [["lit", rng.choice([2, 3, 5, 7])], ["lit", rng.choice([0, 0, 1])], ["doplus", body + step]]
            # loops that count down in a variable of their own
            v = "c%d" % self.loops
            self.loops += 1
            self.variables.append(v)
            pre = [["lit", rng.choice([1, 2, 3])], ["put", v]]
            down = [["lit", -1], ["inc", v]]
            if k == "until":
                return pre + [["until", sub() + down + [["get", v], ["w", "0="]]]]
            if k == "while":
                return pre + [["while", [["get", v]], down + sub()]]
            if inword:
                return pre + [["again", sub() + down + [["get", v], ["w", "0="], ["if", [["exit"]]]]]]
            return pre + [["while", sub() + [["get", v]], sub() + down]]
        if r < 0.34 and self.pauses:
            return [["pause"]]
        if r < 0.42 and self.words:
            w = rng.choice(self.words)[0]
            if w == "rec":
                return [["lit", rng.choice([0, 1, 2, 3, 5])], ["w", "1+"], ["put", "r"], ["call", w]]
            return [["call", w]]
        if r < 0.45 and inword:
            return [self.cond(), ["if", [["exit"]]]]
        if r < 0.68 and self.reads:
            x = rng.choice(self.inputs)
            q = rng.random()
            if q < 0.1:
                return [[rng.choice(["len", "pos", "end"]), x], ["write", rng.choice(self.outputs)[0]]]
            if q < 0.18:
                return [["lit", rng.choice([0, 1, 2, 4, 8, -1])], [rng.choice(["seek", "skip", "skip"]), x]]
            if q < 0.24 and self.hostile:
                return [["len", x], ["lit", rng.choice([0, 1, -1])], ["w", "+"], [rng.choice(["seek", "skip"]), x]]
            big = rng.random() < 0.5
            dest = self.dest()
            fmt = self.fmt()
            out = []
            if rng.random() < 0.55:
                if rng.random() < self.hostile:
                    # a count found in the data, unchecked
                    out.append(["read", x, 0, rng.randrange(2), rng.choice("bBhHiIqQ"), "stack"])
                else:
                    out.append(["lit", rng.choice([0, 1, 1, 2, 3, 4, 5])])
                out.append(["read", x, 1, int(big), fmt, dest])
            else:
                out.append(["read", x, 0, int(big), fmt, dest])
            return out
        if r < 0.80:
            y = rng.choice(self.outputs)[0]
            q = rng.random()
            if q < 0.55:
                return [self.value(dodepth), [rng.choice(["write", "write", "add"]), y]]
            if q < 0.7:
                return [self.value(dodepth), ["write", y], ["lit", rng.choice([0, 1, 2, 5, 20])], ["wdup", y]]
            if q < 0.85:
                return [["lenout", y], ["write", rng.choice(self.outputs)[0]]]
            return [["lit", rng.choice([0, 0, 1, 2])], ["rewind", y]]
        if r < 0.88 and self.variables:
            v = rng.choice([u for u in self.variables if u[0] == "v"] or [None])
            if v:
                return rng.choice([[self.value(dodepth), ["put", v]], [self.value(dodepth), ["inc", v]], [["get", v]]])
        # arithmetic that leaves one number or writes it
        q = rng.random()
        if q < 0.6:
            e = [self.value(dodepth), self.value(dodepth), ["w", rng.choice(BINARY)]]
            if e[2][1] in ("/", "mod") and e[1] == ["lit", 0]:
                e[1] = ["lit", 3]
        elif q < 0.7:
            e = [self.value(dodepth), ["lit", rng.randrange(0, 32)], ["w", rng.choice(["lshift", "rshift"])]]
        elif q < 0.78:
            e = [self.value(dodepth), ["lit", rng.choice([1, 2, 3, -1, -2, -7])], ["w", "/mod"], ["w", rng.choice(["drop", "nip", "+"])]]
        elif q < 0.9:
            e = [self.value(dodepth), ["w", rng.choice(UNARY)]]
        else:
            e = [self.value(dodepth), self.value(dodepth), self.value(dodepth), ["w", rng.choice(SHUFFLE)], ["w", "drop"], ["w", "drop"]]
        if rng.random() < 0.6:
            e.append(["write", rng.choice(self.outputs)[0]])
        return e

    def value(self, dodepth):
        rng = self.rng
        if dodepth and rng.random() < 0.5:
            return ["w", rng.choice(["i", "j", "k"][:min(3, dodepth)])]
        if rng.random() < 0.1:
            return ["w", rng.choice(["true", "false"])]
        vs = [u for u in self.variables if u[0] == "v"]
        if vs and rng.random() < 0.2:
            return ["get", rng.choice(vs)]
        return self.lit()

    def cond(self):
        return self.rng.choice([["w", "true"], ["w", "false"], ["lit", 1], ["lit", 0]] + [["end", x] for x in self.inputs] + [["get", v] for v in self.variables if v[0] == "v"])


def data(rng, n):
    """Bytes that are small numbers in one or another format, and noise."""
    out = b""
    while len(out) < n:
        k = rng.randrange(8)
        if k == 0:
            out += struct.pack(rng.choice("<>") + rng.choice("hiqHIQ"), rng.randrange(0, 6))
        elif k == 1:
            out += struct.pack(rng.choice("<>") + rng.choice("fd"), rng.choice([0.0, 1.5, -2.25, 3.0, 100.0, 1e30]))
        elif k == 2:
            x = rng.choice([0, 1, 127, 128, 300, 2 ** 31, 2 ** 35, 2 ** 62])
            while True:
                b = x & 0x7f
                x >>= 7
                out += bytes([b | (0x80 if x else 0)])
                if not x:
                    break
        elif k == 3:
            out += bytes([rng.randrange(256)])
        elif k == 4:
            out += struct.pack("<" + rng.choice("bhiq"), rng.randrange(-128, 0))
        else:
            out += bytes([rng.choice([0, 0, 1, 2, 3])])
    return out[:n]
