"""C01-C04: the generalised bit-field.

Oracle: a model in which a field is a plain integer and a bit number denotes a
significance (power of two).  The numbering scheme fixes that mapping; the bit
order only fixes which way round a range is written.
"""
import random

from hypothesis import strategies as st

from ..core import Prop, Violation, check, dict_ints, expect_raises, mod

MAXW = 64


# --- the model --------------------------------------------------------------

def number(w, s, sig):
    "Bit number (scheme s, width w) of the bit of significance 2**sig."
    return (sig, sig + 1, w - 1 - sig, w - sig)[s]


def span(w, s, o, lo, hi):
    "The range covering significances lo..hi, written left to right."
    left, right = (hi, lo) if o == 0 else (lo, hi)
    return number(w, s, left), number(w, s, right)


def make(w, s, o, v=0):
    B = mod("h800.bitfield").BitField
    return B(v, width=w, numbering=SCHEMES()[s], order=ORDERS()[o])


def SCHEMES():
    B = mod("h800.bitfield").BitField
    return (B.BIT_SCHEME_LSB_0, B.BIT_SCHEME_LSB_1,
            B.BIT_SCHEME_MSB_0, B.BIT_SCHEME_MSB_1)


def ORDERS():
    B = mod("h800.bitfield").BitField
    return (B.BIT_ORDER_MSB_LEFT, B.BIT_ORDER_LSB_LEFT)


NAMES = ("LSB0", "LSB1", "MSB0", "MSB1")


def desc(w, s, o):
    return "%d-bit %s %s" % (w, NAMES[s], ("MSB-left", "LSB-left")[o])


def eq(got, want, what, *args):
    if type(got) is bool or not isinstance(got, int) or got != want:
        raise Violation("%s: got %r, expected %#x" % (
            what % args if args else what, got, want))


def patterns(w, rng, n=3):
    m = (1 << w) - 1
    out = [m, 0x5555555555555555 & m, 0xAAAAAAAAAAAAAAAA & m, 1, 1 << (w - 1),
           0, m >> 1, m - 1, m >> (w // 2), m ^ (m >> (w // 2))]
    out += [rng.getrandbits(w) for _ in range(n)]
    seen = []
    for v in out:
        if v not in seen:
            seen.append(v)
    return seen


# --- strategies -------------------------------------------------------------

widths = st.one_of(st.integers(1, MAXW),
                   st.sampled_from([1, 2, 7, 8, 12, 16, 24, 31, 32, 33, 48,
                                    53, 54, 63, 64]))
configs = st.tuples(widths, st.integers(0, 3), st.integers(0, 1))


def values(w):
    m = (1 << w) - 1
    return st.one_of(
        st.integers(0, m),
        st.integers(0, m).map(lambda x: m - x),
        st.sampled_from([v & m for v in dict_ints(0, 1 << 64)]),
        st.builds(lambda a, b: ((1 << max(a, b)) - (1 << min(a, b))) & m,
                  st.integers(0, w), st.integers(0, w)))


# ---------------------------------------------------------------------------

class C01(Prop):
    id = "C01"
    modules = ("h800.bitfield",)
    examples = {"quick": 500, "thorough": 12000}
    rule = ("case = (width 1..64, numbering, order, value, how the value got "
            "there); every bit, every legal range, int()/index/len/repr, "
            "width, maximum, numbers, lsb/msb are read and compared with the "
            "significance model; non-trivial: 0 < value < maximum")
    exhaustive_note = ("all widths 1..64 x 4 numberings x 2 orders x all bits "
                       "x all legal ranges (on sampled values)")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        n = 3 if tier == "quick" else 24
        yield {"w": 8, "s": 0, "o": 1, "v": 0x35, "route": "default"}
        for w in range(1, MAXW + 1):
            for s in range(4):
                for o in range(2):
                    vals = patterns(w, rng, n)
                    if w <= 3 or (tier == "thorough" and w <= 8):
                        vals = range(1 << w)
                    for i, v in enumerate(vals):
                        yield {"w": w, "s": s, "o": o, "v": v,
                               "route": ("ctor", "value", "bits",
                                         "range")[i % 4]}

    def strategies(self, tier):
        def build(cfg):
            w, s, o = cfg
            return st.fixed_dictionaries({
                "w": st.just(w), "s": st.just(s), "o": st.just(o),
                "v": values(w),
                "route": st.sampled_from(["ctor", "value", "bits", "range"])})
        return [("field", configs.flatmap(build), 1.0)]

    def run(self, case):
        w, s, o, v = case["w"], case["s"], case["o"], case["v"]
        route = case["route"]
        what = desc(w, s, o)
        B = mod("h800.bitfield").BitField
        if route == "default":
            f = B(v)
        elif route == "ctor":
            f = make(w, s, o, v)
        else:
            f = make(w, s, o)
            if route == "value":
                f.value = v
            elif route == "range":
                a, b = span(w, s, o, 0, w - 1)
                f[a:b] = v
            else:
                for sig in range(w):
                    if v >> sig & 1:
                        f[number(w, s, sig)] = 1
        self.look(f, w, s, o, v, what)
        for sig in range(w):
            n = number(w, s, sig)
            eq(f[n], v >> sig & 1, "%s bit %d of %#x", what, n, v)
        for lo in range(w):
            top = v >> lo
            for hi in range(lo, w):
                a, b = span(w, s, o, lo, hi)
                got = f[a:b]
                want = top & ((1 << (hi - lo + 1)) - 1)
                if got != want or not isinstance(got, int):
                    raise Violation("%s bits %d:%d of %#x: got %r, expected "
                                    "%#x" % (what, a, b, v, got, want))
        self.look(f, w, s, o, v, what + " after reads")
        return 0 < v < (1 << w) - 1, ("width>32" if w > 32 else "width<=32",
                                      NAMES[s] + str(o))

    def look(self, f, w, s, o, v, what):
        eq(f.value, v, "%s value", what)
        eq(int(f), v, "%s int()", what)
        check(hex(f) == hex(v), "%s hex(): %s", what, hex(f))
        eq(len(f), w, "%s len()", what)
        eq(f.width, w, "%s width", what)
        eq(f.maxval, (1 << w) - 1, "%s maximum", what)
        check(f.numbering == SCHEMES()[s], "%s numbering %r", what,
              f.numbering)
        check(f.order == ORDERS()[o], "%s order %r", what, f.order)
        order = range(w - 1, -1, -1) if o == 0 else range(w)
        check(list(f.indices) == [number(w, s, x) for x in order],
              "%s bit numbers: %r", what, f.indices)
        eq(f.lsb, number(w, s, 0), "%s lsb", what)
        eq(f.msb, number(w, s, w - 1), "%s msb", what)
        check(repr(f) == format(v, "0%db" % w), "%s repr of %#x: %s", what, v,
              repr(f))


# ---------------------------------------------------------------------------

def apply_write(f, ref, cfg, op):
    """Apply a write operation to field f; return the expected value.  Bit
    positions are significances taken modulo the width, so that every
    operation is legal in every context."""
    w, s, o = cfg
    m = (1 << w) - 1
    kind = op[0]
    if kind == "bit":
        sig, val = op[1] % w, op[2] & 1
        f[number(w, s, sig)] = val
        return ref & ~(1 << sig) | val << sig
    if kind == "range":
        lo, hi = sorted((op[1] % w, op[2] % w))
        k = (1 << (hi - lo + 1)) - 1
        val = op[3] & k
        a, b = span(w, s, o, lo, hi)
        f[a:b] = val
        return ref & ~(k << lo) & m | val << lo
    if kind == "value":
        f.value = op[1] & m
        return op[1] & m
    if kind == "set":
        sig = op[1] % w
        f.set(number(w, s, sig))
        return ref | 1 << sig
    if kind == "clear":
        sig = op[1] % w
        f.clear(number(w, s, sig))
        return ref & ~(1 << sig)
    if kind == "setall":
        f.set()
        return m
    if kind == "clearall":
        f.clear()
        return 0
    if kind == "read":
        lo, hi = sorted((op[1] % w, op[2] % w))
        a, b = span(w, s, o, lo, hi)
        eq(f[a:b], ref >> lo & ((1 << (hi - lo + 1)) - 1), "read %d:%d", a, b)
        eq(f[a], ref >> (hi if o == 0 else lo) & 1, "read %d", a)
        return ref
    raise AssertionError(kind)


sigs = st.integers(0, 63)
payloads = st.one_of(st.integers(0, (1 << 64) - 1), st.sampled_from(
    [0, 1, (1 << 64) - 1, 0xAAAAAAAAAAAAAAAA, 0x5555555555555555]),
    st.deferred(lambda: st.sampled_from(dict_ints(0, (1 << 64) - 1))))
write_ops = st.one_of(
    st.tuples(st.just("bit"), sigs, st.integers(0, 1)),
    st.tuples(st.just("range"), sigs, sigs, payloads),
    st.tuples(st.just("range"), sigs, sigs, payloads),
    st.tuples(st.just("value"), payloads),
    st.tuples(st.just("set"), sigs),
    st.tuples(st.just("clear"), sigs),
    st.tuples(st.just("setall")),
    st.tuples(st.just("clearall")),
    st.tuples(st.just("read"), sigs, sigs),
).map(list)


def rand_op(rng):
    k = rng.choice(["bit", "range", "range", "range", "value", "set",
                    "clear", "setall", "clearall", "read"])
    if k == "bit":
        return [k, rng.randrange(64), rng.randrange(2)]
    if k == "range":
        p = rng.choice([rng.getrandbits(64), 0, (1 << 64) - 1])
        return [k, rng.randrange(64), rng.randrange(64), p]
    if k == "value":
        return [k, rng.getrandbits(64)]
    if k in ("set", "clear"):
        return [k, rng.randrange(64)]
    if k == "read":
        return [k, rng.randrange(64), rng.randrange(64)]
    return [k]


class C02(Prop):
    id = "C02"
    modules = ("h800.bitfield",)
    examples = {"quick": 600, "thorough": 12000}
    rule = ("case = 1..3 live fields plus a sequence of writes (bit, range, "
            "whole value, set/clear one or all) and reads; after every step "
            "every field's value is compared with the integer model; "
            "enumerated sweeps write every bit and every range of every "
            "width x numbering x order; non-trivial: some write changed some "
            "bits and left others that were 1 alone")
    exhaustive_note = ("every single-bit write and every range write for "
                       "widths 1..64 x 4 numberings x 2 orders (on sampled "
                       "old and new values)")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        reps = 1 if tier == "quick" else 8
        for rep in range(reps):
            for w in range(1, MAXW + 1):
                for s in range(4):
                    for o in range(2):
                        yield {"sweep": [w, s, o], "seed": rng.getrandbits(32)}
        n = 60 if tier == "quick" else 600
        for i in range(n):
            cfgs = [[rng.choice([1, 2, 5, 8, 12, 16, 24, 48, 63, 64,
                                 rng.randint(1, 64)]),
                     rng.randrange(4), rng.randrange(2)]
                    for _ in range(rng.randint(1, 3))]
            ops = [[rng.randrange(len(cfgs))] + rand_op(rng)
                   for _ in range(400)]
            yield {"fields": [[c, rng.getrandbits(64)] for c in cfgs],
                   "ops": ops}

    def strategies(self, tier):
        def build(n):
            return st.fixed_dictionaries({
                "fields": st.lists(st.tuples(configs.map(list), payloads)
                                   .map(list), min_size=n, max_size=n),
                "ops": st.lists(st.tuples(st.integers(0, n - 1), write_ops)
                                .map(lambda t: [t[0]] + t[1]),
                                min_size=1, max_size=30)})
        return [("history", st.integers(1, 3).flatmap(build), 1.0)]

    def run(self, case):
        if "sweep" in case:
            return self.sweep(case)
        fields = []
        for cfg, v in case["fields"]:
            v &= (1 << cfg[0]) - 1
            fields.append([make(cfg[0], cfg[1], cfg[2], v), v, cfg])
        changed = kept = False
        for i, *op in case["ops"]:
            if i >= len(fields):
                continue
            f, ref, cfg = fields[i]
            new = apply_write(f, ref, cfg, op)
            changed = changed or new != ref
            kept = kept or (new & ref) != 0
            fields[i][1] = new
            for j, (g, r, c) in enumerate(fields):
                if g.value != r:
                    raise Violation(
                        "%s field %d: value %#x after %r on field %d (was "
                        "%#x), expected %#x" % (desc(*c), j, g.value, op, i,
                                                ref, r))
        for g, r, c in fields:
            eq(int(g), r, "int()")
            check(repr(g) == format(r, "0%db" % c[0]), "repr %s", repr(g))
        return changed and kept, ("fields=%d" % len(fields),)

    def sweep(self, case):
        w, s, o = cfg = case["sweep"]
        rng = random.Random(case["seed"])
        m = (1 << w) - 1
        f = make(w, s, o)
        for old in (0, m, rng.getrandbits(w)):
            for sig in range(w):
                for op in (["bit", sig, 0], ["bit", sig, 1], ["set", sig],
                           ["clear", sig]):
                    self.one(f, cfg, old, op)
        for lo in range(w):
            for hi in range(lo, w):
                r = rng.getrandbits(64)
                for old, new in ((m, 0), (0, m), (r & m, ~r & m),
                                 (~r & m, rng.getrandbits(64))):
                    self.one(f, cfg, old, ["range", lo, hi, new])
        for op in (["setall"], ["clearall"], ["value", rng.getrandbits(64)]):
            self.one(f, cfg, rng.getrandbits(w), op)
        return w > 1, ("sweep",)

    @staticmethod
    def one(f, cfg, old, op):
        f.value = old
        new = apply_write(f, old, cfg, op)
        if f.value != new:
            raise Violation("%s holding %#x after %r: %#x, expected %#x" % (
                desc(*cfg), old, op, f.value, new),
                {"fields": [[list(cfg), old]], "ops": [[0] + op]})


# ---------------------------------------------------------------------------

class C03(Prop):
    id = "C03"
    modules = ("h800.bitfield",)
    examples = {"quick": 600, "thorough": 12000}
    rule = ("case = a field and a sequence of requests, each either legal or "
            "illegal in one of the listed ways (bit number outside the field, "
            "range written backwards, value negative or too wide for the bits "
            "addressed, over-wide or ill-described field); an illegal request "
            "must raise ValueError and leave the value alone, a legal one must "
            "be carried out; non-trivial: at least one illegal request")

    BADNUM = (-1, 0, 1, 2, 3, 64, 1000, 1 << 40)

    def enum(self, tier, seed):
        rng = random.Random(seed)
        for w in list(range(1, MAXW + 1)):
            for s in range(4):
                for o in range(2):
                    yield {"w": w, "s": s, "o": o,
                           "v": rng.getrandbits(w), "ops": "all",
                           "seed": rng.getrandbits(32)}
        for w in (65, 66, 72, 100, 128, 1000):
            yield {"ctor": [0, w, 0, 0]}
        for w in range(1, MAXW + 1):
            m = (1 << w) - 1
            for v in (m, m + 1, m + 2, 2 * m + 1, m << 64, -1, -2, -m, -m - 1,
                      0):
                for s in range(4):
                    yield {"ctor": [v, w, s, w & 1]}
        for s in (-1, 4, 5, 17, None):
            yield {"ctor": [1, 8, s, 0]}
        for o in (-1, 2, 3, 9, None):
            yield {"ctor": [1, 8, 0, o]}

    def strategies(self, tier):
        over = st.one_of(st.integers(1, 3), st.integers(1, 200),
                         st.integers(1, 1 << 70))
        req = st.one_of(
            st.tuples(st.sampled_from(["get", "put", "set", "clear", "isbit",
                                       "isbitset", "isbitclr"]),
                      st.sampled_from(["low", "high"]), over),
            st.tuples(st.sampled_from(["getr", "putr", "isrange",
                                       "israngeset", "israngeclr"]),
                      st.sampled_from(["low", "high", "both", "reversed"]),
                      over, sigs, sigs),
            st.tuples(st.just("bitval"), sigs,
                      st.one_of(st.integers(2, 1 << 66),
                                st.integers(-(1 << 66), -1))),
            st.tuples(st.just("rangeval"), sigs, sigs, st.booleans(), over),
            st.tuples(st.just("value"), st.booleans(), over),
            st.tuples(st.just("israngeval"), sigs, sigs,
                      st.sampled_from([-1, 2, 3, 255])),
            st.tuples(st.just("legal"), write_ops),
        ).map(list)

        def build(cfg):
            w, s, o = cfg
            return st.fixed_dictionaries({
                "w": st.just(w), "s": st.just(s), "o": st.just(o),
                "v": values(w), "ops": st.lists(req, min_size=1,
                                                max_size=12)})
        return [("requests", configs.flatmap(build), 1.0)]

    def run(self, case):
        if "ctor" in case:
            return self.ctor(case["ctor"])
        w, s, o, v = case["w"], case["s"], case["o"], case["v"]
        f = make(w, s, o, v)
        if case["ops"] == "all":
            rng = random.Random(case["seed"])
            ops = list(self.every(w, rng))
        else:
            ops = case["ops"]
        bad = 0
        for op in ops:
            small = {"w": w, "s": s, "o": o, "v": v, "ops": [op]}
            try:
                if op[0] == "legal":
                    v = apply_write(f, v, (w, s, o), op[1])
                else:
                    self.illegal(f, w, s, o, op)
                    bad += 1
            except Exception as e:
                raise Violation("%s: %r: %s" % (desc(w, s, o), op, e), small)
            if f.value != v:
                raise Violation("%s: %r left %#x, expected %#x" %
                                (desc(w, s, o), op, f.value, v), small)
        return bad > 0, ("field",)

    def every(self, w, rng):
        for k in ("get", "put", "set", "clear", "isbit", "isbitset",
                  "isbitclr"):
            for side in ("low", "high"):
                for d in (1, 2, 3, w, 64, 1000):
                    yield [k, side, d]
        for k in ("getr", "putr", "isrange", "israngeset", "israngeclr"):
            for side in ("low", "high", "both"):
                for d in (1, 2, w, 77):
                    yield [k, side, d, rng.randrange(64), rng.randrange(64)]
            for lo in range(w):
                his = range(lo + 1, w) if w <= 12 else \
                    sorted({lo + 1, w - 1, rng.randint(lo, w - 1)})
                for hi in his:
                    if lo < hi < w:
                        yield [k, "reversed", 1, lo, hi]
        for lo in range(w):
            his = range(lo, w) if w <= 16 else \
                sorted({lo, lo + 1, w - 1, rng.randint(lo, w - 1)})
            for hi in his:
                if hi < w:
                    for neg in (False, True):
                        for d in (1, 2, 1 << (hi - lo)):
                            yield ["rangeval", lo, hi, neg, d]
                    yield ["legal", ["range", lo, hi, (1 << 64) - 1]]
                    yield ["israngeval", lo, hi, 2]
        for sig in range(w):
            for val in (2, 3, -1, 1 << w):
                yield ["bitval", sig, val]
            yield ["legal", ["bit", sig, 1]]
            yield ["legal", ["clear", sig]]
            yield ["legal", ["set", sig]]
        for d in (1, 2, 3, 1 << w, 1 << 64):
            yield ["value", False, d]
            yield ["value", True, d]
        yield ["legal", ["value", (1 << 64) - 1]]

    @staticmethod
    def illegal(f, w, s, o, op):
        first = 0 if s in (0, 2) else 1
        last = first + w - 1
        kind = op[0]
        what = "%s: %r" % (desc(w, s, o), op)
        if kind in ("get", "put", "set", "clear", "isbit", "isbitset",
                    "isbitclr"):
            n = first - op[2] if op[1] == "low" else last + op[2]
            fn = {"get": lambda: f[n],
                  "put": lambda: f.__setitem__(n, 1),
                  "set": lambda: f.set(n),
                  "clear": lambda: f.clear(n),
                  "isbit": lambda: f.isBit(n, 0),
                  "isbitset": lambda: f.isBitSet(n),
                  "isbitclr": lambda: f.isBitClr(n)}[kind]
        elif kind in ("getr", "putr", "isrange", "israngeset", "israngeclr"):
            lo, hi = sorted((op[3] % w, op[4] % w))
            a, b = span(w, s, o, lo, hi)
            if op[1] == "reversed":
                if lo == hi:
                    return
                a, b = b, a
            else:
                up = a <= b if a != b else (s in (0, 1)) == (o == 1)
                small, big = (a, b) if up else (b, a)
                if op[1] in ("low", "both"):
                    small = first - op[2]
                if op[1] in ("high", "both"):
                    big = last + op[2]
                a, b = (small, big) if up else (big, small)
            fn = {"getr": lambda: f[a:b],
                  "putr": lambda: f.__setitem__(slice(a, b), 0),
                  "isrange": lambda: f.isRange(a, b, 1),
                  "israngeset": lambda: f.isRangeSet(a, b),
                  "israngeclr": lambda: f.isRangeClr(a, b)}[kind]
            what += " [%d:%d]" % (a, b)
        elif kind == "bitval":
            n = number(w, s, op[1] % w)
            if op[2] in (0, 1):
                return
            fn = lambda: f.__setitem__(n, op[2])
        elif kind == "rangeval":
            lo, hi = sorted((op[1] % w, op[2] % w))
            a, b = span(w, s, o, lo, hi)
            val = -op[4] if op[3] else (1 << (hi - lo + 1)) - 1 + op[4]
            fn = lambda: f.__setitem__(slice(a, b), val)
            what += " [%d:%d]=%d" % (a, b, val)
        elif kind == "value":
            val = -op[2] if op[1] else (1 << w) - 1 + op[2]
            fn = lambda: setattr(f, "value", val)
        elif kind == "israngeval":
            lo, hi = sorted((op[1] % w, op[2] % w))
            a, b = span(w, s, o, lo, hi)
            fn = lambda: f.isRange(a, b, op[3])
        else:
            raise AssertionError(kind)
        expect_raises(ValueError, fn, what)

    @staticmethod
    def ctor(c):
        v, w, s, o = c
        B = mod("h800.bitfield").BitField
        sv = SCHEMES()[s] if s is not None and 0 <= s <= 3 else s
        ov = ORDERS()[o] if o is not None and 0 <= o <= 1 else o
        fn = lambda: B(v, width=w, numbering=sv, order=ov)
        legal = w <= 64 and 0 <= v < 1 << w and s in (0, 1, 2, 3) and \
            o in (0, 1)
        if legal:
            f = fn()
            eq(f.value, v, "constructed %r", c)
        else:
            expect_raises(ValueError, fn, "field %r" % (c,))
        return not legal, ("constructor",)


# ---------------------------------------------------------------------------

class C04(Prop):
    id = "C04"
    modules = ("h800.bitfield",)
    examples = {"quick": 700, "thorough": 14000}
    rule = ("case = a field value; every bit predicate on every bit and every "
            "range predicate on selected ranges is compared with the bits of "
            "the integer; values include, per range, exactly-set, "
            "all-but-one-set, exactly-clear and all-but-one-clear; "
            "non-trivial: value neither 0 nor all ones")
    exhaustive_note = ("all ranges of all widths 1..64 x 4 numberings x 2 "
                       "orders with the range all set / all clear / one bit "
                       "off")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        for rep in range(1 if tier == "quick" else 6):
            for w in range(1, MAXW + 1):
                for s in range(4):
                    for o in range(2):
                        yield {"sweep": [w, s, o],
                               "seed": rng.getrandbits(32)}

    def strategies(self, tier):
        def build(cfg):
            w, s, o = cfg
            return st.fixed_dictionaries({
                "w": st.just(w), "s": st.just(s), "o": st.just(o),
                "v": values(w),
                "ops": st.lists(st.tuples(sigs, sigs).map(list), min_size=1,
                                max_size=12)})
        return [("field", configs.flatmap(build), 1.0)]

    def run(self, case):
        if "sweep" in case:
            return self.sweep(case)
        w, s, o, v = case["w"], case["s"], case["o"], case["v"]
        f = make(w, s, o, v)
        self.bits(f, w, s, o, v)
        for x, y in case["ops"]:
            lo, hi = sorted((x % w, y % w))
            self.range(f, w, s, o, v, lo, hi)
        eq(f.value, v, "value after predicates")
        return 0 < v < (1 << w) - 1, ("field",)

    def bits(self, f, w, s, o, v):
        for sig in range(w):
            n = number(w, s, sig)
            b = v >> sig & 1
            for name, got, want in (
                    ("isBit(%d,0)", f.isBit(n, 0), not b),
                    ("isBit(%d,1)", f.isBit(n, 1), b),
                    ("isBitSet(%d)", f.isBitSet(n), b),
                    ("isBitClr(%d)", f.isBitClr(n), not b)):
                if bool(got) != bool(want):
                    raise Violation("%s %#x: %s is %r" % (
                        desc(w, s, o), v, name % n, got),
                        {"w": w, "s": s, "o": o, "v": v, "ops": []})
            if f.value != v:
                raise Violation("%s %#x: the value is %#x after asking about "
                                "bit %d" % (desc(w, s, o), v, f.value, n),
                                {"w": w, "s": s, "o": o, "v": v, "ops": []})

    def range(self, f, w, s, o, v, lo, hi):
        a, b = span(w, s, o, lo, hi)
        k = (1 << (hi - lo + 1)) - 1
        x = v >> lo & k
        allset, allclr = x == k, x == 0
        for name, got, want in (
                ("isRange(%d,%d,1)", f.isRange(a, b, 1), allset),
                ("isRange(%d,%d,0)", f.isRange(a, b, 0), allclr),
                ("isRangeSet(%d,%d)", f.isRangeSet(a, b), allset),
                ("isRangeClr(%d,%d)", f.isRangeClr(a, b), allclr)):
            if bool(got) != want:
                raise Violation("%s %#x: %s is %r" % (
                    desc(w, s, o), v, name % (a, b), got),
                    {"w": w, "s": s, "o": o, "v": v, "ops": [[lo, hi]]})
        if f.value != v:
            raise Violation("%s %#x: the value is %#x after asking about "
                            "%d:%d" % (desc(w, s, o), v, f.value, a, b),
                            {"w": w, "s": s, "o": o, "v": v,
                             "ops": [[lo, hi]]})

    def sweep(self, case):
        w, s, o = case["sweep"]
        rng = random.Random(case["seed"])
        m = (1 << w) - 1
        f = make(w, s, o)
        for v in patterns(w, rng, 2):
            f.value = v
            self.bits(f, w, s, o, v)
        for lo in range(w):
            for hi in range(lo, w):
                k = ((1 << (hi - lo + 1)) - 1) << lo
                bg = rng.getrandbits(w) & ~k
                off = {rng.randint(lo, hi)}
                if lo == 0 or hi == w - 1 or (lo + hi) % 4 == 0:
                    off |= {lo, hi}
                for v in [k | bg, bg] + [x for i in sorted(off) for x in (
                        (k | bg) & ~(1 << i), bg | 1 << i)]:
                    f.value = v & m
                    self.range(f, w, s, o, v & m, lo, hi)
        return w > 1, ("sweep",)
