"""C05-C09, C14: words, instruction words, constants, registers, memory.

Oracles: plain integers, dictionaries of integers, and the 32-name register
table transcribed from the manual.  Histories are sequences of operations on
several live objects; every operation is made legal in every context by
reducing its arguments modulo the size it addresses, except the operations
that are illegal on purpose.
"""
import random
from itertools import islice

from hypothesis import strategies as st

from ..core import (Prop, Violation, check, dict_ints, expect_raises,
                    known_ids, load_repo, mod)
from .bits import eq

M48 = (1 << 48) - 1


def ints(bits):
    m = (1 << bits) - 1
    return st.one_of(
        st.integers(0, m), st.integers(0, m).map(lambda x: m - x),
        st.deferred(lambda: st.sampled_from(dict_ints(0, m))),
        st.builds(lambda a, b: (1 << max(a, b)) - (1 << min(a, b)),
                  st.integers(0, bits), st.integers(0, bits)))


def bad_ints(bits):
    m = 1 << bits
    return st.one_of(
        st.integers(m, m + 2), st.integers(-3, -1),
        st.integers(m, m << 20), st.integers(-(m << 4), -1))


def some_values(bits, rng, n):
    m = (1 << bits) - 1
    out = [0, 1, m, m - 1, 1 << (bits - 1), m >> 1]
    out += [1 << rng.randrange(bits) for _ in range(3)]
    out += [v for v in dict_ints(0, m)]
    out += [rng.getrandbits(bits) for _ in range(n)]
    return out


def sub(v, width, a, b):
    "Bits a..b of a width-bit integer, bit 1 being the MSB."
    return v >> (width - b) & ((1 << (b - a + 1)) - 1)


def put(v, width, a, b, x):
    k = (1 << (b - a + 1)) - 1
    return v & ~(k << (width - b)) | x << (width - b)


# --------------------------------------------------------------------------

GROUPS = ("command", "a", "b", "c")
GROUP_BITS = {"command": (1, 12), "a": (13, 24), "b": (25, 36),
              "c": (37, 48)}


class C05(Prop):
    id = "C05"
    modules = ("h800.word",)
    examples = {"quick": 500, "thorough": 10000}
    rule = ("case = several live words and instruction words and a sequence "
            "of writes (whole value, one 12-bit group, a bit range, an illegal "
            "value); after each step the value, all four groups and sampled "
            "bit ranges of every word are compared with a 48-bit integer; "
            "non-trivial: a write to one group left another group non-zero")
    exhaustive_note = ("every one of the 4096 values in each of the four "
                       "groups against all-zero and all-one neighbours")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        for g in range(4):
            for base in (0, M48):
                for chunk in range(0, 4096, 256):
                    yield {"group": g, "base": base, "lo": chunk,
                           "hi": chunk + 256}
        for i in range(900 if tier == "quick" else 6000):
            words = [[rng.randrange(2), [rng.getrandbits(12)
                                         for _ in range(4)]]
                     for _ in range(3)]
            if i < 48:
                # every bit flipped and back after its group was written
                yield {"words": words, "ops": [
                    x for j in range(3) for x in (
                        [j, "group", i // 12, rng.getrandbits(12)],
                        [j, "flip", i], [j, "flip", i], [j, "flip", i],
                        [j, "value", rng.getrandbits(48)], [j, "flip", i],
                        [j, "group", i // 12, rng.getrandbits(12)])]}
            yield {"words": words,
                   "ops": [self.rand_op(rng, 3) for _ in range(40)]}
        for i in range(12):     # long histories
            yield {"words": [[1, [rng.getrandbits(12) for _ in range(4)]]],
                   "ops": [self.rand_op(rng, 1) for _ in range(1500)]}

    @staticmethod
    def rand_op(rng, n):
        i = rng.randrange(n)
        k = rng.choice(["group", "group", "value", "bits", "badgroup",
                        "badvalue", "badbits", "flip", "flip", "flip"])
        if k == "flip":
            return [i, k, rng.choice([rng.randrange(48), 11, 12, 23, 24, 35,
                                      36, 47])]
        if k == "group":
            return [i, k, rng.randrange(4), rng.choice(
                [0, 4095, rng.getrandbits(12)])]
        if k == "value":
            return [i, k, rng.choice([0, M48, rng.getrandbits(48)])]
        if k in ("bits", "badbits"):
            return [i, k, rng.randrange(48), rng.randrange(48),
                    rng.getrandbits(48)]
        if k == "badgroup":
            return [i, k, rng.randrange(4), rng.choice(
                [4096, 4097, -1, 1 << 36, 8191])]
        return [i, k, rng.choice([1 << 48, (1 << 48) + 1, -1])]

    def strategies(self, tier):
        idx = st.integers(0, 2)
        op = st.one_of(
            st.tuples(idx, st.just("group"), st.integers(0, 3), ints(12)),
            st.tuples(idx, st.just("value"), ints(48)),
            st.tuples(idx, st.just("flip"), st.integers(0, 47)),
            st.tuples(idx, st.sampled_from(["bits", "bits", "badbits"]),
                      st.integers(0, 47), st.integers(0, 47), ints(48)),
            st.tuples(idx, st.just("badgroup"), st.integers(0, 3),
                      bad_ints(12)),
            st.tuples(idx, st.just("badvalue"), bad_ints(48))).map(list)
        word = st.tuples(st.integers(0, 1),
                         st.lists(ints(12), min_size=4, max_size=4)).map(list)
        return [("history", st.fixed_dictionaries({
            "words": st.lists(word, min_size=3, max_size=3),
            "ops": st.lists(op, min_size=1, max_size=25)}), 1.0)]

    def look(self, w, v, kind, what):
        eq(w.value, v, "%s value", what)
        if kind:
            for g in GROUPS:
                a, b = GROUP_BITS[g]
                eq(getattr(w, g), sub(v, 48, a, b), "%s group %s", what, g)

    def run(self, case):
        W = mod("h800.word")
        if "group" in case:
            g = GROUPS[case["group"]]
            a, b = GROUP_BITS[g]
            for x in range(case["lo"], case["hi"]):
                v = put(case["base"], 48, a, b, x)
                w = W.InstructionWord(*[sub(v, 48, *GROUP_BITS[h])
                                        for h in GROUPS])
                self.look(w, v, 1, "built %#x" % v)
                setattr(w, g, x ^ 0xfff)
                self.look(w, put(v, 48, a, b, x ^ 0xfff), 1,
                          "%#x with %s=%#x" % (v, g, x ^ 0xfff))
                p = W.Word(v)
                eq(p.value, v, "word")
                p.value = v ^ M48
                eq(p.value, v ^ M48, "word")
            return True, ("groups",)
        words = []
        for kind, parts in case["words"]:
            v = 0
            for g, x in zip(GROUPS, parts):
                v = put(v, 48, *GROUP_BITS[g], x)
            if kind:
                w = W.InstructionWord(command=parts[0], a=parts[1],
                                      b=parts[2], c=parts[3])
            else:
                w = W.Word(v)
            words.append([w, v, kind])
        eq(W.Word().value, 0, "default word")
        self.look(W.InstructionWord(), 0, 1, "default instruction word")
        iso = False
        for i, k, *args in case["ops"]:
            w, v, kind = words[i]
            if k == "group":
                g = GROUPS[args[0]]
                a, b = GROUP_BITS[g]
                if kind:
                    setattr(w, g, args[1])
                else:
                    w.data[a:b] = args[1]
                v = put(v, 48, a, b, args[1])
                iso = iso or put(v, 48, a, b, 0) != 0
            elif k == "value":
                w.value = v = args[0]
            elif k == "bits":
                lo, hi = sorted((args[0] + 1, args[1] + 1))
                x = args[2] & ((1 << (hi - lo + 1)) - 1)
                w.data[lo:hi] = x
                v = put(v, 48, lo, hi, x)
                eq(w.data[lo:hi], x, "bits %d:%d", lo, hi)
                eq(w.data[lo], sub(v, 48, lo, lo), "bit %d", lo)
            elif k == "flip":
                n = args[0] + 1
                v ^= 1 << (48 - n)
                w.data[n] = v >> (48 - n) & 1
                eq(w.data[n], v >> (48 - n) & 1, "bit %d", n)
            elif k == "badgroup":
                if kind:
                    g = GROUPS[args[0]]
                    expect_raises(ValueError,
                                  lambda: setattr(w, g, args[1]),
                                  "group %s = %d" % (g, args[1]))
                    expect_raises(ValueError, lambda: W.InstructionWord(
                        **{g: args[1]}), "InstructionWord(%s=%d)" % (
                            g, args[1]))
            elif k == "badbits":
                lo, hi = sorted((args[0] + 1, args[1] + 1))
                for x in (1 << (hi - lo + 1), -1, args[2] +
                          (1 << (hi - lo + 1))):
                    expect_raises(ValueError, lambda: w.data.__setitem__(
                        slice(lo, hi), x), "bits %d:%d = %d" % (lo, hi, x))
                for n in (0, -1 - args[0], 49 + args[0]):
                    expect_raises(ValueError, lambda: w.data[n],
                                  "bit %d" % n)
            elif k == "badvalue":
                expect_raises(ValueError,
                              lambda: setattr(w, "value", args[0]),
                              "word value %d" % args[0])
                expect_raises(ValueError, lambda: W.Word(args[0]),
                              "Word(%d)" % args[0])
            words[i][1] = v
            for j, (x, xv, xk) in enumerate(words):
                self.look(x, xv, xk, "word %d after %r on %d" % (
                    j, [k] + args, i))
        return iso, ("history",)


# --------------------------------------------------------------------------

CONSTANTS = ("AlphanumericConstant", "DecimalConstant",
             "ExtendedBinaryConstant", "FloatingBinaryConstant",
             "FloatingDecimalConstant", "FixedBinaryConstant",
             "OctalConstant", "SpecialAddressConstant",
             "CompleteAddressConstant", "MaskBaseAddressConstant",
             "ProgramControlConstant", "MixedConstant",
             "TapeAddressConstant", "LinkageConstant", "SegmentNameConstant",
             "SubroutineCallConstant")


class C14(Prop):
    id = "C14"
    modules = ("h800.instructions",)
    examples = {"quick": 800, "thorough": 15000}
    rule = ("case = constants of the 16 data and control kinds, each built "
            "with a 48-bit value (legal or not) and possibly reassigned; all "
            "live constants are compared with their integers after every "
            "step; non-trivial: a legal value above 2**24 and an illegal one")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        for c in range(len(CONSTANTS)):
            for v in some_values(48, rng, 40 if tier == "quick" else 400):
                yield {"ops": [[c, "new", v], [c, "new", v],
                               [(c + 1) % len(CONSTANTS), "new", v],
                               [c, "bad", 1 << 48],
                               [c, "bad", -1], [c, "set", v ^ M48],
                               [c, "badset", 1 << 48], [c, "badset", -1]]}
            for v in (1 << 48, (1 << 48) + 1, 1 << 49, 1 << 64, -1, -2,
                      -(1 << 47), -(1 << 48)):
                yield {"ops": [[c, "new", 1 << 40], [c, "bad", v],
                               [c, "badset", v]]}
        for i in range(20 if tier == "quick" else 200):     # long histories
            kinds = rng.sample(range(len(CONSTANTS)), 2)
            yield {"ops": [[rng.choice(kinds), rng.choice(
                ["new", "set", "set", "set"]), rng.getrandbits(48)]
                for _ in range(250)]}

    def strategies(self, tier):
        c = st.integers(0, len(CONSTANTS) - 1)
        op = st.one_of(
            st.tuples(c, st.just("new"), ints(48)),
            st.tuples(c, st.just("set"), ints(48)),
            st.tuples(c, st.just("bad"), bad_ints(48)),
            st.tuples(c, st.just("badset"), bad_ints(48))).map(list)
        return [("constants", st.fixed_dictionaries({
            "ops": st.lists(op, min_size=2, max_size=20)}), 1.0)]

    def run(self, case):
        I = mod("h800.instructions")
        live = []                       # [kind, constant, value]
        good = bad = False
        for c, k, v in case["ops"]:
            cls = getattr(I, CONSTANTS[c])
            what = "%s %s %d" % (CONSTANTS[c], k, v)
            same = [x for x in live if x[0] == c]
            one = same[(v >> 3 ^ v >> 40) % len(same)] if same else None
            if k == "new":
                live.append([c, cls(v), v])
                good = good or v > 1 << 24
            elif k == "set":
                if one:
                    one[1].value = one[2] = v
            elif k == "bad":
                expect_raises(ValueError, lambda: cls(v), what)
                bad = True
            elif k == "badset" and one:
                expect_raises(ValueError,
                              lambda: setattr(one[1], "value", v), what)
                bad = True
            for d, o, ov in live:
                eq(o.value, ov, "%s after %s", CONSTANTS[d], what)
        return good and bad, ()


# --------------------------------------------------------------------------

REGNAMES = ("AU1 AU2 SC CSC SH CSH UTR MXR X0 X1 X2 X3 X4 X5 X6 X7 "
            "R0 R1 R2 R3 R4 R5 R6 R7 S0 S1 S2 S3 S4 S5 S6 S7").split()
ALIASES = {28: "RAC", 29: "DRAC", 30: "WAC", 31: "DWAC"}
ALL_NAMES = REGNAMES + list(ALIASES.values())


class C06(Prop):
    id = "C06"
    modules = ("h800.registers",)
    examples = {"quick": 500, "thorough": 10000}
    rule = ("case = live 16- and 24-bit registers and a sequence of value, "
            "bit and range writes, clears and illegal requests (value, bit "
            "number, range, width, name); all registers compared with "
            "integers after each step; non-trivial: a partial write on a "
            "non-zero register")
    exhaustive_note = ("all 65536 values of a 16-bit register; every single "
                       "bit and bit range of both widths on sampled values")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        for lo in range(0, 1 << 16, 2048):
            yield {"values": [16, lo, lo + 2048, 1]}
        step = 509 if tier == "quick" else 7
        for lo in range(0, 1 << 24, 1 << 20):
            yield {"values": [24, lo, lo + (1 << 20), step]}
        for width in (16, 24):
            for lo in range(1, width + 1):
                for hi in range(lo, width + 1):
                    ops = []
                    for old in (0, (1 << width) - 1, rng.getrandbits(width)):
                        ops += [[0, "value", old],
                                [0, "range", lo, hi, rng.getrandbits(width)],
                                [0, "value", old],
                                [0, "bit", lo, rng.randrange(2)],
                                [0, "badrange", lo, hi],
                                [0, "badbit", rng.choice([0, -1, width + 1,
                                                          width + 9])]]
                    yield {"regs": [[width, None, 0], [16, 3, 7]],
                           "ops": ops}
        for width in list(range(-1, 70)):
            yield {"width": width}
        for n in list(range(len(ALL_NAMES))):
            for width in (16, 24):
                yield {"regs": [[width, n, 5]], "ops": [[0, "value", 77]]}
        for name in ("", "x0", "X8", "R8", "S8", "AU3", "ACC", "A", "SC ",
                     "DRAC2", "0"):
            if name:
                yield {"badname": name}
        for name in ALL_NAMES:
            for t in (name + "0", name + name, name + " ", " " + name,
                      name.lower(), name[:-1], name[1:]):
                if t and t not in ALL_NAMES:
                    yield {"badname": t}
            for i in range(len(name) + 1):
                for ch in "AX07_":
                    for t in (name[:i] + ch + name[i:],
                              name[:i] + ch + name[i + 1:]):
                        if t not in ALL_NAMES:
                            yield {"badname": t}
        for _ in range(24 if tier == "quick" else 400):     # long histories
            yield {"regs": [[16, rng.randrange(36), rng.getrandbits(16)],
                            [24, None, rng.getrandbits(24)]],
                   "ops": [self.rand_op(rng) for _ in range(600)]}

    @staticmethod
    def rand_op(rng):
        k = rng.choice(["value", "value", "bit", "bit", "range", "range",
                        "clear", "badvalue", "badbit", "badrange", "wide"])
        n, m = rng.randint(1, 24), rng.randint(1, 24)
        return [rng.randrange(2), k] + {
            "value": [rng.choice([0, (1 << 24) - 1, rng.getrandbits(24)])],
            "bit": [n, m & 1], "range": [n, m, rng.getrandbits(24)],
            "clear": [], "badvalue": [rng.choice([1 << 24, -1, 1 << 40])],
            "badbit": [rng.choice([0, -1, 25, 26])], "badrange": [n, m],
            "wide": [n, m, rng.randrange(10)]}[k]

    def strategies(self, tier):
        i = st.integers(0, 2)
        n = st.integers(1, 24)
        op = st.one_of(
            st.tuples(i, st.just("value"), ints(24)),
            st.tuples(i, st.just("bit"), n, st.integers(0, 1)),
            st.tuples(i, st.just("range"), n, n, ints(24)),
            st.tuples(i, st.just("clear")),
            st.tuples(i, st.just("badvalue"), bad_ints(24)),
            st.tuples(i, st.just("badbit"), st.one_of(
                st.integers(25, 99), st.integers(-99, 0))),
            st.tuples(i, st.just("badrange"), n, n),
            st.tuples(i, st.just("wide"), n, n, st.integers(0, 9)),
        ).map(list)
        reg = st.tuples(st.sampled_from([16, 24]),
                        st.one_of(st.none(), st.integers(0, 35)),
                        ints(24)).map(list)
        return [("history", st.fixed_dictionaries({
            "regs": st.lists(reg, min_size=1, max_size=3),
            "ops": st.lists(op, min_size=1, max_size=25)}), 1.0)]

    def run(self, case):
        R = mod("h800.registers")
        if "values" in case:
            width, lo, hi, step = case["values"]
            r = R.Register(width=width)
            for v in range(lo, hi, step):
                r.value = v
                if r.value != v:
                    raise Violation("%d-bit register: wrote %#x read %#x" % (
                        width, v, r.value))
                eq(R.Register(v, width=width).value, v, "Register(%d)", v)
            return True, ("values",)
        if "width" in case:
            width = case["width"]
            for kw in [{}] + [{"name": n} for n in ALL_NAMES]:
                if width in (16, 24):
                    eq(R.Register(0, width=width, **kw).width, width, "width")
                else:
                    expect_raises(ValueError,
                                  lambda: R.Register(0, width=width, **kw),
                                  "%d-bit register %s" % (width, kw))
            return True, ("width",)
        if "badname" in case:
            for kw in ({}, {"width": 16}, {"width": 24}):
                expect_raises(ValueError, lambda: R.Register(
                    0, name=case["badname"], **kw),
                    "name %r %s" % (case["badname"], kw))
            return True, ("name",)
        regs = []
        for width, name, v in case["regs"]:
            v &= (1 << width) - 1
            name = None if name is None else ALL_NAMES[name]
            regs.append([R.Register(v, name=name, width=width), v, width,
                         name])
        partial = False
        for i, k, *a in case["ops"]:
            if i >= len(regs):
                continue
            r, v, w, name = regs[i]
            m = (1 << w) - 1
            if k == "value":
                v = a[0] & m
                r.value = v
            elif k == "bit":
                n = (a[0] - 1) % w + 1
                partial = partial or v != 0
                r[n] = a[1]
                v = put(v, w, n, n, a[1])
            elif k == "range":
                lo, hi = sorted(((a[0] - 1) % w + 1, (a[1] - 1) % w + 1))
                x = a[2] & ((1 << (hi - lo + 1)) - 1)
                partial = partial or v != 0
                r[lo:hi] = x
                v = put(v, w, lo, hi, x)
                eq(r[lo:hi], x, "bits %d:%d", lo, hi)
            elif k == "clear":
                r.clear()
                v = 0
            elif k == "badvalue":
                x = a[0] if a[0] < 0 else a[0] - (1 << 24) + (1 << w)
                expect_raises(ValueError, lambda: setattr(r, "value", x),
                              "%d-bit register value %d" % (w, x))
                expect_raises(ValueError, lambda: R.Register(x, width=w),
                              "Register(%d, width=%d)" % (x, w))
            elif k == "badbit":
                n = a[0]
                if not 1 <= n <= w:
                    expect_raises(ValueError, lambda: r[n], "bit %d" % n)
                    expect_raises(ValueError,
                                  lambda: r.__setitem__(n, 1), "bit %d" % n)
            elif k == "badrange":
                lo, hi = sorted(((a[0] - 1) % w + 1, (a[1] - 1) % w + 1))
                if lo != hi:
                    expect_raises(ValueError, lambda: r[hi:lo],
                                  "bits %d:%d" % (hi, lo))
                    expect_raises(ValueError, lambda: r.__setitem__(
                        slice(hi, lo), 0), "bits %d:%d" % (hi, lo))
                for x, y in ((lo, w + 1), (0, hi), (lo, w + lo), (-lo, hi),
                             (0, 0), (w + 1, w + 1), (0, w), (0, w + 1),
                             (lo, 0), (lo, -1)):
                    what = "bits %d:%d" % (x, y)
                    expect_raises(ValueError, lambda: r[x:y], what)
                    for new in (0, 1):
                        expect_raises(ValueError, lambda: r.__setitem__(
                            slice(x, y), new), "%s = %d" % (what, new))
                    eq(r.value, v, "value after a refused write of " + what)
            elif k == "wide":
                lo, hi = sorted(((a[0] - 1) % w + 1, (a[1] - 1) % w + 1))
                x = (1 << (hi - lo + 1)) + a[2]
                expect_raises(ValueError, lambda: r.__setitem__(
                    slice(lo, hi), x), "bits %d:%d = %d" % (lo, hi, x))
                expect_raises(ValueError, lambda: r.__setitem__(
                    slice(lo, hi), -1 - a[2]), "bits %d:%d = %d" % (
                        lo, hi, -1 - a[2]))
                expect_raises(ValueError, lambda: r.__setitem__(
                    lo, 2 + a[2]), "bit %d = %d" % (lo, 2 + a[2]))
                expect_raises(ValueError, lambda: r.__setitem__(
                    lo, -1 - a[2]), "bit %d = %d" % (lo, -1 - a[2]))
            regs[i][1] = v
            for x, xv, xw, xn in regs:
                what = "%d-bit register after %r" % (xw, [i, k] + a)
                eq(x.value, xv, what)
                eq(x.width, xw, what + " width")
                eq(len(x), xw, what + " len")
                check(x.name == xn, "%s: name %r", what, x.name)
                check(repr(x) == "0o%06o" % xv, "%s: repr %s", what, repr(x))
        for x, xv, xw, xn in regs:
            for n in range(1, xw + 1):
                eq(x[n], sub(xv, xw, n, n), "bit %d", n)
        return partial, ("history",)


# --------------------------------------------------------------------------

class C07(Prop):
    id = "C07"
    modules = ("h800.registers",)
    examples = {"quick": 250, "thorough": 5000}
    rule = ("case = two live register files (16- or 24-bit) and a sequence of "
            "reads, writes, bit writes, register and group replacements, "
            "clears at all three levels, iterations and illegal requests; all "
            "2 x 8 x 32 registers are compared with dictionaries after every "
            "step; non-trivial: a clear or replacement with other groups "
            "non-zero")
    assumptions = ["A register file object yields its eight groups only the "
                   "first time it is iterated (known finding "
                   "registers-reiterate); later iterations may yield nothing "
                   "and are otherwise compared in full."]

    KINDS = ["w", "w", "w", "wn", "wb", "wr", "bad", "clr", "clrg", "clrall",
             "put", "putn", "putw", "putg", "iterg", "iter", "badreg", "badname",
             "badgroup", "repr", "slice", "hold", "held", "held"]

    def rand_op(self, rng):
        return [rng.randrange(2), rng.choice(self.KINDS), rng.randrange(8),
                rng.randrange(32), rng.choice([0, (1 << 24) - 1, 0xffff,
                                               rng.getrandbits(24)]),
                rng.randrange(24)]

    def enum(self, tier, seed):
        rng = random.Random(seed)
        for g in range(8):
            for width in (16, 24):
                yield {"widths": [width, 40 - width], "ops":
                       [[0, "w", g, r, 0xffff, 0] for r in range(32)] +
                       [[0, "clrg", g, 0, 0, 0]] +
                       [[1, "wn", g, r, 1 + r, 0] for r in range(32)] +
                       [[1, "clrall", 0, 0, 0, 0]] +
                       [[1, "w", g, r, 0xff - r, 0] for r in range(32)] +
                       [[1, "clrall", 0, 0, 0, 0]] +
                       [[0, "iterg", g, 0, 0, 0], [0, "iterg", g, 0, 0, 0],
                        [0, "iter", 0, 0, 0, 0], [0, "iter", 0, 0, 0, 0],
                        [0, "w", g, 3, 9, 0], [0, "clrg", g, 0, 0, 0],
                        [0, "w", g, 5, 9, 0], [0, "clrall", g, 0, 0, 0]]}
        # every register by number and by name
        for r in range(32):
            yield {"widths": [16, 24], "ops":
                   [[i, k, g, r, 0x1234 + g + r, 3] for i in (0, 1)
                    for k in ("w", "wn", "put", "putn", "wb", "wr", "clr")
                    for g in (0, 3, 7)]}
        # registers reached before a clear or a replacement elsewhere
        for r in range(32):
            yield {"widths": [16, 24], "ops":
                   [[i, k, 2 + (k in ("putg", "put")), r, v, 3]
                    for i in (0, 1) for v in (0, 0x1234)
                    for k in ("hold", "held", "clr", "held", "clrg", "held",
                              "put", "putg", "held", "w", "held", "clrall",
                              "held", "wn", "wb", "held", "iterg", "held")]}
        # registers of another width than the file's
        for r in range(32):
            yield {"widths": [16, 24], "ops":
                   [[i, k, g, r, 0xffffff, 3] for i in (0, 1)
                    for clr in ("clr", "clrg", "clrall")
                    for k in ("putw", "w", "wb", "bad", clr)
                    for g in (0, 5)]}
        for i in range(150 if tier == "quick" else 1500):
            yield {"widths": [rng.choice([16, 24]), rng.choice([16, 24])],
                   "ops": [self.rand_op(rng) for _ in range(120)]}

    def strategies(self, tier):
        op = st.tuples(st.integers(0, 1), st.sampled_from(self.KINDS),
                       st.integers(0, 7), st.integers(0, 31), ints(24),
                       st.integers(0, 23)).map(list)
        return [("history", st.fixed_dictionaries({
            "widths": st.lists(st.sampled_from([16, 24]), min_size=2,
                               max_size=2),
            "ops": st.lists(op, min_size=1, max_size=30)}), 1.0)]

    def run(self, case):
        R = mod("h800.registers")
        files = []
        for w in case["widths"]:
            files.append([R.Registers(width=w),
                          [[0] * 32 for _ in range(8)], w, 0])
        self.compare(files, "fresh")
        tags = [[list(REGNAMES) for _ in range(8)] for _ in files]
        other = set()       # registers put there with the other width
        held = {}           # register objects reached before
        interesting = False
        for op in case["ops"]:
            i, k, g, r, v, x = op
            f, ref, w, iters = files[i]
            width = w
            if k == "putw":
                other.add((i, g, r))
            elif k in ("put", "putn"):
                other.discard((i, g, r))
            elif k == "putg":
                other = {x for x in other if x[:2] != (i, g)}
            if (i, g, r) in other:
                w = 40 - w
            m = (1 << w) - 1
            v &= m
            if k in ("clr", "clrg", "clrall", "put", "putn", "putw", "putg"):
                interesting = interesting or any(
                    any(row) for j, row in enumerate(ref) if j != g)
            if k == "w":
                f[g][r].value = v
                ref[g][r] = v
            elif k == "wn":
                f[g][REGNAMES[r]].value = v
                ref[g][r] = v
            elif k == "wb":
                n = x % w + 1
                f[g][r][n] = v & 1
                ref[g][r] = put(ref[g][r], w, n, n, v & 1)
            elif k == "wr":
                lo, hi = sorted((x % w + 1, r % w + 1))
                y = v & ((1 << (hi - lo + 1)) - 1)
                f[g][REGNAMES[r]][lo:hi] = y
                ref[g][r] = put(ref[g][r], w, lo, hi, y)
            elif k == "bad":
                for y in (m + 1 + v, -1 - v):
                    expect_raises(ValueError, lambda: setattr(
                        f[g][r], "value", y), "%d-bit register = %d" % (w, y))
            elif k == "clr":
                f[g][r].clear()
                ref[g][r] = 0
            elif k == "clrg":
                f[g].clear()
                ref[g] = [0] * 32
            elif k == "clrall":
                f.clear()
                for row in ref:
                    row[:] = [0] * 32
            elif k in ("put", "putn", "putw"):
                # named after its place, another register, an alias, or not
                name = [REGNAMES[r], REGNAMES[r], ALL_NAMES[(r + x) % 36],
                        ALIASES[28 + x % 4], None][x % 5]
                new = R.Register(v, name=name, width=w)
                f[g][REGNAMES[r] if k == "putn" else r] = new
                ref[g][r] = v
                tags[i][g][r] = name
                held.pop((i, g, r), None)
            elif k == "hold":
                held[i, g, r] = f[g][r] if v & 1 else f[g][REGNAMES[r]]
            elif k == "held":
                at = sorted(held)
                if (i, g, r) not in held and at:
                    i, g, r = at[(r + x) % len(at)]
                if (i, g, r) in held:
                    reg, ref = held[i, g, r], files[i][1]
                    w = reg.width
                    check(reg.value == ref[g][r], "register %d of group %d "
                          "reached before: %#x, expected %#x", r, g,
                          reg.value, ref[g][r])
                    v &= (1 << w) - 1
                    if x % 3:
                        reg.value = ref[g][r] = v
                    else:
                        n = x % w + 1
                        reg[n] = v & 1
                        ref[g][r] = put(ref[g][r], w, n, n, v & 1)
            elif k == "putg":
                for at in [at for at in held if at[:2] == (i, g)]:
                    del held[at]
                tags[i][g] = list(REGNAMES)
                grp = R.RegisterGroup(width=width)
                grp[r].value = v
                f[g] = grp
                ref[g] = [0] * 32
                ref[g][r] = v
            elif k == "iterg":
                got = [z.value for z in islice(f[g], 100)]
                check(got == ref[g], "iterating group %d: %r, expected %r",
                      g, got, ref[g])
                names = [z.name for z in islice(f[g], 100)]
                check(names == tags[i][g], "iterating group %d again: names "
                      "%r", g, names)
                for _ in islice(f[g], x):       # left off half way
                    pass
                two = [(p.name, q.name) for p, q in islice(
                    zip(f[g], f[g]), 100)]
                check(two == [(n, n) for n in tags[i][g]],
                      "two simultaneous iterations of group %d: %r", g, two)
            elif k == "iter":
                got = []
                for grp in islice(f, 100):
                    got.append([grp[n].value for n in range(32)])
                    if len(got) == g:
                        f[r % 8] = f[r % 8]
                tolerated = iters > 0 and got == [] and \
                    "registers-reiterate" in known_ids("C07")
                check(got == ref or tolerated,
                      "iterating the register file: %d groups", len(got))
                files[i][3] += 1
            elif k == "badreg":
                for n in (32 + v % 50, -1 - v % 50, 32, -1):
                    expect_raises(ValueError, lambda: f[g][n],
                                  "register number %d" % n)
                    expect_raises(ValueError, lambda: f[g].__setitem__(
                        n, R.Register(1, width=w)), "register number %d" % n)
            elif k == "badname":
                for n in ("X8", "", "au1", "R%d" % (8 + v % 90),
                          REGNAMES[r] + " ", REGNAMES[r].lower()):
                    expect_raises(ValueError, lambda: f[g][n],
                                  "register name %r" % n)
                    expect_raises(ValueError, lambda: f[g].__setitem__(
                        n, R.Register(1, width=w)), "register name %r" % n)
            elif k == "badgroup":
                for n in (8 + v % 50, -1 - v % 50, 8, -1, "0", REGNAMES[r]):
                    expect_raises(ValueError, lambda: f[n],
                                  "register group %r" % (n,))
                    expect_raises(ValueError, lambda: f.__setitem__(
                        n, R.RegisterGroup(width=w)),
                        "register group %r" % (n,))
            elif k == "slice":
                expect_raises(ValueError, lambda: f[0:2], "slice of groups")
                expect_raises(ValueError, lambda: f[g][0:2],
                              "slice of registers")
            elif k == "repr":
                check(repr(f[g]).split() == ["0o%06o" % z for z in ref[g]],
                      "group text %r", repr(f[g]))
                rows = repr(f).split("\n")
                check([row.split() for row in rows if row.strip()] ==
                      [["[%d]" % j] + ["0o%06o" % z for z in row]
                       for j, row in enumerate(ref)], "register file text")
            self.compare(files, op)
        for f, ref, w, _ in files:
            for g in range(8):
                grp = f[g]
                for r in range(32):
                    if grp[REGNAMES[r]].value != ref[g][r]:
                        raise Violation("group %d register %s: %#x, expected "
                                        "%#x" % (g, REGNAMES[r],
                                                 grp[REGNAMES[r]].value,
                                                 ref[g][r]))
        return interesting, ()

    @staticmethod
    def compare(files, op):
        for j, (f, ref, w, _) in enumerate(files):
            check(len(f) == 8 and f.width == w, "register file has %r groups,"
                  " width %r", len(f), f.width)
            for g in range(8):
                grp, row = f[g], ref[g]
                check(len(grp) == 32 and grp.width == w,
                      "group %d has %r registers, width %r", g, len(grp),
                      grp.width)
                for r in range(32):
                    if grp[r].value != row[r]:
                        raise Violation(
                            "after %r: file %d group %d register %d holds "
                            "%#x, expected %#x" % (op, j, g, r, grp[r].value,
                                                   row[r]))

    @staticmethod
    def known_findings():
        if "registers-reiterate" not in known_ids("C07"):
            return []
        load_repo()
        R = mod("h800.registers").Registers()
        first = len(list(islice(R, 100)))
        again = len(list(islice(R, 100)))
        if first == 8 and again == 0:
            return ["KNOWN-FINDING: property=C07 registers-reiterate: a "
                    "register file object yields its 8 groups on the first "
                    "iteration and nothing on every later one"]
        return []


# --------------------------------------------------------------------------

class C08(Prop):
    id = "C08"
    modules = ("h800.registers",)
    examples = {"quick": 600, "thorough": 10000}
    rule = ("case = a register number, or a name; names, numbers and "
            "preferred aliases are compared with the manual's table, anything "
            "else must be refused; non-trivial: everything but a plain "
            "in-table lookup of a non-aliased register")
    exhaustive_note = "all 32 numbers, 32 names, 4 aliases, numbers -300..5000"

    def enum(self, tier, seed):
        for n in list(range(-300, 5000)) + dict_ints(-(1 << 40), 1 << 40):
            yield {"n": n}
        for name in ALL_NAMES:
            for t in (name, name.lower(), name + " ", " " + name, name[:-1],
                      name + "0", name + name, "Z," + name, name[::-1],
                      name.capitalize()):
                yield {"name": t}
            for i in range(len(name) + 1):      # one character more or other
                for ch in "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ,-_":
                    yield {"name": name[:i] + ch + name[i:]}
                    yield {"name": name[:i] + ch + name[i + 1:]}
        for a in "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
            for b in [""] + list("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"):
                yield {"name": a + b}
                for i in range(10):
                    yield {"name": a + b + str(i)}

    def strategies(self, tier):
        alpha = "ACDHMRSTUWX0123456789"
        return [("number", st.fixed_dictionaries(
            {"n": st.one_of(st.integers(-9, 40), st.integers())}), 0.5),
            ("name", st.fixed_dictionaries(
                {"name": st.text(alphabet=alpha, max_size=6)}), 1.0)]

    def run(self, case):
        R = mod("h800.registers")
        if "n" in case:
            n = case["n"]
            if 0 <= n <= 31:
                name, alias = R.registerName(n), R.registerAlias(n)
                check(name == REGNAMES[n], "register %d is called %r", n, name)
                check(alias == ALIASES.get(n, REGNAMES[n]),
                      "register %d has alias %r", n, alias)
                for x in (name, alias):
                    check(R.registerNumber(x) == n, "%s has number %r", x,
                          R.registerNumber(x))
                return n in ALIASES, ("register",)
            expect_raises(ValueError, lambda: R.registerName(n),
                          "name of register %d" % n)
            expect_raises(ValueError, lambda: R.registerAlias(n),
                          "alias of register %d" % n)
            return True, ("bad number",)
        name = case["name"]
        if name in REGNAMES:
            check(R.registerNumber(name) == REGNAMES.index(name),
                  "%s has number %r", name, R.registerNumber(name))
            return False, ("name",)
        if name in ALL_NAMES:
            want = 28 + list(ALIASES.values()).index(name)
            check(R.registerNumber(name) == want, "%s has number %r", name,
                  R.registerNumber(name))
            return True, ("alias",)
        expect_raises(ValueError, lambda: R.registerNumber(name),
                      "number of register %r" % name)
        return True, ("bad name",)


# --------------------------------------------------------------------------

SIZE = 2048


class C09(Prop):
    id = "C09"
    modules = ("h800.memory",)
    examples = {"quick": 50, "thorough": 2500}
    rule = ("case = a main module (4 banks), an expansion module (8 banks) and "
            "a lone bank (or just two lone banks), plus a sequence of word writes, block fills, reads, "
            "clears, iterations and illegal requests; touched cells and their "
            "neighbours in every bank are compared with dictionaries after "
            "each step and every cell at the end; non-trivial: at least two "
            "banks hold data and a fill, clear or illegal request happened")
    exhaustive_note = "every address of every bank written with its own value"

    def enum(self, tier, seed):
        rng = random.Random(seed)
        for b in range(13):
            yield {"full": b, "seed": rng.getrandbits(32)}
        for i in range(120 if tier == "quick" else 3000):
            yield {"ops": [self.rand_op(rng) for _ in range(60)],
                   "small": i % 5 > 0}
        for i in range(10 if tier == "quick" else 100):     # long histories
            yield {"ops": [self.rand_op(rng) for _ in range(500)],
                   "small": True}
        yield {"ops": [[rng.randrange(2), "w", rng.randrange(SIZE),
                        rng.choice(self.ADDRS), rng.getrandbits(48)]
                       for _ in range(9000)], "small": True}

    KINDS = ["w", "w", "w", "w", "fill", "fill", "r", "clear", "iter", "bad",
             "badslice", "badaddr", "badbank", "banks", "repr", "rbad",
             "iterw", "hold", "heldw", "heldw", "backw"]
    ADDRS = (0, 1, 2, 15, 16, 31, 63, 64, 127, 128, 255, 256, 511, 512, 1023,
             1024, 1025, 2045, 2046, 2047)

    def rand_op(self, rng):
        k = rng.choice(self.KINDS)
        if k == "repr" and rng.random() < 0.8:
            k = "w"
        addr = lambda: rng.choice([rng.choice(self.ADDRS),
                                   rng.randrange(SIZE)])
        return [rng.randrange(13), k, addr(), rng.choice(
            [addr(), rng.randrange(40)]),
            rng.choice([0, M48, rng.getrandbits(48), 1 << rng.randrange(48)])]

    def strategies(self, tier):
        addr = st.one_of(st.integers(0, SIZE - 1),
                         st.sampled_from(self.ADDRS),
                         st.deferred(lambda: st.sampled_from(
                             dict_ints(0, SIZE - 1))))
        op = st.tuples(st.integers(0, 12), st.sampled_from(self.KINDS), addr,
                       addr, ints(48)).map(list)
        ops = st.lists(op, min_size=1, max_size=20)
        return [("history", st.fixed_dictionaries({"ops": ops}), 0.6),
                ("two banks", st.fixed_dictionaries({
                    "ops": ops, "small": st.just(True)}), 3.0)]

    @staticmethod
    def setup(small):
        M = mod("h800.memory")
        if small:
            lone = M.MemoryBank(), M.MemoryBank()
            return None, None, lambda i: lone[i], 2
        main, exp, lone = (M.MemoryModule(), M.ExpansionMemoryModule(),
                           M.MemoryBank())
        check(len(main) == 4 and main.size() == 4 * SIZE,
              "main module: %r banks, %r words", len(main), main.size())
        check(len(exp) == 8 and exp.size() == 8 * SIZE,
              "expansion module: %r banks, %r words", len(exp), exp.size())

        def bank(i):
            return main[i] if i < 4 else exp[i - 4] if i < 12 else lone
        return main, exp, bank, 13

    def run(self, case):
        main, exp, bank, nbanks = self.setup(case.get("small"))
        if "full" in case:
            rng = random.Random(case["seed"])
            b = bank(case["full"])
            for again in range(3):
                vals = [rng.getrandbits(48) for _ in range(SIZE)]
                for a in range(SIZE):
                    b[a] = vals[a]
                check(b[0:SIZE] == vals, "block read of the whole bank")
                check([w.value for w in islice(b, 5000)] == vals,
                      "iteration")
                check(repr(b).split() == ["0o%016o" % x for x in vals],
                      "text of the whole bank")
            ref = {case["full"]: dict(enumerate(vals))}
            self.full(bank, ref, nbanks)
            b.clear()
            self.full(bank, {}, nbanks)
            return True, ("full bank",)
        ref, held, recent = {}, {}, []
        interesting = False
        for op in case["ops"]:
            i, k, a, c, v = op
            i %= nbanks
            if recent and k in ("w", "fill") and v % 3 == 0:
                a = recent[c % len(recent)]     # an address of interest
            if main is None and k in ("badbank", "banks"):
                k = "r"
            b = bank(i)
            row = ref.setdefault(i, {})
            touched = [a, c]
            if k == "w":
                b[a] = v
                row[a] = v
            elif k == "fill":
                lo, hi = sorted((a, c))
                b[lo:hi] = v
                for x in range(lo, hi):
                    row[x] = v
                touched += [lo - 1, lo + 1, hi - 1, hi, hi + 1]
                if hi - lo < 64:
                    touched += range(lo, hi)
            elif k == "r":
                lo, hi = sorted((a, c))
                got = b[lo:hi]
                check(list(got) == [row.get(x, 0) for x in range(lo, hi)],
                      "bank %d[%d:%d] read wrongly", i, lo, hi)
            elif k == "backw":      # a block that ends before it starts
                lo, hi = sorted((a, c))
                try:
                    b[hi:lo] = v
                except Exception:
                    pass
                touched += [lo - 1, lo + 1, hi - 1, hi + 1, (lo + hi) // 2]
            elif k == "clear":
                b.clear()
                row.clear()
                touched += self.ADDRS
            elif k == "iter":
                got = [w.value for w in islice(b, 5000)]
                check(got == [row.get(x, 0) for x in range(SIZE)],
                      "iterating bank %d: %d words", i, len(got))
                two = [p.value == q.value for p, q in islice(zip(b, b), 5000)]
                check(two == [True] * SIZE,
                      "two simultaneous iterations of bank %d", i)
            elif k == "iterw":
                next(islice(b, a, None)).value = v
                row[a] = v
            elif k == "hold":
                held[i, a] = next(islice(b, a, None))
                recent.append(a)
            elif k == "heldw" and held:
                # through a word that an earlier iteration delivered
                i, a = list(held)[c % len(held)]
                check(held[i, a].value == ref.get(i, {}).get(a, 0),
                      "word %d of bank %d, held since an earlier iteration, "
                      "reads %#x", a, i, held[i, a].value)
                held[i, a].value = v
                ref.setdefault(i, {})[a] = v
                touched = [a]
            elif k == "bad":
                for x in (M48 + 1 + v, -1 - v):
                    expect_raises(ValueError, lambda: b.__setitem__(a, x),
                                  "word %d = %d" % (a, x))
            elif k == "badslice":
                lo, hi = sorted((a, c))
                if lo < hi:
                    expect_raises(ValueError, lambda: b.__setitem__(
                        slice(lo, hi), M48 + 1 + v), "fill with %d" % (
                            M48 + 1 + v))
                    touched += [lo, hi - 1]
            elif k == "badaddr":
                for x in (SIZE, SIZE + a, -1, -1 - a):
                    expect_raises(Exception, lambda: b[x], "address %d" % x)
                    expect_raises(Exception, lambda: b.__setitem__(x, 1),
                                  "address %d" % x)
                touched += [0, SIZE - 1]
            elif k == "rbad":
                expect_raises(Exception, lambda: b[a:SIZE + 1 + c],
                              "block read past the end")
                expect_raises(Exception, lambda: b[-1 - c:a + 1],
                              "block read before the start")
                if main is not None:
                    for mdl, n in ((main, 4), (exp, 8)):
                        expect_raises(Exception, lambda: mdl[a % n:n + 1 + c],
                                      "banks past the last")
                        expect_raises(Exception, lambda: mdl[-1 - c:a % n + 1],
                                      "banks before the first")
                expect_raises(Exception, lambda: b.__setitem__(
                    slice(a, SIZE + 1 + c), v), "block write past the end")
                expect_raises(Exception, lambda: b.__setitem__(
                    slice(-1 - c, a + 1), v), "block write before the start")
                touched += [a, (a + SIZE) // 2, SIZE - 1, 0, a // 2]
            elif k == "badbank":
                for mdl, n in ((main, 4), (exp, 8)):
                    for x in (n, n + a, -1, -1 - a):
                        expect_raises(Exception, lambda: mdl[x],
                                      "bank %d" % x)
            elif k == "banks":
                lo, hi = sorted((a % 5, c % 5))
                got = main[lo:hi]
                check(len(got) == hi - lo and all(
                    g is main[lo + n] for n, g in enumerate(got)),
                    "banks %d:%d", lo, hi)
                lo, hi = sorted((a % 9, c % 9))
                got = exp[lo:hi]
                check(len(got) == hi - lo and all(
                    g is exp[lo + n] for n, g in enumerate(got)),
                    "expansion banks %d:%d", lo, hi)
            elif k == "repr":
                check(repr(b).split() == ["0o%016o" % row.get(x, 0)
                                          for x in range(SIZE)],
                      "text of bank %d", i)
            if k in ("fill", "clear", "bad", "badslice", "badaddr", "rbad"):
                interesting = interesting or sum(
                    1 for r in ref.values() if any(r.values())) >= 2
            for x in set(touched):
                if 0 <= x < SIZE:
                    for j in range(nbanks):
                        want = ref.get(j, {}).get(x, 0)
                        got = bank(j)[x]
                        if got != want:
                            raise Violation(
                                "after %r: bank %d word %d holds %#x, "
                                "expected %#x" % (op, j, x, got, want))
        self.full(bank, ref, nbanks)
        return interesting, ("history",)

    @staticmethod
    def full(bank, ref, nbanks):
        for j in range(nbanks):
            b, row = bank(j), ref.get(j, {})
            check(len(b) == SIZE and b.width == 48,
                  "bank %d: %r words of %r bits", j, len(b), b.width)
            for x in range(SIZE):
                if b[x] != row.get(x, 0):
                    raise Violation("bank %d word %d holds %#x, expected %#x"
                                    % (j, x, b[x], row.get(x, 0)))
