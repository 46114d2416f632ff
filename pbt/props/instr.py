"""C10-C13: instruction encoding, refusal, decoding, catalogue.

Oracle: pbt/instrtable.py, the manual's layout of each of the 64 machine
instructions, plus the manual's rule for telling instructions apart (bits
7-12; bits 2-3 and 7-12; bits 10-12).
"""
from itertools import product
import os
import random
import subprocess

from hypothesis import strategies as st

from .. import core
from ..core import Prop, Violation, check, dictionary, expect_raises, mod
from ..instrtable import TABLE
from ..sandbox import Captured
from .bits import eq
from .machine import ints

MNEMONICS = sorted(TABLE)


def kind(m):
    lay = TABLE[m][1]
    if "masked" in lay:
        return "maskable"
    if m == "PR":
        return "proceed"
    if "direct" in lay:
        return "simulator"
    if "p" in lay[""]:
        return "peripheral"
    return "unmasked"


def fill(layout, **ops):
    "Encode operands into a layout string."
    left = {k: [] for k in ops}
    for k, v in ops.items():
        n = layout.count(k)
        left[k] = list(format(v, "0%db" % n)) if n else []
    out = ""
    for ch in layout:
        out += ch if ch in "01" else left[ch].pop(0) if ch in left else "0"
    return int(out, 2)


def expected(m, seq=0, mask=None, a=0, b=0, c=0, paddr=0):
    z = lambda x: int(x or 0)
    k, lay = kind(m), TABLE[m][1]
    if k == "maskable":
        if mask is not None:
            return fill(lay["masked"], s=z(seq), m=int(mask))
        return fill(lay["unmasked"], s=z(seq), a=z(a), b=z(b), c=z(c))
    if k == "proceed":
        return fill(lay[""])
    if k == "simulator":
        return fill(lay["indexed" if z(seq) else "direct"])
    if k == "peripheral":
        return fill(lay[""], p=int(paddr))
    return fill(lay[""], s=z(seq), a=z(a), b=z(b), c=z(c))


def operand_space(m):
    "All operand settings of an instruction."
    k = kind(m)
    abc = [(s, a, b, c) for s in (0, 1) for a in (0, 1) for b in (0, 1)
           for c in (0, 1)]
    if k == "maskable":
        return [{"seq": s, "mask": x} for s in (0, 1) for x in range(32)] + \
            [{"seq": s, "a": a, "b": b, "c": c} for s, a, b, c in abc]
    if k == "proceed":
        return [{}]
    if k == "simulator":
        return [{"seq": 0}, {"seq": 1}]
    if k == "peripheral":
        return [{"paddr": p} for p in range(64)]
    return [{"seq": s, "a": a, "b": b, "c": c} for s, a, b, c in abc]


def kwargs(ops):
    return {("sequence" if k == "seq" else k): v for k, v in ops.items()}


def build(m, ops, how):
    """Build instruction m the given way; return an object with .value, or
    the integer made by the opcode functions."""
    I, G = mod("h800.instructions"), mod("h800.instruction")
    k = kind(m)
    cls = getattr(I, TABLE[m][0])
    kw = kwargs(ops)
    if how == "bool":
        kw = {x: (bool(v) if v is not None and x in ("sequence", "a", "b", "c") else v)
              for x, v in kw.items()}
        return cls(**kw)
    if how == "pos":
        if k == "maskable":
            return cls(ops.get("seq"), ops.get("mask"), ops.get("a"),
                       ops.get("b"), ops.get("c"))
        if k == "proceed":
            return cls()
        if k == "simulator":
            return cls(ops["seq"])
        if k == "peripheral":
            return cls(ops["paddr"])
        return cls(ops["seq"], ops["a"], ops["b"], ops["c"])
    if how == "generic":
        if k == "proceed":
            kw = {"sequence": 0, "a": 0, "b": 0, "c": 0}
        return G.Instruction(opcode=I.OPCODES[m], **kw)
    if how == "family":
        o = I.OPCODES[m]
        if k == "maskable":
            if "mask" in ops:
                return G.GeneralMasked(o, ops["seq"], ops["mask"])
            return G.GeneralUnmasked(o, ops["seq"], ops["a"], ops["b"],
                                     ops["c"])
        if k == "simulator":
            return G.Simulator(o, ops["seq"])
        if k == "peripheral":
            return G.Peripheral(o, ops["paddr"])
        if k == "proceed":
            return G.GeneralUnmasked(o, 0, 0, 0, 0)
        return G.Scientific(o, ops["seq"], ops["a"], ops["b"], ops["c"])
    if how == "function":
        if k == "maskable" and "mask" in ops:
            return I.make_masked_opcode(m, ops["seq"], ops["mask"])
        if k == "peripheral":
            return I.make_peripheral_opcode(m, ops["paddr"])
        if m in ("PRA", "PRD", "PRO"):
            return I.make_print_opcode(m, ops["seq"], ops["a"], ops["b"],
                                       ops["c"])
        if k in ("maskable", "unmasked"):
            return I.make_unmasked_opcode(m, ops["seq"], ops["a"], ops["b"],
                                          ops["c"])
        if k == "proceed":
            return I.make_unmasked_opcode(m, 0, 0, 0, 0)
        return cls(**kw)
    return cls(**kw)


HOWS = ("kw", "pos", "bool", "generic", "family", "function")


def code(x):
    return x if isinstance(x, int) else x.value


class C10(Prop):
    id = "C10"
    modules = ("h800.instructions", "h800.instruction")
    examples = {"quick": 400, "thorough": 8000}
    rule = ("case = a sequence of instructions with operands, each built one "
            "of six ways (class by keyword, by position, with booleans, "
            "generic instruction, family class, opcode function); every code, "
            "and at the end every code built so far once more, is compared "
            "with the manual's layout; non-trivial: some operand non-zero")
    exhaustive_note = ("all 64 instructions x all legal operand settings x "
                       "six ways of building")

    def enum(self, tier, seed):
        for m in MNEMONICS:
            space = operand_space(m)
            for how in HOWS:
                for i in range(0, len(space), 16):
                    yield {"ops": [[m, how, o] for o in space[i:i + 16]]}
            if kind(m) == "maskable":
                # omitted designators count as zero
                yield {"ops": [[m, "kw", o] for s in (0, 1) for o in (
                    {"seq": s}, {"seq": s, "a": 1}, {"seq": s, "b": 1},
                    {"seq": s, "c": 1}, {"seq": s, "a": 0, "c": 1})]}
                # and so does an omitted sequence bit
                for how in ("kw", "bool", "generic"):
                    yield {"ops": [[m, how, {"seq": None, "mask": x}]
                                   for x in range(32)] +
                           [[m, how, dict(zip("abc", abc), seq=None)]
                            for abc in product((None, 0, 1), repeat=3)]}
        yield {"ops": [["BA", "kw", {}], ["BA", "kw", {"mask": 21}],
                       ["BA", "kw", {"a": 1}]]}
        rng = random.Random(seed)
        for _ in range(600 if tier == "quick" else 4000):
            yield {"ops": [[m, rng.choice(HOWS),
                            rng.choice(operand_space(m))]
                           for m in rng.choices(MNEMONICS, k=40)]}

    def strategies(self, tier):
        one = st.sampled_from(MNEMONICS).flatmap(
            lambda m: st.tuples(st.just(m), st.sampled_from(HOWS),
                                st.sampled_from(operand_space(m)))).map(list)
        return [("instructions", st.fixed_dictionaries({
            "ops": st.lists(one, min_size=1, max_size=12)}), 1.0)]

    def run(self, case):
        built = []
        nontrivial = False
        for m, how, ops in case["ops"]:
            x = build(m, ops, how)
            want = expected(m, **ops)
            eq(code(x), want, "%s %r built by %s", m, ops, how)
            if not isinstance(x, int):
                eq(int(x.data), want, "%s %r bits", m, ops)
            built.append((x, want, m, ops))
            nontrivial = nontrivial or any(ops.values())
        for x, want, m, ops in built:
            eq(code(x), want, "%s %r looked at again", m, ops)
        return nontrivial, ("sequence",)


# --------------------------------------------------------------------------

SEQ = (None, 0, 1, 2, -1, 3, 4096)
MASK = (None, 0, 1, 31, 32, 33, 63, -1, 64, 1000, -32)
BOOL = (None, 0, 1, 2, -1, 255)
PADDR = (None, 0, 1, 63, 64, 65, -1, 1000, -64)


def illegal_reason(m, ops):
    "Why these operands must be refused (None: they are legal)."
    seq, mask, paddr = ops.get("seq"), ops.get("mask"), ops.get("paddr")
    des = [ops.get(x) for x in "abc"]
    if seq is not None and seq not in (0, 1):
        return "sequence"
    if mask is not None:
        if kind(m) != "maskable":
            return "not maskable"
        if any(x is not None for x in des) or paddr is not None:
            return "mask with designators"
        if not 0 <= mask <= 31:
            return "mask"
    if any(x is not None and x not in (0, 1) for x in des):
        return "designator"
    if paddr is not None:
        if seq is not None or any(x is not None for x in des):
            return "peripheral address with others"
        if not 0 <= paddr <= 63:
            return "peripheral address"
    return None


class C11(Prop):
    id = "C11"
    modules = ("h800.instructions", "h800.instruction")
    examples = {"quick": 600, "thorough": 12000}
    rule = ("case = an instruction and operand values, legal or not (sequence "
            "or designator not a bit, mask outside 0..31 or on an unmaskable "
            "instruction or next to designators, peripheral address outside "
            "0..63 or next to other operands, operation code parts too wide); "
            "illegal ones must raise ValueError, legal ones encode as the "
            "manual says, also after refusals; non-trivial: illegal case")

    def enum(self, tier, seed):
        for m in MNEMONICS:
            k = kind(m)
            if k == "maskable":
                for s in SEQ:
                    for x in MASK:
                        for d in ({}, {"a": 0}, {"b": 1}, {"c": 0},
                                  {"a": 1, "b": 0, "c": 1}, {"paddr": 0},
                                  {"paddr": 5}):
                            if "paddr" in d and x is None:
                                continue
                            yield self.case(m, "generic", seq=s, mask=x, **d)
                            if "paddr" not in d:
                                yield self.case(m, "kw", seq=s, mask=x, **d)
            if k in ("maskable", "unmasked"):
                for s in (0, 1, 2, -1):
                    for a in BOOL:
                        for b in BOOL:
                            for c in BOOL:
                                if (a, b, c).count(None) > 1 and tier == \
                                        "quick":
                                    continue
                                yield self.case(m, "kw", seq=s, a=a, b=b,
                                                c=c)
            if k in ("unmasked", "simulator", "peripheral"):
                for x in MASK:
                    if x is not None:
                        yield self.case(m, "generic", mask=x,
                                        **({} if k == "peripheral"
                                           else {"seq": 1}))
            if k == "simulator":
                for s in SEQ:
                    yield self.case(m, "kw", seq=s)
            if k == "peripheral":
                for p in PADDR:
                    if p is not None:
                        yield self.case(m, "kw", paddr=p)
                        for d in ({"seq": 0}, {"seq": 1}, {"a": 0}, {"b": 1},
                                  {"c": 0}, {"mask": 0}):
                            yield self.case(m, "generic", paddr=p, **d)
            elif k != "proceed":
                for p in PADDR:
                    if p is not None:
                        for d in ({"seq": 0}, {"seq": 1}, {"a": 0}, {"b": 1},
                                  {"c": 0}, {"seq": 0, "a": 1, "b": 0,
                                             "c": 1}):
                            yield self.case(m, "generic", paddr=p, **d)
        for b23 in (-1, 0, 1, 2, 3, 4, 5):
            for b7 in (-1, 0, 1, 2, 3):
                for op in (-1, 0, 1, 16, 31, 32, 33, 64):
                    yield {"opcode": [b23, b7, op]}

    @staticmethod
    def case(m, how, **ops):
        return {"m": m, "how": how,
                "o": {k: v for k, v in ops.items() if v is not None}}

    def strategies(self, tier):
        num = lambda vals, lo, hi: st.one_of(st.sampled_from(vals),
                                             st.integers(lo, hi))

        def per(m):
            k = kind(m)
            f = {}
            if k in ("maskable", "unmasked", "simulator"):
                f["seq"] = num(SEQ, -3, 4)
            if k in ("maskable", "unmasked"):
                for x in "abc":
                    f[x] = num(BOOL, -2, 3)
            if k == "maskable":
                f["mask"] = num(MASK, -5, 40)
            if k == "peripheral":
                f["paddr"] = st.one_of(st.sampled_from(PADDR[1:]),
                                       st.integers(-5, 70))
            keys = st.fixed_dictionaries(f)
            return keys.map(lambda o: self.case(
                m, "kw", **({"seq": 0, "a": 0, "b": 0, "c": 0}
                            if k == "unmasked" else {}) |
                {x: v for x, v in o.items() if v is not None}))
        return [("operands", st.sampled_from(
            [m for m in MNEMONICS if m != "PR"]).flatmap(per), 1.0)]

    def run(self, case):
        I, G = mod("h800.instructions"), mod("h800.instruction")
        if "opcode" in case:
            b23, b7, op = case["opcode"]
            o = I.Opcode("QQ", "Nothing", b23, b7, op, "unmasked")
            ok = 0 <= b23 <= 3 and 0 <= b7 <= 1 and 0 <= op <= 31
            make = lambda: G.Instruction(opcode=o, sequence=0, a=0, b=0, c=0)
            if ok:
                eq(make().value, b23 << 9 | op, "opcode %r", case["opcode"])
            else:
                expect_raises(ValueError, make, "opcode %r" % case["opcode"])
            return not ok, ("opcode parts",)
        m, how, ops = case["m"], case["how"], case["o"]
        why = illegal_reason(m, ops)
        k = kind(m)
        if how == "kw":
            if k == "maskable":
                full = {"seq": None, **ops}
            elif k == "unmasked":
                full = {"seq": None, "a": None, "b": None, "c": None, **ops}
            elif k == "simulator":
                full = {"seq": None, **ops}
            else:
                full = ops
        else:
            full = ops
        make = lambda: build(m, full, how)
        if why:
            expect_raises(ValueError, make, "%s %r (%s)" % (m, ops, why))
            # a refusal leaves no trace: the next instruction is right
            good = operand_space(m)[-1]
            eq(code(build(m, good, "kw")), expected(m, **good),
               "%s %r after a refusal", m, good)
        else:
            eq(code(make()), expected(m, **ops), "%s %r", m, ops)
        return why is not None, (why or "legal",)


# --------------------------------------------------------------------------

SHARED = ({"PRA", "PRD", "PRO"}, {"NA", "FNN"})


def decode(cc):
    """Identify a command code by the manual's rule; return the possible
    (mnemonic, operands)."""
    bits = format(cc, "012b")
    found = []
    for m in MNEMONICS:
        for name, lay in TABLE[m][1].items():
            if kind(m) == "simulator":
                idb = (9, 10, 11)
            elif kind(m) == "peripheral" or name == "masked" or \
                    m in ("PRA", "PRD", "PRO"):
                idb = range(6, 12)
            else:
                idb = (1, 2) + tuple(range(6, 12))
            if any(lay[i] != bits[i] for i in idb if lay[i] in "01"):
                continue
            if kind(m) == "simulator" and lay[0] != bits[0]:
                continue
            ops = {}
            for ch, key in (("s", "seq"), ("m", "mask"), ("a", "a"),
                            ("b", "b"), ("c", "c"), ("p", "paddr")):
                t = "".join(bits[i] for i in range(12) if lay[i] == ch)
                if t:
                    ops[key] = int(t, 2)
            if kind(m) == "simulator":
                ops["seq"] = int(bits[0])
            if kind(m) == "proceed":
                ops = {}
            found.append((m, ops))
    return found


def same_code(m, n):
    return m == n or any(m in g and n in g for g in SHARED)


class C12(Prop):
    id = "C12"
    modules = ("h800.instructions", "h800.word", "h800.memory")
    examples = {"quick": 400, "thorough": 8000}
    rule = ("case = a program: instructions with operands and three 12-bit "
            "addresses, assembled into instruction words, stored in a memory "
            "bank and read back; each word must split into the same addresses "
            "and a command code that identifies that instruction and its "
            "operands by the manual's rule and no other (except the sharing "
            "the manual states); enumerated: the complete code map; "
            "non-trivial: two different instructions and a non-zero address")
    exhaustive_note = "all pairs of distinct (instruction, operands) codes"

    def enum(self, tier, seed):
        for how in ("kw", "generic"):
            yield {"map": how}
        rng = random.Random(seed)
        for m in MNEMONICS:
            for ops in operand_space(m):
                yield {"ops": [[m, ops, rng.getrandbits(12),
                                rng.getrandbits(12), rng.getrandbits(12),
                                rng.randrange(2048)]]}

    def strategies(self, tier):
        one = st.sampled_from(MNEMONICS).flatmap(
            lambda m: st.tuples(st.just(m), st.sampled_from(operand_space(m)),
                                ints(12), ints(12), ints(12),
                                st.integers(0, 2047))).map(list)
        return [("program", st.fixed_dictionaries({
            "ops": st.lists(one, min_size=1, max_size=12)}), 1.0)]

    def run(self, case):
        if "map" in case:
            seen = {}
            for m in MNEMONICS:
                for ops in operand_space(m):
                    cc = code(build(m, ops, case["map"]))
                    check(isinstance(cc, int) and 0 <= cc < 4096,
                          "%s %r: code %r", m, ops, cc)
                    for n, other in seen.setdefault(cc, []):
                        if m == n or not same_code(m, n) or other != ops:
                            raise Violation("%s %r and %s %r share code %04o"
                                            % (m, ops, n, other, cc))
                    seen[cc].append((m, ops))
            return True, ("map",)
        W, M = mod("h800.word"), mod("h800.memory")
        bank = M.MemoryBank()
        prog = {}
        for m, ops, a, b, c, addr in case["ops"]:
            cc = code(build(m, ops, "kw"))
            bank[addr] = W.InstructionWord(cc, a, b, c).value
            prog[addr] = (m, ops, a, b, c)
        for addr, (m, ops, a, b, c) in prog.items():
            v = bank[addr]
            w = W.Word(v)
            got = (w.data[1:12], w.data[13:24], w.data[25:36], w.data[37:48])
            check(got[1:] == (a, b, c), "addresses %r read back as %r",
                  (a, b, c), got[1:])
            iw = W.InstructionWord()
            iw.value = v
            check((iw.command, iw.a, iw.b, iw.c) == got,
                  "instruction word splits differently: %r",
                  (iw.command, iw.a, iw.b, iw.c))
            names = decode(got[0])
            check((m, ops) in names, "%s %r decodes as %r", m, ops, names)
            for n, o in names:
                check(same_code(m, n), "%s %r also decodes as %s", m, ops, n)
        return (len({x[0] for x in case["ops"]}) > 1 and
                any(x[2] or x[3] or x[4] for x in case["ops"])), ("program",)


# --------------------------------------------------------------------------

OTHERS = ("ASSIGN END EQUALS EVEN MASKGRP MODLOC RESERVE SETLOC SIMULATE TAS "
          "ALF DEC EBC FLBIN FLDEC FXBIN OCT "
          "SPEC CAC MASKBASE CONTROL M TAC LINK SEGNAME SUBCALL "
          "CSCON DOFF DON SCON SPCR STOP COREDUMP DUMP "
          "ARGUS U MACRODEF FINIS ELIMSEG SEGMENT PROGRAM TESTDATA ELIMDATA "
          "ELIMDERL DELETE ENDARGUS").split()
ALL_INSTRUCTIONS = sorted(MNEMONICS + OTHERS)


def reference_listing():
    codes = {}
    for m in MNEMONICS:
        k = kind(m)
        if m in ("PRA", "PRO"):
            continue            # listed once, as PRD
        if k == "proceed":      # any sequence and designator bits
            for bits in range(16):
                codes[(bits >> 3) << 11 | (bits & 7) << 6] = m
            continue
        for ops in operand_space(m):
            if k == "maskable" and "mask" not in ops:
                continue
            codes[expected(m, **ops)] = m
    return ["0o%04o %s" % (v, codes[v]) for v in sorted(codes)]


class C13(Prop):
    id = "C13"
    modules = ("h800.instructions", "h800.instruction")
    examples = {"quick": 400, "thorough": 8000}
    rule = ("case = a mnemonic-like word or a sequence of catalogue uses "
            "(look up, build by the class the catalogue names, print the code "
            "listing); the catalogue must contain exactly the manual's "
            "instructions, each with a class that builds it, the listing must "
            "equal the codes of the manual's layouts, however often used, "
            "also as a program; non-trivial: builds two instructions, or a "
            "near-miss of a mnemonic")
    exhaustive_note = "all 110 instructions; all one- and two-letter words"

    def enum(self, tier, seed):
        yield {"whole": 1}
        for args in (["-m", "h800.instructions"],
                     ["-c", "import h800.instructions as i; "
                      "i.print_instructions()"]):
            yield {"program": args}
        for m in ALL_INSTRUCTIONS:
            for t in (m, m.lower(), m + " ", " " + m, m + ",", m[:-1],
                      m + "A", m + m, m.title()):
                yield {"word": t}
        for a in "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
            yield {"word": a}
            for b in "ABCDEFGHIJKLMNOPQRSTUVWXYZ":
                yield {"word": a + b}
        rng = random.Random(seed)
        for m in MNEMONICS:
            yield {"ops": [[m, rng.choice(operand_space(m))]
                           for _ in range(6)]}

    def strategies(self, tier):
        words = st.one_of(
            st.text(alphabet="ABCDEFGHIJKLMNOPQRSTUVWXYZ", max_size=5),
            st.sampled_from(ALL_INSTRUCTIONS).flatmap(
                lambda m: st.tuples(st.just(m), st.integers(0, len(m) - 1),
                                    st.sampled_from("ABCDEFMNSTUX,. "))).map(
                lambda t: t[0][:t[1]] + t[2] + t[0][t[1] + 1:]),
            st.deferred(lambda: st.sampled_from(dictionary()[1])))
        one = st.sampled_from(MNEMONICS).flatmap(
            lambda m: st.tuples(st.just(m), st.sampled_from(
                operand_space(m)))).map(list)
        return [("word", st.fixed_dictionaries({"word": words}), 0.6),
                ("uses", st.fixed_dictionaries({
                    "ops": st.lists(one, min_size=1, max_size=8),
                    "list": st.booleans()}), 0.2)]

    def run(self, case):
        I = mod("h800.instructions")
        if "program" in case:
            p = subprocess.run(
                [core.PYTHON] + case["program"], stdin=subprocess.DEVNULL,
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                env=dict(os.environ, PYTHONPATH=core.REPO,
                         PYTHONDONTWRITEBYTECODE="1"))
            check(p.returncode == 0, "the listing program fails: %s",
                  p.stderr.decode()[-300:])
            self.compare(p.stdout.decode().splitlines())
            return True, ("program",)
        if "word" in case:
            w = case["word"]
            want = w in ALL_INSTRUCTIONS
            check((w in I.INSTRUCTIONS) == want, "%r is %sin the catalogue",
                  w, "not " if want else "")
            check((w in I.OPCODES) == (w in TABLE),
                  "%r in the machine instructions: %r", w, w in I.OPCODES)
            return w not in ALL_INSTRUCTIONS, ("word",)
        if "whole" in case:
            check(sorted(I.INSTRUCTIONS) == ALL_INSTRUCTIONS,
                  "catalogue differs: missing %r, extra or repeated %r",
                  sorted(set(ALL_INSTRUCTIONS) - set(I.INSTRUCTIONS)),
                  sorted(x for x in I.INSTRUCTIONS
                         if x not in ALL_INSTRUCTIONS or
                         list(I.INSTRUCTIONS).count(x) > 1))
            check(sorted(I.OPCODES) == MNEMONICS, "machine instructions")
            for m in MNEMONICS:
                self.use(m, operand_space(m)[-1])
            self.listing()
            return True, ("whole",)
        for m, ops in case["ops"]:
            self.use(m, ops)
        if case.get("list"):
            self.listing()
            for m, ops in case["ops"]:
                self.use(m, ops)
        return len(case["ops"]) > 1, ("uses",)

    @staticmethod
    def use(m, ops):
        I = mod("h800.instructions")
        o = I.OPCODES[m]
        check(o.m == m, "entry %s is for %r", m, o.m)
        cls = getattr(I, o.c, None)
        check(cls is not None, "%s: class %r does not exist", m, o.c)
        eq(cls(**kwargs(ops)).value, expected(m, **ops),
           "%s %r built by the catalogue's class %s", m, ops, o.c)

    @staticmethod
    def listing():
        I = mod("h800.instructions")
        with Captured() as cap:
            I.print_instructions()
        C13.compare(cap.out.splitlines())

    @staticmethod
    def compare(got):
        want = reference_listing()
        if got != want:
            for x, y in zip(got + [None] * len(want), want):
                if x != y:
                    raise Violation("code listing has %r, expected %r" % (
                        x, y))
            raise Violation("code listing has %d lines, expected %d" % (
                len(got), len(want)))
