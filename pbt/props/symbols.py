"""C19-C22: symbol definitions, diagnosis, queries, incremental table.

Oracle: pbt/argus.py's RefSymbols, a model of the definition rules; for the
incremental table a dictionary model."""
import io
import random

from hypothesis import strategies as st

from ..argus import (LOCS, RefSymbols, bulk_sources, chain, file_sets,
                     long_file, random_files, random_label, render, reported)
from ..core import Prop, Violation, check, mod
from ..sandbox import Captured, Scratch
from .cards import eq


def random_sources(rng, tier="quick"):
    files = random_files(rng, ncards=(0, 20))
    args = [rng.choice(list(files)) for _ in range(rng.choice(
        [1, 2, 3, 3, len(files), 8]))]
    if rng.random() < 0.6:
        args = list(dict.fromkeys(args))
    return {"files": files, "args": args}


def definitions(rng, n):
    "A source dense in definitions of few symbols."
    return [render(col8=rng.choice("   *"),
                   label=rng.choice(["A", "B", "B,A", "Z,A", "A B", "AB",
                                     "F,A", "S,B"]),
                   op=rng.choice(["ASSIGN", "EQUALS", "EQUALS", "TX",
                                  "RESERVE", "SETLOC", "SETLOC,2",
                                  "SETLOC,1", rng.choice(LOCS)]),
                   a=rng.choice(["", "", "A", "A", "B", "0", " A"]),
                   b=rng.choice(["", "A"]), c=rng.choice(["", "C"]),
                   lognum=rng.choice(["", "", "10"]),
                   misc=rng.choice(["", "", "7"]),
                   remarks=rng.choice(["", "", "R", " R"]))
            for _ in range(n)]


def source_cases(tier, seed, n):
    rng = random.Random(seed)
    yield {"files": chain(8), "args": ["f0.arg", "f7.arg", "f3.arg"]}
    yield {"files": {"a.arg": long_file(1100)}, "args": ["a.arg", "a.arg"]}
    yield from bulk_sources()
    for i in range(n if tier == "quick" else n * 20):
        if i % 12 == 1:
            # many symbols of their own, some of them twice
            labels = [random_label(rng) for _ in range(25)]
            names = ["p.arg", "q.r.arg"]
            yield {"files": {f: [render(label=rng.choice(labels),
                                        op=rng.choice(["TX", "ASSIGN",
                                                       "EQUALS"]),
                                        a=rng.choice(["", "1"]))
                                 for _ in range(30)] for f in names},
                   "args": names}
        elif i % 3 == 2:
            names = rng.sample(["a.arg", "b.arg", "a.b.arg", "a.txt", "B.arg",
                                "_.arg"], rng.randint(1, 3))
            yield {"files": {f: definitions(rng, rng.randint(1, 12))
                             for f in names},
                   "args": [rng.choice(names) for _ in range(
                       rng.randint(1, 3))]}
        else:
            yield random_sources(rng)


def pair_cases():
    "Every pair of definition kinds, in one or two subsegments."
    kinds = [("A", op, a, b, c) for op in ("ASSIGN", "EQUALS", "TX", "RESERVE")
             for a, b, c in (("", "", ""), ("X", "", ""), ("", "X", ""),
                             ("", "", "X"))] + \
        [("B,A", "TX", "", "", ""), ("Z,A", "ASSIGN", "", "", ""),
         ("a", "TX", "", "", ""), ("A,B,C", "TX", "", "", ""),
         ("Q,A", "TX", "", "", ""), ("L,A", "TX", "", "", ""),
         ("X,A", "TX", "", "", ""), ("A", "", "", "", ""),
         ("A", "EQUALS,M1", "", "", ""), ("A", "ASSIGN,M1", "", "", ""),
         ("A", "TX,M1", "", "", ""), ("A", "RESERVE,M1", "X", "", "")]
    for k in kinds:
        for m in kinds:
            for mid in ([], [render(op="SETLOC,1")], [render(op="SETLOC,7")],
                        [render(op="SETLOC")]):
                yield {"files": {"a.arg": [
                    render(label=k[0], op=k[1], a=k[2], b=k[3], c=k[4])] +
                    mid + [render(label=m[0], op=m[1], a=m[2], b=m[3],
                                  c=m[4])]}, "args": ["a.arg"]}
    # identical but for what does not count, or for what does
    for old in ("", "A", "0", "A,1"):
        for new in (dict(), dict(lognum="000010"), dict(col8="+"),
                    dict(misc="12345"), dict(remarks="NOTE"),
                    dict(a=" " + old), dict(a="0"), dict(a=old.lower()),
                    dict(a="B"), dict(b="0"), dict(c="0"), dict(label=" A"),
                    dict(label="B,A"), dict(op=" EQUALS"),
                    dict(a="", b=old), dict(a="", c=old)):
            for swap in (1, -1):
                yield {"files": {"a.arg": [render(**dict(dict(
                    label="A", op="EQUALS", a=old), **d))
                    for d in ({}, new)[::swap]]}, "args": ["a.arg"]}


@st.composite
def sources(draw):
    files = draw(file_sets(3, 10))
    args = draw(st.lists(st.sampled_from(sorted(files)), min_size=1,
                         max_size=3))
    return {"files": files, "args": args}


def build(name, table):
    "buildSymbolTable; returns (table, errors, diagnostics)."
    S = mod("h800.symbol_table")
    with Captured() as cap:
        table, n = S.buildSymbolTable(name, table)
    return table, n, cap.err


def plain(table):
    "The observable content of a symbol table."
    out = {}
    for name, segs in table.items():
        for seg, subs in segs.items():
            for sub, kinds in subs.items():
                for kind, e in kinds.items():
                    out.setdefault(name, {}).setdefault(seg, {}).setdefault(
                        sub, {})[kind] = (e["file"], e["line"], e["lognum"],
                                          e["tagtype"], e["card"].line)
    return out


def first_difference(got, want):
    for name in sorted(set(got) | set(want)):
        if got.get(name) != want.get(name):
            return "symbol %r: got %r, expected %r" % (
                name, got.get(name), want.get(name))
    return None


class C19(Prop):
    id = "C19"
    modules = ("h800.symbol_table", "h800.arguscard")
    examples = {"quick": 250, "thorough": 6000}
    shrink_keys = ("files", "args")
    rule = ("case = source files (with includes) and the order in which they "
            "are read into one table, dense in labels, tags, SETLOC, ASSIGN "
            "and EQUALS; after each file the whole table - symbol, segment, "
            "subsegment, kind, file, line, log number, tag, card - is "
            "compared with the reference model; non-trivial: at least three "
            "definitions in two subsegments or segments")
    exhaustive_note = "all pairs of definition kinds x subsegment changes"

    def enum(self, tier, seed):
        yield from pair_cases()
        yield from source_cases(tier, seed, 250)

    def strategies(self, tier):
        return [("sources", sources(), 1.0)]

    def run(self, case):
        table, ref = {}, RefSymbols()
        with Scratch(case["files"]):
            for name in case["args"]:
                table, _, _ = build(name, table)
                ref.read(case["files"], name)
                diff = first_difference(plain(table), ref.nested())
                if diff:
                    raise Violation("after reading %s: %s" % (name, diff))
        places = {k[1:3] for k in ref.table}
        return len(ref.table) > 2 and len(places) > 1, (
            "%d files" % len(case["args"]),)


class C20(Prop):
    id = "C20"
    modules = ("h800.symbol_table", "h800.arguscard")
    examples = {"quick": 250, "thorough": 6000}
    shrink_keys = ("files", "args")
    rule = ("case = as C19; the error count returned for each file and the "
            "reports on the error stream (symbol, reason, in order) must be "
            "exactly the reference model's: lower case, too many commas, "
            "unknown or unsupported tag, no operation, multiple definition; "
            "an offending card must leave the table as it was; non-trivial: "
            "at least one error and one good definition")
    exhaustive_note = "all pairs of definition kinds x subsegment changes"

    def enum(self, tier, seed):
        yield from pair_cases()
        yield from source_cases(tier, seed + 77, 250)

    def strategies(self, tier):
        return [("sources", sources(), 1.0)]

    def run(self, case):
        table, ref = {}, RefSymbols()
        labels = set()
        with Scratch(case["files"]):
            for name in case["args"]:
                done = len(ref.errors)
                table, n, err = build(name, table)
                ref.read(case["files"], name)
                want = [e[:2] for e in ref.errors[done:]]
                labels.update(e[1] for e in want)
                eq(reported(err), want, "reports for %s", name)
                eq(n, len(want), "error count of %s", name)
                got = sum(len(k) for segs in table.values() for subs in
                          segs.values() for k in subs.values())
                eq(got, len(ref.table), "definitions after %s", name)
        clean = self.without_errors(case["files"], case["args"], ref)
        if clean:
            other = {}
            with Scratch(clean):
                for name in case["args"]:
                    other, n, err = build(name, other)
                    eq((n, reported(err)), (0, []), "reports for %s without "
                       "the offending labels", name)
            first = first_difference(plain(table), plain(other))
            check(first is None, "the offending labels change the table: %s",
                  first)
        return bool(ref.errors and ref.table), sorted(labels) or ("clean",)

    @staticmethod
    def without_errors(files, args, ref):
        """The sources with the offending labels blanked out, or None if there
        are none or the same line also defines something."""
        bad = {(e[2], e[3]) for e in ref.errors}
        good = {(c.filename, c.linenum) for c, _ in ref.table.values()}
        if not bad or bad & good or len(bad) > 300:
            return None
        clean = {name: [
            x[:8] + " " * 11 + x[19:] if (name, i + 1) in bad else x
            for i, x in enumerate(lines)] for name, lines in files.items()}
        model = RefSymbols()
        for name in args:
            model.read(clean, name)
        if model.errors or model.nested() != ref.nested():
            return None
        return clean


class C21(Prop):
    id = "C21"
    modules = ("h800.symbol_table", "h800.arguscard")
    examples = {"quick": 250, "thorough": 6000}
    shrink_keys = ("files", "args")
    rule = ("case = as C19, then every query - symbols with simple "
            "definitions, complex-only symbols, exact (with and without "
            "kind), leading part, trailing part and approximate search - for "
            "defined names, parts of names and unknown names; answers are "
            "compared with the model (approximate: at most ten, all with "
            "simple definitions, none better left out), and the table must be "
            "unchanged; non-trivial: a complex-only and a simple symbol")

    def enum(self, tier, seed):
        # more than ten similar names, so that the approximate search has to
        # leave some out
        for n in (0, 1, 9, 10, 11, 30, 120, 1500):
            yield {"files": {"a.arg": [
                render(label="LOOP%d" % i, op="TX" if i % 4 else "ASSIGN")
                for i in range(n)]}, "args": ["a.arg"]}
            yield {"files": {"a.arg": [
                render(label="Q%dX" % (n - i), op="ASSIGN" if i % 5 else "TX")
                for i in range(n)]}, "args": ["a.arg"]}
        yield {"files": {"a.arg": [render(label="T%d" % i, op="TX")
                                   for i in range(2100)]}, "args": ["a.arg"]}
        yield from source_cases(tier, seed + 154, 250)

    def strategies(self, tier):
        return [("sources", sources(), 0.6)]

    def run(self, case):
        table, ref = {}, RefSymbols()
        with Scratch(case["files"]):
            for name in case["args"]:
                table, _, _ = build(name, table)
                ref.read(case["files"], name)
                self.queries(table, ref)
            if len(case["args"]) > 1:
                # another table, while the first one is still in use
                other, ref2 = {}, RefSymbols()
                other, _, _ = build(name, other)
                ref2.read(case["files"], name)
                self.queries(other, ref2)
                self.queries(table, ref)
        return bool(ref.complex_only() and ref.absolute()), ("queried",)

    def queries(self, table, ref):
        S = mod("h800.symbol_table")
        from fuzzywuzzy import fuzz
        content = ref.nested()
        eq(plain(table), content, "table")
        names, absolute = ref.names(), ref.absolute()
        only = ref.complex_only()
        with Captured() as cap:
            eq(list(S.getAbsoluteSymbols(table)), absolute,
               "symbols with simple definitions")
            eq(list(S.checkSymbolTable(table, complexOnlyError=True)), only,
               "complex-only symbols")
        eq([s for s in names if '"%s"' % s in cap.err], only,
           "complex-only symbols reported")
        with Captured() as cap:
            eq(list(S.checkSymbolTable(table)), [], "check without complex")
        eq(cap.err, "", "reports without complex")
        rng = random.Random(len(names))
        some = rng.sample(names, min(len(names), 8))
        probes = set(some) | {n[:1] for n in names[:9]} | \
            {n[-1:] for n in some} | {n[1:] for n in some[:4]} | \
            {n[:3] for n in some[:3]} | {n[-2:] for n in some[:3]} | \
            {n + "1" for n in some[:3]} | {"NOSUCH", "A", "LOOP", ""} | \
            {n.lower() for n in some[:2]}
        for p in sorted(probes):
            for kind in (None, "simple", "complex"):
                with Captured() as cap:
                    got = S.findSymbolDef(table, p, symtype=kind)
                if p in names and (kind is None or kind in ref.kinds(p)):
                    check(got is not None and plain({p: got})[p] ==
                          content[p], "definition of %r (%s): got %r", p,
                          kind, got)
                    eq(cap.err, "", "report for %r", p)
                else:
                    eq(got, None, "definition of undefined %r (%s)", p, kind)
                    check(p in cap.err, "no report for undefined %r", p)
            with Captured() as cap:
                eq(S.findSymbolDef(table, p, begin=True),
                   [n for n in names if n[:len(p)] == p],
                   "symbols beginning %r", p)
                eq(S.findSymbolDef(table, p, end=True),
                   [n for n in names if n[len(n) - len(p):] == p or not p],
                   "symbols ending %r", p)
        for p in rng.sample(sorted(probes), min(len(probes), 4)) + \
                absolute[:1] + absolute[-1:]:
            with Captured() as cap:
                got = S.findSymbolDef(table, p, fuzzy=True)
            check(len(got) == min(10, len(absolute)) and
                  len(set(got)) == len(got) and set(got) <= set(absolute),
                  "approximate matches of %r: %r", p, got)
            score = {n: fuzz.WRatio(p, n) for n in absolute}
            if not any(ch.isalnum() for ch in p):
                continue
            s = [score[n] for n in got]
            check(s == sorted(s, reverse=True), "matches of %r out of order: "
                  "%r", p, got)
            rest = [score[n] for n in absolute if n not in got]
            check(not rest or not s or max(rest) <= min(s),
                  "better match than %r left out for %r", got, p)
        eq(plain(table), content, "the table after the queries")


# --------------------------------------------------------------------------

class C22(Prop):
    id = "C22"
    modules = ("h800.symbol_table",)
    examples = {"quick": 1500, "thorough": 20000}
    rule = ("case = a history of additions (with or without a value, "
            "absolute or not, repeated), updates, look-ups, prunings, "
            "resolution passes and listings on two tables; after each step "
            "counts, the undefined list, every entry's value, kind and origin "
            "are compared with a dictionary model; non-trivial: a symbol "
            "becomes defined after being added undefined, and is pruned")

    NAMES = ["A", "B", "C", "AB", "LOOP", "a", "Z9", "M", "M1", "END", "10",
             "Q,R"]
    VALUES = [None, 0, 1, 5, 4095, -1, "X+1", ""]

    def enum(self, tier, seed):
        rng = random.Random(seed)
        # all short histories on two names
        ops = [["add", "A", None, "absolute"], ["add", "A", 0, "absolute"],
               ["add", "B", None, None], ["update", "A", 0, "absolute"],
               ["update", "B", 7, None], ["update", "A", 3, "complex"],
               ["prune"], ["resolve", 3]]
        depth = 3 if tier == "quick" else 4

        def histories(n):
            if n == 0:
                yield []
            else:
                for h in histories(n - 1):
                    for o in ops:
                        yield h + [o]
        for h in histories(depth):
            yield {"ops": [[0] + o for o in h]}
        for i in range(600 if tier == "quick" else 12000):
            adds = [[0, "add", n, None, "absolute"] for n in
                    rng.sample(self.NAMES, rng.randrange(len(self.NAMES)))]
            yield {"ops": adds * (i % 2) +
                   [self.rand(rng) for _ in range(40)]}
        for i in range(10 if tier == "quick" else 200):
            yield {"ops": [self.rand(rng) for _ in range(500)]}
        # many symbols at a time
        for i in range(20 if tier == "quick" else 300):
            n = rng.choice([13, 17, 30, 65, 130, 300])
            names = ["N%d" % k for k in range(n)]
            rng.shuffle(names)
            ops = [[0, "add", x, None, rng.choice(["absolute", None])]
                   for x in names]
            for _ in range(3):
                rng.shuffle(names)
                ops += [[0, "update", x, rng.choice([0, 1, 9, "X"]),
                         rng.choice(["absolute", "complex"])]
                        for x in names[:rng.randint(0, n)]]
                ops += [[0, rng.choice(["prune", "print"])],
                        [0, "resolve", rng.choice([1, 10])], [0, "print"]]
            yield {"ops": ops}

    def rand(self, rng):
        k = rng.choice(["add", "add", "add", "update", "update", "lookup",
                        "prune", "resolve", "print", "ref"])
        t = rng.choice([0, 0, 0, 1])
        name = rng.choice(self.NAMES + [""] if k in ("add", "update")
                          else self.NAMES)
        if k == "add":
            return [t, k, name, rng.choice([None] * 12 + self.VALUES),
                    rng.choice(["absolute", "complex", None])]
        if k == "update":
            return [t, k, name, rng.choice(self.VALUES[1:] * 3 + [None]),
                    rng.choice(["absolute", "complex", None])]
        if k == "resolve":
            return [t, k, rng.choice([1, 2, 10])]
        if k in ("lookup", "ref"):
            return [t, k, name]
        return [t, k]

    def strategies(self, tier):
        return [("history", st.randoms(use_true_random=False).flatmap(
            lambda r: st.integers(1, 25).map(
                lambda n: {"ops": [self.rand(r) for _ in range(n)]})), 0.2),
            ("ops", st.fixed_dictionaries({"ops": st.lists(self.op(),
                                                           min_size=1,
                                                           max_size=20)}),
             1.0)]

    def op(self):
        t = st.sampled_from([0, 0, 0, 1])
        name = st.sampled_from(self.NAMES)
        typ = st.sampled_from(["absolute", "complex", None])
        return st.one_of(
            st.tuples(t, st.just("add"), name, st.sampled_from(
                [None] * 8 + self.VALUES), typ),
            st.tuples(t, st.just("update"), name,
                      st.one_of(st.sampled_from(self.VALUES[1:]),
                                st.integers(-5, 5000)), typ),
            st.tuples(t, st.sampled_from(["lookup", "ref"]), name),
            st.tuples(t, st.just("resolve"), st.integers(1, 12)),
            st.tuples(t, st.sampled_from(["prune", "print"]))).map(list)

    def run(self, case):
        S = mod("h800.symbol_table")
        tabs = [S.SymbolTable(), S.SymbolTable()]
        refs = [{"sym": {}, "undef": []}, {"sym": {}, "undef": []}]
        pruned_any = False
        for step, op in enumerate(case["ops"]):
            t, k = op[0], op[1]
            tab, ref = tabs[t], refs[t]
            name = op[2] if len(op) > 2 else None
            with Captured() as cap:
                if k == "add":
                    tab.add(name, "f%d.arg" % step, step, value=op[3],
                            symtype=op[4], segment="seg%d" % (step % 3),
                            subsegment=str(step % 2))
                elif k == "update":
                    tab.update(name, value=op[3], symtype=op[4])
                elif k == "prune":
                    tab.pruneUndefines()
                elif k == "resolve":
                    tab.resolve(op[2])
                elif k == "print":
                    buf = io.StringIO()
                    tab.printUndefs(buf)
                    check("Undefined symbols: %d" % len(ref["undef"]) in
                          buf.getvalue(), "listing of undefined symbols: %r",
                          buf.getvalue()[:60])
                    self.printed(tab, buf.getvalue(), ref["undef"])
                    buf = io.StringIO()
                    tab.printTable(buf)
                    self.printed(tab, buf.getvalue(),
                                 sorted(ref["sym"]) + ref["undef"])
                    check(cap._o.getvalue() == "", "printed elsewhere")
                    tab.printTable()
                    eq(cap._o.getvalue(), buf.getvalue(), "printed table")
                elif k == "ref":
                    e = tab.lookup(name)
                    if e is not None:
                        e.addReference(step)
            said = "ERROR" in cap.out
            if k == "add" and name:
                if name in ref["sym"]:
                    check(said, "no report of %r added twice", name)
                else:
                    check(not said, "report on adding %r: %r", name, cap.out)
                    val = op[3]
                    ref["sym"][name] = {
                        "abs": val if op[4] == "absolute" else None,
                        "cpx": val if op[4] != "absolute" else None,
                        "from": ("f%d.arg" % step, step,
                                 "seg%d" % (step % 3), str(step % 2)),
                        "refs": []}
                    if val is None:
                        ref["undef"].append(name)
            elif k == "update" and name:
                if name in ref["sym"]:
                    check(not said, "report on updating %r: %r", name,
                          cap.out)
                    ref["sym"][name]["abs" if op[4] == "absolute"
                                     else "cpx"] = op[3]
                else:
                    check(said, "no report of update of unknown %r", name)
            elif k in ("prune", "resolve"):
                left = [n for n in ref["undef"]
                        if ref["sym"][n]["abs"] is None and
                        ref["sym"][n]["cpx"] is None]
                pruned_any = pruned_any or left != ref["undef"]
                ref["undef"] = left
            elif k == "ref" and name in ref["sym"]:
                ref["sym"][name]["refs"].append(step)
            for tab, ref in zip(tabs, refs):
                self.compare(tab, ref, "after %r" % op)
        return pruned_any, ("history",)

    @staticmethod
    def printed(tab, text, names):
        "The entries of these symbols, in this order, are in the listing."
        all_texts = {str(tab.lookup(n)) for n in tab.symbols}
        got = [x for x in text.split("\n") if x in all_texts]
        eq(got, [str(tab.lookup(n)) for n in names], "entries listed")

    def compare(self, tab, ref, what):
        eq(tab.getNumSymbols(), len(ref["sym"]), "number of symbols %s", what)
        eq(sorted(tab.symbols), sorted(ref["sym"]), "symbols %s", what)
        eq(list(tab.undefines), ref["undef"], "undefined symbols %s", what)
        eq(tab.getNumUndefs(), len(ref["undef"]), "undefined count %s", what)
        names = self.NAMES + list(ref["sym"]) if len(ref["sym"]) < 20 else \
            self.NAMES + list(ref["sym"])[-3:] + ref["undef"][:2]
        for n in names:
            e = tab.lookup(n)
            r = ref["sym"].get(n)
            if r is None:
                eq(e, None, "look-up of unknown %r %s", n, what)
                continue
            check(e is not None, "%r not found %s", n, what)
            a, c = r["abs"], r["cpx"]
            eq(e.name, n, "name of %r", n)
            if a is None or c is None:
                eq(e.value, a if c is None else c, "value of %r %s", n, what)
            else:
                check(e.value in (a, c), "value of %r: %r %s", n, e.value,
                      what)
            eq((e.isValid(), e.isAbsolute(), e.isComplex(), e.isMultiple()),
               (a is not None or c is not None, a is not None, c is not None,
                a is not None and c is not None), "state of %r %s", n, what)
            eq((e.file, e.line, e.segment, e.subsegment), r["from"],
               "origin of %r %s", n, what)
            eq(list(e.references), r["refs"], "references of %r %s", n, what)
