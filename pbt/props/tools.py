"""C23-C30: the command line tools and the character set.

Each tool is compiled from the working tree and run as a program in a scratch
directory; oracle: the source model of pbt/argus.py and the documented output
formats."""
import ast
import os
import random
import re

from hypothesis import strategies as st

from ..argus import (BAD_OPS, OPS, Missing, RefSymbols, bulk_sources, cards,
                     chain, file_sets, long_file, lost_neighbours,
                     random_card, random_files,
                     random_label, random_op, ref_deck, render, reported)
from ..core import Prop, Violation, check, dict_ints, mod
from ..sandbox import Run, Scratch
from .cards import eq
from .instr import ALL_INSTRUCTIONS
from .symbols import definitions, source_cases


def first_diff(got, want, what):
    "Compare two lists of lines."
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else None
        w = want[i] if i < len(want) else None
        if g != w:
            raise Violation("%s, line %d: got %r, expected %r" % (
                what, i + 1, g, w))


def run_ok(tool, args):
    r = Run(tool, args)
    eq(r.status, 0, "exit status of %s %s (%s)", tool, " ".join(args),
       r.err[-200:])
    return r


# --------------------------------------------------------------------------

class C23(Prop):
    id = "C23"
    examples = {"quick": 1500, "thorough": 10000}
    shrink_keys = ()
    rule = ("case = start, end and optionally step, first and last column, "
            "with leading zeros, boundary and over-long numbers and negative "
            "steps; the lines printed must be exactly start, start+step, ... "
            "not beyond end, zero-filled to the documented width and placed "
            "in the requested columns, and unusable requests refused without "
            "output; non-trivial: at least two lines and a step other than 1, "
            "a column request or leading zeros")
    exhaustive_note = "all start, end in 0..12 x steps 1..5 and -1..-3"

    def enum(self, tier, seed):
        for a in range(13):
            for b in range(13):
                yield {"args": [str(a), str(b)]}
                for s in (1, 2, 3, 4, 5, -1, -2, -3):
                    yield {"args": [str(a), str(b), str(s)]}
        for a, b in (("9", "10"), ("99", "101"), ("999", "1001"),
                     ("9990", "10010"), ("99990", "100010"),
                     ("999990", "999999"), ("0001", "0020"),
                     ("00001", "00020"), ("000001", "000020"),
                     ("1", "000020"), ("000001", "20"), ("0", "0"),
                     ("1000000", "1000001"), ("1", "1000000"),
                     ("0000001", "2"), ("1", "0000002")):
            for extra in ([], ["10"], ["1", "3"], ["5", "1", "6"],
                          ["1", "2", "12"], ["7", "2", "7"], ["1", "2", "5"],
                          ["100000"]):
                yield {"args": [a, b] + extra}
        for n in ([], ["5"], ["0001"]):
            yield {"args": n}
        for a, b in ((0, 999999), (999999, 0), (1, 999991), (123456, 654321)):
            for d in (1, 2, 3, 9, 10, 11, 37, 100, 1000):
                step = (b - a) // d
                for e in (b, b - 1, b + 1):
                    if 0 <= e <= 999999 and step:
                        yield {"args": [str(a), str(e), str(step)]}
        for first in (1, 30, 60, 72, 73, 80, 81, 120, 121, 200):
            for width in (4, 6, 10):
                yield {"args": ["98", "101", "1", str(first),
                                str(first + width - 1)]}
        yield {"args": ["0", "140000" if tier == "quick" else "999999"]}

    def strategies(self, tier):
        num = st.one_of(st.integers(0, 50), st.integers(0, 11000),
                        st.integers(0, 999999), st.deferred(
                            lambda: st.sampled_from(dict_ints(0, 999999))))

        def text(n):
            return st.sampled_from([str(n), str(n), "%04d" % n, "%05d" % n,
                                    "%06d" % n])

        @st.composite
        def args(draw):
            a = draw(num)
            n = draw(st.integers(-3, 60))
            step = draw(st.one_of(st.integers(1, 12), st.integers(-7, -1),
                                  st.sampled_from([10, 100, 1000, -10, -100]),
                                  st.integers(1, 99999).map(
                                      lambda n: n if n % 3 else -n)))
            b = a + n * step + draw(st.integers(-3, 3))
            if b < 0 or b > 999999:
                b = a
            if abs(b - a) > 400 * abs(step):
                b = a
            out = [draw(text(a)), draw(text(b))]
            if step != 1 or draw(st.booleans()):
                out.append(str(step))
                if draw(st.booleans()):
                    s = draw(st.integers(1, 20) | st.integers(1, 130))
                    out.append(str(s))
                    if draw(st.booleans()):
                        out.append(str(s + draw(st.integers(0, 20))))
            return {"args": out}
        return [("args", args(), 1.0)]

    def run(self, case):
        args = case["args"]
        r = Run("genlines.py", ["--"] + args)
        if len(args) < 2 or max(len(args[0]), len(args[1])) > 6:
            check(r.status not in (0, None), "genlines %r: accepted", args)
            eq(r.out, "", "output of refused genlines %r", args)
            return False, ("refused",)
        eq(r.status, 0, "exit status of genlines %r (%s)", args, r.err)
        start, end = int(args[0]), int(args[1])
        step = int(args[2]) if len(args) > 2 else 1
        first = int(args[3]) if len(args) > 3 else 2
        last = int(args[4]) if len(args) > 4 else 7
        width = max(4, len(args[1]), len(str(end)))
        want, n = [], start
        while (n <= end) if step > 0 else (n >= end):
            want.append(n)
            n += step
        lines = r.out.split("\n")
        eq(lines.pop(), "", "end of output")
        eq([int(x) if x.strip().isdigit() else x for x in lines], want,
           "numbers of genlines %r", args)
        for n, line in zip(want, lines):
            text = str(n).rjust(width, "0")
            eq(line.rstrip(), " " * (first - 1) + text,
               "line of genlines %r", args)
            if len(text) == width and width <= last - first + 1:
                # the number field and one separating column
                eq(len(line), last + 1, "length of %r of genlines %r", line,
                   args)
        return (len(want) > 1 and (len(args) > 2 or args[0][0] == "0"),
                ("down" if step < 0 else "up",))


# --------------------------------------------------------------------------

class C24(Prop):
    id = "C24"
    modules = ("h800.arguscard",)
    examples = {"quick": 250, "thorough": 5000}
    shrink_keys = ("lines",)
    rule = ("case = a source with a page range and a log section card or a "
            "file name header (either, both or none, anywhere, with or "
            "without final line end), annotated once or twice; the original "
            "bytes must stay a prefix and exactly the log card and one header "
            "per page follow; requests that cannot be served must fail and "
            "change nothing; non-trivial: at least two pages")

    def case(self, rng):
        lines = [c for c in (random_card(rng) for _ in range(rng.randint(
            0, 8))) if not c.startswith(("L", "#", "$"))]
        if rng.random() < 0.2:      # only the source's own cards count
            lines.insert(rng.randint(0, len(lines)), rng.choice(
                ["$other.arg", "$gone.arg", "$ other.arg X"]))
        a = rng.choice([1, 1, 2, 9, 10, 99, 100, 9998, rng.randint(1, 2000),
                        0, rng.choice(dict_ints(0, 9999) or [1])])
        b = a + rng.choice([0, 1, 2, 9, 12, 105, -1, 0, 1, 3])
        if b < 0:
            b = 0
        lines.insert(rng.randint(0, len(lines)), "# Pages: " + (
            str(a) if a == b and rng.random() < 0.5 else "%d-%d" % (a, b)))
        k = rng.random()
        if k < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                lines.insert(rng.randint(0, len(lines)),
                             "L".ljust(7) + rng.choice("@*+ 1aZ-#L") +
                             rng.choice(["", "  "]) + rng.choice(
                                 ["MAIN PROGRAM", "X", "LOG  SECTION A",
                                  "S" * 70, "A_B.C", random_label(rng),
                                  "P,R", "# Pages: 3-4", "S" * rng.randint(60, 110),
                                  "Mixed case", "PART 1-", "(END)", "A;", "NO.",
                                  "'Q'", "-A-", "A " * rng.randint(1, 50) +
                                  "B", "R", "\u00e9t\u00e9 1"]))
        if 0.4 < k < 0.9:
            for _ in range(rng.choice([1, 1, 2])):
                lines.insert(rng.randint(0, len(lines)), "# Filename: " +
                             rng.choice(["MAIN_PROGRAM.argus", "noext",
                                         "a.b.c", "X_Y_Z", "_lead.arg",
                                         "main.argus  trailing",
                                         "a_b_c_d_e_f.g_h.i", "__", "..",
                                         "Mixed_Case.ARGUS", "x-1_y-2.arg",
                                         "N" * rng.randint(60, 90) + ".arg",
                                         "a/b_c.arg", "_".join("ABCDEFGH"),
                                         random_label(rng).replace(" ", "_")
                                         + ".arg"]))
        # the section ends at column 80; column 81 is left blank
        lines = [x[:80] + " " + x[81:] if x.startswith("L") and len(x) > 80
                 else x for x in lines]
        return {"lines": lines, "times": rng.choice([1, 1, 2]),
                "name": rng.choice(["s.arg", "s.arg", "s.arg", "sub/s.arg",
                                    "../s.arg", "/@@/s.arg", "ln-s.arg",
                                    "S", "~/s.arg", "a b.c.arg"]),
                "newline": rng.random() < 0.7,
                "eol": rng.choice(["\n", "\n", "\r\n"])}

    def enum(self, tier, seed):
        rng = random.Random(seed)
        for _ in range(2700 if tier == "quick" else 15000):
            yield self.case(rng)
        yield {"lines": None, "times": 1}
        for a, b in ((1, 1050), (900, 2100), (0, 1000), (1, 10001)):
            yield {"lines": ["L      @MAIN", "# Pages: %d-%d" % (a, b)],
                   "times": 1, "newline": True, "eol": "\n"}

    def strategies(self, tier):
        return [("source", st.randoms(use_true_random=False).map(self.case),
                 0.5)]

    def run(self, case):
        if case["lines"] is None:
            with Scratch() as s:
                r = Run("genpages.py", ["gone.arg"])
                check(r.status != 0, "missing file accepted")
                eq(s.tree(), {}, "files")
                check(Run("genpages.py", []).status != 0, "no file accepted")
            return False, ("missing",)
        lines = case["lines"]
        pages = [x for x in lines if x.startswith("# Pages: ")]
        if len(pages) != 1:
            return False, ("shrunk away",)
        first, _, last = pages[0].split()[2].partition("-")
        first = int(first)
        last = int(last) if last else first
        section = None
        for x in lines:
            if x.startswith("L"):
                section, mark = x[8:80].strip(), x[7:8].strip() or " "
                break
        else:
            for x in lines:
                if x.startswith("# Filename: "):
                    section = x.split()[2].partition(".")[0].replace("_", " ")
                    mark = "@"
                    break
        name = case.get("name", "s.arg")
        other = ["# Filename: OTHER.arg", "# Pages: 7-8",
                 "L      %OTHER SECTION"]
        files = {name: lines, "other.arg": other}
        files.setdefault("s.arg", other)
        with Scratch(files, case.get("newline", True),
                     case.get("eol", "\n")) as s:
            name = s.key(name)
            store = s.key("../store/s.arg")
            check(Run("genpages.py", ["gone.arg"]).status != 0,
                  "missing file accepted")
            for time in range(case["times"]):
                before = s.tree()
                r = Run("genpages.py", [case.get("name", "s.arg")])
                after = s.tree()
                if section is None or first > last:
                    check(r.status != 0, "accepted: section %r, pages %d-%d",
                          section, first, last)
                    eq(after, before, "files after a refusal")
                    return False, ("refused",)
                eq(r.status, 0, "exit status (%s)", r.err)
                eq(sorted(after), sorted(before), "files")
                for n in set(before) - {name, store}:
                    eq(after[n], before[n], "other file %s", n)
                old, new = before[name], after[name]
                check(new.startswith(old), "the existing text changed")
                added = new[len(old):].decode("utf-8")
                want = ["", "L      " + mark + section]
                for p in range(1, last - first + 2):
                    want += ["", "# Page %d" % (first + p - 1),
                             "#      " + mark + section.ljust(72) +
                             " USER'S OWN PAGE NO." + str(p).rjust(4) +
                             "        PAGE" + str(p).rjust(4), ""]
                first_diff(added.split("\n"), want + [""], "added text")
                if not section.strip() or len(section) > 72:
                    break
                # the added log card is now the first one if there was none
                section = section.strip()
        return last > first, ("annotated",)


# --------------------------------------------------------------------------

class C25(Prop):
    id = "C25"
    modules = ("h800.arguscard",)
    examples = {"quick": 250, "thorough": 5000}
    shrink_keys = ("files",)
    rule = ("case = source files (with includes, sub-directories, dots or no "
            "extension in names, some missing) listed by one call; each "
            "listing must hold one line per card - file, line number, card - "
            "in flattened order, next to the source, and nothing else may be "
            "written; a missing file makes the run fail; non-trivial: a "
            "listing with cards of two files or two listings")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        yield {"files": chain(30), "args": ["f0.arg", "f20.arg"]}
        yield {"files": {"a.arg": long_file(1100)}, "args": ["a.arg"]}
        yield from bulk_sources()
        yield from lost_neighbours()
        long_name = "d" * 40 + "/" + "f" * 40 + ".arg"
        yield {"files": {long_name: [" X"], "a.arg": ["$" + long_name]},
               "args": ["a.arg", long_name]}
        for _ in range(800 if tier == "quick" else 8000):
            files = random_files(rng, missing=rng.random() < 0.1)
            yield {"files": files, "args": [
                rng.choice(list(files)) for _ in range(rng.randint(1, 3))],
                "newline": rng.random() < 0.7,
                "stale": rng.random() < 0.3,
                "eol": rng.choice(["\n", "\n", "\r\n"])}

    def strategies(self, tier):
        @st.composite
        def case(draw):
            files = draw(file_sets(3, 6))
            return {"files": files, "stale": draw(st.booleans()),
                    "args": draw(st.lists(st.sampled_from(
                sorted(files) + ["gone.arg"]), min_size=1, max_size=3))}
        return [("listing", case(), 1.0)]

    def run(self, case):
        files = case["files"]
        want, failed, froms = {}, False, set()
        for name in case["args"]:
            try:
                refs = ref_deck(files, name)
            except Missing:
                failed = True
                lost = os.path.splitext(name)[0] + ".lst"
                break
            text = "".join("%s %s %s\n" % (
                c.filename.ljust(64), str(c.linenum).ljust(6), c.line)
                for c in refs)
            want[os.path.splitext(name)[0] + ".lst"] = text.encode("utf-8")
            froms |= {c.filename for c in refs}
        with Scratch(files, case.get("newline", True),
                     case.get("eol", "\n")) as s:
            before = s.tree()
            if case.get("stale"):       # listings of an earlier run
                for name in want:
                    s.write(name, ["OLD"] * 3000)
                if failed and lost not in want and lost not in files:
                    s.write(lost, ["OLD"] * 7)
            want = {s.key(name): text for name, text in want.items()}
            there = s.tree()
            r = Run("listing.py", case["args"])
            after = s.tree()
            if case.get("stale") and not failed:
                r = Run("listing.py", case["args"])
                eq(s.tree(), after, "files after a second run")
        eq(r.status != 0, failed, "failure of listing %r (%s)", case["args"],
           r.err)
        for name in before:
            eq(after.get(name), before[name], "source file %s afterwards",
               name)
        for name in want:
            check(name in after, "no listing %s", name)
            first_diff(after[name].decode("utf-8").split("\n"),
                       want[name].decode("utf-8").split("\n"),
                       "listing " + name)
        if not failed:
            eq(sorted(set(after) - set(before)), sorted(want),
               "files written")
        else:
            for name in set(after) - set(want):
                eq(after[name], there.get(name), "%s after a run that failed",
                   name)
        return len(froms) > 1 or len(want) > 1, (
            "failed" if failed else "listed",)


# --------------------------------------------------------------------------

def call(tool, case):
    "Run a tool on the files of a case; the sources must stay unchanged."
    with Scratch(case["files"]) as s:
        before = s.tree()
        r = Run(tool, case["argv"])
        after = s.tree()
    eq(after, before, "files after %s %r", tool, case["argv"])
    return r


def op_source(rng, n):
    "Cards dense in operations."
    return [render(col8=rng.choice("   *@"),
                   label=rng.choice(["", "A"]),
                   op=rng.choice(["", " "]) + (random_op(rng) if
                                               rng.random() < 0.3 else
                                               rng.choice(
                       OPS + BAD_OPS + ["TX,", "TX,M12", "TX ,M1", "TS,M1",
                                        "TXM1", "TX,M 1", "TX,M1,2"])),
                   a=rng.choice(["", "TX", "B"]),
                   remarks=rng.choice(["", "TX"])) if rng.random() < 0.8
            else random_card(rng) for _ in range(n)]


QUERIES = ["TX", "TX,", "TX,M1", "TX,M12", "BA", "HA,B2", "HA,", "HA", "DA",
           "S", "T", "TS", "TS,", "SETLOC", "SETLOC,", "SETLOC,2", "ASSIGN",
           "EQUALS", "PR", "END"]


def some_query(rng, files):
    "An operation to search for, often one of the sources."
    if rng.random() < 0.5:
        return rng.choice(QUERIES)
    ops = [c.operation.replace(" ", "") for f in files
           for c in ref_deck(files, f) if c.operation]
    op = rng.choice(ops or QUERIES)
    k = rng.random()
    if k < 0.3:
        op = op.partition(",")[0]
    elif k < 0.5:
        op = op.partition(",")[0] + ","
    elif k < 0.55:
        op = op.lower()
    if op.startswith("-") or op.count(",") > 1 and op.endswith(","):
        return "TX"
    return op


class C26(Prop):
    id = "C26"
    modules = ("h800.arguscard", "h800.instructions")
    examples = {"quick": 250, "thorough": 5000}
    shrink_keys = ("files",)
    rule = ("case = an operation (plain, with a mask, or with a trailing comma "
            "for any mask) searched in source files; the lines printed must "
            "be exactly the cards with that operation, in order, none of "
            "those with * in column 8, with file and line number on request; "
            "names that are no instruction are refused; non-trivial: some "
            "card printed and some operation card not")
    exhaustive_note = "every instruction searched in a source using each once"

    def enum(self, tier, seed):
        rng = random.Random(seed)
        every = {"a.arg": [render(op=m + x) for m in ALL_INSTRUCTIONS
                           for x in ("", ",M1")]}
        for m in ALL_INSTRUCTIONS:
            for x in ("", ",", ",M1"):
                yield {"files": every, "argv": [m + x, "a.arg"]}
        for m in ("XYZZY", "tx", "", "TXX", "Q,M1", "TX M1", ",TX", "-",
                  "tx,", "Tx,M1", "ba,M1", "TX ,M1", " TX", "TX ", "txx,",
                  "INSTRUCTIONS", "T,M1", "TX.M1"):
            yield {"files": {"a.arg": [render(op="TX")]},
                   "argv": ["--", m, "a.arg"]}
        for c in bulk_sources():
            for q in (["TX"], ["TX,M1"], ["-D", "BA"]):
                yield {"files": c["files"], "argv": q + c["args"]}
        for _ in range(1500 if tier == "quick" else 8000):
            files = random_files(rng, ncards=(0, 4))
            for f in files:
                files[f] += op_source(rng, rng.randint(0, 12))
            yield {"files": files, "argv":
                   (["-D"] if rng.random() < 0.3 else []) +
                   [some_query(rng, files)] +
                   [rng.choice(list(files)) for _ in range(rng.randint(1, 3))]}

    def strategies(self, tier):
        one = st.one_of(cards(), st.builds(
            render, col8=st.sampled_from("   *"), op=st.sampled_from(
                OPS + BAD_OPS + ["TX,", "TX,M12", "TX ,M1", "TXM1"])))

        @st.composite
        def case(draw):
            names = draw(st.lists(st.sampled_from(["a.arg", "b.arg"]),
                                  min_size=1, max_size=2, unique=True))
            files = {n: draw(st.lists(one, max_size=10)) for n in names}
            query = draw(st.one_of(
                st.sampled_from(QUERIES + BAD_OPS), st.tuples(
                    st.sampled_from(ALL_INSTRUCTIONS), st.sampled_from(
                        ["", ",", ",M1", ",X", "M1"])).map("".join)))
            return {"files": files, "argv":
                    draw(st.sampled_from([[], [], ["-D"], ["--details"]])) +
                    [query] + names}
        return [("search", case(), 1.0)]

    def run(self, case):
        argv = [a for a in case["argv"] if a != "--"]
        details = argv[0] in ("-D", "--details")
        if details:
            argv = argv[1:]
        query = argv[0]
        r = call("list-instructions.py", case)
        if query.partition(",")[0] not in ALL_INSTRUCTIONS:
            check(r.status != 0, "search for %r accepted", query)
            eq(r.out, "", "output of a refused search")
            return False, ("refused",)
        eq(r.status, 0, "exit status (%s)", r.err)
        want, others = [], 0
        for name in argv[1:]:
            for c in ref_deck(case["files"], name):
                if not c.operation:
                    continue
                op, _, mask = c.operation.replace(" ", "").partition(",")
                has = "," in c.operation
                if c.skipped:
                    hit = False
                elif "," not in query:
                    hit = op == query
                elif query.endswith(","):
                    hit = has and op == query[:-1]
                else:
                    hit = has and op + "," + mask == query
                if not hit:
                    others += 1
                    continue
                want.append("%s %6d %s" % (c.filename.ljust(48), c.linenum,
                                           c.line) if details else c.line)
        first_diff(r.out.split("\n"), want + [""],
                   "cards with operation %s" % query)
        return bool(want and others), ("found" if want else "none",)


# --------------------------------------------------------------------------

def say_errors(n):
    return "1 error encountered." if n == 1 else \
        "%d errors encountered." % n


class C27(Prop):
    id = "C27"
    modules = ("h800.arguscard", "h800.instructions", "h800.symbol_table")
    examples = {"quick": 250, "thorough": 5000}
    shrink_keys = ("files",)
    rule = ("case = source files and the options of the instruction checker "
            "or the parser; reported invalid instructions (instruction, file, "
            "line, card), line and instruction counts, frequencies, "
            "percentages, the unused list and the error total must equal "
            "those of the reference model; non-trivial: a valid and an "
            "invalid instruction occur")

    FLAGS = ["-c", "-s", "-u", "-p", "-i", "-a"]
    LONG = {"-c": "--count", "-s": "--sort", "-u": "--unused",
            "-p": "--print-opcodes", "-i": "--invalid", "-a": "--all"}

    def enum(self, tier, seed):
        rng = random.Random(seed)
        for i in range(64):
            files = {"a.arg": op_source(rng, 14), "b.arg": []}
            yield {"tool": "check", "files": files,
                   "argv": [f for n, f in enumerate(self.FLAGS)
                            if i >> n & 1] + ["a.arg", "b.arg"]}
        every = {"a.arg": [render(op=m) for m in ALL_INSTRUCTIONS
                           for _ in range(rng.choice([1, 2, 3]))]}
        for argv in (["-c"], ["-c", "-s"], ["-c", "-u"], ["-u"], []):
            yield {"tool": "check", "files": every, "argv": argv + ["a.arg"]}
        yield {"tool": "parse", "files": every, "argv": ["a.arg"]}
        for c in bulk_sources():
            yield {"tool": "parse", "files": c["files"], "argv": c["args"]}
            for argv in (["-c"], ["-p", "-c", "-s", "-u"]):
                yield {"tool": "check", "files": c["files"],
                       "argv": argv + c["args"]}
        for i in range(1500 if tier == "quick" else 9000):
            files = random_files(rng, ncards=(0, 4))
            for f in files:
                files[f] += op_source(rng, rng.choice([0, 3, 12])) + \
                    definitions(rng, rng.choice([0, 3]))
            args = [rng.choice(list(files))
                    for _ in range(rng.choice([1, 2, 3, 6]))]
            if i % 3 == 0:
                yield {"tool": "parse", "files": files, "argv": rng.choice(
                    [[], [], ["-d"], ["--debug"]]) + args}
            else:
                argv = [rng.choice([f, self.LONG[f]]) for f in self.FLAGS
                        if rng.random() < 0.4]
                yield {"tool": "check", "files": files,
                       "argv": argv + args if i % 5 else args + argv}

    def strategies(self, tier):
        one = st.one_of(cards(), st.builds(
            render, col8=st.sampled_from("   *"),
            label=st.sampled_from(["", "A", "a"]),
            op=st.sampled_from(OPS + BAD_OPS)))

        @st.composite
        def case(draw):
            names = draw(st.lists(st.sampled_from(["a.arg", "b.arg"]),
                                  min_size=1, max_size=2, unique=True))
            files = {n: draw(st.lists(one, max_size=8)) for n in names}
            tool = draw(st.sampled_from(["check", "check", "parse"]))
            flags = draw(st.lists(st.sampled_from(self.FLAGS), unique=True)
                         if tool == "check" else
                         st.sampled_from([[], ["-d"]]))
            return {"tool": tool, "files": files, "argv": flags + names}
        return [("run", case(), 1.0)]

    def run(self, case):
        flags = [a.replace("--", "-")[:2] for a in case["argv"]
                 if a.startswith("-")]
        names = [a for a in case["argv"] if not a.startswith("-")]
        files = case["files"]
        tool = case["tool"]
        want, err_want = [], []
        errors = lines = instrs = 0
        freq = dict.fromkeys(ALL_INSTRUCTIONS, 0)
        if tool == "parse":
            syms = RefSymbols()
            for n in names:
                k = syms.read(files, n)
                errors += k
                err_want.append("%s: %d errors encountered building symbol "
                                "table." % (n, k))
        echo = "-p" in flags or "-d" in flags
        for n in names:
            for c in ref_deck(files, n):
                lines += 1
                if not c.instruction:
                    continue
                instrs += 1
                if echo:
                    want.append("%s %d %s" % (c.filename, c.linenum, c.line))
                if c.skipped:
                    continue
                if c.instruction not in freq:
                    want.append('*** ERROR: Invalid instruction "%s":' %
                                c.instruction)
                    want.append("File %s, line %d: %s" % (
                        c.filename, c.linenum, c.line))
                    errors += 1
                else:
                    freq[c.instruction] += 1
        r = call("check-instructions.py" if tool == "check" else "parse.py",
                 case)
        eq(r.status, 0, "exit status (%s)", r.err)
        got = r.out.split("\n")
        eq(got.pop(), "", "end of output")
        nontrivial = errors > 0 and any(freq.values())
        if tool == "parse":
            want += ["", "Source lines: %d" % lines, say_errors(errors)]
            first_diff(got, want, "output of the parser")
            got_err = [x for x in r.err.split("\n")
                       if x.endswith("building symbol table.")]
            first_diff(got_err, err_want, "symbol error counts")
            return nontrivial, ("parse",)
        if "-c" in flags:
            want += ["", "Source lines: %d" % lines, "",
                     "Instruction Frequencies:",
                     "%-8s %6d  %6.2f%%" % ("Total", instrs, 100)]
            rows = [(m, n) for m, n in sorted(freq.items())
                    if n or "-u" not in flags]
            block = ["%-8s %6d  %6.2f%%" % (
                m, n, 100.0 * n / instrs if instrs else 0) for m, n in rows]
            if "-s" in flags:
                at = len(want)
                part = got[at:at + len(block)]
                counts = [int(x[8:15]) for x in part if x[8:15].strip()
                          .isdigit()]
                check(counts == sorted(counts, reverse=True),
                      "frequencies out of order: %r", counts)
                got[at:at + len(block)] = sorted(part)
                block = sorted(block)
            want += block
        if "-u" in flags:
            want += ["", "Unused Instructions:"] + [
                m for m in sorted(freq) if not freq[m]]
        want.append(say_errors(errors))
        first_diff(got, want, "output of the instruction checker")
        return nontrivial, tuple(flags) or ("plain",)


# --------------------------------------------------------------------------

def symbol_query(rng, case):
    "A symbol of the sources, or part of one."
    ref = RefSymbols()
    for n in case["args"]:
        ref.read(case["files"], n)
    q = rng.choice(ref.names() or ["A"])
    i = rng.randint(0, len(q))
    q = rng.choice([q, q, q[:i], q[i:], q + q[:1], q.lower(), " " + q])
    return "A" if q.startswith("-") else q


def symbol_cases(tier, seed, n, flag_sets):
    rng = random.Random(seed)
    for c in bulk_sources():
        for flags in flag_sets:
            yield {"files": c["files"], "argv": list(flags) + c["args"]}
    for i, c in enumerate(source_cases(tier, seed, n)):
        flags = list(rng.choice(flag_sets))
        if flags and flags[0] == "find":
            if rng.random() < 0.2:
                flags.insert(1, rng.choice(["-D", "--details"]))
            if rng.random() < 0.5:
                flags[-1] = symbol_query(rng, c)
        yield {"files": c["files"], "argv": flags + c["args"]}


@st.composite
def symbol_runs(draw, flag_sets):
    files = draw(file_sets(2, 8))
    args = draw(st.lists(st.sampled_from(sorted(files)), min_size=1,
                         max_size=3))
    return {"files": files, "argv": draw(st.sampled_from(flag_sets)) + args}


class C28(Prop):
    id = "C28"
    modules = ("h800.arguscard", "h800.symbol_table")
    examples = {"quick": 250, "thorough": 5000}
    shrink_keys = ("files",)
    FLAGS = [[], ["-c"], ["-c"], ["--complex"]]
    rule = ("case = source files given to the symbol checker, with or without "
            "the complex-only option; the error count of each file, every "
            "report, the list of complex-only symbols, their number and the "
            "grand total must equal the reference model's, and suggestions "
            "must be symbols that have a simple definition; non-trivial: an "
            "error of one kind and a good definition")

    def enum(self, tier, seed):
        yield from symbol_cases(tier, seed + 5, 400, self.FLAGS)

    def strategies(self, tier):
        return [("run", symbol_runs(self.FLAGS), 1.0)]

    def run(self, case):
        cflag = case["argv"][0] in ("-c", "--complex")
        names = [a for a in case["argv"] if not a.startswith("-")]
        ref = RefSymbols()
        want = []
        for n in names:
            done = len(ref.errors)
            ref.read(case["files"], n)
            want += [e[:2] for e in ref.errors[done:]]
            want.append((n, len(ref.errors) - done))
        only = ref.complex_only() if cflag else []
        r = call("check-symbols.py", case)
        eq(r.status, 0, "exit status (%s)", r.err)
        got = []
        for line in r.err.split("\n"):
            m = re.match(r"(.+): (\d+) errors encountered building", line)
            if m:
                got.append((m.group(1), int(m.group(2))))
            else:
                got += reported(line)
        first_diff(got, want, "reports")
        eq(re.findall(r'^ERROR: symbol "(\S*)" has a complex', r.err, re.M),
           only, "complex-only symbols")
        eq(re.findall(r"^(\d+) errors checking", r.err, re.M),
           [str(len(only))] if only else [], "number of complex-only symbols")
        eq(re.findall(r"^Total: (\d+) errors", r.err, re.M),
           [str(len(ref.errors) + len(only))] if len(names) > 1 else [],
           "grand total")
        absolute = ref.absolute()
        hints = re.findall(r"^  ([^ ]*) - (No matches!|Possible matches: (.*))$",
                           r.out + r.err, re.M)
        eq([h[0] for h in hints], only, "symbols with suggestions")
        for name, text, found in hints:
            found = found.split(" ") if found else []
            check(len(found) == min(10, len(absolute)) and
                  set(found) <= set(absolute), "suggestions for %s: %r", name,
                  text)
        return bool((ref.errors or only) and ref.table), (
            "complex-only" if only else "errors" if ref.errors else "clean",)


class C29(Prop):
    id = "C29"
    modules = ("h800.arguscard", "h800.symbol_table")
    examples = {"quick": 250, "thorough": 5000}
    shrink_keys = ("files",)
    FLAGS = [["list"]] * 50 + [
        ["find"] + f + [s] for f in ([], ["-x"], ["-b"], ["-e"], ["-f"],
                                     ["--begin"], ["--end"])
        for s in ("A", "B", "LOOP", "1", "NOSUCH", "M1", "AB", "X9", "a",
                  "LOOP1", "END", "", "A B", "LOO P", "LOOPEND LOOP",
                  "ABCDEFGHIJKLMNOP", "*", "L OOP1 ", "loop")]
    rule = ("case = source files given to the symbol lister or the symbol "
            "finder (exact, leading, trailing, approximate); the listing must "
            "be exactly the model's symbols, segments, subsegments and "
            "definitions in order with file, line and card, the finder's "
            "answer exactly the matching symbols or the full definition; "
            "conflicting options are refused; non-trivial: two symbols and "
            "an answer")

    def enum(self, tier, seed):
        src = {"a.arg": [render(label="A", op="TX")]}
        for bad in (["-b", "-x"], ["-e", "-x"], ["-b", "-e"], ["-f", "-b"],
                    ["-f", "-e"], ["-f", "-x"]):
            yield {"files": src, "argv": ["find"] + bad + ["A", "a.arg"]}
            for more in ("-D", "--details", "-v"):
                yield {"files": src, "argv": ["find"] + bad[:1] + [more] +
                       bad[1:] + ["A", "a.arg"]}
                yield {"files": src, "argv": ["find"] + bad[::-1] +
                       ["A", "a.arg", more]}
        yield {"files": src, "argv": ["find", "A"]}
        yield {"files": src, "argv": ["list"]}
        yield from symbol_cases(tier, seed + 6, 500, self.FLAGS)

    def strategies(self, tier):
        return [("run", symbol_runs(self.FLAGS), 1.0)]

    def run(self, case):
        which, argv = case["argv"][0], case["argv"][1:]
        flags = [a for a in argv if a.startswith("-") and
                 a.strip("-")[0] not in "Dvd"]
        names = [a for a in argv if not a.startswith("-")]
        query = names.pop(0) if which == "find" else None
        sub = {"files": case["files"], "argv": argv}
        r = call(which + "-symbols.py", sub)
        if not names or len(flags) > 1:
            check(r.status != 0, "%s %r accepted", which, argv)
            eq(r.out, "", "output of a refused call")
            return False, ("refused",)
        eq(r.status, 0, "exit status (%s)", r.err)
        ref = RefSymbols()
        want = []
        for n in names:
            k = ref.read(case["files"], n)
            want.append((n, str(k)))
        table = ref.nested()
        if which == "list":
            out = []
            for sym in sorted(table):
                out.append(sym)
                for seg in sorted(table[sym]):
                    out.append("  Segment: " + seg)
                    for s in sorted(table[sym][seg]):
                        out.append("    Subsegment: " + s)
                        for kind in ("complex", "simple"):
                            d = table[sym][seg][s].get(kind)
                            if d:
                                where = "%s:%d" % (os.path.splitext(d[0])[0],
                                                   d[1])
                                out.append(" " * 8 + ("<%s>" % kind).ljust(9)
                                           + " " + d[3].rjust(1) + " " +
                                           where.ljust(38) + " " * 6 + d[4])
            first_diff(r.out.split("\n"), out + [""], "symbol listing")
            eq(re.findall(r"^(\d+) errors found", r.err, re.M),
               [str(len(ref.errors))] if ref.errors else [], "error count")
            return len(table) > 1, ("list",)
        eq(re.findall(r"^(.+): (\d+) errors encountered building", r.err,
                      re.M), want, "error counts")
        text = r.out.strip()
        syms = ref.names()
        mode = flags[0].strip("-")[0] if flags else "x"
        if mode in "be":
            hits = [n for n in syms if (n.startswith(query) if mode == "b"
                                        else n.endswith(query))]
            eq(ast.literal_eval(text) if text else [], hits,
               "symbols found for %s %s", flags[0], query)
        elif mode == "f":
            hits = ast.literal_eval(text) if text else []
            absolute = ref.absolute()
            check(len(hits) == min(10, len(absolute)) and
                  set(hits) <= set(absolute), "approximate matches of %s: %r",
                  query, hits)
            # the matcher compares letters and digits only
            bare = lambda x: re.sub(r"\W", " ", x).strip().lower()
            if query in absolute and bare(query):
                eq(bare(hits[0]), bare(query), "best match of %s", query)
        elif query in table:
            got = ast.literal_eval(re.sub(r"<[^<>]* object at 0x[0-9a-f]+>",
                                          "None", text))
            for seg in got.values():
                for s in seg.values():
                    for kind, e in s.items():
                        s[kind] = (e["file"], e["line"], e["lognum"],
                                   e["tagtype"])
            eq(got, {g: {s: {k: d[:4] for k, d in ks.items()}
                         for s, ks in ss.items()}
                     for g, ss in table[query].items()},
               "definition of %s", query)
            hits = [query]
        else:
            eq(text, "", "answer for undefined %s", query)
            check('"%s"' % query in r.err, "undefined %s not reported", query)
            hits = []
        return len(table) > 1 and bool(hits), ("find " + mode,)


# --------------------------------------------------------------------------

# Table I, Appendix E of the manual, high-speed printer column.
CHARACTERS = ("0123456789'=:  &" "+ABCDEFGHI;.)%█ " "-JKLMNOPQR#$*\"  "
              " /STUVWXYZ@,(\n  ")


class C30(Prop):
    id = "C30"
    modules = ("h800.charset", "h800.word")
    examples = {"quick": 500, "thorough": 10000}
    shrink_keys = ("text",)
    rule = ("case = eight six-bit codes: packed into a machine word, stored, "
            "split again into six-bit groups and translated, they must give "
            "the characters the manual lists, and every printable character "
            "must come from exactly one code; non-trivial: at least two "
            "different codes")
    exhaustive_note = "all 64 codes in each of the eight positions of a word"

    def enum(self, tier, seed):
        for pos in range(8):
            for c in range(64):
                word = [0] * 8
                word[pos] = c
                yield {"text": word}

    def strategies(self, tier):
        return [("word", st.fixed_dictionaries({"text": st.lists(
            st.integers(0, 63), min_size=8, max_size=8)}), 1.0)]

    def run(self, case):
        table = mod("h800.charset").CHARSET
        W = mod("h800.word")
        eq(sorted(table), list(range(64)), "character codes")
        codes = (list(case["text"]) + [0] * 8)[:8]
        v = 0
        for c in codes:
            v = v << 6 | c
        w = W.Word(v)
        back = [w.data[1 + 6 * i:6 + 6 * i] for i in range(8)]
        eq(back, codes, "six-bit groups of the word")
        eq([table[c] for c in back], [CHARACTERS[c] for c in codes],
           "characters of codes %r", codes)
        for ch in set(CHARACTERS) - {" "}:
            eq(sum(1 for x in table.values() if x == ch), 1,
               "codes of character %r", ch)
        return len(set(codes)) > 1, ("word",)
