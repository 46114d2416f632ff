"""C31, C32: relations between runs of the command line tools.

Oracle: another run of the tools on the same files (metamorphic and
differential), no reference model."""
import ast
import os
import random
import re
import subprocess

from hypothesis import strategies as st

from .. import core
from ..argus import file_sets, long_file, chain, ref_deck
from ..core import Prop, Violation, check
from ..sandbox import Run, Scratch
from .cards import eq
from .symbols import source_cases

QUERY = ["A", "LOOP", "NOSUCH", "M1", "AB", "loop", "A B", "Ab", " A"]
OPNAMES = ["TX", "TX,", "TX,M1", "BA", "HA,B2", "ASSIGN", "SETLOC,2", "EQUALS",
           "tx", "TX, M1", "XYZZY"]

# tool, arguments before the file names, option for extra output
TOOLS = [
    ("check-instructions.py", [], "-v"),
    ("check-instructions.py", ["-c"], "--verbose"),
    ("check-instructions.py", ["-c", "-s", "-u"], "-v"),
    ("check-instructions.py", ["-a"], "-v"),
    ("check-instructions.py", ["-u"], "-p"),
    ("check-symbols.py", [], "-v"),
    ("check-symbols.py", ["-c"], "-v"),
    ("list-symbols.py", [], "-v"),
    ("listing.py", [], "-v"),
    ("parse.py", [], "-v"),
    ("parse.py", [], "-d"),
    ("parse.py", [], "--debug"),
] + [("find-symbols.py", f + [q], "-v")
     for f in ([], ["-b"], ["-e"], ["-f"], ["-x"]) for q in QUERY] + [
    ("list-instructions.py", f + [q], "-v")
    for f in ([], ["-D"]) for q in OPNAMES] + [
    ("parse.py", ["-d"], "-v"), ("parse.py", ["-v"], "-d"),
    ("check-instructions.py", ["-p"], "-v"),
    ("check-instructions.py", ["-v", "-c"], "-p"),
    ("check-instructions.py", ["-c", "-s", "-p"], "--verbose")]


def plain(text):
    "Without object addresses."
    return re.sub(r" object at 0x[0-9a-f]+", "", text)


class Program:
    "A run as a program of its own."

    def __init__(self, tool, args, hashseed):
        env = dict(os.environ, PYTHONPATH=core.REPO,
                   PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
                   PYTHONIOENCODING="utf-8", PYTHONUTF8="1")
        p = subprocess.run(
            [core.PYTHON, os.path.join(core.REPO, "tools", tool)] + args, env=env,
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, timeout=120)
        self.status = p.returncode
        self.out = p.stdout.decode("utf-8")
        self.err = "\n".join(
            x for x in p.stderr.decode("utf-8").split("\n")
            if "fuzzywuzzy" not in x and "Levenshtein" not in x and
            "warnings.warn" not in x and not x.startswith("WARNING:root:"))


class C31(Prop):
    id = "C31"
    modules = ("h800.arguscard", "h800.symbol_table", "h800.instructions")
    examples = {"quick": 200, "thorough": 4000}
    shrink_keys = ("files",)
    rule = ("case = source files and a call of one of the seven source tools; "
            "the call is made plainly, again, and with verbose or debug "
            "output (sampled cases also as a program of its own under two "
            "hash seeds); the extra output may only add lines, and exit "
            "status, error stream and files written must be the same in all "
            "runs; non-trivial: the plain run prints something or writes a "
            "file and the extra output adds a line")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        n = 0
        for c in [{"files": chain(6), "args": ["f0.arg"]},
                  {"files": {"a.arg": long_file(200)}, "args": ["a.arg"]}]:
            for t in range(len(TOOLS)):
                yield {"files": c["files"], "args": c["args"], "tool": t,
                       "program": t % 4 == 0 or t < 12}
        for c in source_cases(tier, seed + 11, 300):
            n += 1
            t = rng.randrange(len(TOOLS) if n % 3 else 17)
            if n % 3 == 0 and t >= 12:
                t += len(TOOLS) - 17
            yield {"files": c["files"], "args": c["args"], "tool": t,
                   "program": n % 15 == 0}
        for t in (0, 5, 7, 8, 9, 12, 36):
            yield {"files": {"a.arg": ["$gone.arg"]}, "args": ["a.arg"],
                   "tool": t, "program": True}

    def strategies(self, tier):
        @st.composite
        def case(draw):
            files = draw(file_sets(3, 8))
            return {"files": files, "args": draw(st.lists(st.sampled_from(
                sorted(files)), min_size=1, max_size=2)),
                "tool": draw(st.integers(0, len(TOOLS) - 1))}
        return [("call", case(), 1.0)]

    def once(self, case, make, argv):
        with Scratch(case["files"]) as s:
            r = make(argv)
            return r.status, plain(r.out), plain(r.err), s.tree()

    def run(self, case):
        tool, first, more = TOOLS[case["tool"]]
        argv = first + case["args"]
        here = lambda a: Run(tool, a)
        base = self.once(case, here, argv)
        what = "%s %s" % (tool, " ".join(argv))
        again = self.once(case, here, argv)
        for a, b, part in zip(again, base, ("status", "output",
                                            "error stream", "files")):
            eq(a, b, "%s of %s run a second time", part, what)
        if case.get("program"):
            for h in (1, 2):
                got = self.once(case, lambda a: Program(tool, a, h), argv)
                for a, b, part in zip(got, base, (
                        "status", "output", "error stream", "files")):
                    if part == "error stream":
                        a, b = a.strip(), b.strip()
                    eq(a, b, "%s of %s as a program", part, what)
        extra = self.once(case, here, [more] + argv)
        for i, part in ((0, "status"), (2, "error stream"), (3, "files")):
            eq(extra[i], base[i], "%s of %s with %s", part, what, more)
        lines = iter(extra[1].split("\n"))
        for x in base[1].split("\n"):
            if x not in lines:
                raise Violation("%s %s lacks or misplaces the line %r" % (
                    what, more, x))
        return (bool(base[1].strip()) or len(base[3]) > len(case["files"])) \
            and extra[1] != base[1], (tool,)


# --------------------------------------------------------------------------

def listed(text):
    "{symbol: {(segment, subsegment, kind)}} from a symbol listing."
    out, sym, seg, sub = {}, None, None, None
    for line in text.split("\n")[:-1]:
        if line.startswith("        <"):
            out[sym].add((seg, sub, line.split()[0].strip("<>")))
        elif line.startswith("    Subsegment: "):
            sub = line[16:]
        elif line.startswith("  Segment: "):
            seg = line[11:]
        else:
            sym = line
            out[sym] = set()
    return out


class C32(Prop):
    id = "C32"
    modules = C31.modules
    examples = {"quick": 150, "thorough": 3000}
    shrink_keys = ("files",)
    rule = ("case = source files given to all the source tools; symbol error "
            "counts, source line counts, invalid instructions, instruction "
            "counts, symbols, segments and complex-only symbols given by one "
            "tool must be those given by every other; non-trivial: at least "
            "two symbols and one error")

    def enum(self, tier, seed):
        for c in source_cases(tier, seed + 12, 250):
            yield {"files": c["files"], "args": c["args"]}

    def strategies(self, tier):
        @st.composite
        def case(draw):
            files = draw(file_sets(3, 8))
            return {"files": files, "args": draw(st.lists(st.sampled_from(
                sorted(files)), min_size=1, max_size=2))}
        return [("sources", case(), 1.0)]

    def go(self, tool, argv):
        r = Run(tool, argv)
        eq(r.status, 0, "exit status of %s %r (%s)", tool, argv, r.err[-200:])
        return r

    def run(self, case):
        files, args = case["files"], case["args"]
        blanks = False
        used = set()
        for a in args:
            for c in ref_deck(files, a):
                if c.operation:
                    blanks = blanks or " " in c.operation
                    used.add(c.instruction)
        with Scratch(files) as s:
            check_syms = self.go("check-symbols.py", ["-c"] + args)
            list_syms = self.go("list-symbols.py", args)
            find_all = self.go("find-symbols.py", ["-b", "--", ""] + args)
            parse = self.go("parse.py", args)
            instrs = self.go("check-instructions.py", ["-c"] + args)
            rows = 0
            for a in args:
                self.go("listing.py", [a])
                with open(os.path.splitext(a)[0] + ".lst",
                          encoding="utf-8") as f:
                    rows += len(f.read().split("\n")) - 1
            table = listed(list_syms.out)
            some = sorted(table)[:2] + sorted(table)[-1:]
            found = {x: self.go("find-symbols.py", ["--", x] + args).out
                     for x in some if x}
            used.discard("Total")   # a heading of the table
            ops = [o for o in sorted(used)[:3] + sorted(used)[-3:]
                   if re.search("^%s +[0-9]+ " % re.escape(o), instrs.out,
                                re.M)]
            hits = {o: self.go("list-instructions.py", ["--", o] + args).out
                    for o in ops}
        counts = lambda t: re.findall(
            r"^(.+): (\d+) errors encountered building", t, re.M)
        want = counts(check_syms.err)
        eq([n for n, _ in want], args, "files named by the symbol checker")
        eq(counts(find_all.err), want, "error counts of the symbol finder")
        eq(counts(parse.err), want, "error counts of the parser")
        total = sum(int(k) for _, k in want)
        eq(re.findall(r"^(\d+) errors found", list_syms.err, re.M),
           [str(total)] if total else [], "error count of the symbol lister")
        eq(ast.literal_eval(find_all.out.strip() or "[]"), sorted(table),
           "symbols of the finder and the lister")
        only = sorted(x for x, d in table.items()
                      if {k for _, _, k in d} == {"complex"})
        eq(sorted(re.findall(r'^ERROR: symbol "(.*)" has a complex',
                             check_syms.err, re.M)), only,
           "complex-only symbols of the checker and the lister")
        for x, text in found.items():
            got = ast.literal_eval(re.sub(
                r"<[^<>]* object at 0x[0-9a-f]+>", "None", text.strip()))
            eq({(g, u, k) for g, us in got.items() for u, ks in us.items()
                for k in ks}, table[x], "definitions of %s", x)
        for r, name in ((parse, "parser"), (instrs, "instruction checker")):
            n = re.findall(r"^Source lines: (\d+)$", r.out, re.M)
            eq(n, [str(rows)], "source lines of the %s and listing rows",
               name)
        bad = lambda t: re.findall(
            r'^\*\*\* ERROR: Invalid instruction "(.*)":\n(File .*)$', t,
            re.M)
        eq(bad(parse.out), bad(instrs.out), "invalid instructions of the "
           "parser and the instruction checker")
        n = len(bad(parse.out))
        for r, k, name in ((parse, n + total, "parser"),
                           (instrs, n, "instruction checker")):
            eq(re.findall(r"^(\d+) errors? encountered\.$", r.out, re.M),
               [str(k)], "error total of the %s", name)
        for o, text in hits.items():
            freq = int(re.search("^%s +([0-9]+) " % re.escape(o), instrs.out,
                                 re.M).group(1))
            k = text.count("\n")
            check(freq <= k and (blanks or freq == k), "%s: frequency %d, "
                  "search finds %d cards", o, freq, k)
        return len(table) > 1 and n + total > 0, ("sources",)
