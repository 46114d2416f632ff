"""C33-C35: how the command line tools are called, and how sources are laid
out over files.

Oracle: for C33 the refusal itself; for C34 and C35 another run of the tool
(metamorphic), no reference model."""
import ast
import os
import random
import re

from hypothesis import strategies as st

from ..argus import cards, file_sets, near_names, random_card, \
    random_files, ref_deck, render, text_of
from ..core import Prop, check
from ..sandbox import Run, Scratch
from .agree import OPNAMES, QUERY, Program, plain
from .cards import eq
from .symbols import definitions, source_cases

# tool: its options, short and long
OPTIONS = {
    "check-instructions.py": [
        ("-a", "--all"), ("-c", "--count"), ("-i", "--invalid"),
        ("-p", "--print-opcodes"), ("-s", "--sort"), ("-u", "--unused"),
        ("-v", "--verbose")],
    "check-symbols.py": [("-c", "--complex"), ("-v", "--verbose")],
    "find-symbols.py": [("-b", "--begin"), ("-D", "--details"),
                        ("-e", "--end"), ("-f", "--fuzzy"),
                        ("-v", "--verbose"), ("-x", "--exact")],
    "list-instructions.py": [("-D", "--details"), ("-v", "--verbose")],
    "list-symbols.py": [("-v", "--verbose")],
    "listing.py": [("-v", "--verbose")],
    "parse.py": [("-d", "--debug"), ("-v", "--verbose")],
    "genpages.py": [],
    "genlines.py": [],
}
SOURCE_TOOLS = [t for t in sorted(OPTIONS) if t != "genlines.py"]
READERS = [t for t in SOURCE_TOOLS if t != "genpages.py"]
NEEDS = {"find-symbols.py": 2, "genlines.py": 2}
BAD_OPTIONS = ["-Q", "--nosuch", "-z", "--Verbose", "-9", "--all-of-it",
               "-vQ", "--verbosely", "-V"]


class Outcome:
    "A run in which any failure of the tool counts as a failed run."

    def __init__(self, tool, argv):
        try:
            r = Run(tool, argv)
            self.status, self.out, self.err = r.status, r.out, r.err
        except Exception as e:      # what Python would print
            self.status, self.out = 1, ""
            self.err = "%s: %s" % (type(e).__name__, e)


class C33(Prop):
    id = "C33"
    modules = ("h800.arguscard", "h800.symbol_table", "h800.instructions")
    examples = {"quick": 200, "thorough": 4000}
    shrink_keys = ("files",)
    rule = ("case = source files and a call that cannot be carried out: too "
            "few arguments, an option the tool does not have, a source or an "
            "included file that does not exist; the run must end with a "
            "non-zero status and a message that names the option or file, and "
            "leave every file there was unchanged (sampled cases also as a "
            "program of its own); non-trivial: there are cards that could "
            "have been read")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        some = {"a.arg": ["# Pages: 1-2", "L       SECT", render(
            label="A", op="TX")]}
        for tool in sorted(OPTIONS):
            for n in range(NEEDS.get(tool, 1)):
                for opts in [[]] + [list(o[:1]) for o in OPTIONS[tool]] + \
                        [list(o[1:]) for o in OPTIONS[tool]]:
                    yield {"files": some, "tool": tool, "why": "few",
                           "argv": opts + ["10"] * n, "program": not opts}
            for bad in BAD_OPTIONS:
                for at in range(3):
                    argv = self.good(tool, ["a.arg"])
                    argv.insert(at, bad)
                    yield {"files": some, "tool": tool, "why": "option",
                           "argv": argv, "bad": bad, "program": at == 0 and
                           bad == "-Q"}
        for n in range(1, 75):
            for k, name in enumerate(("m" * n, "d/" * (n // 2) + "m" * (n % 2)
                                      + "x")):
                tool = SOURCE_TOOLS[(n + k) % len(SOURCE_TOOLS)]
                yield {"files": some, "tool": tool, "why": "file",
                       "argv": self.good(tool, [name], "TX"),
                       "names": [name]}
                if tool != "genpages.py":
                    yield {"files": {"a.arg": [" X", "$" + name]},
                           "tool": tool, "why": "file", "names": ["a.arg"],
                           "argv": self.good(tool, ["a.arg"], "TX")}
        n = 0
        for _ in range(600 if tier == "quick" else 6000):
            n += 1
            yield self.lost(rng, random_files(rng, missing=True), n % 20 == 0)

    @staticmethod
    def good(tool, names, query=None):
        if tool == "genlines.py":
            return ["1", "9"]
        if tool == "genpages.py":
            return names[:1]
        if tool == "find-symbols.py":
            return [query or "A"] + names
        if tool == "list-instructions.py":
            return [query or "TX"] + names
        return list(names)

    def lost(self, rng, files, program=False):
        tool = rng.choice(SOURCE_TOOLS)
        names = [rng.choice(sorted(files)) for _ in range(rng.randint(1, 3))]
        if tool == "genpages.py" or rng.random() < 0.5:
            names.insert(0 if tool == "genpages.py" else
                         rng.randint(0, len(names)),
                         rng.choice(["gone.arg", "sub/gone.arg", "nosuch",
                                     "A.argx", "no/such/dir/a.arg",
                                     rng.choice(near_names(files)),
                                     rng.choice(near_names(files))]))
        opts = [rng.choice(o) for o in OPTIONS[tool] if rng.random() < 0.2]
        if tool == "find-symbols.py" and len(opts) > 1:
            opts = opts[:1]
        return {"files": files, "tool": tool, "why": "file",
                "argv": opts + self.good(tool, names, "TX"),
                "names": names, "program": program}

    def strategies(self, tier):
        @st.composite
        def case(draw):
            rng = random.Random(draw(st.integers(0, 1 << 30)))
            return self.lost(rng, draw(file_sets(3, 6, missing=True)))
        return [("missing", case(), 1.0)]

    def run(self, case):
        tool, files = case["tool"], case["files"]
        fault, listed = None, set()
        if case["why"] == "option":
            fault = case["bad"]
            if fault == "-vQ":
                fault = "-"         # either letter may be the one at fault
        elif case["why"] == "file":
            for name in case["names"][:1 if tool == "genpages.py" else None]:
                fault = first_missing(files, name)
                if fault:
                    break
                listed.add(os.path.splitext(name)[0] + ".lst")
            if fault is None:
                return False, ("nothing missing",)
        what = "%s %s" % (tool, " ".join(case["argv"]))
        runs = [lambda: Outcome(tool, case["argv"])]
        if case.get("program"):
            runs.append(lambda: Program(tool, case["argv"], 1))
        for make in runs:
            with Scratch(files) as s:
                before = s.tree()
                r = make()
                after = s.tree()
            check(r.status != 0, "%s ends with status %r", what, r.status)
            check(r.err.strip() != "", "%s fails without a message", what)
            if fault:
                check(fault in r.err, "%s: the message %r does not name %r",
                      what, r.err[-300:], fault)
            for name in before:
                eq(after.get(name), before[name], "%s after %s", name, what)
            new = set(after) - set(before)
            check(new <= ({s.key(n) for n in listed} if tool == "listing.py" else set()),
                  "%s wrote %r", what, sorted(new))
        return any(files.values()), (case["why"], tool)


def first_missing(files, name):
    "The first file that cannot be read when name is, or None."
    lines = text_of(files, name)
    if lines is None:
        return name
    for line in lines:
        if line.startswith("$"):
            got = first_missing(files, line[1:].split()[0])
            if got:
                return got
    return None


# --------------------------------------------------------------------------

class C34(Prop):
    id = "C34"
    modules = C33.modules
    examples = {"quick": 200, "thorough": 4000}
    shrink_keys = ("files",)
    rule = ("case = source files, a tool, some of its options and two ways of "
            "writing the call: every option short or long, given once or "
            "more, letters run together or not, in any order, before, between "
            "or after the other arguments; exit status, both output streams "
            "and the files written must be the same; non-trivial: at least "
            "one option, and the plain call prints something else or writes "
            "a file")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        some = {"a.arg": [render(label="A", op="TX"),
                          render(label="B", op="ASSIGN"), "# c",
                          render(col8="*", label="A", op="XYZ"),
                          render(op="NOSUCH"), render(label="a", op="TX"),
                          render(label="AB", op="EQUALS"),
                          render(label="LOOPA", op="TX,M1")]}
        for tool in READERS:
            opts = OPTIONS[tool]
            sets = [[o] for o in opts] + [
                [a, b] for i, a in enumerate(opts) for b in opts[:i]]
            for chosen in sets:
                names = ["a.arg"]
                rest = C33.good(tool, names, "A" if tool == "find-symbols.py"
                                else "TX")
                short = [o[0] for o in chosen]
                long = [o[1] for o in chosen]
                yield {"files": some, "tool": tool, "calls": [
                    short + rest, long + rest, rest + short, rest + long,
                    short[::-1] + rest, rest[:1] + long[::-1] + rest[1:],
                    short + long + rest, ["-" + "".join(
                        x[1:] for x in short)] + rest]}
        for c in source_cases(tier, seed + 34, 300):
            yield self.two(rng, c["files"], c["args"])

    def two(self, rng, files, names):
        tool = rng.choice(READERS + ["check-instructions.py",
                                     "find-symbols.py"])
        rest = C33.good(tool, names, rng.choice(
            QUERY if tool == "find-symbols.py" else OPNAMES))
        k = rng.randint(1, min(4, len(OPTIONS[tool])))
        chosen = rng.sample(OPTIONS[tool], k)
        return {"files": files, "tool": tool, "calls": [
            [o[0] for o in chosen] + rest] + [
            self.write(rng, chosen, rest) for _ in range(3)]}

    @staticmethod
    def write(rng, chosen, rest):
        opts = [rng.choice(o) for o in chosen]
        while rng.random() < 0.2:
            opts.append(rng.choice(rng.choice(chosen)))
        rng.shuffle(opts)
        if rng.random() < 0.3:
            short = [o for o in opts if not o.startswith("--")]
            opts = [o for o in opts if o.startswith("--")] + (
                ["-" + "".join(o[1:] for o in short)] if short else [])
        out = list(rest)
        at = 0
        where = rng.choice(["before", "after", "between"])
        for o in opts:
            at = 0 if where == "before" else len(out) if where == "after" \
                else rng.randint(0, len(out))
            out.insert(at, o)
        return out

    def strategies(self, tier):
        @st.composite
        def case(draw):
            rng = random.Random(draw(st.integers(0, 1 << 30)))
            files = draw(file_sets(3, 8))
            names = draw(st.lists(st.sampled_from(sorted(files)), min_size=1,
                                  max_size=2))
            return self.two(rng, files, names)
        return [("spellings", case(), 1.0)]

    def once(self, case, argv):
        with Scratch(case["files"]) as s:
            r = Run(case["tool"], argv)
            return r.status, plain(r.out), plain(r.err), s.tree()

    def run(self, case):
        tool, calls = case["tool"], case["calls"]
        first = self.once(case, calls[0])
        for argv in calls[1:]:
            got = self.once(case, argv)
            for a, b, part in zip(got, first, (
                    "status", "output", "error stream", "files")):
                if part == "error stream" and first[0]:
                    continue        # a refusal, in whatever words
                eq(a, b, "%s of %s %s, not as with %s", part, tool,
                   " ".join(argv), " ".join(calls[0]))
        bare = self.once(case, [x for x in calls[0] if x[:1] != "-"])
        return bare != first or len(first[3]) > len(case["files"]), (tool,)


# --------------------------------------------------------------------------

def uncounted(text):
    "Definitions of a symbol listing without file and line, sorted."
    out, sym, seg, sub = [], None, None, None
    for line in text.split("\n")[:-1]:
        m = re.match(r"        <(\w+)> +(.) (.*?):(\d+) +", line)
        if line.startswith("        <"):
            check(m is not None, "odd line %r of a symbol listing", line)
            out.append((sym, seg, sub, m.group(1), m.group(2),
                        line[m.end():].strip()))
        elif line.startswith("    Subsegment: "):
            sub = line[16:]
        elif line.startswith("  Segment: "):
            seg = line[11:]
        else:
            sym = line
    return sorted(out)


class C35(Prop):
    id = "C35"
    modules = C33.modules
    examples = {"quick": 150, "thorough": 3000}
    shrink_keys = ("lines",)
    rule = ("case = the cards of a source and a layout of the same cards over "
            "nested included files with # comments in between; symbols, "
            "definitions, error counts, invalid and matching instructions, "
            "totals and frequencies must be those of the source in one piece, "
            "and listings the same but for file and line; naming several "
            "sources in another order must give the same totals and symbols; "
            "non-trivial: a definition or an instruction in an included file")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        for i in range(260 if tier == "quick" else 5000):
            n = rng.choice([1, 2, 5, 12, 30]) if i % 40 else 150
            lines = definitions(rng, n) if i % 3 == 0 else \
                [random_card(rng) for _ in range(n)]
            if i % 40 == 0:
                lines += [render(label="N%d" % k, op=rng.choice(
                    ["TX", "BA", "ASSIGN", "EQUALS"])) for k in range(120)]
                rng.shuffle(lines)
            yield self.make(rng, lines)

    def make(self, rng, lines):
        lines = [x for x in lines if x[:1] not in "#$" or not x]
        tree = self.split(rng, list(range(len(lines))), 0)
        return {"lines": lines, "seed": rng.randrange(1 << 20),
                "tree": tree}

    def split(self, rng, idx, depth):
        """A layout: a list of card numbers, "# ..." comments and included
        layouts."""
        out = []
        i = 0
        while i < len(idx):
            if rng.random() < 0.15:
                out.append(rng.choice(["#", "# comment", "#L SECT",
                                       "# Page 3", "#$x", "#       A TX"]))
            if depth < 4 and rng.random() < 0.25:
                j = i + rng.randint(0, len(idx) - i)
                out.append(self.split(rng, idx[i:j], depth + 1))
                i = j
                if depth and rng.random() < 0.5:
                    continue
            if i < len(idx):
                out.append(idx[i])
                i += 1
        return out

    def strategies(self, tier):
        @st.composite
        def case(draw):
            lines = draw(st.lists(cards(), max_size=12))
            rng = random.Random(draw(st.integers(0, 1 << 30)))
            return self.make(rng, lines)
        return [("layouts", case(), 1.0)]

    def layout(self, case):
        "{name: lines} of the laid out source, whose main file is m.arg."
        files, lines = {}, case["lines"]

        def write(name, tree):
            out = []
            for x in tree:
                if isinstance(x, int):
                    if x < len(lines):
                        out.append(lines[x])
                elif isinstance(x, str):
                    out.append(x)
                else:
                    sub = "i%d.arg" % (len(files) + 1)
                    files[sub] = []
                    write(sub, x)
                    out.append("$" + sub)
            files[name] = out
        files["m.arg"] = []
        write("m.arg", case["tree"])
        return files

    def run(self, case):
        files = self.layout(case)
        flat = {"m.arg": [c.line for c in ref_deck(files, "m.arg")]}
        rng = random.Random(case["seed"])
        other = {"o.arg": [rng.choice(case["lines"]) for _ in range(3)]
                 if case["lines"] else []}
        a = self.results(dict(files, **other), ["m.arg"], True)
        b = self.results(dict(flat, **other), ["m.arg"], True)
        for k in b:
            eq(a[k], b[k], "%s of a source laid out over %d files", k,
               len(files))
        c = self.results(dict(files, **other), ["m.arg", "o.arg"], False)
        d = self.results(dict(files, **other), ["o.arg", "m.arg"], False)
        for k in d:
            eq(c[k], d[k], "%s of two sources in another order", k)
        e = self.results(dict(flat, **other), ["o.arg", "m.arg"], False)
        for k in e:
            eq(d[k], e[k], "%s of two sources, one laid out over files", k)
        if case["seed"] % 2:        # many sources
            names = ["%s.arg" % x for x in "nopqrst"]
            more = {n: [rng.choice(case["lines"]) for _ in range(
                rng.randint(1, 4))] if case["lines"] else [] for n in names}
            mixed = rng.sample(names, len(names))
            f = self.results(more, names, False)
            g = self.results(more, mixed, False)
            for k in g:
                eq(f[k], g[k], "%s of %s, not as of %s", k, " ".join(names),
                   " ".join(mixed))
        inner = [x for f in files if f != "m.arg" for x in files[f]
                 if x[19:32].strip()]
        return bool(inner), ("%d files" % min(len(files), 4),)

    @staticmethod
    def results(files, names, ordered):
        out = {}
        keep = (lambda x: x) if ordered else sorted
        with Scratch(files):
            r = Run("list-symbols.py", names)
            out["symbol listing"] = uncounted(r.out)
            n = re.search(r"^(\d+) errors found$", r.err, re.M)
            out["symbol errors"] = int(n.group(1)) if n else 0
            r = Run("check-symbols.py", ["-c"] + names)
            out["symbol check"] = keep(
                [x for x in r.err.split("\n") if re.match(
                    r"\*\*\* ERROR|ERROR|%s|Total|\d+ errors" % "|".join(
                        re.escape(x + ": ") for x in names), x)])
            out["suggestions"] = sorted(
                x for x in r.out.split("\n") if x.strip())
            r = Run("check-instructions.py", ["-c", "-s", "-u"] + names)
            rows = r.out.split("\n")
            out["instruction check"] = keep([
                re.sub(r"^File .*?, line \d+: ", "", x)
                for x in rows if not x.startswith("#")])
            r = Run("parse.py", names)
            out["parse"] = keep([re.sub(r"^File .*?, line \d+: ", "", x)
                                 for x in r.out.split("\n")])
            for q in ("TX", "ASSIGN", "EQUALS", "BA"):
                r = Run("list-instructions.py", [q] + names)
                out["search for " + q] = keep(r.out.split("\n"))
            r = Run("find-symbols.py", ["-b", "A"] + names)
            out["symbols starting A"] = ast.literal_eval(
                r.out.strip() or "[]")
            Run("listing.py", names)
            for name in names:
                with open(name[:-4] + ".lst", encoding="utf-8",
                          newline="\n") as f:
                    out["listing of " + name] = [
                        x[72:] for x in f.read().split("\n")]
        return out
