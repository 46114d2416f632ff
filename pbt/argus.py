"""Reference model of ARGUS source (cards, decks, symbol definitions) and the
generators of sources.  Written from the card layout in the documentation;
shares no code with the code under test."""
import os
import re

from hypothesis import strategies as st

from .core import dictionary

NAMES = ["column1", "lognum", "column8", "label", "operation", "operand1",
         "operand2", "operand3", "misc", "remarks"]
# first and last column of each field, 1-based, inclusive
COLUMNS = [(1, 1), (2, 7), (8, 8), (9, 19), (20, 32), (33, 46), (47, 60),
           (61, 75), (76, 80), (81, 120)]


def cut(line, first, last):
    return "".join(line[i] for i in range(first - 1, min(last, len(line))))


class RefCard:
    "What a card of the standard layout means."

    def __init__(self, line, filename=None, linenum=0):
        self.line, self.filename, self.linenum = line, filename, linenum
        self.fields = [cut(line, a, b) for a, b in COLUMNS]
        vals = [f.strip() or None for f in self.fields]
        self.stripped = list(vals)
        if line.startswith("#"):
            vals = [None] * len(vals)
        elif vals[0] in ("P", "R", "L"):
            vals[3:] = [None] * 6 + [line[8:].strip() or None]
        for n, v in zip(NAMES, vals):
            setattr(self, n, v)
        self.instruction = None
        if self.operation:
            self.instruction = self.operation.partition(",")[0].strip()

    @property
    def skipped(self):
        return self.column8 == "*"


class Missing(Exception):
    def __init__(self, name):
        super().__init__(name)
        self.name = name


def text_of(files, name):
    "The lines of the file that a path names, or None."
    return files.get(name, files.get(os.path.normpath(name)))


def ref_deck(files, name):
    """Cards of a source file: meta-comments dropped, $ directives replaced
    by the cards of the named file.  files: {name: [line, ...]}."""
    lines = text_of(files, name)
    if lines is None:
        raise Missing(name)
    cards = []
    for i, line in enumerate(lines):
        if line.startswith("#"):
            continue
        if line.startswith("$"):
            cards += ref_deck(files, line[1:].split()[0])
        else:
            cards.append(RefCard(line, name, i + 1))
    return cards


class RefSymbols:
    """Symbol definitions of a list of sources.

    table: (symbol, segment, subsegment, kind) -> (card, tag)
    errors: [(label or symbol, reason, file, line)]"""

    def __init__(self):
        self.table = {}
        self.errors = []

    def read(self, files, name):
        before = len(self.errors)
        seg = os.path.splitext(name)[0]
        subseg = "1"
        for card in ref_deck(files, name):
            if card.skipped:
                continue
            op = card.operation
            if op and op.startswith("SETLOC"):
                subseg = op.split(",")[1].strip() if "," in op else "0"
            if card.label:
                self.define(card, seg, subseg)
        return len(self.errors) - before

    def define(self, card, seg, subseg):
        label = card.label.replace(" ", "")

        def err(why, what=label):
            self.errors.append((what, why, card.filename, card.linenum))
        tag, name = " ", label
        if label != label.upper():
            return err("case")
        if "," in label:
            parts = label.split(",")
            if len(parts) > 2:
                return err("commas")
            tag, name = parts
            if tag not in ("B", "F", "L", "S", "X", "Z"):
                return err("prefix")
            if tag in ("L", "X"):
                return err("unsupported")
        if card.operation is None:
            return err("no operation")
        kind = "complex" if card.operation == "ASSIGN" else "simple"
        key = (name, seg, subseg, kind)
        if key in self.table:
            old = self.table[key][0]
            if card.operation == old.operation == "EQUALS" and \
                    (card.operand1, card.operand2, card.operand3) == \
                    (old.operand1, old.operand2, old.operand3):
                return
            return err("multiple", name)
        self.table[key] = (card, tag)

    def nested(self):
        out = {}
        for (name, seg, sub, kind), (card, tag) in self.table.items():
            out.setdefault(name, {}).setdefault(seg, {}).setdefault(
                sub, {})[kind] = (card.filename, card.linenum, card.lognum,
                                  tag, card.line)
        return out

    def kinds(self, name):
        return {k[3] for k in self.table if k[0] == name}

    def names(self):
        return sorted({k[0] for k in self.table})

    def absolute(self):
        return sorted({k[0] for k in self.table if k[3] == "simple"})

    def complex_only(self):
        return [n for n in self.names() if self.kinds(n) == {"complex"}]


MESSAGES = {
    "case": r"is ill-formed \(case\)", "commas": r"is illegal, too many",
    "prefix": r"is ill-formed \(tag prefix\)",
    "unsupported": r"has unsupported tag prefix",
    "no operation": r"has no operation", "multiple": r"is multiply-defined",
}


def reported(stderr):
    "[(symbol, reason)] of the error reports in a diagnostic stream."
    out = []
    for line in stderr.split("\n"):
        m = re.match(r"\*\*\* ERROR: Symbol ([^ ]*) (.*)", line)
        if m:
            why = [k for k, v in MESSAGES.items() if re.match(v, m.group(2))]
            out.append((m.group(1), why[0] if why else m.group(2)))
    return out


# --------------------------------------------------------------------------
# Generators

def render(col1=" ", lognum="", col8=" ", label="", op="", a="", b="", c="",
           misc="", remarks=""):
    parts = [col1, lognum, col8, label, op, a, b, c, misc, remarks]
    out = ""
    for (first, last), p in zip(COLUMNS, parts):
        w = last - first + 1
        out += p[:w].ljust(w)
    return out.rstrip()


LABELS = ["A", "B", "AB", "A1", "B1", "LOOP", "LOOP1", "LOOPEND", "X9", "Z",
          "TAB.1", "END", "START", "A B", "LO OP", "M1", "F", "10", "-", "*",
          "010", "007", "0", "A B C D E", "L  O  O  P", "Q1", "12345678",
          "HOLD", "WORK", "P.9", "V-1", "UTR", "GO", "KEY", "NEXT"]
TAGGED = ["B,A", "F,A", "S,A", "Z,A", "B,M1", "F,M1", "Z,X9", "S , AB",
          "B, LOOP", "Z,LOOP", "B , A B C D", "Z,05", "Z,5", "B,00", "F,010"]
BAD_LABELS = ["a", "Loop", "aB", "A,B,C", "B,A,", "Q,A", ",A", "BB,A",
              "L,A", "X,A", "L,LOOP", "b,A", "B,a", "X,M1", "Z,A,B", "1,A",
              "CAF\u00e9", "B,\u00e9", "LOOPl"]
OPS = ["TX", "TX,M1", "TX, M1", "BA", "DA,M1", "PR", "S", "RESERVE", "SPEC",
       "CAC", "OCT", "ALF", "TX,M1,A", "BA,M1,", "HA,B2", "TN", "TS", "WA",
       "MASKBASE", "END"]
BAD_OPS = ["XYZZY", "tx", "T", "TXX", "Q,M1", "TX M1", "BAD,", "ASSIGNS",
           ",TX", "NOP"]
LOCS = ["SETLOC", "SETLOC,2", "SETLOC, 2", "SETLOC,1", "SETLOC ,3",
        "SETLOC,SUB", "SETLOC,0", "SETLOC,2,3", "SETLOC,10", "SETLOC,9",
        "SETLOC,100", "SETLOC,ABCDE", "SETLOC, B", "SETLOC,b",
        "SETLOC,02", "SETLOC,00", "SETLOC,A.B", "SETLOC,2.", "SETLOC,-1",
        "SETLOC,A B", "SETLOC,+2", "SETLOC,(3)"]
OPERANDS = ["", "", "A", "B", "1", "LOOP", "C,A", "-", "X,5", "N,(8,3)",
            "=7", "A+1", "0", "a", "A,", "00"]
TAILS = ["", " ", "   ", "\t", "Z" * 30, " THE REST", "\u00e9", "\u00bd  ",
         "A\tB", "," * 100, "A\x0cB", "A\x0b\x1cB", "X\u2028Y\x85Z"]
TEXTS = ["", "", "REMARK", "SET UP  THE LOOP", "* NOTE", "#1", "LAST", "$X"]
TEXT_ALPHA = "".join(chr(i) for i in range(32, 127))


LABEL_ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def random_label(rng):
    n = rng.choice([1, 2, 3, 5, 8, 10, 11])
    s = "".join(rng.choice(LABEL_ALPHA) for _ in range(n))
    if n > 3 and rng.random() < 0.3:
        i = rng.randrange(1, n - 1)
        s = s[:i] + rng.choice(".-+/' ") + s[i + 1:]
    if rng.random() < 0.25:
        s = (rng.choice("BFSZBFSZLXQ") + "," + s)[:11].rstrip()
    return s


def random_op(rng):
    from .props.instr import ALL_INSTRUCTIONS
    op = rng.choice(ALL_INSTRUCTIONS)
    if op in ("SETLOC", "ASSIGN", "EQUALS"):
        return op
    k = rng.random()
    if k < 0.4:
        op += rng.choice([",", ", ", " ,"]) + rng.choice(
            ["M1", "M", "MASK", "B2", "1", "X"])
    return op[:13]


def tail(line, text, at=80):
    "The line with text from the given column on."
    return line.ljust(at) + text if text and line else line


def random_card(rng, wild=0.1):
    line = plain_card(rng, wild)
    if rng.random() < 0.1 and not line.startswith("L"):
        return tail(line, rng.choice(TAILS), rng.choice([80, 110, 120, 130]))
    return line


def dict_str(rng):
    "A string literal of the code under test."
    words = dictionary()[1]
    return rng.choice(words) if words else "A"


def plain_card(rng, wild):
    r = rng.random()
    if r < 0.07:
        return rng.choice("PRL") + rng.choice(["", "1"]).ljust(6) + \
            rng.choice(" *@+") + rng.choice(
                ["", " HEADING", "A        TX           B", "SECTION 1",
                 "C" * 112, "X", "  INDENTED   TEXT", "LOOP,A,B"])
    if r < 0.11:
        return rng.choice(["", " ", "   ", "#", "# comment", "#A TX",
                           "# Page 1", "# Pages: 1-20", "# Filename: b.arg",
                           "# Page", "#L", "#P", "#R HEADING",
                           "##", "#\t", "#\tTX", "# A\x0c#B", "#$b.arg", "#*",
                           "# ", "#" + "A" * 130,
                           "       #", " # not a comment", "        A",
                           " $b.arg", "       $b.arg", "\t$b.arg",
                           "\t# X", "\x0c#",
                           "        $B       TX", " #$b.arg", "R$b.arg"])
    if r < 0.11 + wild:
        n = rng.choice([0, 1, 7, 8, 9, 19, 20, 32, 33, 60, 75, 76, 80, 81,
                        119, 120, rng.randrange(121)])
        s = "".join(rng.choice(TEXT_ALPHA if rng.random() < 0.5
                               else " ABC,") for _ in range(n))
        return s if not s.startswith("$") else " " + s[1:]
    k = rng.random()
    label = "" if k < 0.22 else dict_str(rng) if k < 0.25 else \
        random_label(rng) if k < 0.35 else rng.choice(
        LABELS if k < 0.65 else TAGGED if k < 0.85 else BAD_LABELS)
    k = rng.random()
    op = "" if k < 0.07 else dict_str(rng) if k < 0.1 else \
        random_op(rng) if k > 0.8 else rng.choice(
        ["ASSIGN"] if k < 0.25 else ["EQUALS"] if k < 0.38 else
        ["EQUALS", "EQUALS,M1", "ASSIGN,M1", "EQUALS ,A"] if k < 0.40 else
        LOCS if k < 0.50 else BAD_OPS if k < 0.60 else OPS)
    return render(
        rng.choice("    RR1C-*Ap8") if rng.random() < 0.2 else " ",
        rng.choice(["", "", "0010", "000123", "12"]),
        rng.choice("    *@+-"),
        rng.choice(["", " "]) + label if rng.random() < 0.2 else label,
        rng.choice(["", " "]) + op if rng.random() < 0.2 else op,
        rng.choice(OPERANDS), rng.choice(OPERANDS), rng.choice(OPERANDS),
        rng.choice(["", "", "", "5", "00010"]), rng.choice(TEXTS))


def cards():
    "Strategy: one line of source (never a $ directive)."
    pick = st.sampled_from

    def pad(s):
        return st.one_of(s, s, s.map(lambda x: " " + x))
    full = st.builds(
        render, pick("         RPL1C-*pr"), pick(["", "", "0010", "000123"]),
        pick("    *@+"), pad(pick(["", ""] + LABELS + TAGGED + BAD_LABELS)),
        pad(pick(["", "ASSIGN", "ASSIGN", "EQUALS", "EQUALS"] + LOCS + OPS +
                 BAD_OPS)),
        pick(OPERANDS), pick(OPERANDS), pick(OPERANDS),
        pick(["", "", "5", "00010"]), pick(TEXTS))
    label = st.text(alphabet=LABEL_ALPHA, min_size=1, max_size=11)
    own = st.builds(
        render, pick(" "), st.text(alphabet="0123456789", max_size=6),
        pick("   *"), st.one_of(label, label.map(lambda s: "Z," + s[:9])),
        pick(["ASSIGN", "EQUALS", "TX", "SETLOC,2"]), label, label)
    defs = st.builds(
        render, pick(" "), pick(["", "0010"]), pick("   *"),
        pick(["A", "B", "B,A", "Z,A", "LOOP", "A B", "AB"]),
        pick(["ASSIGN", "EQUALS", "EQUALS", "TX", "RESERVE", "SETLOC",
              "SETLOC,2"]),
        pick(["", "A", "B"]), pick(["", "B"]), pick(["", "C"]))
    free = st.text(alphabet=TEXT_ALPHA, max_size=120).filter(
        lambda s: not s.startswith("$"))
    words = st.deferred(lambda: pick(dictionary()[1] or ["A"]))
    words = st.builds(
        render, pick("   L"), pick(["", "12"]), pick("   *"),
        st.one_of(pick(["A", "", "B,A"]), words),
        st.one_of(pick(["TX", "ASSIGN", "EQUALS"]), words),
        st.one_of(pick(["", "A"]), words), pick(["", "B"]), pick(["", "C"]))
    odd = st.builds(tail, full.filter(lambda s: s[:1] != "L"), pick(TAILS),
                    pick([80, 120]))
    return st.one_of(defs, full, full, free, own, odd, words)


FILES = ["a.arg", "b.arg", "a.b.arg", "noext", "sub/a.arg", "sub/c.argus",
         "x.y/z", "a.txt", "A.ARG", "SUB/B-1_2.Arg", "10", "b.arg.arg",
         "Sub.dir/sub+x/D.d", ".dot", "B.arg",
         "a-file-with-a-name-of-more-than-forty-columns.argus",
         "sub/" + "long" * 16 + ".arg", "two words.arg", "sub dir/a  b.arg",
         "lib.arg/m.arg", "caf\u00e9.arg", "n#1.arg", "$d.arg",
         "../up.arg", "../up.d/a.arg", "/@@/root.arg", "/@@/d.e/noext",
         "~/t.arg", "$HOME/t.arg", "ln-1.arg", "sub/ln-2.arg", "A", "TX"]


def near_names(names):
    """Names that are nearly, but not, the name of one of the files."""
    out = ["gone.arg"]
    for n in names:
        stem = n[:n.rfind(".")] if "." in n[1:] else n + ".x"
        out += [n + c for c in ",;:.'\"0"] + [
            n[1:], n[:-1], n + ".arg", stem, stem + ".arg", n.swapcase(),
            n.upper(), n.lower(), "x/" + n, n.split("/")[-1], "$" + n]
    return sorted({n for n in out if n and n.strip("./") and
                   not any(c in n for c in " #") and n[0] not in "/-" and
                   n[-1] != "/" and n not in names})


def random_files(rng, nfiles=None, missing=False, ncards=(0, 14)):
    """{name: lines}; a file only includes files before it (no cycles)."""
    names = rng.sample(FILES, nfiles or rng.choice([1, 2, 3, 4, 4, 7]))
    files = {}
    for i, name in enumerate(names):
        lines = [random_card(rng) for _ in range(rng.randint(*ncards))]
        targets = [n for n in names[:i] if " " not in n]
        if missing and rng.random() < 0.3:
            targets.append(rng.choice(["gone.arg"] + near_names(names)))
        if targets:
            for _ in range(rng.choice([0, 1, 1, 2])):
                where = rng.choice(targets)
                lines.insert(rng.randint(0, len(lines)), rng.choice(
                    ["$%s", "$%s", "$ %s", "$%s  THE REST", "$%s\tX", "$\t%s",
                     "$%s #", "$   %s "] + ["$./%s", "$.//./%s"] *
                    (where[0] != "/")) % where)
        if lines and rng.random() < 0.03:
            lines[0] = "\ufeff" + lines[0]
        files[name] = lines
    return files


def chain(n, cards_each=1):
    "Files f0..f(n-1), each including the next between two cards."
    files = {}
    for i in range(n):
        lines = [render(label="A%d" % i, op="TX")] * cards_each
        if i + 1 < n:
            lines.append("$f%d.arg" % (i + 1))
        files["f%d.arg" % i] = lines + [render(label="B%d" % i, op="ASSIGN")]
    return files


def lost_neighbours():
    "Directives that name a file from the directory of the source."
    x = [" X"]
    for src, inc, other in (
            ("sub/a.arg", "b.arg", "sub/b.arg"), ("sub/a.arg", "b", "b.arg"),
            ("d/e/a.arg", "e/b.arg", "d/e/b.arg"), ("a.arg", "b", "b.arg"),
            ("../a.arg", "b.arg", "../b.arg"), ("a.arg", "b.arg", "B.arg"),
            ("/@@/a.arg", "b.arg", "/@@/b.arg"), ("a.arg", "b.lst", "b.arg"),
            ("d/a.arg", "../b.arg", "b.arg"), ("a.arg", "b.arg", "d/b.arg")):
        yield {"files": {other: x, "m.arg": ["$" + src], src: x + [
            "$" + inc] + x}, "args": ["m.arg", src]}
    yield {"files": {"b.arg": [" TOP"], "d/b.arg": [" D"], "d/a.arg": [
        "$b.arg", "$d/b.arg"], "d/d/b.arg": [" DD"], "m.arg": [
            "$d/a.arg"], "../b.arg": [" UP"]}, "args": ["m.arg", "d/a.arg"]}


def long_file(n):
    return [render(lognum="%06d" % i, label="L%d" % i if i % 3 else "",
                   op=OPS[i % len(OPS)] if i % 7 else "ASSIGN",
                   a="A%d" % (i % 10)) for i in range(n)]


def bulk_sources():
    "Sources larger, in one way each, than the random ones."
    names = ["m%02d.arg" % i for i in range(70)]
    yield {"files": {n: [
        render(label="A", op="ASSIGN" if i < 30 else "TX", a=str(i)),
        render(label="C", op="ASSIGN"), render(op="TX,M1"),
        render(label="S%d" % i, op=OPS[i % len(OPS)]),
        render(label="S%d" % i if i % 7 else "s", op="BA"),
        render(op="NOSUCH%d" % (i % 5))] for i, n in enumerate(names)},
        "args": names + names[5:8] + names[:1]}
    yield {"files": {"a.arg": [
        render(label="L%d" % (i - i // 1300 * 200),
               op="TX" if i else "ASSIGN")
        for i in range(1500)]}, "args": ["a.arg"]}
    yield {"files": {"a.arg": [x for i in range(70) for x in (
        render(op="SETLOC,%d" % (i % 45)), render(label="A", op="TX"),
        render(label="B" if i else "D", op="ASSIGN"))]}, "args": ["a.arg"]}
    yield {"files": {"a.arg": ["$b.arg", " X"] * 150, "b.arg": [
        render(label="A", op="TX"), render(op="XYZZY")]}, "args": ["a.arg"]}
    yield {"files": {"a.arg": [render(op="TX")] * 400 + [
        render(op="XYZZY", label="a")] * 150 + [render(op="TX,M1")] * 101 +
        [render(op="BA")] * 150 + [render(op="WA")] * 300 +
        [render(op="DA")] * 220},
        "args": ["a.arg", "a.arg"]}
    yield {"files": {"a.arg": [
        render(label="W%d" % n, op="TX").ljust(80) + "Z" * n
        for n in (60, 175, 176, 177, 300, 1000, 5000)]}, "args": ["a.arg"]}
    yield {"files": {"a.arg": ["#"] * 65540 + [
        render(label="A", op="TX"), render(label="A", op="XYZZY"),
        render(label="B", op="ASSIGN")]}, "args": ["a.arg"]}
    yield {"files": {"a.arg": [render(op="TX")] * 9000 + [
        render(op="XYZZY", label="a")] * 1100 + [
        render(op="TX,M1"), "$b.arg", render(op="BA")],
        "b.arg": [render(op="BA"), render(op="NOSUCH", label="B")]},
        "args": ["a.arg"]}
    deep = "/".join(c * 90 for c in "def") + ".arg"
    yield {"files": {deep: [render(label="A", op="XYZZY"), render(
        label="A", op="TX"), render(label="B", op="ASSIGN")],
        "a.arg": ["$" + deep]}, "args": ["a.arg", deep]}


@st.composite
def file_sets(draw, max_files=3, max_cards=8, missing=False):
    names = draw(st.lists(st.sampled_from(FILES), min_size=1,
                          max_size=max_files, unique=True))
    files = {}
    for i, name in enumerate(names):
        one = cards()
        targets = [n for n in names[:i] if " " not in n] + (
            near_names(names) if missing else [])
        if targets:
            one = st.one_of(one, one, one, st.tuples(
                st.sampled_from(["$%s", "$ %s", "$%s X", "$%s\t1", "$./%s"]),
                st.sampled_from(targets)).map(
                    lambda t: t[0] % t[1]).map(
                        lambda x: x.replace("./" + "/@@/", "/@@/")))
        files[name] = draw(st.lists(one, max_size=max_cards))
    return files
