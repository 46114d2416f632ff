"""C15-C18: punch cards and decks.

Oracle: the column layout in the documentation (pbt/argus.py), evaluated
column by column."""
import random

from hypothesis import strategies as st

from ..argus import (COLUMNS, NAMES, TEXT_ALPHA, Missing, RefCard, cards,
                     bulk_sources, lost_neighbours, chain, cut, file_sets, long_file,
                     random_card, random_files, ref_deck)
from ..core import Prop, Violation, check, dict_ints, expect_raises, mod
from ..sandbox import Captured, Scratch

STARTS = [a for a, _ in COLUMNS]


def eq(got, want, msg, *args):
    if got != want:
        raise Violation("%s: got %r, expected %r" % (
            msg % args if args else msg, got, want))


def slots(cols, width):
    ends = [c - 1 for c in cols[1:]] + [width]
    return list(zip(cols, ends))


class C15(Prop):
    id = "C15"
    modules = ("h800.punchcard", "h800.arguscard")
    examples = {"quick": 400, "thorough": 8000}
    rule = ("case = a sequence of cards, each a line of text (any length, with "
            "or without a line end), a layout (the standard one or any "
            "increasing column list with a width), field names and a line "
            "number; every view of every card is compared with a column by "
            "column split, again after all cards exist; non-trivial: some "
            "line reaches into its second field")
    exhaustive_note = ("all layouts of width <= 4 with all lines of length "
                       "<= 6 over {blank, letter}; the standard layout with "
                       "a marker in each of columns 1-125")

    def enum(self, tier, seed):
        for n in range(0, 126):
            marks = "".join(TEXT_ALPHA[(i * 7) % 95] for i in range(n))
            yield {"ops": [
                {"line": " " * (n - 1) + "X" if n else ""},
                {"line": " " * (n - 1) + "X\n" if n else "\n"},
                {"line": "X" * n}, {"line": "A" + marks},
                {"line": " " + marks + "   \n"}, {"line": "#" + marks},
                {"line": "X" * n, "argus": 1}]}
        top = 5 if tier == "quick" else 7
        for width in range(1, top):
            for bits in range(1, 1 << width):
                cols = [i + 1 for i in range(width) if bits >> i & 1]
                ops = []
                for n in range(width + 3):
                    for pat in range(1 << n) if n < 5 else (0, (1 << n) - 1,
                                                            0b10101):
                        line = "".join("abcdefgh"[i] if pat >> i & 1 else " "
                                       for i in range(n))
                        ops.append({"line": line, "width": width,
                                    "cols": cols})
                for i in range(0, len(ops), 16):
                    yield {"ops": ops[i:i + 16]}
        rng = random.Random(seed)
        for _ in range(900 if tier == "quick" else 6000):
            yield {"ops": [self.rand(rng) for _ in range(8)]}
        for w in (121, 200, 257, 300, 1000, 5000):
            for _ in range(12):
                n = rng.choice([w - 1, w, w + 1, rng.randint(1, w), 2 * w])
                cols = sorted(rng.sample(range(1, w + 1),
                                         rng.choice([1, 2, 10, 11, 26])))
                yield {"ops": [{
                    "line": " " + "".join(rng.choice("AB, ")
                                          for _ in range(n - 1)),
                    "width": w, "cols": cols, "names":
                    ["f%d" % i for i in range(len(cols))],
                    "linenum": rng.choice([1, 65536, 1234567])}]}

    def rand(self, rng):
        op = {"line": random_card(rng, 0.5) + rng.choice(["", "\n", " "])}
        if rng.random() < 0.6:
            w = rng.choice([10, 40, 72, 80, 120, 132])
            cols = sorted(rng.sample(range(1, w + 1), rng.randint(1, 10)))
            op.update(width=w, cols=cols)
            if rng.random() < 0.3:
                op["names"] = ["f%d" % i for i in range(len(cols))]
        if rng.random() < 0.5:
            op["linenum"] = rng.choice([1, 2, 10, 99999])
        if rng.random() < 0.3:
            op["argus"] = 1
            op["line"] = " " + op["line"][1:] if op["line"][:1] in "PRL" \
                else op["line"]
            op.pop("names", None)
            if "cols" in op:
                op["cols"] = sorted(rng.sample(
                    range(1, op["width"] + 1), len(NAMES)))
        return op

    def strategies(self, tier):
        line = st.one_of(
            cards(), st.text(alphabet=TEXT_ALPHA + "\t", max_size=140),
            st.text(alphabet=" A,#", max_size=30)).flatmap(
                lambda s: st.sampled_from([s, s, s + "\n", s + "  \n"]))
        width = st.one_of(st.integers(1, 140), st.deferred(
            lambda: st.sampled_from(dict_ints(1, 140))))

        def layout(w):
            return st.lists(st.integers(1, w), min_size=1,
                            max_size=min(w, 10), unique=True).map(
                lambda c: {"width": w, "cols": sorted(c)})
        lay = st.one_of(st.just({}), width.flatmap(layout))
        one = st.builds(
            lambda s, d, n, names: {"line": s, **d, "linenum": n, **(
                {"names": ["n%d" % i for i in range(len(d["cols"]))]}
                if names and d else {})},
            line, lay, st.sampled_from([0, 0, 1, 2, 500]), st.booleans())
        return [("cards", st.fixed_dictionaries({
            "ops": st.lists(one, min_size=1, max_size=6)}), 1.0)]

    def run(self, case):
        made = []
        nontrivial = False
        for op in case["ops"]:
            line, cols = op["line"], op.get("cols")
            width = op.get("width", 120)
            names = op.get("names")
            kw = {}
            if cols:
                kw.update(fields=list(cols), width=width)
            if names:
                kw["fieldnames"] = list(names)
            if op.get("linenum"):
                kw["linenum"] = op["linenum"]
            if op.get("argus"):
                a, b = slots(cols or STARTS, width)[0]
                if {line[:1], cut(line, a, b).strip()} & set("PRL"):
                    continue        # a heading card, see C16
                card = mod("h800.arguscard").Card(line, **kw)
            else:
                card = mod("h800.punchcard").PunchCard(line, filename="f.arg",
                                                       **kw)
                eq(card.filename, "f.arg", "file name")
            if cols:
                eq(kw["fields"], cols, "the caller's layout afterwards")
            made.append((op, card))
            self.compare(op, card)
            cols = cols or STARTS
            nontrivial = nontrivial or len(cols) > 1 and \
                len(line.rstrip()) >= cols[1]
        for op, card in made:
            self.compare(op, card)
        return nontrivial, ("sequence",)

    @staticmethod
    def compare(op, card):
        line = op["line"].replace("\n", "")
        cols = op.get("cols") or STARTS
        width = op.get("width", 120)
        names = op.get("names") or NAMES
        eq(card.line, line, "text of card %r", op)
        eq(str(card), line, "card %r as text", op)
        eq(card.linenum, op.get("linenum", 0), "line number of %r", op)
        rec = dict(card.record)
        num = rec.pop("linenum", None)
        if op.get("argus"):
            rec.pop("instruction", None)
        if line.startswith("#"):
            check(card.isComment, "%r is no comment", op)
            eq(card.comment, line, "comment text of %r", op)
            check(not any(x for x in card.strippedFields),
                  "comment card %r has fields %r", op, card.strippedFields)
            check(not any(rec.values()), "comment card %r has %r", op, rec)
            return
        check(not card.isComment and card.comment is None,
              "%r is a comment", op)
        eq(num, op.get("linenum") or None, "recorded line number of %r", op)
        want = [cut(line, a, b) for a, b in slots(cols, width)]
        eq(list(card.fields), want, "fields of %r", op)
        eq("".join(card.fields), cut(line, cols[0], width),
           "all fields of %r together", op)
        eq([tuple(x) for x in card.layout],
           [(a, b - a + 1) for a, b in slots(cols, width)],
           "layout of %r", op)
        bare = [w.strip() or None for w in want]
        eq(list(card.strippedFields), bare, "stripped fields of %r", op)
        eq(rec, dict(zip(names, bare)), "record of %r", op)


# --------------------------------------------------------------------------

ATTRS = {"column1": "column1", "lognum": "lognum", "column8": "column8",
         "label": "label", "location": "label", "operation": "operation",
         "operand1": "operand1", "addressa": "operand1",
         "operand2": "operand2", "addressb": "operand2",
         "operand3": "operand3", "addressc": "operand3", "sequence": "misc",
         "remarks": "remarks", "instruction": "instruction"}


def compare_card(card, ref, what=""):
    for attr, name in ATTRS.items():
        got, want = getattr(card, attr), getattr(ref, name)
        if name == "remarks" and not got and not want:
            continue
        eq(got, want, "%s of card %r%s", attr, ref.line, what)
    for name in NAMES + ["instruction"]:
        got, want = card.record[name], getattr(ref, name)
        if name == "remarks" and not got and not want:
            continue
        eq(got, want, "recorded %s of card %r%s", name, ref.line, what)
    eq(card.line, ref.line, "text of card %r", ref.line)


class C16(Prop):
    id = "C16"
    modules = ("h800.arguscard",)
    examples = {"quick": 500, "thorough": 10000}
    rule = ("case = a sequence of ARGUS cards up to 120 columns: instruction, "
            "definition, heading (P, R, L), blank, free-text and meta-comment "
            "cards; every named part, its aliases and the instruction name "
            "are compared with the documented columns, again once all cards "
            "exist; non-trivial: some card has an operation, a comma in it, "
            "or is a heading")
    exhaustive_note = ("for each column 1-120 and each of the card types "
                       "blank, P, R, L, M and #: one mark there")

    def enum(self, tier, seed):
        for n in range(1, 121):
            yield {"ops": [(t + " " * 120)[:n - 1] + x + tail
                           for t in " PRLM#" for x in "X, P"
                           for tail in ("", " ", "Z")
                           if n + len(tail) <= 120]}
        rng = random.Random(seed)
        for _ in range(1500 if tier == "quick" else 10000):
            yield {"ops": [random_card(rng, 0.3)[:120] for _ in range(10)]}

    def strategies(self, tier):
        line = st.one_of(cards(), cards().map(lambda s: "R" + s[1:]),
                         st.tuples(st.sampled_from("PRL R#MSXp"), st.text(
                             alphabet=" ,ABTX*", max_size=119)).map("".join))
        return [("cards", st.fixed_dictionaries({"ops": st.lists(
            line.map(lambda s: s[:120]), min_size=1, max_size=8)}), 1.0)]

    def run(self, case):
        A = mod("h800.arguscard")
        made = []
        nontrivial = False
        for line in case["ops"]:
            card, ref = A.Card(line), RefCard(line)
            compare_card(card, ref)
            made.append((card, ref))
            nontrivial = nontrivial or bool(ref.operation) or \
                ref.column1 in ("P", "R", "L")
        for card, ref in made:
            compare_card(card, ref, " looked at again")
        return nontrivial, ("sequence",)


# --------------------------------------------------------------------------

def ref_log_section(refs):
    for r in refs:
        if r.column1 == "L":
            return ({r.line[8:80].strip(), r.line[8:81].strip()}, r.column8)
    return ({None}, None)


def compare_deck(deck, refs, where=True):
    eq([c.line for c in deck.cards], [r.line for r in refs],
       "the lines of the deck's cards")
    if where:
        eq([(c.filename, c.linenum) for c in deck.cards],
           [(r.filename, r.linenum) for r in refs], "where the cards are from")
    n = len(refs)
    eq([len(deck.fields), len(deck.strippedFields), len(deck.records)],
       [n, n, n], "length of the deck's lists")
    for i, c in enumerate(deck.cards):
        eq((list(deck.fields[i]), list(deck.strippedFields[i])),
           (list(c.fields), list(c.strippedFields)), "fields of card %d", i)
        eq(dict(deck.records[i]), dict(c.record), "record of card %d", i)
    eq(str(deck), "\n".join(r.line for r in refs), "the deck as text")


class C17(Prop):
    id = "C17"
    modules = ("h800.arguscard", "h800.punchcard")
    examples = {"quick": 400, "thorough": 8000}
    rule = ("case = lines of a source (cards, headings, meta-comments, blank "
            "lines, with or without line ends) and optionally a layout; the "
            "deck must hold one card per line that is no meta-comment, in "
            "order, numbered from 1, with aligned views, and name the first "
            "log section; non-trivial: at least two cards and a meta-comment "
            "or a log section")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        yield {"lines": []}
        yield {"lines": None}
        for n in (99, 100, 101, 999, 1001, 10050):
            yield {"lines": long_file(n)}
        for _ in range(1800 if tier == "quick" else 12000):
            lines = []
            for _ in range(rng.choice([0, 1, 2, 5, 20, 60])):
                s = random_card(rng, 0.2)
                if rng.random() < 0.1:
                    s = "#" + s[1:]
                elif rng.random() < 0.05:
                    s = "L" + s[1:]
                elif rng.random() < 0.05:   # no directive outside a file
                    s = "$" + rng.choice(["b.arg", "", s[1:], " X"])
                lines.append(s[:120] + rng.choice(["", "\n"]))
            if lines and rng.random() < 0.1:    # mostly repeated lines
                lines = [rng.choice(lines[:6]) for _ in range(
                    rng.choice([10, 50, 150]))]
            case = {"lines": lines, "verbose": rng.random() < 0.2}
            if rng.random() < 0.3:
                w = rng.choice([30, 80, 120])
                case.update(width=w, cols=sorted(rng.sample(
                    range(1, w + 1), rng.choice([10, rng.randint(1, 10)]))))
            yield case

    def strategies(self, tier):
        line = st.one_of(cards(), cards(), cards().map(lambda s: "#" + s),
                         cards().map(lambda s: "L" + s[1:])).flatmap(
            lambda s: st.sampled_from([s[:120], s[:120] + "\n"]))
        lay = st.one_of(st.none(), st.lists(st.integers(1, 80), min_size=1,
                                            max_size=10, unique=True))

        def make(lines, cols, verbose):
            case = {"lines": lines, "verbose": verbose}
            if cols:
                case.update(width=80, cols=sorted(cols))
            return case
        return [("lines", st.builds(make, st.lists(line, max_size=12), lay,
                                    st.booleans()), 1.0)]

    shrink_keys = ("lines",)

    def run(self, case):
        P, A = mod("h800.punchcard"), mod("h800.arguscard")
        if case["lines"] is None:
            for cls in (P.Deck, A.Deck):
                expect_raises(SystemExit, cls, "a deck made from nothing")
            return False, ("nothing",)
        lines = list(case["lines"])
        bare = [x.replace("\n", "") for x in lines]
        refs = [RefCard(x, None, i + 1) for i, x in enumerate(bare)
                if not x.startswith("#")]
        kw = {"verbose": True} if case.get("verbose") else {}
        cols = case.get("cols")
        if cols:
            d = P.Deck(lines, width=case["width"], fields=list(cols), **kw)
            compare_deck(d, refs)
            for c, r in zip(d.cards, refs):
                eq(list(c.fields), [cut(r.line, a, b) for a, b in
                                    slots(cols, case["width"])],
                   "fields of %r by layout %r", r.line, cols)
            if len(cols) == len(NAMES):
                d = A.Deck(lines=lines, width=case["width"],
                           fields=list(cols), **kw)
                compare_deck(d, refs)
                for c, r in zip(d.cards, refs):
                    eq(list(c.fields), [cut(r.line, a, b) for a, b in
                                        slots(cols, case["width"])],
                       "ARGUS fields of %r by layout %r", r.line, cols)
        else:
            d = P.Deck(lines, **kw)
            compare_deck(d, refs)
            for c, r in zip(d.cards, refs):
                eq(list(c.fields), r.fields, "fields of %r", r.line)
                eq(c.record.get("linenum"), r.linenum, "record line number")
            d = A.Deck(lines=lines, **kw)
            compare_deck(d, refs)
            for c, r in zip(d.cards, refs):
                compare_card(c, r)
            want, col8 = ref_log_section(refs)
            check(d.log_section in want, "log section %r, expected %r",
                  d.log_section, sorted(want, key=str))
            eq(d.log_section_col8, col8, "column 8 of the log section")
        eq(lines, case["lines"], "the caller's lines afterwards")
        return (len(refs) > 1 and (len(refs) < len(lines) or
                                   any(r.column1 == "L" for r in refs)),
                ("layout" if cols else "standard",))


# --------------------------------------------------------------------------

class C18(Prop):
    id = "C18"
    modules = ("h800.arguscard", "h800.punchcard")
    examples = {"quick": 250, "thorough": 5000}
    shrink_keys = ("files",)
    rule = ("case = a set of source files that include one another (nested, "
            "repeated, empty, without final line end, in sub-directories, "
            "some missing); the deck of each file must be the flattened "
            "sequence of cards, each with the file and line it came from, and "
            "a missing file ends the run; non-trivial: an include directive "
            "brings in a card")

    def enum(self, tier, seed):
        rng = random.Random(seed)
        yield {"files": {"a.arg": ["$b.arg", " X", "$b.arg"], "b.arg": []}}
        for n in (2, 5, 20, 60):
            yield {"files": chain(n)}
        for n in (100, 1001, 10050):
            yield {"files": {"a.arg": long_file(n)}}
        yield {"files": {"a.arg": ["#"] * 65537 + long_file(3)}}
        for c in list(bulk_sources()) + list(lost_neighbours()):
            yield {"files": c["files"]}
        for _ in range(500 if tier == "quick" else 5000):
            yield {"files": random_files(rng, missing=rng.random() < 0.2),
                   "newline": rng.random() < 0.7,
                   "verbose": rng.random() < 0.1,
                   "cols": sorted(rng.sample(range(1, 81),
                                             rng.randint(1, 10))),
                   "eol": rng.choice(["\n", "\n", "\r\n"])}

    def strategies(self, tier):
        return [("files", st.fixed_dictionaries({
            "files": file_sets(4, 6, missing=False),
            "newline": st.booleans()}), 0.8),
            ("missing", st.fixed_dictionaries({
                "files": file_sets(3, 5, missing=True),
                "newline": st.booleans()}), 0.2)]

    def read_all(self, s, files, case, labels):
        P, A = mod("h800.punchcard"), mod("h800.arguscard")
        kw = {"verbose": True} if case.get("verbose") else {}
        included = False
        before = s.tree()
        for name in list(files) + ["gone.arg"]:
            try:
                refs = ref_deck(files, name)
            except Missing:
                refs = None
            for cls in (P.Deck, A.Deck):
                with Captured():
                    if refs is None:
                        e = expect_raises((SystemExit, OSError),
                                          lambda: cls(file=name, **kw),
                                          "deck of %s with a missing file"
                                          % name)
                        check(getattr(e, "code", 1) not in (None, 0),
                              "missing file: exit status %r", e)
                        labels.add("missing")
                        continue
                    d = cls(file=name, **kw)
                compare_deck(d, refs)
                eq(list(d.lines), [r.line for r in refs], "lines")
                for c, r in zip(d.cards, refs):
                    if cls is A.Deck:
                        compare_card(c, r)
                    else:
                        eq(list(c.fields), r.fields, "fields")
                included = included or any(r.filename != name
                                           for r in refs)
                if cls is P.Deck and case.get("cols"):
                    with Captured():
                        d = cls(file=name, width=80,
                                fields=list(case["cols"]), **kw)
                    compare_deck(d, refs)
                    for c, r in zip(d.cards, refs):
                        eq(list(c.fields), [cut(r.line, a, b) for a, b in
                                            slots(case["cols"], 80)],
                           "fields by layout %r", case["cols"])
            if refs is not None:
                want, col8 = ref_log_section(refs)
                check(d.log_section in want, "log section %r, not %r",
                      d.log_section, want)
                eq(d.log_section_col8, col8, "column 8 of log section")
        eq(s.tree(), before, "the source files afterwards")
        return included

    def run(self, case):
        files = case["files"]
        labels = set()
        with Scratch(files, case.get("newline", True),
                     case.get("eol", "\n")) as s:
            included = self.read_all(s, files, case, labels)
            # a second reading sees the files as they are then
            files = {n: [" NEW"] + x[:-1] for n, x in files.items()}
            for n, x in files.items():
                s.write(n, x)
            self.read_all(s, files, case, labels)
        if included:
            labels.add("include")
        return included, sorted(labels)
