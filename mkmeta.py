#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json

B, W, R, M = ("h800/bitfield.py", "h800/word.py", "h800/registers.py",
              "h800/memory.py")
I, N, P, A, S = ("h800/instruction.py", "h800/instructions.py",
                 "h800/punchcard.py", "h800/arguscard.py",
                 "h800/symbol_table.py")
T = "tools/"

PROPS = [
 ("C01", "Bit-fields read any bit or range by its documented number",
  "For every bit-field width from 1 to 64, every numbering scheme and bit "
  "order, and every value the field can hold, reading any bit or any "
  "inclusive range returns exactly the bits of that value at those positions. "
  "The integer, binary-text, length, width, maximum, bit-number, lowest- and "
  "highest-bit views always agree with the value and the scheme, and reading "
  "changes nothing.",
  ["inputs", "configurations"],
  "all widths 1..64, 4 numberings, 2 orders, all values, all bits and ranges",
  "The tests read a handful of 8- and 16-bit values; there are millions of "
  "(width, scheme, order, range) combinations and 2**64 values.",
  [B], [("index translation and masking", B + ":_rindex,_vindex,_shift,"
         "_bitmask,__getitem__"), ("views", B + ":indices,lsb,msb,__repr__")],
  "model-based property testing, exhaustive over layouts"),
 ("C02", "Writing bits or ranges changes exactly the bits addressed",
  "After any sequence of bit, range, whole-value, set and clear writes on any "
  "number of live bit-fields, each field holds exactly the value obtained by "
  "replacing the addressed bits of its previous value. No other bit of that "
  "field and no other field changes.",
  ["inputs", "histories", "configurations"],
  "all write histories over fields of all widths, numberings and orders",
  "The tests write one bit or range at a time on 8-bit fields and mostly look "
  "at that bit only.",
  [B], [("item assignment", B + ":__setitem__"),
        ("set and clear", B + ":set,clear"), ("value setter", B + ":value")],
  "stateful model-based testing"),
 ("C03", "Bit-fields refuse what does not fit and keep their value",
  "A bit number outside the field, a range that leaves it or is written "
  "against the field's order, a value that is negative or too wide for the "
  "bits addressed, a field wider than 64 bits, and an unknown numbering or "
  "order are each refused with a value error. A refused request leaves the "
  "field exactly as it was, and everything that fits is accepted.",
  ["inputs", "histories", "configurations"],
  "all legal and illegal requests on fields of every width and scheme",
  "The tests try a few out-of-range indices; boundary values differ per width "
  "and scheme.",
  [B], [("checks", B + ":_checkIndex,_checkRange,_checkValue,__init__")],
  "model-based testing with illegal requests, exhaustive boundaries"),
 ("C04", "Bit and range predicates tell the truth",
  "For every bit-field and every bit or inclusive range of it, the predicates "
  "that ask whether the bit or range is set or clear answer yes exactly when "
  "all the bits asked about have that value. Asking never changes the field.",
  ["inputs", "configurations"],
  "all fields, values, bits and ranges",
  "The tests ask about a few ranges of a few 8-bit values.",
  [B], [("predicates", B + ":isBit,isBitSet,isBitClr,isRange,isRangeSet,"
         "isRangeClr")],
  "property testing against integer model, exhaustive over ranges"),
 ("C05", "Words keep 48 bits and their four 12-bit groups apart",
  "A machine word always holds exactly the 48-bit value last given to it, and "
  "an instruction word's command, A, B and C groups are always bits 1-12, "
  "13-24, 25-36 and 37-48 of its value, whichever of them or of the bits was "
  "written last. Writing one group never disturbs another or another word, "
  "and values that do not fit are refused and change nothing.",
  ["inputs", "histories"],
  "all 48-bit values, all group values, all write histories over live words",
  "The tests build words from fixed values; they never interleave writes.",
  [W, B], [("word", W + ":Word"), ("groups", W + ":InstructionWord")],
  "stateful model-based testing, exhaustive group values"),
 ("C06", "Registers hold exactly what fits and refuse the rest",
  "A 16- or 24-bit register always reads back the value, bits (numbered from "
  "1 at the most significant end) and octal text of what was last written to "
  "it as a whole, by bit or by range. Values, bit numbers, ranges, widths and "
  "register names that are not allowed are refused with a value error and "
  "leave every register as it was.",
  ["inputs", "histories"],
  "all register values, all partial writes, all histories over live registers",
  "The test loops over values are empty ranges; bit writes are sampled on one "
  "register.",
  [R, B], [("register", R + ":Register")],
  "stateful model-based testing, exhaustive 16-bit values"),
 ("C07", "The register file keeps 8 x 32 registers independent",
  "In a register file of eight groups of 32 registers each register is "
  "reached by group and by number or name, and holds exactly what was last "
  "put there by any write, replacement or clear at register, group or file "
  "level, in any order and any number of times. No operation changes a "
  "register it does not address, iteration delivers all groups or registers "
  "in number order every time, and unknown groups, numbers and names are "
  "refused.",
  ["histories", "inputs"],
  "all histories of reads, writes, replacements, clears and iterations",
  "The tests run one clear on fresh objects; state left by earlier iteration "
  "or clearing is never combined.",
  [R], [("group", R + ":RegisterGroup"), ("file", R + ":Registers")],
  "stateful model-based testing"),
 ("C08", "Register names, numbers and aliases agree with the manual",
  "The 32 register names map one to one to the numbers 0-31 in the order of "
  "the manual, and the four address-counter aliases name registers 28-31. "
  "Going from number to name or preferred alias and back always gives the "
  "same number, and every other name or number is refused with a value error.",
  ["inputs"],
  "all integers and all strings",
  "The tests cover some names; refusals are over an infinite domain.",
  [R], [("tables", R + ":REGISTERS,ALIASES"), ("look-up", R +
         ":registerName,registerAlias,registerNumber")],
  "property testing with round trip, exhaustive tables"),
 ("C09", "Memory returns the last word stored, and only there",
  "Every address of every bank of the main memory (4 banks of 2048 words), "
  "the expansion memory (8 banks) and a separate bank holds exactly the last "
  "48-bit value stored there by a word or block write or through the word "
  "that iteration delivers, since it was cleared, whether read singly, as a block, by iteration or as octal text. Stores and "
  "clears affect no other address or bank, and values that do not fit, "
  "addresses outside 0-2047 and banks that do not exist are refused without "
  "effect.",
  ["histories", "inputs"],
  "all histories of stores, block fills, clears, reads and iterations",
  "The tests write each cell once in one order on one object.",
  [M, W], [("bank", M + ":MemoryBank"), ("modules", M +
            ":MemoryModule,ExpansionMemoryModule")],
  "stateful model-based testing"),
 ("C10", "Every instruction encodes to the manual's 12-bit command code",
  "Each of the 64 machine instructions, with every legal combination of "
  "sequence bit, mask address, A/B/C designators or peripheral address, "
  "encodes to exactly the 12-bit code of its documented layout, whichever "
  "offered way of building it is used. Building further instructions never "
  "changes codes already built.",
  ["inputs", "histories"],
  "all instructions, all operand settings, all ways of building, all orders",
  "The tests check one or a few operand settings per instruction.",
  [I, N], [("encoder", I + ":Instruction"), ("instruction classes and opcode "
            "functions", N + ":OPCODES,make_masked_opcode,"
            "make_unmasked_opcode,make_peripheral_opcode,make_print_opcode")],
  "property testing against layout table, exhaustive operands"),
 ("C11", "Illegal instruction operands are always refused",
  "A sequence bit or designator that is not a bit, a mask outside 0-31, a "
  "mask on an instruction without one or together with designators or a "
  "peripheral address, a peripheral address outside 0-63 or together with "
  "other operands, and an operation code that does not fit its bits are each "
  "refused with a value error. Legal operands are always accepted, and a "
  "refusal does not affect later instructions.",
  ["inputs"],
  "all instructions with all operand values",
  "The tests try one bad value per kind on few instructions.",
  [I, N], [("operand checks", I + ":_check"), ("classes", N)],
  "property testing over legal and illegal operands"),
 ("C12", "Assembled instruction words decode to the same instruction",
  "Any instruction assembled with any three addresses into a word, stored in "
  "memory and read back, splits into the same addresses and a command code "
  "that identifies, by the manual's identification bits, that instruction and "
  "those operands and no other. Different instructions or operands never "
  "share a code except where the manual says so.",
  ["programs", "inputs"],
  "all programs of instructions with all operands and addresses",
  "No test goes from an instruction through a stored word and back, and "
  "uniqueness is a statement over all pairs of codes.",
  [N, I, W, M], [("encoder", I), ("instruction word", W), ("bank", M)],
  "round-trip property testing, exhaustive code map"),
 ("C13", "The instruction catalogue is complete and usable",
  "The catalogue contains exactly the instructions of the manual; each "
  "machine instruction's entry names a class that builds precisely that "
  "instruction. The printed code listing is in code order and names, for "
  "every assigned code, its instruction, however often it is produced.",
  ["inputs", "histories"],
  "all mnemonics and near-mnemonics, all uses of the catalogue",
  "The tests never go through the catalogue's class names nor the listing.",
  [N], [("catalogue", N + ":OPCODES,INSTRUCTIONS"),
        ("listing", N + ":print_instructions")],
  "property testing against reference catalogue and listing"),
 ("C14", "Constants hold exactly their 48-bit value",
  "Every kind of data and address constant holds exactly the value it was "
  "given, for all values from 0 to 2**48-1, until it is given another. "
  "Negative or wider values are refused with a value error and change neither "
  "this nor any other constant.",
  ["inputs", "histories"],
  "all constant kinds, all integers",
  "The tests build each constant with one or two values.",
  [N, W], [("constants", N + ":AlphanumericConstant..SubroutineCallConstant")],
  "stateful property testing"),
 ("C15", "Cards split every line exactly at the layout's columns",
  "For any line and any layout of increasing start columns and a card width, "
  "the fields of a card are exactly the text between those columns without "
  "the line end, the stripped fields and the record give the same text "
  "without surrounding blanks (none when blank) under the given names, and "
  "the card's text and line number are those supplied. A line starting with # "
  "is a comment card with its text and no field content.",
  ["inputs", "configurations"],
  "all lines of any length, all layouts, all field names",
  "The tests use a few lines with the standard layout.",
  [P], [("split", P + ":PunchCard")],
  "property testing against column-by-column split"),
 ("C16", "ARGUS cards are read as the card format documents",
  "On an ARGUS card of up to 120 columns the log number, column 8, label, "
  "operation, three addresses, sequence number and remarks are exactly the "
  "documented columns, and the instruction is the operation up to its first "
  "comma. On a P, R or L card everything from column 9 is remarks and the "
  "card has no label, operation or addresses; on a # card nothing is set.",
  ["inputs"],
  "all card texts up to 120 columns",
  "The tests read a few real cards.",
  [A, P], [("card", A + ":Card")],
  "property testing against card model"),
 ("C17", "A deck holds every card once, in order, with its line number",
  "A deck made from lines holds one card for each line that is not a # "
  "comment, in order, each with its 1-based line number, and its field, "
  "record and text views line up card by card with the same layout. The log "
  "section and its column 8 are those of the first L card, or none.",
  ["inputs", "configurations"],
  "all sequences of lines and all layouts",
  "The tests use one short deck.",
  [P, A], [("deck", P + ":Deck"), ("log section", A + ":Deck")],
  "model-based property testing"),
 ("C18", "Included files are flattened in place with true origins",
  "A deck made from a file is the sequence of its cards in which every $ "
  "directive is replaced, to any depth and any number of times, by the cards "
  "of the named file, and each card carries the file and 1-based line it came "
  "from. A missing file ends the run with a failure, and reading changes no "
  "source file.",
  ["inputs", "configurations"],
  "all acyclic sets of source files with nested and repeated includes",
  "No test reads a file or an include.",
  [P, A], [("reader", P + ":_readSource")],
  "model-based property testing over generated file trees"),
 ("C19", "The symbol table records each label once, where it is defined",
  "After reading any source files the symbol table holds, per symbol, "
  "segment (source file), subsegment (as set by SETLOC) and kind (complex for "
  "ASSIGN, simple otherwise), exactly the first acceptable definition with "
  "its file, line, log number, tag and card. Cards with * in column 8 define "
  "nothing, blanks in labels do not count, and tags B, F, S and Z are "
  "recognised.",
  ["inputs", "histories"],
  "all sources with includes, read in any order into one table",
  "There are no tests of the symbol table.",
  [S, A, P], [("builder", S + ":buildSymbolTable")],
  "model-based property testing over generated sources"),
 ("C20", "Every bad or repeated definition is reported and counted",
  "Each label with lower-case letters, more than one comma, an unknown or "
  "unsupported tag or no operation, and each second definition of the same "
  "symbol, segment, subsegment and kind (except an identical EQUALS) is "
  "reported once on the error stream with its symbol and counted once. "
  "Nothing else is reported, and the offending card leaves the table as it "
  "was.",
  ["inputs", "histories"],
  "all sources with includes, read in any order into one table",
  "There are no tests of the symbol table.",
  [S], [("diagnosis", S + ":buildSymbolTable")],
  "model-based property testing over generated sources"),
 ("C21", "Symbol queries give complete and correct answers",
  "On any symbol table the list of simply defined symbols, the list of "
  "complex-only symbols, and exact (optionally by kind), leading-part and "
  "trailing-part searches return exactly the symbols that qualify, sorted and "
  "without repetition, and an undefined symbol is reported. The approximate "
  "search returns at most the ten best-matching simply defined symbols, best "
  "first, and queries never change the table.",
  ["inputs", "histories"],
  "all symbol tables and all search texts",
  "There are no tests of the queries.",
  [S], [("queries", S + ":checkSymbolTable,getAbsoluteSymbols,"
         "findSymbolDef")],
  "differential property testing against model"),
 ("C22", "The incremental symbol table tracks definitions and undefineds",
  "Under any history of additions, updates, look-ups, prunings and resolution "
  "passes the table holds each added symbol once with its first origin and "
  "its latest value and kind. The undefined list holds exactly the symbols "
  "added without a value and not pruned since they got one, in order; "
  "listings show every symbol, sorted, and then the undefined ones. "
  "Adding a symbol twice or updating an unknown one is reported and changes "
  "nothing.",
  ["histories"],
  "all histories of table operations",
  "There are no tests of this table, and the guarantee is over histories.",
  [S], [("table", S + ":SymbolTable,SymbolTableEntry")],
  "stateful model-based testing"),
 ("C23", "Generated line numbers are the exact sequence requested",
  "The line number generator prints start, start+step and so on without "
  "passing the end number, upwards or downwards, each zero-filled to at least "
  "four digits and the width of the end number and placed at the requested "
  "columns. Requests with fewer than two numbers or more than six digits are "
  "refused without output.",
  ["inputs", "configurations"],
  "all start, end, step and column arguments",
  "There are no tests of the tools.",
  [T + "genlines.py"], [("main", T + "genlines.py:main")],
  "property testing of the command line tool"),
 ("C24", "Page annotation appends the right headers and nothing else",
  "Annotating a source with its stated page range leaves the existing content "
  "untouched and appends exactly one log card and one correctly numbered "
  "header per page, using the first L card's section and column 8 or else the "
  "file name header. If the section cannot be determined or the range is "
  "reversed the run fails and the file is unchanged.",
  ["inputs", "histories"],
  "all sources with a page range, annotated any number of times",
  "There are no tests of the tools.",
  [T + "genpages.py", A], [("main", T + "genpages.py:main")],
  "property testing of the command line tool"),
 ("C25", "Listings show every card with its file and line",
  "For each source named, the lister writes next to it a listing with one "
  "line per card of the flattened source, in order, giving the card's own "
  "file, line number and full text. No other file is written or changed, and "
  "a missing source or include makes the run fail.",
  ["inputs", "configurations"],
  "all sets of source files and argument lists",
  "There are no tests of the tools.",
  [T + "listing.py", P], [("main", T + "listing.py:main")],
  "property testing of the command line tool"),
 ("C26", "Instruction search prints exactly the matching cards",
  "Searching sources for an operation prints, in order, exactly the cards "
  "whose operation is that instruction - with any or no mask for a plain "
  "name, with any mask for a trailing comma, with that mask otherwise, blanks "
  "not counting - except those with * in column 8, on request with file and "
  "line number. A name that is no instruction is refused.",
  ["inputs"],
  "all sources and all search operations",
  "There are no tests of the tools.",
  [T + "list-instructions.py", A, N],
  [("main", T + "list-instructions.py:main")],
  "property testing of the command line tool"),
 ("C27", "Instruction checks report every invalid card and count truly",
  "For any sources and options the instruction checker and the parser report "
  "each card whose instruction is not in the catalogue, with instruction, "
  "file, line and text, except those with * in column 8, and nothing else. "
  "Their line counts, instruction totals, frequencies, percentages, unused "
  "lists and error totals (for the parser including symbol errors of every "
  "file) are exact.",
  ["inputs", "configurations"],
  "all sources and option combinations",
  "There are no tests of the tools.",
  [T + "check-instructions.py", T + "parse.py"],
  [("checker", T + "check-instructions.py:main"),
   ("parser", T + "parse.py:main")],
  "property testing of the command line tools"),
 ("C28", "The symbol checker reports and totals every symbol error",
  "For any sources the symbol checker prints each symbol error and the exact "
  "error count of each file, with the complex-only option also every symbol "
  "defined only by ASSIGN together with up to ten suggestions that are simply "
  "defined symbols, and for several files the exact grand total. It completes "
  "on every source that can be read and changes no file.",
  ["inputs", "configurations"],
  "all sources, argument lists and options",
  "There are no tests of the tools.",
  [T + "check-symbols.py", S], [("main", T + "check-symbols.py:main")],
  "property testing of the command line tool"),
 ("C29", "Symbol listing and search show exactly what is defined",
  "The symbol lister prints every symbol, segment, subsegment and definition "
  "in sorted order with kind, tag, file, line and card, and the number of "
  "errors if any; the symbol finder prints the full definition of the exact "
  "symbol or exactly the symbols with the leading or trailing part asked for, "
  "or the approximate matches. Undefined symbols are reported, conflicting "
  "options refused, and no file is changed.",
  ["inputs", "configurations"],
  "all sources, argument lists and search options",
  "There are no tests of the tools.",
  [T + "list-symbols.py", T + "find-symbols.py", S],
  [("lister", T + "list-symbols.py:main"),
   ("finder", T + "find-symbols.py:main")],
  "property testing of the command line tools"),
 ("C30", "The character set matches the manual's printer table",
  "Each of the 64 six-bit codes translates to the character the manual's "
  "high-speed printer table gives, so that the eight six-bit groups of any "
  "machine word translate to the eight characters it encodes. Every printable "
  "character other than the blank has exactly one code.",
  ["inputs"],
  "all 64 codes in all positions of all words",
  "There is no test of the character set.",
  ["h800/charset.py", W], [("table", "h800/charset.py:CHARSET")],
  "property testing against reference table, exhaustive codes"),
 ("C31", "Extra output never changes a tool's results",
  "For any sources, asking a source tool for verbose or debug output only adds "
  "lines to what it prints: everything printed without is still printed, in "
  "the same order, and exit status, error stream and files written are the "
  "same. The same call on the same files always gives the same results.",
  ["inputs", "configurations"],
  "all source trees, all tools and their options",
  "There are no tests of the tools.",
  [T + x for x in ("check-instructions.py", "check-symbols.py",
                   "find-symbols.py", "list-instructions.py",
                   "list-symbols.py", "listing.py", "parse.py")] + [P, S],
  [("tools", T + "*.py:main"), ("reader", P + ":Deck"),
   ("symbols", S + ":buildSymbolTable")],
  "metamorphic property testing of the command line tools"),
 ("C32", "All tools agree about the same sources",
  "For any sources, the symbol checker, lister and finder and the parser give "
  "the same symbol error counts; lister, finder and checker the same symbols, "
  "definitions and complex-only symbols; the parser and the instruction "
  "checker the same invalid cards and line counts, which are those of the "
  "listings; and instruction frequencies agree with instruction searches.",
  ["inputs"],
  "all source trees",
  "There are no tests of the tools.",
  [T + x for x in ("check-instructions.py", "check-symbols.py",
                   "find-symbols.py", "list-instructions.py",
                   "list-symbols.py", "listing.py", "parse.py")] + [A, S],
  [("tools", T + "*.py:main"), ("symbols", S + ":buildSymbolTable,"
                                "checkSymbolTable,findSymbolDef")],
  "differential property testing between the command line tools"),
 ("C33", "Calls that cannot be carried out fail, say why and change nothing",
  "Called with too few arguments, with an option it does not have, or with a "
  "source that does not exist or includes (at any depth) a file that does not "
  "exist, every command line tool ends with a non-zero exit status and a "
  "message on the error stream naming the option or file at fault, and leaves "
  "every existing file unchanged; the only new files are the listings of "
  "sources completed before the fault.",
  ["inputs", "configurations"],
  "all tools, argument lists that cannot be carried out, and source trees with "
  "missing files",
  "There are no tests of the tools.",
  [T + x for x in ("check-instructions.py", "check-symbols.py",
                   "find-symbols.py", "genlines.py", "genpages.py",
                   "list-instructions.py", "list-symbols.py", "listing.py",
                   "parse.py")] + [P],
  [("tools", T + "*.py:main"), ("reader", P + ":Deck")],
  "fault-injecting property testing of the command line tools"),
 ("C34", "Tool options mean the same in every spelling, order and position",
  "For any sources, a source tool called with the same options and arguments "
  "gives the same exit status, output and files whether each option is "
  "written short or long, once or repeated, short letters together or apart, "
  "in whatever order, before, between or after the other arguments.",
  ["inputs", "configurations"],
  "all source trees, tools, option sets and ways of writing the call",
  "There are no tests of the tools.",
  [T + x for x in ("check-instructions.py", "check-symbols.py",
                   "find-symbols.py", "list-instructions.py",
                   "list-symbols.py", "listing.py", "parse.py")],
  [("tools", T + "*.py:main")],
  "metamorphic property testing of the command line tools"),
 ("C35", "Results do not depend on how a source is split into files or ordered",
  "Splitting a source into included files (nested to any depth) with # "
  "comments between the cards changes no result: the symbols with their "
  "segments, subsegments and kinds, error counts, invalid and matching "
  "instructions, totals, frequencies and listed cards are those of the source "
  "in one piece, except for file names and line numbers. Naming several "
  "sources in another order gives the same totals, frequencies, matches, and "
  "symbols.",
  ["inputs"],
  "all sources and ways of dividing them over files",
  "Tests read a few fixed files.",
  [P, A, S] + [T + x for x in (
      "check-instructions.py", "check-symbols.py", "find-symbols.py",
      "list-instructions.py", "list-symbols.py", "listing.py", "parse.py")],
  [("reader", P + ":Deck"), ("symbols", S + ":buildSymbolTable"),
   ("tools", T + "*.py:main")],
  "metamorphic property testing over source layouts"),
]

with open("properties.jsonl", "w") as f:
    for (pid, title, statement, over, text, why, files, mech, tech) in PROPS:
        assert len(title) <= 80, (pid, len(title))
        f.write(json.dumps({
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [
                {"name": n, "where": w} for n, w in mech]}}) + "\n")

NOTE = ("Generated-input search against an explicit oracle: no counterexample "
        "in the cases counted in the evidence. Trusts the reference model in "
        "pbt/, Hypothesis and CPython. ")
manifest = {
    "version": 1,
    "setup_cmd": "python3-vt check.py --list",
    "checks": [{
        "property": p[0],
        "quick_cmd": "python3-vt check.py " + p[0],
        "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + p[0],
        "technique": "property-based testing: " + p[8],
        "level": "exploration",
        "level_note": NOTE + "Domain: " + p[4] + ", within the bounds given "
        "in DESIGN.md.",
    } for p in PROPS],
    "not_applicable": [],
}
with open("MANIFEST.json", "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
