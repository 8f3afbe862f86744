"""Words for the reports: what an assertion states, which functions were encoded, the bounds."""
import re

IDS = {
    10: "a document that breaks a rule was accepted", 11: "a valid document was rejected", 12: "the error does not name the violated rule", 13: "the error message lacks the offending name",
    14: "the error points outside the offending declaration", 20: "the checked and unchecked trees differ", 21: "the schema spans differ", 22: "the retained inputs differ", 23: "the two errors differ",
    24: "the checked parser reports a syntax error on a text the unchecked one accepts", 25: "the checked parser accepts what the unchecked one rejects", 26: "a second parse gave another tree",
    27: "a second parse gave another error", 28: "a second parse gave another verdict", 60: "a malformed text was accepted", 61: "a well-formed text was rejected", 62: "the error location lies outside the text or inside a character",
    63: "the checked parser accepts what the unchecked one rejects", 64: "the tree with layout differs from the expected tree",
}


def explain(kind, det):
    if kind == "panic":
        return "panic: " + det
    if kind == "hang":
        return "the parser did not come back"
    if kind == "died":
        return "the process died: " + det
    n = int(det)
    return IDS.get(n, ("span or raw text is wrong" if 30 <= n <= 50 else "the tree differs from what the text states" if 64 <= n < 140 else "the relation query differs from the document's relations" if 140 <= n < 150 else "assertion") + f" (assertion {n})")


def idents(n):
    ids, i = [], 0
    while i < len(n):
        m = re.match(r"([1-9]\d*)_?", n[i:])
        k = m and i + m.end()
        if m and k + int(m.group(1)) <= len(n) and re.match(r"[A-Za-z_][A-Za-z0-9_]*$", n[k: k + int(m.group(1))] or "!"):
            ids.append(n[k: k + int(m.group(1))])
            i = k + int(m.group(1))
        else:
            # a disambiguator such as `Cs34TqhkhAwdT_` is skipped as a whole
            d = re.match(r"s[0-9a-zA-Z]*_", n[i:])
            i += d.end() if d else 1
    return ids


def functions(fs):
    """the functions of the crate under test among the executed ones: readable name -> number of calls"""
    out = {}
    for n, calls in fs:
        ids = idents(n)
        if "dbml_rs" not in ids or "drop_glue" in ids or "raw_vec" in ids or "harness_ll" in ids[: ids.index("dbml_rs")]:
            continue
        k = "::".join(x for x in ids[ids.index("dbml_rs"):] if x not in ("harness_ll", "alloc", "string", "String"))
        k = re.sub(r"^dbml_rs::parser::DBMLParser::.*::rules::(visible|hidden)::", "grammar rule ", k)
        if "::" not in k and not k.startswith("grammar"):
            continue
        k = k[:160]
        out[k] = out.get(k, 0) + calls
    return [f"{k} ({v} calls)" for k, v in sorted(out.items())]


def ranges(specs):
    d = {}
    for s in specs:
        n, a, b = s.split(":")
        d.setdefault(n, []).append(f"{a}/{b}")
    return [f"{n[2:]} {{{' '.join(v)}}}" for n, v in d.items()]


ASSUMPTIONS = [
    "The intermediate representation is what stable rustc emits for the current tree at opt-level 1 with overflow checks on; the native replay is an ordinary build of the same sources.",
    "The allocator never fails; memory blocks are never moved; pointer addresses are concrete, so no behaviour that depends on address values is covered.",
    "memchr is replaced by a scalar implementation of the same functions in the symbolic build (the native replay uses the real one).",
    "Floating-point values are concrete: decimal literals are checked for a fixed list only.",
    "Nothing is claimed outside the stated scenarios: longer documents, more declarations, more symbolic characters than stated.",
]
_SEM = "Documents of the scenario family (1 to 5 declarations, up to 4 columns, 3 references, 4 index definitions); names are 1 to 3 symbolic letters, choices of schema, alias, form, relation, setting and type are symbolic picks."
BOUNDS = {
    "C01": "Nine documents of 40 to 140 bytes with 1 (thorough: 2) arbitrary characters of 1 to 4 bytes inserted or overwritten at every position, or cut after them; every deletion of 1 to 3 characters and every doubling; every ASCII text of up to 4 (6) characters; columns of every built-in type, argument shape, array kind and default kind with symbolic argument digits; the documents of the semantic scenario families.",
    "C02": "The C01 text families with 1 (2) arbitrary characters, and the documents of the semantic scenario families, valid and invalid.",
    "C03": "The C01 text families with 1 (2) arbitrary characters; six documents covering every construct with every kind of layout at every gap; member and declaration sequences of up to 3.",
    "C04": "14 name positions; unquoted names of 1 to 3 arbitrary letters, digits and underscores, quoted names of up to 3 arbitrary characters (ASCII, non-ASCII, blanks, comment markers), keywords and keyword-like names.",
    "C05": "16 literal positions, 4 quotes, contents of up to 2 (thorough: 4) arbitrary characters, ASCII or non-ASCII, and selected longer contents.",
    "C06": "Integers of up to 19 (25) digits, all or the last digits symbolic around the limits, in 4 positions; bare words of up to 3 (5) characters and 36 longer ones, in three spellings, with up to one more character; colours of up to 7 (9) digits; a fixed list of decimals (the solver decides over no symbolic decimal digits: float arithmetic is concrete).",
    "C07": "Six documents covering every construct; one gap at a time gets each of 8 kinds of layout, comments with symbolic contents included; every keyword letter in either case.",
    "C08": "Sequences of up to 3 (5) declarations and 3 (4) members, every kind and order.",
    "C09": "Up to 2 (3) settings, each any of the known ones, unknown keys, references and look-alikes.",
    "C10": "Names with and without schema, quotes, up to 2 arguments and 3 dimensions; dimensions of up to 12 digits with the last digits symbolic around the limit of u32.",
    "C11": "Every relation, form, endpoint shape (schema, quoted, up to 2 columns) and up to 2 settings.",
    "C12": "Up to 2 (3) definitions of up to 3 columns and expressions, up to 2 settings each.",
    "C13": "The C01 text families judged against an independent recogniser of the language that is executed symbolically beside the parser; words of up to 8 letters as index type and referential action.",
    "C27": _SEM + " Permutations: reversal, both rotations, a transposition, reversal of members, mirrored references.",
    "C28": _SEM + " Respellings: every name quoted, public spelled out, aliases used, both. Consistent renaming is covered by the symbolic names.",
    "C29": _SEM + " The query is asked for every table.",
    "C31": "The C01 text families with one arbitrary ASCII character inserted or overwritten at every position or a stretch removed, each declaration cut out and read again, and joined before or behind six accepted documents; generated documents with layout at every gap.",
    "C32": _SEM + " Additions: 1 to 3 fresh members before every member and 2 to 6 fresh declarations spread over the document (thorough: up to 9).",
    "C33": "Lists of up to 2 (3) settings or properties, keys with a meaning anywhere and symbolic ones, values of all twelve kinds; member sequences of up to 2 (3).",
    "C34": "Every ASCII text of up to 4 (9) characters, and every text one edit away from a documented word; values with texts of up to 3 (8) symbolic characters; selected numbers and all one-digit (two-digit) integers.",
    "C35": "The C01 text families with one arbitrary character, and the documents of the semantic scenario families.",
    "C30": _SEM + " One of the broken rules must be named where several are broken.",
}
_RP = " Every family also under five injective renamings (case, punctuation, control characters, long prefix, non-ASCII) and with unrelated members and declarations added (up to 6, thorough 9, between any two)."
for _p in range(14, 27):
    BOUNDS[f"C{_p}"] = _SEM + _RP
BOUNDS["C28"] += " Renamings: the five injective maps."
_BIG = " Up to 12 (thorough 25) members, settings, columns, values, dimensions or declarations of a kind, one of them, at any place, of another kind."
for _p in ("C03", "C08", "C09", "C10", "C11", "C12", "C33"):
    BOUNDS[_p] = BOUNDS.get(_p, "") + _BIG
for _p in ("C01", "C02", "C03", "C31", "C35"):
    BOUNDS[_p] += " Documents with names and values of up to 258 characters of one to three bytes, one of them symbolic."
for _p in ("C09", "C10", "C11", "C12", "C33"):
    BOUNDS[_p] += " Texts of up to 2 arbitrary characters, selected longer texts and names of every kind in the positions concerned."
BOUNDS["C13"] += " Documents with names and values of up to 258 characters, one of them symbolic."
BOUNDS["C20"] += " Relations with names, settings and block form, alone or together."
BOUNDS["C26"] += " One or two groups."
BOUNDS["C29"] += " References of one or two columns, self references, up to three relations, named or with settings."
BOUNDS["C04"] += " Names of 8 to 257 characters, symbolic at the ends and in the middle."
BOUNDS["C05"] += " Contents of up to 257 characters, symbolic at the ends and in the middle."
BOUNDS["C07"] += " Layout at every gap at once, for syntactic documents and for the name, enum, group, key and index scenario families."
