"""Which scenarios decide which property, per tier. Scenarios are harness entries `name:a:b` (see harness/src)."""

FAM = dict(names=11, projects=4, settings=18, settings2=2, resolve=6, resolve_comp=2, resolve_misc=4, fktype=17, keys1=5,
           keys2=5, relations=4, pks=2, idx=6, targs=2, defaults=7, enums=2, enums2=1, groups=5)
VERDICT, ORDER, SPELL, ERROR, SAME, QUERY, RENAME, PAD, PADMORE, LAYOUT, SHOWN, RUN, RUNNAMED = range(13)

# members a mode finishes within a quick run (the others: thorough, or not at all)
LIGHT = {
    RENAME: dict(names=range(11), projects=(0, 2, 3), settings=range(18), settings2=(0, 1), resolve=(0, 2, 4), resolve_comp=(0, 1), resolve_misc=range(4), fktype=(*range(12), 13, 15, 16),
                 keys1=(0, 3), keys2=range(5), relations=(6, 7), pks=(0,), idx=(0, 3, 4), targs=(0,), defaults=range(5), enums=(0, 1), enums2=(0,), groups=range(4)),
    PAD: dict(names=(*range(8), 9, 10), projects=(0, 2, 3), settings=(*range(13), *range(14, 18)), settings2=(0, 1), resolve=range(6), resolve_comp=(0, 1), resolve_misc=range(4), fktype=(*range(12), 13, 15, 16),
              keys1=(0, 3), keys2=range(5), relations=(6, 7), pks=(0,), idx=(0, 3, 4), targs=(0,), defaults=range(5), enums=(0, 1), enums2=(0,), groups=range(4)),
}


def light(mode, *names):
    return [e for f in names for e in fam(f, mode, LIGHT[mode][f])]


def running():
    """both parsers on the documents of the semantic families"""
    return fams(RUN, skip=("relations", "projects"), names=range(8), settings=(0, 6, 12, 17), idx=(0, 3, 4), fktype=(0, 3, 8), pks=(0,), targs=(0,)) + fam("relations", RUN, (6,)) + fam("projects", RUN, (0, 2)) \
        + [e for f, ks in dict(names=range(8), resolve=(0, 2, 5), resolve_misc=range(4), settings=(0, 6, 12), fktype=(0, 3), idx=(0, 3, 4), pks=(0,), defaults=range(5), enums=(0,), groups=(2, 3), keys1=(0,), relations=(7,)).items() for e in fam(f, RUNNAMED, ks)]


def fam(name, mode, ks=None):
    return [f"h_{name}:{k}:{mode}" for k in (range(FAM[name]) if ks is None else ks)]


def fams(mode, skip=(), **only):
    out = []
    for f in FAM:
        if f in skip:
            continue
        out += fam(f, mode, only.get(f))
    return out


def window(docs, judged, syms=1, over=0, kind=0, cut=0):
    return [f"h_window:{d}:{judged + 16 * syms + 256 * over + 512 * kind + 2048 * cut}" for d in docs]


def ent(name, aa=(0,), bb=(0,)):
    return [f"h_{name}:{a}:{b}" for a in aa for b in bb]


def literals(poss, *bb, qs=(0, 1, 2, 3)):
    """string and expression literals in these positions"""
    return ent("literal_at", [x + 16 * q for x in poss for q in qs], bb) + ent("literal_sel", [x + 16 * q for x in poss for q in qs])


R = range
DOCS = (0, 1, 2, 3, 4, 5, 7, 8)


def quick(p):
    return list(dict.fromkeys({
        "C01": lambda: window((1, 3, 4, 7), 1) + window((0, 2), 1, over=1) + window((8,), 1, kind=1) + window((7,), 1, kind=3)
        + window((1,), 1, cut=1) + ent("cut", DOCS, (1,)) + ent("free", (1, 2, 3, 4), (1,)) + ent("long", R(7), (1,)) + running() + ent("value_any", R(19)) + ent("defaults_any", (0,), (0, 1, 2)) + ent("defaults_any", (2,), (0,)),
        "C02": lambda: window((0, 3), 2) + window((4,), 2, over=1) + ent("cut", (1, 2, 7), (2,)) + ent("free", (3,), (2,)) + ent("long", R(7), (2,))
        + fams(SAME, skip=("projects", "relations", "fktype", "resolve_comp", "pks", "targs", "keys1", "keys2", "enums"), settings=(0, 6, 12, 17), idx=(0, 3), defaults=(3,)) + fam("projects", SAME, (0, 2))
        + fam("fktype", SAME, (3,)) + fam("pks", SAME, (0,)) + fam("targs", SAME, (0,)) + fam("keys1", SAME, (0,)) + fam("enums", SAME, (0,)),
        "C03": lambda: window(R(6), 4) + window((1,), 4, over=1) + window((0, 4), 4, kind=1) + window((0, 1), 4, kind=3) + ent("span_gap", R(6), R(8)) + ent("long", R(5), (4,)) + ent("members", R(4), (2, 3)) + ent("sequence", (2,)) + ent("big", R(12), (5,)) + ent("literal_at", R(64), (1,)),
        "C04": lambda: ent("ident_at", R(14), R(9)),
        "C05": lambda: ent("literal_at", R(64), (1, 15)) + ent("literal_at", R(32), (2, 3)) + ent("literal_at", R(16, 32), (4,)) + ent("literal_at", R(32), (17,)) + ent("literal_sel", R(64)),
        "C06": lambda: ent("integer", R(1, 19), (0,)) + ent("integer", (18, 19), (1, 2, 3)) + ent("integer", (20, 23), (2,)) + ent("leading_zeros") + ent("decimals")
        + ent("words", (1, 2, 3), (0,)) + ent("words", (1, 2), (1, 2, 3, 4)) + ent("words", (0, 1), (5,)) + ent("hex", R(1, 8)),
        "C07": lambda: ent("layout", R(6), R(8)) + ent("case", R(6))
        + fam("names", LAYOUT, (0, 1, 2, 3, 4, 5, 6, 7, 9, 10)) + fam("enums", LAYOUT) + fam("groups", LAYOUT) + fam("pks", LAYOUT, (0,)) + fam("idx", LAYOUT, (4,)),
        "C08": lambda: ent("sequence", (1, 2, 3, 4)) + ent("members", R(4), (1, 2, 3, 4)) + ent("big", R(4), (6, 12)) + ent("big_sequence", R(8), (9,)),
        "C09": lambda: ent("col_settings", (1, 2)) + ent("col_settings", (3,), (1,)) + ent("col_settings", (1, 2), (2,)) + ent("big", (4, 9), (6, 12)) + literals((4, 5), 1, 2) + ent("ident_at", (13,), R(9)),
        "C10": lambda: ent("types", R(4), (0,)) + ent("types", (1, 3), (1,)) + ent("types", (1,), (2,)) + ent("dims", R(1, 10), (1,)) + ent("dims", (9, 10), (2, 3)) + ent("dims", (11, 12), (2,)) + ent("big", (10, 11), (5, 9)) + literals((11,), 1, 2) + ent("ident_at", (4,), R(9)),
        "C11": lambda: ent("references", R(3), R(2)) + ent("same_forms") + ent("big", (7, 8, 9), (4, 6)) + literals((10,), 1, 2) + ent("ident_at", (8, 9, 13), R(9)),
        "C12": lambda: ent("index_defs", (1, 2), R(2)) + ent("index_defs", (1,), (2,)) + ent("big", (5, 6, 7), (5, 9)) + literals((8,), 1, 2) + literals((12,), 1, 2, 17, qs=(3,)) + ent("ident_at", (10,), R(9)),
        "C13": lambda: window(DOCS, 8) + window((1, 3), 8, over=1) + window((2,), 8, kind=1) + window((4,), 8, cut=1) + ent("cut", DOCS, (8,)) + ent("free", (1, 2, 3, 4), (8,)) + ent("closed_word", R(2), (1, 2, 8)) + ent("long", R(7), (8,)),
        "C14": lambda: fam("names", VERDICT)
        + light(RENAME, "names") + light(PAD, "names"),
        "C15": lambda: fam("projects", VERDICT)
        + light(RENAME, "projects") + light(PAD, "projects"),
        "C16": lambda: fam("settings", VERDICT) + fam("settings2", VERDICT)
        + light(RENAME, "settings", "settings2") + light(PAD, "settings", "settings2"),
        "C17": lambda: fam("resolve", VERDICT) + fam("resolve_comp", VERDICT) + fam("resolve_misc", VERDICT)
        + light(RENAME, "resolve", "resolve_comp", "resolve_misc") + light(PAD, "resolve", "resolve_comp", "resolve_misc"),
        "C18": lambda: fam("fktype", VERDICT)
        + light(RENAME, "fktype") + light(PAD, "fktype"),
        "C19": lambda: fam("keys1", VERDICT) + fam("keys2", VERDICT)
        + light(RENAME, "keys1", "keys2") + light(PAD, "keys1", "keys2"),
        "C20": lambda: fam("relations", VERDICT) + fam("relations", VERDICT, (6, 7, 8, 9))
        + light(RENAME, "relations") + light(PAD, "relations"),
        "C21": lambda: fam("pks", VERDICT) + fam("pks", VERDICT, (2,))
        + light(RENAME, "pks") + light(PAD, "pks"),
        "C22": lambda: fam("idx", VERDICT)
        + light(RENAME, "idx") + light(PAD, "idx"),
        "C23": lambda: fam("targs", VERDICT)
        + light(RENAME, "targs") + light(PAD, "targs"),
        "C24": lambda: fam("defaults", VERDICT)
        + light(RENAME, "defaults") + light(PAD, "defaults"),
        "C25": lambda: fam("enums", VERDICT) + fam("enums2", VERDICT)
        + light(RENAME, "enums", "enums2") + light(PAD, "enums", "enums2"),
        "C26": lambda: fam("groups", VERDICT)
        + light(RENAME, "groups") + light(PAD, "groups"),
        "C27": lambda: fam("names", ORDER, (0, 2, 4, 6)) + fam("projects", ORDER, (0, 2)) + fam("settings", ORDER, (0, 3, 12)) + fam("resolve", ORDER, (0, 1, 2, 5)) + fam("resolve_misc", ORDER)
        + fam("keys1", ORDER, (0,)) + fam("keys2", ORDER, (2, 3)) + fam("relations", ORDER, (0, 7)) + fam("enums", ORDER) + fam("enums2", ORDER) + fam("groups", ORDER) + fam("defaults", ORDER, (3,)) + fam("idx", ORDER, (0, 3, 4)),
        "C28": lambda: fam("names", SPELL) + fam("resolve", SPELL) + fam("resolve_misc", SPELL) + fam("relations", SPELL, (6, 7)) + fam("keys1", SPELL, (0,)) + fam("enums", SPELL) + fam("enums2", SPELL) + fam("groups", SPELL)
        + fam("idx", SPELL, (0, 3))
        + light(RENAME, "names", "resolve_comp", "resolve_misc", "keys1", "keys2", "pks", "idx", "defaults", "enums2") + fam("resolve", RENAME, (0, 1, 5)) + fam("relations", RENAME, (6, 7)) + fam("enums", RENAME, (0,)) + fam("groups", RENAME, (2, 3)) + fam("settings", RENAME, (0, 6, 12)) + fam("fktype", RENAME, (0, 3, 8)),
        "C29": lambda: ent("query", (0, 2, 3, 4), (QUERY,)) + fam("resolve", QUERY) + fam("relations", QUERY, (3, 7)) + fam("keys2", QUERY, (2,)) + fam("resolve_misc", QUERY),
        "C30": lambda: fams(ERROR, skip=("relations", "projects", "fktype"), idx=(0, 3)) + fam("relations", ERROR, (0, 3)) + fam("projects", ERROR, (0, 2)) + fam("fktype", ERROR, (0, 3, 8)),
        "C31": lambda: window((0, 1, 3, 4), 0) + window((2, 8), 0, over=1) + ent("cut", (1, 2, 3, 7), (0,)) + ent("long", (0,), (0,)) + ent("alone", R(6), (3, 4, 7)) + ent("alone", (7, 8), (0,)) + ent("join", (0,), (1, 3, 23)) + ent("join", (3,), (40,)) + ent("join", (4,), (2,))
        + ent("join", (1,), (64 + 4, 64 + 35)) + ent("join", (7,), (64 + 24,)) + ent("join", (5,), (0,)),
        "C32": lambda: light(PAD, "names", "settings2", "resolve_misc", "keys2", "enums2", "groups") + fam("resolve_comp", PAD, (0,)) + fam("defaults", PAD, (0, 1, 3, 4)) + fam("enums", PAD, (0,)) + fam("projects", PAD, (0, 2)) + fam("settings", PAD, (0, 3, 6, 9, 12, 15)) + fam("resolve", PAD, (0, 2, 5))
        + fam("fktype", PAD, (0, 3, 8)) + fam("idx", PAD, (0, 3, 4)) + fam("targs", PAD, (0,)),
        "C33": lambda: ent("settings_of", R(6), (1, 2)) + ent("members", R(4), (1, 2)) + ent("big", (3, 7), (6, 12)) + ent("sequence", (2,)) + literals((0, 1, 2, 3, 6, 7, 8, 9, 10, 13), 1) + literals((0, 2, 3, 6), 2),
        "C34": lambda: ent("conversions", R(6), R(5)) + ent("conversions", (6,), (1, 3)) + ent("conversions", (7,), (0, 1)),
        "C35": lambda: window((0, 1, 4), 5) + window((3,), 5, over=1) + window((2,), 5, kind=1) + ent("cut", DOCS, (5,)) + ent("free", (2, 3), (5,)) + ent("long", R(1, 7), (5,)) + fam("names", SHOWN) + fam("projects", SHOWN, (0, 2)) + fam("settings", SHOWN, (0, 6, 12, 17)) + fam("resolve", SHOWN, (0, 2, 5))
        + fam("fktype", SHOWN, (0, 3)) + fam("keys1", SHOWN, (0,)) + fam("keys2", SHOWN, (0, 2)) + fam("pks", SHOWN, (0,)) + fam("idx", SHOWN, (0, 3)) + fam("targs", SHOWN, (0,)) + fam("defaults", SHOWN) + fam("enums", SHOWN, (0,)) + fam("groups", SHOWN) + fam("relations", SHOWN, (6,)),
    }[p]()))


def thorough(p):
    extra = {
        "C01": lambda: window(DOCS, 1) + window(DOCS, 1, over=1) + window((0, 1, 3, 5, 7), 1, syms=2) + window((1, 4), 1, syms=2, over=1) + window(DOCS, 1, cut=1) + window((1, 3), 1, syms=2, cut=1) + ent("free", (5, 6), (1,)) + ent("defaults_any", R(3), R(4))
        + window(DOCS, 1, kind=1) + window(DOCS, 1, kind=2) + window(DOCS, 1, kind=3),
        "C02": lambda: window(DOCS, 2) + window(DOCS, 2, over=1) + window((0, 4), 2, syms=2) + ent("cut", DOCS, (2,)) + ent("free", (4, 5), (2,)) + fams(SAME),
        "C03": lambda: window(DOCS, 4, over=1) + window((0, 1, 2, 3, 4, 5), 4, syms=2) + window(DOCS, 4, kind=1) + window(DOCS, 4, kind=2) + window(DOCS, 4, kind=3) + ent("members", R(4), (3,)) + ent("sequence", (3,)) + ent("free", (5,), (4,)),
        "C04": lambda: [],
        "C05": lambda: ent("literal_at", R(64), (2, 3, 4, 17, 18, 19)),
        "C06": lambda: ent("integer", R(1, 25), R(6)) + ent("words", (4, 5), (0,)) + ent("words", (3,), (1, 2, 3, 4)) + ent("hex", (8, 9)),
        "C07": lambda: [],
        "C08": lambda: ent("sequence", (5,)) + ent("members", R(4), (5,)) + ent("big", R(4), (25,)) + ent("big_sequence", R(8), (20,)),
        "C09": lambda: ent("col_settings", (3,)) + ent("col_settings", (4,), (1,)),
        "C10": lambda: ent("types", R(4), R(3)) + ent("dims", R(1, 13), R(1, 6)),
        "C11": lambda: [],
        "C12": lambda: ent("index_defs", (3,), (0,)) + ent("index_defs", (1,), (3,)),
        "C13": lambda: window(DOCS, 8, over=1) + window((0, 1, 2, 3, 4, 5), 8, syms=2) + window((0, 3, 7), 8, syms=2, over=1) + window(DOCS, 8, cut=1) + window((1, 3), 8, syms=2, cut=1) + window(DOCS, 8, kind=2) + ent("free", (5, 6), (8,)),
        "C20": lambda: fam("relations", VERDICT, (4, 5)) + fam("relations", RENAME, (0, 3)),
        "C27": lambda: fams(ORDER),
        "C28": lambda: fams(SPELL) + light(RENAME, *FAM) + fam("relations", RENAME, (0, 3)),
        "C29": lambda: ent("query", (1,), (QUERY,)) + fam("relations", QUERY),
        "C30": lambda: fams(ERROR),
        "C31": lambda: window(DOCS, 0) + window(DOCS, 0, over=1) + window((1, 4), 0, kind=2) + ent("cut", DOCS, (0,)) + ent("alone", R(6), R(8)) + ent("alone", (9,), (0,)) + ent("join", R(9), [j + 16 * h + 64 * t for j in DOCS for h in R(3) for t in R(2)]),
        "C32": lambda: light(PAD, *FAM),
        "C33": lambda: ent("settings_of", R(6), (3,)) + ent("members", R(4), (3,)) + ent("big", (3, 7), (25,)),
        "C34": lambda: ent("conversions", R(6), (5, 6, 9)) + ent("conversions", (6,), (8,)) + ent("conversions", (7,), (2,)),
        "C35": lambda: window(DOCS, 5) + window(DOCS, 5, over=1) + window((0, 1, 4), 5, kind=2) + window(DOCS, 5, cut=1) + ent("free", (4,), (5,)) + fams(SHOWN),
    }.get(p, lambda: [])()
    # the quick list's renamed and padded documents, with every padding
    extra = extra + [e[: -1] + str(PADMORE) for e in quick(p) if e.endswith(f":{PAD}") and e[2:].split(":")[0] in FAM]
    q = quick(p)
    return q + [e for e in extra if e not in set(q)]


# reachability witnesses: over all scenarios of an entry, each of these must have been reached
NEED = {
    "h_window": (1, 2), "h_cut": (1, 2), "h_long::1": (1, 2, 3, 4), "h_long::2": (2, 3), "h_long::4": (1,), "h_long::0": (1,), "h_long::5": (2, 3), "h_long::8": (1, 2), "h_free": (2,), "h_defaults_any": (1, 3, 4), "h_value_any": (1, 2, 3, 4), "h_ident_at": (1,), "h_literal_at": (1,), "h_literal_sel": (1,),
    "h_integer": (1, 2), "h_leading_zeros": (1, 2), "h_decimals": (1,), "h_words": (1, 2), "h_hex": (1, 2), "h_layout": (1,), "h_case": (1,), "h_sequence": (1,),
    "h_members": (1,), "h_col_settings": (1,), "h_types": (1,), "h_dims": (1, 2), "h_references": (1,), "h_index_defs": (1,), "h_closed_word": (1, 2), "h_big": (1,), "h_big_sequence": (1,), "h_alone": (1,), "h_join": (1, 2), "h_settings_of": (1,), "h_conversions": (1, 2), "h_query": (1, 3, 4, 5, 6),
}
for _f in FAM:
    for _m, _c in ((VERDICT, (1, 2)), (ORDER, (1, 2)), (SPELL, (1, 2)), (ERROR, (1, 2)), (SAME, (1, 3)), (QUERY, (1,)), (RENAME, (1, 2)), (PAD, (1, 2)), (PADMORE, (1, 2)), (LAYOUT, (1, 2)), (SHOWN, (1, 2, 3)), (RUN, (1, 3, 4)), (RUNNAMED, (1, 3, 4))):
        NEED[f"h_{_f}::{_m}"] = _c
NEED["h_relations::12"] = (1, 3)


def need(spec):
    """the witness group a scenario belongs to"""
    n, a, b = spec.split(":")
    k = f"{n}::{b}"
    return (k, NEED[k]) if k in NEED else (n, NEED.get(n, ()))
