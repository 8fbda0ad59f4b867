"""What is explored for each property."""
import json, os
import schemas

def tset(xs):
    return "{" + ",".join('"%s"' % x for x in xs) + "}"

# ------------------------------------------------------------------- scalars
def scalar(ctx, part):
    """Exhaustive short texts over several alphabets, then seeded long ones."""
    runs = ctx.pick(
        [("0179axob_+-.e~", 3, [""]),
         ("0129+-.e", 4, [""]),
         ("01+-._", 3, ["0x", "-0x", "+0x", "0o", "-0b", "0X", ".in", "-.in"]),
         ("01+-", 2, ["0b", "+0b", "+0o", "+0x", "-0o", "++", "--", "+-", "-+"]),
         ("nulNULtruTRfaseFAE~", 2, ["n", "N", "NU", "nu", "nul", "tru", "Tru", "TRU", "fals", "Fals", "FALS", "~", ""]),
         ("infINFanAN.+-", 2, [".", "+.", "-.", ".i", ".I", ".in", ".IN", ".n", ".N", ".na", ".Na", ".NA", ""])],
        [("0179axob_+-.e~", 4, [""]),
         ("0129+-.eE", 5, [""]),
         ("01789aF+-._", 3, ["0x", "-0x", "+0x", "0o", "-0o", "+0o", "0b", "-0b", "+0b", "0X", ".in", "-.in"]),
         ("01+-._", 3, ["++", "--", "+-", "-+"]),
         ("nulNULtruTRfaseFAE~", 3, ["n", "N", "NU", "nu", "nul", "tru", "Tru", "TRU", "fals", "Fals", "FALS", "~", ""]),
         ("infINFanAN.+-", 3, [".", "+.", "-.", ".i", ".I", ".in", ".IN", ".n", ".N", ".na", ".Na", ".NA", ""])])
    for i, (alpha, n, seeds) in enumerate(runs):
        cases = ctx.tlc("ScalarGen", {"Alphabet": tset(sorted(set(alpha))), "MaxLen": n,
                                      "Seeds": tset(seeds)},
                        ["Exclusive", "Widening", "QuotingSound", "CanonStable", "Emit"], name="scalar%d" % i)
        ctx.replay(cases, part)
    inputs = ctx.gen("scalar", ctx.pick(6000, 60000))
    cases = ctx.tlc("ScalarJudge", {"Lanes": 6}, ["QuotingSound", "CanonStable", "Emit"], inputs=inputs)
    ctx.replay(cases, part)

def numbers(ctx):
    """Floats and literals by exact arithmetic: the hard literals of the model, and recorded numbers."""
    offsets, exponents = ctx.pick(
        ("{0, 1, 2}", "{-1074, -1073, -1060, -200, -53, -52, -1, 0, 1, 60, 600, 970, 971}"),
        ("{0, 1, 2, 3, 1000}", "(-1074..-1065) \\cup {-1022 + 90 * i : i \\in 0..20} \\cup (-60..12) \\cup (960..971)"))
    cases = ctx.tlc("FloatGen", {"Offsets": offsets, "Exponents": exponents, "Signs": "{TRUE, FALSE}", "Cut": 800},
                    ["Agrees", "OnlyOne", "Emit"])
    ctx.replay(cases)
    traces = ctx.record(ctx.gen("float", ctx.pick(6000, 60000)), {})
    ctx.verdicts(ctx.tlc("FloatJudge", {"Lanes": 6}, ["Emit"], inputs=traces), traces)

# ----------------------------------------------------------------- documents
def q(x):
    return '"' + x.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'
def words(*ws):
    """Vocabulary: (text, style, tag) with style and tag optional."""
    out = []
    for w in ws:
        if isinstance(w, str):
            w = (w,)
        w = w + ("p", "")[len(w) - 1:]
        out.append("<<%s>>" % ", ".join(q(x) for x in w))
    return "{" + ", ".join(out) + "}"

DOC_INV = ["Resolution", "Transparent", "ThroughValue", "NoEscape", "Located", "Emit"]
def docgen(ctx, part, name, vocab, use, nodes, depth=9, tags=("",), anchors=("",), unknown=(), cycles=False):
    path = os.path.join(ctx.out, "schemas.jsonl")
    schemas.write(path)
    ctx.env["SCHEMAS"] = path
    use = schemas.ALL if use == "all" else schemas.idx(*use)
    cases = ctx.tlc("DocGen", {"Vocab": words(*vocab), "CollTags": tset(tags), "Names": tset(anchors),
                               "Unknown": tset(unknown), "MaxNodes": nodes, "MaxDepth": depth, "Cycles": "TRUE" if cycles else "FALSE",
                               "Use": "{" + ",".join(map(str, use)) + "}"},
                    DOC_INV, env={"SCHEMAS": path}, name="doc-" + name)
    ctx.replay(cases, part)

def docjudge(ctx, part, what, n):
    inputs = ctx.gen(what, n)
    cases = ctx.tlc("DocJudge", {"Lanes": 6}, ["Resolution", "Transparent", "ThroughValue", "Emit"], inputs=inputs, name="doc-" + what)
    ctx.replay(cases, part)

ENUMS = ["any", "enum", "enum-unit", "seq-enum", "map-enum", "opt-enum", "new-enum", "enum-scalars", "enum-colls", "enum-nest",
         "enum-opt", "enum-any", "struct-enum"]
LONG = "a-name-that-is-longer-than-any-small-fixed-size-of-a-buffer-would-allow-for-0"
FEW = ["any", "ign", "str", "opt-any", "seq-any", "tup2", "map", "map-seqkey", "struct-xy", "struct-opt", "enum", "struct-enum", "map-opt"]
KEPT = schemas.KEPT
TAGGED = [n for n in KEPT if "tag" in n.replace("untag", "") or "flat" in n]
KEPT_SC = ["", "x", "1", "-5", "1.5", "true", "null", ".inf", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "0x1F", "007", "1e999", ("1", "s"), ("", "d"), ("1", "p", "!A"), ("x", "p", "!B"), ("1", "p", "!!str"),
           ("18446744073709551616", "p", "!!int"), ("null", "p", "!!null"), ("x", "p", "!!bool"), ("1", "p", "!!float")]
DOCS = {  # name: (quick, thorough)
    "plain": (dict(vocab=["x", "1"], use="all", nodes=5), dict(vocab=["x", "1", ""], use="all", nodes=6)),
    "keys": (dict(vocab=["x", "y", ("x", "d")], use=["any", "map", "map-str", "map-opt", "struct-x", "struct-xy", "struct-opt", "struct-deny", "struct-nest", "struct0", "map-map", "ign"], nodes=5),
             dict(vocab=["x", "y", ("x", "d"), "0.0", "-0.0"], use=["any", "map", "map-str", "map-opt", "struct-x", "struct-xy", "struct-opt", "struct-deny", "struct-nest", "struct0", "map-map", "ign"], nodes=6)),
    "tags": (dict(vocab=["x", "", ("1", "p", "!A"), ("A", "s")], use="all", nodes=3, tags=("", "!A", "!D", "!C", "!zz")),
             dict(vocab=["x", "", ("1", "p", "!A"), ("A", "s")], use="all", nodes=4, tags=("", "!A", "!D", "!C", "!zz"))),
    "enums": (dict(vocab=["x", ("", "p", "!B"), ("1", "p", "!A"), "B", ("null", "p", "!A")], use=ENUMS, nodes=4, tags=("", "!A", "!D", "!C", "!B")),
              dict(vocab=["x", ("", "p", "!B"), ("1", "p", "!A"), "B", ("null", "p", "!A"), ("x", "d", "!D")], use=ENUMS, nodes=5, tags=("", "!A", "!D", "!C"))),
    "core": (dict(vocab=[("x", "p", "!!null"), ("1", "s"), ("", "p", "!!null"), ("null", "p", "!A"), ("1", "p", "!!str"), ("x", "l"), ("1", "l", "!!int"),
                         ("true", "d", "!!bool"), ("1", "p", "!!float"), "null", "1.5", "true", ("x", "p", "!!seq")], use="all", nodes=2, tags=("", "!!map", "!!seq", "!A")),
             dict(vocab=[("x", "p", "!!null"), ("1", "s"), ("", "p", "!!null"), ("null", "p", "!A"), ("1", "p", "!!str"), ("x", "l"), ("1", "l", "!!int"),
                         ("true", "d", "!!bool"), ("1", "p", "!!float"), "null", "1.5", "true", ("x", "p", "!!seq"), "-0", "0x1F", "0777", "1e3"], use="all", nodes=3, tags=("", "!!map", "!!seq", "!A"))),
    "anchors": (dict(vocab=["x"], use=FEW, nodes=4, anchors=("", LONG + "1", LONG + "2"), unknown=("zz",)),
                dict(vocab=["x", "1"], use=FEW, nodes=5, anchors=("", "a", "b"), unknown=("zz",))),
    "aliases": (dict(vocab=["x", "1"], use="all", nodes=3, anchors=("", "a"), unknown=("zz",)),
                dict(vocab=["x", "1", ""], use="all", nodes=4, anchors=("", "a"), unknown=("zz",))),
    "aliastags": (dict(vocab=["x", ("", "p", "!B"), ("1", "p", "!A")], use=ENUMS, nodes=4, anchors=("", "a"), tags=("", "!C")),
                  dict(vocab=["x", ("", "p", "!B"), ("1", "p", "!A")], use=ENUMS, nodes=5, anchors=("", "a"), tags=("", "!A", "!C", "!D"))),
    "cycles": (dict(vocab=["x"], use=["any", "ign", "seq-any", "map", "struct-x"], nodes=3, anchors=("", "a"), cycles=True),
               dict(vocab=["x"], use=["any", "ign", "seq-any", "map", "enum", "opt-any", "new-any", "struct-x"], nodes=4, anchors=("", "a"), tags=("", "!A"), cycles=True)),
    "kept": (dict(vocab=["t", "A", "x"], use=KEPT, nodes=5, tags=("", "!A")), dict(vocab=["t", "A", "x", "1"], use=KEPT, nodes=6, tags=("", "!A"))),
    "kept-scalars": (dict(vocab=KEPT_SC, use=KEPT, nodes=3, tags=("", "!A", "!!map")), dict(vocab=KEPT_SC, use=KEPT, nodes=3, tags=("", "!A", "!!map"))),
    "kept-maps": (dict(vocab=["t", "c", "B", "1"], use=TAGGED, nodes=5), dict(vocab=["t", "c", "A", "1"], use=TAGGED, nodes=7)),
    "kept-aliases": (dict(vocab=["x", "t", "A"], use=KEPT, nodes=4, anchors=("", "a"), unknown=("zz",)), dict(vocab=["x", "t", "A"], use=KEPT, nodes=5, anchors=("", "a"), unknown=("zz",))),
    "keep": (3000, 40000),
    "random": (3000, 40000),
    "deep": (60, 600),
}
def doc(ctx, part, runs):
    for name in runs:
        x = ctx.pick(*DOCS[name])
        if name in ("random", "deep", "keep"):
            docjudge(ctx, part, "doc" if name == "random" else name, x)
        else:
            docgen(ctx, part, name, **x)

def fans(ctx):
    inputs = ctx.gen("fan", ctx.pick(150, 2000))
    cases = ctx.tlc("FanJudge", {"Lanes": 6}, ["Emit"], inputs=inputs)
    ctx.replay(cases)

# ------------------------------------------------------------------- streams
def tla(x):
    """A Python value as a TLA+ expression."""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return q(x)
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(map(tla, x)) + ">>"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(map(tla, x))) + "}"
    return "[" + ", ".join("%s |-> %s" % (k, tla(v)) for k, v in x.items()) + "]"
def sc(v, st="p", tag="", an=""):
    return dict(k="sc", v=v, st=st, tag=tag, an=an)
def coll(k, kids, tag="", an=""):
    return dict(k=k, kids=kids, tag=tag, an=an)
def al(an):
    return dict(k="al", an=an, to=0)
def ok(*nodes):
    return dict(kind="ok", nodes=list(nodes))
def broken(text):
    return dict(kind="broken", text=text)
POOL = [ok(coll("seq", [2, 3], an="a"), sc("1"), sc("2", an="b")),
        ok(coll("seq", [2, 3, 6]), al("b"), coll("map", [4, 5]), sc("k", an="a"), sc("v"), coll("seq", [7, 8]), al("zz"), al("a")),    # (b is another document's)
        ok(sc("x")), ok(sc("")), broken("[a"),
        ok(coll("map", [2, 3]), sc("x"), sc("300", an="a")),
        ok(coll("seq", [2, 3]), sc("1", an="b"), al("b")),
        broken('"abc'), ok(sc("null", "p", "!A")), ok(sc("two\nlines", "d"))]
def stream(ctx, part, docs, hist, pool, use, sources=("str", "slice", "read", "fail"), name="stream"):
    path = os.path.join(ctx.out, "schemas.jsonl")
    schemas.write(path)
    ctx.env["SCHEMAS"] = path
    cases = ctx.tlc("StreamGen", {"Pool": tla(POOL[:pool]), "MaxDocs": docs, "MaxHist": hist, "Sources": tset(sources),
                                  "Use": tla(set(schemas.idx(*use)))},
                    ["InOrder", "Independent", "NothingIgnored", "Emit"], env={"SCHEMAS": path}, name=name)
    ctx.replay(cases, part)
def streams(ctx, part):
    stream(ctx, part, 3, 3, ctx.pick(7, 10), ["any", "seq-u8"], name="stream-short")
    stream(ctx, part, 2, ctx.pick(4, 5), ctx.pick(5, 7), ["any", "seq-u8"], sources=("str", "read"), name="stream-histories")
    stream(ctx, part, 3, 1, 10, schemas.NAMES, sources=("str", "slice", "read"), name="stream-single")
    inputs = ctx.gen("stream", ctx.pick(2000, 30000))
    cases = ctx.tlc("StreamJudge", {"Lanes": 6}, ["Emit"], inputs=inputs)
    ctx.replay(cases, part)

# ------------------------------------------------------------------- sources
BYTES = [0x00, 0x20, 0x22, 0x41, 0x7f, 0x80, 0x85, 0x8f, 0x90, 0x9f, 0xa0, 0xa8, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe2, 0xec, 0xed, 0xef,
         0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xfe, 0xff]
def sources(ctx):
    for n, calls, intr in ctx.pick([(4, 6, 1)], [(6, 8, 1), (3, 8, 3)]):
        cases = ctx.tlc("SourceGen", {"N": n, "MaxCalls": calls, "MaxInterrupts": intr}, ["Complete", "Emit"])
        ctx.replay(cases)
    for alpha, n in ctx.pick([(BYTES, 3), ([0x41, 0x80, 0x8f, 0x90, 0xbf, 0xc2, 0xe0, 0xed, 0xf0, 0xf4], 4)],
                             [(BYTES, 4), ([0x41, 0x80, 0x8f, 0x90, 0xa0, 0xbf, 0xc2, 0xe0, 0xed, 0xf0, 0xf4], 5)]):
        cases = ctx.tlc("Utf8Gen", {"Bytes": tla(set(alpha)), "MaxLen": n}, ["Faithful", "Emit"])
        ctx.replay(cases)

# ------------------------------------------------------------------- writing
def leaf(k, n="", s="", ms=()):
    return dict(k=k, n=n, s=s, kids=[], len="", ms=list(ms), hint1=False)
def call(k, n="", ms=(), len="exact", hint1=False):
    return dict(k=k, n=n, s="", kids=[], len=len, ms=ms if isinstance(ms, str) else list(ms), hint1=hint1)
def maps(*modes):
    return [call("map", ms=m, len=l, hint1=h) for m in modes for l, h in (("exact", True), ("exact", False))]
SER_INV = ["RefusesOnlyThat", "OneMachine", "SameValue", "Clean", "Restores", "Emit"]
SER_LEAVES = [leaf("unit"), leaf("none"), leaf("ustruct"), leaf("bool", s="true"), leaf("int", "u8", "7"), leaf("int", "i64", "-5"),
              leaf("int", "i128", "18446744073709551616"), leaf("float", "f64", "2.0"), leaf("float", "f32", "1.5"), leaf("float", "f64", ".nan"),
              leaf("char", s="7"), leaf("str", s="x"), leaf("str", s="1"), leaf("str", s="a\nb\n"), leaf("str"), leaf("bytes", s="12"),
              leaf("uvar", "A"), leaf("uvar", "true"), leaf("disp", ms=["!", "T"]), leaf("disp", ms=["!T"]), leaf("disp", ms=["!", "T", "u"])]
# numbers at the edges of their types and of what a Value holds
SER_NUMS = [leaf("int", t, str(n)) for t, n in (("i128", -2**127), ("i128", -2**63 - 1), ("i128", -2**63), ("i128", -1), ("i128", 0), ("i128", 2**63 - 1), ("i128", 2**63), ("i128", 2**64 - 1),
    ("i128", 2**64), ("i128", 2**127 - 1), ("u128", 0), ("u128", 2**63), ("u128", 2**64 - 1), ("u128", 2**64), ("u128", 2**128 - 1), ("i64", -2**63), ("i64", 2**63 - 1), ("u64", 2**63), ("u64", 2**64 - 1),
    ("i8", -128), ("i16", -32768), ("i32", -2**31), ("u16", 65535), ("u32", 2**32 - 1))] + \
    [leaf("float", "f64", t) for t in ("0.0", "-0.0", ".inf", "-.inf", "1e300", "5e-324", "0.1", "1e16", "123456789012345680.0")] + [leaf("float", "f32", t) for t in ("-0.0", ".inf", "-.inf", ".nan", "0.5")]
SER_WRAPS = [call("some"), call("nst"), call("nvar", "A"), call("nvar", "1")]
SER_COLLS = [call("seq"), call("seq", len="none"), call("tup"), call("tst"), call("tvar", "A"), call("struct"), call("svar", "A")] + \
    maps("entry", "kv") + [call("map", ms="entry", len="none"), call("map", ms="kv", len="none")]
SER = {  # name: (quick, thorough)
    "all": (dict(leaves=SER_LEAVES, wraps=SER_WRAPS, colls=SER_COLLS, nodes=3), dict(leaves=SER_LEAVES, wraps=SER_WRAPS, colls=SER_COLLS, nodes=4)),
    "maps": (dict(leaves=[leaf("str", s="x"), leaf("disp", ms=["!", "T"])], wraps=[call("nst"), call("nvar", "A")], colls=[call("seq"), call("svar", "B")] + maps("entry"), nodes=5),
             dict(leaves=[leaf("str", s="x"), leaf("disp", ms=["!", "T"])], wraps=[call("some"), call("nvar", "A")], colls=[call("seq"), call("svar", "B")] + maps("entry", "kv"), nodes=5)),
    "enums": (dict(leaves=[leaf("uvar", "A"), leaf("int", "u8", "1"), leaf("none")], wraps=SER_WRAPS[:3], colls=[call("tvar", "B"), call("svar", "C"), call("struct"), call("map", ms="entry", hint1=True)], nodes=4),
              dict(leaves=[leaf("uvar", "A"), leaf("int", "u8", "1"), leaf("none")], wraps=SER_WRAPS[:3], colls=[call("tvar", "B"), call("svar", "C"), call("struct"), call("map", ms="entry", hint1=True)], nodes=5)),
}
SER["numbers"] = tuple(dict(leaves=SER_NUMS, wraps=[call("some"), call("nst"), call("nvar", "A")], colls=[call("seq"), call("svar", "A")] + maps("entry"), nodes=n) for n in (3, 3))
SER["random"] = (4000, 60000)
def recs(xs):
    return "{" + ", ".join(tla(x) for x in xs) + "}"
def ser(ctx, part, runs):
    for name in runs:
        x = ctx.pick(*SER[name])
        if name == "random":
            cases = ctx.tlc("SerJudge", {"Lanes": 6}, ["RefusesOnlyThat", "SameValue", "Restores", "Emit"], inputs=ctx.gen("ser", x), name="ser-random")
            ctx.replay(cases, part)
            continue
        cases = ctx.tlc("SerGen", {"Leaves": recs(x["leaves"]), "Wraps": recs(x["wraps"]), "Colls": recs(x["colls"]),
                                   "MaxNodes": x["nodes"], "MaxDepth": 9}, SER_INV, name="ser-" + name)
        ctx.replay(cases, part)

# ------------------------------------------------------------------- sinks
def table(*cs):
    return [dict(c, kids=list(k)) for c, k in cs]
SINK_POOL = [
    table((leaf("str", s="x"), ())),
    table((call("struct", ms=["x", "y1"]), (2, 3)), (leaf("str", s="a\nb\n\n"), ()), (call("map", ms="entry", hint1=True), (4, 5)), (leaf("disp", ms=["!", "T"]), ()), (leaf("none"), ())),
    table((leaf("str", s="end\n\n"), ())),                                     # open-ended
    table((call("seq"), (2, 3)), (leaf("int", "u8", "7"), ()), (leaf("bytes", s="12"), ())),   # refused
    table((call("tvar", "A"), (2, 3, 4)), (leaf("big", s="3000"), ()), (call("map", ms="kv"), ()), (leaf("big", s="5000"), ())),
    table((call("seq"), (2, 3)), (leaf("big", s="9000"), ()), (leaf("bytes", s="12"), ())),   # refused late
]
def sink(ctx):
    size = [dict(size=2, refused=i in (3, 5)) for i in range(len(SINK_POOL))]
    kinds = "{%s}" % ", ".join('"%s"' % k for k in ("other", "eof", "block", "pipe", "zero", "data"))
    for docs, answers in ctx.pick([(2, 3)], [(3, 3), (2, 5)]):
        cases = ctx.tlc("SinkGen", {"Docs": tla(size), "MaxDocs": docs, "MaxAnswers": answers, "Kinds": kinds},
                        ["Prefix", "Delivered", "Surfaced", "FlushSurfaced", "Emit"])
        traces = ctx.record(cases, SINK_POOL)
        ctx.verdicts(ctx.tlc("SinkJudge", {"Lanes": 6}, ["Emit"], inputs=traces), traces)

# --------------------------------------------------------------------- soups
VOCAB = ["a", "1", ": ", "- ", "\n", "\n  ", "[", "]", "{", "}", ", ", "---\n", "...\n", "&a ", "*a ", "!t ", "!!int ", "~", "'q'", '"d\\n"', "? ",
         "--- ", "! ", "|\n ", ">-\n ", "#c\n", "<<", "%YAML 1.2\n", "%TAG !e! x\n", "!!map ", "!<x> ", ":", "-", "\t", "\r\n", '"', "'", "@", "\\", "\ufeff",
         "\u0085", "\u00e9", "\u0000", 0xff, 0xc3, "!!str ", "|2\n", "*b", "!", "!!null ", "!%ED%A0%80 ", "!a%20b ", "!%C3%A9 ", "0\u20ac", "+\u00e9", "-0\u20ac", ".\u20ac", "0x\u20ac"]
TYPES = ["any", "ign", "str", "opt-any", "seq-any", "tup2", "map", "map-str", "struct-xy", "struct-opt", "enum", "enum-any", "sm-enum", "take1", "u64", "i64", "i128", "f64", "bool", "char", "sos", "untag-coll", "bbuf"]
CLAUSES = ["Total", "Sources", "Ends", "Independent", "SingleDoc", "Skippable", "Valued"]
def soup(ctx, clauses=CLAUSES, sizes=(([(len(VOCAB), 2), (26, 3), (13, 4)], 25000), ([(len(VOCAB), 3), (24, 4), (12, 5), (6, 7)], 200000))):
    path = os.path.join(ctx.out, "schemas.jsonl")
    schemas.write(path)
    ctx.env["SCHEMAS"] = path
    pool = {"vocab": VOCAB, "types": schemas.idx(*[t for t in TYPES if t in schemas.NAMES])}
    which = {"Lanes": 6, "Clauses": tla(set(clauses))}
    exact, random = ctx.pick(*sizes)
    for n, length in exact:
        cases = ctx.tlc("SoupGen", {"N": n, "MaxLen": length}, ["Emit"], name="soup-%d-%d" % (n, length))
        traces = ctx.record(cases, pool)
        ctx.verdicts(ctx.tlc("SoupJudge", which, ["Emit"], inputs=traces, heap="12g"), traces)
    traces = ctx.record(ctx.gen("soup", random), pool)
    ctx.verdicts(ctx.tlc("SoupJudge", which, ["Emit"], inputs=traces, heap="12g"), traces)

# -------------------------------------------------------------------- Values
def vnull(): return dict(k="null")
def vb(b): return dict(k="bool", b=b)
def vi(n): return dict(k="int", s=str(n))
def vf(t): return dict(k="float", t=t)
def vs(s): return dict(k="str", s=s)
def vseq(*e): return dict(k="seq", e=list(e))
def vmap(*e): return dict(k="map", e=[list(x) for x in e])
def vtag(t, v): return dict(k="tag", t=t, v=v)
KEYS = [vs("a"), vs("b"), vi(1), vf("1.0"), vtag("t", vs("a")), vmap((vs("a"), vi(1)), (vi(2), vnull())), vmap((vi(2), vnull()), (vs("a"), vi(1))), vnull(), vs("1"), vb(True), vseq(vs("a")), vf("nan"), vf("0.0"), vf("-0.0"), vs("")]
def mappings(ctx):
    inv = ["Unique", "Lookup", "KeepsOrder", "Emit"]
    vals = [vi(7), vnull()]
    for name, keys, start, ops in ctx.pick(
            [("kinds", KEYS, 2, 1), ("four", [KEYS[0], KEYS[1], KEYS[3], KEYS[5]], 4, 1), ("two", [KEYS[0], KEYS[2]], 2, 2)],
            [("kinds", KEYS, 3, 1), ("four", [KEYS[0], KEYS[1], KEYS[3], KEYS[5]], 4, 2), ("two", [KEYS[0], KEYS[2]], 2, 3)]):
        cases = ctx.tlc("MapGen", {"Keys": tla(keys), "Vals": tla(vals), "MaxStart": start, "MaxOps": ops, "Last": "TRUE"}, inv, name="map-" + name)
        ctx.replay(cases)
    n, length = ctx.pick((200, 30), (3000, 60))
    cases = ctx.tlc("MapGen", {"Keys": tla(KEYS[:10]), "Vals": tla(vals), "MaxStart": 1, "MaxOps": length, "Last": "TRUE"}, inv, name="map-long", simulate=(n, length + 2))
    ctx.replay(cases)
ATOMS = [vnull(), vb(False), vb(True), vi(0), vi(1), vi(-1), vi(2), vi(10), vi(-9223372036854775808), vi(9223372036854775807), vi(9223372036854775808), vi(18446744073709551615),
         vf("0.0"), vf("-0.0"), vf("1.0"), vf("-1.5"), vf("1e100"), vf("2.5"), vf("10.0"), vf("nan"), vf("inf"), vf("-inf"), vs(""), vs("a"), vs("!a"), vs("ab"), vs("1"), vs("null"), vs("b")]
SMALL = [vi(1), vs("a"), vf("nan"), vf("1.0"), vnull(), vb(True), vi(-1), vf("0.0")]
PRIMS = [dict(ty=t, v=vi(n)) for t, ns in (("i8", (-1, 1, 2)), ("i16", (-1, 1)), ("i32", (1, -1, 10)), ("i64", (-9223372036854775808, 9223372036854775807, 0, 1)), ("isize", (1, -1)),
                                            ("u8", (0, 1, 2)), ("u16", (1,)), ("u32", (10,)), ("u64", (1, 9223372036854775808, 18446744073709551615, 9223372036854775807)), ("usize", (1, 0))) for n in ns] + \
    [dict(ty=t, v=vf(x)) for t in ("f32", "f64") for x in ("0.0", "1.0", "-1.5", "nan", "inf", "10.0")] + \
    [dict(ty="bool", v=vb(True)), dict(ty="bool", v=vb(False))] + [dict(ty="str", v=vs(x)) for x in ("", "a", "!a", "1", "null")]
def normal(v):
    """Equal values have equal normal forms."""
    if v["k"] == "float":
        return "f" + v["t"].lstrip("-") if v["t"] in ("0.0", "-0.0") else "f" + v["t"]
    if v["k"] == "seq":
        return ["seq"] + [normal(x) for x in v["e"]]
    if v["k"] == "map":
        return ["map"] + sorted(json.dumps([normal(x), normal(y)]) for x, y in v["e"])
    if v["k"] == "tag":
        return ["tag", v["t"], normal(v["v"])]
    return json.dumps(v)
def colls(t, u):
    out = [vseq(), vmap()] + [vseq(x) for x in t] + [vseq(x, y) for x in t for y in u] + [vmap((x, y)) for x in t for y in u]
    return out + [vtag(n, x) for n in ("a", "b", "ab") for x in t]
def pool(small):
    a, b = small[:2]
    m = vmap((a, b), (b, a))
    nest = [vseq(a), m, vmap((b, a), (a, b)), vtag("a", a), vmap(), vmap((m, a)), vmap((vmap((b, a), (a, b)), a))]
    two = [vmap((x, a), (y, z)) for x in small for y in small for z in (a, b)]
    deep = colls(nest, [a]) + [vmap((x, a), (b, a)) for x in nest] + [vmap((b, a), (x, a)) for x in nest] + [vmap((x, a), (y, b)) for x in nest for y in nest]
    ok = lambda v: v["k"] != "map" or all(normal(x[0]) != normal(y[0]) for i, x in enumerate(v["e"]) for y in v["e"][:i])
    return ATOMS + [v for v in colls(small, [a, b]) + two + deep if ok(v)]
def write_lines(ctx, name, xs):
    path = os.path.join(ctx.out, name)
    with open(path, "w", encoding="utf-8") as f:
        for x in xs:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    return path
def order(ctx):
    inv = ["Reflexive", "Pairs", "Three", "Emit"]
    vals = pool(SMALL[:ctx.pick(6, 8)])
    cases = ctx.tlc("ValueGen", {"Prims": tla(PRIMS), "Triples": "FALSE"}, inv, inputs=write_lines(ctx, "pool", vals), name="pairs")
    ctx.replay(cases)
    vals = ATOMS[::ctx.pick(3, 1)] + pool(SMALL[:3])[len(ATOMS)::ctx.pick(2, 1)]
    ctx.tlc("ValueGen", {"Prims": tla(PRIMS), "Triples": "TRUE"}, inv, inputs=write_lines(ctx, "pool3", vals), name="triples")

BIG = [4294967296, 4294967297, 9223372036854775808, 18446744073709551615]       # (0, 1 and -1 in fewer bits)
IDX = [dict(k="pos", key=vi(0)), dict(k="pos", key=vi(1)), dict(k="pos", key=vi(BIG[0])), dict(k="str", key=vs("a")), dict(k="str", key=vs("b")), dict(k="val", key=vtag("t", vs("a"))), dict(k="val", key=vnull()), dict(k="val", key=vseq(vs("a"))), dict(k="val", key=vi(1))]
INDEXED = [vnull(), vb(True), vi(-1), vi(9223372036854775807), vi(18446744073709551615), vf("2.0"), vs("a"), vs(""), vseq(), vseq(vs("a"), vmap((vs("a"), vi(1)))), vmap(),
           vmap((vs("a"), vnull()), (vi(0), vseq(vi(3))), (vs("b"), vtag("t", vnull()))), vmap((vi(-1), vb(True)), (vi(9223372036854775808), vs("big")), (vi(0), vs("x"))), vmap((vi(1), vs("x")), (vtag("t", vs("a")), vi(5)), (vnull(), vb(True)), (vseq(vs("a")), vi(6)), (vs("a"), vmap((vs("b"), vi(7)))))]
INDEXED += [vtag("T", v) for v in INDEXED] + [vtag("T", vtag("U", INDEXED[i])) for i in (0, 9, 13)]
def indexing(ctx):
    inv = ["WrittenIsRead", "PanicKeeps", "OthersKept", "ReadsKeep", "GetThenSet", "Emit"]
    for name, vals, idx, new, path, ops in ctx.pick(
            [("all", INDEXED, IDX, [vi(9), vnull()], 2, 1), ("large", INDEXED, [dict(k="pos", key=vi(n)) for n in BIG], [vi(9)], 1, 2), ("histories", INDEXED[::4], IDX[:2] + IDX[3:5], [vi(9)], 1, 3)],
            [("all", INDEXED, IDX, [vi(9), vnull(), vmap((vs("a"), vi(1)))], 3, 1), ("pairs", INDEXED, IDX[:7], [vi(9), vmap()], 2, 2), ("large", INDEXED, [dict(k="pos", key=vi(n)) for n in BIG], [vi(9), vmap()], 2, 2), ("histories", INDEXED[::2], IDX[:2] + IDX[3:5], [vi(9), vnull()], 1, 3)]):
        cases = ctx.tlc("IndexGen", {"Idx": tla(idx), "New": tla(new), "MaxPath": path, "MaxOps": ops}, inv, inputs=write_lines(ctx, "pool-" + name, vals), name="index-" + name)
        ctx.replay(cases)
def merging(ctx):
    for name, leaves, keys, tags, nodes in ctx.pick(
            [("keys", [vi(1)], ["<<", "a"], (), 7), ("shapes", [vi(1), vnull()], ["<<", "a", "b"], ("T",), 5)],
            [("keys", [vi(1)], ["<<", "a"], (), 8), ("shapes", [vi(1), vs("<<")], ["<<", "a", "b"], ("T",), 6)]):
        cases = ctx.tlc("MergeGen", {"Leaves": tla(leaves), "Keys": tla([vs(k) for k in keys]), "Tags": tset(tags), "MaxNodes": nodes, "MaxDepth": nodes}, ["MergeRules", "Emit"], name="merge-" + name)
        ctx.replay(cases)
    cases = ctx.tlc("MergeJudge", {"Lanes": 6}, ["MergeRules", "Emit"], inputs=ctx.gen("merge", ctx.pick(3000, 60000)))
    ctx.replay(cases)

def vread(ctx, use=schemas.ALL):
    path = os.path.join(ctx.out, "schemas.jsonl")
    schemas.write(path)
    ctx.env["SCHEMAS"] = path
    leaves = [vnull(), vb(True), vi(1), vi(-1), vi(300), vi(18446744073709551615), vf("1.5"), vf("nan"), vs("x"), vs("A"), vs("B"), vs(""), vseq(), vmap()]
    use = "{" + ",".join(map(str, use)) + "}"
    for name, ls, sides, tags, n in ctx.pick(
            [("wide", leaves, [vnull(), vs("A"), vi(1)], ["A", "B", "C", "D", "zz"], 2), ("deep", [vnull(), vs("x"), vi(1), vmap()], [vs("x")], ["A", "B"], 4)],
            [("wide", leaves, [vnull(), vs("x"), vs("A"), vs("B"), vi(1), vb(True)], ["A", "B", "C", "D", "zz"], 2), ("wider", leaves[::2], [vs("x"), vi(1)], ["A", "C", "D"], 3),
             ("deep", [vnull(), vs("x"), vi(1), vmap(), vseq()], [vs("x")], ["A", "B", "D"], 5)]):
        cases = ctx.tlc("VReadGen", {"Leaves": recs(ls), "Tags": tset(tags), "Sides": recs(sides), "MaxLayers": n, "Use": use},
                        ["TagsSeenThrough", "Emit"], env={"SCHEMAS": path}, name="vread-" + name)
        ctx.replay(cases)

STOPS = ["any"] + [n for n in schemas.NAMES if "take" in n or "ask" in n or "ename" in n or "eskip" in n]
DOCS["stops"] = (dict(vocab=["x", "1"], use=STOPS, nodes=5), dict(vocab=["x", "1", ""], use=STOPS, nodes=6))
DOCS["stops2"] = (dict(vocab=["A", ("x", "p", "!B"), ("A", "d")], use=STOPS, nodes=4, anchors=("", "a"), tags=("", "!A")),
                  dict(vocab=["A", ("x", "p", "!B"), ("A", "d"), ""], use=STOPS, nodes=5, anchors=("", "a"), tags=("", "!A")))
ADAPT = ["any", "enum"] + [n for n in schemas.NAMES if "sm" in n and n not in schemas.EXTRA]
DOCS["adapters"] = (dict(vocab=["x", "1", "A", "B"], use=ADAPT, nodes=4, tags=("", "!A")),
                    dict(vocab=["x", "1", "A", "C"], use=ADAPT, nodes=5, tags=("", "!A", "!C")))
DOCS["adapters2"] = (dict(vocab=["x", ("", "p", "!B"), ("null", "p", "!A"), ("A", "s"), "D"], use=ADAPT, nodes=3, anchors=("", "a"), tags=("", "!A", "!D")),
                     dict(vocab=["x", ("", "p", "!B"), ("null", "p", "!A"), ("A", "s"), "D"], use=ADAPT, nodes=4, anchors=("", "a"), tags=("", "!A", "!D")))
# (variants that are complete without content, so that something may follow it)
DOCS["adapters3"] = (dict(vocab=["x", "A", "C", "D"], use=["sm-brief", "smr-brief", "sm-enum"], nodes=5),
                     dict(vocab=["x", "A", "B", "C", "D"], use=["sm-brief", "smr-brief", "sm-enum", "sm-nest"], nodes=6))
DOCS["adapters-scalars"] = tuple(dict(vocab=["x", "1", "-1", "300", "-129", "70000", "5000000000", "18446744073709551615", "18446744073709551616", "1.5", ".nan", "true", "~", "", "0x1F", ("1", "s"), ("1", "p", "!A"), ("", "p", "!A"), ("null", "d"), ("1", "p", "!!int")],
                                        use=[n for n in schemas.NAMES if n.startswith("all-")], nodes=n, tags=("", "!A")) for n in (2, 3))
ADAPTERS = [call("sm"), call("smr")]
SINGLE = {
    "enums": (dict(leaves=[leaf("uvar", "A"), leaf("int", "u8", "1"), leaf("none")], wraps=[call("some"), call("nvar", "A")], colls=[call("tvar", "B"), call("svar", "C"), call("seq"), call("map", ms="entry", hint1=True)], nodes=4),
              dict(leaves=[leaf("uvar", "A"), leaf("int", "u8", "1"), leaf("none")], wraps=[call("some"), call("nst"), call("nvar", "A")], colls=[call("tvar", "B"), call("svar", "C"), call("seq"), call("struct"), call("map", ms="kv", hint1=True)], nodes=5)),
    "deep": (dict(leaves=[leaf("uvar", "A")], wraps=[call("some"), call("nvar", "A")], colls=[call("tvar", "B"), call("svar", "C")], nodes=5),
             dict(leaves=[leaf("uvar", "A")], wraps=[call("some"), call("nvar", "A")], colls=[call("tvar", "B"), call("svar", "C")], nodes=6)),
    "kinds": (dict(leaves=[x for x in SER_LEAVES if x["k"] != "bytes" and x["n"] != "i128"], wraps=SER_WRAPS, colls=SER_COLLS, nodes=3),
              dict(leaves=[x for x in SER_LEAVES if x["k"] != "bytes" and x["n"] != "i128"], wraps=SER_WRAPS, colls=SER_COLLS, nodes=4)),
}
def adapters(ctx):
    inv = ["SWrites", "SRestored", "SNoTags", "SOnlyEnums", "SEmit"]
    for name in SINGLE:
        x = ctx.pick(*SINGLE[name])
        cases = ctx.tlc("SingleGen", {"Leaves": recs(x["leaves"]), "Wraps": recs(x["wraps"] + ADAPTERS), "Colls": recs(x["colls"]),
                                      "MaxNodes": x["nodes"], "MaxDepth": 9}, inv, name="single-" + name, spec="SSpec")
        ctx.replay(cases, "same,restore")
    cases = ctx.tlc("SingleJudge", {"Lanes": 6}, inv, inputs=ctx.gen("single", ctx.pick(4000, 60000)), name="single-random")
    ctx.replay(cases, "same,restore")

def borrow(ctx):
    cases = ctx.tlc("BorrowGen", {"MaxToks": ctx.pick(3, 4)}, ["LentIsSource", "MadeIsNot", "ScansContent", "Emit"])
    ctx.replay(cases)

STARTS = [("i8", vi(x)) for x in (-128, 127, 0)] + [("i16", vi(x)) for x in (-32768, 300)] + [("i32", vi(x)) for x in (-2147483648, 2147483647, 65536)] + \
    [("i64", vi(x)) for x in (-9223372036854775808, 9223372036854775807, -9007199254740993, -1)] + [("isize", vi(x)) for x in (-9223372036854775808, 7)] + \
    [("u8", vi(x)) for x in (0, 255)] + [("u16", vi(65535))] + [("u32", vi(x)) for x in (4294967295, 128)] + \
    [("u64", vi(x)) for x in (18446744073709551615, 9223372036854775808, 9223372036854775807, 9007199254740993, 256)] + [("usize", vi(x)) for x in (18446744073709551615, 1)] + \
    [("f32", vf(x)) for x in ("1.5", "-0.0", "nan", "-inf", "16777216.0")] + [("f64", vf(x)) for x in ("0.0", "-2.0", "0.1", "1e100", "5e-324", "-1.7976931348623157e308", "nan", "inf", "-inf", "18446744073709551616.0", "-0.0")] + \
    [("bool", vb(True)), ("bool", vb(False))] + [("string", vs(x)) for x in ("", "a", "1", "true", "~", "1.5")]
def conversions(ctx):
    starts = [dict(f=f, v=v) for f, v in STARTS]
    inv = ["Preserved", "OnlyByAsking", "Inverse", "Emit"]
    n = ctx.pick(3, 4)
    ctx.replay(ctx.tlc("ConvertGen", {"Starts": recs(starts), "MaxSteps": n}, inv, name="convert"))
    a, b = ctx.pick((300, 12), (8000, 20))
    ctx.replay(ctx.tlc("ConvertGen", {"Starts": recs(starts), "MaxSteps": b}, inv, name="convert-long", simulate=(a, b + 1)))

PROPERTIES = {
    "C23": [(borrow, {})],
    "C19": [(adapters, {}), (doc, {"part": "typed,fromv", "runs": ["adapters", "adapters2", "adapters3", "adapters-scalars"]})],
    "C16": [(indexing, {})],
    "C17": [(merging, {})],
    "C14": [(mappings, {})],
    "C15": [(order, {})],
    "C09": [(sink, {})],
    "C01": [(ser, {"part": "value", "runs": ["all", "numbers", "maps", "random"]})],
    "C02": [(ser, {"part": "same", "runs": ["all", "numbers", "maps", "enums", "random"]})],
    "C08": [(sources, {}), (soup, {"clauses": ["Sources", "Ends"], "sizes": (([(len(VOCAB), 2), (13, 3)], 4000), ([(len(VOCAB), 3), (13, 4)], 60000))}), (doc, {"part": "bytes", "runs": ["keys", "core", "anchors", "random"]})],
    "C07": [(streams, {"part": ""})],
    "C03": [(scalar, {"part": "write"})],
    "C04": [(scalar, {"part": "untyped"})],
    "C05": [(scalar, {"part": "typed"}), (numbers, {})],
    "C06": [(doc, {"part": "expand,typed,value", "runs": ["anchors", "aliases", "aliastags", "cycles", "random"]})],
    "C10": [(doc, {"part": "typed,limit", "runs": ["deep", "cycles"]}), (fans, {})],
    "C11": [(doc, {"part": "typed,fromv", "runs": ["enums", "tags", "aliastags", "random"]}), (ser, {"part": "restore", "runs": ["enums", "random"]})],
    "C24": [(vread, {"use": schemas.idx("any", *schemas.KEPT)}), (doc, {"part": "typed,fromv", "runs": ["kept", "kept-scalars", "kept-maps", "kept-aliases", "keep"]})],
    "C12": [(doc, {"part": "typed,fromv", "runs": ["plain", "tags", "core", "random"]})],
    "C13": [(vread, {"use": schemas.idx(*schemas.NAMES)}), (doc, {"part": "fromv", "runs": ["plain", "tags", "core", "random"]})],
    "C18": [(doc, {"part": "loc", "runs": ["plain", "tags", "anchors", "aliases", "core", "random"]}), (soup, {"clauses": ["Placed"], "sizes": (([(len(VOCAB), 2), (13, 3)], 8000), ([(len(VOCAB), 3), (13, 4)], 80000))})],
    "C20": [(doc, {"part": "typed,value,fromv", "runs": ["stops", "stops2", "keys", "random"]})],
    "C21": [(soup, {}), (ser, {"part": "same", "runs": ["enums"]})],
    "C22": [(scalar, {"part": "number"}), (conversions, {})],
}

TLC = "TLA+ specification checked by TLC; TLC behaviours replayed into the crate"
BOTH = TLC + "; recorded inputs judged by TLC"
NOTES = {
    "C01": (BOTH, "Every Value over a pool of leaves (all kinds, awkward strings, tags) up to a node bound, and random larger ones, alone and in streams written by one Serializer; the model proves the text grammar it predicts reads back as the same Value."),
    "C02": (BOTH, "Both serializers as state machines over serde call histories; the model proves they denote the same Value and refuse the same data, and every history up to the bound, with all map-calling modes, is replayed into both."),
    "C09": ("TLA+ specification checked by TLC; environments generated by TLC, traces recorded from the crate judged by TLC", "Every schedule of writer answers (short, zero, interrupted, writes and flushes failing in six ways) and of serialize/flush/into_inner calls up to a bound is run; the recorded trace of calls, bytes and results must be a behaviour of the sink specification."),
    "C14": (TLC, "Mapping as a sequence of entries with operations; every start state and history up to a bound over keys of all kinds, and long random histories, with every return value, every iteration form and panics compared."),
    "C15": (TLC, "The order, equality and hash laws are proved by TLC on all pairs and triples of a pool of Values; the pool's pairs and comparisons with plain values are then compared with the code's answers."),
    "C03": (BOTH, "The specification decides when text must be quoted and what is read back: exhaustive over short texts of several alphabets, seeded long ones in all syntactic positions."),
    "C04": (BOTH, "The lexical rules as an executable TLA+ model with unbounded integers; exhaustive short texts and seeded long ones in many syntactic contexts. Float values are named by their literal and compared through Rust's parser."),
    "C05": (BOTH, "Range and radix rules modelled with unbounded integers; boundary literals of all widths. Floats by exact arithmetic (module Float): the literals of floats at the edges of binades, of midpoints and beside them, and recorded numbers written in every place and read back by every route, judged by TLC."),
    "C06": (BOTH, "The loader as a state machine over events (anchor table); every document up to 4 nodes with two names and redefinition, cycles, tags, read as many types and compared with its alias-free expansion; larger random documents."),
    "C07": (BOTH, "Iterator state machine; every stream of up to 3 documents from a pool with valid, empty, unknown-anchor, ill-typed and broken documents and every short history of next/read/drop, single-document functions for all target types, random streams of larger documents."),
    "C08": (TLC + "; recorded inputs judged by TLC", "Every schedule of a reader (pieces, interruptions, early end, failure) up to a bound, a UTF-8 automaton over byte classes up to 4 bytes, documents and texts of YAML tokens and bytes (with the clauses of the contract about sources) read through all three sources with identical results including error text and location."),
    "C10": (BOTH, "Chains and trees of sequences, mappings, structs, newtypes, options, enums and aliases around the depth limit, every small document with cycles, and multiplying aliases tuned to -2..+2 follows around the repetition limit, alone and in streams; the model computes depth and follows exactly."),
    "C11": (BOTH, "All enum shapes of a schema table against every document up to 4 nodes over tags, aliases and styles, from text and from the Value; enum data written and restored."),
    "C12": (BOTH, "The model has both readings (events and Value) and proves on every explored document which differences are permitted; the code is compared with both."),
    "C13": (BOTH, "Every Value that explored documents denote, and Values within up to 5 layers of tags and collections, read by value and by reference as every schema, as wholes and from the Mapping, Number and TaggedValue in them."),
    "C16": (TLC, "Value as a tree with paths: every Value of a pool, every step of get/get_mut/index/index_mut with usize, str and Value indexes and histories of mutations, all accessors; values, panics and the state after them compared."),
    "C17": (BOTH, "apply_merge as an executable definition with its laws (no merge key left, own entries win, first of a sequence wins) as invariants on every Value up to a bound; random larger Values judged."),
    "C19": (BOTH, "The adapters' representation and reading as an executable model; every value tree up to a bound written through the adapters (text and Value) and every document up to a bound read through them."),
    "C23": (TLC, "Every scalar over short contents, styles, positions, anchors and sources with the model's answer whether the content appears verbatim; the borrowed slice's address is checked to lie in the source at the scalar."),
    "C24": (BOTH, "What a visitor is told, and serde's buffered reading of it, as an executable model: every document up to a bound over discriminators, tags, aliases and scalars of all kinds, every Value within layers, and recorded documents, read as types with serde's untagged, tag, content and flatten attributes, from text, from the Value by value and by reference."),
    "C18": (BOTH, "The model names the node an error points at and the path; the renderer knows where each node starts in several layouts with comments, line breaks and multi-byte characters."),
    "C20": (BOTH, "Visitors as programs of takes, skips and stops: every document up to a bound read by targets that stop early, leave keys, values or enum contents unread, ask again after the end, from text and both kinds of Value; duplicate keys, unknown fields, short and long tuples."),
    "C21": ("TLA+ contract checked by TLC on observations recorded from the crate; texts enumerated by TLC", "Every text of up to 2, 3 or 4 pieces of vocabularies of YAML tokens and bytes, and random longer ones and mutated documents, through every entry point, source, iteration policy and 14 target types; TLC judges each observation by a contract (total, sources agree, iteration ends or stays at an error, history-free, single = iterated, skippable, what is read is well-formed, writable and reads back)."),
    "C22": (BOTH, "Every text the scalar model covers, as a Number: kinds, accessors, printing and reading back; and every chain of up to 3 conversions (From, Into, accessors, serde by value and by reference, Display, FromStr, text) from boundary values of every type, with longer random chains."),
}
