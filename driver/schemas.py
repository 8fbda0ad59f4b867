"""Target types, as data, for enumerated documents. Written to a file that both
TLC and the harness read; cases refer to them by number (from 1)."""
import json

any_, ign, bool_, str_, unit, f64, char, bytes_ = ({"t": t} for t in
    ("any", "ign", "bool", "str", "unit", "f64", "char", "bytes"))
def i(t): return {"t": t}
u8, i64, u64 = i("u8"), i("i64"), i("u64")
eskip = {"t": "eskip"}
vmap, vseq, vtag, vnum = ({"t": t} for t in ("vmap", "vseq", "vtag", "vnum"))
ustruct = {"t": "unit", "as": "struct"}
def opt(s): return {"t": "opt", "s": s}
def new(s): return {"t": "new", "s": s}
def seq(s): return {"t": "seq", "s": s}
def tup(*ss): return {"t": "tup", "ss": list(ss)}
def tstruct(*ss): return {"t": "tup", "ss": list(ss), "as": "struct"}
def map_(k, v): return {"t": "map", "ks": k, "s": v}
def struct(deny=False, **fs): return {"t": "struct", "fs": [{"n": k, "s": v} for k, v in fs.items()], "deny": deny}
def sm(s): return {"t": "sm", "s": s}
def smr(s): return {"t": "smr", "s": s}
def take(n, s): return {"t": "take", "n": n, "s": s}
def ask(prog, k, s): return {"t": "ask", "prog": list(prog), "ks": k, "s": s}
def enum(**vs):
    out = []
    for n, v in vs.items():
        if v is None:
            out.append({"n": n, "k": "unit"})
        elif isinstance(v, dict):
            out.append({"n": n, "k": "new", "s": v})
        elif isinstance(v, tuple):
            out.append({"n": n, "k": "tup", "ss": list(v)})
        else:
            out.append({"n": n, "k": "struct", "fs": [{"n": k, "s": s} for k, s in v]})
    return {"t": "enum", "vs": out}
raw = {"t": "raw"}
def sos(deny=False, **fs): return {**struct(deny, **fs), "t": "sos"}
def untag(*ss): return {"t": "untag", "ss": list(ss)}
def itag(*ss): return {"t": "itag", "ss": list(ss)}
def atag(*ss): return {"t": "atag", "ss": list(ss)}
def flat(x, rest): return {"t": "flat", "ss": [x, rest]}
def ename(e): return {"t": "ename", "vs": e["vs"]}

U = enum(x=None, y=None)
E = enum(A=any_, B=None, C=(any_, any_), D=[("x", any_), ("y", opt(any_))])
TABLE = {
    "any": any_, "ign": ign, "bool": bool_, "u8": u8, "i64": i64, "f64": f64, "char": char, "str": str_,
    "unit": unit, "ustruct": ustruct, "bytes": bytes_,
    "opt-any": opt(any_), "opt-u8": opt(u8), "opt-unit": opt(unit), "opt-opt": opt(opt(u8)), "opt-str": opt(str_),
    "new-any": new(any_), "new-opt": new(opt(u8)), "opt-new": opt(new(u8)),
    "seq-any": seq(any_), "seq-u8": seq(u8), "seq-ign": seq(ign), "seq-opt": seq(opt(u8)), "seq-seq": seq(seq(any_)),
    "seq-str": seq(str_), "seq-unit": seq(unit),
    "tup0": tstruct(), "tup1": tup(any_), "tup2": tup(any_, any_), "tup-ign": tup(ign, u8), "tstruct2": tstruct(u8, opt(any_)),
    "map": map_(any_, any_), "map-str": map_(str_, any_), "map-u8": map_(str_, u8), "map-opt": map_(opt(u8), ign),
    "map-map": map_(any_, map_(str_, any_)), "map-seq": map_(str_, seq(any_)), "map-seqkey": map_(seq(any_), any_),
    "struct-x": struct(x=any_), "struct-xy": struct(x=u8, y=any_), "struct-opt": struct(x=opt(u8), y=opt(any_)),
    "struct-deny": struct(deny=True, x=any_), "struct-nest": struct(x=opt(struct(x=any_))), "struct-seq": struct(x=seq(u8)),
    "struct0": struct(),
    "enum": E, "enum-unit": U, "seq-enum": seq(E), "map-enum": map_(E, E), "opt-enum": opt(E), "new-enum": new(E),
    "enum-scalars": enum(A=u8, B=opt(u8), C=(u8,), D=[("x", u8)]),
    "enum-colls": enum(A=seq(any_), B=map_(str_, any_), C=(), D=[]),
    "enum-nest": enum(A=U, B=new(U), C=(U,), D=[("x", U)]),
    "enum-opt": enum(A=opt(any_), B=unit, C=(opt(any_), opt(any_)), D=[("x", opt(any_))]),
    "enum-any": enum(A=ign, B=str_, C=(any_, any_), D=[("x", ign), ("y", opt(ign))]),
    "struct-enum": struct(x=E, y=opt(U)),
    "sm-enum": sm(E), "sm-opt": sm(opt(opt(E))), "sm-new": sm(new(E)), "sm-seq": sm(seq(E)), "sm-any": sm(any_), "seq-sm": seq(sm(U)), "struct-sm": struct(x=sm(E), y=sm(opt(U))),
    "sm-nest": sm(enum(A=U, B=opt(u8), C=(U, u8), D=[("x", opt(U))])), "smr-nest": smr(enum(A=U, B=opt(u8), C=(U, u8), D=[("x", opt(U))])),
    "smr-enum": smr(E), "smr-any": smr(any_), "smr-map": smr(map_(U, opt(E))), "smr-new": smr(new(opt(E))), "smr-tup": smr(tup(E, u8)), "smr-struct": smr(struct(x=E, y=opt(U))),
    "smr-enum2": smr(enum(A=E, B=seq(E), C=(E, any_), D=[("x", E)], x=None)), "enum-smr": enum(A=smr(E), B=sm(U), C=(any_, smr(opt(U))), D=[("x", sm(E))]), "smr-ign": smr(seq(ign)),
    "take0": take(0, any_), "take1": take(1, any_), "take2": take(2, ign), "take9": take(9, u8), "take-take": take(2, take(1, any_)), "map-take": map_(any_, take(1, ign)),
    "take1-ign": take(1, ign), "opt-take": opt(take(1, any_)), "enum-take": enum(A=take(1, any_), B=take(0, any_), C=(take(1, any_), any_), D=[("x", ask("e", any_, any_))]),
    "ask0": ask("", any_, any_), "ask-e": ask("e", any_, any_), "ask-ve": ask("ve", any_, ign), "ask-k": ask("k", any_, any_), "ask-ek": ask("ek", ign, any_), "ask-kv": ask("kv", str_, str_), "ask-eee": ask("eee", any_, u8),
    "ask-ask": ask("vv", any_, ask("v", any_, any_)), "ask-key": ask("ee", ask("e", any_, any_), any_), "seq-ask": seq(ask("e", ign, any_)), "seq-ask-k": seq(ask("k", any_, any_)), "ask-ign": ask("e", ign, ign),
    "eskip": eskip, "seq-eskip": seq(eskip), "map-eskip": map_(eskip, opt(eskip)), "enum-eskip": enum(A=eskip, B=opt(eskip), C=(eskip, any_), D=[("x", eskip)]), "ename": ename(E), "seq-ename": seq(ename(E)), "map-ename": map_(ename(E), ename(E)), "tup-ename": tup(ename(E), any_), "struct-ename": struct(x=ename(E), y=opt(ename(E))), "enum-ename": enum(A=ename(E), B=opt(ename(E)), C=(ename(E), any_), D=[("x", ename(E))]),
    "vmap": vmap, "vseq": vseq, "vtag": vtag, "vnum": vnum, "opt-vtag": opt(vtag), "seq-vnum": seq(vnum), "map-vseq": map_(any_, vseq), "new-vmap": new(vmap), "seq-vtag": seq(vtag), "struct-v": struct(x=vmap, y=opt(vnum)),
    "enum-v": enum(A=vnum, B=vtag, C=(vseq, vnum), D=[("x", vmap)]),
    "seq-tup": seq(tup(str_, any_)), "tup-seq": tup(seq(u8), any_), "opt-seq": opt(seq(opt(u8))), "new-new": new(new(any_)),
    "sm-brief": sm(enum(A=opt(any_), B=None, C=(), D=[("x", opt(any_))])), "smr-brief": smr(enum(A=opt(any_), B=None, C=(), D=[("x", opt(any_))])),
    "raw": raw, "seq-raw": seq(raw), "map-raw": map_(raw, raw), "enum-raw": enum(A=raw, B=opt(raw), C=(raw, u8), D=[("x", raw)]), "opt-raw": opt(raw), "struct-raw": struct(x=raw, y=opt(raw)),
    "untag-sc": untag(u8, bool_, str_), "untag-coll": untag(seq(raw), map_(str_, raw), raw), "untag-str-f": untag(f64, i64, str_), "untag-opt": untag(unit, opt(u8), any_), "untag-struct": untag(struct(deny=True, x=raw), struct(x=any_, y=opt(raw)), tup(any_, any_)),
    "seq-untag": seq(untag(u64, char, seq(any_))), "map-untag": map_(untag(u8, str_), untag(bool_, raw)), "opt-untag": opt(untag(u8, map_(raw, raw))), "new-untag": untag(new(str_), untag(seq(u8), raw)), "enum-untag": enum(A=untag(u8, seq(raw)), B=untag(raw), C=(untag(raw), any_), D=[("x", untag(str_, raw))]),
    "itag": itag(struct(x=raw, y=opt(raw)), map_(str_, raw)), "itag-any": itag(any_, unit), "itag-seq": itag(seq(any_), tup(any_)), "opt-itag": opt(itag(map_(raw, raw), ign)), "seq-itag": seq(itag(raw, struct(x=opt(u8)))),
    "atag": atag(raw, opt(u8)), "atag-coll": atag(seq(any_), struct(x=any_)), "seq-atag": seq(atag(any_, unit)), "atag-enum": atag(str_, map_(str_, any_)),
    "flat": flat(u8, map_(str_, raw)), "flat-any": flat(opt(raw), any_), "flat-struct": flat(any_, struct(y=opt(u8))), "flat-raw": flat(opt(any_), raw), "flat-ign": flat(opt(seq(any_)), ign), "struct-flat": struct(x=flat(opt(u8), map_(str_, any_)), y=opt(flat(any_, raw))),
    "sos": sos(x=any_, y=opt(raw)), "sos-deny": sos(deny=True, t=opt(u8), x=opt(sos(t=raw))), "seq-sos": seq(sos(x=opt(str_))), "map-sos": map_(sos(t=any_), opt(sos(t=opt(u8)))), "untag-sos": untag(sos(x=raw), untag(u8, seq(sos(t=raw)))), "enum-sos": enum(A=sos(x=any_), B=opt(sos(t=raw)), C=(sos(t=raw), any_), D=[("x", sos(t=opt(raw)))]), "new-sos": opt(new(sos(x=raw, t=opt(raw)))),
    "smr-sos": smr(sos(x=E, t=opt(E))), "smr-seq-sos": smr(seq(sos(t=U, x=opt(seq(E))))), "smr-enum-sos": smr(enum(A=sos(t=E), x=None, D=[("x", sos(t=opt(E)))])), "sm-sos": sm(sos(x=any_, t=opt(E))), "smr-untag-sos": smr(untag(u8, sos(x=raw))), "smr-map-sos": smr(map_(sos(x=E), sos(x=U, t=opt(any_)))),
    "smr-raw": smr(seq(raw)), "smr-untag": smr(untag(str_, seq(raw))), "smr-itag": smr(itag(struct(x=raw), map_(str_, any_))), "smr-atag": smr(atag(raw, opt(u8))), "smr-flat": smr(flat(opt(raw), map_(str_, raw))), "sm-atag": sm(atag(any_, raw)), "sm-untag": sm(opt(untag(u8, raw))),
}
bbuf = {"t": "bbuf"}
# Types with suites of their own: all the scalar ones, alone and through the adapters; bytes of a string or sequence.
SCALARS = {t: i(t) for t in ("i8", "i16", "i32", "i128", "u16", "u32", "u64", "u128", "f32")}
BARE = {"bool": bool_, "u8": u8, "i64": i64, "f64": f64, "char": char, "str": str_, "unit": unit, "ustruct": ustruct, "bytes": bytes_, "ign": ign,
        "tup2": tup(any_, u8), "tstruct": tstruct(u8), "seq": seq(u8), "map": map_(str_, u8), "struct": struct(x=opt(u8)), "vmap": vmap, "vnum": vnum, **SCALARS}
EXTRA = dict(SCALARS)
EXTRA.update({"all-sm-" + n: sm(s) for n, s in BARE.items()})
EXTRA.update({"all-smr-" + n: smr(s) for n, s in BARE.items()})
EXTRA.update({"bbuf": bbuf, "opt-bbuf": opt(bbuf), "map-bbuf": map_(bbuf, bbuf), "seq-bbuf": seq(bbuf), "new-bbuf": new(bbuf), "enum-bbuf": enum(A=bbuf, B=opt(bbuf), C=(bbuf, any_), D=[("x", bbuf)]),
              "sm-bbuf": sm(bbuf), "smr-bbuf": smr(seq(bbuf)), "bbuf-kept": untag(bbuf, seq(bbuf))})
TABLE.update(EXTRA)
NAMES = list(TABLE)

def idx(*names):
    return [NAMES.index(n) + 1 for n in names]

KEPT = [n for n in NAMES if any(w in n for w in ("raw", "untag", "itag", "atag", "flat", "sos")) and n not in EXTRA]     # (they have their own suites)
ALL = idx(*[n for n in NAMES if n not in KEPT and n not in EXTRA])

def write(path):
    with open(path, "w") as f:
        for n in NAMES:
            f.write(json.dumps(TABLE[n]) + "\n")
