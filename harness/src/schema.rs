//! Target types as data: a schema reads any deserializer into the
//! specification's result form.
use crate::j::{arr, canon_f64, st, vjson, J};
use serde::de::{
    self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess,
    VariantAccess, Visitor,
};
use serde_json::json;
use std::collections::HashMap;
use std::fmt;
use std::sync::{Mutex, OnceLock};

#[derive(Debug, Clone)]
pub enum Schema {
    Ref(&'static str),
    Any,
    Ign,
    Bool,
    Int(&'static str),
    F64,
    F32,
    Char,
    Str,
    Bytes,
    BytesOf,
    Unit,
    UnitStruct,
    Opt(Box<Schema>),
    New(Box<Schema>),
    Seq(Box<Schema>),
    Tup(Vec<Schema>),
    TupStruct(Vec<Schema>),
    Map(Box<Schema>, Box<Schema>),
    Struct(Fields, bool),
    Enum(&'static [&'static str], Vec<Variant>),
    /// visitors that stop early: after some elements, or some ways to ask for entries
    Take(usize, Box<Schema>),
    Ask(Vec<u8>, Box<Schema>, Box<Schema>),
    /// only the name of a variant
    Name(&'static [&'static str]),
    /// nothing of an enum
    Skip,
    /// the crate's own Mapping, TaggedValue, Number and Sequence
    VMap,
    VTag,
    VNum,
    VSeq,
    /// through singleton_map, or singleton_map_recursive
    Single(Box<Schema>, bool),
    /// whatever is there
    Raw,
    /// whatever is there, if it is a string or a struct
    Sos(Fields, bool),
    /// derived types that buffer what they read: untagged, internally and
    /// adjacently tagged, flattened
    Untag(Vec<Schema>),
    Itag(Vec<Schema>),
    Atag(Vec<Schema>),
    Flat(Vec<Schema>),
}

#[derive(Debug, Clone)]
pub struct Fields {
    names: &'static [&'static str],
    schemas: Vec<Schema>,
}

#[derive(Debug, Clone)]
pub enum Variant {
    Unit,
    New(Schema),
    Tup(Vec<Schema>),
    Struct(Fields),
}

pub fn intern(s: &str) -> &'static str {
    static T: OnceLock<Mutex<HashMap<String, &'static str>>> = OnceLock::new();
    let mut t = T.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = t.get(s) {
        return x;
    }
    let leaked: &'static str = Box::leak(s.to_owned().into_boxed_str());
    t.insert(s.to_owned(), leaked);
    leaked
}

pub fn intern_list(names: &[&str]) -> &'static [&'static str] {
    static T: OnceLock<Mutex<HashMap<Vec<String>, &'static [&'static str]>>> = OnceLock::new();
    let key: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    let mut t = T.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = t.get(&key) {
        return x;
    }
    let v: Vec<&'static str> = names.iter().map(|s| intern(s)).collect();
    let leaked: &'static [&'static str] = Box::leak(v.into_boxed_slice());
    t.insert(key, leaked);
    leaked
}

fn fields(j: &J) -> Fields {
    let fs = arr(j);
    Fields {
        names: intern_list(&fs.iter().map(|f| st(&f["n"])).collect::<Vec<_>>()),
        schemas: fs.iter().map(|f| Schema::parse(&f["s"])).collect(),
    }
}

impl Schema {
    pub fn parse(j: &J) -> Schema {
        let sub = || Box::new(Schema::parse(&j["s"]));
        let subs = |k: &str| arr(&j[k]).iter().map(Schema::parse).collect::<Vec<_>>();
        match st(&j["t"]) {
            "any" => Schema::Any,
            "ign" => Schema::Ign,
            "bool" => Schema::Bool,
            "f64" => Schema::F64,
            "f32" => Schema::F32,
            "char" => Schema::Char,
            "str" => Schema::Str,
            "bytes" => Schema::Bytes,
            "bbuf" => Schema::BytesOf,
            "unit" if j["as"] == "struct" => Schema::UnitStruct,
            "unit" => Schema::Unit,
            "opt" => Schema::Opt(sub()),
            "new" => Schema::New(sub()),
            "seq" => Schema::Seq(sub()),
            "tup" if j["as"] == "struct" => Schema::TupStruct(subs("ss")),
            "tup" => Schema::Tup(subs("ss")),
            "map" => Schema::Map(Box::new(Schema::parse(&j["ks"])), sub()),
            "struct" => Schema::Struct(fields(&j["fs"]), j["deny"] == true),
            "enum" => {
                let vs = arr(&j["vs"]);
                let names = intern_list(&vs.iter().map(|v| st(&v["n"])).collect::<Vec<_>>());
                let variants = vs
                    .iter()
                    .map(|v| match st(&v["k"]) {
                        "unit" => Variant::Unit,
                        "new" => Variant::New(Schema::parse(&v["s"])),
                        "tup" => Variant::Tup(arr(&v["ss"]).iter().map(Schema::parse).collect()),
                        "struct" => Variant::Struct(fields(&v["fs"])),
                        other => panic!("variant kind {other}"),
                    })
                    .collect();
                Schema::Enum(names, variants)
            }
            "take" => Schema::Take(j["n"].as_u64().unwrap() as usize, sub()),
            "ask" => Schema::Ask(arr(&j["prog"]).iter().map(|o| st(o).as_bytes()[0]).collect(), Box::new(Schema::parse(&j["ks"])), sub()),
            "ename" => Schema::Name(intern_list(&arr(&j["vs"]).iter().map(|v| st(&v["n"])).collect::<Vec<_>>())),
            "eskip" => Schema::Skip,
            "vmap" => Schema::VMap,
            "vtag" => Schema::VTag,
            "vnum" => Schema::VNum,
            "vseq" => Schema::VSeq,
            "sm" => Schema::Single(sub(), false),
            "smr" => Schema::Single(sub(), true),
            "raw" => Schema::Raw,
            "sos" => Schema::Sos(fields(&j["fs"]), j["deny"] == true),
            "untag" => Schema::Untag(subs("ss")),
            "itag" => Schema::Itag(subs("ss")),
            "atag" => Schema::Atag(subs("ss")),
            "flat" => Schema::Flat(subs("ss")),
            "ref" => Schema::Ref(intern(st(&j["name"]))),
            t => Schema::Int(intern(t)),
        }
    }
}

fn int(s: impl ToString) -> J {
    json!({"k": "int", "s": s.to_string()})
}

/// The recursive types (Named in module Read).
fn named(name: &'static str) -> &'static Schema {
    static T: OnceLock<HashMap<&'static str, Schema>> = OnceLock::new();
    let table = T.get_or_init(|| {
        let r = |n: &str| serde_json::json!({"t": "ref", "name": n});
        let mut t = HashMap::new();
        let mut put = |n: &'static str, j: J| t.insert(n, Schema::parse(&j));
        put("RSeq", json!({"t": "seq", "s": r("RSeq")}));
        put("RMap", json!({"t": "map", "ks": {"t": "str"}, "s": r("RMap")}));
        put("RStruct", json!({"t": "struct", "fs": [{"n": "x", "s": {"t": "opt", "s": r("RStruct")}}], "deny": false}));
        put("RNew", json!({"t": "opt", "s": {"t": "new", "s": {"t": "seq", "s": r("RNew")}}}));
        put("REnum", json!({"t": "enum", "vs": [
            {"n": "T", "k": "tup", "ss": [r("REnum"), {"t": "any"}]},
            {"n": "N", "k": "new", "s": {"t": "seq", "s": r("REnum")}},
            {"n": "S", "k": "struct", "fs": [{"n": "x", "s": r("REnum")}]},
            {"n": "U", "k": "unit"},
        ]}));
        t
    });
    &table[name]
}

/// Whether adapters occur in a type (they do not nest: each makes new types).
pub trait Adapt: Copy {
    fn single<'de, D: Deserializer<'de>>(s: &Schema, deep: bool, d: D) -> Result<J, D::Error>;
}
#[derive(Clone, Copy)]
pub struct Yes;
#[derive(Clone, Copy)]
pub struct No;
thread_local!(static INSIDE: std::cell::RefCell<Vec<Schema>> = const { std::cell::RefCell::new(Vec::new()) });
/// A type that reads as the schema that was put there for it.
struct Dyn(J);
impl<'de> Deserialize<'de> for Dyn {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Dyn, D::Error> {
        let s = INSIDE.with(|c| c.borrow_mut().pop()).unwrap();
        R(&s, No).deserialize(d).map(Dyn)
    }
}
impl Adapt for Yes {
    fn single<'de, D: Deserializer<'de>>(s: &Schema, deep: bool, d: D) -> Result<J, D::Error> {
        INSIDE.with(|c| {
            c.borrow_mut().clear();
            c.borrow_mut().push(s.clone())
        });
        let r: Dyn = if deep {
            serde_yaml::with::singleton_map_recursive::deserialize(d)?
        } else {
            serde_yaml::with::singleton_map::deserialize(d)?
        };
        Ok(r.0)
    }
}
impl Adapt for No {
    fn single<'de, D: Deserializer<'de>>(_: &Schema, _: bool, _: D) -> Result<J, D::Error> {
        panic!("an adapter inside an adapter")
    }
}

impl<'a, 'de> DeserializeSeed<'de> for &'a Schema {
    type Value = J;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        R(self, Yes).deserialize(d)
    }
}
/// Reads as a schema.
#[derive(Clone, Copy)]
struct R<'a, A>(&'a Schema, A);
impl<'a, 'de, A: Adapt> DeserializeSeed<'de> for R<'a, A> {
    type Value = J;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        let a = self.1;
        match self.0 {
            Schema::Single(s, deep) => A::single(s, *deep, d),
            Schema::Ref(name) => R(named(name), a).deserialize(d),
            Schema::Any => serde_yaml::Value::deserialize(d).map(|v| vjson(&v)),
            Schema::Ign => IgnoredAny::deserialize(d).map(|_| json!({"k": "unit"})),
            Schema::Bool => bool::deserialize(d).map(|b| json!({"k": "bool", "b": b})),
            Schema::Int(t) => match *t {
                "i8" => i8::deserialize(d).map(int),
                "i16" => i16::deserialize(d).map(int),
                "i32" => i32::deserialize(d).map(int),
                "i64" => i64::deserialize(d).map(int),
                "i128" => i128::deserialize(d).map(int),
                "u8" => u8::deserialize(d).map(int),
                "u16" => u16::deserialize(d).map(int),
                "u32" => u32::deserialize(d).map(int),
                "u64" => u64::deserialize(d).map(int),
                "u128" => u128::deserialize(d).map(int),
                other => panic!("type {other}"),
            },
            Schema::F64 => f64::deserialize(d).map(|f| json!({"k": "float", "t": canon_f64(f)})),
            Schema::F32 => f32::deserialize(d).map(|f| json!({"k": "float", "t": canon_f64(f as f64)})),
            Schema::Char => char::deserialize(d).map(|c| json!({"k": "str", "s": c.to_string()})),
            Schema::Str => String::deserialize(d).map(|s| json!({"k": "str", "s": s})),
            Schema::Bytes => d.deserialize_byte_buf(ByteBuf),
            Schema::BytesOf => d.deserialize_bytes(BytesOfV),
            Schema::Unit => <()>::deserialize(d).map(|_| json!({"k": "unit"})),
            Schema::UnitStruct => d.deserialize_unit_struct("U", UnitV),
            Schema::Opt(s) => d.deserialize_option(OptV(R(s, a))),
            Schema::New(s) => d.deserialize_newtype_struct("N", NewV(R(s, a))),
            Schema::Seq(s) => d.deserialize_seq(SeqV(R(s, a))),
            Schema::Tup(ss) => d.deserialize_tuple(ss.len(), TupV(ss, a)),
            Schema::TupStruct(ss) => d.deserialize_tuple_struct("T", ss.len(), TupV(ss, a)),
            Schema::Map(k, v) => d.deserialize_map(MapV(R(k, a), R(v, a))),
            Schema::Struct(f, deny) => d.deserialize_struct("S", f.names, StructV(f, *deny, a)),
            Schema::Take(n, s) => d.deserialize_seq(TakeV(*n, R(s, a))),
            Schema::Ask(prog, k, v) => d.deserialize_map(AskV(prog, R(k, a), R(v, a))),
            Schema::Skip => d.deserialize_enum("E", &[], SkipV),
            Schema::VMap => serde_yaml::Mapping::deserialize(d).map(|m| vjson(&m.into())),
            Schema::VTag => serde_yaml::value::TaggedValue::deserialize(d).map(|t| vjson(&serde_yaml::Value::Tagged(Box::new(t)))),
            Schema::VNum => serde_yaml::Number::deserialize(d).map(|n| vjson(&serde_yaml::Value::Number(n))),
            Schema::VSeq => serde_yaml::Sequence::deserialize(d).map(|s| vjson(&s.into())),
            Schema::Raw => d.deserialize_any(RawV),
            Schema::Sos(f, deny) => d.deserialize_any(SosV(f, *deny, a)),
            Schema::Untag(ss) => with_alts(ss, || Un::deserialize(d)).map(|u| match u {
                Un::A(Alt(j)) => picked("0", j),
                Un::B(Alt(j)) => picked("1", j),
                Un::C(Alt(j)) => picked("2", j),
            }),
            Schema::Itag(ss) => with_alts(ss, || In::deserialize(d)).map(|u| match u {
                In::A(Alt(j)) => picked("A", j),
                In::B(Alt(j)) => picked("B", j),
                In::C => picked("C", json!({"k": "unit"})),
            }),
            Schema::Atag(ss) => with_alts(ss, || Adj::deserialize(d)).map(|u| match u {
                Adj::A(Alt(j)) => picked("A", j),
                Adj::B(Alt(j)) => picked("B", j),
            }),
            Schema::Flat(ss) => with_alts(ss, || Fl::deserialize(d)).map(|f| json!({"k": "struct", "e": [f.x.0, f.rest.0]})),
            Schema::Name(names) => d.deserialize_enum("E", names, NameV(names)),
            Schema::Enum(names, vs) => d.deserialize_enum("E", names, EnumV(names, vs, a)),
        }
    }
}

thread_local!(static ALTS: std::cell::RefCell<Vec<Vec<Schema>>> = const { std::cell::RefCell::new(Vec::new()) });
fn with_alts<T>(ss: &[Schema], f: impl FnOnce() -> T) -> T {
    struct Pop;
    impl Drop for Pop {
        fn drop(&mut self) {
            ALTS.with(|a| a.borrow_mut().pop());
        }
    }
    ALTS.with(|a| a.borrow_mut().push(ss.to_vec()));
    let _pop = Pop;
    f()
}
/// The type that reads as the I-th schema of the derived type around it.
struct Alt<const I: usize>(J);
impl<'de, const I: usize> Deserialize<'de> for Alt<I> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = ALTS.with(|a| a.borrow().last().unwrap().get(I).cloned());
        match s {
            Some(s) => R(&s, No).deserialize(d).map(Alt),
            None => Err(de::Error::custom("no such alternative")),
        }
    }
}
#[derive(serde::Deserialize)]
#[serde(untagged)]
enum Un {
    A(Alt<0>),
    B(Alt<1>),
    C(Alt<2>),
}
#[derive(serde::Deserialize)]
#[serde(tag = "t")]
enum In {
    A(Alt<0>),
    B(Alt<1>),
    C,
}
#[derive(serde::Deserialize)]
#[serde(tag = "t", content = "c")]
enum Adj {
    A(Alt<0>),
    B(Alt<1>),
}
#[derive(serde::Deserialize)]
struct Fl {
    x: Alt<0>,
    #[serde(flatten)]
    rest: Alt<1>,
}
fn picked(n: &str, j: J) -> J {
    json!({"k": "enum", "n": n, "v": j})
}

/// Takes down whatever is there.
struct RawV;
struct RawSeed;
impl<'de> DeserializeSeed<'de> for RawSeed {
    type Value = J;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        d.deserialize_any(RawV)
    }
}
impl<'de> Visitor<'de> for RawV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_unit<E: de::Error>(self) -> Result<J, E> {
        Ok(json!({"k": "null"}))
    }
    fn visit_none<E: de::Error>(self) -> Result<J, E> {
        Ok(json!({"k": "none"}))
    }
    fn visit_bool<E: de::Error>(self, b: bool) -> Result<J, E> {
        Ok(json!({"k": "bool", "b": b}))
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<J, E> {
        Ok(int(n))
    }
    fn visit_i64<E: de::Error>(self, n: i64) -> Result<J, E> {
        Ok(int(n))
    }
    fn visit_u128<E: de::Error>(self, n: u128) -> Result<J, E> {
        Ok(int(n))
    }
    fn visit_i128<E: de::Error>(self, n: i128) -> Result<J, E> {
        Ok(int(n))
    }
    fn visit_f64<E: de::Error>(self, f: f64) -> Result<J, E> {
        Ok(json!({"k": "float", "t": canon_f64(f)}))
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<J, E> {
        Ok(json!({"k": "str", "s": s}))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut e = Vec::new();
        while let Some(v) = a.next_element_seed(RawSeed)? {
            e.push(v);
        }
        Ok(json!({"k": "seq", "e": e}))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut e = Vec::new();
        while let Some(k) = a.next_key_seed(RawSeed)? {
            let v = a.next_value_seed(RawSeed)?;
            e.push(json!([k, v]));
        }
        Ok(json!({"k": "map", "e": e}))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<J, A::Error> {
        let (t, v) = a.variant::<String>()?;
        let v = v.newtype_variant_seed(RawSeed)?;
        Ok(json!({"k": "tag", "t": t, "v": v}))
    }
}

/// Takes a string, or a mapping as a struct.
struct SosV<'a, A>(&'a Fields, bool, A);
impl<'a, 'de, P: Adapt> Visitor<'de> for SosV<'a, P> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("string or map")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<J, E> {
        Ok(json!({"k": "str", "s": s}))
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<J, A::Error> {
        struct S<'a, P>(&'a Fields, bool, P);
        impl<'a, 'de, P: Adapt> DeserializeSeed<'de> for S<'a, P> {
            type Value = J;
            fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
                d.deserialize_struct("S", self.0.names, StructV(self.0, self.1, self.2))
            }
        }
        S(self.0, self.1, self.2).deserialize(de::value::MapAccessDeserializer::new(a))
    }
}

struct ByteBuf;
impl<'de> Visitor<'de> for ByteBuf {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<J, E> {
        Ok(json!({"k": "bytes", "b": b}))
    }
}

/// Bytes in the ways byte buffers are commonly read.
struct BytesOfV;
impl<'de> Visitor<'de> for BytesOfV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<J, E> {
        Ok(json!({"k": "str", "s": s}))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut e = Vec::new();
        while let Some(b) = a.next_element::<u8>()? {
            e.push(int(b));
        }
        Ok(json!({"k": "seq", "e": e}))
    }
}

struct UnitV;
impl<'de> Visitor<'de> for UnitV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit struct U")
    }
    fn visit_unit<E: de::Error>(self) -> Result<J, E> {
        Ok(json!({"k": "unit"}))
    }
}

struct OptV<'a, A>(R<'a, A>);
impl<'a, 'de, P: Adapt> Visitor<'de> for OptV<'a, P> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_unit<E: de::Error>(self) -> Result<J, E> {
        Ok(json!({"k": "none"}))
    }
    fn visit_none<E: de::Error>(self) -> Result<J, E> {
        Ok(json!({"k": "none"}))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        self.0.deserialize(d).map(|v| json!({"k": "some", "v": v}))
    }
}

struct NewV<'a, A>(R<'a, A>);
impl<'a, 'de, P: Adapt> Visitor<'de> for NewV<'a, P> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("tuple struct N")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<J, D::Error> {
        self.0.deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        match a.next_element_seed(self.0)? {
            Some(v) => Ok(v),
            None => Err(de::Error::invalid_length(0, &"tuple struct N with 1 element")),
        }
    }
}

struct SeqV<'a, A>(R<'a, A>);
impl<'a, 'de, P: Adapt> Visitor<'de> for SeqV<'a, P> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut e = Vec::new();
        while let Some(v) = a.next_element_seed(self.0)? {
            e.push(v);
        }
        Ok(json!({"k": "seq", "e": e}))
    }
}

struct TupV<'a, A>(&'a [Schema], A);
impl<'a, 'de, P: Adapt> Visitor<'de> for TupV<'a, P> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a tuple of size {}", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut e = Vec::new();
        for (i, s) in self.0.iter().enumerate() {
            match a.next_element_seed(R(s, self.1))? {
                Some(v) => e.push(v),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(json!({"k": "seq", "e": e}))
    }
}

struct MapV<'a, A>(R<'a, A>, R<'a, A>);
impl<'a, 'de, P: Adapt> Visitor<'de> for MapV<'a, P> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut e = Vec::new();
        while let Some(k) = a.next_key_seed(self.0)? {
            let v = a.next_value_seed(self.1)?;
            e.push(json!([k, v]));
        }
        Ok(json!({"k": "map", "e": e}))
    }
}

/// How many are left, where the format tells.
fn hinted<E: de::Error>(before: Option<usize>, after: Option<usize>, got: bool) -> Result<(), E> {
    match (before, after) {
        (None, None) => Ok(()),
        (Some(b), Some(a)) if b == a + got as usize => Ok(()),
        other => Err(E::custom(format_args!("WRONG HINT {other:?}"))),
    }
}

/// Stops after some elements; asks again after the end.
struct TakeV<'a, A>(usize, R<'a, A>);
impl<'a, 'de, P: Adapt> Visitor<'de> for TakeV<'a, P> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a few elements")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut e = Vec::new();
        while e.len() < self.0 {
            let before = a.size_hint();
            let got = a.next_element_seed(self.1)?;
            hinted(before, a.size_hint(), got.is_some())?;
            match got {
                Some(v) => e.push(v),
                None => {
                    for _ in 0..2 {
                        if a.next_element::<IgnoredAny>()?.is_some() {
                            return Err(de::Error::custom("MORE AFTER THE END"));
                        }
                    }
                    break;
                }
            }
        }
        Ok(json!({"k": "seq", "e": e}))
    }
}

/// Asks for entries in given ways, then stops.
struct AskV<'a, A>(&'a [u8], R<'a, A>, R<'a, A>);
impl<'a, 'de, P: Adapt> Visitor<'de> for AskV<'a, P> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a few entries")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut e = Vec::new();
        for op in self.0 {
            let before = a.size_hint();
            let got = match op {
                b'e' => a.next_entry_seed(self.1, self.2)?,
                _ => match a.next_key_seed(self.1)? {
                    Some(k) if *op == b'k' => Some((k, J::Null)),
                    Some(k) => Some((k, a.next_value_seed(self.2)?)),
                    None => None,
                },
            };
            hinted(before, a.size_hint(), got.is_some())?;
            match got {
                Some((k, v)) => e.push(json!([k, v])),
                None => {
                    for _ in 0..2 {
                        if a.next_key::<IgnoredAny>()?.is_some() {
                            return Err(de::Error::custom("MORE AFTER THE END"));
                        }
                    }
                    break;
                }
            }
        }
        Ok(json!({"k": "map", "e": e}))
    }
}

struct SkipV;
impl<'de> Visitor<'de> for SkipV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum E")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, _: A) -> Result<J, A::Error> {
        Ok(json!({"k": "unit"}))
    }
}

/// Takes the name of a variant and leaves its payload.
struct NameV(&'static [&'static str]);
impl<'de> Visitor<'de> for NameV {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum E")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<J, A::Error> {
        let (i, _) = a.variant_seed(Ident(self.0, true, "variant"))?;
        Ok(json!({"k": "enum", "n": self.0[i.unwrap()], "v": {"k": "unit"}}))
    }
}

/// Reads a field or variant name like derived code does.
struct Ident<'a>(&'a [&'static str], bool, &'static str);
impl<'a, 'de> DeserializeSeed<'de> for Ident<'a> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'a, 'de> Visitor<'de> for Ident<'a> {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} identifier", self.2)
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<Option<usize>, E> {
        if (n as usize) < self.0.len() {
            Ok(Some(n as usize))
        } else if self.1 {
            Err(de::Error::invalid_value(de::Unexpected::Unsigned(n), &"index"))
        } else {
            Ok(None)
        }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Option<usize>, E> {
        match self.0.iter().position(|n| *n == s) {
            Some(i) => Ok(Some(i)),
            None if self.1 && self.2 == "variant" => Err(de::Error::custom(format_args!("unknown variant `{s}`"))),
            None if self.1 => Err(de::Error::custom(format_args!("unknown field `{s}`"))),
            None => Ok(None),
        }
    }
}

struct StructV<'a, A>(&'a Fields, bool, A);
impl<'a, 'de, P: Adapt> Visitor<'de> for StructV<'a, P> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct S")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<J, A::Error> {
        let mut j = TupV(&self.0.schemas, self.2).visit_seq(a)?;
        j["k"] = json!("struct");
        Ok(j)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut got: Vec<Option<J>> = vec![None; self.0.names.len()];
        while let Some(k) = a.next_key_seed(Ident(self.0.names, self.1, "field"))? {
            match k {
                Some(i) => {
                    if got[i].is_some() {
                        return Err(de::Error::duplicate_field(self.0.names[i]));
                    }
                    got[i] = Some(a.next_value_seed(R(&self.0.schemas[i], self.2))?);
                }
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut e = Vec::new();
        for (i, g) in got.into_iter().enumerate() {
            e.push(match g {
                Some(v) => v,
                None if matches!(self.0.schemas[i], Schema::Opt(_)) => json!({"k": "none"}),
                None => return Err(de::Error::missing_field(self.0.names[i])),
            });
        }
        Ok(json!({"k": "struct", "e": e}))
    }
}

struct EnumV<'a, A>(&'a [&'static str], &'a [Variant], A);
impl<'a, 'de, P: Adapt> Visitor<'de> for EnumV<'a, P> {
    type Value = J;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum E")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<J, A::Error> {
        let (i, v) = a.variant_seed(Ident(self.0, true, "variant"))?;
        let i = i.unwrap();
        let payload = match &self.1[i] {
            Variant::Unit => v.unit_variant().map(|_| json!({"k": "unit"}))?,
            Variant::New(s) => v.newtype_variant_seed(R(s, self.2))?,
            Variant::Tup(ss) => v.tuple_variant(ss.len(), TupV(ss, self.2))?,
            Variant::Struct(f) => v.struct_variant(f.names, StructV(f, false, self.2))?,
        };
        Ok(json!({"k": "enum", "n": self.0[i], "v": payload}))
    }
}
