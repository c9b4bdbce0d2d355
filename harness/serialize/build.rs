//! Stand-in for flatc: writes what the serialiser includes, from the repository's schemas, with the same names and signatures as far
//! as the crate uses them, on top of ../flatbuffers.
use std::collections::BTreeMap;
use std::fmt::Write;

const SCHEMAS: &str = "/repo/client/serialize/flatbuffers";
const HEAD: &str = r#"
macro_rules! field {
    (get $buf:expr, $bits:expr, opt $t:ty) => { if $bits == 0 { None } else { Some(<$t as ::flatbuffers::Follow>::follow($buf, $bits)) } };
    (get $buf:expr, $bits:expr, val $t:ty) => { <$t as ::flatbuffers::Follow>::follow($buf, $bits) };
    (put opt $v:expr) => { $v.map_or(0, |o| o.value() as u64) };
    (put val $v:expr) => { ::flatbuffers::Push::bits($v) };
}
macro_rules! table {
    ($name:ident, $args:ident $(<$l:lifetime>)?, $( $kind:ident $f:ident : $arg:ty => $read:ty => $ret:ty ),*) => {
        #[derive(Copy, Clone)]
        pub struct $name<'a> {
            pub buf: &'a [u8],
            pub pos: usize,
        }
        impl<'a, 'b> ::flatbuffers::Follow<'a> for $name<'b> {
            type Inner = $name<'a>;
            fn follow(buf: &'a [u8], bits: u64) -> $name<'a> {
                $name { buf, pos: bits as usize }
            }
        }
        #[derive(Default)]
        pub struct $args $(<$l>)? {
            $(pub $f: $arg,)*
        }
        impl<'a> $name<'a> {
            pub fn create<'bldr>(fbb: &mut ::flatbuffers::FlatBufferBuilder<'bldr>, args: &$args) -> ::flatbuffers::WIPOffset<$name<'bldr>> {
                let fields = [$(field!(put $kind args.$f)),*];
                fbb.table(&fields)
            }
            table!(@get 0usize; $( $kind $f $read, $ret; )*);
        }
    };
    (@get $n:expr; $kind:ident $f:ident $read:ty, $ret:ty; $($rest:tt)*) => {
        pub fn $f(&self) -> $ret {
            let bits = ::flatbuffers::word(self.buf, self.pos + 8 * $n);
            field!(get self.buf, bits, $kind $read)
        }
        table!(@get $n + 1usize; $($rest)*);
    };
    (@get $n:expr;) => {};
}
macro_rules! open_enum {
    ($name:ident, $t:ty, $($v:ident = $n:literal),*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Hash)]
        pub struct $name(pub $t);
        #[allow(non_upper_case_globals)]
        impl $name {
            $(pub const $v: Self = Self($n);)*
            pub fn variant_name(self) -> Option<&'static str> {
                match self.0 {
                    $($n => Some(stringify!($v)),)*
                    _ => None,
                }
            }
        }
        impl ::flatbuffers::Push for $name {
            type Output = $name;
            fn bits(self) -> u64 { ::flatbuffers::Push::bits(self.0) }
        }
        impl<'a> ::flatbuffers::Follow<'a> for $name {
            type Inner = $name;
            fn follow(_: &'a [u8], bits: u64) -> $name { $name(bits as $t) }
        }
    };
}
use ::flatbuffers::{ForwardsUOffset as F, UnionWIPOffset, Vector, WIPOffset as W};
"#;

enum Def {
    Table(Vec<(String, String)>),
    Union(Vec<String>),
    Enum(String, Vec<(String, i64)>),
}

fn scalar(t: &str) -> Option<&'static str> {
    Some(match t {
        "uint8" | "ubyte" => "u8",
        "uint16" | "ushort" => "u16",
        "uint32" | "uint" => "u32",
        "uint64" | "ulong" => "u64",
        "int8" | "byte" => "i8",
        "int16" | "short" => "i16",
        "int32" | "int" => "i32",
        "int64" | "long" => "i64",
        "float32" | "float" => "f32",
        "float64" | "double" => "f64",
        "bool" => "bool",
        _ => return None,
    })
}
fn snake(s: &str) -> String {
    let mut r = String::new();
    for p in s.split('.') {
        if !r.is_empty() {
            r.push('_');
        }
        for (i, c) in p.chars().enumerate() {
            if c.is_uppercase() && i > 0 {
                r.push('_');
            }
            r.extend(c.to_lowercase());
        }
    }
    r
}

fn main() {
    println!("cargo:rerun-if-changed={SCHEMAS}");
    let mut files: Vec<_> = std::fs::read_dir(SCHEMAS).unwrap().map(|f| f.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "fbs")).collect();
    files.sort();
    let mut defs: BTreeMap<String, Def> = BTreeMap::new(); // by full name
    for f in files {
        let text = std::fs::read_to_string(f).unwrap();
        let text: String = text.lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join(" ");
        let mut ns = String::new();
        let mut rest = text.trim();
        while !rest.is_empty() {
            let (word, tail) = rest.split_once(char::is_whitespace).unwrap();
            if word == "include" || word == "namespace" {
                let (arg, tail) = tail.split_once(';').unwrap();
                if word == "namespace" {
                    ns = arg.trim().to_string();
                }
                rest = tail.trim();
                continue;
            }
            let (name, tail) = tail.split_once('{').unwrap();
            let (body, tail) = tail.split_once('}').unwrap();
            rest = tail.trim();
            let (name, base) = name.split_once(':').map_or((name.trim(), ""), |(a, b)| (a.trim(), b.trim()));
            let items = |sep| body.split(sep).map(|x: &str| x.trim().to_string()).filter(|x| !x.is_empty()).collect::<Vec<_>>();
            let d = match word {
                "table" => Def::Table(items(';').iter().map(|x| x.split_once(':').map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).unwrap()).collect()),
                "union" => Def::Union(items(',')),
                "enum" => {
                    let mut next = 0;
                    let mut vs = vec![];
                    for v in items(',') {
                        let (v, n) = v.split_once('=').map_or((v.trim(), next), |(a, b)| (a.trim(), b.trim().parse().unwrap()));
                        vs.push((v.to_string(), n));
                        next = n + 1;
                    }
                    Def::Enum(scalar(base).unwrap().to_string(), vs)
                }
                _ => panic!("schema: {word}"),
            };
            assert!(defs.insert(format!("{ns}.{name}"), d).is_none(), "{name} twice");
        }
    }
    let find = |ns: &str, t: &str| -> String {
        let here = format!("{ns}.{t}");
        if defs.contains_key(&here) {
            here
        } else {
            assert!(defs.contains_key(t), "schema: unknown type {t}");
            t.to_string()
        }
    };
    let path = |full: &str| format!("crate::generated::{}", full.replace('.', "::"));
    let mut mods: BTreeMap<String, String> = BTreeMap::new();
    for (full, d) in &defs {
        let (ns, name) = full.rsplit_once('.').unwrap();
        let out = mods.entry(ns.to_string()).or_default();
        match d {
            Def::Enum(t, vs) => {
                let l: Vec<_> = vs.iter().map(|(v, n)| format!("{v} = {n}")).collect();
                writeln!(out, "open_enum!({name}, {t}, {});", l.join(", ")).unwrap();
            }
            Def::Union(vs) => {
                let mut l = vec!["NONE = 0".to_string()];
                l.extend(vs.iter().enumerate().map(|(i, v)| format!("{} = {}", v.replace('.', "_"), i + 1)));
                writeln!(out, "open_enum!({name}, u8, {});", l.join(", ")).unwrap();
            }
            Def::Table(fields) => {
                let (mut l, mut borrows, mut methods) = (vec![], false, String::new());
                for (f, t) in fields {
                    let item = t.strip_prefix('[').map(|x| x.trim_end_matches(']').trim());
                    let opt = |inner: String| format!("opt {f}: Option<W<{inner}>> => {inner} => Option<{inner}>");
                    let val = |s: &str| format!("val {f}: {s} => {s} => {s}");
                    // Ok: in the field itself; Err: elsewhere
                    let elem = |t: &str| -> Result<String, String> {
                        if let Some(s) = scalar(t) {
                            return Ok(s.to_string());
                        }
                        if t == "string" {
                            return Err("&'a str".to_string());
                        }
                        let full = find(ns, t);
                        match defs[&full] {
                            Def::Enum(..) => Ok(path(&full)),
                            Def::Table(_) => Err(format!("{}<'a>", path(&full))),
                            Def::Union(_) => panic!("schema: union {t} here"),
                        }
                    };
                    if let Some(i) = item {
                        borrows = true;
                        l.push(opt(match elem(i) {
                            Ok(s) => format!("Vector<'a, {s}>"),
                            Err(s) => format!("Vector<'a, F<{s}>>"),
                        }));
                        continue;
                    }
                    if scalar(t).is_none() && t != "string" {
                        let full = find(ns, t);
                        if let Def::Union(vs) = &defs[&full] {
                            let (uns, _) = full.rsplit_once('.').unwrap();
                            let u = path(&full);
                            l.push(format!("val {f}_type: {u} => {u} => {u}"));
                            l.push(format!("opt {f}: Option<W<UnionWIPOffset>> => u64 => Option<u64>"));
                            for v in vs {
                                let ty = path(&find(uns, v));
                                writeln!(
                                    methods,
                                    "pub fn {f}_as_{}(&self) -> Option<{ty}<'a>> {{ if self.{f}_type() != {u}::{} {{ return None; }} \
                                     self.{f}().map(|o| <{ty}<'a> as ::flatbuffers::Follow>::follow(self.buf, o)) }}",
                                    snake(v),
                                    v.replace('.', "_")
                                )
                                .unwrap();
                            }
                            continue;
                        }
                    }
                    l.push(match elem(t) {
                        Ok(s) => val(&s),
                        Err(s) => {
                            borrows = true;
                            opt(s)
                        }
                    });
                }
                writeln!(out, "table!({name}, {name}Args{}, {});", if borrows { "<'a>" } else { "" }, l.join(", ")).unwrap();
                if !methods.is_empty() {
                    writeln!(out, "impl<'a> {name}<'a> {{\n{methods}}}").unwrap();
                }
            }
        }
    }
    let mut text = String::from("pub mod tp_serialize {\n");
    text.push_str(HEAD);
    for (ns, m) in mods {
        let sub = ns.strip_prefix("tp_serialize").unwrap().trim_start_matches('.');
        if sub.is_empty() {
            text.push_str(&m);
        } else {
            writeln!(text, "pub mod {sub} {{\nuse super::*;\n{m}}}").unwrap();
        }
    }
    text.push_str("}\n");
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("mod.rs"), text).unwrap();
}
