//! Stand-in for exonum-build: compiles the proto3 subset used by schemas/witnet/witnet.proto into
//! Rust code in the style of rust-protobuf 2.x, on top of the `protobuf` stand-in.
use std::collections::HashSet;
use std::fmt::Write as _;
use std::path::Path;

#[derive(Debug, Clone)]
struct Field {
    ty: String,
    name: String,
    num: u32,
    repeated: bool,
}
#[derive(Debug, Default, Clone)]
struct Msg {
    path: Vec<String>,
    fields: Vec<Field>,
    oneofs: Vec<(String, Vec<Field>)>,
}
#[derive(Debug, Clone)]
struct Enum {
    path: Vec<String>,
    values: Vec<(String, i32)>,
}

struct P {
    t: Vec<String>,
    i: usize,
    msgs: Vec<Msg>,
    enums: Vec<Enum>,
}
impl P {
    fn next(&mut self) -> String {
        self.i += 1;
        self.t[self.i - 1].clone()
    }
    fn peek(&self) -> &str {
        &self.t[self.i]
    }
    fn eat(&mut self, s: &str) {
        let n = self.next();
        assert_eq!(n, s, "unexpected token at {}", self.i);
    }
    fn field(&mut self, repeated: bool) -> Field {
        let ty = self.next();
        let name = self.next();
        self.eat("=");
        let num = self.next().parse().unwrap();
        self.eat(";");
        Field { ty, name, num, repeated }
    }
    fn message(&mut self, path: &[String]) {
        let mut path = path.to_vec();
        path.push(self.next());
        let mut m = Msg { path: path.clone(), ..Default::default() };
        self.eat("{");
        loop {
            match self.peek() {
                "}" => {
                    self.next();
                    break;
                }
                "message" => {
                    self.next();
                    self.message(&path);
                }
                "enum" => {
                    self.next();
                    self.enumeration(&path);
                }
                "oneof" => {
                    self.next();
                    let name = self.next();
                    self.eat("{");
                    let mut v = vec![];
                    while self.peek() != "}" {
                        v.push(self.field(false));
                    }
                    self.eat("}");
                    m.oneofs.push((name, v));
                }
                "repeated" => {
                    self.next();
                    let f = self.field(true);
                    m.fields.push(f);
                }
                _ => {
                    let f = self.field(false);
                    m.fields.push(f);
                }
            }
        }
        self.msgs.push(m);
    }
    fn enumeration(&mut self, path: &[String]) {
        let mut path = path.to_vec();
        path.push(self.next());
        self.eat("{");
        let mut values = vec![];
        while self.peek() != "}" {
            let n = self.next();
            self.eat("=");
            values.push((n, self.next().parse().unwrap()));
            self.eat(";");
        }
        self.eat("}");
        self.enums.push(Enum { path, values });
    }
}

fn tokens(src: &str) -> Vec<String> {
    let mut out = vec![];
    for line in src.lines() {
        let line = line.split("//").next().unwrap();
        let mut cur = String::new();
        for c in line.chars() {
            if c.is_whitespace() || "{}=;".contains(c) {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
                if !c.is_whitespace() {
                    out.push(c.to_string());
                }
            } else {
                cur.push(c);
            }
        }
        if !cur.is_empty() {
            out.push(cur);
        }
    }
    out
}

#[derive(Clone, Copy, PartialEq)]
enum K {
    Varint,
    Fixed32,
    Fixed64,
    Double,
    Float,
    Bool,
    Str,
    Bytes,
    Enum,
    Msg,
}
struct Ty {
    k: K,
    rust: String,
}

fn rust_kw(s: &str) -> String {
    if ["type", "match", "move", "ref"].contains(&s) {
        format!("field_{s}")
    } else {
        s.to_string()
    }
}

fn resolve(ty: &str, path: &[String], msgs: &HashSet<String>, enums: &HashSet<String>) -> Ty {
    let k = match ty {
        "uint32" | "int32" | "uint64" | "int64" => K::Varint,
        "fixed32" => K::Fixed32,
        "fixed64" => K::Fixed64,
        "double" => K::Double,
        "float" => K::Float,
        "bool" => K::Bool,
        "string" => K::Str,
        "bytes" => K::Bytes,
        _ => {
            let mut p = path.to_vec();
            loop {
                let mut q = p.clone();
                q.push(ty.to_string());
                let n = q.join("_");
                if msgs.contains(&n) {
                    return Ty { k: K::Msg, rust: n };
                }
                if enums.contains(&n) {
                    return Ty { k: K::Enum, rust: n };
                }
                assert!(p.pop().is_some(), "cannot resolve type {ty}");
            }
        }
    };
    let rust = match ty {
        "uint32" | "fixed32" => "u32",
        "int32" => "i32",
        "uint64" | "fixed64" => "u64",
        "int64" => "i64",
        "double" => "f64",
        "float" => "f32",
        "bool" => "bool",
        "string" => "::std::string::String",
        "bytes" => "::std::vec::Vec<u8>",
        _ => unreachable!(),
    };
    Ty { k, rust: rust.to_string() }
}

fn put(t: &Ty, num: u32, e: &str) -> String {
    match t.k {
        K::Varint if t.rust == "i32" => format!("::protobuf::put_tag(o, {num}, 0); ::protobuf::put_varint(o, i64::from(*{e}) as u64);"),
        K::Varint => format!("::protobuf::put_tag(o, {num}, 0); ::protobuf::put_varint(o, *{e} as u64);"),
        K::Bool => format!("::protobuf::put_tag(o, {num}, 0); ::protobuf::put_varint(o, u64::from(*{e}));"),
        K::Enum => format!("::protobuf::put_tag(o, {num}, 0); ::protobuf::put_varint(o, i64::from(*{e} as i32) as u64);"),
        K::Fixed32 | K::Float => format!("::protobuf::put_tag(o, {num}, 5); o.extend_from_slice(&({e}).to_le_bytes());"),
        K::Fixed64 | K::Double => format!("::protobuf::put_tag(o, {num}, 1); o.extend_from_slice(&({e}).to_le_bytes());"),
        K::Str => format!("::protobuf::put_tag(o, {num}, 2); ::protobuf::put_bytes(o, ({e}).as_bytes());"),
        K::Bytes => format!("::protobuf::put_tag(o, {num}, 2); ::protobuf::put_bytes(o, &({e})[..]);"),
        K::Msg => format!("::protobuf::put_message(o, {num}, {e});"),
    }
}
fn get(t: &Ty) -> (u8, String) {
    match t.k {
        K::Varint => (0, format!("i.varint()? as {}", t.rust)),
        K::Bool => (0, "i.varint()? != 0".into()),
        K::Enum => (0, format!("{}::from_i32(i.varint()? as i32)?", t.rust)),
        K::Fixed32 | K::Float => (5, format!("{}::from_le_bytes(i.take(4)?.try_into().unwrap())", t.rust)),
        K::Fixed64 | K::Double => (1, format!("{}::from_le_bytes(i.take(8)?.try_into().unwrap())", t.rust)),
        K::Str => (2, "::std::string::String::from_utf8(i.bytes()?.to_vec()).map_err(|_| ::protobuf::ProtobufError::Utf8)?".into()),
        K::Bytes => (2, "i.bytes()?.to_vec()".into()),
        K::Msg => (2, format!("{{ let mut m = {}::default(); ::protobuf::merge_message(&mut m, i)?; m }}", t.rust)),
    }
}
fn nondefault(t: &Ty, e: &str) -> String {
    match t.k {
        K::Varint | K::Fixed32 | K::Fixed64 => format!("{e} != 0"),
        K::Double | K::Float => format!("{e} != 0.0"),
        K::Bool => e.to_string(),
        K::Enum => format!("{e} as i32 != 0"),
        K::Str | K::Bytes => format!("!{e}.is_empty()"),
        K::Msg => unreachable!(),
    }
}
fn copy(t: &Ty) -> bool {
    !matches!(t.k, K::Str | K::Bytes | K::Msg)
}

pub fn compile(src: &str) -> String {
    let t = tokens(src);
    let mut p = P { t, i: 0, msgs: vec![], enums: vec![] };
    while p.i < p.t.len() {
        match p.next().as_str() {
            "message" => p.message(&[]),
            "enum" => p.enumeration(&[]),
            "syntax" | "package" | "option" | "import" => while p.next() != ";" {},
            x => panic!("unexpected {x}"),
        }
    }
    let mnames: HashSet<String> = p.msgs.iter().map(|m| m.path.join("_")).collect();
    let enames: HashSet<String> = p.enums.iter().map(|m| m.path.join("_")).collect();
    let mut o = String::new();
    for e in &p.enums {
        let n = e.path.join("_");
        writeln!(o, "#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)] pub enum {n} {{").unwrap();
        for (v, k) in &e.values {
            writeln!(o, "  {v} = {k},").unwrap();
        }
        writeln!(o, "}}\nimpl Default for {n} {{ fn default() -> Self {{ {n}::{} }} }}", e.values[0].0).unwrap();
        writeln!(o, "impl {n} {{ pub fn from_i32(v: i32) -> ::protobuf::ProtobufResult<Self> {{ match v {{").unwrap();
        for (v, k) in &e.values {
            writeln!(o, "  {k} => Ok({n}::{v}),").unwrap();
        }
        // rust-protobuf 2.x keeps unknown enum values as unknown fields: the field stays at its default
        writeln!(o, "  _ => Ok(Self::default()), }} }} }}").unwrap();
    }
    for m in &p.msgs {
        let n = m.path.join("_");
        let res = |f: &Field| resolve(&f.ty, &m.path, &mnames, &enames);
        // oneof enums
        for (on, fs) in &m.oneofs {
            writeln!(o, "#[derive(Clone, Debug, PartialEq)] pub enum {n}_oneof_{on} {{").unwrap();
            for f in fs {
                writeln!(o, "  {}({}),", f.name, res(f).rust).unwrap();
            }
            writeln!(o, "}}").unwrap();
        }
        writeln!(o, "#[derive(Clone, Debug, Default, PartialEq)] pub struct {n} {{").unwrap();
        for f in &m.fields {
            let t = res(f);
            let ft = match (f.repeated, t.k) {
                (true, _) => format!("::protobuf::RepeatedField<{}>", t.rust),
                (false, K::Msg) => format!("::protobuf::SingularPtrField<{}>", t.rust),
                _ => t.rust.clone(),
            };
            writeln!(o, "  pub {}: {},", rust_kw(&f.name), ft).unwrap();
        }
        for (on, _) in &m.oneofs {
            writeln!(o, "  pub {on}: ::std::option::Option<{n}_oneof_{on}>,").unwrap();
        }
        writeln!(o, "}}\nimpl<'a> ::std::default::Default for &'a {n} {{ fn default() -> &'a {n} {{ {n}::default_instance() }} }}").unwrap();
        writeln!(o, "impl {n} {{ pub fn new() -> Self {{ Self::default() }}\n pub fn default_instance() -> &'static {n} {{ static D: ::std::sync::OnceLock<{n}> = ::std::sync::OnceLock::new(); D.get_or_init({n}::default) }}").unwrap();
        for f in &m.fields {
            let t = res(f);
            let (id, nm, rt) = (rust_kw(&f.name), &f.name, &t.rust);
            if f.repeated {
                writeln!(o, "  pub fn get_{nm}(&self) -> &[{rt}] {{ &self.{id} }}
  pub fn clear_{nm}(&mut self) {{ self.{id}.clear() }}
  pub fn set_{nm}(&mut self, v: ::protobuf::RepeatedField<{rt}>) {{ self.{id} = v }}
  pub fn mut_{nm}(&mut self) -> &mut ::protobuf::RepeatedField<{rt}> {{ &mut self.{id} }}
  pub fn take_{nm}(&mut self) -> ::protobuf::RepeatedField<{rt}> {{ ::std::mem::take(&mut self.{id}) }}").unwrap();
            } else if t.k == K::Msg {
                writeln!(o, "  pub fn get_{nm}(&self) -> &{rt} {{ self.{id}.as_ref().unwrap_or_else(|| {rt}::default_instance()) }}
  pub fn clear_{nm}(&mut self) {{ self.{id}.clear() }}
  pub fn has_{nm}(&self) -> bool {{ self.{id}.is_some() }}
  pub fn set_{nm}(&mut self, v: {rt}) {{ self.{id} = ::protobuf::SingularPtrField::some(v) }}
  pub fn mut_{nm}(&mut self) -> &mut {rt} {{ self.{id}.mut_or_default() }}
  pub fn take_{nm}(&mut self) -> {rt} {{ self.{id}.take().unwrap_or_default() }}").unwrap();
            } else {
                let (gt, ge) = match t.k {
                    K::Str => ("&str".to_string(), format!("&self.{id}")),
                    K::Bytes => ("&[u8]".to_string(), format!("&self.{id}")),
                    _ => (rt.clone(), format!("self.{id}")),
                };
                writeln!(o, "  pub fn get_{nm}(&self) -> {gt} {{ {ge} }}
  pub fn clear_{nm}(&mut self) {{ self.{id} = Default::default() }}
  pub fn set_{nm}(&mut self, v: {rt}) {{ self.{id} = v }}").unwrap();
                if !copy(&t) {
                    writeln!(o, "  pub fn mut_{nm}(&mut self) -> &mut {rt} {{ &mut self.{id} }}
  pub fn take_{nm}(&mut self) -> {rt} {{ ::std::mem::take(&mut self.{id}) }}").unwrap();
                }
            }
        }
        for (on, fs) in &m.oneofs {
            writeln!(o, "  pub fn clear_{on}(&mut self) {{ self.{on} = None }}").unwrap();
            for f in fs {
                let t = res(f);
                let (nm, rt, en) = (&f.name, &t.rust, format!("{n}_oneof_{on}"));
                writeln!(o, "  pub fn has_{nm}(&self) -> bool {{ matches!(self.{on}, Some({en}::{nm}(_))) }}
  pub fn set_{nm}(&mut self, v: {rt}) {{ self.{on} = Some({en}::{nm}(v)) }}
  pub fn take_{nm}(&mut self) -> {rt} {{ if self.has_{nm}() {{ match self.{on}.take() {{ Some({en}::{nm}(v)) => v, _ => unreachable!() }} }} else {{ Default::default() }} }}
  pub fn clear_{nm}(&mut self) {{ self.{on} = None }}
  pub fn mut_{nm}(&mut self) -> &mut {rt} {{ if !self.has_{nm}() {{ self.{on} = Some({en}::{nm}(Default::default())); }} match self.{on} {{ Some({en}::{nm}(ref mut v)) => v, _ => unreachable!() }} }}").unwrap();
                let (gt, ge, d) = match t.k {
                    K::Str => ("&str".to_string(), "v".to_string(), "\"\"".to_string()),
                    K::Bytes => ("&[u8]".to_string(), "v".to_string(), "&[]".to_string()),
                    K::Msg => (format!("&{rt}"), "v".to_string(), format!("{rt}::default_instance()")),
                    _ => (rt.clone(), "*v".to_string(), "Default::default()".to_string()),
                };
                writeln!(o, "  pub fn get_{nm}(&self) -> {gt} {{ match self.{on} {{ Some({en}::{nm}(ref v)) => {ge}, _ => {d} }} }}").unwrap();
            }
        }
        writeln!(o, "}}\nimpl ::protobuf::Clear for {n} {{ fn clear(&mut self) {{ *self = Self::default() }} }}").unwrap();
        writeln!(o, "impl ::protobuf::Message for {n} {{ fn new() -> Self {{ Self::default() }}\n fn put(&self, o: &mut ::std::vec::Vec<u8>) {{ let _ = &o;").unwrap();
        // In ascending order of field number, with the oneofs last as rust-protobuf does
        let mut fields: Vec<&Field> = m.fields.iter().collect();
        fields.sort_by_key(|f| f.num);
        for f in fields {
            let t = res(f);
            let id = rust_kw(&f.name);
            if f.repeated {
                assert!(matches!(t.k, K::Str | K::Bytes | K::Msg), "packed fields are not supported");
                writeln!(o, "  for v in self.{id}.iter() {{ {} }}", put(&t, f.num, "v")).unwrap();
            } else if t.k == K::Msg {
                writeln!(o, "  if let Some(v) = self.{id}.as_ref() {{ {} }}", put(&t, f.num, "v")).unwrap();
            } else {
                let e = format!("self.{id}");
                writeln!(o, "  if {} {{ let v = &self.{id}; {} }}", nondefault(&t, &e), put(&t, f.num, "v")).unwrap();
            }
        }
        for (on, fs) in &m.oneofs {
            writeln!(o, "  match &self.{on} {{ None => (),").unwrap();
            for f in fs {
                writeln!(o, "    Some({n}_oneof_{on}::{}(v)) => {{ {} }}", f.name, put(&res(f), f.num, "v")).unwrap();
            }
            writeln!(o, "  }}").unwrap();
        }
        writeln!(o, " }}\n fn merge(&mut self, i: &mut ::protobuf::In<'_>) -> ::protobuf::ProtobufResult<()> {{ while !i.eof() {{ let (f, w) = i.tag()?; match f {{").unwrap();
        for f in &m.fields {
            let t = res(f);
            let id = rust_kw(&f.name);
            let (w, e) = get(&t);
            let act = if f.repeated {
                format!("let v = {e}; self.{id}.push(v);")
            } else if t.k == K::Msg {
                format!("::protobuf::merge_message(self.{id}.mut_or_default(), i)?;")
            } else {
                format!("self.{id} = {e};")
            };
            writeln!(o, "  {} => {{ ::protobuf::expect(w, {w})?; {act} }}", f.num).unwrap();
        }
        for (on, fs) in &m.oneofs {
            for f in fs {
                let (w, e) = get(&res(f));
                writeln!(o, "  {} => {{ ::protobuf::expect(w, {w})?; let v = {e}; self.{on} = Some({n}_oneof_{on}::{}(v)); }}", f.num, f.name).unwrap();
            }
        }
        writeln!(o, "  _ => i.skip(w)?, }} }} Ok(()) }} }}").unwrap();
    }
    format!("#[allow(non_camel_case_types, non_snake_case, unused, clippy::all)]\npub mod witnet {{\n{o}\n}}\n")
}

/// Same signature as the original, with the directory taken as given.
pub fn protobuf_generate<P, R, I, T>(input_dir: P, _includes: I, mod_file_name: T)
where
    P: AsRef<Path>,
    R: AsRef<Path>,
    I: IntoIterator<Item = R>,
    T: AsRef<str>,
{
    let out = std::env::var("OUT_DIR").unwrap();
    let src = std::fs::read_to_string(input_dir.as_ref().join("witnet.proto")).expect("witnet.proto");
    std::fs::write(Path::new(&out).join(mod_file_name.as_ref()), compile(&src)).unwrap();
}
