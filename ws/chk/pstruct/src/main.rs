//! The `PartialStruct` derive, run by the compiler over every struct of a bounded grammar; the
//! expansion is parsed back and compared with what the documentation says it is.
use mc::{Ch, Run, explore, same};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Mutex;

/// What one struct declares and what the derive has to make of it.
#[derive(Clone, Default)]
struct Case {
    src: String,
    /// None: the derive has to refuse it.
    want: Option<String>,
    derives: BTreeSet<String>,
}
#[derive(Clone, Copy)]
enum Shape {
    Unit,
    Tuple,
    Named,
}
const TYPES: [&str; 10] = [
    "u32",
    "Option<u8>",
    "Vec<Option<String>>",
    "(u8, Option<bool>)",
    "[u8; 3]",
    "fn(u8) -> Option<u8>",
    "Box<dyn Fn(&str) -> u8 + Send>",
    "std::collections::HashMap<String, Vec<u8>>",
    "&'static [Option<u8>]",
    "<Vec<u8> as IntoIterator>::Item",
];
/// Types of every kind, for fields on their own.
const MORE_TYPES: [&str; 58] = [
    "()", "bool", "char", "f64", "u128", "usize", "String", "str", "[u8]", "!", "&'static str", "&'static mut u8", "*const u8", "*mut [u8]", "[[u8; 2]; 3]", "[u8; 2 + 1]", "[u8; 0]", "[Option<u8>; 32]",
    "(u8,)", "(u8, (u8, ()))", "((), u8)", "Box<u8>", "Box<()>", "Box<dyn std::fmt::Debug>", "Box<dyn Fn() -> u8>", "dyn Fn(u8)", "std::rc::Rc<std::cell::RefCell<u8>>", "Option<()>", "Option<Option<u8>>", "Option<Vec<u8>>",
    "std::option::Option<u8>", "core::option::Option<u8>", "::std::option::Option<u8>", "option::Option<u8>", "MyOption<u8>", "Optional<u8>", "OptionExt", "Opt<u8>", "Result<u8, ()>", "Result<Option<u8>, String>", "std::marker::PhantomData<u8>", "PhantomData<Vec<u8>>", "PhantomPinned",
    "unsafe extern \"C\" fn(u8)", "for<'x> fn(&'x u8) -> &'x u8", "fn()", "std::borrow::Cow<'static, str>", "crate::X", "super::X", "self::X<u8>", "<u8 as ToOwned>::Owned", "Vec<()>", "Vec<Box<PartialThing>>", "Partial", "PartialInner", "Default", "HashMap<Option<u8>, Vec<(u8, u8)>>", "Protected",
];
/// Attributes of every kind, given as they are or for the partial struct only.
const MORE_ATTRS: [&str; 26] = [
    "deprecated", "deprecated(note = \"old\")", "deprecated(since = \"1\", note = \"old\")", "must_use", "must_use = \"really\"", "allow(unused)", "warn(missing_docs)", "deny(warnings, unused)", "forbid(unsafe_code)", "doc(hidden)", "doc = \"text\"", "doc(alias = \"x\")", "non_exhaustive", "repr(C)", "repr(transparent)", "repr(C, align(8))",
    "serde(default)", "serde(rename = \"a\", alias = \"b\")", "serde(rename_all = \"kebab-case\")", "serde(deny_unknown_fields)", "serde(skip)", "serde(default = \"f\")", "structopt(short = \"a\", long)", "rename", "skip_serializing", "partial(skip)",
];
/// (attributes in the source, type in the partial given the original, attributes in the partial)
struct FieldKind {
    attrs: &'static str,
    ty: Option<&'static str>,
    kept: &'static str,
}
const W: Option<&str> = None;
const SKIP: Option<&str> = Some("");
const KINDS: [FieldKind; 20] = [
    FieldKind { attrs: "", ty: W, kept: "" },
    FieldKind { attrs: "#[partial_struct(skip)]", ty: SKIP, kept: "" },
    FieldKind { attrs: "#[partial_struct(ty = \"PartialInner\")]", ty: Some("PartialInner"), kept: "" },
    FieldKind { attrs: "#[partial_struct(allow(unused))]", ty: W, kept: "#[allow(unused)]" },
    FieldKind { attrs: "#[partial_struct(skip)] #[partial_struct(serde(default))]", ty: SKIP, kept: "#[serde(default)]" },
    FieldKind { attrs: "#[partial_struct(serde(default))] #[partial_struct(skip)]", ty: SKIP, kept: "#[serde(default)]" },
    FieldKind { attrs: "#[partial_struct(skip, serde(default))]", ty: SKIP, kept: "#[serde(default)]" },
    FieldKind { attrs: "#[partial_struct(serde(default), skip)]", ty: SKIP, kept: "#[serde(default)]" },
    FieldKind { attrs: "#[partial_struct(ty = \"Option<a::PartialB<u8>>\")] #[partial_struct(serde(default))]", ty: Some("Option<a::PartialB<u8>>"), kept: "#[serde(default)]" },
    FieldKind { attrs: "#[partial_struct(serde(default), ty = \"Vec<PartialB>\", allow(unused))]", ty: Some("Vec<PartialB>"), kept: "#[serde(default)] #[allow(unused)]" },
    FieldKind { attrs: "#[doc = \"text\"]", ty: W, kept: "#[doc = \"text\"]" },
    FieldKind { attrs: "#[doc = \"text\"] #[partial_struct(skip)] #[serde(rename = \"x\")]", ty: SKIP, kept: "#[doc = \"text\"] #[serde(rename = \"x\")]" },
    FieldKind { attrs: "#[protobuf_convert(skip)]", ty: W, kept: "" },
    FieldKind { attrs: "#[partial_struct(skip)] #[protobuf_convert(pb = \"x\")] #[allow(unused)]", ty: SKIP, kept: "#[allow(unused)]" },
    FieldKind { attrs: "#[serde(default)] #[serde(skip)]", ty: W, kept: "#[serde(default)] #[serde(skip)]" },
    FieldKind { attrs: "#[protobuf_convert(skip)] #[partial_struct(ty = \"PartialInner\")]", ty: Some("PartialInner"), kept: "" },
    FieldKind { attrs: "#[doc = \"a\"] #[allow(unused)] #[serde(default)] #[allow(dead_code)] #[partial_struct(skip)]", ty: SKIP, kept: "#[doc = \"a\"] #[allow(unused)] #[serde(default)] #[allow(dead_code)]" },
    FieldKind { attrs: "#[doc = \"a\"] #[doc = \"b\"] #[doc = \"c\"] #[serde(default)] #[serde(skip)] #[protobuf_convert(skip)] #[partial_struct(ty = \"PartialInner\", allow(unused))] #[doc = \"d\"]", ty: Some("PartialInner"), kept: "#[doc = \"a\"] #[doc = \"b\"] #[doc = \"c\"] #[serde(default)] #[serde(skip)] #[allow(unused)] #[doc = \"d\"]" },
    FieldKind { attrs: "#[partial_struct(allow(unused), serde(default), serde(skip), allow(dead_code), deprecated, serde(flatten))]", ty: W, kept: "#[allow(unused)] #[serde(default)] #[serde(skip)] #[allow(dead_code)] #[deprecated] #[serde(flatten)]" },
    FieldKind { attrs: "#[partial_struct(allow(unused))] #[partial_struct(serde(default))] #[partial_struct(serde(skip))] #[partial_struct(allow(dead_code))] #[partial_struct(deprecated)] #[partial_struct(ty = \"u8\")]", ty: Some("u8"), kept: "#[allow(unused)] #[serde(default)] #[serde(skip)] #[allow(dead_code)] #[deprecated]" },
];
/// (source, partial, derives of the partial)
const HEADS: [(&str, &str, &[&str]); 10] = [
    ("", "", &[]),
    ("#[partial_struct(derive(Debug, Clone))]", "", &["Debug", "Clone"]),
    ("#[partial_struct(derive(Debug))] #[partial_struct(derive(Clone))]", "", &["Debug", "Clone"]),
    ("#[doc = \"d\"] #[partial_struct(derive(PartialEq), must_use)]", "#[doc = \"d\"] #[must_use]", &["PartialEq"]),
    ("#[partial_struct(allow(unused), derive(Debug))] #[allow(dead_code)]", "#[allow(unused)] #[allow(dead_code)]", &["Debug"]),
    ("#[protobuf_convert(pb = \"x\")]", "", &[]),
    ("#[partial_struct(serde(default))] #[protobuf_convert(pb = \"x\")] #[partial_struct(derive(Hash))]", "#[serde(default)]", &["Hash"]),
    ("#[serde(from = \"U\")]", "#[serde(from = \"U\")]", &[]),
    ("#[doc = \"a\"] #[allow(unused)] #[serde(default)] #[allow(dead_code)] #[partial_struct(derive(Debug))] #[protobuf_convert(pb = \"x\")] #[doc = \"b\"]", "#[doc = \"a\"] #[allow(unused)] #[serde(default)] #[allow(dead_code)] #[doc = \"b\"]", &["Debug"]),
    ("#[partial_struct(allow(unused), serde(default), allow(dead_code), must_use, derive(Debug, Clone, PartialEq, Hash, Default))]", "#[allow(unused)] #[serde(default)] #[allow(dead_code)] #[must_use]", &["Debug", "Clone", "PartialEq", "Hash", "Default"]),
];
const VIS: [&str; 5] = ["", "pub ", "pub(crate) ", "pub(super) ", "pub(in super) "];
/// (parameters, where clause)
const GENERICS: [(&str, &str); 11] = [
    ("", ""),
    ("<T>", ""),
    ("<'a, T: Clone + 'a>", ""),
    ("<T, U>", "where T: Into<U>, U: Copy"),
    ("<T: Iterator<Item = u8> = std::vec::IntoIter<u8>>", ""),
    ("<const N: usize>", ""),
    ("<T, U, V>", "where T: Into<U>, U: Copy, V: Clone"),
    ("<'a, 'b: 'a, T: 'a + ?Sized, const N: usize>", "where T: PartialEq<[u8; N]>, &'b T: Copy"),
    ("<T = u8, U: Default = Vec<T>>", ""),
    ("<F>", "where for<'c> F: Fn(&'c u8) -> u8 + Send + 'static"),
    ("<A, B, C, D, E, G>", "where A: Copy, B: Copy, C: Copy, D: Copy, E: Copy, G: Copy"),
];
/// `none` | `unknown option` | `ty of another kind` | `ty that is no type`
const BAD: [&str; 4] = [
    "#[partial_struct(tyy = \"u8\")]",
    "#[partial_struct(ty = 5)]",
    "#[partial_struct(ty = \"not a type (\")]",
    "#[partial_struct(skip, wrap = \"no\")]",
];
fn build(shape: Shape, head: usize, vis: &str, gen_: usize, fields: &[(usize, usize, &str)], bad: Option<(usize, usize)>) -> Case {
    let (hs, hp, hd) = HEADS[head];
    let (params, wh) = GENERICS[gen_];
    let (mut a, mut b) = (String::new(), String::new());
    for (i, (kind, ty, fv)) in fields.iter().enumerate() {
        let k = &KINDS[*kind];
        let t = TYPES[*ty];
        let name = if let Shape::Named = shape { format!("f{i}: ") } else { String::new() };
        let worse = bad.filter(|x| x.0 == i).map_or("", |x| BAD[x.1]);
        let p = match k.ty {
            None => format!("Option<{t}>"),
            Some("") => t.to_string(),
            Some(x) => x.to_string(),
        };
        a += &format!("{} {worse} {fv}{name}{t}, ", k.attrs);
        b += &format!("{} {fv}{name}{p}, ", k.kept);
    }
    let item = |n: &str, body: &str| match shape {
        Shape::Unit => format!("{vis}struct {n}{params} {wh};"),
        Shape::Tuple => format!("{vis}struct {n}{params}({body}) {wh};"),
        Shape::Named => format!("{vis}struct {n}{params} {wh} {{ {body} }}"),
    };
    Case {
        src: format!("#[derive(PartialStruct)] {hs} {}", item("Thing", &a)),
        want: bad.is_none().then(|| format!("{hp} {}", item("PartialThing", &b))),
        derives: hd.iter().map(|x| x.to_string()).collect(),
    }
}
fn norm(s: String) -> String {
    let mut s = s.replace(" :: ", "::").replace(":: ", "::").replace(" ::", "::");
    for p in ["::core::option::Option", "::std::option::Option", "core::option::Option", "std::option::Option"] {
        s = s.replace(p, "Option");
    }
    s
}
fn attrs(l: &[syn::Attribute]) -> Vec<String> {
    let mut v: Vec<String> = l
        .iter()
        .map(|a| match &a.meta {
            syn::Meta::NameValue(n) => match &n.value {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => format!("{} = {:?}", n.path.to_token_stream(), s.value()),
                e => format!("{} = {}", n.path.to_token_stream(), e.to_token_stream()),
            },
            m => m.to_token_stream().to_string(),
        })
        .collect();
    v.sort();
    v
}
/// Everything the definition of a struct says, one line per fact.
fn facts(s: &syn::ItemStruct) -> Vec<String> {
    let t = |x: &dyn ToTokens| norm(x.to_token_stream().to_string());
    let mut v = vec![
        format!("name {}", s.ident),
        format!("visibility {:?}", t(&s.vis)),
        format!("attributes {:?}", attrs(&s.attrs)),
        format!("parameters {:?}", s.generics.params.iter().map(|p| t(p)).collect::<Vec<_>>()),
        format!("where {:?}", s.generics.where_clause.iter().flat_map(|w| w.predicates.iter().map(|p| t(p))).collect::<Vec<_>>()),
        format!("kind {}", match &s.fields {
            syn::Fields::Named(_) => "named",
            syn::Fields::Unnamed(_) => "tuple",
            syn::Fields::Unit => "unit",
        }),
    ];
    for (i, f) in s.fields.iter().enumerate() {
        v.push(format!("field {i}: {:?} {:?} {} {:?}", f.ident.as_ref().map(|x| x.to_string()), t(&f.vis), t(&f.ty), attrs(&f.attrs)));
    }
    v
}
struct Got {
    item: Option<Vec<String>>,
    others: Vec<String>,
    derives: BTreeSet<String>,
}
fn expand(srcs: &BTreeSet<String>) -> Result<HashMap<String, Got>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let so = exe.parent().unwrap().join("libpartial_struct.so");
    let dir = std::env::temp_dir().join(format!("pstruct-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let parts = 8;
    let list: Vec<&String> = srcs.iter().collect();
    let out = Mutex::new(HashMap::new());
    let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..parts)
            .map(|p| {
                let (list, out, dir, so) = (&list, &out, &dir, &so);
                sc.spawn(move || -> Result<(), String> {
                    let mut text = String::from("#![allow(warnings)]\n");
                    for (i, s) in list.iter().enumerate().filter(|x| x.0 % parts == p) {
                        text += &format!("mod m{i} {{ use partial_struct::PartialStruct; {s} }}\n");
                    }
                    let f = dir.join(format!("in{p}.rs"));
                    std::fs::write(&f, text).map_err(|e| e.to_string())?;
                    let o = std::process::Command::new("rustc")
                        .env("RUSTC_BOOTSTRAP", "1")
                        .args(["--edition", "2021", "--crate-type", "lib", "-Zunpretty=expanded", "--error-format=short", "--extern"])
                        .arg(format!("partial_struct={}", so.display()))
                        .arg(&f)
                        .current_dir(dir)
                        .output()
                        .map_err(|e| e.to_string())?;
                    let file = syn::parse_file(&String::from_utf8_lossy(&o.stdout))
                        .map_err(|e| format!("{e}: {}", String::from_utf8_lossy(&o.stderr).lines().take(3).collect::<Vec<_>>().join(" / ")))?;
                    for it in file.items {
                        let syn::Item::Mod(m) = it else { continue };
                        let Some(i) = m.ident.to_string().strip_prefix('m').and_then(|x| x.parse::<usize>().ok()) else { continue };
                        let mut g = Got { item: None, others: vec![], derives: BTreeSet::new() };
                        // The first struct is the one that was written.
                        let mut orig = None;
                        for it in m.content.map(|x| x.1).unwrap_or_default() {
                            match it {
                                syn::Item::Use(_) => {}
                                syn::Item::Struct(s) if orig.is_none() => orig = Some(s.ident.to_string()),
                                syn::Item::Struct(s) if g.item.is_none() => g.item = Some(facts(&s)),
                                syn::Item::Impl(im) => {
                                    let who = match &*im.self_ty {
                                        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
                                        _ => String::new(),
                                    };
                                    let what = im.trait_.map(|t| t.1.segments.last().unwrap().ident.to_string()).unwrap_or_default();
                                    if Some(&who) != orig.as_ref() && what != "StructuralPartialEq" {
                                        g.derives.insert(what);
                                    }
                                }
                                o => g.others.push(o.to_token_stream().to_string()),
                            }
                        }
                        out.lock().unwrap().insert(list[i].clone(), g);
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("lost".into()))).collect()
    });
    let _ = std::fs::remove_dir_all(&dir);
    for r in res {
        r?;
    }
    Ok(out.into_inner().unwrap())
}

type Pick = fn(&mut Ch, bool) -> Case;
fn by_field(c: &mut Ch, deep: bool) -> Case {
    let shape = c.of(&[Shape::Tuple, Shape::Named]);
    let kind = c.pick(KINDS.len());
    let ty = c.pick(TYPES.len());
    let fv = if kind < 2 { c.of(&VIS) } else { c.of(&VIS[..3]) };
    let second = if deep { c.pick(KINDS.len()) } else { [0, 1, 2, 4][c.pick(4)] };
    let swap = c.flag();
    let mut f = vec![(kind, ty, fv), (second, 0, "")];
    if swap {
        f.reverse();
    }
    build(shape, 0, "", 0, &f, None)
}
fn by_head(c: &mut Ch, _: bool) -> Case {
    let shape = c.of(&[Shape::Unit, Shape::Tuple, Shape::Named]);
    let head = c.pick(HEADS.len());
    let vis = c.of(&VIS);
    let g = c.pick(GENERICS.len());
    let n = if let Shape::Unit = shape { 0 } else { c.pick(3) };
    let f: Vec<_> = (0..n).map(|i| (i, i, "")).collect();
    build(shape, head, vis, g, &f, None)
}
fn by_rows(c: &mut Ch, deep: bool) -> Case {
    let shape = c.of(&[Shape::Tuple, Shape::Named]);
    let n = c.pick(if deep { 5 } else { 4 });
    let kinds = [0usize, 1, 2, 4, 12];
    let f: Vec<_> = (0..n).map(|i| (c.of(&kinds), i % 3, "")).collect();
    build(shape, 1, "pub ", 0, &f, None)
}
/// Many fields, one of which is another kind, with names that are keywords.
fn by_many(c: &mut Ch, deep: bool) -> Case {
    let shape = c.of(&[Shape::Tuple, Shape::Named]);
    let n = c.of(&[5usize, 8, 9, 17, 33, 65, 129]);
    let at = c.of(&[0, n / 2, n - 1]);
    let most = c.of(&[0usize, 1]);
    let kind = if deep { c.pick(KINDS.len()) } else { c.of(&[0usize, 1, 2, 12]) };
    let f: Vec<_> = (0..n).map(|i| (if i == at { kind } else { most }, i % TYPES.len(), ["", "pub "][i % 2])).collect();
    let mut case = build(shape, 1, "pub ", 0, &f, None);
    for (i, k) in ["type", "struct", "fn", "async", "match"].iter().enumerate() {
        for s in [Some(&mut case.src), case.want.as_mut()].into_iter().flatten() {
            *s = s.replace(&format!("f{i}: "), &format!("r#{k}: "));
        }
    }
    case
}
/// Every type, every attribute.
fn by_more(c: &mut Ch, _: bool) -> Case {
    let shape = c.of(&[Shape::Tuple, Shape::Named]);
    let name = if let Shape::Named = shape { "f: " } else { "" };
    let wrap = |n: &str, b: String| if let Shape::Named = shape { format!("struct {n} {{ {b} }}") } else { format!("struct {n}({b});") };
    if c.flag() {
        let t = c.of(&MORE_TYPES);
        let (attr, p) = c.of(&[("", format!("Option<{t}>")), ("#[partial_struct(skip)]", t.to_string())]);
        return Case { src: format!("#[derive(PartialStruct)] {}", wrap("Thing", format!("{attr} {name}{t}"))), want: Some(wrap("PartialThing", format!("{name}{p}"))), derives: BTreeSet::new() };
    }
    let a = c.of(&MORE_ATTRS);
    // As it is, or for the partial struct only; name-value pairs are options of the derive.
    let forms: &[bool] = if a.split('(').next().unwrap().contains('=') { &[false] } else { &[false, true] };
    let only = c.of(forms);
    let src = if only { format!("#[partial_struct({a})]") } else { format!("#[{a}]") };
    let field = c.flag();
    let (sh, sf) = if field { (String::new(), src) } else { (src, String::new()) };
    let want = format!("#[{a}]");
    let (wh, wf) = if field { (String::new(), want) } else { (want, String::new()) };
    Case { src: format!("#[derive(PartialStruct)] {sh} {}", wrap("Thing", format!("{sf} {name}u8, {}", if name.is_empty() { "u8" } else { "g: u8" }))), want: Some(format!("{wh} {}", wrap("PartialThing", format!("{wf} {name}Option<u8>, {}", if name.is_empty() { "Option<u8>" } else { "g: Option<u8>" })))), derives: BTreeSet::new() }
}
/// Names of every kind, for structs and for fields.
const NAMES: [&str; 24] = ["r#type", "r#Thing", "T", "PartialThing", "Partial", "PartialPartialThing", "thing", "some_thing", "THING", "_Thing", "_T", "__", "X1", "Option", "Some", "Config", "Vec", "Ünï", "世界", "partial", "ThingPartial", "AVeryLongNameThatGoesOnAndOnForSixtyFourCharactersOrEvenMoreThanThat0123456789", "Partialr", "String"];
fn by_name(c: &mut Ch, _: bool) -> Case {
    let shape = c.of(&[Shape::Unit, Shape::Tuple, Shape::Named]);
    let head = c.of(&[0usize, 2]);
    let name = c.of(&NAMES);
    let mut case = build(shape, head, c.of(&["", "pub "]), c.of(&[0usize, 1]), if let Shape::Unit = shape { &[] } else { &[(0, 0, ""), (1, 1, "")] }, None);
    case.src = case.src.replace("struct Thing", &format!("struct {name}"));
    case.want = case.want.map(|w| w.replace("struct PartialThing", &format!("struct Partial{}", name.trim_start_matches("r#"))));
    if let Shape::Named = shape {
        let field = c.of(&["f", "partial", "skip", "ty", "_x", "x1", "partial_struct", "r#type", "r#fn", "option", "é", "default", "union"]);
        for s in [Some(&mut case.src), case.want.as_mut()].into_iter().flatten() {
            *s = s.replace("f0: ", &format!("{field}: "));
        }
    }
    case
}
fn refused(c: &mut Ch, _: bool) -> Case {
    let shape = c.of(&[Shape::Tuple, Shape::Named]);
    let n = 1 + c.pick(3);
    let at = c.pick(n);
    let b = c.pick(BAD.len());
    let k = c.pick(3);
    let f: Vec<_> = (0..n).map(|i| (if i == at { k } else { 0 }, 0, "")).collect();
    build(shape, 0, "", 0, &f, Some((at, b)))
}

fn partial(run: &mut Run) {
    run.assume("rustc's expansion of the derive is what a user of the macro compiles against");
    let deep = run.thorough();
    let groups: [(&str, Pick); 7] = [("names", by_name), ("types and attributes", by_more), ("many fields", by_many), ("fields", by_field), ("heads", by_head), ("rows of fields", by_rows), ("refused options", refused)];
    let all: Mutex<BTreeMap<&str, BTreeSet<String>>> = Mutex::new(BTreeMap::new());
    for (name, pick) in groups {
        explore(run, &format!("{name}: generation"), |c: &mut Ch| {
            all.lock().unwrap().entry(name).or_default().insert(pick(c, deep).src);
            Ok(())
        });
    }
    let srcs: BTreeSet<String> = all.into_inner().unwrap().into_values().flatten().collect();
    let got = expand(&srcs);
    for (name, pick) in groups {
        explore(run, name, |c: &mut Ch| {
            let case = pick(c, deep);
            c.op(|| case.src.clone());
            c.state(&case.src);
            let got = got.as_ref().map_err(|e| format!("the compiler cannot read what the derive produced: {e}"))?;
            let Some(g) = got.get(&case.src) else { return Err("the struct is missing from the expansion".into()) };
            match &case.want {
                None => {
                    mc::ensure!(g.item.is_none(), "an option that does not exist is accepted: {:?}", g.item);
                    c.outcome("refused");
                }
                Some(w) => {
                    let want = facts(&syn::parse_str::<syn::ItemStruct>(w).map_err(|e| format!("specification: {e}: {w}"))?);
                    let Some(item) = &g.item else { return Err("no partial struct is generated".into()) };
                    same!(item.len(), want.len(), "number of facts of {item:?}");
                    for (a, b) in item.iter().zip(&want) {
                        same!(a, b, "partial struct");
                    }
                    same!(g.derives, case.derives, "traits of the partial struct");
                    same!(g.others.len(), 0, "other items {:?}", g.others);
                    c.outcome("generated");
                }
            }
            Ok(())
        });
    }
}

fn main() {
    mc::main(&[("C19", partial)]);
}
