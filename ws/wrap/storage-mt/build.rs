use proc_macro2::Span;
use quote::{ToTokens, quote};
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::{Ident, Item, UseTree};

/// `std::sync::X` and `std::thread::X` become `shuttle::sync::X` and `shuttle::thread::X`.
struct Redirect;
impl VisitMut for Redirect {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        let s: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
        if s.len() >= 2 && s[0] == "std" && (s[1] == "sync" || s[1] == "thread") {
            p.segments[0].ident = Ident::new("shuttle", Span::call_site());
        }
        visit_mut::visit_path_mut(self, p);
    }
}
fn flatten(t: &UseTree, pre: &[String], out: &mut Vec<(Vec<String>, Option<String>)>) {
    let add = |x: String| {
        let mut v = pre.to_vec();
        v.push(x);
        v
    };
    match t {
        UseTree::Path(p) => flatten(&p.tree, &add(p.ident.to_string()), out),
        UseTree::Name(n) if n.ident == "self" => out.push((pre.to_vec(), None)),
        UseTree::Name(n) => out.push((add(n.ident.to_string()), None)),
        UseTree::Rename(n) if n.ident == "self" => out.push((pre.to_vec(), Some(n.rename.to_string()))),
        UseTree::Rename(n) => out.push((add(n.ident.to_string()), Some(n.rename.to_string()))),
        UseTree::Glob(_) => out.push((add("*".into()), None)),
        UseTree::Group(g) => g.items.iter().for_each(|i| flatten(i, pre, out)),
    }
}
fn uses(u: &syn::ItemUse) -> Vec<Item> {
    let mut l = vec![];
    flatten(&u.tree, &[], &mut l);
    l.into_iter()
        .map(|(mut p, r)| {
            if p.len() >= 2 && p[0] == "std" && (p[1] == "sync" || p[1] == "thread") {
                p[0] = "shuttle".into();
            }
            let vis = u.vis.to_token_stream().to_string();
            let attrs: String = u.attrs.iter().map(|a| a.to_token_stream().to_string()).collect();
            let lead = if u.leading_colon.is_some() { "::" } else { "" };
            let s = format!("{attrs} {vis} use {lead}{}{};", p.join("::"), r.map(|r| format!(" as {r}")).unwrap_or_default());
            syn::parse_str(&s).unwrap()
        })
        .collect()
}
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}
fn items(list: Vec<Item>, dir: &Path) -> Vec<Item> {
    let mut out = vec![];
    for i in list {
        match i {
            Item::Use(u) => out.extend(uses(&u)),
            Item::Mod(m) if is_test(&m.attrs) => {}
            Item::Mod(mut m) => {
                let name = m.ident.to_string();
                let sub = dir.join(&name);
                let l = match m.content.take() {
                    Some((_, l)) => l,
                    None => {
                        let a = dir.join(format!("{name}.rs"));
                        let b = sub.join("mod.rs");
                        load(if a.exists() { a } else { b })
                    }
                };
                m.content = Some((Default::default(), items(l, &sub)));
                m.semi = None;
                out.push(Item::Mod(m));
            }
            mut i => {
                Redirect.visit_item_mut(&mut i);
                out.push(i);
            }
        }
    }
    out
}
fn load(p: PathBuf) -> Vec<Item> {
    println!("cargo:rerun-if-changed={}", p.display());
    let s = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {e}", p.display()));
    syn::parse_file(&s).unwrap().items
}
fn main() {
    let dir = PathBuf::from("/repo/storage/src");
    println!("cargo:rerun-if-changed={}", dir.display());
    let l = items(load(dir.join("lib.rs")), &dir);
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("all.rs");
    std::fs::write(out, quote!(#(#l)*).to_string()).unwrap();
}
