//! Stand-in for minidom (witnet's fork of xmpp-rs): a small well-formedness-checking XML reader.
use std::collections::BTreeMap;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Node { Element(Element), Text(String) }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Element { name: String, attrs: BTreeMap<String, String>, nodes: Vec<Node> }
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl Element {
    pub fn name(&self) -> &str { &self.name }
    pub fn attrs(&self) -> impl Iterator<Item = (&str, &str)> { self.attrs.iter().map(|(k, v)| (k.as_str(), v.as_str())) }
    pub fn nodes(&self) -> std::slice::Iter<'_, Node> { self.nodes.iter() }
    pub fn children(&self) -> impl Iterator<Item = &Element> { self.nodes.iter().filter_map(|n| match n { Node::Element(e) => Some(e), _ => None }) }
    pub fn text(&self) -> String { self.nodes.iter().filter_map(|n| match n { Node::Text(t) => Some(t.as_str()), _ => None }).collect() }
}
fn e<T>(m: &str) -> Result<T, Error> { Err(Error(m.to_string())) }
fn unescape(s: &str) -> Result<String, Error> {
    let (mut o, mut r) = (String::new(), s);
    while let Some(i) = r.find('&') {
        o.push_str(&r[..i]);
        let Some(j) = r[i..].find(';') else { return e("unterminated entity") };
        let n = &r[i + 1..i + j];
        o.push(match n { "lt" => '<', "gt" => '>', "amp" => '&', "quot" => '"', "apos" => '\'', _ => {
            let c = if let Some(h) = n.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else if let Some(d) = n.strip_prefix('#') { d.parse().ok() } else { None };
            match c.and_then(char::from_u32) { Some(c) => c, None => return e("unknown entity") }
        } });
        r = &r[i + j + 1..];
    }
    o.push_str(r);
    Ok(o)
}
impl std::str::FromStr for Element {
    type Err = Error;
    fn from_str(s: &str) -> Result<Element, Error> {
        let mut r = s;
        let mut stack: Vec<Element> = vec![];
        let mut full: Vec<String> = vec![];
        loop {
            if r.is_empty() { return e("end of document") }
            if let Some(t) = r.strip_prefix("<?") { let Some(i) = t.find("?>") else { return e("unterminated declaration") }; r = &t[i + 2..]; continue }
            if let Some(t) = r.strip_prefix("<!--") { let Some(i) = t.find("-->") else { return e("unterminated comment") }; r = &t[i + 3..]; continue }
            if let Some(t) = r.strip_prefix("<![CDATA[") {
                let Some(i) = t.find("]]>") else { return e("unterminated cdata") };
                match stack.last_mut() { Some(p) => p.nodes.push(Node::Text(t[..i].into())), None => return e("text outside root") }
                r = &t[i + 3..];
                continue;
            }
            if let Some(t) = r.strip_prefix("<!") { let Some(i) = t.find('>') else { return e("unterminated doctype") }; r = &t[i + 1..]; continue }
            let done = if let Some(t) = r.strip_prefix("</") {
                let Some(i) = t.find('>') else { return e("unterminated tag") };
                let n = t[..i].trim();
                r = &t[i + 1..];
                match (stack.pop(), full.pop()) { (Some(el), Some(f)) if f == n => el, _ => return e("mismatched tag") }
            } else if let Some(t) = r.strip_prefix('<') {
                let mut q = None;
                let Some(i) = t.char_indices().find(|(_, c)| { match (q, *c) { (None, '"' | '\'') => q = Some(*c), (Some(x), c) if x == c => q = None, _ => () } *c == '>' && q.is_none() }).map(|x| x.0) else { return e("unterminated tag") };
                let (mut b, selfclose) = (t[..i].trim_end(), t[..i].ends_with('/'));
                if selfclose { b = &b[..b.len() - 1] }
                let ne = b.find(char::is_whitespace).unwrap_or(b.len());
                let fname = &b[..ne];
                if fname.is_empty() || !fname.chars().next().unwrap().is_alphabetic() && !fname.starts_with('_') { return e("bad name") }
                let mut el = Element { name: fname.rsplit(':').next().unwrap().into(), attrs: BTreeMap::new(), nodes: vec![] };
                let mut a = b[ne..].trim_start();
                while !a.is_empty() {
                    let Some(eq) = a.find('=') else { return e("bad attribute") };
                    let k = a[..eq].trim();
                    let v = a[eq + 1..].trim_start();
                    let Some(qc) = v.chars().next().filter(|c| *c == '"' || *c == '\'') else { return e("bad attribute") };
                    let Some(end) = v[1..].find(qc) else { return e("bad attribute") };
                    el.attrs.insert(k.into(), unescape(&v[1..1 + end])?);
                    a = v[end + 2..].trim_start();
                }
                r = &t[i + 1..];
                if selfclose { el } else { stack.push(el); full.push(fname.into()); continue }
            } else {
                let i = r.find('<').unwrap_or(r.len());
                let t = unescape(&r[..i])?;
                match stack.last_mut() { Some(p) => p.nodes.push(Node::Text(t)), None if t.trim().is_empty() => (), None => return e("text outside root") }
                r = &r[i..];
                continue;
            };
            match stack.last_mut() {
                Some(p) => p.nodes.push(Node::Element(done)),
                None => return Ok(done),
            }
        }
    }
}
