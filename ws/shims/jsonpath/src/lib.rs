//! Stand-in for jsonpath 0.1: child, index, wildcard and recursive steps.
use serde_json::Value;
#[derive(Debug, Clone)]
enum Step { Key(String), Index(usize), All, Deep }
#[derive(Debug, Clone)]
pub struct Selector(Vec<Step>);
#[derive(Debug)]
pub struct ParseError(String);
impl std::fmt::Display for ParseError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for ParseError {}
impl Selector {
    pub fn new(s: &str) -> Result<Self, ParseError> {
        let bad = || ParseError(format!("invalid JSONPath {s:?}"));
        let c: Vec<char> = s.chars().collect();
        let (mut i, mut v) = (1, vec![]);
        if c.first() != Some(&'$') { return Err(bad()) }
        while i < c.len() {
            match c[i] {
                '.' => {
                    i += 1;
                    if c.get(i) == Some(&'.') { v.push(Step::Deep); i += 1; if c.get(i) == Some(&'[') { continue } }
                    if c.get(i) == Some(&'*') { v.push(Step::All); i += 1; continue }
                    let st = i;
                    while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '-') { i += 1 }
                    if st == i { return Err(bad()) }
                    v.push(Step::Key(c[st..i].iter().collect()));
                }
                '[' => {
                    let e = (i..c.len()).find(|j| c[*j] == ']').ok_or_else(bad)?;
                    let t: String = c[i + 1..e].iter().collect();
                    i = e + 1;
                    if t == "*" { v.push(Step::All) }
                    else if let Ok(n) = t.parse() { v.push(Step::Index(n)) }
                    else if t.len() >= 2 && (t.starts_with('\'') && t.ends_with('\'') || t.starts_with('"') && t.ends_with('"')) { v.push(Step::Key(t[1..t.len() - 1].into())) }
                    else { return Err(bad()) }
                }
                _ => return Err(bad()),
            }
        }
        Ok(Selector(v))
    }
    pub fn find<'a>(&self, root: &'a Value) -> std::vec::IntoIter<&'a Value> {
        let mut cur = vec![root];
        for s in &self.0 {
            let mut next = vec![];
            for x in cur {
                match (s, x) {
                    (Step::Key(k), Value::Object(m)) => next.extend(m.get(k)),
                    (Step::Index(i), Value::Array(a)) => next.extend(a.get(*i)),
                    (Step::All, Value::Array(a)) => next.extend(a.iter()),
                    (Step::All, Value::Object(m)) => next.extend(m.values()),
                    (Step::Deep, _) => deep(x, &mut next),
                    _ => (),
                }
            }
            cur = next;
        }
        cur.into_iter()
    }
}
fn deep<'a>(x: &'a Value, o: &mut Vec<&'a Value>) {
    o.push(x);
    match x { Value::Array(a) => a.iter().for_each(|y| deep(y, o)), Value::Object(m) => m.values().for_each(|y| deep(y, o)), _ => () }
}
