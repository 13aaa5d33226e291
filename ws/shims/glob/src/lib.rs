//! Patterns with a star in the name of the file.
use std::path::{Path, PathBuf};

#[derive(Debug)]
pub struct PatternError;
#[derive(Debug)]
pub struct GlobError;
/// The files that match, in the order of their names.
pub fn glob(pattern: &str) -> Result<std::vec::IntoIter<Result<PathBuf, GlobError>>, PatternError> {
    let p = Path::new(pattern);
    let dir = p.parent().filter(|d| !d.as_os_str().is_empty()).unwrap_or(Path::new("."));
    let name = p.file_name().and_then(|n| n.to_str()).ok_or(PatternError)?;
    let (a, b) = name.split_once('*').unwrap_or((name, ""));
    let exact = !name.contains('*');
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    v.retain(|f| {
        let n = f.file_name().and_then(|n| n.to_str()).unwrap_or("");
        if exact { n == name } else { n.len() >= a.len() + b.len() && n.starts_with(a) && n.ends_with(b) }
    });
    v.sort();
    Ok(v.into_iter().map(Ok).collect::<Vec<_>>().into_iter())
}
