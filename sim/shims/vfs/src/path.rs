use paths::{AbsPath, AbsPathBuf, RelPath};
use std::fmt;
#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash)]
pub struct VfsPath(Repr);
#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash)]
enum Repr { Path(AbsPathBuf), Virtual(String) }
impl VfsPath {
    pub fn new_virtual_path(path: String) -> VfsPath { assert!(path.starts_with('/')); VfsPath(Repr::Virtual(path)) }
    pub fn new_real_path(path: String) -> VfsPath { VfsPath::from(AbsPathBuf::assert(path.into())) }
    pub fn as_path(&self) -> Option<&AbsPath> { match &self.0 { Repr::Path(p) => Some(p.as_path()), Repr::Virtual(_) => None } }
    pub fn into_abs_path(self) -> Option<AbsPathBuf> { match self.0 { Repr::Path(p) => Some(p), Repr::Virtual(_) => None } }
    pub fn join(&self, path: &str) -> Option<VfsPath> {
        match &self.0 {
            Repr::Path(p) => Some(VfsPath(Repr::Path(p.join(path).normalize()))),
            Repr::Virtual(p) => {
                let mut path = path;
                let mut res = p.clone();
                while path.starts_with("../") { let pos = res.rfind('/')?; res.truncate(pos); path = &path["../".len()..]; }
                path = path.trim_start_matches("./");
                Some(VfsPath(Repr::Virtual(format!("{res}/{path}"))))
            }
        }
    }
    pub fn pop(&mut self) -> bool {
        match &mut self.0 { Repr::Path(p) => p.pop(), Repr::Virtual(p) => match p.rfind('/') { Some(0) if p.len() == 1 => false, Some(0) => { p.truncate(1); true } Some(i) => { p.truncate(i); true } None => false } }
    }
    pub fn starts_with(&self, other: &VfsPath) -> bool { match (&self.0, &other.0) { (Repr::Path(a), Repr::Path(b)) => a.starts_with(b), (Repr::Virtual(a), Repr::Virtual(b)) => a.starts_with(b.as_str()), _ => false } }
    pub fn strip_prefix(&self, other: &VfsPath) -> Option<&RelPath> { match (&self.0, &other.0) { (Repr::Path(a), Repr::Path(b)) => a.strip_prefix(b), _ => None } }
    pub fn parent(&self) -> Option<VfsPath> { let mut p = self.clone(); if p.pop() { Some(p) } else { None } }
    pub fn name_and_extension(&self) -> Option<(&str, Option<&str>)> {
        match &self.0 {
            Repr::Path(p) => p.name_and_extension(),
            Repr::Virtual(p) => {
                let name = p.trim_end_matches('/').rsplit('/').next()?;
                if name.is_empty() { return None; }
                Some(match name.rfind('.') { Some(0) | None => (name, None), Some(i) => (&name[..i], Some(&name[i + 1..])) })
            }
        }
    }
    pub(crate) fn encode(&self, buf: &mut Vec<u8>) {
        match &self.0 { Repr::Path(p) => { buf.push(1); buf.extend(p.as_str().as_bytes()) } Repr::Virtual(p) => { buf.push(0); buf.extend(p.as_bytes()) } }
    }
}
impl fmt::Display for VfsPath { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match &self.0 { Repr::Path(p) => fmt::Display::fmt(p, f), Repr::Virtual(p) => f.write_str(p) } } }
impl fmt::Debug for VfsPath { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match &self.0 { Repr::Path(p) => fmt::Debug::fmt(p, f), Repr::Virtual(p) => fmt::Debug::fmt(p, f) } } }
impl From<AbsPathBuf> for VfsPath { fn from(p: AbsPathBuf) -> Self { VfsPath(Repr::Path(p.normalize())) } }
impl PartialEq<AbsPath> for VfsPath { fn eq(&self, o: &AbsPath) -> bool { self.as_path().map_or(false, |p| p.as_str() == o.as_str()) } }
impl PartialEq<VfsPath> for AbsPath { fn eq(&self, o: &VfsPath) -> bool { o == self } }
