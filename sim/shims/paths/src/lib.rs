//! Thin wrappers around `camino` paths, distinguishing absolute and relative ones at type level.
use std::borrow::Borrow;
use std::ffi::OsStr;
use std::{fmt, ops};
use std::path::{Path, PathBuf};
pub use camino::{Utf8Component, Utf8Components, Utf8Path, Utf8PathBuf, Utf8Prefix};

#[derive(Debug, Clone, Ord, PartialOrd, Eq, Hash)]
pub struct AbsPathBuf(Utf8PathBuf);
#[cfg(feature = "serde1")]
impl serde::Serialize for AbsPathBuf { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) } }
#[cfg(feature = "serde1")]
impl<'de> serde::Deserialize<'de> for AbsPathBuf { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { use serde::de::Error; AbsPathBuf::try_from(Utf8PathBuf::deserialize(d)?).map_err(|p| D::Error::custom(format!("expected an absolute path, got {p}"))) } }
impl From<AbsPathBuf> for Utf8PathBuf { fn from(p: AbsPathBuf) -> Self { p.0 } }
impl From<AbsPathBuf> for PathBuf { fn from(p: AbsPathBuf) -> Self { p.0.into() } }
impl ops::Deref for AbsPathBuf { type Target = AbsPath; fn deref(&self) -> &AbsPath { self.as_path() } }
impl AsRef<Utf8Path> for AbsPathBuf { fn as_ref(&self) -> &Utf8Path { self.0.as_path() } }
impl AsRef<OsStr> for AbsPathBuf { fn as_ref(&self) -> &OsStr { self.0.as_ref() } }
impl AsRef<Path> for AbsPathBuf { fn as_ref(&self) -> &Path { self.0.as_ref() } }
impl AsRef<AbsPath> for AbsPathBuf { fn as_ref(&self) -> &AbsPath { self.as_path() } }
impl Borrow<AbsPath> for AbsPathBuf { fn borrow(&self) -> &AbsPath { self.as_path() } }
impl TryFrom<Utf8PathBuf> for AbsPathBuf { type Error = Utf8PathBuf; fn try_from(p: Utf8PathBuf) -> Result<Self, Utf8PathBuf> { if p.is_absolute() { Ok(AbsPathBuf(p)) } else { Err(p) } } }
impl TryFrom<&str> for AbsPathBuf { type Error = Utf8PathBuf; fn try_from(p: &str) -> Result<Self, Utf8PathBuf> { AbsPathBuf::try_from(Utf8PathBuf::from(p)) } }
impl<P: AsRef<Path> + ?Sized> PartialEq<P> for AbsPathBuf { fn eq(&self, o: &P) -> bool { self.0.as_std_path() == o.as_ref() } }
impl AbsPathBuf {
    pub fn assert(path: Utf8PathBuf) -> AbsPathBuf { AbsPathBuf::try_from(path).unwrap_or_else(|p| panic!("expected absolute path, got {p}")) }
    pub fn assert_utf8(path: PathBuf) -> AbsPathBuf { AbsPathBuf::assert(Utf8PathBuf::from_path_buf(path).unwrap_or_else(|p| panic!("expected utf8 path, got {}", p.display()))) }
    pub fn as_path(&self) -> &AbsPath { AbsPath::assert(self.0.as_path()) }
    pub fn pop(&mut self) -> bool { self.0.pop() }
    pub fn push<P: AsRef<Utf8Path>>(&mut self, suffix: P) { self.0.push(suffix) }
    pub fn join(&self, path: impl AsRef<Utf8Path>) -> Self { Self(self.0.join(path)) }
}
impl fmt::Display for AbsPathBuf { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }

#[derive(Debug, Ord, PartialOrd, Eq, Hash)]
#[repr(transparent)]
pub struct AbsPath(Utf8Path);
impl<P: AsRef<Path> + ?Sized> PartialEq<P> for AbsPath { fn eq(&self, o: &P) -> bool { self.0.as_std_path() == o.as_ref() } }
impl AsRef<Utf8Path> for AbsPath { fn as_ref(&self) -> &Utf8Path { &self.0 } }
impl AsRef<Path> for AbsPath { fn as_ref(&self) -> &Path { self.0.as_ref() } }
impl AsRef<OsStr> for AbsPath { fn as_ref(&self) -> &OsStr { self.0.as_ref() } }
impl ToOwned for AbsPath { type Owned = AbsPathBuf; fn to_owned(&self) -> AbsPathBuf { AbsPathBuf(self.0.to_owned()) } }
impl<'a> TryFrom<&'a Utf8Path> for &'a AbsPath { type Error = &'a Utf8Path; fn try_from(p: &'a Utf8Path) -> Result<&'a AbsPath, &'a Utf8Path> { if p.is_absolute() { Ok(AbsPath::assert(p)) } else { Err(p) } } }
impl AbsPath {
    pub fn assert(path: &Utf8Path) -> &AbsPath { assert!(path.is_absolute(), "{path} is not absolute"); unsafe { &*(path as *const Utf8Path as *const AbsPath) } }
    pub fn parent(&self) -> Option<&AbsPath> { self.0.parent().map(AbsPath::assert) }
    pub fn absolutize(&self, path: impl AsRef<Utf8Path>) -> AbsPathBuf { self.join(path).normalize() }
    pub fn join(&self, path: impl AsRef<Utf8Path>) -> AbsPathBuf { AbsPathBuf(self.0.join(path)) }
    pub fn normalize(&self) -> AbsPathBuf { AbsPathBuf(normalize_path(&self.0)) }
    pub fn to_path_buf(&self) -> AbsPathBuf { AbsPathBuf(self.0.to_path_buf()) }
    pub fn canonicalize(&self) -> ! { panic!("Please, don't use `canonicalize`, use normalize instead") }
    pub fn strip_prefix(&self, base: &AbsPath) -> Option<&RelPath> { self.0.strip_prefix(base).ok().map(RelPath::new_unchecked) }
    pub fn starts_with(&self, base: &AbsPath) -> bool { self.0.starts_with(&base.0) }
    pub fn ends_with(&self, suffix: &RelPath) -> bool { self.0.ends_with(&suffix.0) }
    pub fn name_and_extension(&self) -> Option<(&str, Option<&str>)> { Some((self.file_stem()?, self.extension())) }
    pub fn file_name(&self) -> Option<&str> { self.0.file_name() }
    pub fn extension(&self) -> Option<&str> { self.0.extension() }
    pub fn file_stem(&self) -> Option<&str> { self.0.file_stem() }
    pub fn as_os_str(&self) -> &OsStr { self.0.as_os_str() }
    pub fn as_str(&self) -> &str { self.0.as_str() }
    pub fn as_utf8_path(&self) -> &Utf8Path { &self.0 }
    #[deprecated(note = "use Display instead")]
    pub fn display(&self) -> ! { unimplemented!() }
    #[deprecated(note = "use std::fs::metadata().is_ok() instead")]
    pub fn exists(&self) -> ! { unimplemented!() }
    pub fn components(&self) -> Utf8Components<'_> { self.0.components() }
}
impl fmt::Display for AbsPath { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl<'a> From<&'a AbsPath> for &'a Utf8Path { fn from(p: &'a AbsPath) -> Self { &p.0 } }

#[derive(Debug, Clone, Ord, PartialOrd, Eq, PartialEq, Hash)]
pub struct RelPathBuf(Utf8PathBuf);
impl From<RelPathBuf> for Utf8PathBuf { fn from(p: RelPathBuf) -> Self { p.0 } }
impl ops::Deref for RelPathBuf { type Target = RelPath; fn deref(&self) -> &RelPath { self.as_path() } }
impl AsRef<Utf8Path> for RelPathBuf { fn as_ref(&self) -> &Utf8Path { self.0.as_path() } }
impl AsRef<Path> for RelPathBuf { fn as_ref(&self) -> &Path { self.0.as_ref() } }
impl TryFrom<Utf8PathBuf> for RelPathBuf { type Error = Utf8PathBuf; fn try_from(p: Utf8PathBuf) -> Result<Self, Utf8PathBuf> { if p.is_relative() { Ok(RelPathBuf(p)) } else { Err(p) } } }
impl TryFrom<&str> for RelPathBuf { type Error = Utf8PathBuf; fn try_from(p: &str) -> Result<Self, Utf8PathBuf> { RelPathBuf::try_from(Utf8PathBuf::from(p)) } }
impl RelPathBuf { pub fn as_path(&self) -> &RelPath { RelPath::new_unchecked(self.0.as_path()) } }
#[derive(Debug, Ord, PartialOrd, Eq, PartialEq, Hash)]
#[repr(transparent)]
pub struct RelPath(Utf8Path);
impl AsRef<Utf8Path> for RelPath { fn as_ref(&self) -> &Utf8Path { &self.0 } }
impl AsRef<Path> for RelPath { fn as_ref(&self) -> &Path { self.0.as_ref() } }
impl RelPath {
    pub fn new_unchecked(path: &Utf8Path) -> &RelPath { unsafe { &*(path as *const Utf8Path as *const RelPath) } }
    pub fn to_path_buf(&self) -> RelPathBuf { RelPathBuf(self.0.to_path_buf()) }
    pub fn as_utf8_path(&self) -> &Utf8Path { &self.0 }
    pub fn as_str(&self) -> &str { self.0.as_str() }
}
fn normalize_path(path: &Utf8Path) -> Utf8PathBuf {
    let mut components = path.components().peekable();
    let mut ret = if let Some(c @ Utf8Component::Prefix(..)) = components.peek().copied() { components.next(); Utf8PathBuf::from(c.as_str()) } else { Utf8PathBuf::new() };
    for c in components {
        match c {
            Utf8Component::Prefix(..) => unreachable!(),
            Utf8Component::RootDir => ret.push(c.as_str()),
            Utf8Component::CurDir => {}
            Utf8Component::ParentDir => { ret.pop(); }
            Utf8Component::Normal(c) => ret.push(c),
        }
    }
    ret
}
