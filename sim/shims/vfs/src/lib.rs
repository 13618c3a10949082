//! Virtual file system with the change-merging semantics of rust-analyzer's `vfs`.
use indexmap::map::Entry;
use indexmap::IndexMap;
use rustc_hash::{FxBuildHasher, FxHasher};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::{fmt, mem};

pub mod file_set;
pub mod loader;
mod path;
pub use path::VfsPath;
pub use paths::{AbsPath, AbsPathBuf};

#[derive(Copy, Clone, Debug, Ord, PartialOrd, Eq, PartialEq, Hash)]
pub struct FileId(u32);
impl FileId {
    const MAX: u32 = 0x7fff_ffff;
    #[inline] pub const fn from_raw(raw: u32) -> FileId { assert!(raw <= Self::MAX); FileId(raw) }
    #[inline] pub const fn index(self) -> u32 { self.0 }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct AnchoredPathBuf { pub anchor: FileId, pub path: String }
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct AnchoredPath<'a> { pub anchor: FileId, pub path: &'a str }
impl AnchoredPathBuf { pub fn as_ref(&self) -> AnchoredPath<'_> { AnchoredPath { anchor: self.anchor, path: &self.path } } }

#[derive(Copy, Clone, Debug, PartialEq, PartialOrd)]
enum FileState { Exists(u64), Deleted, Excluded }
#[derive(Debug)]
pub struct ChangedFile { pub file_id: FileId, pub change: Change }
impl ChangedFile {
    pub fn exists(&self) -> bool { !matches!(self.change, Change::Delete) }
    pub fn is_created_or_deleted(&self) -> bool { matches!(self.change, Change::Create(_, _) | Change::Delete) }
    pub fn is_created(&self) -> bool { matches!(self.change, Change::Create(_, _)) }
    pub fn is_modified(&self) -> bool { matches!(self.change, Change::Modify(_, _)) }
    pub fn kind(&self) -> ChangeKind { match self.change { Change::Create(_, _) => ChangeKind::Create, Change::Modify(_, _) => ChangeKind::Modify, Change::Delete => ChangeKind::Delete } }
}
#[derive(Eq, PartialEq, Debug, Clone)]
pub enum Change { Create(Vec<u8>, u64), Modify(Vec<u8>, u64), Delete }
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum ChangeKind { Create, Modify, Delete }
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum FileExcluded { Yes, No }

#[derive(Default)]
pub struct Vfs { ids: HashMap<VfsPath, FileId, FxBuildHasher>, paths: Vec<VfsPath>, data: Vec<FileState>, changes: IndexMap<FileId, ChangedFile, BuildHasherDefault<FxHasher>> }
fn hash_once(b: &[u8]) -> u64 { let mut h = FxHasher::default(); h.write(b); h.write_u8(0xff); h.finish() }
impl Vfs {
    pub fn file_id(&self, path: &VfsPath) -> Option<(FileId, FileExcluded)> {
        let id = *self.ids.get(path)?;
        match self.get(id) { FileState::Exists(_) => Some((id, FileExcluded::No)), FileState::Excluded => Some((id, FileExcluded::Yes)), FileState::Deleted => None }
    }
    pub fn file_path(&self, file_id: FileId) -> &VfsPath { &self.paths[file_id.0 as usize] }
    pub fn iter(&self) -> impl Iterator<Item = (FileId, &VfsPath)> + '_ {
        (0..self.data.len()).map(|it| FileId(it as u32)).filter(move |&id| matches!(self.get(id), FileState::Exists(_))).map(move |id| (id, &self.paths[id.0 as usize]))
    }
    pub fn set_file_contents(&mut self, path: VfsPath, contents: Option<Vec<u8>>) -> bool {
        let file_id = self.alloc_file_id(path);
        let change = match (self.get(file_id), contents) {
            (FileState::Deleted, None) => return false,
            (FileState::Deleted, Some(v)) => { let h = hash_once(&v); Change::Create(v, h) }
            (FileState::Exists(_), None) => Change::Delete,
            (FileState::Exists(hash), Some(v)) => { let n = hash_once(&v); if n == hash { return false; } Change::Modify(v, n) }
            (FileState::Excluded, _) => return false,
        };
        let data = &mut self.data;
        let mut set_data = |c: &Change| { data[file_id.0 as usize] = match c { Change::Create(_, h) | Change::Modify(_, h) => FileState::Exists(*h), Change::Delete => FileState::Deleted } };
        match self.changes.entry(file_id) {
            Entry::Occupied(mut o) => {
                use Change::*;
                match (&mut o.get_mut().change, change) {
                    (change, Delete) => *change = Delete,
                    (Create(prev, old_hash), Create(new, new_hash) | Modify(new, new_hash)) => { *prev = new; *old_hash = new_hash; }
                    (Modify(prev, old_hash), Modify(new, new_hash)) => { *prev = new; *old_hash = new_hash; }
                    (change @ Delete, Create(new, new_hash)) => *change = Modify(new, new_hash),
                    (change @ Delete, Modify(new, new_hash)) => *change = Create(new, new_hash),
                    (prev @ Modify(_, _), new @ Create(_, _)) => *prev = new,
                }
                set_data(&o.get().change);
            }
            Entry::Vacant(v) => set_data(&v.insert(ChangedFile { file_id, change }).change),
        };
        true
    }
    pub fn take_changes(&mut self) -> IndexMap<FileId, ChangedFile, BuildHasherDefault<FxHasher>> { mem::take(&mut self.changes) }
    pub fn exists(&self, file_id: FileId) -> bool { matches!(self.get(file_id), FileState::Exists(_)) }
    pub fn insert_excluded_file(&mut self, path: VfsPath) { let id = self.alloc_file_id(path); self.data[id.0 as usize] = FileState::Excluded; }
    fn alloc_file_id(&mut self, path: VfsPath) -> FileId {
        if let Some(id) = self.ids.get(&path) { return *id; }
        let id = FileId(self.paths.len() as u32);
        self.ids.insert(path.clone(), id);
        self.paths.push(path);
        self.data.push(FileState::Deleted);
        id
    }
    fn get(&self, id: FileId) -> FileState { self.data[id.0 as usize] }
}
impl fmt::Debug for Vfs { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("Vfs").field("n_files", &self.data.len()).finish() } }
