use crate::{AnchoredPath, FileId, Vfs, VfsPath};
use rustc_hash::FxBuildHasher;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
#[derive(Default, Clone, Eq, PartialEq)]
pub struct FileSet { files: HashMap<VfsPath, FileId, FxBuildHasher>, paths: BTreeMap<FileId, VfsPath> }
impl FileSet {
    pub fn len(&self) -> usize { self.files.len() }
    pub fn is_empty(&self) -> bool { self.files.is_empty() }
    pub fn resolve_path(&self, path: AnchoredPath<'_>) -> Option<FileId> { let mut base = self.paths[&path.anchor].clone(); base.pop(); let p = base.join(path.path)?; self.files.get(&p).copied() }
    pub fn file_for_path(&self, path: &VfsPath) -> Option<&FileId> { self.files.get(path) }
    pub fn path_for_file(&self, file: &FileId) -> Option<&VfsPath> { self.paths.get(file) }
    pub fn insert(&mut self, id: FileId, path: VfsPath) { self.files.insert(path.clone(), id); self.paths.insert(id, path); }
    pub fn iter(&self) -> impl Iterator<Item = FileId> + '_ { self.paths.keys().copied() }
}
impl fmt::Debug for FileSet { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("FileSet").field("n_files", &self.files.len()).finish() } }
#[derive(Debug, Clone)]
pub struct FileSetConfig { n: usize, roots: Vec<(Vec<u8>, usize)> }
impl Default for FileSetConfig { fn default() -> Self { FileSetConfig::builder().build() } }
impl FileSetConfig {
    pub fn builder() -> FileSetConfigBuilder { FileSetConfigBuilder::default() }
    pub fn partition(&self, vfs: &Vfs) -> Vec<FileSet> {
        let mut res = vec![FileSet::default(); self.n];
        for (id, path) in vfs.iter() { let root = self.classify(path); res[root].insert(id, path.clone()); }
        res
    }
    pub fn roots(&self) -> Vec<(Vec<u8>, u64)> { self.roots.iter().map(|(p, i)| (p.clone(), *i as u64)).collect() }
    fn classify(&self, path: &VfsPath) -> usize {
        let path = path.parent().unwrap_or_else(|| path.clone());
        let mut buf = vec![];
        path.encode(&mut buf);
        let mut longest = self.n - 1;
        for (p, i) in &self.roots { if buf.starts_with(p) { longest = *i; } }
        longest
    }
}
#[derive(Default)]
pub struct FileSetConfigBuilder { roots: Vec<Vec<VfsPath>> }
impl FileSetConfigBuilder {
    pub fn len(&self) -> usize { self.roots.len() }
    pub fn is_empty(&self) -> bool { self.roots.is_empty() }
    pub fn add_file_set(&mut self, roots: Vec<VfsPath>) { self.roots.push(roots) }
    pub fn build(self) -> FileSetConfig {
        let n = self.roots.len() + 1;
        let mut roots: Vec<(Vec<u8>, usize)> = self.roots.into_iter().enumerate().flat_map(|(i, ps)| ps.into_iter().map(move |p| { let mut b = vec![]; p.encode(&mut b); (b, i) })).collect();
        roots.sort();
        roots.dedup_by(|a, b| a.0 == b.0);
        FileSetConfig { n, roots }
    }
}
