//! Simulated file loader / watcher: one actor task per handle, processing configuration and
//! invalidation messages in order, like rust-analyzer's `vfs-notify`.
//!
//! Operating-system file events are produced by the simulation through [`sim::emit`].
use paths::{AbsPath, AbsPathBuf, Utf8PathBuf};
use simrt::sync::Monitor;
use std::collections::{BTreeSet, VecDeque};
use std::fs;
use std::sync::{Arc, Mutex};
use vfs::loader::{self, LoadingProgress};
use walkdir::WalkDir;

enum Msg { Config(loader::Config), Invalidate(AbsPathBuf), Event(Vec<AbsPathBuf>) }
#[derive(Default)]
struct Inbox { q: VecDeque<Msg>, closed: bool }
type SharedInbox = Arc<Monitor<Inbox>>;
static ACTORS: Mutex<Vec<std::sync::Weak<Monitor<Inbox>>>> = Mutex::new(Vec::new());

pub mod sim {
    use super::*;
    /// Delivers a file event for `paths` to every live watcher.
    pub fn emit(paths: Vec<AbsPathBuf>) {
        let actors: Vec<SharedInbox> = ACTORS.lock().unwrap().iter().filter_map(|w| w.upgrade()).collect();
        for a in actors { a.with(|i| if !i.closed { i.q.push_back(Msg::Event(paths.clone())) }); }
    }
    pub fn reset() { ACTORS.lock().unwrap().clear(); }
}

pub struct NotifyHandle { inbox: SharedInbox, thread: Option<simrt::JoinHandle<()>> }
impl std::fmt::Debug for NotifyHandle { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("NotifyHandle") } }
impl loader::Handle for NotifyHandle {
    fn spawn(sender: loader::Sender) -> NotifyHandle {
        let inbox: SharedInbox = Arc::new(Monitor::default());
        { let mut a = ACTORS.lock().unwrap(); a.retain(|w| w.strong_count() > 0); a.push(Arc::downgrade(&inbox)); }
        let actor = NotifyActor { sender, watched_files: BTreeSet::new(), watched_dirs: vec![], watching: false };
        let ib = inbox.clone();
        let thread = simrt::spawn("VfsLoader", move || actor.run(ib));
        NotifyHandle { inbox, thread: Some(thread) }
    }
    fn set_config(&mut self, config: loader::Config) { self.send(Msg::Config(config)) }
    fn invalidate(&mut self, path: AbsPathBuf) { self.send(Msg::Invalidate(path)) }
    fn load_sync(&mut self, path: &AbsPath) -> Option<Vec<u8>> { read(path) }
}
impl NotifyHandle { fn send(&self, m: Msg) { simrt::yield_point("vfs-send"); self.inbox.with(|i| i.q.push_back(m)); } }
impl Drop for NotifyHandle {
    fn drop(&mut self) {
        self.inbox.with(|i| i.closed = true);
        if let Some(t) = self.thread.take() { let _ = t.join(); }
    }
}
struct NotifyActor { sender: loader::Sender, watched_files: BTreeSet<AbsPathBuf>, watched_dirs: Vec<loader::Directories>, watching: bool }
impl NotifyActor {
    fn run(mut self, inbox: SharedInbox) {
        loop {
            let m = inbox.wait("vfs-loader-recv", None, |i| i.closed || !i.q.is_empty(), |i| i.q.pop_front()).unwrap();
            let Some(m) = m else { break };
            match m {
                Msg::Config(config) => {
                    self.watching = !config.watch.is_empty();
                    let config_version = config.version;
                    let n_total = config.load.len();
                    self.watched_files.clear();
                    self.watched_dirs.clear();
                    self.send(loader::Message::Progress { n_total, n_done: LoadingProgress::Started, config_version, dir: None });
                    let mut entries: Vec<(usize, loader::Entry)> = config.load.into_iter().enumerate().collect();
                    if simrt::in_sim() { // entries are loaded in parallel by the real loader
                        for i in (1..entries.len()).rev() { let j = (simrt::rand_u64() % (i as u64 + 1)) as usize; entries.swap(i, j); }
                    }
                    let mut done = 0;
                    for (i, entry) in entries {
                        if config.watch.contains(&i) {
                            match &entry { loader::Entry::Files(f) => self.watched_files.extend(f.iter().cloned()), loader::Entry::Directories(d) => self.watched_dirs.push(d.clone()) }
                        }
                        let mut dirs = vec![];
                        let files = load_entry(entry, &mut |d| dirs.push(d));
                        for d in dirs { self.send(loader::Message::Progress { n_total, n_done: LoadingProgress::Progress(done), dir: Some(d), config_version }); }
                        self.send(loader::Message::Loaded { files });
                        done += 1;
                        self.send(loader::Message::Progress { n_total, n_done: LoadingProgress::Progress(done), config_version, dir: None });
                    }
                    self.send(loader::Message::Progress { n_total, n_done: LoadingProgress::Finished, config_version, dir: None });
                }
                Msg::Invalidate(path) => { let contents = read(&path); self.send(loader::Message::Changed { files: vec![(path, contents)] }); }
                Msg::Event(paths) => {
                    if !self.watching { continue; }
                    let files: Vec<_> = paths.into_iter().filter_map(|path| {
                        if !(self.watched_files.contains(&path) || self.watched_dirs.iter().any(|d| d.contains_file(&path))) { return None; }
                        match fs::metadata(&path) { Ok(m) if m.is_dir() => return None, _ => {} }
                        let contents = read(&path);
                        Some((path, contents))
                    }).collect();
                    self.send(loader::Message::Changed { files });
                }
            }
        }
    }
    fn send(&self, m: loader::Message) { let _ = self.sender.send(m); }
}
fn load_entry(entry: loader::Entry, dir: &mut dyn FnMut(AbsPathBuf)) -> Vec<(AbsPathBuf, Option<Vec<u8>>)> {
    match entry {
        loader::Entry::Files(files) => files.into_iter().map(|f| { let c = read(&f); (f, c) }).collect(),
        loader::Entry::Directories(dirs) => {
            let mut res = vec![];
            for root in &dirs.include {
                dir(root.clone());
                let walk = WalkDir::new(root).follow_links(true).sort_by_file_name().into_iter().filter_entry(|e| {
                    if !e.file_type().is_dir() { return true; }
                    let p = e.path();
                    AsRef::<std::path::Path>::as_ref(root) == p || dirs.exclude.iter().chain(&dirs.include).all(|it| AsRef::<std::path::Path>::as_ref(it) != p)
                });
                let files: Vec<AbsPathBuf> = walk.filter_map(|e| e.ok()).filter_map(|e| {
                    let is_file = e.file_type().is_file();
                    let abs = AbsPathBuf::try_from(Utf8PathBuf::from_path_buf(e.into_path()).ok()?).ok()?;
                    if !is_file { return None; }
                    let ext = abs.extension().unwrap_or_default();
                    if dirs.extensions.iter().all(|it| it.as_str() != ext) { return None; }
                    Some(abs)
                }).collect();
                res.extend(files.into_iter().map(|f| { simrt::yield_point("vfs-load-file"); let c = read(&f); (f, c) }));
            }
            res
        }
    }
}
fn read(path: &AbsPath) -> Option<Vec<u8>> { fs::read(path).ok() }
