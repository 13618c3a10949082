use std::ffi::OsStr; use std::path::PathBuf;
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum Error { CannotFindBinaryPath, CannotGetCurrentDirAndPathListEmpty, CannotCanonicalize }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("cannot find binary path") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub fn which<T: AsRef<OsStr>>(name: T) -> Result<PathBuf> { let p = std::env::var_os("PATH").ok_or(Error::CannotFindBinaryPath)?; std::env::split_paths(&p).map(|d| d.join(name.as_ref())).find(|p| p.is_file()).ok_or(Error::CannotFindBinaryPath) }
