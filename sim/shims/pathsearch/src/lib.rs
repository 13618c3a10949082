use std::ffi::OsStr; use std::path::PathBuf;
pub fn find_executable_in_path<S: AsRef<OsStr> + ?Sized>(name: &S) -> Option<PathBuf> { std::env::split_paths(&std::env::var_os("PATH")?).map(|d| d.join(name.as_ref())).find(|p| p.is_file()) }
