pub type Result<T> = std::result::Result<T, Box<dyn std::error::Error>>;
pub fn __run(cases: &[(&str, &dyn Fn(&std::path::Path) -> Result<()>, &str, &str)]) {
    let filter = std::env::args().skip(1).find(|a| !a.starts_with('-'));
    let (mut ok, mut bad) = (0, vec![]);
    for (name, f, root, pat) in cases {
        let re = regex::Regex::new(pat).unwrap();
        let mut fs: Vec<_> = walkdir::WalkDir::new(root).into_iter().filter_map(|e| e.ok()).filter(|e| e.file_type().is_file()).map(|e| e.into_path()).filter(|p| re.is_match(p.to_str().unwrap_or(""))).collect();
        fs.sort();
        for p in fs {
            let id = format!("{name}::{}", p.display());
            if filter.as_ref().map_or(false, |s| !id.contains(s.as_str())) { continue; }
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&p))) { Ok(Ok(())) => ok += 1, _ => { println!("FAILED {id}"); bad.push(id); } }
        }
    }
    println!("test result: {} passed; {} failed", ok, bad.len());
    if !bad.is_empty() { std::process::exit(101) }
}
#[macro_export]
macro_rules! harness {
    ($({ $($k:ident = $v:expr),* $(,)? }),* $(,)?) => { fn main() { $crate::__run(&[$( $crate::__case!($($k = $v),*) ),*]) } };
    ($($f:path, $root:expr, $pat:expr),* $(,)?) => { fn main() { $crate::__run(&[$( (stringify!($f), &|p: &::std::path::Path| $f(p), &$root, &$pat) ),*]) } };
}
#[doc(hidden)] #[macro_export]
macro_rules! __case { (test = $f:expr, root = $root:expr, pattern = $pat:expr) => { (stringify!($f), &|p: &::std::path::Path| $f(p), &$root, &$pat) }; }
