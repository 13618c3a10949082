use std::borrow::Cow;
pub fn tilde<S: AsRef<str> + ?Sized>(s: &S) -> Cow<'_, str> {
    let s = s.as_ref();
    if let Some(rest) = s.strip_prefix('~') { if rest.is_empty() || rest.starts_with('/') { if let Ok(h) = std::env::var("HOME") { return Cow::Owned(format!("{h}{rest}")); } } }
    Cow::Borrowed(s)
}
