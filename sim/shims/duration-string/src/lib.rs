use std::time::Duration;
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Clone, PartialEq, Eq)] pub enum Error { Format, Overflow, ParseInt }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for Error {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)] pub struct DurationString(Duration);
impl DurationString {
    pub fn from_string(s: String) -> Result<Self> {
        let i = s.find(|c: char| !c.is_ascii_digit()).ok_or(Error::Format)?;
        let n: u64 = s[..i].parse().map_err(|_| Error::ParseInt)?;
        Ok(DurationString(match &s[i..] { "ns" => Duration::from_nanos(n), "us" => Duration::from_micros(n), "ms" => Duration::from_millis(n), "s" => Duration::from_secs(n), "m" => Duration::from_secs(n * 60), "h" => Duration::from_secs(n * 3600), "d" => Duration::from_secs(n * 86400), _ => return Err(Error::Format) }))
    }
}
impl From<DurationString> for Duration { fn from(d: DurationString) -> Duration { d.0 } }
