//! Stand-in for `serde_yaml`: flat `KEY: scalar` documents (what a chain config is).
use serde::de::{value::MapDeserializer, DeserializeOwned};
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Error {}
impl serde::de::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self { Error(m.to_string()) }
}
pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T, Error> {
    let mut v: Vec<(String, String)> = Vec::new();
    for line in s.lines() {
        let line = match line.find('#') {
            Some(i) if i == 0 || line[..i].ends_with(char::is_whitespace) => &line[..i],
            _ => line,
        };
        let line = line.trim_end();
        if line.trim().is_empty() || line == "---" {
            continue;
        }
        let Some((k, val)) = line.split_once(':') else {
            return Err(Error(format!("cannot parse line {line:?}")));
        };
        let val = val.trim();
        let val = val
            .strip_prefix('\'').and_then(|x| x.strip_suffix('\''))
            .or_else(|| val.strip_prefix('"').and_then(|x| x.strip_suffix('"')))
            .unwrap_or(val);
        if v.iter().any(|(x, _)| x == k.trim()) {
            return Err(Error(format!("duplicate entry with key {k:?}")));
        }
        v.push((k.trim().to_string(), val.to_string()));
    }
    T::deserialize(MapDeserializer::new(v.into_iter()))
}
pub fn from_slice<T: DeserializeOwned>(b: &[u8]) -> Result<T, Error> {
    from_str(std::str::from_utf8(b).map_err(|e| Error(e.to_string()))?)
}
