//! The string encodings of the beacon API.
pub mod as_str {
    use serde::{Deserialize, Deserializer, Serializer};
    use std::{fmt::Display, str::FromStr};
    pub fn serialize<S: Serializer, T: Display>(v: &T, s: S) -> Result<S::Ok, S::Error> { s.collect_str(v) }
    pub fn deserialize<'de, D: Deserializer<'de>, T: FromStr>(d: D) -> Result<T, D::Error>
    where
        T::Err: Display,
    {
        String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}
pub mod seq_of_str {
    use serde::{de::Deserializer, ser::SerializeSeq, Deserialize, Serializer};
    use std::{fmt::Display, str::FromStr};
    pub fn serialize<S: Serializer, T: AsRef<[U]>, U: Display>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(Some(v.as_ref().len()))?;
        for x in v.as_ref() {
            q.serialize_element(&x.to_string())?;
        }
        q.end()
    }
    pub fn deserialize<'de, D: Deserializer<'de>, T: TryFrom<Vec<U>>, U: FromStr>(d: D) -> Result<T, D::Error>
    where
        U::Err: Display,
    {
        let v: Vec<String> = Vec::deserialize(d)?;
        let v: Vec<U> = v.iter().map(|s| s.parse().map_err(serde::de::Error::custom)).collect::<Result<_, _>>()?;
        T::try_from(v).map_err(|_| serde::de::Error::custom("length"))
    }
}
