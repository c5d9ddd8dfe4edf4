//! Stand-in for `serde_with` (SerializeAs/DeserializeAs and the container adapters).
pub use serde_with_macros::serde_as;
use serde::{de, ser::{SerializeMap, SerializeSeq}, Deserialize, Deserializer, Serialize, Serializer};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;

pub trait SerializeAs<T: ?Sized> {
    fn serialize_as<S: Serializer>(source: &T, serializer: S) -> Result<S::Ok, S::Error>;
}
pub trait DeserializeAs<'de, T>: Sized {
    fn deserialize_as<D: Deserializer<'de>>(deserializer: D) -> Result<T, D::Error>;
}
pub struct As<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> As<T> {
    pub fn serialize<S: Serializer, I: ?Sized>(value: &I, serializer: S) -> Result<S::Ok, S::Error>
    where
        T: SerializeAs<I>,
    {
        T::serialize_as(value, serializer)
    }
    pub fn deserialize<'de, D: Deserializer<'de>, I>(deserializer: D) -> Result<I, D::Error>
    where
        T: DeserializeAs<'de, I>,
    {
        T::deserialize_as(deserializer)
    }
}
pub struct Same;
impl<T: Serialize + ?Sized> SerializeAs<T> for Same {
    fn serialize_as<S: Serializer>(s: &T, ser: S) -> Result<S::Ok, S::Error> { s.serialize(ser) }
}
impl<'de, T: Deserialize<'de>> DeserializeAs<'de, T> for Same {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> { T::deserialize(d) }
}
pub struct SerW<'a, T: ?Sized, U: ?Sized>(&'a T, PhantomData<U>);
impl<'a, T: ?Sized, U: ?Sized + SerializeAs<T>> Serialize for SerW<'a, T, U> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { U::serialize_as(self.0, s) }
}
pub struct DeW<T, U>(T, PhantomData<U>);
impl<'de, T, U: DeserializeAs<'de, T>> Deserialize<'de> for DeW<T, U> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(DeW(U::deserialize_as(d)?, PhantomData)) }
}
impl<T, U: SerializeAs<T>> SerializeAs<Option<T>> for Option<U> {
    fn serialize_as<S: Serializer>(s: &Option<T>, ser: S) -> Result<S::Ok, S::Error> {
        s.as_ref().map(|x| SerW::<T, U>(x, PhantomData)).serialize(ser)
    }
}
impl<'de, T, U: DeserializeAs<'de, T>> DeserializeAs<'de, Option<T>> for Option<U> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Option<T>, D::Error> {
        Ok(Option::<DeW<T, U>>::deserialize(d)?.map(|x| x.0))
    }
}
impl<T, U: SerializeAs<T>> SerializeAs<Vec<T>> for Vec<U> {
    fn serialize_as<S: Serializer>(s: &Vec<T>, ser: S) -> Result<S::Ok, S::Error> {
        let mut q = ser.serialize_seq(Some(s.len()))?;
        for x in s {
            q.serialize_element(&SerW::<T, U>(x, PhantomData))?;
        }
        q.end()
    }
}
impl<'de, T, U: DeserializeAs<'de, T>> DeserializeAs<'de, Vec<T>> for Vec<U> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Vec<T>, D::Error> {
        Ok(Vec::<DeW<T, U>>::deserialize(d)?.into_iter().map(|x| x.0).collect())
    }
}
impl<T: Ord, U: SerializeAs<T>> SerializeAs<BTreeSet<T>> for BTreeSet<U> {
    fn serialize_as<S: Serializer>(s: &BTreeSet<T>, ser: S) -> Result<S::Ok, S::Error> {
        let mut q = ser.serialize_seq(Some(s.len()))?;
        for x in s {
            q.serialize_element(&SerW::<T, U>(x, PhantomData))?;
        }
        q.end()
    }
}
impl<'de, T: Ord, U: DeserializeAs<'de, T>> DeserializeAs<'de, BTreeSet<T>> for BTreeSet<U> {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<BTreeSet<T>, D::Error> {
        Ok(Vec::<DeW<T, U>>::deserialize(d)?.into_iter().map(|x| x.0).collect())
    }
}
macro_rules! map {
    ($m:ident, $($b:tt)*) => {
        impl<K, V, KU: SerializeAs<K>, VU: SerializeAs<V>> SerializeAs<$m<K, V>> for $m<KU, VU> {
            fn serialize_as<S: Serializer>(s: &$m<K, V>, ser: S) -> Result<S::Ok, S::Error> {
                let mut q = ser.serialize_map(Some(s.len()))?;
                for (k, v) in s {
                    q.serialize_entry(&SerW::<K, KU>(k, PhantomData), &SerW::<V, VU>(v, PhantomData))?;
                }
                q.end()
            }
        }
        impl<'de, K: $($b)*, V, KU: DeserializeAs<'de, K>, VU: DeserializeAs<'de, V>> DeserializeAs<'de, $m<K, V>> for $m<KU, VU> {
            fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<$m<K, V>, D::Error> {
                struct Vis<K, V, KU, VU>(PhantomData<(K, V, KU, VU)>);
                impl<'de, K: $($b)*, V, KU: DeserializeAs<'de, K>, VU: DeserializeAs<'de, V>> de::Visitor<'de> for Vis<K, V, KU, VU> {
                    type Value = $m<K, V>;
                    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "a map") }
                    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                        let mut m = $m::new();
                        while let Some((k, v)) = a.next_entry::<DeW<K, KU>, DeW<V, VU>>()? {
                            m.insert(k.0, v.0);
                        }
                        Ok(m)
                    }
                }
                d.deserialize_map(Vis::<K, V, KU, VU>(PhantomData))
            }
        }
    };
}
map!(BTreeMap, Ord);
map!(HashMap, Eq + std::hash::Hash);

/// Bytes adapter.
pub struct Bytes;
impl<T: ?Sized + AsRef<[u8]>> SerializeAs<T> for Bytes {
    fn serialize_as<S: Serializer>(s: &T, ser: S) -> Result<S::Ok, S::Error> { ser.serialize_bytes(s.as_ref()) }
}
impl<'de> DeserializeAs<'de, &'de [u8]> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<&'de [u8], D::Error> {
        <&'de [u8]>::deserialize(d)
    }
}
impl<'de> DeserializeAs<'de, Vec<u8>> for Bytes {
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "bytes") }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> { Ok(v.to_vec()) }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Vec<u8>, E> { Ok(v) }
        }
        d.deserialize_byte_buf(V)
    }
}
/// Display / FromStr adapter.
pub struct DisplayFromStr;
impl<T: std::fmt::Display> SerializeAs<T> for DisplayFromStr {
    fn serialize_as<S: Serializer>(s: &T, ser: S) -> Result<S::Ok, S::Error> { ser.collect_str(s) }
}
impl<'de, T: std::str::FromStr> DeserializeAs<'de, T> for DisplayFromStr
where
    T::Err: std::fmt::Display,
{
    fn deserialize_as<D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map_err(de::Error::custom)
    }
}
