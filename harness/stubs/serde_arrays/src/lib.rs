//! Stand-in for `serde_arrays`: arrays as tuples.
use serde::{de, ser::SerializeTuple, Deserialize, Deserializer, Serialize, Serializer};
use std::marker::PhantomData;
pub fn serialize<S: Serializer, T: Serialize, const N: usize>(data: &[T; N], s: S) -> Result<S::Ok, S::Error> {
    let mut t = s.serialize_tuple(N)?;
    for x in data {
        t.serialize_element(x)?;
    }
    t.end()
}
pub fn deserialize<'de, D: Deserializer<'de>, T: Deserialize<'de>, const N: usize>(d: D) -> Result<[T; N], D::Error> {
    struct V<T, const N: usize>(PhantomData<T>);
    impl<'de, T: Deserialize<'de>, const N: usize> de::Visitor<'de> for V<T, N> {
        type Value = [T; N];
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "an array of {N} elements")
        }
        fn visit_seq<A: de::SeqAccess<'de>>(self, mut seq: A) -> Result<[T; N], A::Error> {
            let mut v = Vec::with_capacity(N);
            for i in 0..N {
                v.push(seq.next_element()?.ok_or_else(|| de::Error::invalid_length(i, &"more elements"))?);
            }
            v.try_into().map_err(|_| de::Error::custom("length"))
        }
    }
    d.deserialize_tuple(N, V::<T, N>(PhantomData))
}
