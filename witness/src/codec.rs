//! Client programs for the codec analysis.  Never executed: the analyser reads
//! their MIR and resolves the trait calls on the codec's own types to the
//! functions found in the dump of the codec crate.
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::*;

/// a value that encodes as one 32-bit word
pub struct Word(pub u32);
impl Serialize for Word {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.0)
    }
}

pub fn seq<S: Serializer>(s: S, v: &[u32]) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_seq(Some(v.len()))?;
    for x in v {
        c.serialize_element(&Word(*x))?;
    }
    c.end()
}
pub fn tuple<S: Serializer>(s: S, v: &[u32]) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_tuple(v.len())?;
    for x in v {
        c.serialize_element(&Word(*x))?;
    }
    c.end()
}
pub fn tuple_struct<S: Serializer>(s: S, v: &[u32]) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_tuple_struct("n", v.len())?;
    for x in v {
        c.serialize_field(&Word(*x))?;
    }
    c.end()
}
pub fn tuple_variant<S: Serializer>(s: S, v: &[u32], i: u32) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_tuple_variant("n", i, "v", v.len())?;
    for x in v {
        c.serialize_field(&Word(*x))?;
    }
    c.end()
}
pub fn map<S: Serializer>(s: S, v: &[u32]) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_map(Some(v.len()))?;
    for x in v {
        c.serialize_key(&Word(*x))?;
        c.serialize_value(&Word(7))?;
    }
    c.end()
}
pub fn map_entries<S: Serializer>(s: S, v: &[u32]) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_map(Some(v.len()))?;
    for x in v {
        c.serialize_entry(&Word(*x), &Word(7))?;
    }
    c.end()
}
pub fn structure<S: Serializer>(s: S, v: &[u32]) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_struct("n", v.len())?;
    for x in v {
        c.serialize_field("f", &Word(*x))?;
    }
    c.end()
}
pub fn struct_variant<S: Serializer>(s: S, v: &[u32], i: u32) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_struct_variant("n", i, "v", v.len())?;
    for x in v {
        c.serialize_field("f", &Word(*x))?;
    }
    c.end()
}

/// one element whose own encoding is unknown: it must get the serializer as the
/// previous writes left it, and its error must come out
pub fn seq1<S: Serializer, T: Serialize>(s: S, x: &T) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_seq(Some(1))?;
    c.serialize_element(x)?;
    c.end()
}
pub fn tuple1<S: Serializer, T: Serialize>(s: S, x: &T) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_tuple(1)?;
    c.serialize_element(x)?;
    c.end()
}
pub fn tuple_struct1<S: Serializer, T: Serialize>(s: S, x: &T) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_tuple_struct("n", 1)?;
    c.serialize_field(x)?;
    c.end()
}
pub fn tuple_variant1<S: Serializer, T: Serialize>(s: S, x: &T, i: u32) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_tuple_variant("n", i, "v", 1)?;
    c.serialize_field(x)?;
    c.end()
}
pub fn map_key1<S: Serializer, T: Serialize>(s: S, x: &T) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_map(Some(1))?;
    c.serialize_key(x)?;
    c.serialize_value(&Word(7))?;
    c.end()
}
pub fn map_value1<S: Serializer, T: Serialize>(s: S, x: &T) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_map(Some(1))?;
    c.serialize_key(&Word(7))?;
    c.serialize_value(x)?;
    c.end()
}
pub fn structure1<S: Serializer, T: Serialize>(s: S, x: &T) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_struct("n", 1)?;
    c.serialize_field("f", x)?;
    c.end()
}
pub fn struct_variant1<S: Serializer, T: Serialize>(s: S, x: &T, i: u32) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_struct_variant("n", i, "v", 1)?;
    c.serialize_field("f", x)?;
    c.end()
}

// provided methods, which a serializer may override
pub fn map_ekey1<S: Serializer, T: Serialize>(s: S, x: &T) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_map(Some(1))?;
    c.serialize_entry(x, &Word(7))?;
    c.end()
}
pub fn map_evalue1<S: Serializer, T: Serialize>(s: S, x: &T) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_map(Some(1))?;
    c.serialize_entry(&Word(7), x)?;
    c.end()
}
pub fn structure_skip1<S: Serializer, T: Serialize>(s: S, x: &T) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_struct("n", 1)?;
    c.skip_field("g")?;
    c.serialize_field("f", x)?;
    c.end()
}
pub fn struct_variant_skip1<S: Serializer, T: Serialize>(s: S, x: &T, i: u32) -> Result<S::Ok, S::Error> {
    let mut c = s.serialize_struct_variant("n", i, "v", 1)?;
    c.skip_field("g")?;
    c.serialize_field("f", x)?;
    c.end()
}
pub fn collected_seq<S: Serializer>(s: S, v: &[u32]) -> Result<S::Ok, S::Error> {
    s.collect_seq(v.iter().map(|x| Word(*x)))
}
pub fn collected_map<S: Serializer>(s: S, v: &[u32]) -> Result<S::Ok, S::Error> {
    s.collect_map(v.iter().map(|x| (Word(*x), Word(7))))
}
/// an iterator that does not know its length
pub fn collected_some<S: Serializer>(s: S, v: &[u32]) -> Result<S::Ok, S::Error> {
    s.collect_seq(v.iter().filter(|x| **x != 0).map(|x| Word(*x)))
}
pub fn collected_str<S: Serializer>(s: S, v: &str) -> Result<S::Ok, S::Error> {
    s.collect_str(v)
}

// ------------------------------------------------------------------ decoding

pub struct WordV;
impl<'de> Visitor<'de> for WordV {
    type Value = u32;
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn visit_u32<E: de::Error>(self, v: u32) -> Result<u32, E> { Ok(v) }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<u32, E> {
        if v > u32::MAX as u64 { Err(E::custom("range")) } else { Ok(v as u32) }
    }
}
/// serde's own visitors of the primitive types
macro_rules! prim {
    ($n:ident, $t:ty, $m:ident) => {
        #[allow(non_camel_case_types)]
        pub struct $n;
        impl<'de> Visitor<'de> for $n {
            type Value = $t;
            fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
            fn $m<E: de::Error>(self, v: $t) -> Result<$t, E> { Ok(v) }
        }
    };
}
prim!(Prim_bool, bool, visit_bool);
prim!(Prim_i8, i8, visit_i8);
prim!(Prim_i16, i16, visit_i16);
prim!(Prim_i32, i32, visit_i32);
prim!(Prim_i64, i64, visit_i64);
prim!(Prim_u8, u8, visit_u8);
prim!(Prim_u16, u16, visit_u16);
prim!(Prim_u32, u32, visit_u32);
prim!(Prim_u64, u64, visit_u64);
prim!(Prim_f32, f32, visit_f32);
prim!(Prim_f64, f64, visit_f64);
prim!(Prim_char, char, visit_char);
pub struct WordS;
impl<'de> DeserializeSeed<'de> for WordS {
    type Value = u32;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<u32, D::Error> {
        d.deserialize_u32(WordV)
    }
}

/// reads every element of a sequence as a 32-bit word
pub struct DrainV;
impl<'de> Visitor<'de> for DrainV {
    type Value = Vec<u32>;
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u32>, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element_seed(WordS)? {
            v.push(x);
        }
        Ok(v)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vec<u32>, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_key_seed(WordS)? {
            let y = a.next_value_seed(WordS)?;
            v.push(x);
            v.push(y);
        }
        Ok(v)
    }
}
/// reads the entries of a map through next_entry_seed
pub struct EntryV;
impl<'de> Visitor<'de> for EntryV {
    type Value = Vec<u32>;
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vec<u32>, A::Error> {
        let mut v = Vec::new();
        while let Some((x, y)) = a.next_entry_seed(WordS, WordS)? {
            v.push(x);
            v.push(y);
        }
        Ok(v)
    }
}
/// asks for one element with an unknown seed, and one more after it
pub struct OneV<T>(pub T);
impl<'de, T: DeserializeSeed<'de>> Visitor<'de> for OneV<T> {
    type Value = (Option<usize>, Option<T::Value>);
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let n = a.size_hint();
        let x = a.next_element_seed(self.0)?;
        Ok((n, x))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let n = a.size_hint();
        let x = a.next_key_seed(self.0)?;
        Ok((n, x))
    }
}
pub struct ValueV<T>(pub T);
impl<'de, T: DeserializeSeed<'de>> Visitor<'de> for ValueV<T> {
    type Value = T::Value;
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<T::Value, A::Error> {
        a.next_value_seed(self.0)
    }
}

/// the variant index only
pub struct TagV<T>(pub T);
impl<'de, T: DeserializeSeed<'de>> Visitor<'de> for TagV<T> {
    type Value = T::Value;
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<T::Value, A::Error> {
        let (t, v) = a.variant_seed(self.0)?;
        v.unit_variant()?;
        Ok(t)
    }
}
pub struct TagS;
impl<'de> DeserializeSeed<'de> for TagS {
    type Value = u64;
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<u64, D::Error> {
        d.deserialize_identifier(TagIdV)
    }
}
pub struct TagIdV;
impl<'de> Visitor<'de> for TagIdV {
    type Value = u64;
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn visit_u8<E: de::Error>(self, v: u8) -> Result<u64, E> { Ok(v as u64) }
    fn visit_u16<E: de::Error>(self, v: u16) -> Result<u64, E> { Ok(v as u64) }
    fn visit_u32<E: de::Error>(self, v: u32) -> Result<u64, E> { Ok(v as u64) }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<u64, E> { Ok(v) }
}
pub struct UnitVariantV;
impl<'de> Visitor<'de> for UnitVariantV {
    type Value = u64;
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<u64, A::Error> {
        let (t, v) = a.variant_seed(TagS)?;
        v.unit_variant()?;
        Ok(t)
    }
}
pub struct NewtypeVariantV;
impl<'de> Visitor<'de> for NewtypeVariantV {
    type Value = (u64, u32);
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(u64, u32), A::Error> {
        let (t, v) = a.variant_seed(TagS)?;
        let x = v.newtype_variant_seed(WordS)?;
        Ok((t, x))
    }
}
pub struct TupleVariantV(pub usize);
impl<'de> Visitor<'de> for TupleVariantV {
    type Value = (u64, Vec<u32>);
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(u64, Vec<u32>), A::Error> {
        let (t, v) = a.variant_seed(TagS)?;
        let x = v.tuple_variant(self.0, DrainV)?;
        Ok((t, x))
    }
}
pub struct StructVariantV(pub &'static [&'static str]);
impl<'de> Visitor<'de> for StructVariantV {
    type Value = (u64, Vec<u32>);
    fn expecting(&self, _f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(u64, Vec<u32>), A::Error> {
        let (t, v) = a.variant_seed(TagS)?;
        let x = v.struct_variant(self.0, DrainV)?;
        Ok((t, x))
    }
}
