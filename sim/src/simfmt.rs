//! A small length-prefixed binary format (in the manner of bincode), and a peer that streams elements.
use serde::de::value::SeqDeserializer;
use serde::de::{self, DeserializeSeed, Deserializer, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, SerializeSeq, SerializeTuple, Serializer};
use serde::forward_to_deserialize_any;
use std::fmt;
use std::io::{Read, Write};

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
fn io(e: std::io::Error) -> Error {
    Error(e.to_string())
}

pub struct Enc<W: Write>(pub W);

pub struct EncSeq<'a, W: Write> {
    e: &'a mut Enc<W>,
    announced: Option<usize>,
    n: usize,
}

impl<'a, W: Write> Serializer for &'a mut Enc<W> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = EncSeq<'a, W>;
    type SerializeTuple = EncSeq<'a, W>;
    type SerializeTupleStruct = Impossible<(), Error>;
    type SerializeTupleVariant = Impossible<(), Error>;
    type SerializeMap = Impossible<(), Error>;
    type SerializeStruct = Impossible<(), Error>;
    type SerializeStructVariant = Impossible<(), Error>;

    fn serialize_u32(self, v: u32) -> Result<(), Error> {
        self.0.write_all(&v.to_le_bytes()).map_err(io)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<EncSeq<'a, W>, Error> {
        let n = len.map(|x| x as u64).unwrap_or(u64::MAX);
        self.0.write_all(&n.to_le_bytes()).map_err(io)?;
        Ok(EncSeq { e: self, announced: len, n: 0 })
    }
    fn serialize_tuple(self, len: usize) -> Result<EncSeq<'a, W>, Error> {
        Ok(EncSeq { e: self, announced: Some(len), n: 0 })
    }
    fn serialize_bool(self, _: bool) -> Result<(), Error> {
        no()
    }
    fn serialize_i8(self, _: i8) -> Result<(), Error> {
        no()
    }
    fn serialize_i16(self, _: i16) -> Result<(), Error> {
        no()
    }
    fn serialize_i32(self, _: i32) -> Result<(), Error> {
        no()
    }
    fn serialize_i64(self, _: i64) -> Result<(), Error> {
        no()
    }
    fn serialize_u8(self, _: u8) -> Result<(), Error> {
        no()
    }
    fn serialize_u16(self, _: u16) -> Result<(), Error> {
        no()
    }
    fn serialize_u64(self, _: u64) -> Result<(), Error> {
        no()
    }
    fn serialize_f32(self, _: f32) -> Result<(), Error> {
        no()
    }
    fn serialize_f64(self, _: f64) -> Result<(), Error> {
        no()
    }
    fn serialize_char(self, _: char) -> Result<(), Error> {
        no()
    }
    fn serialize_str(self, _: &str) -> Result<(), Error> {
        no()
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), Error> {
        no()
    }
    fn serialize_none(self) -> Result<(), Error> {
        no()
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Error> {
        no()
    }
    fn serialize_unit(self) -> Result<(), Error> {
        no()
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> {
        no()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Error> {
        no()
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Error> {
        no()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> {
        no()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> {
        no()
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> {
        no()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
        no()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> {
        no()
    }
}
fn no<T>() -> Result<T, Error> {
    Err(Error("not part of this format".into()))
}

impl<W: Write> SerializeSeq for EncSeq<'_, W> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.n += 1;
        self.e.0.write_all(&[1]).map_err(io)?;
        v.serialize(&mut *self.e)
    }
    fn end(self) -> Result<(), Error> {
        if self.announced.is_some_and(|a| a != self.n) {
            return Err(Error(format!("{:?} elements announced, but {} written", self.announced, self.n)));
        }
        self.e.0.write_all(&[0]).map_err(io)
    }
}
impl<W: Write> SerializeTuple for EncSeq<'_, W> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.n += 1;
        v.serialize(&mut *self.e)
    }
    fn end(self) -> Result<(), Error> {
        if self.announced != Some(self.n) {
            return Err(Error("wrong tuple".into()));
        }
        Ok(())
    }
}

pub struct Dec<D: Read>(pub D);
impl<D: Read> Dec<D> {
    fn take<const N: usize>(&mut self) -> Result<[u8; N], Error> {
        let mut b = [0; N];
        self.0.read_exact(&mut b).map_err(io)?;
        Ok(b)
    }
}
struct DecSeq<'a, D: Read> {
    d: &'a mut Dec<D>,
    announced: u64,
    n: u64,
    done: bool,
}
impl<'de, D: Read> SeqAccess<'de> for DecSeq<'_, D> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.done {
            return Ok(None);
        }
        match self.d.take::<1>()?[0] {
            1 => {
                self.n += 1;
                seed.deserialize(&mut *self.d).map(Some)
            }
            0 => {
                self.done = true;
                if self.announced != u64::MAX && self.announced != self.n {
                    return Err(Error("the announced length is wrong".into()));
                }
                Ok(None)
            }
            _ => Err(Error("bad marker".into())),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        if self.announced == u64::MAX {
            None
        } else {
            Some(self.announced.saturating_sub(self.n) as usize)
        }
    }
}
struct DecTuple<'a, D: Read>(&'a mut Dec<D>, usize);
impl<'de, D: Read> SeqAccess<'de> for DecTuple<'_, D> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        seed.deserialize(&mut *self.0).map(Some)
    }
}
impl<'de, D: Read> Deserializer<'de> for &mut Dec<D> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
        no()
    }
    fn deserialize_u32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let b = self.take::<4>()?;
        v.visit_u32(u32::from_le_bytes(b))
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let announced = u64::from_le_bytes(self.take::<8>()?);
        let mut s = DecSeq { d: self, announced, n: 0, done: false };
        let x = v.visit_seq(&mut s)?;
        if !s.done && s.d.take::<1>()?[0] != 0 {
            return Err(Error("elements are left".into()));
        }
        Ok(x)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(DecTuple(self, n))
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct tuple_struct map struct enum identifier ignored_any
    }
}

/// Streams elements like a remote peer would: with any announcement and an error at any point
pub struct Peer<'a> {
    pub items: &'a [(u32, u32)],
    pub hint: Option<usize>,
    /// Fails instead of delivering this element; if the number is odd, in the middle of it
    pub err_at: Option<u32>,
    pub delivered: &'a std::cell::Cell<usize>,
    pub failed: &'a std::cell::Cell<bool>,
}
struct PeerSeq<'a>(Peer<'a>, usize);
impl<'de> SeqAccess<'de> for PeerSeq<'_> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        let i = self.1;
        if self.0.err_at == Some(i as u32) {
            self.0.failed.set(true);
            if i % 2 == 1 && i < self.0.items.len() {
                let one = [self.0.items[i].0];
                let d: SeqDeserializer<_, Error> = SeqDeserializer::new(one.into_iter());
                return seed.deserialize(d).map(Some);
            }
            return Err(Error("the connection broke".into()));
        }
        let Some((l, r)) = self.0.items.get(i) else { return Ok(None) };
        self.1 += 1;
        let d: SeqDeserializer<_, Error> = SeqDeserializer::new([*l, *r].into_iter());
        let x = seed.deserialize(d)?;
        self.0.delivered.set(self.1);
        Ok(Some(x))
    }
    fn size_hint(&self) -> Option<usize> {
        self.0.hint
    }
}
impl<'de> Deserializer<'de> for Peer<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_seq(PeerSeq(self, 0))
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
