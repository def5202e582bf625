//! A serializer that records the leaves it is given, and the number of elements announced.
use serde::ser::*;
use std::fmt;

#[derive(Debug)]
pub struct Er;
impl fmt::Display for Er {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Er {}
impl Error for Er {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Er
    }
}
impl serde::de::Error for Er {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Er
    }
}

#[derive(Default)]
pub struct Tok {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
    pub announced: Option<usize>,
}
type R = Result<(), Er>;
impl<'a> Serializer for &'a mut Tok {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    fn serialize_bool(self, v: bool) -> R {
        self.ints.push(v as u64);
        Ok(())
    }
    fn serialize_i8(self, _: i8) -> R {
        Err(Er)
    }
    fn serialize_i16(self, _: i16) -> R {
        Err(Er)
    }
    fn serialize_i32(self, _: i32) -> R {
        Err(Er)
    }
    fn serialize_i64(self, _: i64) -> R {
        Err(Er)
    }
    fn serialize_u8(self, v: u8) -> R {
        self.ints.push(v as u64);
        Ok(())
    }
    fn serialize_u16(self, v: u16) -> R {
        self.ints.push(v as u64);
        Ok(())
    }
    fn serialize_u32(self, v: u32) -> R {
        self.ints.push(v as u64);
        Ok(())
    }
    fn serialize_u64(self, v: u64) -> R {
        self.ints.push(v);
        Ok(())
    }
    fn serialize_f32(self, _: f32) -> R {
        Err(Er)
    }
    fn serialize_f64(self, _: f64) -> R {
        Err(Er)
    }
    fn serialize_char(self, _: char) -> R {
        Err(Er)
    }
    fn serialize_str(self, v: &str) -> R {
        self.strs.push(v.to_owned());
        Ok(())
    }
    fn serialize_bytes(self, _: &[u8]) -> R {
        Err(Er)
    }
    fn serialize_none(self) -> R {
        Err(Er)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        Err(Er)
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        Err(Er)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R {
        Err(Er)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Er> {
        self.announced = n;
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, Er> {
        self.announced = Some(n);
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Er> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, Er> {
        Err(Er)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, Er> {
        Err(Er)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Er> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, Er> {
        Err(Er)
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, _: &T) -> R {
        Err(Er)
    }
}
macro_rules! comp {
    ($t:ident, $f:ident) => {
        impl<'a> $t for &'a mut Tok {
            type Ok = ();
            type Error = Er;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> R {
                v.serialize(&mut **self)
            }
            fn end(self) -> R {
                Ok(())
            }
        }
    };
}
comp!(SerializeSeq, serialize_element);
comp!(SerializeTuple, serialize_element);
comp!(SerializeTupleStruct, serialize_field);
comp!(SerializeTupleVariant, serialize_field);
impl<'a> SerializeMap for &'a mut Tok {
    type Ok = ();
    type Error = Er;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, _: &T) -> R {
        Err(Er)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn end(self) -> R {
        Ok(())
    }
}
impl<'a> SerializeStruct for &'a mut Tok {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn end(self) -> R {
        Ok(())
    }
}
impl<'a> SerializeStructVariant for &'a mut Tok {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn end(self) -> R {
        Ok(())
    }
}
