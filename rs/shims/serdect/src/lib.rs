//! Stand-in for serdect 0.1 (hex for human readable formats, byte strings for binary ones).
pub use serde;
use serde::{de, Deserialize, Deserializer, Serializer};
fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{:02X}", b)).collect()
}
fn unhex<E: de::Error>(s: &str) -> Result<Vec<u8>, E> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return Err(E::custom("invalid hex"));
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|_| E::custom("invalid hex")))
        .collect()
}
pub mod slice {
    use super::*;
    pub fn serialize_hex_upper_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            s.serialize_str(&hex(v.as_ref()))
        } else {
            s.serialize_bytes(v.as_ref())
        }
    }
    pub fn deserialize_hex_or_bin_vec<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        if d.is_human_readable() {
            unhex(&String::deserialize(d)?)
        } else {
            struct V;
            impl<'de> de::Visitor<'de> for V {
                type Value = Vec<u8>;
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    write!(f, "bytes")
                }
                fn visit_bytes<E>(self, v: &[u8]) -> Result<Vec<u8>, E> {
                    Ok(v.to_vec())
                }
                fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Vec<u8>, E> {
                    Ok(v)
                }
            }
            d.deserialize_byte_buf(V)
        }
    }
}
pub mod array {
    use super::*;
    pub fn serialize_hex_upper_or_bin<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        slice::serialize_hex_upper_or_bin(v, s)
    }
    pub fn deserialize_hex_or_bin<'de, D: Deserializer<'de>>(buf: &mut [u8], d: D) -> Result<(), D::Error> {
        let v = slice::deserialize_hex_or_bin_vec(d)?;
        if v.len() != buf.len() {
            return Err(de::Error::custom("wrong length"));
        }
        buf.copy_from_slice(&v);
        Ok(())
    }
}
