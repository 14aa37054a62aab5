//! Stand-in: values are written in their Debug form; reading back is not supported.
#[derive(Debug)]
pub struct SerializeError;
#[derive(Debug)]
pub struct DeserializeError;
pub fn to_vec<T: std::fmt::Debug + ?Sized>(v: &T) -> Result<Vec<u8>, SerializeError> {
    Ok(format!("{v:?}").into_bytes())
}
pub fn from_slice<T>(_: &[u8]) -> Result<T, DeserializeError> {
    Err(DeserializeError)
}
