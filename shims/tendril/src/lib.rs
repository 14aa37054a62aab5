//! Stand-in for tendril: a shared string and a range of it.
#[derive(Clone)]
pub struct StrTendril { buf: std::sync::Arc<str>, from: usize, to: usize }
impl StrTendril {
    pub fn new() -> Self { Self::from("") }
    pub fn push_tendril(&mut self, o: &StrTendril) { self.push_slice(o) }
    pub fn push_slice(&mut self, s: &str) { *self = Self::from(format!("{}{}", &**self, s)) }
    pub fn as_bytes(&self) -> &[u8] { (**self).as_bytes() }
    /// shares the buffer
    pub fn subtendril(&self, offset: u32, length: u32) -> StrTendril {
        let from = self.from + offset as usize;
        let to = from + length as usize;
        assert!(to <= self.to && self.buf.is_char_boundary(from) && self.buf.is_char_boundary(to));
        StrTendril { buf: self.buf.clone(), from, to }
    }
}
impl Default for StrTendril { fn default() -> Self { Self::new() } }
impl PartialEq for StrTendril { fn eq(&self, o: &Self) -> bool { **self == **o } }
impl Eq for StrTendril {}
impl std::hash::Hash for StrTendril { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (**self).hash(h) } }
impl std::ops::Deref for StrTendril { type Target = str; fn deref(&self) -> &str { &self.buf[self.from..self.to] } }
impl AsRef<str> for StrTendril { fn as_ref(&self) -> &str { self } }
impl<'a> From<&'a str> for StrTendril { fn from(s: &'a str) -> Self { StrTendril { buf: s.into(), from: 0, to: s.len() } } }
impl From<String> for StrTendril { fn from(s: String) -> Self { StrTendril { to: s.len(), buf: s.into(), from: 0 } } }
impl std::fmt::Debug for StrTendril { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&**self, f) } }
impl std::fmt::Display for StrTendril { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self) } }
pub trait TendrilSink {
    type Output;
    fn one(self, t: StrTendril) -> Self::Output;
}
