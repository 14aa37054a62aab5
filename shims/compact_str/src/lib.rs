//! Stand-in for compact_str over String.
#[derive(Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct CompactString(String);
impl CompactString {
    pub fn new(s: impl AsRef<str>) -> Self { CompactString(s.as_ref().to_string()) }
    pub fn as_str(&self) -> &str { &self.0 }
    pub fn push_str(&mut self, s: &str) { self.0.push_str(s) }
    pub fn push(&mut self, c: char) { self.0.push(c) }
}
impl std::ops::Deref for CompactString { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl AsRef<str> for CompactString { fn as_ref(&self) -> &str { &self.0 } }
impl From<String> for CompactString { fn from(s: String) -> Self { CompactString(s) } }
impl<'a> From<&'a str> for CompactString { fn from(s: &'a str) -> Self { CompactString(s.to_string()) } }
impl std::fmt::Debug for CompactString { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&self.0, f) } }
impl std::fmt::Display for CompactString { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
#[macro_export]
macro_rules! format_compact { ($($t:tt)*) => { $crate::CompactString::from(format!($($t)*)) } }
