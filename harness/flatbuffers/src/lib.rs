//! Stand-in for the `flatbuffers` crate: what the foreign interface uses of it.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct InvalidFlatbuffer;

impl std::fmt::Display for InvalidFlatbuffer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("invalid flatbuffer")
    }
}
impl std::error::Error for InvalidFlatbuffer {}

pub trait Table<'a>: Sized {
    fn read(buffer: &'a [u8]) -> Option<Self>;
}

pub fn root<'a, T: Table<'a>>(buffer: &'a [u8]) -> Result<T, InvalidFlatbuffer> {
    T::read(buffer).ok_or(InvalidFlatbuffer)
}
