use std::io::{self, Read, Write};
pub trait SerdeObject: Sized {
    fn from_raw_bytes_unchecked(bytes: &[u8]) -> Self;
    fn from_raw_bytes(bytes: &[u8]) -> Option<Self>;
    fn to_raw_bytes(&self) -> Vec<u8>;
    fn read_raw_unchecked<R: Read>(reader: &mut R) -> Self;
    fn read_raw<R: Read>(reader: &mut R) -> io::Result<Self>;
    fn write_raw<W: Write>(&self, writer: &mut W) -> io::Result<()>;
}
