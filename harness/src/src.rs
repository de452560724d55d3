//! A byte source that may hand out its bytes in small pieces, and fail.
use std::io;
pub struct Src<'a> { pub data: &'a [u8], pub chunk: usize, pub fail_at: usize, pub pos: usize }
impl<'a> Src<'a> { pub fn new(data: &'a [u8], chunk: usize) -> Src<'a> { Src { data, chunk, fail_at: usize::MAX, pos: 0 } } }
impl<'a> io::Read for Src<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.fail_at { return Err(io::Error::from(io::ErrorKind::Other)); }
        let mut n = self.data.len() - self.pos;
        if self.chunk > 0 && n > self.chunk { n = self.chunk; }
        if self.fail_at < usize::MAX && n > self.fail_at - self.pos { n = self.fail_at - self.pos; }
        if n > buf.len() { n = buf.len(); }
        for i in 0..n { buf[i] = self.data[self.pos + i]; }
        self.pos += n;
        Ok(n)
    }
}
pub struct Bytes(pub Vec<u8>);
impl Bytes {
    pub fn new() -> Bytes { Bytes(vec![]) }
    pub fn any(&mut self, n: usize) -> &mut Bytes { for _ in 0..n { self.0.push(crate::sym::any_u8()); } self }
    pub fn u8(&mut self, v: u8) -> &mut Bytes { self.0.push(v); self }
    pub fn le16(&mut self, v: u16) -> &mut Bytes { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn le32(&mut self, v: u32) -> &mut Bytes { self.0.extend_from_slice(&v.to_le_bytes()); self }
    pub fn be32(&mut self, v: u32) -> &mut Bytes { self.0.extend_from_slice(&v.to_be_bytes()); self }
    pub fn le64(&mut self, v: u64) -> &mut Bytes { self.0.extend_from_slice(&v.to_le_bytes()); self }
}
