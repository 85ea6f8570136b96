//! Transports.
use std::io::{self, Read, Write};

/// Delivers `data` in pieces of at most `step` bytes (0: as asked).
pub struct Src {
    pub data: Vec<u8>,
    pub pos: usize,
    pub step: usize,
    /// after the data: Ok(0) or an error
    pub fail: bool,
    pub reads: usize,
}
impl Src {
    pub fn new(data: Vec<u8>) -> Src {
        Src { data, pos: 0, step: 0, fail: false, reads: 0 }
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        let left = self.data.len() - self.pos;
        if left == 0 && self.fail && !buf.is_empty() {
            return Err(io::Error::from(io::ErrorKind::ConnectionReset));
        }
        let mut n = if left < buf.len() { left } else { buf.len() };
        if self.step != 0 && n > self.step {
            n = self.step;
        }
        for i in 0..n {
            buf[i] = self.data[self.pos + i];
        }
        self.pos += n;
        Ok(n)
    }
}
