//! Building inputs out of literal text and symbolic characters.
use crate::sx;

#[derive(Clone, Default)]
pub struct Buf(pub Vec<u8>);

impl Buf {
    pub fn new() -> Buf {
        Buf(Vec::with_capacity(64))
    }
    pub fn of(s: &str) -> Buf {
        let mut b = Buf::new();
        b.s(s);
        b
    }
    pub fn s(&mut self, s: &str) -> &mut Buf {
        self.0.extend_from_slice(s.as_bytes());
        self
    }
    pub fn b(&mut self, b: u8) -> &mut Buf {
        self.0.push(b);
        self
    }
    /// Append a character in UTF-8.
    pub fn c(&mut self, c: char) -> &mut Buf {
        let mut t = [0; 4];
        let s = c.encode_utf8(&mut t);
        self.0.extend_from_slice(s.as_bytes());
        self
    }
    /// `n` arbitrary ASCII bytes.
    pub fn ascii(&mut self, n: usize) -> &mut Buf {
        for _ in 0..n {
            self.0.push(sx::ascii());
        }
        self
    }
    pub fn letters(&mut self, n: usize) -> &mut Buf {
        for _ in 0..n {
            self.0.push(sx::letter());
        }
        self
    }
    pub fn as_str(&self) -> &str {
        // Only whole UTF-8 sequences are ever appended.
        unsafe { core::str::from_utf8_unchecked(&self.0) }
    }
    pub fn num(&mut self, mut n: usize) -> &mut Buf {
        let mut d = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            d[i] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
        }
        self.0.extend_from_slice(&d[i..]);
        self
    }
}
