//! Verification shim: the interface of memchr 2.8 that matters here, byte by byte instead of SIMD.
#![no_std]

pub fn memchr(a: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a || h[i] == b {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == a || h[i] == b || h[i] == c {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memrchr(a: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == a {
            return Some(i);
        }
    }
    None
}
pub fn memrchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == a || h[i] == b {
            return Some(i);
        }
    }
    None
}
pub fn memrchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == a || h[i] == b || h[i] == c {
            return Some(i);
        }
    }
    None
}

#[derive(Clone, Debug)]
pub struct Memchr<'h> {
    n: [u8; 3],
    h: &'h [u8],
    front: usize,
    back: usize,
}
pub type Memchr2<'h> = Memchr<'h>;
pub type Memchr3<'h> = Memchr<'h>;
impl Iterator for Memchr<'_> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.front < self.back {
            let i = self.front;
            self.front += 1;
            let c = self.h[i];
            if c == self.n[0] || c == self.n[1] || c == self.n[2] {
                return Some(i);
            }
        }
        None
    }
}
impl DoubleEndedIterator for Memchr<'_> {
    fn next_back(&mut self) -> Option<usize> {
        while self.front < self.back {
            self.back -= 1;
            let c = self.h[self.back];
            if c == self.n[0] || c == self.n[1] || c == self.n[2] {
                return Some(self.back);
            }
        }
        None
    }
}
pub fn memchr_iter(a: u8, h: &[u8]) -> Memchr<'_> {
    Memchr { n: [a, a, a], h, front: 0, back: h.len() }
}
pub fn memchr2_iter(a: u8, b: u8, h: &[u8]) -> Memchr<'_> {
    Memchr { n: [a, b, b], h, front: 0, back: h.len() }
}
pub fn memchr3_iter(a: u8, b: u8, c: u8, h: &[u8]) -> Memchr<'_> {
    Memchr { n: [a, b, c], h, front: 0, back: h.len() }
}
pub fn memrchr_iter(a: u8, h: &[u8]) -> core::iter::Rev<Memchr<'_>> {
    memchr_iter(a, h).rev()
}

pub mod memmem {
    pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
        find_at(h, n, 0)
    }
    fn find_at(h: &[u8], n: &[u8], from: usize) -> Option<usize> {
        let mut i = from;
        while i + n.len() <= h.len() {
            let mut k = 0;
            while k < n.len() && h[i + k] == n[k] {
                k += 1;
            }
            if k == n.len() {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn rfind(h: &[u8], n: &[u8]) -> Option<usize> {
        if n.len() > h.len() {
            return None;
        }
        let mut i = h.len() - n.len() + 1;
        while i > 0 {
            i -= 1;
            if &h[i..i + n.len()] == n {
                return Some(i);
            }
        }
        None
    }
    #[derive(Clone, Debug)]
    pub struct FindIter<'h, 'n> {
        h: &'h [u8],
        n: &'n [u8],
        pos: usize,
    }
    impl Iterator for FindIter<'_, '_> {
        type Item = usize;
        fn next(&mut self) -> Option<usize> {
            let r = find_at(self.h, self.n, self.pos)?;
            self.pos = r + if self.n.is_empty() { 1 } else { self.n.len() };
            Some(r)
        }
    }
    pub fn find_iter<'h, 'n, N: AsRef<[u8]> + ?Sized>(h: &'h [u8], n: &'n N) -> FindIter<'h, 'n> {
        FindIter { h, n: n.as_ref(), pos: 0 }
    }
    #[derive(Clone, Debug)]
    pub struct Finder<'n> {
        n: &'n [u8],
    }
    impl<'n> Finder<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(n: &'n B) -> Finder<'n> {
            Finder { n: n.as_ref() }
        }
        pub fn find(&self, h: &[u8]) -> Option<usize> {
            find(h, self.n)
        }
        pub fn find_iter<'a, 'h>(&'a self, h: &'h [u8]) -> FindIter<'h, 'a> {
            FindIter { h, n: self.n, pos: 0 }
        }
        pub fn needle(&self) -> &[u8] {
            self.n
        }
        pub fn as_ref(&self) -> Finder<'_> {
            Finder { n: self.n }
        }
    }
    #[derive(Clone, Debug)]
    pub struct FinderRev<'n> {
        n: &'n [u8],
    }
    impl<'n> FinderRev<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(n: &'n B) -> FinderRev<'n> {
            FinderRev { n: n.as_ref() }
        }
        pub fn rfind<B: AsRef<[u8]>>(&self, h: B) -> Option<usize> {
            rfind(h.as_ref(), self.n)
        }
    }
}
