//! Scalar stand-in for the `memchr` crate, used only in the symbolic build (the real crate picks
//! SIMD routines through cpuid).  Same results by definition; native replays use the real crate.
#![no_std]
pub fn memchr(a: u8, h: &[u8]) -> Option<usize> {
    h.iter().position(|x| *x == a)
}
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    h.iter().position(|x| *x == a || *x == b)
}
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    h.iter().position(|x| *x == a || *x == b || *x == c)
}
pub fn memrchr(a: u8, h: &[u8]) -> Option<usize> {
    h.iter().rposition(|x| *x == a)
}
pub struct It<'a> {
    n: [u8; 3],
    h: &'a [u8],
    i: usize,
}
impl<'a> Iterator for It<'a> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.i < self.h.len() {
            let x = self.h[self.i];
            self.i += 1;
            if x == self.n[0] || x == self.n[1] || x == self.n[2] {
                return Some(self.i - 1);
            }
        }
        None
    }
}
pub fn memchr_iter(a: u8, h: &[u8]) -> It<'_> {
    It { n: [a, a, a], h, i: 0 }
}
pub fn memchr2_iter(a: u8, b: u8, h: &[u8]) -> It<'_> {
    It { n: [a, b, b], h, i: 0 }
}
pub fn memchr3_iter(a: u8, b: u8, c: u8, h: &[u8]) -> It<'_> {
    It { n: [a, b, c], h, i: 0 }
}
pub mod memmem {
    pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
        if n.is_empty() {
            return Some(0);
        }
        let mut i = 0;
        while i + n.len() <= h.len() {
            if &h[i..i + n.len()] == n {
                return Some(i);
            }
            i += 1;
        }
        None
    }
}
