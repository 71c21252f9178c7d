#![no_std]
pub fn memchr(n: u8, h: &[u8]) -> Option<usize> { let mut i = 0; while i < h.len() { if h[i] == n { return Some(i); } i += 1; } None }
pub fn memrchr(n: u8, h: &[u8]) -> Option<usize> { let mut i = h.len(); while i > 0 { i -= 1; if h[i] == n { return Some(i); } } None }
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> { let mut i = 0; while i < h.len() { if h[i] == a || h[i] == b { return Some(i); } i += 1; } None }
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> { let mut i = 0; while i < h.len() { if h[i] == a || h[i] == b || h[i] == c { return Some(i); } i += 1; } None }
pub fn memchr_iter(n: u8, h: &[u8]) -> impl Iterator<Item = usize> + '_ { h.iter().enumerate().filter(move |x| *x.1 == n).map(|x| x.0) }
