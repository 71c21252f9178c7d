//! Byte-granular copy-on-write memory. Every object has its own 4 GiB address
//! window: address = id << 32 | offset.
use crate::expr::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<[E]>>,
}
impl Obj {
    pub fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: None } }
    pub fn range_sym(&self, o: usize, n: usize) -> bool { match &self.sym { None => false, Some(s) => s[o..o + n].iter().any(|&e| e != 0) } }
}
const CH: usize = 32;
pub type Chunk = [Option<Rc<Obj>>; CH];
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    next: u32,
}
impl Mem {
    pub fn new() -> Mem { Mem { chunks: vec![], free: vec![], next: 1 } }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = self.free.pop().unwrap_or_else(|| { let i = self.next; self.next += 1; i });
        let c = id as usize / CH;
        while self.chunks.len() <= c { self.chunks.push(Rc::new(std::array::from_fn(|_| None))); }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(o));
        id
    }
    pub fn release(&mut self, id: u32) -> bool {
        let c = id as usize / CH;
        if c >= self.chunks.len() { return false; }
        let s = &mut Rc::make_mut(&mut self.chunks[c])[id as usize % CH];
        if s.is_none() { return false; }
        *s = None;
        self.free.push(id);
        true
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Obj> { self.chunks.get(id as usize / CH)?[id as usize % CH].as_deref() }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        let o = Rc::make_mut(c)[id as usize % CH].as_mut()?;
        Some(Rc::make_mut(o))
    }
}
