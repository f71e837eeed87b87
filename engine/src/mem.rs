//! Copy-on-write memory: one object per allocation, concrete bytes plus an optional overlay of symbolic bytes.
use crate::expr::X;
use crate::ir::{obj_addr, OBJ_BASE, OBJ_SHIFT};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub b: Vec<u8>, pub s: Option<Vec<X>>, pub ro: bool }
impl Obj {
    pub fn new(n: usize) -> Obj { Obj { b: vec![0; n], s: None, ro: false } }
    pub fn put(&mut self, i: usize, v: u8) { self.b[i] = v; if let Some(s) = &mut self.s { s[i] = 0; } }
    pub fn put_x(&mut self, i: usize, x: X) { let n = self.b.len(); self.s.get_or_insert_with(|| vec![0; n])[i] = x; }
}
const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];
#[derive(Clone)]
pub struct Mem { heap: Vec<Rc<Chunk>>, pub nheap: usize, pub stack: Vec<Rc<Obj>> }
pub const STACK_ID0: u64 = 0x2000_0000;

pub enum Place { Heap(usize), Stack(usize) }
impl Mem {
    pub fn new() -> Mem { Mem { heap: vec![], nheap: 0, stack: vec![] } }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = self.nheap; self.nheap += 1;
        if id / CH >= self.heap.len() { self.heap.push(Rc::new(std::array::from_fn(|_| None))); }
        Rc::make_mut(&mut self.heap[id / CH])[id % CH] = Some(Rc::new(o));
        obj_addr(id as u64)
    }
    pub fn alloca(&mut self, n: usize) -> u64 { let id = self.stack.len(); self.stack.push(Rc::new(Obj::new(n))); obj_addr(STACK_ID0 + id as u64) }
    pub fn place(addr: u64) -> Option<(Place, u64)> {
        let id = (addr >> OBJ_SHIFT).wrapping_sub(1);
        let off = (addr & 0xffff_ffff).wrapping_sub(OBJ_BASE);
        if addr >> OBJ_SHIFT == 0 { return None; }
        if id >= STACK_ID0 && id < 0x4000_0000 { Some((Place::Stack((id - STACK_ID0) as usize), off)) } else { Some((Place::Heap(id as usize), off)) }
    }
    pub fn get(&self, p: &Place) -> Option<&Rc<Obj>> {
        match p { Place::Stack(i) => self.stack.get(*i), Place::Heap(i) => if *i < self.nheap { self.heap[i / CH][i % CH].as_ref() } else { None } }
    }
    pub fn get_mut(&mut self, p: &Place) -> Option<&mut Obj> {
        match p { Place::Stack(i) => self.stack.get_mut(*i).map(Rc::make_mut), Place::Heap(i) => if *i < self.nheap { Rc::make_mut(&mut self.heap[i / CH])[i % CH].as_mut().map(Rc::make_mut) } else { None } }
    }
    pub fn free(&mut self, addr: u64) -> bool {
        match Self::place(addr) { Some((Place::Heap(i), 0)) if i < self.nheap => Rc::make_mut(&mut self.heap[i / CH])[i % CH].take().is_some(), _ => false }
    }
    /// object base address, and object
    pub fn find(&self, addr: u64) -> Option<(u64, &Rc<Obj>)> {
        let (p, off) = Self::place(addr)?;
        let o = self.get(&p)?;
        Some((addr.wrapping_sub(off), o))
    }
}
