//! Objects and per-state heap.  An address is (object number << 32) | offset.

use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// symbolic overlay: 0, or expression id << 8 | byte index within the expression
    pub sym: Option<Vec<u64>>,
}

impl Obj {
    pub fn new(size: usize) -> Obj { Obj { data: vec![0; size], sym: None } }
    pub fn from(data: Vec<u8>) -> Obj { Obj { data, sym: None } }
    pub fn len(&self) -> usize { self.data.len() }
    #[inline]
    pub fn is_conc(&self, off: usize, n: usize) -> bool {
        match self.sym { None => true, Some(ref s) => s[off..off + n].iter().all(|&x| x == 0) }
    }
    #[inline]
    pub fn clear_sym(&mut self, off: usize, n: usize) {
        if let Some(ref mut s) = self.sym { for x in &mut s[off..off + n] { *x = 0; } }
    }
    pub fn sym_mut(&mut self) -> &mut Vec<u64> {
        let n = self.data.len();
        self.sym.get_or_insert_with(|| vec![0; n])
    }
    /// copy n bytes from another object
    pub fn copy_from(&mut self, off: usize, src: &Obj, soff: usize, n: usize) {
        self.data[off..off + n].copy_from_slice(&src.data[soff..soff + n]);
        match src.sym {
            Some(ref s) if s[soff..soff + n].iter().any(|&x| x != 0) => {
                let part: Vec<u64> = s[soff..soff + n].to_vec();
                self.sym_mut()[off..off + n].copy_from_slice(&part);
            }
            _ => self.clear_sym(off, n),
        }
    }
    pub fn copy_within(&mut self, dst: usize, src: usize, n: usize) {
        self.data.copy_within(src..src + n, dst);
        if let Some(ref mut s) = self.sym { s.copy_within(src..src + n, dst); }
    }
}

const CHUNK: usize = 64;

#[derive(Clone, Default)]
pub struct Heap {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub count: u64,
    pub live: u64,
}

impl Heap {
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let i = self.count as usize;
        self.count += 1;
        self.live += 1;
        if i / CHUNK >= self.chunks.len() { self.chunks.push(Rc::new(Vec::with_capacity(CHUNK))); }
        Rc::make_mut(&mut self.chunks[i / CHUNK]).push(Some(Rc::new(o)));
        i as u64
    }
    #[inline]
    pub fn get(&self, i: u64) -> Option<&Obj> {
        let i = i as usize;
        self.chunks.get(i / CHUNK).and_then(|c| c.get(i % CHUNK)).and_then(|o| o.as_deref())
    }
    #[inline]
    pub fn get_rc(&self, i: u64) -> Option<Rc<Obj>> {
        let i = i as usize;
        self.chunks.get(i / CHUNK).and_then(|c| c.get(i % CHUNK)).and_then(|o| o.clone())
    }
    #[inline]
    pub fn get_mut(&mut self, i: u64) -> Option<&mut Obj> {
        let i = i as usize;
        let c = self.chunks.get_mut(i / CHUNK)?;
        let c = Rc::make_mut(c);
        match c.get_mut(i % CHUNK) { Some(Some(o)) => Some(Rc::make_mut(o)), _ => None }
    }
    pub fn free(&mut self, i: u64) -> bool {
        let i = i as usize;
        if let Some(c) = self.chunks.get_mut(i / CHUNK) {
            let c = Rc::make_mut(c);
            if let Some(o) = c.get_mut(i % CHUNK) {
                if o.is_some() { *o = None; self.live -= 1; return true; }
            }
        }
        false
    }
}
