//! Byte-addressed memory: every object has its own 4 GiB region, copy on write.
use crate::expr::E;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>, // 0 = concrete byte
    pub ro: bool,
    pub heap: bool,
}
impl Obj {
    pub fn new(n: usize, heap: bool) -> Obj {
        Obj { data: vec![0; n], sym: None, ro: false, heap }
    }
    pub fn symv(&mut self) -> &mut Vec<E> {
        let n = self.data.len();
        self.sym.get_or_insert_with(|| vec![0; n])
    }
}

const CH: usize = 64;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    base: u32,
    chunks: Vec<Option<Rc<Chunk>>>,
    pub next: u32,
}
impl Mem {
    pub fn new(first: u32) -> Mem {
        Mem { base: 0, chunks: vec![], next: first }
    }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        let i = (id - self.base) as usize;
        self.chunks.get(i / CH)?.as_ref()?[i % CH].as_ref()
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let i = (id - self.base) as usize;
        let c = Rc::make_mut(self.chunks.get_mut(i / CH)?.as_mut()?);
        c[i % CH].as_mut().map(Rc::make_mut)
    }
    pub fn put(&mut self, id: u32, o: Rc<Obj>) {
        let i = (id - self.base) as usize;
        if self.chunks.len() <= i / CH {
            self.chunks.resize(i / CH + 1, None);
        }
        let c = self.chunks[i / CH].get_or_insert_with(|| Rc::new(std::array::from_fn(|_| None)));
        Rc::make_mut(c)[i % CH] = Some(o);
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.next += 1;
        self.put(id, Rc::new(o));
        (id as u64) << 32
    }
    pub fn free(&mut self, id: u32) {
        let i = (id - self.base) as usize;
        if let Some(Some(c)) = self.chunks.get_mut(i / CH) {
            let c = Rc::make_mut(c);
            c[i % CH] = None;
            if c.iter().all(|x| x.is_none()) && self.next > id + CH as u32 {
                self.chunks[i / CH] = None;
            }
        }
    }
    pub fn live_heap(&self) -> (usize, usize) {
        let mut n = 0;
        let mut b = 0;
        for c in self.chunks.iter().flatten() {
            for o in c.iter().flatten() {
                if o.heap {
                    n += 1;
                    b += o.data.len();
                }
            }
        }
        (n, b)
    }
}
