//! Memory of one execution path: objects with concrete bytes and an overlay of symbolic bytes.

use crate::expr::E;
use crate::ir::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj {
    pub size: u64,
    /// Grows on write up to `size`; bytes beyond are zero (uninitialised).
    pub data: Vec<u8>,
    /// Same length as `data` when present; 0 = concrete, otherwise expression + 1.
    pub sym: Option<Vec<u32>>,
    pub ro: bool,
    pub kind: u8, // 0 global, 1 stack, 2 heap
}

impl Obj {
    pub fn ensure(&mut self, n: usize) {
        if self.data.len() < n {
            let mut cap = n.max(self.data.len() * 2);
            if cap as u64 > self.size {
                cap = self.size as usize;
            }
            self.data.resize(cap, 0);
            if let Some(s) = &mut self.sym {
                s.resize(cap, 0);
            }
        }
    }
    #[inline]
    pub fn byte(&self, i: usize) -> (u8, u32) {
        if i >= self.data.len() {
            return (0, 0);
        }
        (self.data[i], self.sym.as_ref().map_or(0, |s| s[i]))
    }
    pub fn has_sym(&self, o: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => {
                let e = (o + n).min(s.len());
                o < e && s[o..e].iter().any(|x| *x != 0)
            }
        }
    }
    pub fn set_sym(&mut self, i: usize, e: E) {
        self.ensure(i + 1);
        let n = self.data.len();
        let s = self.sym.get_or_insert_with(|| vec![0; n]);
        s[i] = e + 1;
    }
    pub fn set(&mut self, i: usize, v: u8) {
        self.ensure(i + 1);
        self.data[i] = v;
        if let Some(s) = &mut self.sym {
            s[i] = 0;
        }
    }
}

const CHUNK: usize = 32;
type Chunk = [Option<Rc<Obj>>; CHUNK];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    next: u64,
    free_stack: Vec<u64>,
    globals: BTreeMap<u32, Rc<Obj>>,
    base: u64,
    pub tls: BTreeMap<(u32, u32), u64>,
    pub live_heap: u64,
}

#[derive(Debug)]
pub struct MemErr(pub String);

impl Mem {
    pub fn new(m: &Module) -> Self {
        Mem {
            chunks: vec![],
            next: 0,
            free_stack: vec![],
            globals: BTreeMap::new(),
            base: GLOBAL_BASE + m.globals.len() as u64,
            tls: BTreeMap::new(),
            live_heap: 0,
        }
    }
    pub fn alloc(&mut self, size: u64, kind: u8) -> u64 {
        let i = match (kind, self.free_stack.pop()) {
            (1, Some(i)) => i,
            (_, x) => {
                if let Some(x) = x {
                    self.free_stack.push(x);
                }
                let i = self.next;
                self.next += 1;
                i
            }
        };
        let (c, k) = (i as usize / CHUNK, i as usize % CHUNK);
        if c >= self.chunks.len() {
            self.chunks.push(Rc::new(Default::default()));
        }
        Rc::make_mut(&mut self.chunks[c])[k] = Some(Rc::new(Obj { size, kind, ..Default::default() }));
        if kind == 2 {
            self.live_heap += 1;
        }
        (self.base + i) << OBJ_SHIFT
    }
    /// Content of a new object.
    pub fn init(&mut self, addr: u64, o: Obj) {
        let i = ((addr >> OBJ_SHIFT) - self.base) as usize;
        let kind = 3;
        Rc::make_mut(&mut self.chunks[i / CHUNK])[i % CHUNK] = Some(Rc::new(Obj { kind, ..o }));
    }
    pub fn free(&mut self, addr: u64, kind: u8) -> Result<(), MemErr> {
        let idx = addr >> OBJ_SHIFT;
        if idx < self.base || addr & ((1 << OBJ_SHIFT) - 1) != 0 {
            return Err(MemErr(format!("free of a pointer that is no allocation: {addr:#x}")));
        }
        let i = (idx - self.base) as usize;
        let (c, k) = (i / CHUNK, i % CHUNK);
        match self.chunks.get(c).and_then(|c| c[k].as_ref()) {
            Some(o) if o.kind == kind => {}
            _ => return Err(MemErr(format!("double free of {addr:#x}"))),
        }
        Rc::make_mut(&mut self.chunks[c])[k] = None;
        if kind == 1 {
            self.free_stack.push(i as u64);
        } else {
            self.live_heap -= 1;
        }
        Ok(())
    }
    #[inline]
    pub fn get<'a>(&'a self, m: &'a Module, addr: u64, n: u64) -> Result<(&'a Obj, usize), MemErr> {
        let idx = addr >> OBJ_SHIFT;
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        let o: &'a Obj = if idx >= self.base {
            let i = (idx - self.base) as usize;
            match self.chunks.get(i / CHUNK).and_then(|c| c[i % CHUNK].as_ref()) {
                Some(o) => o,
                None => return Err(MemErr(format!("access to freed or unknown object {addr:#x}"))),
            }
        } else if idx >= GLOBAL_BASE {
            let g = (idx - GLOBAL_BASE) as u32;
            match self.globals.get(&g) {
                Some(o) => o,
                None => m.global_obj(g),
            }
        } else {
            return Err(MemErr(format!("access to invalid address {addr:#x}")));
        };
        if off + n > o.size {
            return Err(MemErr(format!("out of bounds access: {n} bytes at offset {off} of an object of {} bytes", o.size)));
        }
        Ok((o, off as usize))
    }
    #[inline]
    pub fn get_mut(&mut self, m: &Module, addr: u64, n: u64) -> Result<(&mut Obj, usize), MemErr> {
        self.get(m, addr, n)?;
        let idx = addr >> OBJ_SHIFT;
        let off = addr & ((1 << OBJ_SHIFT) - 1);
        if idx >= self.base {
            let i = (idx - self.base) as usize;
            let c = Rc::make_mut(&mut self.chunks[i / CHUNK]);
            Ok((Rc::make_mut(c[i % CHUNK].as_mut().unwrap()), off as usize))
        } else {
            let g = (idx - GLOBAL_BASE) as u32;
            if m.globals[g as usize].constant {
                return Err(MemErr(format!("write to constant {}", m.globals[g as usize].name)));
            }
            let o = self.globals.entry(g).or_insert_with(|| Rc::new(m.global_obj(g).clone()));
            Ok((Rc::make_mut(o), off as usize))
        }
    }
    pub fn size_of(&self, m: &Module, addr: u64) -> Option<u64> {
        self.get(m, addr, 0).ok().map(|(o, _)| o.size)
    }
    pub fn copy(&mut self, m: &Module, dst: u64, src: u64, n: u64) -> Result<(), MemErr> {
        if n == 0 {
            return Ok(());
        }
        let (o, so) = self.get(m, src, n)?;
        let n = n as usize;
        // only what has been written
        let avail = o.data.len().saturating_sub(so).min(n);
        let data: Vec<u8> = o.data[so.min(o.data.len())..so.min(o.data.len()) + avail].to_vec();
        let sym: Option<Vec<u32>> =
            if o.has_sym(so, n) { o.sym.as_ref().map(|s| s[so..so + avail].to_vec()) } else { None };
        let (d, dof) = self.get_mut(m, dst, n as u64)?;
        d.ensure(dof + avail);
        d.data[dof..dof + avail].copy_from_slice(&data);
        match sym {
            Some(s) => {
                let l = d.data.len();
                let ds = d.sym.get_or_insert_with(|| vec![0; l]);
                ds[dof..dof + avail].copy_from_slice(&s);
            }
            None => {
                if let Some(ds) = &mut d.sym {
                    ds[dof..dof + avail].fill(0);
                }
            }
        }
        // rest of the range becomes unwritten (zero)
        let end = (dof + n).min(d.data.len());
        if dof + avail < end {
            d.data[dof + avail..end].fill(0);
            if let Some(ds) = &mut d.sym {
                ds[dof + avail..end].fill(0);
            }
        }
        Ok(())
    }
}
