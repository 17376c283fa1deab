use crate::ir::*;
use std::rc::Rc;

/// Memory object: concrete bytes with an optional symbolic overlay.
/// sym[i] == 0: concrete; otherwise ((term+1) << 8 | byte index).
#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub data: Vec<u8>,
    pub sym: Option<Vec<u64>>,
}

pub const HEAP_BASE: u64 = 0x4000_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;

impl Obj {
    pub fn new(base: u64, size: usize) -> Obj {
        Obj {
            base,
            data: vec![0; size],
            sym: None,
        }
    }
    pub fn is_conc(&self, off: usize, n: usize) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[off..off + n].iter().all(|x| *x == 0),
        }
    }
    pub fn put_conc(&mut self, off: usize, b: &[u8]) {
        self.data[off..off + b.len()].copy_from_slice(b);
        if let Some(s) = &mut self.sym {
            for x in &mut s[off..off + b.len()] {
                *x = 0;
            }
        }
    }
    pub fn put_sym(&mut self, off: usize, term: u32, byte: u32) {
        let n = self.data.len();
        let s = self.sym.get_or_insert_with(|| vec![0; n]);
        s[off] = ((term as u64 + 1) << 8) | byte as u64;
        self.data[off] = 0;
    }
    pub fn byte(&self, off: usize) -> MB {
        if let Some(s) = &self.sym {
            if s[off] != 0 {
                return MB::S(((s[off] >> 8) - 1) as u32, (s[off] & 255) as u32);
            }
        }
        MB::C(self.data[off])
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum MB {
    C(u8),
    S(u32, u32),
}

pub struct Frame {
    pub func: Rc<Func>,
    pub regs: Vec<V>,
    pub bb: u32,
    pub ip: u32,
    pub obj: Rc<Obj>,
    pub ret_dst: u32,
    pub normal: u32,
    pub extra: u32, // number of dynamic allocas
}
impl Clone for Frame {
    fn clone(&self) -> Self {
        Frame {
            func: self.func.clone(),
            regs: self.regs.clone(),
            bb: self.bb,
            ip: self.ip,
            obj: self.obj.clone(),
            ret_dst: self.ret_dst,
            normal: self.normal,
            extra: self.extra,
        }
    }
}
