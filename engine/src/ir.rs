//! Lazy parser for LLVM textual IR (opaque pointers).
use rustc_hash::FxHashMap;
use std::rc::Rc;

pub type Ty = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TyK {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Ty),
    Struct(Vec<Ty>, bool),
    Vect(u32, Ty),
    Label,
    Meta,
    Other(String),
}

/// Constant or runtime value.
#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    T(u32),
    A(Rc<[V]>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<FnRef>),
    Indirect(Op),
}
#[derive(Debug)]
pub struct FnRef {
    pub name: String,
    pub id: u32,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca(u32, u64),
    AllocaDyn(u32, Ty, Op),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, Ty, i64)>),
    Bin(u32, Bin, Ty, Op, Op),
    Icmp(u32, Pred, Ty, Op, Op),
    Fcmp(u32, String, Ty, Op, Op),
    FNeg(u32, Ty, Op),
    Cast(u32, Cast, Ty, Ty, Op),
    Select(u32, Ty, Ty, Op, Op, Op),
    Copy(u32, Op),
    Call(u32, Ty, Callee, Vec<(Ty, Op)>, u32), // dst (u32::MAX none), normal dest (u32::MAX for plain call)
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Op, Op, Vec<u32>),
    ExtractElement(u32, Op, Op),
    InsertElement(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<i32>),
    CmpXchg(u32, Ty, Op, Op, Op),
    AtomicRmw(u32, String, Ty, Op, Op),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Nop,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(Op, u32)>)>,
    pub insts: Vec<I>,
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub frame_size: u64,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub addr: u64,
    pub size: u64,
    pub data: Vec<u8>,
    pub writable: bool,
    pub name: String,
}

pub const FN_BASE: u64 = 0x0800_0000;
pub const GLOB_BASE: u64 = 0x1_0000_0000;

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub tys: Vec<TyK>,
    tymap: FxHashMap<TyK, Ty>,
    fn_off: FxHashMap<String, usize>, // define offset
    glob_off: FxHashMap<String, usize>,
    named_ty: FxHashMap<String, usize>,
    named_cache: FxHashMap<String, Ty>,
    pub fn_ids: FxHashMap<String, Rc<FnRef>>,
    pub fn_names: Vec<Rc<FnRef>>,
    pub funcs: FxHashMap<u32, Rc<Func>>,
    pub glob_addr: FxHashMap<String, u64>,
    pub globals: Vec<Rc<Global>>,
    pub glob_next: u64,
    pub aliases: FxHashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Glob(String),
    Int(String), // raw, may be negative / hex float
    Str(Vec<u8>),
    P(u8),
    Meta,
    Attr,
    Ellipsis,
    Eol,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    peeked: Option<Tok>,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1] != b'\\' {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

impl<'a> Lex<'a> {
    fn new(s: &'a [u8]) -> Self {
        Lex { s, p: 0, peeked: None }
    }
    fn lex(&mut self) -> Tok {
        loop {
            if self.p >= self.s.len() {
                return Tok::Eol;
            }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\r' | b'\n' => {
                    self.p += 1;
                }
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                _ => break,
            }
        }
        let c = self.s[self.p];
        match c {
            b'%' | b'@' => {
                self.p += 1;
                let name = self.ident();
                if c == b'%' {
                    Tok::Local(name)
                } else {
                    Tok::Glob(name)
                }
            }
            b'!' => {
                self.p += 1;
                while self.p < self.s.len() && (is_id(self.s[self.p]) || self.s[self.p] == b'!') {
                    self.p += 1;
                }
                // inline metadata like !{...} or !DIExpression(...): skip balanced
                if self.p < self.s.len() && (self.s[self.p] == b'{' || self.s[self.p] == b'(') {
                    let (o, cl) = if self.s[self.p] == b'{' { (b'{', b'}') } else { (b'(', b')') };
                    let mut d = 0;
                    while self.p < self.s.len() {
                        if self.s[self.p] == o {
                            d += 1
                        } else if self.s[self.p] == cl {
                            d -= 1;
                        }
                        self.p += 1;
                        if d == 0 {
                            break;
                        }
                    }
                }
                Tok::Meta
            }
            b'#' => {
                self.p += 1;
                while self.p < self.s.len() && is_id(self.s[self.p]) {
                    self.p += 1;
                }
                Tok::Attr
            }
            b'"' => {
                let st = self.p + 1;
                let mut e = st;
                while self.s[e] != b'"' {
                    e += 1;
                }
                self.p = e + 1;
                Tok::Str(unescape(&self.s[st..e]))
            }
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => {
                let st = self.p + 2;
                let mut e = st;
                while self.s[e] != b'"' {
                    e += 1;
                }
                self.p = e + 1;
                Tok::Str(unescape(&self.s[st..e]))
            }
            b'.' if self.s[self.p..].starts_with(b"...") => {
                self.p += 3;
                Tok::Ellipsis
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || self.s[self.p] == b'.' || ((self.s[self.p] == b'+' || self.s[self.p] == b'-') && self.s[self.p - 1] == b'e')) {
                    self.p += 1;
                }
                Tok::Int(std::str::from_utf8(&self.s[st..self.p]).unwrap().to_string())
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.p;
                while self.p < self.s.len() && is_id(self.s[self.p]) {
                    self.p += 1;
                }
                Tok::Word(std::str::from_utf8(&self.s[st..self.p]).unwrap().to_string())
            }
            _ => {
                self.p += 1;
                Tok::P(c)
            }
        }
    }
    fn ident(&mut self) -> String {
        if self.s[self.p] == b'"' {
            let st = self.p + 1;
            let mut e = st;
            while self.s[e] != b'"' {
                e += 1;
            }
            self.p = e + 1;
            String::from_utf8_lossy(&self.s[st..e]).to_string()
        } else {
            let st = self.p;
            while self.p < self.s.len() && is_id(self.s[self.p]) {
                self.p += 1;
            }
            std::str::from_utf8(&self.s[st..self.p]).unwrap().to_string()
        }
    }
    fn peek(&mut self) -> &Tok {
        if self.peeked.is_none() {
            let t = self.lex();
            self.peeked = Some(t);
        }
        self.peeked.as_ref().unwrap()
    }
    fn next(&mut self) -> Tok {
        if let Some(t) = self.peeked.take() {
            return t;
        }
        self.lex()
    }
    fn eat(&mut self, c: u8) -> bool {
        if *self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("expected {:?} got {:?} in {}", c as char, t, String::from_utf8_lossy(&self.s[..self.s.len().min(400)]));
        }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if let Tok::Word(x) = self.peek() {
            if x == w {
                self.next();
                return true;
            }
        }
        false
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::Eol => panic!("eol in parens"),
                _ => {}
            }
        }
    }
    /// skip parameter / return attributes
    fn skip_attrs(&mut self) {
        loop {
            match self.peek().clone() {
                Tok::Word(w) => {
                    if is_value_word(&w) || is_type_word(&w) {
                        return;
                    }
                    self.next();
                    if w == "align" {
                        if let Tok::Int(_) = self.peek() {
                            self.next();
                            continue;
                        }
                    }
                    if *self.peek() == Tok::P(b'(') {
                        self.skip_parens();
                    }
                }
                Tok::Attr => {
                    self.next();
                }
                Tok::Str(_) => {
                    self.next();
                    if self.eat(b'=') {
                        self.next();
                    }
                }
                _ => return,
            }
        }
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "add" | "sub" | "mul" | "xor" | "blockaddress" | "asm" | "select" | "icmp" | "splat"
    )
}
fn is_type_word(w: &str) -> bool {
    if matches!(w, "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128") {
        return true;
    }
    w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit())
}

struct FnCtx {
    regs: FxHashMap<String, u32>,
    blocks: FxHashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&self, n: &str) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("no block {}", n))
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read ll");
        let mut m = Module {
            text: Rc::new(text),
            tys: vec![],
            tymap: Default::default(),
            fn_off: Default::default(),
            glob_off: Default::default(),
            named_ty: Default::default(),
            named_cache: Default::default(),
            fn_ids: Default::default(),
            fn_names: vec![],
            funcs: Default::default(),
            glob_addr: Default::default(),
            globals: vec![],
            glob_next: GLOB_BASE,
            aliases: Default::default(),
        };
        m.ty(TyK::Void);
        m.index();
        m
    }
    fn index(&mut self) {
        let text = self.text.clone();
        let s = &text[..];
        let mut p = 0;
        while p < s.len() {
            let c = s[p];
            if c == b'@' {
                let mut lx = Lex::new(&s[p..]);
                if let Tok::Glob(n) = lx.next() {
                    self.glob_off.insert(n, p);
                }
            } else if c == b'd' && s[p..].starts_with(b"define ") {
                // find '@'
                let mut q = p;
                while s[q] != b'@' {
                    q += 1;
                }
                let mut lx = Lex::new(&s[q..]);
                if let Tok::Glob(n) = lx.next() {
                    self.fn_off.insert(n, p);
                }
                // skip to closing "\n}\n"
                loop {
                    match memchr(b'\n', &s[q..]) {
                        Some(o) => {
                            q += o + 1;
                            if q < s.len() && s[q] == b'}' {
                                break;
                            }
                        }
                        None => break,
                    }
                }
                p = q;
            } else if c == b'%' {
                let mut lx = Lex::new(&s[p..]);
                if let Tok::Local(n) = lx.next() {
                    self.named_ty.insert(n, p);
                }
            }
            match memchr(b'\n', &s[p..]) {
                Some(o) => p += o + 1,
                None => break,
            }
        }
    }
    pub fn has_fn(&self, n: &str) -> bool {
        self.fn_off.contains_key(n)
    }
    pub fn ty(&mut self, k: TyK) -> Ty {
        if let Some(&t) = self.tymap.get(&k) {
            return t;
        }
        let t = self.tys.len() as Ty;
        self.tys.push(k.clone());
        self.tymap.insert(k, t);
        t
    }
    pub fn k(&self, t: Ty) -> &TyK {
        &self.tys[t as usize]
    }
    pub fn bits(&self, t: Ty) -> u32 {
        match self.k(t) {
            TyK::Int(n) => *n,
            TyK::Ptr => 64,
            TyK::F32 => 32,
            TyK::F64 => 64,
            k => panic!("bits of {:?}", k),
        }
    }
    pub fn align(&self, t: Ty) -> u64 {
        match self.k(t) {
            TyK::Int(n) => ((*n as u64 + 7) / 8).next_power_of_two().min(16),
            TyK::Ptr | TyK::F64 => 8,
            TyK::F32 => 4,
            TyK::Arr(_, e) => self.align(*e),
            TyK::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|x| self.align(*x)).max().unwrap_or(1)
                }
            }
            TyK::Vect(_, _) => self.size(t).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn size(&self, t: Ty) -> u64 {
        match self.k(t) {
            TyK::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                let a = self.align(t);
                (b + a - 1) / a * a
            }
            TyK::Ptr | TyK::F64 => 8,
            TyK::F32 => 4,
            TyK::Arr(n, e) => n * self.size(*e),
            TyK::Struct(..) => self.struct_off(t, usize::MAX),
            TyK::Vect(n, e) => {
                let b = match self.k(*e) {
                    TyK::Int(x) => *x,
                    TyK::F32 => 32,
                    _ => 64,
                };
                (*n as u64 * b as u64 + 7) / 8
            }
            TyK::Void => 0,
            k => panic!("size of {:?}", k),
        }
    }
    /// offset of field i; usize::MAX = total size
    pub fn struct_off(&self, t: Ty, i: usize) -> u64 {
        if let TyK::Struct(f, packed) = self.k(t) {
            let mut o = 0u64;
            for (j, x) in f.iter().enumerate() {
                let a = if *packed { 1 } else { self.align(*x) };
                o = (o + a - 1) / a * a;
                if j == i {
                    return o;
                }
                o += self.size(*x);
            }
            let a = self.align(t);
            (o + a - 1) / a * a
        } else {
            panic!("not a struct")
        }
    }

    fn ptype(&mut self, lx: &mut Lex) -> Ty {
        let t = lx.next();
        let base = match t {
            Tok::Word(w) => match w.as_str() {
                "void" => self.ty(TyK::Void),
                "ptr" => {
                    let t = self.ty(TyK::Ptr);
                    if lx.eat_word("addrspace") {
                        lx.skip_parens();
                    }
                    t
                }
                "float" => self.ty(TyK::F32),
                "double" => self.ty(TyK::F64),
                "label" => self.ty(TyK::Label),
                "metadata" => self.ty(TyK::Meta),
                w if w.starts_with('i') && is_type_word(w) => {
                    let n = w[1..].parse().unwrap();
                    self.ty(TyK::Int(n))
                }
                w => self.ty(TyK::Other(w.to_string())),
            },
            Tok::P(b'[') => {
                let n = match lx.next() {
                    Tok::Int(s) => s.parse().unwrap(),
                    x => panic!("arr {:?}", x),
                };
                lx.next(); // x
                let e = self.ptype(lx);
                lx.expect(b']');
                self.ty(TyK::Arr(n, e))
            }
            Tok::P(b'{') => {
                let mut f = vec![];
                while !lx.eat(b'}') {
                    f.push(self.ptype(lx));
                    lx.eat(b',');
                }
                self.ty(TyK::Struct(f, false))
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let mut f = vec![];
                    while !lx.eat(b'}') {
                        f.push(self.ptype(lx));
                        lx.eat(b',');
                    }
                    lx.expect(b'>');
                    self.ty(TyK::Struct(f, true))
                } else {
                    let n = match lx.next() {
                        Tok::Int(s) => s.parse().unwrap(),
                        x => panic!("vec {:?}", x),
                    };
                    lx.next();
                    let e = self.ptype(lx);
                    lx.expect(b'>');
                    self.ty(TyK::Vect(n, e))
                }
            }
            Tok::Local(n) => {
                if let Some(&t) = self.named_cache.get(&n) {
                    t
                } else {
                    let off = self.named_ty[&n];
                    let text = self.text.clone();
                    let mut l2 = Lex::new(&text[off..]);
                    l2.next();
                    l2.expect(b'=');
                    l2.eat_word("type");
                    let t = self.ptype(&mut l2);
                    self.named_cache.insert(n, t);
                    t
                }
            }
            x => panic!("type? {:?} in {}", x, String::from_utf8_lossy(&lx.s[..lx.s.len().min(300)])),
        };
        // function type suffix e.g. "void (ptr, ...)" in calls: handled by the caller
        base
    }

    pub fn zero(&self, t: Ty) -> V {
        match self.k(t) {
            TyK::Arr(n, e) => {
                let z = self.zero(*e);
                V::A((0..*n).map(|_| z.clone()).collect())
            }
            TyK::Struct(f, _) => V::A(f.iter().map(|x| self.zero(*x)).collect()),
            TyK::Vect(n, e) => {
                let z = self.zero(*e);
                V::A((0..*n).map(|_| z.clone()).collect())
            }
            _ => V::C(0),
        }
    }

    pub fn fn_ref(&mut self, n: &str) -> Rc<FnRef> {
        if let Some(r) = self.fn_ids.get(n) {
            return r.clone();
        }
        let id = self.fn_names.len() as u32;
        let r = Rc::new(FnRef { name: n.to_string(), id });
        self.fn_ids.insert(n.to_string(), r.clone());
        self.fn_names.push(r.clone());
        r
    }
    pub fn fn_addr(id: u32) -> u64 {
        FN_BASE + id as u64 * 16
    }

    pub fn sym_addr(&mut self, n: &str) -> u64 {
        if self.fn_off.contains_key(n) {
            let r = self.fn_ref(n);
            return Module::fn_addr(r.id);
        }
        if let Some(&a) = self.glob_addr.get(n) {
            return a;
        }
        let off = match self.glob_off.get(n) {
            Some(&o) => o,
            None => {
                // declared function
                let r = self.fn_ref(n);
                return Module::fn_addr(r.id);
            }
        };
        let text = self.text.clone();
        let line_end = off + memchr(b'\n', &text[off..]).unwrap_or(text.len() - off);
        let mut lx = Lex::new(&text[off..line_end]);
        lx.next();
        lx.expect(b'=');
        let mut writable = true;
        let mut external = false;
        loop {
            match lx.peek().clone() {
                Tok::Word(w) if w == "global" => {
                    lx.next();
                    break;
                }
                Tok::Word(w) if w == "constant" => {
                    lx.next();
                    writable = false;
                    break;
                }
                Tok::Word(w) if w == "alias" => {
                    lx.next();
                    let _ = self.ptype(&mut lx);
                    lx.expect(b',');
                    let t = self.ptype(&mut lx);
                    let v = self.cval(&mut lx, t);
                    let a = match v {
                        V::C(a) => a as u64,
                        _ => panic!(),
                    };
                    self.glob_addr.insert(n.to_string(), a);
                    return a;
                }
                Tok::Word(w) => {
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                    lx.next();
                    if *lx.peek() == Tok::P(b'(') {
                        lx.skip_parens();
                    }
                }
                x => panic!("global {:?}", x),
            }
        }
        let t = self.ptype(&mut lx);
        let size = self.size(t);
        let al = 16;
        let addr = (self.glob_next + al - 1) / al * al;
        self.glob_next = addr + size.max(1) + 32;
        self.glob_addr.insert(n.to_string(), addr);
        let mut data = vec![0u8; size as usize];
        if !external && *lx.peek() != Tok::Eol && *lx.peek() != Tok::P(b',') {
            let v = self.cval(&mut lx, t);
            self.flatten(&v, t, 0, &mut data);
        }
        let g = Rc::new(Global {
            addr,
            size,
            data,
            writable,
            name: n.to_string(),
        });
        let pos = self.globals.partition_point(|x| x.addr < addr);
        self.globals.insert(pos, g);
        addr
    }
    fn flatten(&self, v: &V, t: Ty, off: usize, out: &mut [u8]) {
        match (v, self.k(t)) {
            (V::A(xs), TyK::Arr(_, e)) => {
                let s = self.size(*e) as usize;
                for (i, x) in xs.iter().enumerate() {
                    self.flatten(x, *e, off + i * s, out);
                }
            }
            (V::A(xs), TyK::Vect(_, e)) => {
                let s = self.size(*e) as usize;
                for (i, x) in xs.iter().enumerate() {
                    self.flatten(x, *e, off + i * s, out);
                }
            }
            (V::A(xs), TyK::Struct(f, _)) => {
                for (i, x) in xs.iter().enumerate() {
                    let o = self.struct_off(t, i) as usize;
                    self.flatten(x, f[i], off + o, out);
                }
            }
            (V::C(c), _) => {
                let s = self.size(t) as usize;
                let b = c.to_le_bytes();
                for i in 0..s {
                    out[off + i] = if i < 16 { b[i] } else { 0 };
                }
            }
            _ => panic!("flatten"),
        }
    }

    /// constant value (no locals)
    fn cval(&mut self, lx: &mut Lex, t: Ty) -> V {
        let mut dummy = FnCtx {
            regs: Default::default(),
            blocks: Default::default(),
        };
        match self.val(lx, t, &mut dummy) {
            Op::K(v) => v,
            _ => panic!("non-const"),
        }
    }
    fn val(&mut self, lx: &mut Lex, t: Ty, cx: &mut FnCtx) -> Op {
        let tok = lx.next();
        match tok {
            Tok::Local(n) => Op::Reg(cx.reg(&n)),
            Tok::Glob(n) => Op::K(V::C(self.sym_addr(&n) as u128)),
            Tok::Int(s) => {
                let k = self.k(t).clone();
                match k {
                    TyK::F64 | TyK::F32 => {
                        let v: f64 = if let Some(h) = s.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0))
                        } else {
                            s.parse().unwrap()
                        };
                        Op::K(V::C(if k == TyK::F32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }))
                    }
                    TyK::Int(w) => {
                        let v = if let Some(m) = s.strip_prefix('-') {
                            0u128.wrapping_sub(m.parse::<u128>().unwrap())
                        } else {
                            s.parse::<u128>().unwrap_or(0)
                        };
                        Op::K(V::C(v & crate::term::mask(w.min(128) as u8)))
                    }
                    k => panic!("int const of {:?}", k),
                }
            }
            Tok::Str(b) => Op::K(V::A(b.iter().map(|x| V::C(*x as u128)).collect())),
            Tok::P(b'[') | Tok::P(b'{') => {
                let close = if tok == Tok::P(b'[') { b']' } else { b'}' };
                let mut xs = vec![];
                while !lx.eat(close) {
                    let et = self.ptype(lx);
                    match self.val(lx, et, cx) {
                        Op::K(v) => xs.push(v),
                        _ => panic!("agg"),
                    }
                    lx.eat(b',');
                }
                Op::K(V::A(xs.into()))
            }
            Tok::P(b'<') => {
                let packed = lx.eat(b'{');
                let mut xs = vec![];
                let close = if packed { b'}' } else { b'>' };
                while !lx.eat(close) {
                    let et = self.ptype(lx);
                    match self.val(lx, et, cx) {
                        Op::K(v) => xs.push(v),
                        _ => panic!("agg"),
                    }
                    lx.eat(b',');
                }
                if packed {
                    lx.expect(b'>');
                }
                Op::K(V::A(xs.into()))
            }
            Tok::Word(w) => match w.as_str() {
                "null" | "false" | "none" => Op::K(self.zero(t)),
                "true" => Op::K(V::C(1)),
                "undef" | "poison" | "zeroinitializer" => Op::K(self.zero(t)),
                "splat" => {
                    lx.expect(b'(');
                    let et = self.ptype(lx);
                    let v = self.val(lx, et, cx);
                    lx.expect(b')');
                    match (self.k(t).clone(), v) {
                        (TyK::Vect(n, _), Op::K(v)) => Op::K(V::A((0..n).map(|_| v.clone()).collect())),
                        _ => panic!("splat"),
                    }
                }
                "getelementptr" => {
                    while let Tok::Word(w) = lx.peek().clone() {
                        if is_type_word(&w) {
                            break;
                        }
                        lx.next();
                        if *lx.peek() == Tok::P(b'(') && w == "inrange" {
                            lx.skip_parens();
                        }
                    }
                    lx.expect(b'(');
                    let et = self.ptype(lx);
                    lx.expect(b',');
                    let bt = self.ptype(lx);
                    let b = self.val(lx, bt, cx);
                    let mut idx = vec![];
                    while lx.eat(b',') {
                        let it = self.ptype(lx);
                        idx.push((it, self.val(lx, it, cx)));
                    }
                    lx.expect(b')');
                    let (cst, dynv) = self.gep(et, &idx);
                    assert!(dynv.is_empty());
                    match b {
                        Op::K(V::C(a)) => Op::K(V::C((a as u64).wrapping_add(cst as u64) as u128)),
                        _ => panic!("cgep"),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" => {
                    lx.expect(b'(');
                    let ft = self.ptype(lx);
                    let v = self.val(lx, ft, cx);
                    lx.eat_word("to");
                    let tt = self.ptype(lx);
                    lx.expect(b')');
                    match v {
                        Op::K(V::C(a)) => {
                            let w = self.bits(tt);
                            Op::K(V::C(a & crate::term::mask(w as u8)))
                        }
                        v => v,
                    }
                }
                "add" | "sub" | "mul" | "xor" => {
                    while let Tok::Word(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect(b'(');
                    let at = self.ptype(lx);
                    let a = self.val(lx, at, cx);
                    lx.expect(b',');
                    let bt = self.ptype(lx);
                    let b = self.val(lx, bt, cx);
                    lx.expect(b')');
                    match (a, b) {
                        (Op::K(V::C(a)), Op::K(V::C(b))) => {
                            let m = crate::term::mask(self.bits(at) as u8);
                            let r = match w.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                "mul" => a.wrapping_mul(b),
                                _ => a ^ b,
                            };
                            Op::K(V::C(r & m))
                        }
                        _ => panic!("cexpr"),
                    }
                }
                "dso_local_equivalent" | "no_cfi" => self.val(lx, t, cx),
                w => panic!("value word {} in {}", w, String::from_utf8_lossy(&lx.s[..lx.s.len().min(300)])),
            },
            x => panic!("value {:?} in {}", x, String::from_utf8_lossy(&lx.s[..lx.s.len().min(300)])),
        }
    }
    fn gep(&mut self, et: Ty, idx: &[(Ty, Op)]) -> (i64, Vec<(Op, Ty, i64)>) {
        let mut cst = 0i64;
        let mut dynv = vec![];
        let mut cur = et;
        for (i, (it, op)) in idx.iter().enumerate() {
            let scale: i64;
            if i == 0 {
                scale = self.size(et) as i64;
            } else {
                match self.k(cur).clone() {
                    TyK::Struct(f, _) => {
                        if let Op::K(V::C(c)) = op {
                            cst += self.struct_off(cur, *c as usize) as i64;
                            cur = f[*c as usize];
                            continue;
                        }
                        panic!("gep struct dyn")
                    }
                    TyK::Arr(_, e) | TyK::Vect(_, e) => {
                        scale = self.size(e) as i64;
                        cur = e;
                    }
                    k => panic!("gep into {:?}", k),
                }
            }
            match op {
                Op::K(V::C(c)) => {
                    let w = self.bits(*it) as u8;
                    cst = cst.wrapping_add((crate::term::sx(*c, w) as i64).wrapping_mul(scale));
                }
                o => dynv.push((o.clone(), *it, scale)),
            }
        }
        (cst, dynv)
    }

    pub fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.get(&id) {
            return Some(f.clone());
        }
        let name = self.fn_names[id as usize].name.clone();
        let off = *self.fn_off.get(&name)?;
        let f = Rc::new(self.parse_fn(&name, id, off));
        self.funcs.insert(id, f.clone());
        Some(f)
    }

    fn parse_fn(&mut self, name: &str, id: u32, off: usize) -> Func {
        let text = self.text.clone();
        let s = &text[off..];
        let hdr_end = memchr(b'\n', s).unwrap();
        let mut cx = FnCtx {
            regs: Default::default(),
            blocks: Default::default(),
        };
        let mut params = vec![];
        {
            let mut lx = Lex::new(&s[..hdr_end]);
            loop {
                if let Tok::Glob(_) = lx.next() {
                    break;
                }
            }
            lx.expect(b'(');
            let mut unnamed = 0;
            while !lx.eat(b')') {
                if *lx.peek() == Tok::Ellipsis {
                    lx.next();
                    continue;
                }
                let _t = self.ptype(&mut lx);
                lx.skip_attrs();
                match lx.peek().clone() {
                    Tok::Local(n) => {
                        lx.next();
                        params.push(cx.reg(&n));
                    }
                    _ => {
                        params.push(cx.reg(&format!("{}", unnamed)));
                    }
                }
                unnamed += 1;
                lx.eat(b',');
            }
        }
        // body lines
        let mut end = hdr_end + 1;
        loop {
            if s[end] == b'}' {
                break;
            }
            end += memchr(b'\n', &s[end..]).unwrap() + 1;
        }
        let body = &s[hdr_end + 1..end];
        // join lines into logical instructions: split on newline; switch spans multiple lines (until ']')
        let mut lines: Vec<&[u8]> = vec![];
        let mut p = 0;
        while p < body.len() {
            let e = p + memchr(b'\n', &body[p..]).unwrap_or(body.len() - p);
            let mut le = e;
            let line = &body[p..e];
            let tl = trim(line);
            if tl.starts_with(b"switch ") && !tl.contains(&b']') {
                // extend to line with ']'
                loop {
                    let ne = le + 1 + memchr(b'\n', &body[le + 1..]).unwrap();
                    let l2 = trim(&body[le + 1..ne]);
                    le = ne;
                    if l2.starts_with(b"]") {
                        break;
                    }
                }
            } else if (contains(tl, b"invoke ") && !contains(tl, b" unwind label")) || (contains(tl, b"= landingpad") || tl.starts_with(b"landingpad")) {
                // invoke's "to label .. unwind label" is on the next line; landingpad clauses too
                loop {
                    if le + 1 >= body.len() {
                        break;
                    }
                    let ne = le + 1 + memchr(b'\n', &body[le + 1..]).unwrap();
                    let l2 = trim(&body[le + 1..ne]);
                    if l2.starts_with(b"to label") || l2.starts_with(b"cleanup") || l2.starts_with(b"catch") || l2.starts_with(b"filter") {
                        le = ne;
                    } else {
                        break;
                    }
                }
            }
            lines.push(&body[p..le]);
            p = le + 1;
        }
        // first pass: block labels
        let mut nblk = 0u32;
        let mut first_inst = true;
        for l in &lines {
            let t = trim(l);
            if t.is_empty() || t[0] == b';' {
                continue;
            }
            if !l.starts_with(b" ") && !l.starts_with(b"\t") {
                // label
                let n = label_name(t);
                cx.blocks.insert(n, nblk);
                nblk += 1;
                first_inst = false;
            } else if first_inst {
                // implicit entry: label number = number of params
                cx.blocks.insert(format!("{}", params.len()), 0);
                nblk = 1;
                first_inst = false;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut frame = 0u64;
        let mut started = false;
        for l in &lines {
            let t = trim(l);
            if t.is_empty() || t[0] == b';' {
                continue;
            }
            if !l.starts_with(b" ") && !l.starts_with(b"\t") {
                blocks.push(Block { phis: vec![], insts: vec![] });
                started = true;
                continue;
            }
            if !started {
                blocks.push(Block { phis: vec![], insts: vec![] });
                started = true;
            }
            if t.starts_with(b"#dbg") {
                continue;
            }
            let b = blocks.len() - 1;
            let mut phi = None;
            let inst = self.parse_inst(t, &mut cx, &mut frame, b == 0, &mut phi);
            if let Some(p) = phi {
                blocks[b].phis.push(p);
            } else {
                match inst {
                    I::Nop => {}
                    i => blocks[b].insts.push(i),
                }
            }
        }
        Func {
            name: name.to_string(),
            id,
            params,
            nregs: cx.regs.len(),
            frame_size: frame,
            blocks,
        }
    }

    fn parse_inst(&mut self, line: &[u8], cx: &mut FnCtx, frame: &mut u64, entry: bool, phi: &mut Option<(u32, Ty, Vec<(Op, u32)>)>) -> I {
        let mut lx = Lex::new(line);
        let mut dst = u32::MAX;
        let mut tok = lx.next();
        if let Tok::Local(n) = &tok {
            dst = cx.reg(n);
            lx.expect(b'=');
            tok = lx.next();
        }
        let w = match tok {
            Tok::Word(w) => w,
            x => panic!("inst {:?} {}", x, String::from_utf8_lossy(line)),
        };
        let flags = |lx: &mut Lex| loop {
            match lx.peek() {
                Tok::Word(w) if !is_type_word(w) => {
                    lx.next();
                }
                _ => break,
            }
        };
        match w.as_str() {
            "alloca" => {
                lx.eat_word("inalloca");
                let t = self.ptype(&mut lx);
                let mut count: Option<Op> = None;
                let mut al = self.align(t).max(1);
                while lx.eat(b',') {
                    if lx.eat_word("align") {
                        if let Tok::Int(s) = lx.next() {
                            al = s.parse().unwrap();
                        }
                    } else if let Tok::Meta = lx.peek() {
                        lx.next();
                    } else {
                        let ct = self.ptype(&mut lx);
                        count = Some(self.val(&mut lx, ct, cx));
                    }
                }
                let n = match count {
                    None => 1,
                    Some(Op::K(V::C(n))) => n as u64,
                    Some(o) => return I::AllocaDyn(dst, t, o),
                };
                if !entry {
                    return I::AllocaDyn(dst, t, Op::K(V::C(n as u128)));
                }
                let o = (*frame + al - 1) / al * al;
                *frame = o + self.size(t) * n;
                I::Alloca(dst, o)
            }
            "load" => {
                while lx.eat_word("atomic") || lx.eat_word("volatile") {}
                let t = self.ptype(&mut lx);
                lx.expect(b',');
                let pt = self.ptype(&mut lx);
                let p = self.val(&mut lx, pt, cx);
                I::Load(dst, t, p)
            }
            "store" => {
                while lx.eat_word("atomic") || lx.eat_word("volatile") {}
                let t = self.ptype(&mut lx);
                let v = self.val(&mut lx, t, cx);
                lx.expect(b',');
                let pt = self.ptype(&mut lx);
                let p = self.val(&mut lx, pt, cx);
                I::Store(t, v, p)
            }
            "getelementptr" => {
                flags(&mut lx);
                let et = self.ptype(&mut lx);
                lx.expect(b',');
                let bt = self.ptype(&mut lx);
                if let TyK::Vect(..) = self.k(bt) {
                    return I::Unsupported("vector gep".into());
                }
                let b = self.val(&mut lx, bt, cx);
                let mut idx = vec![];
                while lx.eat(b',') {
                    if let Tok::Meta = lx.peek() {
                        break;
                    }
                    let it = self.ptype(&mut lx);
                    idx.push((it, self.val(&mut lx, it, cx)));
                }
                let (cst, dynv) = self.gep(et, &idx);
                I::Gep(dst, b, cst, dynv)
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags(&mut lx);
                let t = self.ptype(&mut lx);
                let a = self.val(&mut lx, t, cx);
                lx.expect(b',');
                let b = self.val(&mut lx, t, cx);
                let o = match w.as_str() {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "fadd" => Bin::FAdd,
                    "fsub" => Bin::FSub,
                    "fmul" => Bin::FMul,
                    "fdiv" => Bin::FDiv,
                    _ => Bin::FRem,
                };
                I::Bin(dst, o, t, a, b)
            }
            "fneg" => {
                flags(&mut lx);
                let t = self.ptype(&mut lx);
                let a = self.val(&mut lx, t, cx);
                I::FNeg(dst, t, a)
            }
            "icmp" => {
                lx.eat_word("samesign");
                let p = match lx.next() {
                    Tok::Word(p) => p,
                    _ => panic!(),
                };
                let t = self.ptype(&mut lx);
                let a = self.val(&mut lx, t, cx);
                lx.expect(b',');
                let b = self.val(&mut lx, t, cx);
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("pred {}", x),
                };
                I::Icmp(dst, p, t, a, b)
            }
            "fcmp" => {
                let mut p = String::new();
                loop {
                    match lx.peek().clone() {
                        Tok::Word(x) if !is_type_word(&x) => {
                            p = x;
                            lx.next();
                        }
                        _ => break,
                    }
                }
                let t = self.ptype(&mut lx);
                let a = self.val(&mut lx, t, cx);
                lx.expect(b',');
                let b = self.val(&mut lx, t, cx);
                I::Fcmp(dst, p, t, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                flags(&mut lx);
                let f = self.ptype(&mut lx);
                let v = self.val(&mut lx, f, cx);
                lx.eat_word("to");
                let t = self.ptype(&mut lx);
                let c = match w.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    "bitcast" => Cast::BitCast,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "fpext" => Cast::FpExt,
                    _ => Cast::FpTrunc,
                };
                I::Cast(dst, c, f, t, v)
            }
            "freeze" => {
                let t = self.ptype(&mut lx);
                let v = self.val(&mut lx, t, cx);
                I::Copy(dst, v)
            }
            "select" => {
                flags(&mut lx);
                let ct = self.ptype(&mut lx);
                let c = self.val(&mut lx, ct, cx);
                lx.expect(b',');
                let t = self.ptype(&mut lx);
                let a = self.val(&mut lx, t, cx);
                lx.expect(b',');
                let t2 = self.ptype(&mut lx);
                let b = self.val(&mut lx, t2, cx);
                I::Select(dst, ct, t, c, a, b)
            }
            "phi" => {
                flags(&mut lx);
                let t = self.ptype(&mut lx);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let v = self.val(&mut lx, t, cx);
                    lx.expect(b',');
                    let b = match lx.next() {
                        Tok::Local(n) => cx.blk(&n),
                        x => panic!("phi {:?}", x),
                    };
                    lx.expect(b']');
                    inc.push((v, b));
                    if !lx.eat(b',') {
                        break;
                    }
                    if let Tok::Meta = lx.peek() {
                        break;
                    }
                }
                *phi = Some((dst, t, inc));
                I::Nop
            }
            "extractvalue" => {
                let t = self.ptype(&mut lx);
                let a = self.val(&mut lx, t, cx);
                let mut idx = vec![];
                while lx.eat(b',') {
                    match lx.next() {
                        Tok::Int(s) => idx.push(s.parse().unwrap()),
                        _ => break,
                    }
                }
                I::ExtractValue(dst, a, idx)
            }
            "insertvalue" => {
                let t = self.ptype(&mut lx);
                let a = self.val(&mut lx, t, cx);
                lx.expect(b',');
                let vt = self.ptype(&mut lx);
                let v = self.val(&mut lx, vt, cx);
                let mut idx = vec![];
                while lx.eat(b',') {
                    match lx.next() {
                        Tok::Int(s) => idx.push(s.parse().unwrap()),
                        _ => break,
                    }
                }
                I::InsertValue(dst, a, v, idx)
            }
            "extractelement" => {
                let t = self.ptype(&mut lx);
                let a = self.val(&mut lx, t, cx);
                lx.expect(b',');
                let it = self.ptype(&mut lx);
                let i = self.val(&mut lx, it, cx);
                I::ExtractElement(dst, a, i)
            }
            "insertelement" => {
                let t = self.ptype(&mut lx);
                let a = self.val(&mut lx, t, cx);
                lx.expect(b',');
                let vt = self.ptype(&mut lx);
                let v = self.val(&mut lx, vt, cx);
                lx.expect(b',');
                let it = self.ptype(&mut lx);
                let i = self.val(&mut lx, it, cx);
                I::InsertElement(dst, a, v, i)
            }
            "shufflevector" => {
                let t = self.ptype(&mut lx);
                let a = self.val(&mut lx, t, cx);
                lx.expect(b',');
                let t2 = self.ptype(&mut lx);
                let b = self.val(&mut lx, t2, cx);
                lx.expect(b',');
                let mt = self.ptype(&mut lx);
                let m = self.cval(&mut lx, mt);
                let mv = match m {
                    V::A(xs) => xs
                        .iter()
                        .map(|x| match x {
                            V::C(c) => *c as i32,
                            _ => 0,
                        })
                        .collect(),
                    _ => vec![],
                };
                I::Shuffle(dst, a, b, mv)
            }
            "br" => {
                let t = self.ptype(&mut lx);
                if *self.k(t) == TyK::Label {
                    match lx.next() {
                        Tok::Local(n) => I::Br(cx.blk(&n)),
                        x => panic!("br {:?}", x),
                    }
                } else {
                    let c = self.val(&mut lx, t, cx);
                    lx.expect(b',');
                    lx.next();
                    let a = match lx.next() {
                        Tok::Local(n) => cx.blk(&n),
                        x => panic!("br {:?}", x),
                    };
                    lx.expect(b',');
                    lx.next();
                    let b = match lx.next() {
                        Tok::Local(n) => cx.blk(&n),
                        x => panic!("br {:?}", x),
                    };
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ptype(&mut lx);
                let v = self.val(&mut lx, t, cx);
                lx.expect(b',');
                lx.next();
                let d = match lx.next() {
                    Tok::Local(n) => cx.blk(&n),
                    x => panic!("switch {:?}", x),
                };
                lx.expect(b'[');
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let ct = self.ptype(&mut lx);
                    let c = match self.cval(&mut lx, ct) {
                        V::C(c) => c,
                        _ => panic!(),
                    };
                    lx.expect(b',');
                    lx.next();
                    let b = match lx.next() {
                        Tok::Local(n) => cx.blk(&n),
                        x => panic!("switch {:?}", x),
                    };
                    cases.push((c, b));
                }
                I::Switch(t, v, d, cases)
            }
            "ret" => {
                let t = self.ptype(&mut lx);
                if *self.k(t) == TyK::Void {
                    I::Ret(None)
                } else {
                    let v = self.val(&mut lx, t, cx);
                    I::Ret(Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            "fence" => I::Nop,
            "resume" => I::Unreachable,
            "landingpad" => I::Unsupported("landingpad".into()),
            "cmpxchg" => {
                while lx.eat_word("weak") || lx.eat_word("volatile") {}
                let pt = self.ptype(&mut lx);
                let p = self.val(&mut lx, pt, cx);
                lx.expect(b',');
                let t = self.ptype(&mut lx);
                let c = self.val(&mut lx, t, cx);
                lx.expect(b',');
                let t2 = self.ptype(&mut lx);
                let n = self.val(&mut lx, t2, cx);
                I::CmpXchg(dst, t, p, c, n)
            }
            "atomicrmw" => {
                lx.eat_word("volatile");
                let op = match lx.next() {
                    Tok::Word(w) => w,
                    _ => panic!(),
                };
                let pt = self.ptype(&mut lx);
                let p = self.val(&mut lx, pt, cx);
                lx.expect(b',');
                let t = self.ptype(&mut lx);
                let v = self.val(&mut lx, t, cx);
                I::AtomicRmw(dst, op, t, p, v)
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if w == "tail" || w == "musttail" || w == "notail" {
                    lx.next();
                }
                // cc, ret attrs
                lx.skip_attrs();
                let rt = self.ptype(&mut lx);
                // optional function type: "(ptr, ...)" before callee
                if *lx.peek() == Tok::P(b'(') {
                    lx.skip_parens();
                }
                let callee = match lx.next() {
                    Tok::Glob(n) => {
                        if n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n == "llvm.assume" {
                            return I::Nop;
                        }
                        let is_ind = !self.fn_off.contains_key(&n) && self.glob_off.contains_key(&n);
                        if is_ind {
                            let a = self.sym_addr(&n);
                            Callee::Indirect(Op::K(V::C(a as u128)))
                        } else {
                            Callee::Direct(self.fn_ref(&n))
                        }
                    }
                    Tok::Local(n) => Callee::Indirect(Op::Reg(cx.reg(&n))),
                    Tok::Word(w) if w == "asm" => {
                        let mut txt = String::new();
                        loop {
                            match lx.next() {
                                Tok::Str(s) => txt.push_str(&String::from_utf8_lossy(&s)),
                                Tok::P(b'(') | Tok::Eol => break,
                                _ => {}
                            }
                        }
                        if txt.is_empty() || txt.starts_with("~{memory}") || txt.starts_with("r") || txt.starts_with(",") {
                            return I::Nop;
                        }
                        return I::Unsupported(format!("asm {}", txt));
                    }
                    x => panic!("callee {:?} {}", x, String::from_utf8_lossy(line)),
                };
                lx.expect(b'(');
                let mut args = vec![];
                while !lx.eat(b')') {
                    let t = self.ptype(&mut lx);
                    if *self.k(t) == TyK::Meta {
                        // skip metadata operand
                        loop {
                            match lx.peek() {
                                Tok::P(b',') | Tok::P(b')') => break,
                                _ => {
                                    lx.next();
                                }
                            }
                        }
                        lx.eat(b',');
                        continue;
                    }
                    lx.skip_attrs();
                    let v = self.val(&mut lx, t, cx);
                    args.push((t, v));
                    lx.eat(b',');
                }
                let mut normal = u32::MAX;
                if w == "invoke" {
                    loop {
                        match lx.next() {
                            Tok::Word(x) if x == "to" => {
                                lx.next();
                                if let Tok::Local(n) = lx.next() {
                                    normal = cx.blk(&n);
                                }
                                break;
                            }
                            Tok::Eol => panic!("invoke without to: {}", String::from_utf8_lossy(line)),
                            _ => {}
                        }
                    }
                }
                I::Call(dst, rt, callee, args, normal)
            }
            x => I::Unsupported(x.to_string()),
        }
    }
}

fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && (s[0] == b' ' || s[0] == b'\t') {
        s = &s[1..];
    }
    s
}
fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}
fn label_name(t: &[u8]) -> String {
    if t[0] == b'"' {
        let e = 1 + memchr(b'"', &t[1..]).unwrap();
        String::from_utf8_lossy(&t[1..e]).to_string()
    } else {
        let e = memchr(b':', t).unwrap();
        String::from_utf8_lossy(&t[..e]).to_string()
    }
}
pub fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|x| *x == c)
}
