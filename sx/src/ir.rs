//! In-memory form of the LLVM module and the parser for its textual form.

use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float,
    Double,
    Array(u64, TyId),
    Vector(u32, TyId),
    Struct(Vec<TyId>, bool),
    Other,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub size: u64, // alloc size
    pub store: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Bytes(Vec<u8>),
    Agg(Vec<(TyId, Const)>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(crate::exec::Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast / ptrtoint / inttoptr of equal width
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: BinOp, ty: TyId, a: Opd, b: Opd },
    Icmp { p: Pred, ty: TyId, a: Opd, b: Opd },
    Fcmp { p: String, ty: TyId, a: Opd, b: Opd },
    Cast { op: CastOp, from: TyId, to: TyId, a: Opd },
    Select { cty: TyId, ty: TyId, c: Opd, a: Opd, b: Opd },
    Load { ty: TyId, p: Opd, atomic: bool },
    Store { ty: TyId, v: Opd, p: Opd, atomic: bool },
    Gep { base: Opd, off: i64, idx: Vec<(Opd, u16, i64)> },
    Alloca { size: u64, n: Opd, nw: u16 },
    Call { ret: TyId, f: Callee, args: Vec<(TyId, Opd)> },
    ExtractValue { a: Opd, path: Vec<u32> },
    InsertValue { ty: TyId, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElement { ty: TyId, a: Opd, i: Opd },
    InsertElement { ty: TyId, a: Opd, v: Opd, i: Opd },
    Shuffle { ty: TyId, a: Opd, b: Opd, mask: Vec<i32> },
    Freeze { a: Opd },
    FNeg { ty: TyId, a: Opd },
    Fence,
    AtomicRmw { op: String, ty: TyId, p: Opd, v: Opd },
    CmpXchg { ty: TyId, p: Opd, c: Opd, n: Opd },
    // terminators
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { ty: TyId, v: Opd, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    /// call + branch to the normal destination
    Invoke { ret: TyId, f: Callee, args: Vec<(TyId, Opd)>, to: u32 },
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ptr(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32, // u32::MAX: none
    pub dbg: u32, // metadata number, 0: none
    pub k: Ins,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    /// (dst, ty, incoming (pred, value))
    pub phis: Vec<(u32, TyId, Vec<(u32, Opd)>)>,
    pub ins: Vec<Inst>,
    /// index into the global coverage table
    pub cov: u32,
}

#[derive(Debug, Default)]
pub struct Func {
    pub name: String,
    pub params: Vec<TyId>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ret: TyId,
    pub defined: bool,
    pub dbg: u32,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<Const>,
    pub constant: bool,
    pub tls: bool,
}

#[derive(Clone, Debug, Default)]
pub struct DbgNode {
    pub kind: u8, // 1 location, 2 subprogram, 3 other scope, 4 file
    pub scope: u32,
    pub inlined: u32,
    pub line: u32,
    pub file: u32,
    pub name: String,
    pub dir: String,
}

#[derive(Default)]
pub struct Module {
    pub types: Vec<Ty>,
    tmap: HashMap<Ty, TyId>,
    pub layouts: Vec<Option<Layout>>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub dbg: HashMap<u32, DbgNode>,
    pub nblocks: u32,
    pub gobjs: GObjs,
}

/// Object numbers (see `mem.rs`): 0 null page, 1 functions, then globals.
pub const OBJ_SHIFT: u32 = 40;
pub const FUNC_OBJ: u64 = 1;
pub const GLOBAL_BASE: u64 = 2;

pub fn func_addr(i: u32) -> u64 {
    (FUNC_OBJ << OBJ_SHIFT) + (i as u64) * 16
}
pub fn global_addr(i: u32) -> u64 {
    (GLOBAL_BASE + i as u64) << OBJ_SHIFT
}

// ------------------------------------------------------------------------------------------------

pub struct Lex<'a> {
    s: &'a [u8],
    p: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Meta(String),
    Str(Vec<u8>),
    P(char),
    Eof,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-' | b'+')
}

impl<'a> Lex<'a> {
    fn new(s: &'a [u8]) -> Self {
        Lex { s, p: 0 }
    }
    fn ws(&mut self) {
        while self.p < self.s.len() {
            match self.s[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.s.len() && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                _ => break,
            }
        }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at the opening quote
        self.p += 1;
        let mut out = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    out.push(b'\\');
                    self.p += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                self.p += 3;
            } else {
                out.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        out
    }
    fn word(&mut self) -> String {
        let st = self.p;
        while self.p < self.s.len() && is_word(self.s[self.p]) {
            self.p += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn next(&mut self) -> Tok {
        self.ws();
        if self.p >= self.s.len() {
            return Tok::Eof;
        }
        let c = self.s[self.p];
        match c {
            b'%' | b'@' => {
                self.p += 1;
                let n = if self.p < self.s.len() && self.s[self.p] == b'"' {
                    String::from_utf8_lossy(&self.quoted()).into_owned()
                } else {
                    self.word()
                };
                if c == b'%' {
                    Tok::Local(n)
                } else {
                    Tok::Global(n)
                }
            }
            b'!' => {
                self.p += 1;
                if self.p < self.s.len() && (is_word(self.s[self.p])) {
                    Tok::Meta(self.word())
                } else {
                    Tok::P('!')
                }
            }
            b'"' => Tok::Str(self.quoted()),
            c if is_word(c) => {
                let st = self.p;
                let w = self.word();
                if w == "c" && self.p < self.s.len() && self.s[self.p] == b'"' {
                    return Tok::Str(self.quoted());
                }
                let _ = st;
                Tok::Word(w)
            }
            c => {
                self.p += 1;
                Tok::P(c as char)
            }
        }
    }
    fn peek(&mut self) -> Tok {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    fn eat(&mut self, c: char) -> bool {
        self.ws();
        if self.p < self.s.len() && self.s[self.p] == c as u8 {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn peek_byte(&mut self) -> u8 {
        self.ws();
        self.s.get(self.p).copied().unwrap_or(0)
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            self.fail(&format!("expected {c}"));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let a = self.p.saturating_sub(200);
        let b = (self.p + 100).min(self.s.len());
        panic!(
            "parse error: {m} near: {} <<HERE>> {}",
            String::from_utf8_lossy(&self.s[a..self.p.min(self.s.len())]),
            String::from_utf8_lossy(&self.s[self.p.min(b)..b])
        );
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => self.fail("eof in parens"),
                _ => {}
            }
        }
    }
    fn is_word_next(&mut self, w: &str) -> bool {
        let p = self.p;
        if self.next() == Tok::Word(w.into()) {
            true
        } else {
            self.p = p;
            false
        }
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn block(&mut self, n: &str) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("unknown block {n}"))
    }
}

impl Module {
    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tmap.get(&t) {
            return i;
        }
        let i = self.types.len() as TyId;
        self.types.push(t.clone());
        self.layouts.push(None);
        self.tmap.insert(t, i);
        i
    }
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.types[t as usize]
    }
    pub fn lay(&self, t: TyId) -> &Layout {
        self.layouts[t as usize].as_ref().unwrap()
    }
    fn compute_layouts(&mut self) {
        for i in 0..self.types.len() {
            self.layout(i as TyId);
        }
    }
    pub fn layout(&mut self, t: TyId) -> Layout {
        if let Some(l) = &self.layouts[t as usize] {
            return l.clone();
        }
        let l = match self.types[t as usize].clone() {
            Ty::Int(w) => {
                let store = (w as u64).div_ceil(8);
                let align = store.next_power_of_two().min(16);
                Layout { size: store.div_ceil(align) * align, store, align, offs: vec![] }
            }
            Ty::Ptr | Ty::Double => Layout { size: 8, store: 8, align: 8, offs: vec![] },
            Ty::Float => Layout { size: 4, store: 4, align: 4, offs: vec![] },
            Ty::Array(n, e) => {
                let el = self.layout(e);
                Layout { size: n * el.size, store: n * el.size, align: el.align, offs: vec![] }
            }
            Ty::Vector(n, e) => {
                let bits = match self.types[e as usize] {
                    Ty::Int(w) => w as u64,
                    _ => self.layout(e).size * 8,
                };
                let store = (n as u64 * bits).div_ceil(8);
                let align = store.next_power_of_two();
                Layout { size: store.div_ceil(align) * align, store, align, offs: vec![] }
            }
            Ty::Struct(fs, packed) => {
                let (mut o, mut al) = (0u64, 1u64);
                let mut offs = vec![];
                for f in fs {
                    let l = self.layout(f);
                    let a = if packed { 1 } else { l.align };
                    o = o.div_ceil(a) * a;
                    offs.push(o);
                    o += l.size;
                    al = al.max(a);
                }
                let size = o.div_ceil(al) * al;
                Layout { size, store: size, align: al, offs }
            }
            Ty::Void | Ty::Other => Layout { size: 0, store: 0, align: 1, offs: vec![] },
        };
        self.layouts[t as usize] = Some(l.clone());
        l
    }

    fn is_type_start(lx: &mut Lex) -> bool {
        match lx.peek() {
            Tok::Word(w) => {
                matches!(
                    w.as_str(),
                    "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque"
                ) || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }

    fn parse_type(&mut self, lx: &mut Lex) -> TyId {
        let t = match lx.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => self.intern(Ty::Void),
                "ptr" => {
                    if lx.is_word_next("addrspace") {
                        lx.skip_parens();
                    }
                    self.intern(Ty::Ptr)
                }
                "float" => self.intern(Ty::Float),
                "double" => self.intern(Ty::Double),
                "half" | "bfloat" => self.intern(Ty::Int(16)),
                "fp128" | "x86_fp80" => self.intern(Ty::Int(128)),
                "label" | "metadata" | "token" | "opaque" => self.intern(Ty::Other),
                _ if w.starts_with('i') => match w[1..].parse::<u16>() {
                    Ok(n) => self.intern(Ty::Int(n)),
                    Err(_) => lx.fail("type"),
                },
                _ => lx.fail("type"),
            },
            Tok::Local(n) => match self.named.get(&n) {
                Some(&t) => t,
                None => lx.fail("named type"),
            },
            Tok::P('[') => {
                let n = self.num(lx) as u64;
                if !lx.is_word_next("x") {
                    lx.fail("x")
                }
                let e = self.parse_type(lx);
                lx.expect(']');
                self.intern(Ty::Array(n, e))
            }
            Tok::P('{') => {
                let f = self.fields(lx);
                self.intern(Ty::Struct(f, false))
            }
            Tok::P('<') => {
                if lx.peek_byte() == b'{' {
                    lx.expect('{');
                    let f = self.fields(lx);
                    lx.expect('>');
                    self.intern(Ty::Struct(f, true))
                } else {
                    let n = self.num(lx) as u32;
                    if !lx.is_word_next("x") {
                        lx.fail("x")
                    }
                    let e = self.parse_type(lx);
                    lx.expect('>');
                    self.intern(Ty::Vector(n, e))
                }
            }
            _ => lx.fail("type"),
        };
        t
    }
    fn fields(&mut self, lx: &mut Lex) -> Vec<TyId> {
        let mut f = vec![];
        if lx.eat('}') {
            return f;
        }
        loop {
            f.push(self.parse_type(lx));
            if lx.eat('}') {
                return f;
            }
            lx.expect(',');
        }
    }
    fn num(&mut self, lx: &mut Lex) -> i128 {
        match lx.next() {
            Tok::Word(w) => w.parse::<i128>().unwrap_or_else(|_| lx.fail("number")),
            _ => lx.fail("number"),
        }
    }

    pub fn scalar_width(&self, t: TyId) -> u16 {
        match self.ty(t) {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            x => panic!("scalar_width of {x:?}"),
        }
    }

    fn symbol_addr(&self, n: &str) -> Option<u64> {
        let mut n = n;
        while let Some(a) = self.aliases.get(n) {
            n = a;
        }
        if let Some(&g) = self.gmap.get(n) {
            return Some(global_addr(g));
        }
        self.fmap.get(n).map(|&f| func_addr(f))
    }

    fn parse_const(&mut self, lx: &mut Lex, ty: TyId) -> Const {
        match lx.next() {
            Tok::Global(n) => match self.symbol_addr(&n) {
                Some(a) => Const::Int(a as u128),
                None => lx.fail(&format!("unknown global {n}")),
            },
            Tok::Str(s) => Const::Bytes(s),
            Tok::P('[') => self.agg(lx, ']'),
            Tok::P('{') => self.agg(lx, '}'),
            Tok::P('<') => {
                if lx.peek_byte() == b'{' {
                    lx.expect('{');
                    let c = self.agg(lx, '}');
                    lx.expect('>');
                    c
                } else {
                    self.agg(lx, '>')
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Const::Int(1),
                "false" | "null" | "none" => Const::Int(0),
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "dso_local_equivalent" | "no_cfi" => self.parse_const(lx, ty),
                "splat" => {
                    lx.expect('(');
                    let t = self.parse_type(lx);
                    let c = self.parse_const(lx, t);
                    lx.expect(')');
                    let n = match self.ty(ty) {
                        Ty::Vector(n, _) => *n,
                        _ => lx.fail("splat"),
                    };
                    Const::Agg(vec![(t, c); n as usize])
                }
                "getelementptr" => {
                    while let Tok::Word(w) = lx.peek() {
                        lx.next();
                        if w == "inrange" {
                            lx.skip_parens();
                        }
                    }
                    lx.expect('(');
                    let et = self.parse_type(lx);
                    lx.expect(',');
                    let pt = self.parse_type(lx);
                    let base = self.const_int(lx, pt);
                    let mut idx = vec![];
                    while lx.eat(',') {
                        let it = self.parse_type(lx);
                        let w = self.scalar_width(it);
                        let v = self.const_int(lx, it);
                        idx.push(crate::expr::sext(v, w) as i64);
                    }
                    lx.expect(')');
                    let mut off = 0i64;
                    let mut cur = et;
                    for (k, i) in idx.iter().enumerate() {
                        if k == 0 {
                            off += i * self.layout(cur).size as i64;
                        } else {
                            let (o, t) = self.gep_step(cur, *i);
                            off += o;
                            cur = t;
                        }
                    }
                    Const::Int((base as u64).wrapping_add(off as u64) as u128)
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" | "zext" | "sext" => {
                    lx.expect('(');
                    let t = self.parse_type(lx);
                    let v = self.const_int(lx, t);
                    if !lx.is_word_next("to") {
                        lx.fail("to");
                    }
                    let to = self.parse_type(lx);
                    lx.expect(')');
                    Const::Int(v & crate::expr::mask(self.scalar_width(to)))
                }
                "sub" | "add" | "xor" | "mul" | "shl" | "and" | "or" => {
                    while let Tok::Word(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect('(');
                    let t = self.parse_type(lx);
                    let a = self.const_int(lx, t);
                    lx.expect(',');
                    let t = self.parse_type(lx);
                    let b = self.const_int(lx, t);
                    lx.expect(')');
                    let m = crate::expr::mask(self.scalar_width(t));
                    Const::Int(
                        m & match w.as_str() {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "xor" => a ^ b,
                            "mul" => a.wrapping_mul(b),
                            "and" => a & b,
                            "or" => a | b,
                            _ => a << b,
                        },
                    )
                }
                _ => {
                    let t = self.ty(ty).clone();
                    match t {
                        Ty::Float | Ty::Double => {
                            let bits: f64 = if let Some(h) = w.strip_prefix("0x") {
                                f64::from_bits(u64::from_str_radix(h, 16).unwrap_or_else(|_| lx.fail("hex float")))
                            } else if let "+qnan" | "-qnan" = w.as_str() {
                                f64::NAN.copysign(if w.starts_with('-') { -1.0 } else { 1.0 })
                            } else if let Ok(f) = w.parse() {
                                f
                            } else {
                                // f0x... form of newer LLVM
                                match w.strip_prefix("f0x").and_then(|h| u64::from_str_radix(h, 16).ok()) {
                                    Some(b) => {
                                        return Const::Int(b as u128);
                                    }
                                    None => lx.fail("float"),
                                }
                            };
                            if t == Ty::Float {
                                Const::Int((bits as f32).to_bits() as u128)
                            } else {
                                Const::Int(bits.to_bits() as u128)
                            }
                        }
                        Ty::Int(wd) => {
                            let m = crate::expr::mask(wd);
                            if let Ok(v) = w.parse::<i128>() {
                                Const::Int(v as u128 & m)
                            } else if let Ok(v) = w.parse::<u128>() {
                                Const::Int(v & m)
                            } else {
                                lx.fail(&format!("int constant {w}"))
                            }
                        }
                        _ => lx.fail(&format!("constant {w}")),
                    }
                }
            },
            t => lx.fail(&format!("constant {t:?}")),
        }
    }
    fn agg(&mut self, lx: &mut Lex, end: char) -> Const {
        let mut v = vec![];
        if lx.eat(end) {
            return Const::Agg(v);
        }
        loop {
            let t = self.parse_type(lx);
            let c = self.parse_const(lx, t);
            v.push((t, c));
            if lx.eat(end) {
                return Const::Agg(v);
            }
            lx.expect(',');
        }
    }
    fn const_int(&mut self, lx: &mut Lex, t: TyId) -> u128 {
        match self.parse_const(lx, t) {
            Const::Int(v) => v,
            Const::Undef | Const::Zero => 0,
            _ => lx.fail("integer constant"),
        }
    }
    fn gep_step(&mut self, cur: TyId, i: i64) -> (i64, TyId) {
        match self.ty(cur).clone() {
            Ty::Struct(f, _) => {
                let l = self.layout(cur);
                (l.offs[i as usize] as i64, f[i as usize])
            }
            Ty::Array(_, e) | Ty::Vector(_, e) => (i * self.layout(e).size as i64, e),
            t => panic!("gep into {t:?}"),
        }
    }

    pub fn write_const(&self, c: &Const, ty: TyId, out: &mut [u8]) {
        match c {
            Const::Undef | Const::Zero => {}
            Const::Bytes(b) => out[..b.len()].copy_from_slice(b),
            Const::Int(v) => {
                let n = self.lay(ty).store as usize;
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            Const::Agg(items) => {
                let l = self.lay(ty);
                for (k, (t, c)) in items.iter().enumerate() {
                    let el = self.lay(*t);
                    let o = if l.offs.is_empty() { k as u64 * el.size } else { l.offs[k] } as usize;
                    self.write_const(c, *t, &mut out[o..o + el.size as usize]);
                }
            }
        }
    }
    fn const_val(&self, c: &Const, ty: TyId) -> crate::exec::Val {
        use crate::exec::Val;
        match (c, self.ty(ty)) {
            (Const::Int(v), _) => Val::from_u128(*v),
            (Const::Bytes(b), _) => Val::agg(b.iter().map(|x| Val::I(*x as u64)).collect()),
            (Const::Agg(items), _) => Val::agg(items.iter().map(|(t, c)| self.const_val(c, *t)).collect()),
            (_, Ty::Array(n, e)) => Val::agg(vec![self.const_val(&Const::Zero, *e); *n as usize]),
            (_, Ty::Vector(n, e)) => Val::agg(vec![self.const_val(&Const::Zero, *e); *n as usize]),
            (_, Ty::Struct(f, _)) => Val::agg(f.iter().map(|e| self.const_val(&Const::Zero, *e)).collect()),
            _ => Val::I(0),
        }
    }

    fn opd(&mut self, lx: &mut Lex, cx: &mut FnCtx, ty: TyId) -> Opd {
        if lx.peek_byte() == b'%' {
            match lx.next() {
                Tok::Local(n) => Opd::Reg(cx.reg(&n)),
                _ => unreachable!(),
            }
        } else {
            if *self.ty(ty) == Ty::Other {
                // metadata argument: skip
                let mut d = 0;
                loop {
                    match lx.peek() {
                        Tok::P(',') | Tok::P(')') if d == 0 => break,
                        Tok::P('(') => d += 1,
                        Tok::P(')') => d -= 1,
                        Tok::Eof => break,
                        _ => {}
                    }
                    lx.next();
                }
                return Opd::C(crate::exec::Val::I(0));
            }
            let c = self.parse_const(lx, ty);
            Opd::C(self.const_val(&c, ty))
        }
    }
    fn typed(&mut self, lx: &mut Lex, cx: &mut FnCtx) -> (TyId, Opd) {
        let t = self.parse_type(lx);
        let o = self.opd(lx, cx, t);
        (t, o)
    }
    fn skip_attrs(lx: &mut Lex) {
        loop {
            match lx.peek() {
                Tok::Word(w) => {
                    if Self::is_type_start(lx) {
                        return;
                    }
                    lx.next();
                    if lx.peek_byte() == b'(' {
                        lx.skip_parens();
                    } else if w == "align" || w == "cc" || w == "alignstack" {
                        lx.next();
                    }
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.eat('=') {
                        lx.next();
                    }
                }
                Tok::P('#') => {
                    lx.next();
                    lx.next();
                }
                _ => return,
            }
        }
    }
    /// Attributes that come between an argument's type and its value.
    fn skip_arg_attrs(lx: &mut Lex) {
        loop {
            let p = lx.p;
            match lx.next() {
                Tok::Word(w) => {
                    const ATTRS: &[&str] = &[
                        "noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "zeroext",
                        "signext", "inreg", "returned", "immarg", "nofree", "nest", "swiftself", "swifterror",
                        "allocalign", "allocptr", "writable", "dead_on_unwind", "dead_on_return", "noext",
                    ];
                    if w == "align" {
                        if lx.peek_byte() == b'(' {
                            lx.skip_parens();
                        } else {
                            lx.next();
                        }
                    } else if matches!(
                        w.as_str(),
                        "dereferenceable" | "dereferenceable_or_null" | "range" | "sret" | "byval" | "byref" | "captures" | "initializes" | "elementtype" | "preallocated" | "inalloca" | "nofpclass" | "dead_on_return"
                    ) {
                        if lx.peek_byte() == b'(' {
                            lx.skip_parens();
                        }
                    } else if !ATTRS.contains(&w.as_str()) {
                        lx.p = p;
                        return;
                    }
                }
                Tok::Str(_) => {
                    // string attribute, but c"..." constants also lex as Str
                    if lx.s[p..].iter().find(|c| !c.is_ascii_whitespace()) == Some(&b'c') {
                        lx.p = p;
                        return;
                    }
                    if lx.eat('=') {
                        lx.next();
                    }
                }
                _ => {
                    lx.p = p;
                    return;
                }
            }
        }
    }

    fn parse_call(&mut self, lx: &mut Lex, cx: &mut FnCtx) -> (TyId, Callee, Vec<(TyId, Opd)>) {
        Self::skip_attrs(lx);
        let ret = self.parse_type(lx);
        if lx.peek_byte() == b'(' {
            // full function type (varargs)
            lx.skip_parens();
        }
        let f = match lx.next() {
            Tok::Global(n) => {
                let mut n = n;
                while let Some(a) = self.aliases.get(&n) {
                    n = a.clone();
                }
                match self.fmap.get(&n) {
                    Some(&i) => Callee::Fn(i),
                    None => lx.fail(&format!("unknown function {n}")),
                }
            }
            Tok::Local(n) => Callee::Ptr(Opd::Reg(cx.reg(&n))),
            Tok::Word(w) if w == "asm" => {
                let mut text = String::new();
                loop {
                    match lx.next() {
                        Tok::Str(s) => {
                            if text.is_empty() {
                                text = String::from_utf8_lossy(&s).into_owned();
                                if text.is_empty() {
                                    text = " ".into();
                                }
                            }
                        }
                        Tok::P('(') => {
                            lx.p -= 1;
                            break;
                        }
                        _ => {}
                    }
                }
                Callee::Asm(text)
            }
            Tok::Word(w) if w == "inttoptr" => {
                lx.p -= w.len();
                let t = self.intern(Ty::Ptr);
                let c = self.parse_const(lx, t);
                Callee::Ptr(Opd::C(self.const_val(&c, t)))
            }
            Tok::Word(w) if w == "null" || w == "undef" || w == "poison" => Callee::Ptr(Opd::C(crate::exec::Val::I(0))),
            t => lx.fail(&format!("callee {t:?}")),
        };
        lx.expect('(');
        let mut args = vec![];
        if !lx.eat(')') {
            loop {
                let t = self.parse_type(lx);
                Self::skip_arg_attrs(lx);
                let o = self.opd(lx, cx, t);
                args.push((t, o));
                if lx.eat(')') {
                    break;
                }
                lx.expect(',');
            }
        }
        (ret, f, args)
    }

    fn label(&mut self, lx: &mut Lex, cx: &mut FnCtx) -> u32 {
        let t = lx.next();
        if t != Tok::Word("label".into()) {
            lx.fail("label");
        }
        match lx.next() {
            Tok::Local(n) => cx.block(&n),
            _ => lx.fail("label name"),
        }
    }

    fn flags(lx: &mut Lex, fl: &[&str]) {
        loop {
            let p = lx.p;
            match lx.next() {
                Tok::Word(w) if fl.contains(&w.as_str()) => {
                    if lx.peek_byte() == b'(' {
                        lx.skip_parens();
                    }
                }
                _ => {
                    lx.p = p;
                    return;
                }
            }
        }
    }

    fn instr(&mut self, lx: &mut Lex, cx: &mut FnCtx) -> Result<Inst, (u32, TyId, Vec<(u32, Opd)>)> {
        let mut dst = u32::MAX;
        if lx.peek_byte() == b'%' {
            if let Tok::Local(n) = lx.next() {
                dst = cx.reg(&n);
            }
            lx.expect('=');
        }
        let mut w = match lx.next() {
            Tok::Word(w) => w,
            t => lx.fail(&format!("opcode {t:?}")),
        };
        if matches!(w.as_str(), "tail" | "musttail" | "notail") {
            w = match lx.next() {
                Tok::Word(w) => w,
                _ => lx.fail("call"),
            };
        }
        const FAST: &[&str] = &["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"];
        let bin = |w: &str| -> Option<BinOp> {
            Some(match w {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                "frem" => BinOp::FRem,
                _ => return None,
            })
        };
        if let Some(op) = bin(&w) {
            Self::flags(lx, &["nuw", "nsw", "exact", "disjoint"]);
            Self::flags(lx, FAST);
            let (ty, a) = self.typed(lx, cx);
            lx.expect(',');
            let b = self.opd(lx, cx, ty);
            return Ok(Inst { dst, dbg: 0, k: Ins::Bin { op, ty, a, b } });
        }
        let cast = |w: &str| -> Option<CastOp> {
            Some(match w {
                "trunc" => CastOp::Trunc,
                "zext" => CastOp::ZExt,
                "sext" => CastOp::SExt,
                "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => CastOp::Bit,
                "uitofp" => CastOp::UiToFp,
                "sitofp" => CastOp::SiToFp,
                "fptoui" => CastOp::FpToUi,
                "fptosi" => CastOp::FpToSi,
                "fpext" => CastOp::FpExt,
                "fptrunc" => CastOp::FpTrunc,
                _ => return None,
            })
        };
        if let Some(op) = cast(&w) {
            Self::flags(lx, &["nuw", "nsw", "nneg"]);
            Self::flags(lx, FAST);
            let (from, a) = self.typed(lx, cx);
            if !lx.is_word_next("to") {
                lx.fail("to");
            }
            let to = self.parse_type(lx);
            let mut op = op;
            if op == CastOp::Bit && w != "bitcast" {
                // ptrtoint / inttoptr to another width
                if !matches!(self.ty(from), Ty::Vector(..)) {
                    let (f, t) = (self.scalar_width(from), self.scalar_width(to));
                    if f > t {
                        op = CastOp::Trunc;
                    } else if f < t {
                        op = CastOp::ZExt;
                    }
                }
            }
            return Ok(Inst { dst, dbg: 0, k: Ins::Cast { op, from, to, a } });
        }
        let k = match w.as_str() {
            "phi" => {
                Self::flags(lx, FAST);
                let ty = self.parse_type(lx);
                let mut inc = vec![];
                loop {
                    lx.expect('[');
                    let v = self.opd(lx, cx, ty);
                    lx.expect(',');
                    let b = match lx.next() {
                        Tok::Local(n) => cx.block(&n),
                        _ => lx.fail("phi label"),
                    };
                    lx.expect(']');
                    inc.push((b, v));
                    // a ',' may also introduce metadata
                    let p = lx.p;
                    if !lx.eat(',') {
                        break;
                    }
                    if lx.peek_byte() != b'[' {
                        lx.p = p;
                        break;
                    }
                }
                return Err((dst, ty, inc));
            }
            "icmp" => {
                Self::flags(lx, &["samesign"]);
                let p = match lx.next() {
                    Tok::Word(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => lx.fail("predicate"),
                    },
                    _ => lx.fail("predicate"),
                };
                let (ty, a) = self.typed(lx, cx);
                lx.expect(',');
                let b = self.opd(lx, cx, ty);
                Ins::Icmp { p, ty, a, b }
            }
            "fcmp" => {
                Self::flags(lx, FAST);
                let p = match lx.next() {
                    Tok::Word(w) => w,
                    _ => lx.fail("predicate"),
                };
                let (ty, a) = self.typed(lx, cx);
                lx.expect(',');
                let b = self.opd(lx, cx, ty);
                Ins::Fcmp { p, ty, a, b }
            }
            "fneg" => {
                Self::flags(lx, FAST);
                let (ty, a) = self.typed(lx, cx);
                Ins::FNeg { ty, a }
            }
            "select" => {
                Self::flags(lx, FAST);
                let (cty, c) = self.typed(lx, cx);
                lx.expect(',');
                let (ty, a) = self.typed(lx, cx);
                lx.expect(',');
                let (_, b) = self.typed(lx, cx);
                Ins::Select { cty, ty, c, a, b }
            }
            "load" => {
                let mut atomic = false;
                while let Tok::Word(x) = lx.peek() {
                    if x == "atomic" || x == "volatile" {
                        atomic |= x == "atomic";
                        lx.next();
                    } else {
                        break;
                    }
                }
                let ty = self.parse_type(lx);
                lx.expect(',');
                let (_, p) = self.typed(lx, cx);
                Ins::Load { ty, p, atomic }
            }
            "store" => {
                let mut atomic = false;
                while let Tok::Word(x) = lx.peek() {
                    if x == "atomic" || x == "volatile" {
                        atomic |= x == "atomic";
                        lx.next();
                    } else {
                        break;
                    }
                }
                let (ty, v) = self.typed(lx, cx);
                lx.expect(',');
                let (_, p) = self.typed(lx, cx);
                Ins::Store { ty, v, p, atomic }
            }
            "getelementptr" => {
                Self::flags(lx, &["inbounds", "nuw", "nusw", "inrange"]);
                let et = self.parse_type(lx);
                lx.expect(',');
                let (bt, base) = self.typed(lx, cx);
                if matches!(self.ty(bt), Ty::Vector(..)) {
                    Ins::Unsupported("vector gep".into())
                } else {
                    let mut off = 0i64;
                    let mut idx = vec![];
                    let mut cur = et;
                    let mut first = true;
                    loop {
                        let p = lx.p;
                        if !lx.eat(',') {
                            break;
                        }
                        if lx.peek_byte() == b'!' {
                            lx.p = p;
                            break;
                        }
                        let it = self.parse_type(lx);
                        let w = self.scalar_width(it);
                        let v = self.opd(lx, cx, it);
                        match v {
                            Opd::C(c) => {
                                let i = crate::expr::sext(c.as_u128(), w) as i64;
                                if first {
                                    off = off.wrapping_add(i.wrapping_mul(self.layout(cur).size as i64));
                                } else {
                                    let (o, t) = self.gep_step(cur, i);
                                    off = off.wrapping_add(o);
                                    cur = t;
                                }
                            }
                            r => {
                                let sz = if first {
                                    self.layout(cur).size
                                } else {
                                    match self.ty(cur).clone() {
                                        Ty::Array(_, e) | Ty::Vector(_, e) => {
                                            cur = e;
                                            self.layout(e).size
                                        }
                                        _ => lx.fail("gep"),
                                    }
                                };
                                idx.push((r, w, sz as i64));
                            }
                        }
                        first = false;
                    }
                    Ins::Gep { base, off, idx }
                }
            }
            "alloca" => {
                Self::flags(lx, &["inalloca", "swifterror"]);
                let t = self.parse_type(lx);
                let size = self.layout(t).size;
                let mut n = Opd::C(crate::exec::Val::I(1));
                let mut nw = 32;
                let p = lx.p;
                if lx.eat(',') {
                    if Self::is_type_start(lx) {
                        let (nt, o) = self.typed(lx, cx);
                        n = o;
                        nw = self.scalar_width(nt);
                    } else {
                        lx.p = p;
                    }
                }
                Ins::Alloca { size, n, nw }
            }
            "call" => {
                let (ret, f, args) = self.parse_call(lx, cx);
                Ins::Call { ret, f, args }
            }
            "invoke" => {
                let (ret, f, args) = self.parse_call(lx, cx);
                Self::skip_attrs(lx);
                // "to label %x unwind label %y": skip_attrs consumed "to" (not a type start)
                let to = {
                    let to = match (lx.next(), lx.next()) {
                        (Tok::Word(l), Tok::Local(n)) if l == "label" => cx.block(&n),
                        _ => lx.fail("invoke"),
                    };
                    to
                };
                Ins::Invoke { ret, f, args, to }
            }
            "extractvalue" => {
                let (_, a) = self.typed(lx, cx);
                let path = self.path(lx);
                Ins::ExtractValue { a, path }
            }
            "insertvalue" => {
                let (ty, a) = self.typed(lx, cx);
                lx.expect(',');
                let (_, v) = self.typed(lx, cx);
                let path = self.path(lx);
                Ins::InsertValue { ty, a, v, path }
            }
            "extractelement" => {
                let (ty, a) = self.typed(lx, cx);
                lx.expect(',');
                let (_, i) = self.typed(lx, cx);
                Ins::ExtractElement { ty, a, i }
            }
            "insertelement" => {
                let (ty, a) = self.typed(lx, cx);
                lx.expect(',');
                let (_, v) = self.typed(lx, cx);
                lx.expect(',');
                let (_, i) = self.typed(lx, cx);
                Ins::InsertElement { ty, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = self.typed(lx, cx);
                lx.expect(',');
                let (_, b) = self.typed(lx, cx);
                lx.expect(',');
                let mt = self.parse_type(lx);
                let n = match self.ty(mt) {
                    Ty::Vector(n, _) => *n,
                    _ => lx.fail("mask"),
                };
                let c = self.parse_const(lx, mt);
                let mask = match c {
                    Const::Agg(v) => v
                        .into_iter()
                        .map(|(_, c)| match c {
                            Const::Int(i) => i as i32,
                            Const::Undef => -1,
                            _ => 0,
                        })
                        .collect(),
                    Const::Undef => vec![-1; n as usize],
                    _ => vec![0; n as usize],
                };
                Ins::Shuffle { ty, a, b, mask }
            }
            "freeze" => {
                let (_, a) = self.typed(lx, cx);
                Ins::Freeze { a }
            }
            "fence" => {
                while !matches!(lx.peek(), Tok::P(_) | Tok::Eof | Tok::Meta(_)) {
                    if lx.peek() == Tok::P('(') {
                        lx.skip_parens();
                    } else {
                        lx.next();
                    }
                }
                Ins::Fence
            }
            "atomicrmw" => {
                Self::flags(lx, &["volatile"]);
                let op = match lx.next() {
                    Tok::Word(w) => w,
                    _ => lx.fail("rmw"),
                };
                let (_, p) = self.typed(lx, cx);
                lx.expect(',');
                let (ty, v) = self.typed(lx, cx);
                Ins::AtomicRmw { op, ty, p, v }
            }
            "cmpxchg" => {
                Self::flags(lx, &["weak", "volatile"]);
                let (_, p) = self.typed(lx, cx);
                lx.expect(',');
                let (ty, c) = self.typed(lx, cx);
                lx.expect(',');
                let (_, n) = self.typed(lx, cx);
                Ins::CmpXchg { ty, p, c, n }
            }
            "br" => {
                if lx.peek() == Tok::Word("label".into()) {
                    Ins::Br(self.label(lx, cx))
                } else {
                    let (_, c) = self.typed(lx, cx);
                    lx.expect(',');
                    let a = self.label(lx, cx);
                    lx.expect(',');
                    let b = self.label(lx, cx);
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.typed(lx, cx);
                lx.expect(',');
                let default = self.label(lx, cx);
                lx.expect('[');
                let mut cases = vec![];
                while !lx.eat(']') {
                    let t = self.parse_type(lx);
                    let c = self.const_int(lx, t);
                    lx.expect(',');
                    let b = self.label(lx, cx);
                    cases.push((c, b));
                }
                Ins::Switch { ty, v, default, cases }
            }
            "ret" => {
                let t = self.parse_type(lx);
                if *self.ty(t) == Ty::Void {
                    Ins::Ret(None)
                } else {
                    let o = self.opd(lx, cx, t);
                    Ins::Ret(Some(o))
                }
            }
            "unreachable" => Ins::Unreachable,
            "landingpad" | "resume" | "va_arg" | "indirectbr" | "cleanuppad" | "catchpad" | "cleanupret" | "catchswitch" | "catchret" | "callbr" => {
                Ins::Unsupported(w.clone())
            }
            _ => lx.fail(&format!("opcode {w}")),
        };
        Ok(Inst { dst, dbg: 0, k })
    }
    fn path(&mut self, lx: &mut Lex) -> Vec<u32> {
        let mut path = vec![];
        loop {
            let p = lx.p;
            if !lx.eat(',') {
                break;
            }
            if lx.peek_byte() == b'!' {
                lx.p = p;
                break;
            }
            path.push(self.num(lx) as u32);
        }
        path
    }

    pub fn parse(text: &[u8]) -> Module {
        let mut m = Module::default();
        m.intern(Ty::Void);
        // Split into lines; find top-level entities.
        let mut lines: Vec<&[u8]> = vec![];
        let mut st = 0;
        for (i, c) in text.iter().enumerate() {
            if *c == b'\n' {
                lines.push(&text[st..i]);
                st = i + 1;
            }
        }
        // named types may refer to later ones: resolve iteratively
        let mut tdefs: Vec<(String, &[u8])> = vec![];
        for l in &lines {
            if l.starts_with(b"%") {
                let mut lx = Lex::new(l);
                if let Tok::Local(n) = lx.next() {
                    lx.expect('=');
                    if !lx.is_word_next("type") {
                        lx.fail("type");
                    }
                    tdefs.push((n, &l[lx.p..]));
                }
            }
        }
        let mut guard = 0;
        while !tdefs.is_empty() {
            guard += 1;
            assert!(guard < 1000, "unresolvable named types");
            let mut rest = vec![];
            for (n, body) in tdefs {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut lx = Lex::new(body);
                    m.parse_type(&mut lx)
                }));
                match r {
                    Ok(t) => {
                        m.named.insert(n, t);
                    }
                    Err(_) => rest.push((n, body)),
                }
            }
            tdefs = rest;
        }
        // names
        let mut gl: Vec<(u32, usize)> = vec![];
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with(b"@") {
                let mut lx = Lex::new(l);
                if let Tok::Global(n) = lx.next() {
                    lx.expect('=');
                    let mut alias = false;
                    let save = lx.p;
                    loop {
                        match lx.next() {
                            Tok::Word(w) if w == "alias" => {
                                alias = true;
                                break;
                            }
                            Tok::Word(w) if w == "global" || w == "constant" || w == "ifunc" => break,
                            Tok::Eof => break,
                            _ => {}
                        }
                    }
                    lx.p = save;
                    if alias {
                        // @a = alias T, ptr @b
                        let s = String::from_utf8_lossy(l);
                        let tgt = s.rsplit('@').next().unwrap();
                        let mut tl = Lex::new(tgt.as_bytes());
                        let t = if tgt.starts_with('"') {
                            String::from_utf8_lossy(&tl.quoted()).into_owned()
                        } else {
                            tl.word()
                        };
                        m.aliases.insert(n, t);
                    } else {
                        let gi = m.globals.len() as u32;
                        m.gmap.insert(n.clone(), gi);
                        m.globals.push(Global { name: n, ty: 0, init: None, constant: false, tls: false });
                        gl.push((gi, i));
                    }
                }
            } else if l.starts_with(b"define") || l.starts_with(b"declare") {
                let mut lx = Lex::new(l);
                loop {
                    match lx.next() {
                        Tok::Global(n) => {
                            let fi = m.funcs.len() as u32;
                            m.fmap.insert(n.clone(), fi);
                            m.funcs.push(Func { name: n, ..Default::default() });
                            break;
                        }
                        Tok::Eof => lx.fail("function name"),
                        _ => {}
                    }
                }
            }
            i += 1;
        }
        // globals
        for (gi, li) in gl {
            let l = lines[li];
            let mut lx = Lex::new(l);
            lx.next();
            lx.expect('=');
            let mut external = false;
            let mut tls = false;
            let constant = loop {
                match lx.next() {
                    Tok::Word(w) => match w.as_str() {
                        "global" => break false,
                        "constant" => break true,
                        "external" | "extern_weak" => external = true,
                        "thread_local" => tls = true,
                        _ => {}
                    },
                    Tok::P('(') => {
                        lx.p -= 1;
                        lx.skip_parens();
                    }
                    Tok::Eof => lx.fail("global"),
                    _ => {}
                }
            };
            let ty = m.parse_type(&mut lx);
            let init = if external {
                None
            } else {
                Some(m.parse_const(&mut lx, ty))
            };
            let g = &mut m.globals[gi as usize];
            g.ty = ty;
            g.init = init;
            g.constant = constant;
            g.tls = tls;
        }
        // functions
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i];
            let def = l.starts_with(b"define");
            if def || l.starts_with(b"declare") {
                let mut lx = Lex::new(l);
                lx.next();
                // linkage, cc, ret attrs
                Self::skip_attrs(&mut lx);
                let ret = m.parse_type(&mut lx);
                let name = match lx.next() {
                    Tok::Global(n) => n,
                    _ => lx.fail("name"),
                };
                let fi = m.fmap[&name];
                let mut cx = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
                let mut params = vec![];
                lx.expect('(');
                if !lx.eat(')') {
                    let mut k = 0;
                    loop {
                        if lx.peek_byte() == b'.' {
                            lx.next();
                        } else {
                            let t = m.parse_type(&mut lx);
                            Self::skip_arg_attrs(&mut lx);
                            params.push(t);
                            if let Tok::Local(n) = lx.peek() {
                                lx.next();
                                let r = cx.reg(&n);
                                assert_eq!(r, k);
                            } else if def {
                                let r = cx.reg(&k.to_string());
                                assert_eq!(r, k);
                            }
                            k += 1;
                        }
                        if lx.eat(')') {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                let mut fdbg = 0;
                if let Some(p) = find(l, b"!dbg !") {
                    fdbg = num_at(&l[p + 6..]);
                }
                m.funcs[fi as usize].params = params;
                m.funcs[fi as usize].ret = ret;
                m.funcs[fi as usize].dbg = fdbg;
                if def {
                    // body
                    let mut j = i + 1;
                    // labels first
                    let mut nb = 0;
                    let mut first = true;
                    let mut k = j;
                    while lines[k] != b"}" {
                        let bl = lines[k];
                        if !bl.is_empty() && bl[0] != b' ' && bl[0] != b';' {
                            let lab = label_of(bl);
                            cx.blocks.insert(lab, nb);
                            nb += 1;
                            first = false;
                        } else if first && !bl.is_empty() {
                            // unnamed entry block: its number is the number of params if numbered
                            let n = m.funcs[fi as usize].params.len().to_string();
                            cx.blocks.insert(n, nb);
                            nb += 1;
                            first = false;
                        }
                        k += 1;
                    }
                    let mut blocks: Vec<Block> = Vec::with_capacity(nb as usize);
                    let mut started = false;
                    while lines[j] != b"}" {
                        let bl = lines[j];
                        if bl.is_empty() {
                            j += 1;
                            continue;
                        }
                        if bl[0] != b' ' && bl[0] != b';' {
                            blocks.push(Block::default());
                            started = true;
                            j += 1;
                            continue;
                        }
                        if !started {
                            blocks.push(Block::default());
                            started = true;
                        }
                        let t = trim(bl);
                        if t.starts_with(b"#dbg") || t.starts_with(b";") || t.is_empty() {
                            j += 1;
                            continue;
                        }
                        // multi-line instructions
                        let mut buf: Vec<u8>;
                        let mut src: &[u8] = t;
                        if t.starts_with(b"switch") && !t.contains(&b']') || (t.starts_with(b"switch") && ends_open(t)) {
                            buf = t.to_vec();
                            loop {
                                j += 1;
                                buf.push(b' ');
                                buf.extend_from_slice(trim(lines[j]));
                                if trim(lines[j]).starts_with(b"]") {
                                    break;
                                }
                            }
                            src = &buf;
                        } else if find(t, b"invoke ").map_or(false, |p| p == 0 || find(t, b"= invoke ").is_some()) {
                            buf = t.to_vec();
                            if find(t, b" unwind label ").is_none() {
                                j += 1;
                                buf.push(b' ');
                                buf.extend_from_slice(trim(lines[j]));
                            }
                            src = &buf;
                        } else if find(t, b"= landingpad").is_some() {
                            while {
                                let n = trim(lines[j + 1]);
                                n.starts_with(b"cleanup") || n.starts_with(b"catch") || n.starts_with(b"filter")
                            } {
                                j += 1;
                            }
                        }
                        let mut lx = Lex::new(src);
                        match m.instr(&mut lx, &mut cx) {
                            Ok(mut ins) => {
                                if let Some(p) = find(src, b"!dbg !") {
                                    ins.dbg = num_at(&src[p + 6..]);
                                }
                                blocks.last_mut().unwrap().ins.push(ins);
                            }
                            Err(phi) => blocks.last_mut().unwrap().phis.push(phi),
                        }
                        j += 1;
                    }
                    for b in &mut blocks {
                        b.cov = m.nblocks;
                        m.nblocks += 1;
                    }
                    let f = &mut m.funcs[fi as usize];
                    f.blocks = blocks;
                    f.nregs = cx.regs.len() as u32;
                    f.defined = true;
                    i = j;
                }
            } else if l.starts_with(b"!") && l.len() > 1 && l[1].is_ascii_digit() {
                m.meta_line(l);
            }
            i += 1;
        }
        m.compute_layouts();
        m.gobjs.0 = (0..m.globals.len()).map(|_| Default::default()).collect();
        m
    }

    fn meta_line(&mut self, l: &[u8]) {
        let id = num_at(&l[1..]);
        let s = String::from_utf8_lossy(l);
        let Some(eq) = s.find("= ") else { return };
        let body = s[eq + 2..].trim_start_matches("distinct ");
        let kind = if body.starts_with("!DILocation(") {
            1
        } else if body.starts_with("!DISubprogram(") {
            2
        } else if body.starts_with("!DILexicalBlock") {
            3
        } else if body.starts_with("!DIFile(") {
            4
        } else {
            return;
        };
        let get = |k: &str| -> Option<&str> {
            let mut from = 0;
            loop {
                let p = body[from..].find(k)? + from;
                let prev = body.as_bytes()[p - 1];
                if prev == b' ' || prev == b'(' {
                    let r = &body[p + k.len()..];
                    return Some(r);
                }
                from = p + 1;
            }
        };
        let meta = |k: &str| -> u32 {
            get(k).filter(|r| r.starts_with('!')).map(|r| num_at(r[1..].as_bytes())).unwrap_or(0)
        };
        let strv = |k: &str| -> String {
            get(k)
                .filter(|r| r.starts_with('"'))
                .map(|r| r[1..].split('"').next().unwrap_or("").to_string())
                .unwrap_or_default()
        };
        let n = DbgNode {
            kind,
            scope: meta("scope: "),
            inlined: meta("inlinedAt: "),
            line: get("line: ").map(|r| num_at(r.as_bytes())).unwrap_or(0),
            file: meta("file: "),
            name: if kind == 4 { strv("filename: ") } else { strv("name: ") },
            dir: if kind == 4 { strv("directory: ") } else { String::new() },
        };
        self.dbg.insert(id, n);
    }

    /// (function name, file, line) of a location; the chain of inlined callers follows.
    pub fn locate(&self, dbg: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        let mut d = dbg;
        while let Some(n) = self.dbg.get(&d) {
            if n.kind != 1 {
                break;
            }
            let mut s = n.scope;
            let mut file = 0;
            let mut name = String::new();
            while let Some(sn) = self.dbg.get(&s) {
                if file == 0 {
                    file = sn.file;
                }
                if sn.kind == 2 {
                    name = sn.name.clone();
                    break;
                }
                s = sn.scope;
            }
            let f = self
                .dbg
                .get(&file)
                .map(|f| if f.name.starts_with('/') { f.name.clone() } else { format!("{}/{}", f.dir, f.name) })
                .unwrap_or_default();
            out.push((name, f, n.line));
            if n.inlined == 0 {
                break;
            }
            d = n.inlined;
        }
        out
    }
}

fn ends_open(t: &[u8]) -> bool {
    t.last() == Some(&b'[')
}
fn trim(l: &[u8]) -> &[u8] {
    let mut a = 0;
    while a < l.len() && (l[a] == b' ' || l[a] == b'\t') {
        a += 1;
    }
    &l[a..]
}
fn label_of(l: &[u8]) -> String {
    let mut lx = Lex::new(l);
    if l[0] == b'"' {
        String::from_utf8_lossy(&lx.quoted()).into_owned()
    } else {
        lx.word()
    }
}
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
fn num_at(b: &[u8]) -> u32 {
    let mut v: u32 = 0;
    for c in b {
        if !c.is_ascii_digit() {
            break;
        }
        v = v.wrapping_mul(10).wrapping_add((c - b'0') as u32);
    }
    v
}

impl Module {
    /// Initial content of a global (built on first use).
    pub fn global_obj(&self, g: u32) -> &crate::mem::Obj {
        let cell = &self.gobjs.0[g as usize];
        cell.get_or_init(|| {
            let gl = &self.globals[g as usize];
            let n = self.lay(gl.ty).size as usize;
            let mut data = vec![0; n];
            if let Some(c) = &gl.init {
                self.write_const(c, gl.ty, &mut data);
            }
            crate::mem::Obj { size: n as u64, data, sym: None, ro: gl.constant, kind: 0 }
        })
    }
}
#[derive(Default)]
pub struct GObjs(pub Vec<std::cell::OnceCell<crate::mem::Obj>>);
