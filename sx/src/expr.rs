//! Hash-consed bit-vector expressions with local simplification.

use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // c = low bit
    Concat,  // a = high, b = low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
}

/// Set of variable indices: a bit mask of which the first `off` words are zero.
#[derive(Clone, PartialEq, Eq, Default)]
pub struct VarSet {
    off: usize,
    words: Vec<u64>,
}
impl VarSet {
    pub fn one(i: u32) -> Self {
        VarSet { off: i as usize / 64, words: vec![1 << (i % 64)] }
    }
    pub fn union(&mut self, o: &VarSet) {
        if o.words.is_empty() {
            return;
        }
        if self.words.is_empty() {
            *self = o.clone();
            return;
        }
        if o.off < self.off {
            self.words.splice(0..0, std::iter::repeat(0).take(self.off - o.off));
            self.off = o.off;
        }
        let end = (o.off + o.words.len()) - self.off;
        if self.words.len() < end {
            self.words.resize(end, 0);
        }
        for (a, b) in self.words[o.off - self.off..].iter_mut().zip(&o.words) {
            *a |= b;
        }
    }
    pub fn intersects(&self, o: &VarSet) -> bool {
        let (lo, hi) = if self.off <= o.off { (self, o) } else { (o, self) };
        let d = hi.off - lo.off;
        d < lo.words.len() && lo.words[d..].iter().zip(&hi.words).any(|(a, b)| a & b != 0)
    }
    pub fn iter(&self) -> impl Iterator<Item = u32> + '_ {
        self.words.iter().enumerate().flat_map(move |(i, w)| {
            (0..64u32).filter(move |k| w >> k & 1 == 1).map(move |k| (self.off + i) as u32 * 64 + k)
        })
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    /// Values of `Const` nodes live in `consts[a]`.
    pub consts: Vec<u128>,
    map: HashMap<Node, E>,
    cmap: HashMap<(u16, u128), E>,
    /// Unsigned range of every node.
    range: Vec<(u128, u128)>,
    vars: Vec<Option<std::rc::Rc<VarSet>>>,
    pub var_width: Vec<u16>,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

impl Default for Arena {
    fn default() -> Self {
        Self::new()
    }
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: vec![],
            consts: vec![],
            map: HashMap::new(),
            cmap: HashMap::new(),
            range: vec![],
            vars: vec![],
            var_width: vec![],
        }
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn rng(&self, e: E) -> (u128, u128) {
        self.range[e as usize]
    }
    pub fn cst(&mut self, w: u16, v: u128) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.cmap.get(&(w, v)) {
            return e;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.nodes.len() as E;
        self.nodes.push(Node { op: Op::Const, w, a: ci, b: 0, c: 0 });
        self.range.push((v, v));
        self.vars.push(None);
        self.cmap.insert((w, v), e);
        e
    }
    pub fn var(&mut self, idx: u32, w: u16) -> E {
        let n = Node { op: Op::Var, w, a: idx, b: 0, c: 0 };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        while self.var_width.len() <= idx as usize {
            self.var_width.push(0);
        }
        self.var_width[idx as usize] = w;
        let e = self.push(n, (0, mask(w)));
        self.vars[e as usize] = Some(std::rc::Rc::new(VarSet::one(idx)));
        e
    }
    fn push(&mut self, n: Node, r: (u128, u128)) -> E {
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.range.push(r);
        self.vars.push(None);
        self.map.insert(n, e);
        e
    }
    fn raw(&mut self, op: Op, w: u16, a: E, b: E, c: E) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let r = self.calc_range(&n);
        self.push(n, r)
    }
    fn calc_range(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let full = (0, m);
        match n.op {
            Op::ZExt => self.rng(n.a),
            Op::Ite => {
                let (a, b) = (self.rng(n.b), self.rng(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::Concat => {
                let (h, l) = (self.rng(n.a), self.rng(n.b));
                let lw = self.w(n.b) as u32;
                ((h.0 << lw) + l.0, (h.1 << lw) + l.1)
            }
            Op::Extract if n.c == 0 => {
                let r = self.rng(n.a);
                if r.1 <= m {
                    r
                } else {
                    full
                }
            }
            Op::And => (0, self.rng(n.a).1.min(self.rng(n.b).1)),
            Op::Or => {
                let (a, b) = (self.rng(n.a), self.rng(n.b));
                let hi = a.1 | b.1;
                let bits = 128 - hi.leading_zeros();
                (a.0.max(b.0), mask(bits as u16).min(m))
            }
            Op::Add => {
                let (a, b) = (self.rng(n.a), self.rng(n.b));
                match (a.0.checked_add(b.0), a.1.checked_add(b.1)) {
                    (Some(lo), Some(hi)) if hi <= m => (lo, hi),
                    // Both ends wrap: x + (2^w - k) with x >= k
                    (Some(lo), Some(hi)) if lo > m && n.w < 127 && hi <= 2 * m + 1 => {
                        (lo - m - 1, hi - m - 1)
                    }
                    _ => full,
                }
            }
            Op::Sub => {
                let (a, b) = (self.rng(n.a), self.rng(n.b));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (self.rng(n.a), self.rng(n.b));
                match a.1.checked_mul(b.1) {
                    Some(hi) if hi <= m => (a.0 * b.0, hi),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (a, b) = (self.rng(n.a), self.rng(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let b = self.rng(n.b);
                if b.0 > 0 {
                    (0, (b.1 - 1).min(self.rng(n.a).1))
                } else {
                    full
                }
            }
            Op::LShr => (0, self.rng(n.a).1),
            _ => full,
        }
    }

    /// Variables an expression depends on.
    pub fn vars(&mut self, e: E) -> std::rc::Rc<VarSet> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.vars[x as usize].is_some() {
                continue;
            }
            let n = self.n(x);
            let kids: &[E] = match n.op {
                Op::Const | Op::Var => &[],
                Op::ZExt | Op::SExt | Op::Extract => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            if done || kids.is_empty() {
                let mut s = VarSet::default();
                let mut single: Option<std::rc::Rc<VarSet>> = None;
                for (i, k) in kids.iter().enumerate() {
                    let kv = self.vars[*k as usize].clone().unwrap();
                    if i == 0 {
                        single = Some(kv.clone());
                        s = (*kv).clone();
                    } else {
                        s.union(&kv);
                    }
                }
                let rc = match single {
                    Some(x) if *x == s => x,
                    _ => std::rc::Rc::new(s),
                };
                self.vars[x as usize] = Some(rc);
            } else {
                stack.push((x, true));
                for k in kids {
                    stack.push((*k, false));
                }
            }
        }
        self.vars[e as usize].clone().unwrap()
    }

    pub fn not(&mut self, e: E) -> E {
        debug_assert_eq!(self.w(e), 1);
        let one = self.cst(1, 1);
        self.bin(Op::Xor, e, one)
    }

    pub fn fold(op: Op, w: u16, x: u128, y: u128) -> Option<u128> {
        let m = mask(w);
        Some(match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::Mul => x.wrapping_mul(y) & m,
            Op::UDiv => x.checked_div(y)?,
            Op::URem => x.checked_rem(y)?,
            Op::SDiv => sext(x, w).checked_div(sext(y, w))? as u128 & m,
            Op::SRem => sext(x, w).checked_rem(sext(y, w))? as u128 & m,
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    (x << y) & m
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let s = y.min(w as u128 - 1) as u32;
                (sext(x, w) >> s) as u128 & m
            }
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Ule => (x <= y) as u128,
            Op::Slt => (sext(x, w) < sext(y, w)) as u128,
            Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
            _ => return None,
        })
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let ca = self.is_const(a);
        let cb = self.is_const(b);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = Self::fold(op, w, x, y) {
                return self.cst(rw, v);
            }
        }
        let m = mask(w);
        // constants to the right for commutative operators
        if ca.is_some()
            && cb.is_none()
            && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
        {
            return self.bin(op, b, a);
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(y) = cb {
                    let n = self.n(a);
                    if n.op == Op::Add {
                        if let Some(x) = self.is_const(n.b) {
                            let k = self.cst(w, x.wrapping_add(y));
                            return self.bin(Op::Add, n.a, k);
                        }
                    }
                    if n.op == Op::Ite {
                        if let (Some(p), Some(q)) = (self.is_const(n.b), self.is_const(n.c)) {
                            let p = self.cst(w, p.wrapping_add(y));
                            let q = self.cst(w, q.wrapping_add(y));
                            return self.ite(n.a, p, q);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    let k = self.cst(w, 0u128.wrapping_sub(y));
                    return self.bin(Op::Add, a, k);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(w, y - 1);
                        return self.bin(Op::And, a, k);
                    }
                    if self.rng(a).1 < y {
                        return a;
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    let n = self.n(a);
                    if n.op == Op::ZExt {
                        let iw = self.w(n.a);
                        let k = self.cst(iw, y);
                        let r = self.bin(Op::And, n.a, k);
                        return self.zext(r, w);
                    }
                    if n.op == Op::And {
                        if let Some(x) = self.is_const(n.b) {
                            let k = self.cst(w, x & y);
                            return self.bin(Op::And, n.a, k);
                        }
                    }
                    if n.op == Op::Concat {
                        let lw = self.w(n.b);
                        let kh = self.cst(w - lw, y >> lw);
                        let kl = self.cst(lw, y);
                        let h = self.bin(Op::And, n.a, kh);
                        let l = self.bin(Op::And, n.b, kl);
                        return self.concat(h, l);
                    }
                    // low mask
                    if (y + 1).is_power_of_two() {
                        let k = (y + 1).trailing_zeros() as u16;
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    // contiguous mask
                    let tz = y.trailing_zeros() as u16;
                    let z = y >> tz;
                    if (z + 1).is_power_of_two() && tz > 0 {
                        let k = (z + 1).trailing_zeros() as u16;
                        let x = self.extract(a, tz, k);
                        let lo = self.cst(tz, 0);
                        let c = self.concat(x, lo);
                        return self.zext(c, w);
                    }
                    if n.op == Op::Ite {
                        if let (Some(p), Some(q)) = (self.is_const(n.b), self.is_const(n.c)) {
                            let p = self.cst(w, p & y);
                            let q = self.cst(w, q & y);
                            return self.ite(n.a, p, q);
                        }
                    }
                } else if w == 1 {
                    // x & !x
                    let na = self.not(a);
                    if na == b {
                        return self.cst(1, 0);
                    }
                }
                if self.n(a).op == Op::ZExt && self.n(b).op == Op::ZExt {
                    let (x, y) = (self.n(a).a, self.n(b).a);
                    if self.w(x) == self.w(y) {
                        let r = self.bin(Op::And, x, y);
                        return self.zext(r, w);
                    }
                }
                if a > b && cb.is_none() {
                    return self.bin(Op::And, b, a);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                    let n = self.n(a);
                    if n.op == Op::Ite {
                        if let (Some(p), Some(q)) = (self.is_const(n.b), self.is_const(n.c)) {
                            let p = self.cst(w, p | y);
                            let q = self.cst(w, q | y);
                            return self.ite(n.a, p, q);
                        }
                    }
                } else if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.cst(1, 1);
                    }
                }
                for (x, y) in [(a, b), (b, a)] {
                    // concat(h, 0) | y with y < 2^lw
                    let mut n = self.n(x);
                    let mut zw = w;
                    if n.op == Op::ZExt {
                        zw = self.w(n.a);
                        n = self.n(n.a);
                    }
                    if n.op == Op::Concat && self.is_const(n.b) == Some(0) {
                        let lw = self.w(n.b);
                        if self.rng(y).1 <= mask(lw) {
                            let l = self.extract(y, 0, lw);
                            let c = self.concat(n.a, l);
                            debug_assert_eq!(self.w(c), zw);
                            return self.zext(c, w);
                        }
                    }
                }
                if self.n(a).op == Op::ZExt && self.n(b).op == Op::ZExt {
                    let (x, y) = (self.n(a).a, self.n(b).a);
                    if self.w(x) == self.w(y) {
                        let r = self.bin(Op::Or, x, y);
                        return self.zext(r, w);
                    }
                }
                if a > b && cb.is_none() {
                    return self.bin(Op::Or, b, a);
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let n = self.n(a);
                    if n.op == Op::Xor {
                        if let Some(x) = self.is_const(n.b) {
                            let k = self.cst(w, x ^ y);
                            return self.bin(Op::Xor, n.a, k);
                        }
                    }
                    if n.op == Op::Ite && (self.is_const(n.b).is_some() || self.is_const(n.c).is_some()) && w > 1 {
                        let p = self.bin(Op::Xor, n.b, b);
                        let q = self.bin(Op::Xor, n.c, b);
                        return self.ite(n.a, p, q);
                    }
                    if w == 1 {
                        // !(a < b) = b <= a
                        match n.op {
                            Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                            Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                            Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                            Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                            _ => {}
                        }
                    }
                }
                if a > b && cb.is_none() {
                    return self.bin(Op::Xor, b, a);
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let y = y as u16;
                    let x = self.extract(a, 0, w - y);
                    let z = self.cst(y, 0);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let y = y as u16;
                    let x = self.extract(a, y, w - y);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    let y = (y.min(w as u128 - 1)) as u16;
                    if self.rng(a).1 <= mask(w - 1) {
                        let k = self.cst(w, y as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            Op::Eq => return self.eq(a, b),
            Op::Ult => {
                if a == b {
                    return self.cst(1, 0);
                }
                let (ra, rb) = (self.rng(a), self.rng(b));
                if ra.1 < rb.0 {
                    return self.cst(1, 1);
                }
                if ra.0 >= rb.1 {
                    return self.cst(1, 0);
                }
                if cb == Some(1) {
                    let z = self.cst(w, 0);
                    return self.eq(a, z);
                }
                if ca == Some(m - 1) {
                    let z = self.cst(w, m);
                    return self.eq(b, z);
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b {
                    return self.cst(1, 1);
                }
                let (ra, rb) = (self.rng(a), self.rng(b));
                if ra.1 <= rb.0 {
                    return self.cst(1, 1);
                }
                if ra.0 > rb.1 {
                    return self.cst(1, 0);
                }
                if let Some(x) = ca {
                    // c <= b  ==  c-1 < b
                    let k = self.cst(w, x - 1);
                    return self.bin(Op::Ult, k, b);
                }
                if let Some(y) = cb {
                    // a <= c  ==  a < c+1 (c is not the maximum: the ranges would have decided)
                    let k = self.cst(w, y + 1);
                    return self.bin(Op::Ult, a, k);
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.cst(1, (op == Op::Sle) as u128);
                }
                let h = mask(w - 1);
                if self.rng(a).1 <= h && self.rng(b).1 <= h {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
                if op == Op::Slt && cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if op == Op::Slt && ca == Some(m) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if op == Op::Sle && ca == Some(0) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if let Some(r) = self.cmp_narrow(op, a, b) {
                    return r;
                }
            }
            _ => {}
        }
        self.raw(op, rw, a, b, 0)
    }

    fn cmp_narrow(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        let uns = matches!(op, Op::Ult | Op::Ule);
        if uns && na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return Some(self.bin(op, na.a, nb.a));
        }
        if uns && na.op == Op::ZExt {
            if let Some(y) = cb {
                // (if y did not fit, the range check would have decided)
                let iw = self.w(na.a);
                if y <= mask(iw) {
                    let k = self.cst(iw, y);
                    return Some(self.bin(op, na.a, k));
                }
            }
        }
        if uns && nb.op == Op::ZExt {
            if let Some(x) = ca {
                let iw = self.w(nb.a);
                if x <= mask(iw) {
                    let k = self.cst(iw, x);
                    return Some(self.bin(op, k, nb.a));
                }
            }
        }
        if na.op == Op::Ite && cb.is_some() && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) {
            let p = self.bin(op, na.b, b);
            let q = self.bin(op, na.c, b);
            return Some(self.ite(na.a, p, q));
        }
        if nb.op == Op::Ite && ca.is_some() && (self.is_const(nb.b).is_some() || self.is_const(nb.c).is_some()) {
            let p = self.bin(op, a, nb.b);
            let q = self.bin(op, a, nb.c);
            return Some(self.ite(nb.a, p, q));
        }
        None
    }

    fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(1, 1);
        }
        let w = self.w(a);
        let (ra, rb) = (self.rng(a), self.rng(b));
        if ra.1 < rb.0 || rb.1 < ra.0 {
            return self.cst(1, 0);
        }
        if let Some(y) = self.is_const(b) {
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            let n = self.n(a);
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if y > mask(iw) {
                        return self.cst(1, 0);
                    }
                    let k = self.cst(iw, y);
                    return self.eq(n.a, k);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    if sext(y & mask(iw), iw) as u128 & mask(w) != y {
                        return self.cst(1, 0);
                    }
                    let k = self.cst(iw, y);
                    return self.eq(n.a, k);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let kh = self.cst(w - lw, y >> lw);
                    let kl = self.cst(lw, y);
                    let h = self.eq(n.a, kh);
                    let l = self.eq(n.b, kl);
                    return self.bin(Op::And, h, l);
                }
                Op::Ite => {
                    if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                        let p = self.eq(n.b, b);
                        let q = self.eq(n.c, b);
                        return self.ite(n.a, p, q);
                    }
                }
                Op::Add => {
                    if let Some(x) = self.is_const(n.b) {
                        let k = self.cst(w, y.wrapping_sub(x));
                        return self.eq(n.a, k);
                    }
                }
                Op::Sub => {
                    if y == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Xor => {
                    if let Some(x) = self.is_const(n.b) {
                        let k = self.cst(w, y ^ x);
                        return self.eq(n.a, k);
                    }
                    if y == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Or => {
                    if y == 0 {
                        let z = self.cst(w, 0);
                        let p = self.eq(n.a, z);
                        let q = self.eq(n.b, z);
                        return self.bin(Op::And, p, q);
                    }
                }
                _ => {}
            }
        } else {
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if w == 1 {
                let x = self.raw_xor(a, b);
                return self.not(x);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.eq(na.a, nb.a);
                let l = self.eq(na.b, nb.b);
                return self.bin(Op::And, h, l);
            }
            if na.op == Op::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                let p = self.eq(na.b, b);
                let q = self.eq(na.c, b);
                return self.ite(na.a, p, q);
            }
            if nb.op == Op::Ite && self.is_const(nb.b).is_some() && self.is_const(nb.c).is_some() {
                let p = self.eq(nb.b, a);
                let q = self.eq(nb.c, a);
                return self.ite(nb.a, p, q);
            }
            if a > b {
                return self.eq(b, a);
            }
        }
        self.raw(Op::Eq, 1, a, b, 0)
    }
    fn raw_xor(&mut self, a: E, b: E) -> E {
        self.bin(Op::Xor, a, b)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.is_const(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            let (ca, cb) = (self.is_const(a), self.is_const(b));
            match (ca, cb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let n = self.n(c);
        if n.op == Op::Xor && self.is_const(n.b) == Some(1) {
            return self.ite(n.a, b, a);
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if nb.op == Op::Ite && nb.b == a {
            // c ? a : (c2 ? a : d)
            let o = self.bin(Op::Or, c, nb.a);
            return self.ite(o, a, nb.c);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let r = self.ite(c, na.a, nb.a);
            return self.zext(r, w);
        }
        self.raw(Op::Ite, w, c, a, b)
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        if let Some(v) = self.is_const(a) {
            return self.cst(w, v);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let p = self.zext(n.b, w);
            let q = self.zext(n.c, w);
            return self.ite(n.a, p, q);
        }
        self.raw(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.is_const(a) {
            return self.cst(w, sext(v, aw) as u128);
        }
        if self.rng(a).1 <= mask(aw - 1) && aw > 1 {
            return self.zext(a, w);
        }
        if aw == 1 {
            let p = self.cst(w, u128::MAX);
            let q = self.cst(w, 0);
            return self.ite(a, p, q);
        }
        let n = self.n(a);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::Ite && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let p = self.sext(n.b, w);
            let q = self.sext(n.c, w);
            return self.ite(n.a, p, q);
        }
        self.raw(Op::SExt, w, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        if let Some(v) = self.is_const(a) {
            return self.cst(w, v >> lo);
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.c as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        // bits known to be zero
        if self.rng(a).1 >> lo == 0 {
            return self.cst(w, 0);
        }
        self.raw(Op::Extract, w, a, 0, lo as E)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let Some(x) = self.is_const(h) {
            if let Some(y) = self.is_const(l) {
                return self.cst(w, x << lw | y);
            }
            if x == 0 {
                return self.zext(l, w);
            }
        }
        let (nh, nl) = (self.n(h), self.n(l));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.c == nl.c + lw as u32 {
            return self.extract(nl.a, nl.c as u16, w);
        }
        if nh.op == Op::ZExt {
            let c = self.concat(nh.a, l);
            return self.zext(c, w);
        }
        // right-assoc: concat(concat(a,b),c) -> concat(a, concat(b,c)); lets adjacent extracts meet
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        if nl.op == Op::Concat && nh.op == Op::Extract {
            let nlh = self.n(nl.a);
            if nlh.op == Op::Extract && nlh.a == nh.a && nh.c == nlh.c + self.w(nl.a) as u32 {
                let m = self.extract(nh.a, nlh.c as u16, hw + self.w(nl.a));
                return self.concat(m, nl.b);
            }
        }
        // bytes of an ite with a common condition
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let p = self.concat(nh.b, nl.b);
            let q = self.concat(nh.c, nl.c);
            return self.ite(nh.a, p, q);
        }
        if nh.op == Op::Ite && self.is_const(nh.b).is_some() && self.is_const(nh.c).is_some() && self.is_const(l).is_some() {
            let p = self.concat(nh.b, l);
            let q = self.concat(nh.c, l);
            return self.ite(nh.a, p, q);
        }
        if nl.op == Op::Ite && self.is_const(nl.b).is_some() && self.is_const(nl.c).is_some() && self.is_const(h).is_some() {
            let p = self.concat(h, nl.b);
            let q = self.concat(h, nl.c);
            return self.ite(nl.a, p, q);
        }
        self.raw(Op::Concat, w, h, l, 0)
    }

    /// Value of `e` when variables have the given values (missing: 0).
    pub fn eval(&self, e: E, model: &[u64]) -> u128 {
        if let Some(v) = self.is_const(e) {
            return v;
        }
        let mut memo: HashMap<E, u128> = HashMap::new();
        self.eval_memo(e, model, &mut memo)
    }
    pub fn eval_memo(&self, e: E, model: &[u64], memo: &mut HashMap<E, u128>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => {
                return model.get(n.a as usize).copied().unwrap_or(0) as u128 & mask(n.w);
            }
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let v = match n.op {
            Op::Ite => {
                if self.eval_memo(n.a, model, memo) == 1 {
                    self.eval_memo(n.b, model, memo)
                } else {
                    self.eval_memo(n.c, model, memo)
                }
            }
            Op::ZExt => self.eval_memo(n.a, model, memo),
            Op::SExt => {
                let aw = self.w(n.a);
                sext(self.eval_memo(n.a, model, memo), aw) as u128 & mask(n.w)
            }
            Op::Extract => self.eval_memo(n.a, model, memo) >> n.c & mask(n.w),
            Op::Concat => {
                let lw = self.w(n.b) as u32;
                self.eval_memo(n.a, model, memo) << lw | self.eval_memo(n.b, model, memo)
            }
            op => {
                let x = self.eval_memo(n.a, model, memo);
                let y = self.eval_memo(n.b, model, memo);
                // SMT-LIB semantics of division by zero
                let aw = self.w(n.a);
                Self::fold(op, aw, x, y).unwrap_or_else(|| match op {
                    Op::UDiv => mask(aw),
                    Op::URem => x,
                    Op::SDiv if y == 0 => {
                        if sext(x, aw) < 0 {
                            1
                        } else {
                            mask(aw)
                        }
                    }
                    Op::SDiv => x, // MIN / -1
                    Op::SRem if y == 0 => x,
                    Op::SRem => 0,
                    _ => unreachable!(),
                })
            }
        };
        memo.insert(e, v);
        v
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 {
            return "..".into();
        }
        let d = depth - 1;
        match n.op {
            Op::Const => format!("{:#x}", self.consts[n.a as usize]),
            Op::Var => format!("v{}", n.a),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, d), self.show(n.b, d), self.show(n.c, d)),
            Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, d)),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, d), n.c, n.w),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, d), self.show(n.b, d)),
        }
    }
}
