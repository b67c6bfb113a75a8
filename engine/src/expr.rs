//! Hash-consed bit-vector expressions. Expressions over exactly one 8-bit input are kept in a canonical
//! form (`Ut`: the complete 256-entry function table), everything else is an ordinary term DAG.
use crate::ir::{sext128, BinOp};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32; // 0 = "not an expression"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Ut { var: u16, t: u32 },
    Var(u16), // wide input
    Bin(BinOp, E, E),
    Ite(E, E, E),
    Zext(E),
    Sext(E),
    Extract(E, u16), // low bit
    Concat(E, E),    // hi, lo
    Lookup(u32, E),  // list table, index (64 bit)
}

pub type Mask = [u64; 4];

#[inline]
pub fn pos(var: u16) -> usize {
    (var & 127) as usize
}

pub struct Table {
    pub v: Box<[u64; 256]>,
    pub mask: Mask, // bit i = low bit of v[i]
}

#[derive(Clone)]
pub struct VarInfo {
    pub w: u32,
    pub dom: Mask, // initial domain (8-bit vars)
}

pub struct Pool {
    pub k: Vec<K>,
    pub w: Vec<u16>,
    pub vars: Vec<u128>,
    map: FxMap<(K, u16), E>,
    pub tables: Vec<Table>,
    tmap: FxMap<Box<[u64; 256]>, u32>,
    tcache: FxMap<(u8, u16, u32, u8, u64), u32>,
    pub lists: Vec<(u32, std::sync::Arc<Vec<u64>>)>,
    lmap: FxMap<(u32, Vec<u64>), u32>,
    pub vinfo: Vec<VarInfo>,
    memo: Vec<(u32, u128)>,
    excache: FxMap<(E, u32, u32), E>,
    epoch: u32,
    pub t_true: E,
    pub t_false: E,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn mask_any(m: &Mask) -> bool {
    m[0] | m[1] | m[2] | m[3] != 0
}
pub fn mask_and(a: &Mask, b: &Mask) -> Mask {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn mask_andn(a: &Mask, b: &Mask) -> Mask {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn mask_has(a: &Mask, i: u64) -> bool {
    a[(i >> 6) as usize & 3] >> (i & 63) & 1 == 1
}
pub fn mask_count(a: &Mask) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn mask_first(a: &Mask) -> u64 {
    for i in 0..4 {
        if a[i] != 0 {
            return i as u64 * 64 + a[i].trailing_zeros() as u64;
        }
    }
    0
}

#[inline]
pub fn fold(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    use BinOp::*;
    match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => {
            if b == 0 {
                m
            } else if w <= 64 {
                (a as u64 / b as u64) as u128
            } else {
                a / b
            }
        }
        URem => {
            if b == 0 {
                a
            } else if w <= 64 {
                (a as u64 % b as u64) as u128
            } else {
                a % b
            }
        }
        SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { w as u128 - 1 } else { b };
            ((x >> s) as u128) & m
        }
        Eq => (a == b) as u128,
        Ne => (a != b) as u128,
        Ult => (a < b) as u128,
        Ule => (a <= b) as u128,
        Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Sle => (sext128(a, w) <= sext128(b, w)) as u128,
    }
}

fn is_cmp(op: BinOp) -> bool {
    matches!(op, BinOp::Eq | BinOp::Ne | BinOp::Ult | BinOp::Ule | BinOp::Slt | BinOp::Sle)
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            k: vec![],
            w: vec![],
            vars: vec![],
            map: Default::default(),
            tables: vec![],
            tmap: Default::default(),
            tcache: Default::default(),
            lists: vec![],
            lmap: Default::default(),
            vinfo: vec![],
            memo: vec![],
            excache: Default::default(),
            epoch: 0,
            t_true: 0,
            t_false: 0,
        };
        // index 0 reserved
        p.k.push(K::Const(0));
        p.w.push(0);
        p.vars.push(0);
        p.memo.push((0, 0));
        p.t_false = p.cst(1, 0);
        p.t_true = p.cst(1, 1);
        p
    }
    pub fn len(&self) -> usize {
        self.k.len()
    }
    pub fn mem_est(&self) -> usize {
        self.k.len() * 130 + self.tables.len() * 2300 + self.excache.len() * 24
    }

    fn mk(&mut self, k: K, w: u32) -> E {
        if let Some(e) = self.map.get(&(k, w as u16)) {
            return *e;
        }
        let vars = match k {
            K::Const(_) => 0,
            K::Ut { var, .. } | K::Var(var) => 1u128 << (var & 127),
            K::Bin(_, a, b) | K::Concat(a, b) => self.vars[a as usize] | self.vars[b as usize],
            K::Ite(a, b, c) => self.vars[a as usize] | self.vars[b as usize] | self.vars[c as usize],
            K::Zext(a) | K::Sext(a) | K::Extract(a, _) | K::Lookup(_, a) => self.vars[a as usize],
        };
        let e = self.k.len() as u32;
        self.k.push(k);
        self.w.push(w as u16);
        self.vars.push(vars);
        self.memo.push((0, 0));
        self.map.insert((k, w as u16), e);
        e
    }
    pub fn cst(&mut self, w: u32, c: u128) -> E {
        self.mk(K::Const(c & mask(w)), w)
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        if let K::Const(c) = self.k[e as usize] {
            Some(c)
        } else {
            None
        }
    }
    pub fn width(&self, e: E) -> u32 {
        self.w[e as usize] as u32
    }
    fn intern(&mut self, t: Box<[u64; 256]>) -> u32 {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let mut m = [0u64; 4];
        for i in 0..256 {
            m[i >> 6] |= (t[i] & 1) << (i & 63);
        }
        let i = self.tables.len() as u32;
        self.tables.push(Table { v: t.clone(), mask: m });
        self.tmap.insert(t, i);
        i
    }
    /// Input number `pos` with width and domain. Different paths may give the same position different
    /// domains: each (position, width, domain) gets its own variant `variant*128 + pos`.
    pub fn declare(&mut self, pos: usize, w: u32, dom: Mask) -> E {
        assert!(pos < 128);
        let mut var = pos;
        loop {
            if var >= self.vinfo.len() {
                self.vinfo.resize(var + 1, VarInfo { w: 0, dom: [0; 4] });
            }
            let vi = &mut self.vinfo[var];
            if vi.w == 0 {
                *vi = VarInfo { w, dom };
                break;
            }
            if vi.w == w && vi.dom == dom {
                break;
            }
            var += 128;
        }
        assert!(var < 65536);
        if w == 8 {
            let mut t = Box::new([0u64; 256]);
            for i in 0..256 {
                t[i] = i as u64
            }
            let t = self.intern(t);
            self.mk_ut(var as u16, t, 8)
        } else {
            self.mk(K::Var(var as u16), w)
        }
    }
    pub fn mk_ut(&mut self, var: u16, t: u32, w: u32) -> E {
        if let Some(e) = self.map.get(&(K::Ut { var, t }, w as u16)) {
            return *e;
        }
        // constant over the initial domain?
        let dom = self.vinfo[var as usize].dom;
        let f = mask_first(&dom) as usize;
        let tb = &self.tables[t as usize].v;
        let c = tb[f];
        let mut same = true;
        for i in f..256 {
            if tb[i] != c && mask_has(&dom, i as u64) {
                same = false;
                break;
            }
        }
        if same {
            return self.cst(w, c as u128);
        }
        self.mk(K::Ut { var, t }, w)
    }
    fn ut(&self, e: E) -> Option<(u16, u32)> {
        if let K::Ut { var, t } = self.k[e as usize] {
            Some((var, t))
        } else {
            None
        }
    }
    /// apply a concrete function to a unary expression
    pub fn ut_map(&mut self, e: E, w: u32, f: impl Fn(u64) -> u64) -> Option<E> {
        let (var, t) = self.ut(e)?;
        if w > 64 {
            return None;
        }
        let m = mask(w) as u64;
        let mut n = Box::new([0u64; 256]);
        for i in 0..256 {
            n[i] = f(self.tables[t as usize].v[i]) & m;
        }
        let t = self.intern(n);
        Some(self.mk_ut(var, t, w))
    }
    pub fn ut_from(&mut self, var: u16, w: u32, f: impl Fn(u64) -> u64) -> E {
        let m = mask(w) as u64;
        let mut n = Box::new([0u64; 256]);
        for i in 0..256 {
            n[i] = f(i as u64) & m;
        }
        let t = self.intern(n);
        self.mk_ut(var, t, w)
    }

    pub fn not(&mut self, e: E) -> E {
        let t = self.t_true;
        self.bin(BinOp::Xor, 1, e, t)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::And, 1, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(BinOp::Or, 1, a, b)
    }

    /// w = operand width
    pub fn bin(&mut self, op: BinOp, w: u32, mut a: E, mut b: E) -> E {
        use BinOp::*;
        let rw = if is_cmp(op) { 1 } else { w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = fold(op, w, x, y);
            return self.cst(rw, r);
        }
        if op == Ne {
            let e = self.bin(Eq, w, a, b);
            return self.not(e);
        }
        let (mut ca, mut cb) = (ca, cb);
        if ca.is_some() && matches!(op, Add | Mul | And | Or | Xor | Eq) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        // unary tables
        let (ua, ub) = (self.ut(a), self.ut(b));
        match (ua, ub, ca, cb) {
            (Some((v, ta)), Some((v2, tb)), _, _) if v == v2 && w <= 64 => return self.ut_bin(op, w, v, ta, 0, tb as u64),
            (Some((v, ta)), _, _, Some(c)) if w <= 64 => return self.ut_bin(op, w, v, ta, 1, c as u64),
            (_, Some((v, tb)), Some(c), _) if w <= 64 => return self.ut_bin(op, w, v, tb, 2, c as u64),
            _ => {}
        }
        if a == b {
            match op {
                Sub | Xor => return self.cst(w, 0),
                And | Or => return a,
                Eq | Ule | Sle => return self.t_true,
                Ult | Slt => return self.t_false,
                URem | SRem => return self.cst(w, 0),
                _ => {}
            }
        }
        if let Some(c) = cb {
            let ones = mask(w);
            match op {
                Add | Sub | Or | Xor | Shl | LShr | AShr if c == 0 => return a,
                Mul | UDiv | SDiv if c == 1 => return a,
                Mul | And if c == 0 => return b,
                And if c == ones => return a,
                Or if c == ones => return b,
                URem if c == 1 => return self.cst(w, 0),
                Ult if c == 0 => return self.t_false,
                Ult if c == 1 => {
                    let z = self.cst(w, 0);
                    return self.bin(Eq, w, a, z);
                }
                Ule if c == ones => return self.t_true,
                Ule if c == 0 => return self.bin(Eq, w, a, b),
                Eq if w == 1 => return if c == 1 { a } else { self.not(a) },
                UDiv if c.is_power_of_two() => {
                    let s = self.cst(w, c.trailing_zeros() as u128);
                    return self.bin(LShr, w, a, s);
                }
                URem if c.is_power_of_two() => {
                    let s = self.cst(w, c - 1);
                    return self.bin(And, w, a, s);
                }
                Shl | LShr if c >= w as u128 => return self.cst(w, 0),
                _ => {}
            }
            if op == Sub {
                let n = self.cst(w, c.wrapping_neg());
                return self.bin(Add, w, a, n);
            }
            match self.k[a as usize] {
                K::Bin(Add, x, y) if op == Add => {
                    if let Some(d) = self.as_const(y) {
                        let s = self.cst(w, c.wrapping_add(d));
                        return self.bin(Add, w, x, s);
                    }
                }
                K::Bin(Add, x, y) if op == Eq => {
                    if let Some(d) = self.as_const(y) {
                        let s = self.cst(w, c.wrapping_sub(d));
                        return self.bin(Eq, w, x, s);
                    }
                }
                K::Bin(Xor, x, y) if op == Xor || op == Eq => {
                    if let Some(d) = self.as_const(y) {
                        let s = self.cst(w, c ^ d);
                        return if op == Xor { self.bin(Xor, w, x, s) } else { self.bin(Eq, w, x, s) };
                    }
                }
                K::Bin(And, x, y) if op == And => {
                    if let Some(d) = self.as_const(y) {
                        let s = self.cst(w, c & d);
                        return self.bin(And, w, x, s);
                    }
                }
                K::Bin(Or, x, y) if op == Or => {
                    if let Some(d) = self.as_const(y) {
                        let s = self.cst(w, c | d);
                        return self.bin(Or, w, x, s);
                    }
                }
                K::Bin(Or, x, y) if op == And || (op == Eq && c == 0) => {
                    // distribute: used by byte-recombination idioms
                    if op == Eq {
                        let z = b;
                        let l = self.bin(Eq, w, x, z);
                        let r = self.bin(Eq, w, y, z);
                        return self.and(l, r);
                    }
                }
                K::Zext(x) => {
                    let wx = self.width(x);
                    let fits = c <= mask(wx);
                    match op {
                        Eq | Ult | Ule => {
                            if fits {
                                let k = self.cst(wx, c);
                                return self.bin(op, wx, x, k);
                            }
                            return if op == Eq { self.t_false } else { self.t_true };
                        }
                        Slt | Sle => {
                            // zext value is non-negative
                            if sext128(c, w) < 0 {
                                return self.t_false;
                            }
                            let o2 = if op == Slt { Ult } else { Ule };
                            return self.bin(o2, w, a, b);
                        }
                        And => {
                            let k = self.cst(wx, c & mask(wx));
                            let r = self.bin(And, wx, x, k);
                            return self.zext(r, w);
                        }
                        LShr if c < wx as u128 => {
                            let k = self.cst(wx, c);
                            let r = self.bin(LShr, wx, x, k);
                            return self.zext(r, w);
                        }
                        LShr => return self.cst(w, 0),
                        Shl if self.ut(x).is_some() && wx + (c as u32) <= 64 && w <= 64 => {}
                        _ => {}
                    }
                }
                K::Concat(h, l) => {
                    let (wh, wl) = (self.width(h), self.width(l));
                    let (chi, clo) = (c >> wl, c & mask(wl));
                    match op {
                        Eq => {
                            let k1 = self.cst(wh, chi);
                            let k2 = self.cst(wl, clo);
                            let x = self.bin(Eq, wh, h, k1);
                            let y = self.bin(Eq, wl, l, k2);
                            return self.and(x, y);
                        }
                        And | Or | Xor => {
                            let k1 = self.cst(wh, chi);
                            let k2 = self.cst(wl, clo);
                            let x = self.bin(op, wh, h, k1);
                            let y = self.bin(op, wl, l, k2);
                            return self.concat(x, y);
                        }
                        LShr => {
                            let x = self.extract(a, c as u32, w - c as u32);
                            return self.zext(x, w);
                        }
                        _ => {}
                    }
                }
                K::Ite(cc, x, y) => {
                    if self.as_const(x).is_some() || self.as_const(y).is_some() {
                        let p = self.bin(op, w, x, b);
                        let q = self.bin(op, w, y, b);
                        return self.ite(cc, p, q);
                    }
                }
                _ => {}
            }
            if op == And && w > 8 && w <= 128 {
                // keep low k bits
                let n = (c + 1).trailing_zeros();
                if c != mask(w) && (c & (c + 1)) == 0 && n > 0 && n < w {
                    let x = self.extract(a, 0, n);
                    return self.zext(x, w);
                }
            }
        }
        if let Some(c) = ca {
            // const op x  (non commutative)
            match (op, self.k[b as usize]) {
                (Ult, K::Zext(x)) | (Ule, K::Zext(x)) => {
                    let wx = self.width(x);
                    if c <= mask(wx) {
                        let k = self.cst(wx, c);
                        return self.bin(op, wx, k, x);
                    }
                    return self.t_false;
                }
                (Slt, K::Zext(_)) | (Sle, K::Zext(_)) => {
                    if sext128(c, w) < 0 {
                        return self.t_true;
                    }
                    let o2 = if op == Slt { Ult } else { Ule };
                    return self.bin(o2, w, a, b);
                }
                (_, K::Ite(cc, x, y)) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                    let p = self.bin(op, w, a, x);
                    let q = self.bin(op, w, a, y);
                    return self.ite(cc, p, q);
                }
                (Ult, _) if c == mask(w) => return self.t_false,
                (Ule, _) if c == 0 => return self.t_true,
                (Shl, _) | (LShr, _) | (AShr, _) | (UDiv, _) | (URem, _) if c == 0 => return a,
                _ => {}
            }
        }
        if w == 1 {
            // absorption
            match (op, self.k[a as usize], self.k[b as usize]) {
                (And, K::Bin(And, x, y), _) if x == b || y == b => return a,
                (And, _, K::Bin(And, x, y)) if x == a || y == a => return b,
                (Or, K::Bin(Or, x, y), _) if x == b || y == b => return a,
                (Or, _, K::Bin(Or, x, y)) if x == a || y == a => return b,
                _ => {}
            }
            if op == And || op == Or {
                let na = self.not(a);
                if na == b {
                    return if op == And { self.t_false } else { self.t_true };
                }
            }
        }
        if let (K::Zext(x), K::Zext(y)) = (self.k[a as usize], self.k[b as usize]) {
            let (wx, wy) = (self.width(x), self.width(y));
            if wx == wy && matches!(op, Eq | Ult | Ule) {
                return self.bin(op, wx, x, y);
            }
        }
        if op == Eq {
            if let (K::Concat(h, l), K::Concat(h2, l2)) = (self.k[a as usize], self.k[b as usize]) {
                let (wh, wl) = (self.width(h), self.width(l));
                if wl == self.width(l2) {
                    let x = self.bin(Eq, wh, h, h2);
                    let y = self.bin(Eq, wl, l, l2);
                    return self.and(x, y);
                }
            }
        }
        // or of disjoint byte pieces -> concat  (shl(zext(x), k) | zext(y))
        if op == Or && w > 8 {
            if let Some(e) = self.or_concat(w, a, b) {
                return e;
            }
            if let Some(e) = self.or_concat(w, b, a) {
                return e;
            }
        }
        self.mk(K::Bin(op, a, b), rw)
    }

    fn or_concat(&mut self, w: u32, a: E, b: E) -> Option<E> {
        // a = x << k with x zext, b = zext(y) with width(y) <= k
        if let (K::Bin(BinOp::Shl, x, kk), K::Zext(y)) = (self.k[a as usize], self.k[b as usize]) {
            let k = self.as_const(kk)? as u32;
            let wy = self.width(y);
            if wy <= k && k < w {
                let lo = self.zext(y, k);
                let hi = self.extract(x, 0, w - k);
                return Some(self.concat(hi, lo));
            }
        }
        None
    }

    fn ut_bin(&mut self, op: BinOp, w: u32, var: u16, ta: u32, mode: u8, other: u64) -> E {
        let rw = if is_cmp(op) { 1 } else { w };
        let key = (op as u8, w as u16, ta, mode, other);
        if let Some(t) = self.tcache.get(&key) {
            let t = *t;
            return self.mk_ut(var, t, rw);
        }
        let mut n = Box::new([0u64; 256]);
        for i in 0..256 {
            let x = self.tables[ta as usize].v[i] as u128;
            n[i] = match mode {
                0 => fold(op, w, x, self.tables[other as usize].v[i] as u128),
                1 => fold(op, w, x, other as u128),
                _ => fold(op, w, other as u128, x),
            } as u64;
        }
        let t = self.intern(n);
        self.tcache.insert(key, t);
        self.mk_ut(var, t, rw)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.width(a);
        if let Some((v, tc)) = self.ut(c) {
            if w <= 64 {
                let ga = self.ut_or_const(a, v);
                let gb = self.ut_or_const(b, v);
                if let (Some(ga), Some(gb)) = (ga, gb) {
                    let mut n = Box::new([0u64; 256]);
                    for i in 0..256 {
                        n[i] = if self.tables[tc as usize].v[i] == 1 { self.gv(ga, i) } else { self.gv(gb, i) };
                    }
                    let t = self.intern(n);
                    return self.mk_ut(v, t, w);
                }
            }
        }
        if w == 1 {
            // boolean ite -> and/or when one arm is constant
            if let Some(k) = self.as_const(a) {
                return if k == 1 {
                    self.or(c, b)
                } else {
                    let n = self.not(c);
                    self.and(n, b)
                };
            }
            if let Some(k) = self.as_const(b) {
                return if k == 1 {
                    let n = self.not(c);
                    self.or(n, a)
                } else {
                    self.and(c, a)
                };
            }
        }
        if let K::Bin(BinOp::Xor, x, y) = self.k[c as usize] {
            if y == self.t_true {
                return self.ite(x, b, a);
            }
        }
        // nested same condition
        let a = if let K::Ite(c2, x, _) = self.k[a as usize] {
            if c2 == c {
                x
            } else {
                a
            }
        } else {
            a
        };
        let b = if let K::Ite(c2, _, y) = self.k[b as usize] {
            if c2 == c {
                y
            } else {
                b
            }
        } else {
            b
        };
        if a == b {
            return a;
        }
        self.mk(K::Ite(c, a, b), w)
    }
    fn ut_or_const(&self, e: E, v: u16) -> Option<(u8, u64)> {
        match self.k[e as usize] {
            K::Const(c) => Some((1, c as u64)),
            K::Ut { var, t } if var == v => Some((0, t as u64)),
            _ => None,
        }
    }
    fn gv(&self, g: (u8, u64), i: usize) -> u64 {
        if g.0 == 1 {
            g.1
        } else {
            self.tables[g.1 as usize].v[i]
        }
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.width(a);
        if wa == w {
            return a;
        }
        assert!(wa < w);
        match self.k[a as usize] {
            K::Const(c) => self.cst(w, c),
            K::Ut { var, t } if w <= 64 => self.mk_ut(var, t, w),
            K::Zext(x) => self.zext(x, w),
            K::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let x = self.zext(x, w);
                let y = self.zext(y, w);
                self.ite(c, x, y)
            }
            _ => self.mk(K::Zext(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.width(a);
        if wa == w {
            return a;
        }
        match self.k[a as usize] {
            K::Const(c) => {
                let v = sext128(c, wa) as u128;
                self.cst(w, v)
            }
            K::Ut { .. } if w <= 64 => self.ut_map(a, w, |x| sext128(x as u128, wa) as u64).unwrap(),
            K::Zext(_) => self.zext(a, w),
            K::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let x = self.sext(x, w);
                let y = self.sext(y, w);
                self.ite(c, x, y)
            }
            _ => self.mk(K::Sext(a), w),
        }
    }
    pub fn extract(&mut self, a: E, lo: u32, n: u32) -> E {
        let wa = self.width(a);
        if lo == 0 && n == wa {
            return a;
        }
        assert!(lo + n <= wa, "extract {}+{} of {}", lo, n, wa);
        if matches!(self.k[a as usize], K::Concat(..) | K::Ite(..) | K::Bin(..)) {
            // shared subterms are visited once
            if let Some(e) = self.excache.get(&(a, lo, n)) {
                return *e;
            }
            let e = self.extract_in(a, lo, n);
            self.excache.insert((a, lo, n), e);
            return e;
        }
        self.extract_in(a, lo, n)
    }
    fn extract_in(&mut self, a: E, lo: u32, n: u32) -> E {
        match self.k[a as usize] {
            K::Const(c) => self.cst(n, c >> lo),
            K::Ut { .. } => self.ut_map(a, n, |x| x >> lo).unwrap(),
            K::Zext(x) => {
                let wx = self.width(x);
                if lo >= wx {
                    self.cst(n, 0)
                } else if lo + n <= wx {
                    self.extract(x, lo, n)
                } else {
                    let y = self.extract(x, lo, wx - lo);
                    self.zext(y, n)
                }
            }
            K::Sext(x) if lo + n <= self.width(x) => self.extract(x, lo, n),
            K::Extract(x, l2) => self.extract(x, lo + l2 as u32, n),
            K::Concat(h, l) => {
                let wl = self.width(l);
                if lo + n <= wl {
                    self.extract(l, lo, n)
                } else if lo >= wl {
                    self.extract(h, lo - wl, n)
                } else {
                    let x = self.extract(l, lo, wl - lo);
                    let y = self.extract(h, 0, n - (wl - lo));
                    self.concat(y, x)
                }
            }
            K::Ite(c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                let x = self.extract(x, lo, n);
                let y = self.extract(y, lo, n);
                self.ite(c, x, y)
            }
            K::Bin(op, x, y) if matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) => {
                let x = self.extract(x, lo, n);
                let y = self.extract(y, lo, n);
                self.bin(op, n, x, y)
            }
            K::Bin(op, x, y) if lo == 0 && matches!(op, BinOp::Add | BinOp::Sub | BinOp::Mul) => {
                let x = self.extract(x, lo, n);
                let y = self.extract(y, lo, n);
                self.bin(op, n, x, y)
            }
            _ => self.mk(K::Extract(a, lo as u16), n),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.width(h), self.width(l));
        let w = wh + wl;
        if let Some(c) = self.as_const(h) {
            if c == 0 {
                return self.zext(l, w);
            }
            if let Some(d) = self.as_const(l) {
                return self.cst(w, (c << wl) | d);
            }
        }
        if w <= 64 {
            let v = self.ut(h).or(self.ut(l)).map(|x| x.0);
            if let Some(v) = v {
                if let (Some(gh), Some(gl)) = (self.ut_or_const(h, v), self.ut_or_const(l, v)) {
                    let mut n = Box::new([0u64; 256]);
                    for i in 0..256 {
                        n[i] = (self.gv(gh, i) << wl) | self.gv(gl, i);
                    }
                    let t = self.intern(n);
                    return self.mk_ut(v, t, w);
                }
            }
        }
        match (self.k[h as usize], self.k[l as usize]) {
            (K::Extract(x, lx), K::Extract(y, ly)) if x == y && lx as u32 == ly as u32 + wl => return self.extract(x, ly as u32, w),
            (K::Extract(x, lx), _) if lx as u32 == wl && {
                // low part of the same expression folded differently
                let lo = self.extract(x, 0, wl);
                lo == l
            } =>
            {
                return self.extract(x, 0, w)
            }
            (_, K::Concat(h2, l2)) => {
                // right-assoc normalisation: merge adjacent
                let m = self.concat_try(h, h2);
                if let Some(m) = m {
                    return self.concat(m, l2);
                }
            }
            _ => {}
        }
        self.mk(K::Concat(h, l), w)
    }
    fn concat_try(&mut self, h: E, l: E) -> Option<E> {
        if let (K::Extract(x, lx), K::Extract(y, ly)) = (self.k[h as usize], self.k[l as usize]) {
            if x == y && lx as u32 == ly as u32 + self.width(l) {
                let w = self.width(h) + self.width(l);
                return Some(self.extract(x, ly as u32, w));
            }
        }
        None
    }
    pub fn lookup(&mut self, w: u32, vals: Vec<u64>, idx: E) -> E {
        if let Some(c) = self.as_const(idx) {
            return self.cst(w, vals[c as usize] as u128);
        }
        if vals.iter().all(|x| *x == vals[0]) {
            return self.cst(w, vals[0] as u128);
        }
        let li = if let Some(i) = self.lmap.get(&(w, vals.clone())) {
            *i
        } else {
            let i = self.lists.len() as u32;
            self.lists.push((w, std::sync::Arc::new(vals.clone())));
            self.lmap.insert((w, vals), i);
            i
        };
        self.mk(K::Lookup(li, idx), w)
    }

    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        match self.k[e as usize] {
            K::Const(c) => return c,
            K::Ut { var, t } => return self.tables[t as usize].v[model[pos(var)] as usize & 255] as u128,
            K::Var(v) => return model[pos(v)] as u128,
            _ => {}
        }
        self.epoch = self.epoch.wrapping_add(1);
        if self.epoch == 0 {
            for m in self.memo.iter_mut() {
                m.0 = 0
            }
            self.epoch = 1;
        }
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: E, model: &[u64]) -> u128 {
        let k = self.k[e as usize];
        match k {
            K::Const(c) => return c,
            K::Ut { var, t } => return self.tables[t as usize].v[model[pos(var)] as usize & 255] as u128,
            K::Var(v) => return model[pos(v)] as u128,
            _ => {}
        }
        if self.memo[e as usize].0 == self.epoch {
            return self.memo[e as usize].1;
        }
        let r = match k {
            K::Bin(op, a, b) => {
                let x = self.eval_rec(a, model);
                let w = self.width(a);
                if w == 1 && op == BinOp::And && x == 0 {
                    0
                } else if w == 1 && op == BinOp::Or && x == 1 {
                    1
                } else {
                    let y = self.eval_rec(b, model);
                    fold(op, w, x, y)
                }
            }
            K::Ite(c, a, b) => {
                if self.eval_rec(c, model) == 1 {
                    self.eval_rec(a, model)
                } else {
                    self.eval_rec(b, model)
                }
            }
            K::Zext(a) => self.eval_rec(a, model),
            K::Sext(a) => {
                let v = self.eval_rec(a, model);
                sext128(v, self.width(a)) as u128 & mask(self.width(e))
            }
            K::Extract(a, lo) => (self.eval_rec(a, model) >> lo) & mask(self.width(e)),
            K::Concat(h, l) => {
                let x = self.eval_rec(h, model);
                let y = self.eval_rec(l, model);
                (x << self.width(l)) | y
            }
            K::Lookup(l, i) => {
                let ix = self.eval_rec(i, model) as usize;
                let li = &self.lists[l as usize].1;
                if ix < li.len() {
                    li[ix] as u128
                } else {
                    0
                }
            }
            _ => unreachable!(),
        };
        self.memo[e as usize] = (self.epoch, r);
        r
    }

    /// three-valued evaluation of a boolean under per-variable domains
    pub fn tri(&self, e: E, dom: &[Mask], fuel: &mut u32) -> Option<bool> {
        if *fuel == 0 {
            return None;
        }
        *fuel -= 1;
        match self.k[e as usize] {
            K::Const(c) => Some(c == 1),
            K::Ut { var, t } => {
                let m = &self.tables[t as usize].mask;
                let d = &dom[pos(var)];
                if !mask_any(&mask_and(d, m)) {
                    Some(false)
                } else if !mask_any(&mask_andn(d, m)) {
                    Some(true)
                } else {
                    None
                }
            }
            K::Bin(BinOp::And, a, b) => match self.tri(a, dom, fuel) {
                Some(false) => Some(false),
                Some(true) => self.tri(b, dom, fuel),
                None => match self.tri(b, dom, fuel) {
                    Some(false) => Some(false),
                    _ => None,
                },
            },
            K::Bin(BinOp::Or, a, b) => match self.tri(a, dom, fuel) {
                Some(true) => Some(true),
                Some(false) => self.tri(b, dom, fuel),
                None => match self.tri(b, dom, fuel) {
                    Some(true) => Some(true),
                    _ => None,
                },
            },
            K::Bin(BinOp::Xor, a, b) if self.width(a) == 1 => {
                let x = self.tri(a, dom, fuel)?;
                let y = self.tri(b, dom, fuel)?;
                Some(x ^ y)
            }
            K::Bin(op @ (BinOp::Ult | BinOp::Ule | BinOp::Eq | BinOp::Slt | BinOp::Sle), a, b) if self.width(a) <= 64 => {
                let (l1, h1) = self.range(a, dom, fuel);
                let (l2, h2) = self.range(b, dom, fuel);
                match op {
                    BinOp::Eq => {
                        if h1 < l2 || h2 < l1 {
                            Some(false)
                        } else if l1 == h1 && l2 == h2 && l1 == l2 {
                            Some(true)
                        } else {
                            None
                        }
                    }
                    BinOp::Ult => {
                        if h1 < l2 {
                            Some(true)
                        } else if l1 >= h2 {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    BinOp::Ule => {
                        if h1 <= l2 {
                            Some(true)
                        } else if l1 > h2 {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    _ => {
                        let w = self.width(a);
                        let s = 1u64 << (w - 1);
                        // only when both ranges stay within one sign half
                        if (l1 < s) != (h1 < s) || (l2 < s) != (h2 < s) {
                            return None;
                        }
                        let (l1, h1, l2, h2) =
                            (sext128(l1 as u128, w), sext128(h1 as u128, w), sext128(l2 as u128, w), sext128(h2 as u128, w));
                        if op == BinOp::Slt {
                            if h1 < l2 {
                                Some(true)
                            } else if l1 >= h2 {
                                Some(false)
                            } else {
                                None
                            }
                        } else if h1 <= l2 {
                            Some(true)
                        } else if l1 > h2 {
                            Some(false)
                        } else {
                            None
                        }
                    }
                }
            }
            _ => None,
        }
    }
    /// unsigned interval
    pub fn range(&self, e: E, dom: &[Mask], fuel: &mut u32) -> (u64, u64) {
        let w = self.width(e);
        let full = (0u64, mask(w.min(64)) as u64);
        if *fuel == 0 || w > 64 {
            return full;
        }
        *fuel -= 1;
        match self.k[e as usize] {
            K::Const(c) => (c as u64, c as u64),
            K::Ut { var, t } => {
                let d = &dom[pos(var)];
                let v = &self.tables[t as usize].v;
                let (mut lo, mut hi) = (u64::MAX, 0);
                for i in 0..256 {
                    if mask_has(d, i) {
                        lo = lo.min(v[i as usize]);
                        hi = hi.max(v[i as usize]);
                    }
                }
                if lo > hi {
                    full
                } else {
                    (lo, hi)
                }
            }
            K::Zext(a) => self.range(a, dom, fuel),
            K::Ite(_, a, b) => {
                let (l1, h1) = self.range(a, dom, fuel);
                let (l2, h2) = self.range(b, dom, fuel);
                (l1.min(l2), h1.max(h2))
            }
            K::Extract(a, 0) => {
                let (l, h) = if self.width(a) <= 64 { self.range(a, dom, fuel) } else { return full };
                if h <= full.1 {
                    (l, h)
                } else {
                    full
                }
            }
            K::Sext(a) => {
                let (l, h) = self.range(a, dom, fuel);
                let wa = self.width(a);
                if h < 1u64 << (wa - 1) {
                    (l, h)
                } else if l >= 1u64 << (wa - 1) {
                    (sext128(l as u128, wa) as u64 & full.1, sext128(h as u128, wa) as u64 & full.1)
                } else {
                    full
                }
            }
            K::Concat(hh, ll) => {
                let (l1, h1) = self.range(hh, dom, fuel);
                let (l2, h2) = self.range(ll, dom, fuel);
                let s = self.width(ll);
                ((l1 << s) | l2, (h1 << s) | h2)
            }
            K::Lookup(l, _) => {
                let li = &self.lists[l as usize].1;
                (*li.iter().min().unwrap(), *li.iter().max().unwrap())
            }
            K::Bin(op, a, b) if self.width(a) == w => {
                let (l1, h1) = self.range(a, dom, fuel);
                let (l2, h2) = self.range(b, dom, fuel);
                match op {
                    BinOp::Add => {
                        let lo = l1 as u128 + l2 as u128;
                        let hi = h1 as u128 + h2 as u128;
                        if hi <= full.1 as u128 {
                            (lo as u64, hi as u64)
                        } else if lo > full.1 as u128 && hi - (full.1 as u128 + 1) <= full.1 as u128 {
                            // wraps for every value (subtraction of a constant)
                            ((lo - full.1 as u128 - 1) as u64, (hi - full.1 as u128 - 1) as u64)
                        } else {
                            full
                        }
                    }
                    BinOp::Sub => {
                        if l1 >= h2 {
                            (l1 - h2, h1 - l2)
                        } else {
                            full
                        }
                    }
                    BinOp::Mul => {
                        let hi = h1 as u128 * h2 as u128;
                        if hi <= full.1 as u128 {
                            (l1 * l2, hi as u64)
                        } else {
                            full
                        }
                    }
                    BinOp::UDiv if l2 > 0 => (l1 / h2, h1 / l2),
                    BinOp::URem if l2 > 0 => (0, (h2 - 1).min(h1)),
                    BinOp::SDiv if l2 == h2 && l2 > 0 && h1 < 1u64 << (w - 1) => (l1 / l2, h1 / l2),
                    BinOp::SRem if l2 == h2 && l2 > 0 && h1 < 1u64 << (w - 1) => (0, (l2 - 1).min(h1)),
                    BinOp::And => (0, h1.min(h2)),
                    BinOp::Or | BinOp::Xor => {
                        let m = h1 | h2;
                        let top = if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() };
                        (if op == BinOp::Or { l1.max(l2) } else { 0 }, top)
                    }
                    BinOp::LShr if l2 == h2 && l2 < 64 => (l1 >> l2, h1 >> l2),
                    BinOp::Shl if l2 == h2 && l2 < 64 => {
                        let hi = (h1 as u128) << l2;
                        if hi <= full.1 as u128 {
                            (l1 << l2, hi as u64)
                        } else {
                            full
                        }
                    }
                    _ => full,
                }
            }
            _ => full,
        }
    }
}
