//! Parser for the textual LLVM IR of the linked program (harnesses + icalendar + every dependency + std).
//! Decodes each function into a compact instruction list for the symbolic interpreter.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Void,
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Void | Ty::Meta => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Void | Ty::Meta => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    /// scalar leaves: (byte offset, width in bits)
    pub fn leaves(&self, base: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Int(w) => out.push((base, *w)),
            Ty::Ptr => out.push((base, 64)),
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.leaves(base + i * t.size(), out)
                }
            }
            Ty::Struct(ts, _) => {
                for (i, t) in ts.iter().enumerate() {
                    t.leaves(base + self.field_off(i), out)
                }
            }
            _ => {}
        }
    }
    pub fn slots(&self) -> u32 {
        let mut v = vec![];
        self.leaves(0, &mut v);
        v.len() as u32
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("width of {:?}", self),
        }
    }
}

pub type Opnd = u32; // register index, or CONST|index into Func::consts
pub const CONST: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ne,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    Umax,
    Umin,
    Smax,
    Smin,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Abs,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Memcpy,
    Memset,
    Copy, // returns first argument
    IsConstant,
    Trap,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub moves: Box<[(u32, Opnd)]>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u32, d: u32, a: Opnd, b: Opnd },
    Cast { k: Cast, wf: u32, wt: u32, d: u32, a: Opnd },
    Move { d: u32, a: Opnd },
    Moves(Box<[(u32, Opnd)]>),
    Select { c: Opnd, items: Box<[(u32, Opnd, Opnd, u32)]> },
    Gep { d: u32, base: Opnd, off: u64, terms: Box<[(Opnd, u32, u64)]> },
    Load { d: u32, p: Opnd, w: u32 },
    LoadAgg { p: Opnd, items: Box<[(u32, u64, u32)]> },
    Store { p: Opnd, v: Opnd, w: u32 },
    StoreAgg { p: Opnd, items: Box<[(Opnd, u64, u32)]> },
    Alloca { d: u32, off: u64 },
    Br(Edge),
    CondBr { c: Opnd, t: Edge, f: Edge },
    Switch { v: Opnd, w: u32, cases: Box<[(u128, u32)]>, edges: Box<[Edge]> }, // edges[0] = default
    Ret(Box<[Opnd]>),
    Call { f: u32, args: Box<[Opnd]>, d: u32, n: u32 },
    CallInd { p: Opnd, args: Box<[Opnd]>, d: u32, n: u32 },
    Intr { k: Intr, w: u32, d: u32, args: Box<[Opnd]> },
    AtomicRmw { op: String, w: u32, d: u32, p: Opnd, v: Opnd },
    CmpXchg { w: u32, d: u32, p: Opnd, e: Opnd, n: Opnd },
    Unreachable,
    Nop,
}

pub struct Func {
    pub name: String,
    pub pretty: String,
    pub nparams: u32, // slots
    pub nregs: u32,
    pub frame: u64,
    pub consts: Vec<u128>,
    pub code: Vec<Inst>,
    pub defined: bool,
    pub weak: bool,
}

pub struct Global {
    pub name: String,
    pub constant: bool,
    pub data: Vec<u8>,
    pub addr: u64,
}

pub struct Program {
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<Global>, // const region first index by id
    pub consts_idx: Vec<usize>,
    pub mutable_idx: Vec<usize>,
}

pub const GCONST_BASE: u64 = 0x4000_0000;
pub const FUNC_BASE: u64 = 0x6000_0000;

struct Lx<'a> {
    s: &'a [u8],
    i: usize,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self {
        Lx { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected {:?} at {:?} in {:?}", c as char, self.i, self.rest_dbg());
        }
    }
    fn rest_dbg(&self) -> String {
        let st = self.i.saturating_sub(60);
        let en = (self.i + 100).min(self.s.len());
        format!("{} <<HERE>> {}", String::from_utf8_lossy(&self.s[st..self.i]), String::from_utf8_lossy(&self.s[self.i..en]))
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_word(self.s[j]) {
            j += 1
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1
            }
            self.i = j + 1;
            String::from_utf8_lossy(&self.s[st..j]).into_owned()
        } else {
            let w = self.peek_word();
            self.i += w.len();
            w.to_string()
        }
    }
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
}

fn is_type_start(w: &str, c: u8) -> bool {
    if c == b'{' || c == b'[' || c == b'<' || c == b'%' {
        return true;
    }
    w == "void" || w == "ptr" || w == "metadata" || w == "label" || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

fn is_value_start(w: &str, c: u8) -> bool {
    if matches!(c, b'%' | b'@' | b'{' | b'[' | b'<' | b'!' | b',' | b')' | 0) {
        return true;
    }
    if w.is_empty() {
        return true;
    }
    let b = w.as_bytes()[0];
    if b.is_ascii_digit() || b == b'-' {
        return true;
    }
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "inttoptr" | "ptrtoint" | "getelementptr" | "c" | "sub" | "add" | "trunc"
    )
}

pub struct Parser {
    types: HashMap<String, Ty>,
    gaddr: HashMap<String, u64>,
    fmap: HashMap<String, u32>,
}

struct FnCtx {
    slots: HashMap<String, u32>,
    nregs: u32,
    consts: Vec<u128>,
    cmap: HashMap<u128, u32>,
}

impl FnCtx {
    fn slot(&mut self, name: &str, n: u32) -> u32 {
        if let Some(s) = self.slots.get(name) {
            return *s;
        }
        let s = self.nregs;
        self.nregs += n;
        self.slots.insert(name.to_string(), s);
        s
    }
    fn cst(&mut self, c: u128) -> u32 {
        if let Some(i) = self.cmap.get(&c) {
            return CONST | *i;
        }
        let i = self.consts.len() as u32;
        self.consts.push(c);
        self.cmap.insert(c, i);
        CONST | i
    }
}

fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl Parser {
    fn ty(&self, l: &mut Lx) -> Ty {
        let c = l.peek();
        match c {
            b'{' => {
                l.i += 1;
                let mut v = vec![];
                while !l.eat(b'}') {
                    v.push(self.ty(l));
                    l.eat(b',');
                }
                Ty::Struct(v, false)
            }
            b'<' => {
                l.i += 1;
                if l.peek() == b'{' {
                    let t = self.ty(l);
                    l.expect(b'>');
                    if let Ty::Struct(v, _) = t {
                        return Ty::Struct(v, true);
                    }
                }
                panic!("vector type unsupported: {}", l.rest_dbg());
            }
            b'[' => {
                l.i += 1;
                let n: u64 = l.word().parse().unwrap();
                assert!(l.eat_word("x"));
                let t = self.ty(l);
                l.expect(b']');
                Ty::Arr(n, Box::new(t))
            }
            b'%' => {
                l.i += 1;
                let n = l.name();
                self.types.get(&n).cloned().unwrap_or_else(|| panic!("type {}", n))
            }
            _ => {
                let w = l.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "metadata" | "label" => Ty::Meta,
                    "float" => Ty::Int(32),
                    "double" => Ty::Int(64),
                    _ => {
                        if w.len() > 1 && w.starts_with('i') {
                            if let Ok(n) = w[1..].parse() {
                                return Ty::Int(n);
                            }
                        }
                        panic!("type? {:?} in {}", w, l.rest_dbg())
                    }
                }
            }
        }
    }

    fn global_addr(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) {
            return *a;
        }
        panic!("unknown global {}", n)
    }

    /// constant scalar
    fn cscalar(&self, l: &mut Lx, ty: &Ty) -> u128 {
        let c = l.peek();
        if c == b'@' {
            l.i += 1;
            let n = l.name();
            return self.global_addr(&n) as u128;
        }
        let w = l.word();
        let width = ty.width();
        match w {
            "true" => 1,
            "false" | "null" | "undef" | "poison" | "zeroinitializer" => 0,
            "inttoptr" | "ptrtoint" | "trunc" => {
                l.expect(b'(');
                let t = self.ty(l);
                let v = self.cscalar(l, &t);
                assert!(l.eat_word("to"));
                let t2 = self.ty(l);
                l.expect(b')');
                v & mask(t2.width())
            }
            "sub" | "add" => {
                while l.peek() != b'(' {
                    l.word();
                }
                l.expect(b'(');
                let t = self.ty(l);
                let a = self.cscalar(l, &t);
                l.expect(b',');
                let t2 = self.ty(l);
                let b = self.cscalar(l, &t2);
                l.expect(b')');
                (if w == "sub" { a.wrapping_sub(b) } else { a.wrapping_add(b) }) & mask(width)
            }
            "getelementptr" => {
                while l.peek() != b'(' {
                    l.word();
                    if l.peek() == b'(' && l.s[l.i - 1] == b'e' && l.s[..l.i].ends_with(b"inrange") {
                        l.skip_parens();
                    }
                }
                l.expect(b'(');
                let t = self.ty(l);
                l.expect(b',');
                let _pt = self.ty(l);
                let mut a = self.cscalar(l, &Ty::Ptr) as u64;
                let mut cur = t;
                let mut first = true;
                while l.eat(b',') {
                    let it = self.ty(l);
                    let iv = sext128(self.cscalar(l, &it), it.width()) as i64;
                    if first {
                        a = a.wrapping_add((cur.size() as i64).wrapping_mul(iv) as u64);
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(ts, _) => {
                                a = a.wrapping_add(cur.field_off(iv as usize));
                                let n = ts[iv as usize].clone();
                                cur = n;
                            }
                            Ty::Arr(_, e) => {
                                a = a.wrapping_add((e.size() as i64).wrapping_mul(iv) as u64);
                                let n = (**e).clone();
                                cur = n;
                            }
                            _ => panic!("gep into scalar"),
                        }
                    }
                }
                l.expect(b')');
                a as u128
            }
            _ => {
                if let Some(n) = w.strip_prefix('-') {
                    let v: u128 = n.parse().unwrap_or_else(|_| panic!("const {:?} {}", w, l.rest_dbg()));
                    (v.wrapping_neg()) & mask(width)
                } else {
                    let v: u128 = w.parse().unwrap_or_else(|_| panic!("const {:?} {}", w, l.rest_dbg()));
                    v & mask(width)
                }
            }
        }
    }

    fn cbytes(&self, l: &mut Lx, ty: &Ty, out: &mut Vec<u8>) {
        let start = out.len();
        let sz = ty.size() as usize;
        match ty {
            Ty::Int(_) | Ty::Ptr => {
                let v = self.cscalar(l, ty);
                out.extend_from_slice(&v.to_le_bytes()[..sz.min(16)]);
            }
            Ty::Arr(n, e) => {
                let c = l.peek();
                if c == b'c' && l.s.get(l.i + 1) == Some(&b'"') {
                    l.i += 2;
                    while l.s[l.i] != b'"' {
                        if l.s[l.i] == b'\\' {
                            let h = std::str::from_utf8(&l.s[l.i + 1..l.i + 3]).unwrap();
                            if let Ok(v) = u8::from_str_radix(h, 16) {
                                out.push(v);
                                l.i += 3;
                                continue;
                            } else if l.s[l.i + 1] == b'\\' {
                                out.push(b'\\');
                                l.i += 2;
                                continue;
                            }
                        }
                        out.push(l.s[l.i]);
                        l.i += 1;
                    }
                    l.i += 1;
                } else if c == b'[' {
                    l.i += 1;
                    for k in 0..*n {
                        if k > 0 {
                            l.expect(b',');
                        }
                        let t = self.ty(l);
                        self.cbytes(l, &t, out);
                        debug_assert!(&t == &**e);
                    }
                    l.expect(b']');
                } else {
                    let w = l.word();
                    assert!(matches!(w, "zeroinitializer" | "undef" | "poison"), "array init {:?} {}", w, l.rest_dbg());
                    out.resize(start + sz, 0);
                }
            }
            Ty::Struct(ts, packed) => {
                let c = l.peek();
                if c == b'{' || c == b'<' {
                    l.i += 1;
                    if c == b'<' {
                        l.expect(b'{');
                    }
                    for k in 0..ts.len() {
                        if k > 0 {
                            l.expect(b',');
                        }
                        let t = self.ty(l);
                        let off = ty.field_off(k) as usize;
                        out.resize(start + off, 0);
                        self.cbytes(l, &t, out);
                    }
                    l.expect(b'}');
                    if *packed {
                        l.expect(b'>');
                    }
                } else {
                    let w = l.word();
                    assert!(matches!(w, "zeroinitializer" | "undef" | "poison"), "struct init {:?} {}", w, l.rest_dbg());
                }
                out.resize(start + sz, 0);
            }
            _ => panic!("cbytes"),
        }
    }

    /// operand of a given type: list of slots
    fn operand(&self, l: &mut Lx, ty: &Ty, cx: &mut FnCtx) -> Vec<Opnd> {
        if *ty == Ty::Meta {
            // metadata / label: skip
            loop {
                let c = l.peek();
                if c == b',' || c == b')' || c == 0 {
                    break;
                }
                if c == b'(' {
                    l.skip_parens();
                } else {
                    l.i += 1;
                }
            }
            return vec![];
        }
        if l.peek() == b'%' {
            l.i += 1;
            let n = l.name();
            let k = ty.slots();
            let s = cx.slot(&n, k);
            return (0..k).map(|i| s + i).collect();
        }
        match ty {
            Ty::Int(_) | Ty::Ptr => {
                let v = self.cscalar(l, ty);
                vec![cx.cst(v)]
            }
            Ty::Struct(ts, _) => {
                let c = l.peek();
                if c == b'{' || c == b'<' {
                    l.i += 1;
                    if c == b'<' {
                        l.expect(b'{');
                    }
                    let mut out = vec![];
                    for k in 0..ts.len() {
                        if k > 0 {
                            l.expect(b',');
                        }
                        let t = self.ty(l);
                        out.extend(self.operand(l, &t, cx));
                    }
                    l.expect(b'}');
                    if c == b'<' {
                        l.expect(b'>');
                    }
                    out
                } else {
                    let w = l.word();
                    assert!(matches!(w, "zeroinitializer" | "undef" | "poison"), "struct const {:?}", w);
                    let z = cx.cst(0);
                    vec![z; ty.slots() as usize]
                }
            }
            Ty::Arr(n, _) => {
                if l.peek() == b'[' {
                    l.i += 1;
                    let mut out = vec![];
                    for k in 0..*n {
                        if k > 0 {
                            l.expect(b',');
                        }
                        let t = self.ty(l);
                        out.extend(self.operand(l, &t, cx));
                    }
                    l.expect(b']');
                    out
                } else if l.peek() == b'c' {
                    let mut b = vec![];
                    self.cbytes(l, ty, &mut b);
                    b.iter().map(|x| cx.cst(*x as u128)).collect()
                } else {
                    l.word();
                    let z = cx.cst(0);
                    vec![z; ty.slots() as usize]
                }
            }
            _ => panic!("operand type {:?}", ty),
        }
    }

    fn ty_op(&self, l: &mut Lx, cx: &mut FnCtx) -> (Ty, Vec<Opnd>) {
        let t = self.ty(l);
        let o = self.operand(l, &t, cx);
        (t, o)
    }

    fn skip_attrs(&self, l: &mut Lx) {
        loop {
            let c = l.peek();
            let w = l.peek_word();
            if is_value_start(w, c) {
                return;
            }
            l.i += w.len();
            if w == "align" && l.peek() != b'(' {
                l.word();
            } else if l.peek() == b'(' {
                l.skip_parens();
            }
        }
    }
    fn skip_ret_attrs(&self, l: &mut Lx) {
        loop {
            let c = l.peek();
            let w = l.peek_word();
            if is_type_start(w, c) {
                return;
            }
            assert!(!w.is_empty(), "ret attrs {}", l.rest_dbg());
            l.i += w.len();
            if w == "align" && l.peek() != b'(' {
                l.word();
            } else if l.peek() == b'(' {
                l.skip_parens();
            }
        }
    }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn strip_comment(line: &str) -> &str {
    // ';' outside of quotes
    let b = line.as_bytes();
    let mut q = false;
    for i in 0..b.len() {
        if b[i] == b'"' {
            q = !q
        } else if b[i] == b';' && !q {
            return &line[..i];
        }
    }
    line
}

fn demangle(n: &str) -> String {
    n.to_string()
}

pub fn parse(text: &str) -> Program {
    let lines: Vec<&str> = text.lines().collect();
    let mut p = Parser { types: HashMap::new(), gaddr: HashMap::new(), fmap: HashMap::new() };
    // types first (may refer to later ones; iterate)
    let mut tl: Vec<(String, &str)> = vec![];
    for l in &lines {
        if l.starts_with('%') {
            if let Some(k) = l.find(" = type ") {
                let mut lx = Lx::new(&l[1..k]);
                let n = lx.name();
                tl.push((n, &l[k + 8..]));
            }
        }
    }
    let mut pending = tl;
    while !pending.is_empty() {
        let mut next = vec![];
        let n0 = pending.len();
        for (n, d) in pending {
            let refs_ok = {
                let mut ok = true;
                let mut lx = Lx::new(d);
                while lx.i < lx.s.len() {
                    if lx.s[lx.i] == b'%' {
                        lx.i += 1;
                        let r = lx.name();
                        if !p.types.contains_key(&r) {
                            ok = false
                        }
                    } else {
                        lx.i += 1
                    }
                }
                ok
            };
            if d.starts_with("opaque") {
                p.types.insert(n, Ty::Struct(vec![], false));
            } else if refs_ok {
                let t = p.ty(&mut Lx::new(d));
                p.types.insert(n, t);
            } else {
                next.push((n, d));
            }
        }
        assert!(next.len() < n0, "recursive types");
        pending = next;
    }
    // pass 1: globals and functions
    let mut globals: Vec<Global> = vec![];
    let mut gdefs: Vec<(usize, &str)> = vec![];
    let mut aliases: Vec<(String, &str)> = vec![];
    let mut funcs: Vec<Func> = vec![];
    let (mut consts_idx, mut mutable_idx) = (vec![], vec![]);
    mutable_idx.push(usize::MAX); // id 0 = null page
    let mut bodies: Vec<(u32, usize)> = vec![];
    for (ln, line) in lines.iter().enumerate() {
        if line.starts_with('@') {
            let mut lx = Lx::new(line);
            lx.i = 1;
            let name = lx.name();
            lx.expect(b'=');
            let mut constant = false;
            let mut external = false;
            loop {
                let w = lx.word();
                match w {
                    "global" => break,
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "alias" => break,
                    "external" | "extern_weak" => external = true,
                    "thread_local" | "addrspace" => {
                        if lx.peek() == b'(' {
                            lx.skip_parens();
                        }
                    }
                    "" => panic!("global line {}", line),
                    _ => {}
                }
            }
            if line.contains(" alias ") && line[..line.find(" alias ").unwrap()].len() < 400 && !line[..line.find(" alias ").unwrap()].contains('"') {
                let k = line.rfind('@').unwrap();
                aliases.push((name, &line[k..]));
                continue;
            }
            let gi = globals.len();
            let id = if constant {
                consts_idx.push(gi);
                GCONST_BASE + (consts_idx.len() as u64 - 1)
            } else {
                mutable_idx.push(gi);
                mutable_idx.len() as u64 - 1
            };
            let addr = id << 32;
            p.gaddr.insert(name.clone(), addr);
            globals.push(Global { name, constant, data: vec![], addr });
            if !external {
                gdefs.push((gi, &line[lx.i..]));
            } else {
                let t = p.ty(&mut Lx { s: line.as_bytes(), i: lx.i });
                globals[gi].data = vec![0; t.size() as usize];
            }
        } else if line.starts_with("define ") || line.starts_with("declare ") {
            let weak = line.starts_with("declare extern_weak");
            let k = {
                // function name: the first '@' followed by name and '('
                line.find('@').unwrap()
            };
            let mut lx = Lx::new(line);
            lx.i = k + 1;
            let name = lx.name();
            let fid = funcs.len() as u32;
            p.fmap.insert(name.clone(), fid);
            let addr = if weak { 0 } else { (FUNC_BASE + fid as u64) << 32 };
            p.gaddr.insert(name.clone(), addr);
            funcs.push(Func {
                pretty: demangle(&name),
                name,
                nparams: 0,
                nregs: 0,
                frame: 0,
                consts: vec![],
                code: vec![],
                defined: line.starts_with("define"),
                weak,
            });
            if line.starts_with("define") {
                bodies.push((fid, ln));
            }
        }
    }
    for (n, d) in aliases {
        let mut lx = Lx::new(d);
        lx.i = 1;
        let t = lx.name();
        let a = p.global_addr(&t);
        p.gaddr.insert(n.clone(), a);
        if let Some(f) = p.fmap.get(&t).copied() {
            p.fmap.insert(n, f);
        }
    }
    for (gi, d) in gdefs {
        let mut lx = Lx::new(d);
        let t = p.ty(&mut lx);
        let mut out = vec![];
        p.cbytes(&mut lx, &t, &mut out);
        assert_eq!(out.len() as u64, t.size(), "global size {}", globals[gi].name);
        globals[gi].data = out;
    }
    // pass 2: bodies
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    for (fid, ln) in bodies {
        // a function with instructions the engine does not know (floating point) is left without body: a path that calls
        // it ends in an error
        let f = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_body(&p, &lines, ln))) {
            Ok(f) => f,
            Err(_) => {
                let g = &mut funcs[fid as usize];
                g.defined = false;
                if std::env::var_os("SYMEX_SKIPPED").is_some() {
                    eprintln!("skipped {}", g.name);
                }
                continue;
            }
        };
        let g = &mut funcs[fid as usize];
        g.nparams = f.nparams;
        g.nregs = f.nregs;
        g.frame = f.frame;
        g.consts = f.consts;
        g.code = f.code;
    }
    std::panic::set_hook(hook);
    Program { funcs, fmap: p.fmap, globals, consts_idx, mutable_idx }
}

struct RawPhi {
    d: u32,
    n: u32,
    inc: Vec<(Vec<Opnd>, String)>,
}

enum Term {
    None,
    Br(String),
    Cond(Opnd, String, String),
    Switch(Opnd, u32, Vec<(u128, String)>, String),
}

fn parse_body(p: &Parser, lines: &[&str], start: usize) -> Func {
    let def = lines[start];
    let mut cx = FnCtx { slots: HashMap::new(), nregs: 0, consts: vec![], cmap: HashMap::new() };
    let k = def.find('@').unwrap();
    let mut lx = Lx::new(def);
    lx.i = k + 1;
    let fname = lx.name();
    lx.expect(b'(');
    let mut auto = 0usize;
    let mut nparams = 0;
    while !lx.eat(b')') {
        if lx.peek() == b'.' {
            panic!("vararg definition {}", fname);
        }
        let t = p.ty(&mut lx);
        p.skip_attrs(&mut lx);
        let n = if lx.peek() == b'%' {
            lx.i += 1;
            lx.name()
        } else {
            let s = auto.to_string();
            s
        };
        if n == auto.to_string() {
            auto += 1;
        }
        let k = t.slots();
        cx.slot(&n, k);
        nparams += k;
        lx.eat(b',');
    }
    // blocks
    let mut frame: u64 = 0;
    struct Blk {
        name: String,
        phis: Vec<RawPhi>,
        code: Vec<Inst>,
        term: Term,
    }
    let mut blocks: Vec<Blk> = vec![];
    let mut i = start + 1;
    let mut first = true;
    while lines[i] != "}" {
        let line = lines[i];
        if line.is_empty() {
            i += 1;
            continue;
        }
        if !line.starts_with(' ') {
            // label
            let mut lx = Lx::new(line);
            let n = lx.name();
            if lx.peek() == b':' {
                blocks.push(Blk { name: n, phis: vec![], code: vec![], term: Term::None });
                first = false;
            }
            i += 1;
            continue;
        }
        if first {
            blocks.push(Blk { name: auto.to_string(), phis: vec![], code: vec![], term: Term::None });
            first = false;
        }
        let mut buf: String;
        let mut s = strip_comment(line);
        if s.trim_start().starts_with("switch ") {
            buf = s.to_string();
            while !strip_comment(lines[i]).trim_end().ends_with(']') && !lines[i].trim_start().starts_with(']') {
                i += 1;
                buf.push(' ');
                buf.push_str(strip_comment(lines[i]));
            }
            s = &buf;
        }
        i += 1;
        let blk = blocks.last_mut().unwrap();
        let mut lx = Lx::new(s);
        // result name
        let mut res: Option<String> = None;
        if lx.peek() == b'%' {
            lx.i += 1;
            res = Some(lx.name());
            lx.expect(b'=');
        }
        let mut op = lx.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = lx.word();
        }
        macro_rules! slot {
            ($n:expr) => {{
                let nm = res.clone().unwrap();
                cx.slot(&nm, $n)
            }};
        }
        match op {
            "ret" => {
                let t = p.ty(&mut lx);
                let o = if t == Ty::Void { vec![] } else { p.operand(&mut lx, &t, &mut cx) };
                blk.code.push(Inst::Ret(o.into()));
            }
            "br" => {
                if lx.eat_word("label") {
                    lx.expect(b'%');
                    blk.term = Term::Br(lx.name());
                } else {
                    let (_, c) = p.ty_op(&mut lx, &mut cx);
                    lx.expect(b',');
                    assert!(lx.eat_word("label"));
                    lx.expect(b'%');
                    let a = lx.name();
                    lx.expect(b',');
                    assert!(lx.eat_word("label"));
                    lx.expect(b'%');
                    let b = lx.name();
                    blk.term = Term::Cond(c[0], a, b);
                }
            }
            "switch" => {
                let (t, v) = p.ty_op(&mut lx, &mut cx);
                lx.expect(b',');
                assert!(lx.eat_word("label"));
                lx.expect(b'%');
                let d = lx.name();
                lx.expect(b'[');
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let ct = p.ty(&mut lx);
                    let c = p.cscalar(&mut lx, &ct);
                    lx.expect(b',');
                    assert!(lx.eat_word("label"));
                    lx.expect(b'%');
                    cases.push((c, lx.name()));
                }
                blk.term = Term::Switch(v[0], t.width(), cases, d);
            }
            "unreachable" => blk.code.push(Inst::Unreachable),
            "phi" => {
                let t = p.ty(&mut lx);
                let n = t.slots();
                let d = slot!(n);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let v = p.operand(&mut lx, &t, &mut cx);
                    lx.expect(b',');
                    lx.expect(b'%');
                    let b = lx.name();
                    lx.expect(b']');
                    inc.push((v, b));
                    if !(lx.peek() == b',') {
                        break;
                    }
                    lx.i += 1;
                    if lx.peek() != b'[' {
                        break;
                    }
                }
                blk.phis.push(RawPhi { d, n, inc });
            }
            "alloca" => {
                let t = p.ty(&mut lx);
                let mut al = t.align().max(8);
                let mut cnt = 1u64;
                while lx.eat(b',') {
                    if lx.eat_word("align") {
                        al = al.max(lx.word().parse().unwrap());
                    } else if lx.peek() == b'!' {
                        break;
                    } else {
                        let ct = p.ty(&mut lx);
                        let o = p.operand(&mut lx, &ct, &mut cx);
                        assert!(o[0] & CONST != 0, "dynamic alloca in {}", fname);
                        cnt = cx.consts[(o[0] & !CONST) as usize] as u64;
                    }
                }
                frame = (frame + al - 1) / al * al;
                let d = slot!(1);
                blk.code.push(Inst::Alloca { d, off: frame });
                frame += t.size() * cnt;
            }
            "load" => {
                lx.eat_word("atomic");
                lx.eat_word("volatile");
                let t = p.ty(&mut lx);
                lx.expect(b',');
                let (_, pt) = p.ty_op(&mut lx, &mut cx);
                match t {
                    Ty::Int(_) | Ty::Ptr => {
                        let d = slot!(1);
                        blk.code.push(Inst::Load { d, p: pt[0], w: t.width() })
                    }
                    _ => {
                        let mut lv = vec![];
                        t.leaves(0, &mut lv);
                        let d = slot!(lv.len() as u32);
                        let items: Vec<_> = lv.iter().enumerate().map(|(i, (o, w))| (d + i as u32, *o, *w)).collect();
                        blk.code.push(Inst::LoadAgg { p: pt[0], items: items.into() })
                    }
                }
            }
            "store" => {
                lx.eat_word("atomic");
                lx.eat_word("volatile");
                let (t, v) = p.ty_op(&mut lx, &mut cx);
                lx.expect(b',');
                let (_, pt) = p.ty_op(&mut lx, &mut cx);
                match t {
                    Ty::Int(_) | Ty::Ptr => blk.code.push(Inst::Store { p: pt[0], v: v[0], w: t.width() }),
                    _ => {
                        let mut lv = vec![];
                        t.leaves(0, &mut lv);
                        let items: Vec<_> = lv.iter().enumerate().map(|(i, (o, w))| (v[i], *o, *w)).collect();
                        blk.code.push(Inst::StoreAgg { p: pt[0], items: items.into() })
                    }
                }
            }
            "getelementptr" => {
                while matches!(lx.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    lx.word();
                }
                let t = p.ty(&mut lx);
                lx.expect(b',');
                let (_, b) = p.ty_op(&mut lx, &mut cx);
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = t;
                let mut firsti = true;
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    let (it, iv) = p.ty_op(&mut lx, &mut cx);
                    let iv = iv[0];
                    let esz;
                    if firsti {
                        esz = cur.size();
                        firsti = false;
                    } else {
                        match cur.clone() {
                            Ty::Struct(ts, _) => {
                                let k = cx.consts[(iv & !CONST) as usize] as usize;
                                off = off.wrapping_add(cur.field_off(k));
                                cur = ts[k].clone();
                                continue;
                            }
                            Ty::Arr(_, e) => {
                                esz = e.size();
                                cur = (*e).clone();
                            }
                            _ => panic!("gep"),
                        }
                    }
                    if iv & CONST != 0 {
                        let c = sext128(cx.consts[(iv & !CONST) as usize], it.width()) as i64;
                        off = off.wrapping_add((c as u64).wrapping_mul(esz));
                    } else {
                        terms.push((iv, it.width(), esz));
                    }
                }
                let d = slot!(1);
                blk.code.push(Inst::Gep { d, base: b[0], off, terms: terms.into() });
            }
            "icmp" => {
                lx.eat_word("samesign");
                let pr = lx.word();
                let (t, a) = p.ty_op(&mut lx, &mut cx);
                lx.expect(b',');
                let b = p.operand(&mut lx, &t, &mut cx);
                let d = slot!(1);
                let (op, a, b) = match pr {
                    "eq" => (BinOp::Eq, a[0], b[0]),
                    "ne" => (BinOp::Ne, a[0], b[0]),
                    "ult" => (BinOp::Ult, a[0], b[0]),
                    "ule" => (BinOp::Ule, a[0], b[0]),
                    "ugt" => (BinOp::Ult, b[0], a[0]),
                    "uge" => (BinOp::Ule, b[0], a[0]),
                    "slt" => (BinOp::Slt, a[0], b[0]),
                    "sle" => (BinOp::Sle, a[0], b[0]),
                    "sgt" => (BinOp::Slt, b[0], a[0]),
                    "sge" => (BinOp::Sle, b[0], a[0]),
                    _ => panic!("icmp {}", pr),
                };
                blk.code.push(Inst::Bin { op, w: t.width(), d, a, b });
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(lx.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                    lx.word();
                }
                let (t, a) = p.ty_op(&mut lx, &mut cx);
                lx.expect(b',');
                let b = p.operand(&mut lx, &t, &mut cx);
                let d = slot!(1);
                let o = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                blk.code.push(Inst::Bin { op: o, w: t.width(), d, a: a[0], b: b[0] });
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while matches!(lx.peek_word(), "nuw" | "nsw" | "nneg") {
                    lx.word();
                }
                let (t, a) = p.ty_op(&mut lx, &mut cx);
                assert!(lx.eat_word("to"));
                let t2 = p.ty(&mut lx);
                let d = slot!(1);
                let (wf, wt) = (t.width(), t2.width());
                let k = match op {
                    "trunc" => Cast::Trunc,
                    "sext" => Cast::Sext,
                    "zext" => Cast::Zext,
                    _ => {
                        if wt < wf {
                            Cast::Trunc
                        } else {
                            Cast::Zext
                        }
                    }
                };
                if wf == wt {
                    blk.code.push(Inst::Move { d, a: a[0] });
                } else {
                    blk.code.push(Inst::Cast { k, wf, wt, d, a: a[0] });
                }
            }
            "freeze" => {
                let (t, a) = p.ty_op(&mut lx, &mut cx);
                let d = slot!(t.slots());
                let mv: Vec<_> = a.iter().enumerate().map(|(i, x)| (d + i as u32, *x)).collect();
                blk.code.push(Inst::Moves(mv.into()));
            }
            "select" => {
                let (_, c) = p.ty_op(&mut lx, &mut cx);
                lx.expect(b',');
                let (t, a) = p.ty_op(&mut lx, &mut cx);
                lx.expect(b',');
                let (_, b) = p.ty_op(&mut lx, &mut cx);
                let mut lv = vec![];
                t.leaves(0, &mut lv);
                let d = slot!(lv.len() as u32);
                let items: Vec<_> = lv.iter().enumerate().map(|(i, (_, w))| (d + i as u32, a[i], b[i], *w)).collect();
                blk.code.push(Inst::Select { c: c[0], items: items.into() });
            }
            "extractvalue" => {
                let (t, a) = p.ty_op(&mut lx, &mut cx);
                let (mut cur, mut off) = (t, 0u32);
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    let k: usize = lx.word().parse().unwrap();
                    let (o, n) = sub_slot(&cur, k);
                    off += o;
                    cur = n;
                }
                let n = cur.slots();
                let d = slot!(n);
                let mv: Vec<_> = (0..n).map(|i| (d + i, a[(off + i) as usize])).collect();
                blk.code.push(Inst::Moves(mv.into()));
            }
            "insertvalue" => {
                let (t, a) = p.ty_op(&mut lx, &mut cx);
                lx.expect(b',');
                let (_, v) = p.ty_op(&mut lx, &mut cx);
                let total = t.slots();
                let (mut cur, mut off) = (t, 0u32);
                while lx.eat(b',') {
                    if lx.peek() == b'!' {
                        break;
                    }
                    let k: usize = lx.word().parse().unwrap();
                    let (o, n) = sub_slot(&cur, k);
                    off += o;
                    cur = n;
                }
                let d = slot!(total);
                let mv: Vec<_> = (0..total)
                    .map(|i| (d + i, if i >= off && i < off + v.len() as u32 { v[(i - off) as usize] } else { a[i as usize] }))
                    .collect();
                blk.code.push(Inst::Moves(mv.into()));
            }
            "fence" => {}
            "atomicrmw" => {
                lx.eat_word("volatile");
                let o = lx.word().to_string();
                let (_, pt) = p.ty_op(&mut lx, &mut cx);
                lx.expect(b',');
                let (t, v) = p.ty_op(&mut lx, &mut cx);
                let d = slot!(1);
                blk.code.push(Inst::AtomicRmw { op: o, w: t.width(), d, p: pt[0], v: v[0] });
            }
            "cmpxchg" => {
                lx.eat_word("weak");
                lx.eat_word("volatile");
                let (_, pt) = p.ty_op(&mut lx, &mut cx);
                lx.expect(b',');
                let (t, e) = p.ty_op(&mut lx, &mut cx);
                lx.expect(b',');
                let (_, n) = p.ty_op(&mut lx, &mut cx);
                let d = slot!(2);
                blk.code.push(Inst::CmpXchg { w: t.width(), d, p: pt[0], e: e[0], n: n[0] });
            }
            "call" => {
                p.skip_ret_attrs(&mut lx);
                let rt = p.ty(&mut lx);
                if lx.peek() == b'(' {
                    lx.skip_parens();
                }
                let c = lx.peek();
                let mut direct: Option<String> = None;
                let mut ind: Option<Opnd> = None;
                if c == b'@' {
                    lx.i += 1;
                    direct = Some(lx.name());
                } else if c == b'%' {
                    lx.i += 1;
                    let n = lx.name();
                    ind = Some(cx.slot(&n, 1));
                } else if lx.peek_word() == "asm" {
                    // inline asm: only optimisation barriers (empty template) are supported
                    let rest = &s[lx.i..];
                    let empty = rest.contains("asm sideeffect \"\"") || rest.contains("asm sideeffect alignstack \"\"") || rest.contains("asm \"\"");
                    if empty && rt == Ty::Void {
                        continue;
                    }
                    blk.code.push(Inst::Intr { k: Intr::Trap, w: 1, d: 0, args: Box::new([]) });
                    continue;
                } else {
                    // constant callee
                    let v = p.cscalar(&mut lx, &Ty::Ptr);
                    ind = Some(cx.cst(v));
                }
                lx.expect(b'(');
                let name = direct.clone().unwrap_or_default();
                let mut args = vec![];
                let mut argw = vec![];
                while !lx.eat(b')') {
                    let t = p.ty(&mut lx);
                    if t == Ty::Meta {
                        p.operand(&mut lx, &t, &mut cx);
                    } else {
                        p.skip_attrs(&mut lx);
                        let o = p.operand(&mut lx, &t, &mut cx);
                        argw.push(if let Ty::Int(w) = t { w } else { 64 });
                        args.extend(o);
                    }
                    lx.eat(b',');
                }
                let n = rt.slots();
                if name.starts_with("llvm.") {
                    let rest = &name[5..];
                    if rest.starts_with("lifetime") || rest.starts_with("assume") || rest.starts_with("experimental.noalias") || rest.starts_with("dbg") || rest.starts_with("prefetch") || rest.starts_with("invariant") || rest.starts_with("donothing") || rest.starts_with("sideeffect")
                    {
                        if n > 0 {
                            slot!(n);
                        }
                        continue;
                    }
                    let k = if rest.starts_with("uadd.with") {
                        Intr::UaddO
                    } else if rest.starts_with("usub.with") {
                        Intr::UsubO
                    } else if rest.starts_with("umul.with") {
                        Intr::UmulO
                    } else if rest.starts_with("sadd.with") {
                        Intr::SaddO
                    } else if rest.starts_with("ssub.with") {
                        Intr::SsubO
                    } else if rest.starts_with("smul.with") {
                        Intr::SmulO
                    } else if rest.starts_with("uadd.sat") {
                        Intr::UaddSat
                    } else if rest.starts_with("usub.sat") {
                        Intr::UsubSat
                    } else if rest.starts_with("sadd.sat") {
                        Intr::SaddSat
                    } else if rest.starts_with("ssub.sat") {
                        Intr::SsubSat
                    } else if rest.starts_with("umax") {
                        Intr::Umax
                    } else if rest.starts_with("umin") {
                        Intr::Umin
                    } else if rest.starts_with("smax") {
                        Intr::Smax
                    } else if rest.starts_with("smin") {
                        Intr::Smin
                    } else if rest.starts_with("ctlz") {
                        Intr::Ctlz
                    } else if rest.starts_with("cttz") {
                        Intr::Cttz
                    } else if rest.starts_with("ctpop") {
                        Intr::Ctpop
                    } else if rest.starts_with("bswap") {
                        Intr::Bswap
                    } else if rest.starts_with("bitreverse") {
                        Intr::Bitrev
                    } else if rest.starts_with("abs") {
                        Intr::Abs
                    } else if rest.starts_with("fshl") {
                        Intr::Fshl
                    } else if rest.starts_with("fshr") {
                        Intr::Fshr
                    } else if rest.starts_with("ucmp") {
                        Intr::Ucmp
                    } else if rest.starts_with("scmp") {
                        Intr::Scmp
                    } else if rest.starts_with("memcpy") || rest.starts_with("memmove") {
                        Intr::Memcpy
                    } else if rest.starts_with("memset") {
                        Intr::Memset
                    } else if rest.starts_with("threadlocal") || rest.starts_with("expect") || rest.starts_with("ptrmask") || rest.starts_with("launder") {
                        Intr::Copy
                    } else if rest.starts_with("is.constant") {
                        Intr::IsConstant
                    } else if rest.starts_with("trap") || rest.starts_with("debugtrap") || rest.starts_with("ubsantrap") {
                        Intr::Trap
                    } else {
                        // unsupported intrinsic: only an error when executed
                        if n > 0 {
                            slot!(n);
                        }
                        blk.code.push(Inst::Intr { k: Intr::Trap, w: 1, d: 0, args: Box::new([]) });
                        continue;
                    };
                    let d = if n > 0 { slot!(n) } else { 0 };
                    let w = argw.first().copied().unwrap_or(1);
                    blk.code.push(Inst::Intr { k, w, d, args: args.into() });
                } else {
                    let d = if n > 0 && res.is_some() { slot!(n) } else { 0 };
                    let n = if res.is_some() { n } else { 0 };
                    if let Some(nm) = direct {
                        let f = *p.fmap.get(&nm).unwrap_or_else(|| panic!("callee {}", nm));
                        blk.code.push(Inst::Call { f, args: args.into(), d, n });
                    } else {
                        blk.code.push(Inst::CallInd { p: ind.unwrap(), args: args.into(), d, n });
                    }
                }
            }
            _ => panic!("instruction {:?}: {}", op, s),
        }
    }
    // layout
    let mut pcs: HashMap<String, u32> = HashMap::new();
    let mut idx: HashMap<String, usize> = HashMap::new();
    let mut pc = 0u32;
    for (bi, b) in blocks.iter().enumerate() {
        pcs.insert(b.name.clone(), pc);
        idx.insert(b.name.clone(), bi);
        pc += b.code.len() as u32 + if matches!(b.term, Term::None) { 0 } else { 1 };
    }
    let mk_edge = |from: &str, to: &str| -> Edge {
        let b = &blocks[idx[to]];
        let mut mv = vec![];
        for ph in &b.phis {
            let (v, _) = ph.inc.iter().find(|(_, bn)| bn == from).unwrap_or_else(|| panic!("phi edge {} -> {} in {}", from, to, fname));
            for k in 0..ph.n {
                if v[k as usize] != ph.d + k {
                    mv.push((ph.d + k, v[k as usize]));
                }
            }
        }
        Edge { pc: pcs[to], moves: mv.into() }
    };
    let mut code = vec![];
    for b in &blocks {
        code.extend(b.code.iter().cloned());
        match &b.term {
            Term::None => {}
            Term::Br(t) => code.push(Inst::Br(mk_edge(&b.name, t))),
            Term::Cond(c, t, f) => code.push(Inst::CondBr { c: *c, t: mk_edge(&b.name, t), f: mk_edge(&b.name, f) }),
            Term::Switch(v, w, cases, d) => {
                let mut names: Vec<String> = vec![d.clone()];
                let mut cs = vec![];
                for (c, n) in cases {
                    let k = names.iter().position(|x| x == n).unwrap_or_else(|| {
                        names.push(n.clone());
                        names.len() - 1
                    });
                    cs.push((*c, k as u32));
                }
                cs.sort();
                let edges: Vec<_> = names.iter().map(|n| mk_edge(&b.name, n)).collect();
                code.push(Inst::Switch { v: *v, w: *w, cases: cs.into(), edges: edges.into() });
            }
        }
    }
    Func { name: fname.clone(), pretty: String::new(), nparams, nregs: cx.nregs, frame, consts: cx.consts, code, defined: true, weak: false }
}

fn sub_slot(t: &Ty, k: usize) -> (u32, Ty) {
    match t {
        Ty::Struct(ts, _) => {
            let off = ts[..k].iter().map(|x| x.slots()).sum();
            (off, ts[k].clone())
        }
        Ty::Arr(_, e) => (e.slots() * k as u32, (**e).clone()),
        _ => panic!("sub_slot"),
    }
}
