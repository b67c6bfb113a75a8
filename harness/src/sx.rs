//! Interface between the harnesses and the symbolic engine.
//! riscv64 build (LLVM IR for the engine): the functions are external and modelled by the engine.
//! host build (native replay): inputs are read from a list; assertions are checked for real.
#![allow(dead_code)]

#[cfg(target_arch = "riscv64")]
mod imp {
    extern "C" {
        pub fn sx_byte_in(mask: *const u64) -> u8;
        pub fn sx_wide(bits: u32) -> u64;
        pub fn sx_assume(c: u32);
        pub fn sx_assert(c: u32, id: u32);
        pub fn sx_fail(id: u32);
        pub fn sx_cover(id: u32);
        pub fn sx_param(i: u32) -> u64;
        pub fn sx_emit(p: *const u8, n: usize);
    }
}

#[cfg(not(target_arch = "riscv64"))]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Ctx {
        pub inputs: Vec<u64>,
        pub next: usize,
        pub params: Vec<u64>,
        pub covers: u64,
        pub asserts: u32,
        pub emits: Vec<Vec<u8>>,
        pub verbose: bool,
    }
    thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }
    fn next() -> u64 {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let i = c.next;
            c.next += 1;
            if i >= c.inputs.len() {
                eprintln!("replay: input list exhausted");
                std::process::exit(4);
            }
            c.inputs[i]
        })
    }
    pub unsafe fn sx_byte_in(mask: *const u64) -> u8 {
        let v = next();
        let m = std::slice::from_raw_parts(mask, 4);
        if v > 255 || m[(v >> 6) as usize] >> (v & 63) & 1 == 0 {
            eprintln!("replay: input outside its domain");
            std::process::exit(4);
        }
        v as u8
    }
    pub unsafe fn sx_wide(bits: u32) -> u64 {
        let v = next();
        if bits < 64 && v >> bits != 0 {
            std::process::exit(4);
        }
        v
    }
    pub unsafe fn sx_assume(c: u32) {
        if c & 1 == 0 {
            println!("replay: assumption not met");
            std::process::exit(5);
        }
    }
    pub unsafe fn sx_assert(c: u32, id: u32) {
        CTX.with(|x| x.borrow_mut().asserts += 1);
        if c & 1 == 0 {
            sx_fail(id);
        }
    }
    pub unsafe fn sx_fail(id: u32) {
        dump();
        println!("replay: assertion {} failed", id);
        std::process::exit(3);
    }
    pub unsafe fn sx_cover(id: u32) {
        CTX.with(|c| c.borrow_mut().covers |= 1 << (id & 63));
    }
    pub unsafe fn sx_param(i: u32) -> u64 {
        CTX.with(|c| c.borrow().params.get(i as usize).copied().unwrap_or(0))
    }
    pub unsafe fn sx_emit(p: *const u8, n: usize) {
        let v = std::slice::from_raw_parts(p, n).to_vec();
        CTX.with(|c| c.borrow_mut().emits.push(v));
    }
    pub fn dump() {
        CTX.with(|c| {
            let c = c.borrow();
            if c.verbose {
                for e in &c.emits {
                    println!("emit: {:?}", String::from_utf8_lossy(e));
                }
            }
        })
    }
    pub fn digest() -> (u64, u64, u32) {
        CTX.with(|c| {
            let c = c.borrow();
            let mut h = 0xcbf29ce484222325u64;
            for e in &c.emits {
                for b in e {
                    h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
                }
                h = (h ^ 0x1ff).wrapping_mul(0x100000001b3);
            }
            (h, c.covers, c.asserts)
        })
    }
}

/// Set of byte values.
#[derive(Clone, Copy)]
pub struct Set(pub [u64; 4]);
impl Set {
    pub const fn empty() -> Set {
        Set([0; 4])
    }
    pub const fn range(lo: u8, hi: u8) -> Set {
        let mut m = [0u64; 4];
        let mut i = lo as usize;
        while i <= hi as usize {
            m[i >> 6] |= 1 << (i & 63);
            i += 1;
        }
        Set(m)
    }
    pub const fn of(s: &[u8]) -> Set {
        let mut m = [0u64; 4];
        let mut k = 0;
        while k < s.len() {
            let i = s[k] as usize;
            m[i >> 6] |= 1 << (i & 63);
            k += 1;
        }
        Set(m)
    }
    pub const fn or(self, o: Set) -> Set {
        Set([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]])
    }
    pub const fn minus(self, o: Set) -> Set {
        Set([self.0[0] & !o.0[0], self.0[1] & !o.0[1], self.0[2] & !o.0[2], self.0[3] & !o.0[3]])
    }
}

pub fn byte(s: &Set) -> u8 {
    unsafe { imp::sx_byte_in(s.0.as_ptr()) }
}
/// value 0..n (n <= 256), symbolic
pub fn choose(n: usize) -> usize {
    let s = Set::range(0, (n - 1) as u8);
    byte(&s) as usize
}
/// value lo..=hi, symbolic, at most 256 values
pub fn range(lo: i64, hi: i64) -> i64 {
    lo + choose((hi - lo + 1) as usize) as i64
}
/// value 0..n, one path per value
pub fn fork(n: usize) -> usize {
    let k = choose(n);
    let mut i = 0;
    while i < n {
        if std::hint::black_box(k) == i {
            return i;
        }
        i += 1;
    }
    n - 1
}
pub fn flag() -> bool {
    choose(2) == 1
}
pub fn wide(bits: u32) -> u64 {
    unsafe { imp::sx_wide(bits) }
}
pub fn assume(c: bool) {
    unsafe { imp::sx_assume(c as u32) }
}
/// the property under check
pub fn check(c: bool, id: u32) {
    unsafe { imp::sx_assert(c as u32, id) }
}
pub fn fail(id: u32) {
    unsafe { imp::sx_fail(id) }
}
/// reachability witness
pub fn cover(id: u32) {
    unsafe { imp::sx_cover(id) }
}
pub fn param(i: u32) -> usize {
    unsafe { imp::sx_param(i) as usize }
}
/// observable output (compared between engine and native runs on sampled paths)
pub fn emit(s: &[u8]) {
    unsafe { imp::sx_emit(s.as_ptr(), s.len()) }
}

/// what `f` writes to standard output
#[cfg(target_arch = "riscv64")]
pub fn printed(f: impl FnOnce()) -> Vec<u8> {
    unsafe {
        OUT.clear();
        f();
        std::mem::take(&mut OUT)
    }
}
#[cfg(target_arch = "riscv64")]
static mut OUT: Vec<u8> = Vec::new();
/// what std's stdout calls in the end; the engine uses this one
#[cfg(target_arch = "riscv64")]
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if fd == 1 {
        OUT.extend_from_slice(std::slice::from_raw_parts(p, n));
    }
    n as isize
}
#[cfg(not(target_arch = "riscv64"))]
pub fn printed(f: impl FnOnce()) -> Vec<u8> {
    use std::io::{Read, Seek, Write};
    use std::os::fd::FromRawFd;
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn close(fd: i32) -> i32;
        fn memfd_create(name: *const u8, flags: u32) -> i32;
    }
    let _ = std::io::stdout().flush();
    let mut v = vec![];
    unsafe {
        let m = memfd_create(b"out\0".as_ptr(), 0);
        let old = dup(1);
        assert!(m >= 0 && old >= 0);
        dup2(m, 1);
        f();
        let _ = std::io::stdout().flush();
        dup2(old, 1);
        close(old);
        let mut file = std::fs::File::from_raw_fd(m);
        file.rewind().unwrap();
        file.read_to_end(&mut v).unwrap();
    }
    v
}
