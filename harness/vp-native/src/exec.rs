//! Calling compiled functions, external-call stubs, and a checking heap.
use irkit::gen_ir::T;
use irkit::interp::{self, Event, Val};
use std::cell::RefCell;
use std::collections::HashMap;

std::arch::global_asm!(
    ".globl vp_stub_common",
    "vp_stub_common:",
    "push rbp",
    "mov rbp, rsp",
    "sub rsp, 112",
    "mov [rsp], rdi",
    "mov [rsp+8], rsi",
    "mov [rsp+16], rdx",
    "mov [rsp+24], rcx",
    "mov [rsp+32], r8",
    "mov [rsp+40], r9",
    "movq [rsp+48], xmm0",
    "movq [rsp+56], xmm1",
    "movq [rsp+64], xmm2",
    "movq [rsp+72], xmm3",
    "movq [rsp+80], xmm4",
    "movq [rsp+88], xmm5",
    "movq [rsp+96], xmm6",
    "movq [rsp+104], xmm7",
    "mov rdi, r10",
    "mov rsi, rsp",
    "call vp_stub_handler",
    "movq xmm0, rax",
    "leave",
    "ret",
);
unsafe extern "C" {
    fn vp_stub_common();
}

pub struct Ext {
    pub name: String,
    pub params: Vec<T>,
    pub ret: T,
}
thread_local! {
    static EXTS: RefCell<Vec<Ext>> = const { RefCell::new(vec![]) };
    static COUNT: RefCell<u64> = const { RefCell::new(0) };
}
pub fn to_bits(v: &Val) -> u64 {
    match v {
        Val::I(x) => *x as u64,
        Val::F32(x) => x.to_bits() as u64,
        Val::F64(x) => x.to_bits(),
        _ => 0,
    }
}
pub fn from_bits(b: u64, t: T) -> Val {
    match t {
        T::I1 => Val::I((b & 0xffff_ffff) as i64),
        T::F32 => Val::F32(f32::from_bits(b as u32)),
        T::F64 => Val::F64(f64::from_bits(b)),
        T::Nil => Val::Unit,
        _ => Val::I(interp::norm(b as i128, t.width().unwrap())),
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn vp_stub_handler(k: u64, regs: *const u64) -> u64 {
    let (mut gi, mut gf) = (0, 6);
    EXTS.with(|e| {
        let e = e.borrow();
        let x = &e[k as usize];
        let args: Vec<Val> = x
            .params
            .iter()
            .map(|t| {
                let b = if t.is_float() {
                    gf += 1;
                    unsafe { *regs.add(gf - 1) }
                } else if *t == T::Nil {
                    0
                } else {
                    gi += 1;
                    unsafe { *regs.add(gi - 1) }
                };
                from_bits(b, *t)
            })
            .collect();
        log(&format!("E {}({})\n", x.name, args.iter().map(interp::show).collect::<Vec<_>>().join(", ")));
        let n = COUNT.with(|c| {
            let mut c = c.borrow_mut();
            *c += 1;
            *c
        });
        to_bits(&interp::default_extern(&x.name, &args, n, x.ret.name()))
    })
}
/// Creates one stub per external function; returns name → address.
pub fn make_stubs(exts: Vec<Ext>) -> HashMap<String, usize> {
    let page = unsafe { libc::mmap(std::ptr::null_mut(), 4096, 7, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) } as *mut u8;
    let mut m = HashMap::new();
    for (k, e) in exts.iter().enumerate() {
        let p = unsafe { page.add(k * 32) };
        let mut c: Vec<u8> = vec![0x49, 0xba]; // mov r10, imm64
        c.extend((k as u64).to_le_bytes());
        c.extend([0x49, 0xbb]); // mov r11, imm64
        c.extend((vp_stub_common as *const () as usize as u64).to_le_bytes());
        c.extend([0x41, 0xff, 0xe3]); // jmp r11
        unsafe { std::ptr::copy_nonoverlapping(c.as_ptr(), p, c.len()) };
        m.insert(e.name.clone(), p as usize);
    }
    EXTS.with(|x| *x.borrow_mut() = exts);
    m
}
pub fn reset() {
    COUNT.with(|c| *c.borrow_mut() = 0);
}
pub fn show_event(e: &Event) -> String {
    format!("E {}({})\n", e.callee, e.args.join(", "))
}
/// A log shared with forked children.
static LOG: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const LOG_SIZE: usize = 4 << 20;
fn log_base() -> usize {
    let a = LOG.load(std::sync::atomic::Ordering::Relaxed);
    if a != 0 {
        return a;
    }
    let p = unsafe { libc::mmap(std::ptr::null_mut(), LOG_SIZE, 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) } as usize;
    LOG.store(p, std::sync::atomic::Ordering::Relaxed);
    p
}
pub fn log_reset() {
    unsafe { *(log_base() as *mut u64) = 0 }
}
pub fn log(s: &str) {
    let b = log_base();
    unsafe {
        let n = *(b as *mut u64) as usize;
        if 8 + n + s.len() < LOG_SIZE {
            std::ptr::copy_nonoverlapping(s.as_ptr(), (b + 8 + n) as *mut u8, s.len());
            *(b as *mut u64) += s.len() as u64;
        }
    }
}
pub fn log_read() -> String {
    let b = log_base();
    unsafe {
        let n = *(b as *mut u64) as usize;
        String::from_utf8_lossy(std::slice::from_raw_parts((b + 8) as *const u8, n)).into_owned()
    }
}

/// Up to six integer and eight float arguments.
pub fn fits(params: &[T]) -> bool {
    params.iter().filter(|t| !t.is_float() && **t != T::Nil).count() <= 6 && params.iter().filter(|t| t.is_float()).count() <= 8
}
pub unsafe fn call(addr: usize, params: &[T], args: &[Val], ret: T) -> Val {
    let mut i = [0u64; 6];
    let mut f = [0f64; 8];
    let (mut ni, mut nf) = (0, 0);
    for (t, a) in params.iter().zip(args) {
        if *t == T::Nil {
            continue;
        }
        let b = to_bits(a);
        if t.is_float() {
            f[nf] = f64::from_bits(b);
            nf += 1;
        } else {
            // upper bits of narrow arguments are unspecified: fill them with noise
            let w = if *t == T::I1 { 32 } else { t.width().unwrap() };
            i[ni] = if w < 64 { (b & ((1u64 << w) - 1)) | (0xA5A5_5A5A_DEAD_BEEFu64 << w) } else { b };
            ni += 1;
        }
    }
    unsafe {
        let b = if ret.is_float() {
            let g: extern "C" fn(u64, u64, u64, u64, u64, u64, f64, f64, f64, f64, f64, f64, f64, f64) -> f64 = std::mem::transmute(addr);
            g(i[0], i[1], i[2], i[3], i[4], i[5], f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]).to_bits()
        } else {
            let g: extern "C" fn(u64, u64, u64, u64, u64, u64, f64, f64, f64, f64, f64, f64, f64, f64) -> u64 = std::mem::transmute(addr);
            g(i[0], i[1], i[2], i[3], i[4], i[5], f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7])
        };
        from_bits(b, ret)
    }
}

// ---------------------------------------------------------------- checking heap
/// Every block ends at a page boundary followed by an unmapped page; released blocks become inaccessible.
pub struct Heap {
    next: usize,
    end: usize,
    pub live: HashMap<usize, u64>,
    pub freed: HashMap<usize, u64>,
    pub total: usize,
    pub error: Option<String>,
}
thread_local! {
    pub static HEAP: RefCell<Heap> = RefCell::new(Heap { next: 0, end: 0, live: HashMap::new(), freed: HashMap::new(), total: 0, error: None });
}
pub fn heap_init(pages: usize) {
    let sz = pages * 4096;
    let p = unsafe { libc::mmap(std::ptr::null_mut(), sz, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) } as usize;
    HEAP.with(|h| *h.borrow_mut() = Heap { next: p, end: p + sz, live: HashMap::new(), freed: HashMap::new(), total: 0, error: None });
}
pub const EXIT_HEAP_FULL: i32 = 88;
pub const EXIT_HEAP_ERROR: i32 = 89;
pub extern "C" fn heap_alloc(size: u64) -> usize {
    HEAP.with(|h| {
        let mut h = h.borrow_mut();
        if size == 0 {
            return 0;
        }
        let np = (size as usize).div_ceil(4096);
        if h.next + (np + 1) * 4096 > h.end {
            unsafe { libc::_exit(EXIT_HEAP_FULL) }
        }
        let page = h.next;
        h.next += (np + 1) * 4096;
        unsafe { libc::mprotect(page as *mut _, np * 4096, libc::PROT_READ | libc::PROT_WRITE) };
        let p = (page + np * 4096 - size as usize) & !7;
        unsafe { std::ptr::write_bytes(page as *mut u8, 0xA7, np * 4096) };
        h.live.insert(p, size);
        h.total += 1;
        p
    })
}
pub extern "C" fn heap_dealloc(p: usize, size: u64) {
    HEAP.with(|h| {
        let mut h = h.borrow_mut();
        if p == 0 || size == 0 {
            return;
        }
        match h.live.remove(&p) {
            Some(s) if s == size => {
                let start = p & !4095;
                unsafe { libc::mprotect(start as *mut _, (size as usize).div_ceil(4096) * 4096, libc::PROT_NONE) };
                h.freed.insert(p, s);
            }
            x => {
                let m = match x {
                    Some(s) => format!("a block of {s} bytes was released as {size} bytes"),
                    None if h.freed.contains_key(&p) => format!("a block of {size} bytes was released twice"),
                    None => format!("{p:#x}, which is not a live block, was released ({size} bytes)"),
                };
                eprintln!("HEAP: {m}");
                unsafe { libc::_exit(EXIT_HEAP_ERROR) }
            }
        }
    })
}
