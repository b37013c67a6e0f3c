//! Checking allocator: every block carries its layout, a release with another layout, of a
//! released or foreign block, or a write just outside the block ends the process with a VPALLOC
//! report. Released memory is overwritten, so that later reads see garbage. Live bytes are
//! counted per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Checking;
const MAGIC: u64 = 0x5650_414c_4c4f_4331;
const DEAD: u64 = 0xdead_dead_dead_dead;
const TAIL: usize = 16;
#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    pad: u64,
}
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
}
pub fn live() -> isize {
    LIVE.try_with(|l| l.get()).unwrap_or(0)
}
pub fn allocs() -> usize {
    COUNT.try_with(|l| l.get()).unwrap_or(0)
}
fn fail(what: &str, a: usize, b: usize, c: usize, d: usize) -> ! {
    use std::io::Write;
    let mut buf = [0u8; 300];
    let n = {
        let mut c0 = std::io::Cursor::new(&mut buf[..]);
        let _ = writeln!(c0, "VPALLOC {what} allocated(size {a} align {b}) used with(size {c} align {d})");
        c0.position() as usize
    };
    let _ = std::io::stderr().write_all(&buf[..n]);
    if std::env::var_os("VPMON_ECHO").is_some() {
        eprintln!("{}", std::backtrace::Backtrace::force_capture());
    }
    std::process::abort()
}
fn off(align: usize) -> usize {
    let h = std::mem::size_of::<Head>();
    if align > h { align } else { h }
}
unsafe fn check(p: *mut u8, l: Layout) -> *mut Head {
    let h = p.sub(std::mem::size_of::<Head>()) as *mut Head;
    if (*h).magic == DEAD {
        fail("double-free", (*h).size, (*h).align, l.size(), l.align());
    }
    if (*h).magic != MAGIC {
        fail("foreign-or-underflow", 0, 0, l.size(), l.align());
    }
    if (*h).size != l.size() || (*h).align != l.align() {
        fail("layout-mismatch", (*h).size, (*h).align, l.size(), l.align());
    }
    for i in 0..TAIL {
        if *p.add((*h).size + i) != 0xa5 {
            fail("overflow", (*h).size, (*h).align, l.size(), l.align());
        }
    }
    h
}
unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let o = off(l.align());
        let base = System.alloc(Layout::from_size_align_unchecked(o + l.size() + TAIL, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let p = base.add(o);
        let h = p.sub(std::mem::size_of::<Head>()) as *mut Head;
        *h = Head { magic: MAGIC, size: l.size(), align: l.align(), pad: 0 };
        // fresh memory is not zero, so that its use without initialisation shows
        std::ptr::write_bytes(p, 0xcd, l.size().min(4096));
        std::ptr::write_bytes(p.add(l.size()), 0xa5, TAIL);
        let _ = LIVE.try_with(|x| x.set(x.get() + l.size() as isize));
        let _ = COUNT.try_with(|x| x.set(x.get() + 1));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = check(p, l);
        (*h).magic = DEAD;
        std::ptr::write_bytes(p, 0xdd, l.size().min(4096));
        let o = off(l.align());
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as isize));
        System.dealloc(p.sub(o), Layout::from_size_align_unchecked(o + l.size() + TAIL, l.align().max(16)));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check(p, l);
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
