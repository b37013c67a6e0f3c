//! Checking allocator of the guest: layout of every release, double free, red zones, poisoning.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
pub struct Checking;
const MAGIC: u64 = 0x5650_414c_4c4f_4331;
const DEAD: u64 = 0xdead_dead_dead_dead;
const TAIL: usize = 16;
const HEAD: usize = 32;
#[repr(C)]
struct Head { magic: u64, size: usize, align: usize, pad: [u8; 16] }
static LIVE: AtomicIsize = AtomicIsize::new(0);
static BLOCKS: AtomicIsize = AtomicIsize::new(0);
pub fn live() -> isize { LIVE.load(Relaxed) }
pub fn blocks() -> isize { BLOCKS.load(Relaxed) }
fn fail(what: &str, a: usize, b: usize) -> ! {
    let mut buf = [0u8; 160];
    let mut n = 0;
    let mut put = |s: &[u8]| for c in s { if n < 160 { buf[n] = *c; n += 1 } };
    put(b"[\"VPALLOC\",\""); put(what.as_bytes()); put(b"\",");
    let mut num = |mut x: usize, put: &mut dyn FnMut(&[u8])| { let mut t = [0u8; 20]; let mut k = 20; loop { k -= 1; t[k] = b'0' + (x % 10) as u8; x /= 10; if x == 0 { break } } put(&t[k..]) };
    num(a, &mut put); put(b","); num(b, &mut put); put(b"]");
    unsafe { crate::vp_log(buf.as_ptr(), n) };
    std::process::abort()
}
unsafe fn check(p: *mut u8, l: Layout) -> *mut Head {
    let h = p.sub(HEAD) as *mut Head;
    if (*h).magic == DEAD { fail("double-free", (*h).size, l.size()) }
    if (*h).magic != MAGIC { fail("foreign-or-underflow", 0, l.size()) }
    if (*h).size != l.size() || (*h).align != l.align() { fail("layout-mismatch", (*h).size, l.size()) }
    for i in 0..TAIL { if *p.add((*h).size + i) != 0xa5 { fail("overflow", (*h).size, l.size()) } }
    h
}
unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let o = HEAD.max(l.align());
        let base = System.alloc(Layout::from_size_align_unchecked(o + l.size() + TAIL, l.align().max(16)));
        if base.is_null() { return base }
        let p = base.add(o);
        let h = p.sub(HEAD) as *mut Head;
        *h = Head { magic: MAGIC, size: l.size(), align: l.align(), pad: [0; 16] };
        std::ptr::write_bytes(p, 0xcd, l.size().min(4096));
        std::ptr::write_bytes(p.add(l.size()), 0xa5, TAIL);
        LIVE.fetch_add(l.size() as isize, Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = check(p, l);
        (*h).magic = DEAD;
        std::ptr::write_bytes(p, 0xdd, l.size().min(4096));
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        let o = HEAD.max(l.align());
        System.dealloc(p.sub(o), Layout::from_size_align_unchecked(o + l.size() + TAIL, l.align().max(16)));
    }
}
