//! The heap as the library sees it: every allocation made inside a library call is marked, so that what the library
//! still holds can be told from what the harness holds.
use crate::world::{in_lib, set_lib};
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Heap;
/// Bytes allocated inside library calls and not freed since.
pub static mut LIVE: u64 = 0;
/// The most that was, since it was last set.
pub static mut PEAK: u64 = 0;
/// More than this at a time is refused: no table needs it.
const HUGE: usize = 256 << 20;
unsafe fn too_much(n: usize, lib: bool) -> bool {
    if lib && n > HUGE {
        crate::world::violation("work.memory", format!("a call asked for {n} bytes at a time"));
    }
    lib && n > HUGE
}
unsafe fn grown(n: u64) {
    LIVE = LIVE.wrapping_add(n);
    if (LIVE as i64) > PEAK as i64 {
        PEAK = LIVE;
    }
}
const MARK: u64 = 0x6d6f_6d65_6e74_6f75;

fn pre(l: &Layout) -> usize {
    l.align().max(16)
}
unsafe fn outer(l: &Layout, size: usize) -> Layout {
    Layout::from_size_align_unchecked(size + pre(l), pre(l))
}
/// Run with the mark of library code off: this file is compiled like the library, with a scheduling point in every
/// block, and the account must not be read by one task and written by another.
#[inline(always)]
unsafe fn quietly<R>(f: impl FnOnce(bool) -> R) -> R {
    let lib = in_lib();
    if lib {
        set_lib(false);
    }
    let r = f(lib);
    if lib {
        set_lib(true);
    }
    r
}
unsafe fn tag(p: *mut u8, l: &Layout, size: usize, lib: bool) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let q = p.add(pre(l));
    let t = q.sub(16) as *mut u64;
    if lib {
        grown(size as u64);
        *t = MARK;
    } else {
        *t = 0;
    }
    q
}
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        quietly(|lib| {
            if too_much(l.size(), lib) {
                return std::ptr::null_mut();
            }
            tag(System.alloc(outer(&l, l.size())), &l, l.size(), lib)
        })
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        quietly(|lib| {
            if too_much(l.size(), lib) {
                return std::ptr::null_mut();
            }
            tag(System.alloc_zeroed(outer(&l, l.size())), &l, l.size(), lib)
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        quietly(|_| {
            if *(p.sub(16) as *mut u64) == MARK {
                LIVE = LIVE.wrapping_sub(l.size() as u64);
            }
            System.dealloc(p.sub(pre(&l)), outer(&l, l.size()))
        })
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        quietly(|lib| {
            if too_much(n, lib) {
                return std::ptr::null_mut();
            }
            // stays on the account it was opened on
            let mine = *(p.sub(16) as *mut u64) == MARK;
            let q = System.realloc(p.sub(pre(&l)), outer(&l, l.size()), n + pre(&l));
            if q.is_null() {
                return q;
            }
            if mine {
                LIVE = LIVE.wrapping_sub(l.size() as u64);
                grown(n as u64);
            }
            q.add(pre(&l))
        })
    }
}
