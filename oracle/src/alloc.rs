//! Allocator that looks at memory as it is released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static NEEDLES: Cell<Option<&'static [Vec<u8>]>> = const { Cell::new(None) };
    static FOUND: Cell<Option<usize>> = const { Cell::new(None) };
}

pub struct Watch;

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        scan(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        scan(p, l.size());
        System.realloc(p, l, n)
    }
}

unsafe fn scan(p: *mut u8, n: usize) {
    let _ = NEEDLES.try_with(|c| {
        if let Some(ns) = c.get() {
            for (i, needle) in ns.iter().enumerate() {
                let m = needle.len();
                if n >= m {
                    for o in 0..=n - m {
                        let mut same = true;
                        for j in 0..m {
                            if std::ptr::read_volatile(p.add(o + j)) != needle[j] {
                                same = false;
                                break;
                            }
                        }
                        if same {
                            FOUND.with(|f| f.set(Some(i)));
                            return;
                        }
                    }
                }
            }
        }
    });
}

/// index of a needle found in memory that f releases
pub fn watch(needles: &[Vec<u8>], f: impl FnOnce()) -> Option<usize> {
    let n: &'static [Vec<u8>] = unsafe { std::mem::transmute(needles) };
    FOUND.with(|x| x.set(None));
    NEEDLES.with(|c| c.set(Some(n)));
    f();
    NEEDLES.with(|c| c.set(None));
    FOUND.with(|x| x.get())
}

#[global_allocator]
static A: Watch = Watch;
