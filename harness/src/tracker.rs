//! Global allocator that records what the library asks for while `lib()` is active.
//! Facts only (blocks, sizes, mismatches); what is allowed is decided by the specification.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

#[derive(Clone, Copy)]
pub struct Block {
    pub ptr: usize,
    pub size: usize,
    pub align: usize,
    pub id: u32,
    pub lib: bool,
    /// accessible pages of a fenced block: start and length
    pub pages: (usize, usize),
}

const EMPTY: Block = Block { ptr: 0, size: 0, align: 0, id: 0, lib: false, pages: (0, 0) };
const GONE: usize = 1;
const PAGE: usize = 4096;
const ARENA: usize = 6 << 30;
const EDGE: u8 = 0xC3;
/// more than this is never to be had in one block
const BIG: usize = 1 << 30;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
const NONE: i32 = 0;
const RW: i32 = 3;
const ANON: i32 = 0x2 | 0x20 | 0x4000; // private, anonymous, no reserve
const FIXED: i32 = 0x10;

struct Inner {
    table: *mut Block,
    cap: usize,
    used: usize,
    lib: bool,
    on: bool,
    next_id: u32,
    live_bytes: i64,
    live_blocks: i64,
    zero: u32,
    bad_free: u32,
    bad_layout: u32,
    /// contents of fresh memory
    fill: u8,
    /// blocks of the library lie between inaccessible pages and are never used again
    fenced: bool,
    arena: usize,
    next: usize,
    in_arena: u32,
    stray: u32,
    /// the library's allocation (counted from here) that is refused; 0: only what is too much; -1: none
    refuse: i64,
    refused: bool,
    /// where a refusal is recorded
    fd: i32,
}

pub struct Tracker {
    i: UnsafeCell<Inner>,
}
unsafe impl Sync for Tracker {}

impl Tracker {
    pub const fn new() -> Self {
        Tracker {
            i: UnsafeCell::new(Inner {
                table: std::ptr::null_mut(),
                cap: 0,
                used: 0,
                lib: false,
                on: false,
                next_id: 1,
                live_bytes: 0,
                live_blocks: 0,
                zero: 0,
                bad_free: 0,
                bad_layout: 0,
                fill: 0xA5,
                fenced: false,
                arena: 0,
                next: 0,
                in_arena: 0,
                stray: 0,
                refuse: -1,
                refused: false,
                fd: -1,
            }),
        }
    }
    #[allow(clippy::mut_from_ref)]
    fn g(&self) -> &mut Inner {
        unsafe { &mut *self.i.get() }
    }
    pub fn start(&self, fd: i32) {
        self.g().on = true;
        self.g().fd = fd
    }
    /// the n-th allocation of the library from now on fails
    pub fn refuse(&self, n: i64) {
        self.g().refuse = n;
        self.g().refused = false
    }
    pub fn refused(&self) -> bool {
        self.g().refused
    }
    /// fresh memory is filled with `fill`; with fences, an access outside of a block of the library ends the process,
    /// or is counted where the block's alignment leaves room inside its pages
    pub fn memory(&self, fill: u8, fenced: bool) {
        let g = self.g();
        g.fill = fill;
        if fenced && g.arena == 0 {
            let a = unsafe { mmap(std::ptr::null_mut(), ARENA, NONE, ANON, -1, 0) };
            if a as isize == -1 {
                return;
            }
            g.arena = a as usize;
            g.next = a as usize + PAGE;
        }
        if !fenced && g.arena != 0 {
            if g.in_arena == 0 {
                unsafe { munmap(g.arena as *mut u8, ARENA) };
            }
            g.arena = 0;
            g.in_arena = 0;
        }
        g.fenced = fenced;
        g.stray = 0;
    }
    /// writes found next to blocks of the library, freed or still there
    pub fn strays(&self) -> u32 {
        let g = self.g();
        let mut n = g.stray;
        for k in 0..g.cap {
            let b = unsafe { *g.table.add(k) };
            if b.ptr > GONE && b.pages.1 > 0 {
                n += unsafe { stray(&b) };
            }
        }
        n
    }
    pub fn enter(&self) -> bool {
        std::mem::replace(&mut self.g().lib, true)
    }
    pub fn leave(&self, was: bool) {
        self.g().lib = was
    }
    /// live bytes, live blocks, zero-sized requests, frees of unknown blocks, frees with another layout
    pub fn mem(&self) -> (i64, i64, u32, u32, u32) {
        let g = self.g();
        (g.live_bytes, g.live_blocks, g.zero, g.bad_free, g.bad_layout)
    }
    pub fn find(&self, addr: usize) -> Option<Block> {
        let g = self.g();
        for k in 0..g.cap {
            let b = unsafe { *g.table.add(k) };
            if b.ptr > GONE && b.lib && addr >= b.ptr && addr < b.ptr + b.size {
                return Some(b);
            }
        }
        None
    }
    pub fn lib_blocks(&self) -> Vec<Block> {
        let was = std::mem::replace(&mut self.g().lib, false);
        let mut out = Vec::with_capacity(self.g().used + 16);
        let g = self.g();
        for k in 0..g.cap {
            let b = unsafe { *g.table.add(k) };
            if b.ptr > GONE && b.lib {
                out.push(b);
            }
        }
        out.sort_by_key(|b| b.ptr);
        self.g().lib = was;
        out
    }
}

unsafe fn stray(b: &Block) -> u32 {
    let (from, n) = b.pages;
    let bad = |a: usize, z: usize| std::slice::from_raw_parts(a as *const u8, z - a).iter().any(|x| *x != EDGE);
    (bad(from, b.ptr) || bad(b.ptr + b.size, from + n)) as u32
}

impl Inner {
    unsafe fn fence(&mut self, l: Layout) -> Option<(usize, (usize, usize))> {
        let size = l.size();
        let room = (size + PAGE - 1) / PAGE * PAGE + if l.align() > PAGE { l.align() } else { 0 };
        let room = std::cmp::max(room, PAGE);
        if self.next + room + PAGE > self.arena + ARENA || mprotect(self.next as *mut u8, room, RW) != 0 {
            return None;
        }
        let from = self.next;
        self.next += room + PAGE;
        let p = (from + room - size) / l.align() * l.align();
        (from as *mut u8).write_bytes(EDGE, p - from);
        ((p + size) as *mut u8).write_bytes(EDGE, from + room - p - size);
        self.in_arena += 1;
        Some((p, (from, room)))
    }
    unsafe fn slot(&self, ptr: usize) -> usize {
        (ptr >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15usize) >> 20 & (self.cap - 1)
    }
    unsafe fn put(&mut self, b: Block) {
        if self.cap == 0 || self.used * 2 >= self.cap {
            let old = self.table;
            let oc = self.cap;
            let mut live = 0;
            for k in 0..oc {
                if (*old.add(k)).ptr > GONE {
                    live += 1
                }
            }
            let nc = std::cmp::max(1 << 14, (live * 4usize).next_power_of_two());
            let l = Layout::array::<Block>(nc).unwrap();
            self.table = System.alloc(l) as *mut Block;
            for k in 0..nc {
                *self.table.add(k) = EMPTY
            }
            self.cap = nc;
            self.used = 0;
            for k in 0..oc {
                let x = *old.add(k);
                if x.ptr > GONE {
                    self.raw_put(x)
                }
            }
            if oc > 0 {
                System.dealloc(old as *mut u8, Layout::array::<Block>(oc).unwrap())
            }
        }
        self.raw_put(b)
    }
    unsafe fn raw_put(&mut self, b: Block) {
        let mut k = self.slot(b.ptr);
        while (*self.table.add(k)).ptr > GONE {
            k = (k + 1) & (self.cap - 1)
        }
        if (*self.table.add(k)).ptr == 0 {
            self.used += 1
        }
        *self.table.add(k) = b
    }
    unsafe fn take(&mut self, ptr: usize) -> Option<Block> {
        if self.cap == 0 {
            return None;
        }
        let mut k = self.slot(ptr);
        loop {
            let b = *self.table.add(k);
            if b.ptr == 0 {
                return None;
            }
            if b.ptr == ptr {
                (*self.table.add(k)).ptr = GONE;
                return Some(b);
            }
            k = (k + 1) & (self.cap - 1)
        }
    }
}

unsafe impl GlobalAlloc for Tracker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let g = self.g();
        if !g.on {
            return System.alloc(l);
        }
        if l.size() == 0 {
            g.zero += 1;
        }
        if g.lib && (l.size() > BIG || g.refuse == 1) {
            if g.refuse < 0 {
                // in a history where nothing is refused: the end of the process
                return std::ptr::null_mut();
            }
            g.refuse = 0;
            g.refused = true;
            let e = b"{\"o\":\"refused\",\"r\":\"refused\"}\n";
            write(g.fd, e.as_ptr(), e.len());
            return std::ptr::null_mut();
        }
        if g.lib && g.refuse > 1 {
            g.refuse -= 1
        }
        let real = Layout::from_size_align_unchecked(std::cmp::max(1, l.size()), l.align());
        let fenced = if g.lib && g.fenced { g.fence(l) } else { None };
        let p = fenced.map(|f| f.0 as *mut u8).unwrap_or_else(|| System.alloc(real));
        if p.is_null() {
            return p;
        }
        p.write_bytes(g.fill, if fenced.is_some() { l.size() } else { real.size() });
        let id = g.next_id;
        g.next_id += 1;
        if g.lib {
            g.live_bytes += l.size() as i64;
            g.live_blocks += 1;
        }
        let lib = g.lib;
        g.put(Block { ptr: p as usize, size: l.size(), align: l.align(), id, lib, pages: fenced.map(|f| f.1).unwrap_or((0, 0)) });
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            p.write_bytes(0, l.size())
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let g = self.g();
        if !g.on {
            return System.dealloc(p, l);
        }
        match g.take(p as usize) {
            Some(b) => {
                if b.lib {
                    g.live_bytes -= b.size as i64;
                    g.live_blocks -= 1;
                }
                if b.size != l.size() || b.align != l.align() {
                    g.bad_layout += 1;
                }
                if b.pages.1 > 0 {
                    g.stray += stray(&b);
                    mmap(b.pages.0 as *mut u8, b.pages.1, NONE, ANON | FIXED, -1, 0);
                    if b.pages.0 > g.arena && b.pages.0 < g.arena + ARENA && g.arena > 0 {
                        g.in_arena -= 1;
                    }
                    return;
                }
                let n = std::cmp::max(1, b.size);
                p.write_bytes(0xDD, n);
                System.dealloc(p, Layout::from_size_align_unchecked(n, b.align))
            }
            None => {
                // not a block of ours: report, do not touch it. Blocks from before `start` end here too,
                // so only frees during library calls count.
                if g.lib {
                    g.bad_free += 1;
                }
            }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, std::cmp::min(l.size(), n));
            self.dealloc(p, l);
        }
        q
    }
}
