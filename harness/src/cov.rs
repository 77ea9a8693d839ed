//! Coverage feedback: the callbacks that an instrumented build of the code under test calls
//! (tools/instrument.sh), recorded per thread while a guided case runs. Without instrumentation
//! nothing here is called, and guided cases are mutated without feedback.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static EDGES: AtomicUsize = AtomicUsize::new(0);

/// Number of instrumented edges; 0 in a build that is not instrumented.
pub fn edges() -> usize {
    EDGES.load(Relaxed)
}

const CMPS: usize = 1 << 16;

/// What one thread saw: how often each edge was taken, and how near each comparison came.
pub struct Seen {
    count: Vec<u8>,
    taken: Vec<u32>,
    /// per comparison, a set of distances (bit lengths of the difference)
    near: Vec<u64>,
    compared: Vec<u32>,
}

thread_local! {
    static SEEN: Cell<*mut Seen> = const { Cell::new(std::ptr::null_mut()) };
}

/// Numbers of the things seen: stable between runs of the same build.
pub type Features = Vec<u32>;

impl Seen {
    pub fn new() -> Box<Seen> {
        Box::new(Seen { count: vec![0; edges() + 1], taken: vec![], near: vec![0; CMPS], compared: vec![] })
    }
    /// Runs `f` and tells what the calling thread saw meanwhile.
    pub fn watch<T>(self: &mut Box<Seen>, f: impl FnOnce() -> T) -> (T, Features) {
        SEEN.with(|s| s.set(&mut **self));
        let r = f();
        SEEN.with(|s| s.set(std::ptr::null_mut()));
        let mut out = Vec::with_capacity(self.taken.len() + self.compared.len());
        for e in self.taken.drain(..) {
            let n = std::mem::take(&mut self.count[e as usize]);
            // 1, 2, 3, 4–7, 8–15, 16–31, 32–127, more
            let b = match n {
                1 => 0,
                2 => 1,
                3 => 2,
                4..=7 => 3,
                8..=15 => 4,
                16..=31 => 5,
                32..=127 => 6,
                _ => 7,
            };
            out.push(e * 8 + b);
        }
        let base = (edges() as u32 + 1) * 8;
        for c in self.compared.drain(..) {
            let mut m = std::mem::take(&mut self.near[c as usize]);
            while m != 0 {
                out.push(base + c * 64 + m.trailing_zeros());
                m &= m - 1;
            }
        }
        (r, out)
    }
    pub fn features() -> usize {
        (edges() + 1) * 8 + CMPS * 64
    }
}

/// # Safety
/// Called by instrumented code with the bounds of its guards.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, end: *mut u32) {
    let mut p = start;
    if p == end || *p != 0 {
        return;
    }
    while p < end {
        *p = EDGES.fetch_add(1, Relaxed) as u32 + 1;
        p = p.add(1);
    }
}

/// # Safety
/// Called by instrumented code with one of its guards.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let s = SEEN.with(|s| s.get());
    if s.is_null() {
        return;
    }
    let (s, e) = (&mut *s, *guard);
    if let Some(c) = s.count.get_mut(e as usize) {
        if *c == 0 {
            s.taken.push(e);
        }
        *c = c.saturating_add(1);
    }
}

unsafe extern "C" fn compared(a: u64, b: u64, from: usize) {
    let s = SEEN.with(|s| s.get());
    // (addresses say nothing)
    if s.is_null() || a > 1 << 40 || b > 1 << 40 {
        return;
    }
    let s = &mut *s;
    let id = from.wrapping_sub(compared as unsafe extern "C" fn(u64, u64, usize) as usize);
    let slot = (id.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48) & (CMPS - 1);
    let d = 64 - a.abs_diff(b).leading_zeros();
    let (slot, bit) = (slot as u32, 1u64 << d.min(63));
    let n = &mut s.near[slot as usize];
    if *n == 0 {
        s.compared.push(slot);
    }
    *n |= bit;
}

unsafe extern "C" fn compared4(a: u64, b: u64, from: usize) {
    compared(a & 0xffff_ffff, b & 0xffff_ffff, from)
}

macro_rules! comparison {
    ($f:ident $($n:ident)*) => {
        $(
            /// # Safety
            /// Called by instrumented code.
            #[no_mangle]
            #[unsafe(naked)]
            pub unsafe extern "C" fn $n() {
                core::arch::naked_asm!("mov rdx, [rsp]", "jmp {}", sym $f)
            }
        )*
    };
}
comparison!(compared __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8);
comparison!(compared4 __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4);

macro_rules! ignored {
    ($($n:ident)*) => {
        $(
            /// # Safety
            /// Called by instrumented code.
            #[no_mangle]
            pub unsafe extern "C" fn $n() {}
        )*
    };
}
ignored!(__sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 __sanitizer_cov_trace_switch);
