//! Seams: everything nondeterministic the library can reach is defined here.
//!  * `__sanitizer_cov_*`  : scheduling points + simulated clock (inserted by rustc-wrap.sh)
//!  * global allocator     : deterministic arena, heap balance, recycled-memory garbage, yields
//!  * libc symbols         : simulated filesystem / cwd / randomness / clock / futex
//! While `ACTIVE` (the calling thread is inside a library call made by the simulator) calls go to
//! the simulated world; otherwise they are forwarded to the kernel with raw system calls.
use crate::rng::{mix, Rng};
use crate::world::{self, CallKind};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::{Cell, UnsafeCell};
use std::ffi::{c_char, c_int, c_long, c_void, CStr};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::atomic::Ordering;

thread_local! {
	pub static ACTIVE: Cell<bool> = const { Cell::new(false) };
	pub static TID: Cell<usize> = const { Cell::new(0) };
}

// ---------------------------------------------------------------- raw system calls
#[inline]
pub unsafe fn sys6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
	let r: isize;
	std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
		in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
	r
}
extern "C" {
	fn __errno_location() -> *mut c_int;
	fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
}
pub unsafe fn set_errno(e: i32) {
	*__errno_location() = e;
}
unsafe fn ret(r: isize) -> isize {
	if (-4095..0).contains(&r) {
		set_errno(-r as i32);
		-1
	} else {
		r
	}
}
unsafe fn sys(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
	ret(sys6(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- simulated time and schedule
/// instrumented steps executed inside library calls: the simulated clock
pub static STEPS: AtomicU64 = AtomicU64::new(0);
/// next step at which something has to happen (preemption, step limit)
pub static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static NGUARDS: AtomicUsize = AtomicUsize::new(0);
pub const MAXG: usize = 1 << 16;
pub struct Cov(UnsafeCell<[u8; MAXG]>);
unsafe impl Sync for Cov {}
pub static COV: Cov = Cov(UnsafeCell::new([0; MAXG]));
pub static LAST_SITE: AtomicU32 = AtomicU32::new(0);
impl Cov {
	pub fn ptr(&self) -> *mut u8 {
		self.0.get() as *mut u8
	}
}

#[inline(always)]
pub fn tick(_site: u32) {
	let s = STEPS.load(Relaxed) + 1;
	STEPS.store(s, Relaxed);
	if s >= NEXT.load(Relaxed) {
		slow(s);
	}
}
#[cold]
#[inline(never)]
fn slow(s: u64) {
	ACTIVE.set(false);
	if s >= STEP_LIMIT.load(Relaxed) {
		crate::orch::child_abort("no-progress", "step budget exhausted: the call does not terminate within the bound");
	}
	world::sched_point(s);
	ACTIVE.set(true);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
	if start == stop || *start != 0 {
		return;
	}
	let mut n = NGUARDS.load(Relaxed);
	let mut p = start;
	while p < stop {
		n += 1;
		*p = (n.min(MAXG - 1)) as u32;
		p = p.add(1);
	}
	NGUARDS.store(n, Relaxed);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
	if !ACTIVE.get() {
		return;
	}
	let id = *g;
	*COV.ptr().add(id as usize) = 1;
	LAST_SITE.store(id, Relaxed);
	tick(id);
}
macro_rules! mem_cb { ($st:literal $($n:ident)*) => { $(
	#[no_mangle] pub extern "C" fn $n(p: *const u8) { if ACTIVE.get() { shared(p as usize, $st); tick(0); } }
)* } }
mem_cb!(0 __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
mem_cb!(1 __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
/// writable statics of this program: the state all threads share
static STATICS: [AtomicUsize; 2] = [const { AtomicUsize::new(0) }; 2];
/// accesses to shared statics until the next preemption; 0 = that kind of schedule is off
pub static SHARED_LEFT: AtomicU64 = AtomicU64::new(0);
/// steps between that access and the preemption
pub static SHARED_JITTER: AtomicU64 = AtomicU64::new(0);
/// 1 = only stores count
pub static SHARED_STORES: AtomicU64 = AtomicU64::new(0);
#[inline(always)]
fn shared(p: usize, store: u64) {
	let k = SHARED_LEFT.load(Relaxed);
	if k != 0 && store >= SHARED_STORES.load(Relaxed) && p >= STATICS[0].load(Relaxed) && p < STATICS[1].load(Relaxed) {
		SHARED_LEFT.store(k - 1, Relaxed);
		if k == 1 {
			let to = STEPS.load(Relaxed) + SHARED_JITTER.load(Relaxed);
			if to < NEXT.load(Relaxed) {
				NEXT.store(to, Relaxed);
			}
		}
	}
}
#[repr(C)]
struct PhInfo {
	addr: usize,
	name: *const c_char,
	ph: *const [u64; 7],
	n: u16,
}
extern "C" {
	fn dl_iterate_phdr(f: extern "C" fn(*const PhInfo, usize, *mut c_void) -> c_int, d: *mut c_void) -> c_int;
}
extern "C" fn on_phdr(i: *const PhInfo, _n: usize, _d: *mut c_void) -> c_int {
	unsafe {
		let i = &*i;
		let (mut a, mut b) = (usize::MAX, 0);
		for k in 0..i.n as usize {
			let h = &*i.ph.add(k);
			// PT_LOAD, writable
			if h[0] as u32 == 1 && (h[0] >> 32) & 2 != 0 {
				a = a.min(i.addr + h[2] as usize);
				b = b.max(i.addr + (h[2] + h[5]) as usize);
			}
		}
		STATICS[0].store(a, Relaxed);
		STATICS[1].store(b, Relaxed);
	}
	1 // the first one is the program itself
}
pub fn init_statics() {
	unsafe {
		dl_iterate_phdr(on_phdr, std::ptr::null_mut());
	}
}

// ---------------------------------------------------------------- bulk copies
/// 16-byte units moved by bulk copies inside library calls; part of the work of a call
pub static BULK: AtomicU64 = AtomicU64::new(0);
static MEMCPY: AtomicUsize = AtomicUsize::new(0);
static MEMMOVE: AtomicUsize = AtomicUsize::new(0);
pub fn init_bulk() {
	unsafe {
		MEMCPY.store(dlsym(-1isize as *mut c_void, c"memcpy".as_ptr()) as usize, Relaxed);
		MEMMOVE.store(dlsym(-1isize as *mut c_void, c"memmove".as_ptr()) as usize, Relaxed);
	}
}
pub fn work() -> u64 {
	STEPS.load(Relaxed) + BULK.load(Relaxed)
}
#[inline(always)]
unsafe fn bulk(n: usize) {
	if n >= 64 && ACTIVE.get() {
		BULK.store(BULK.load(Relaxed) + n as u64 / 16, Relaxed);
	}
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
	bulk(n);
	let f = MEMCPY.load(Relaxed);
	if f == 0 {
		std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack));
		return d;
	}
	std::mem::transmute::<usize, unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8>(f)(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
	bulk(n);
	let f = MEMMOVE.load(Relaxed);
	if f == 0 {
		if (d as usize).wrapping_sub(s as usize) >= n {
			std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack));
		} else {
			std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.add(n).sub(1) => _, inout("rsi") s.add(n).sub(1) => _, options(nostack));
		}
		return d;
	}
	std::mem::transmute::<usize, unsafe extern "C" fn(*mut u8, *const u8, usize) -> *mut u8>(f)(d, s, n)
}

// ---------------------------------------------------------------- allocator
pub struct Arena;
#[global_allocator]
static GLOBAL: Arena = Arena;
const ARENA_BASE: usize = 0x5A00_0000_0000;
const ARENA_SIZE: usize = 16 << 30;
const ARENA_CAP: usize = 3 << 30; // more than this in one simulated process is reported as a blow-up
const NCLASS: usize = 64 + 40;
static LOCK: AtomicBool = AtomicBool::new(false);
static BUMP: AtomicUsize = AtomicUsize::new(0);
static FREE: [AtomicUsize; NCLASS] = [const { AtomicUsize::new(0) }; NCLASS];
pub static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
/// bytes held by the library since `measure`, and the most of it
static LIB_LIVE: AtomicUsize = AtomicUsize::new(LIB_ZERO);
static LIB_PEAK: AtomicUsize = AtomicUsize::new(LIB_ZERO);
const LIB_ZERO: usize = 1 << 50;
/// the most heap memory the library held at once during `f`, beyond what it held before
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
	LIB_LIVE.store(LIB_ZERO, Relaxed);
	LIB_PEAK.store(LIB_ZERO, Relaxed);
	let v = f();
	(v, LIB_PEAK.load(Relaxed) - LIB_ZERO)
}
fn lib_bytes(add: usize, sub: usize) {
	if ACTIVE.get() {
		let n = LIB_LIVE.load(Relaxed) + add - sub;
		LIB_LIVE.store(n, Relaxed);
		if n > LIB_PEAK.load(Relaxed) {
			LIB_PEAK.store(n, Relaxed);
		}
	}
}
pub static LIVE_COUNT: AtomicUsize = AtomicUsize::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
/// heap perturbation seed; 0 = plain LIFO arena
pub static HEAP_SEED: AtomicU64 = AtomicU64::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
/// a simulated process starts with an empty heap at a fixed address, so that addresses are a
/// function of the run; blocks of the search process are never recycled in it
pub fn fresh_heap() {
	BASE.store(ARENA_BASE + ARENA_SIZE / 2, Relaxed);
	BUMP.store(ARENA_BASE + ARENA_SIZE / 2, Relaxed);
	ALLOCS.store(0, Relaxed);
	for f in &FREE {
		f.store(0, Relaxed);
	}
}
fn class_of(size: usize) -> (usize, usize) {
	if size <= 1024 {
		let c = (size + 15) / 16;
		let c = c.max(1);
		(c - 1, c * 16)
	} else {
		let p = size.next_power_of_two();
		(64 + p.trailing_zeros() as usize - 11, p)
	}
}
unsafe fn arena_alloc(layout: Layout, zero: bool) -> *mut u8 {
	while LOCK.swap(true, Ordering::Acquire) {
		std::hint::spin_loop();
	}
	let al = layout.align();
	let want = if al > 16 { layout.size() + al } else { layout.size() };
	let (c, sz) = class_of(want);
	let n = ALLOCS.load(Relaxed) + 1;
	ALLOCS.store(n, Relaxed);
	let hs = HEAP_SEED.load(Relaxed);
	let mut p = FREE[c].load(Relaxed);
	// perturbation: sometimes do not recycle, so that addresses move
	let fresh = hs != 0 && mix(hs ^ n) % 8 == 0;
	let mut recycled = false;
	if p != 0 && !fresh && al <= 16 {
		FREE[c].store(*(p as *const usize), Relaxed);
		recycled = true;
	} else {
		let mut b = BUMP.load(Relaxed);
		if b == 0 {
			let r = sys6(9, ARENA_BASE, ARENA_SIZE, 3, 0x22 | 0x4000 | 0x100000, usize::MAX, 0);
			if r as usize != ARENA_BASE {
				sys6(231, 99, 0, 0, 0, 0, 0);
			}
			b = ARENA_BASE;
		}
		if hs != 0 {
			b += (mix(hs ^ n ^ 77) % 4) as usize * 16;
		}
		if al > 16 {
			b = (b + al - 1) & !(al - 1);
		}
		p = b;
		b += sz;
		if b - BASE.load(Relaxed).max(ARENA_BASE) > ARENA_CAP {
			LOCK.store(false, Ordering::Release);
			ACTIVE.set(false);
			crate::orch::child_abort("memory-blowup", "more than 3 GiB of heap in one simulated run");
		}
		BUMP.store(b, Relaxed);
	}
	LIVE_BYTES.store(LIVE_BYTES.load(Relaxed) + layout.size(), Relaxed);
	lib_bytes(layout.size(), 0);
	LIVE_COUNT.store(LIVE_COUNT.load(Relaxed) + 1, Relaxed);
	LOCK.store(false, Ordering::Release);
	let q = p as *mut u8;
	if zero {
		if recycled || hs != 0 {
			std::ptr::write_bytes(q, 0, layout.size());
		}
	} else if hs != 0 {
		// memory holds garbage that depends on the run: what was there, one byte, or characters
		let g = mix(hs ^ n ^ 5);
		let m = layout.size().min(256);
		match (g >> 8) % 4 {
			0 => {}
			1 if al >= 4 => {
				for k in 0..m / 4 {
					*(q as *mut u32).add(k) = b"<>/abpr =-!\"\n "[(mix(g ^ k as u64) % 14) as usize] as u32;
				}
			}
			1 => {
				for k in 0..m {
					*q.add(k) = b"<>/abpr =-!\"\n "[(mix(g ^ k as u64) % 14) as usize];
				}
			}
			_ => std::ptr::write_bytes(q, (g & 0xff) as u8, m),
		}
	}
	q
}
unsafe impl GlobalAlloc for Arena {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if ACTIVE.get() {
			tick(0);
		}
		arena_alloc(l, false)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		if ACTIVE.get() {
			tick(0);
		}
		arena_alloc(l, true)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		if ACTIVE.get() {
			tick(0);
		}
		while LOCK.swap(true, Ordering::Acquire) {
			std::hint::spin_loop();
		}
		LIVE_BYTES.store(LIVE_BYTES.load(Relaxed) - l.size(), Relaxed);
		lib_bytes(0, l.size());
		LIVE_COUNT.store(LIVE_COUNT.load(Relaxed) - 1, Relaxed);
		if l.align() <= 16 && p as usize >= BASE.load(Relaxed) {
			let (c, _) = class_of(l.size());
			*(p as *mut usize) = FREE[c].load(Relaxed);
			FREE[c].store(p as usize, Relaxed);
		}
		LOCK.store(false, Ordering::Release);
	}
}

// ---------------------------------------------------------------- randomness
pub static HASH_SEED: AtomicU64 = AtomicU64::new(1);
pub static RAND_CALLS: AtomicU64 = AtomicU64::new(0);
unsafe fn fill_random(buf: *mut u8, n: usize) -> isize {
	let k = RAND_CALLS.load(Relaxed);
	RAND_CALLS.store(k + 1, Relaxed);
	let mut r = Rng::new(HASH_SEED.load(Relaxed) ^ (k << 32));
	for i in 0..n {
		*buf.add(i) = r.next() as u8;
	}
	n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, _flags: u32) -> isize {
	fill_random(buf as *mut u8, n)
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: usize) -> c_int {
	fill_random(buf as *mut u8, n);
	0
}

// ---------------------------------------------------------------- clock
pub static CLOCK0: AtomicU64 = AtomicU64::new(1_000_000_000);
/// seed of clock jumps; 0 = the clock runs evenly
pub static CLOCK_JUMPS: AtomicU64 = AtomicU64::new(0);
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
static CLOCK_AHEAD: AtomicU64 = AtomicU64::new(0);
unsafe fn slept(t: *const c_void) {
	let t = t as *const [i64; 2];
	if !t.is_null() {
		let d = (*t)[0].clamp(0, 1 << 20) as u64 * 1_000_000_000 + (*t)[1].clamp(0, 1 << 30) as u64;
		CLOCK_AHEAD.store(CLOCK_AHEAD.load(Relaxed) + d, Relaxed);
	}
}
extern "C" {
	static environ: *const *const c_char;
}
/// the environment of the simulated process: any variable may be set or not, depending on the run
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
	let n = CStr::from_ptr(name).to_bytes();
	if n.starts_with(b"RUST_") {
		// no backtraces, whatever the environment of the search says
		return std::ptr::null();
	}
	if ACTIVE.get() {
		world::count_env("getenv");
		let h = n.iter().fold(HASH_SEED.load(Relaxed), |h, c| mix(h ^ *c as u64));
		return match if HASH_SEED.load(Relaxed) <= 1 { 0 } else { h % 6 } {
			1 => c"1".as_ptr(),
			2 => c"0".as_ptr(),
			3 => c"true".as_ptr(),
			4 => c"".as_ptr(),
			_ => std::ptr::null(),
		};
	}
	let mut e = environ;
	while !e.is_null() && !(*e).is_null() {
		let v = CStr::from_ptr(*e).to_bytes();
		if v.len() > n.len() && v.starts_with(n) && v[n.len()] == b'=' {
			return (*e).add(n.len() + 1);
		}
		e = e.add(1);
	}
	std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
	if ACTIVE.get() {
		world::count_env("getpid");
		return 1000 + (mix(HASH_SEED.load(Relaxed)) % 30_000) as c_int;
	}
	sys(39, 0, 0, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
	if ACTIVE.get() {
		world::count_env("clock_read");
		let js = CLOCK_JUMPS.load(Relaxed);
		let mut ns = CLOCK0.load(Relaxed).wrapping_add(STEPS.load(Relaxed) * 10);
		if js != 0 {
			// the process is stalled between two readings, or the wall clock is set
			let k = CLOCK_READS.load(Relaxed) + 1;
			CLOCK_READS.store(k, Relaxed);
			let j = mix(js ^ k);
			if j % 3 == 0 {
				world::count_env("clock_jump");
				let d = mix(j) % [2_000_000, 3_000_000_000, 8_000_000_000_000][(j >> 8) as usize % 3];
				CLOCK_AHEAD.store(CLOCK_AHEAD.load(Relaxed) + d, Relaxed);
			}
			if id == 0 && j % 5 == 1 {
				ns = ns.wrapping_sub((mix(j) % 4_000_000_000_000).min(ns / 2));
			}
		}
		ns = ns.wrapping_add(CLOCK_AHEAD.load(Relaxed));
		(*ts)[0] = (ns / 1_000_000_000) as i64;
		(*ts)[1] = (ns % 1_000_000_000) as i64;
		return 0;
	}
	sys(228, id as usize, ts as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const c_void, b: *mut c_void) -> c_int {
	if ACTIVE.get() {
		tick(0);
		slept(a);
		return 0;
	}
	sys(35, a as usize, b as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(i: c_int, f: c_int, a: *const c_void, b: *mut c_void) -> c_int {
	if ACTIVE.get() {
		tick(0);
		if f == 0 {
			slept(a);
		}
		return 0;
	}
	-(sys6(230, i as usize, f as usize, a as usize, b as usize, 0, 0) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
	if ACTIVE.get() {
		ACTIVE.set(false);
		world::yield_now();
		ACTIVE.set(true);
		return 0;
	}
	sys(24, 0, 0, 0, 0, 0, 0) as c_int
}

// ---------------------------------------------------------------- futex (std Mutex/Once/RwLock/Condvar/park)
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
	if ACTIVE.get() {
		match n {
			202 => {
				ACTIVE.set(false);
				let r = world::futex(a as *const AtomicU32, b as i32, c as u32, d);
				ACTIVE.set(true);
				return ret(r) as c_long;
			}
			318 => return fill_random(a as *mut u8, b) as c_long,
			332 => return statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut c_void) as c_long,
			24 => return sched_yield() as c_long,
			_ => world::count_env("other_syscall"),
		}
	}
	sys(n, a, b, c, d, e, f) as c_long
}

// ---------------------------------------------------------------- files
pub const VFD: c_int = 0x4000_0000;
fn sim<T>(f: impl FnOnce() -> T) -> T {
	ACTIVE.set(false);
	let r = f();
	ACTIVE.set(true);
	r
}
unsafe fn path_of(p: *const c_char) -> Vec<u8> {
	let mut v = vec![];
	for b in CStr::from_ptr(p).to_bytes() {
		match b {
			0xff => v.extend_from_slice(NOT_UTF8.as_bytes()),
			b => v.push(*b),
		}
	}
	v
}
/// stands in scenarios for the byte 0xff, which occurs in file names but never in text
pub const NOT_UTF8: &str = "\u{e0ff}";
pub fn real_name(p: &[u8]) -> Vec<u8> {
	let m = NOT_UTF8.as_bytes();
	let mut v = vec![];
	let mut i = 0;
	while i < p.len() {
		if p[i..].starts_with(m) {
			v.push(0xff);
			i += m.len();
		} else {
			v.push(p[i]);
			i += 1;
		}
	}
	v
}
unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
	if ACTIVE.get() {
		tick(0);
		let r = sim(|| world::open(&path_of(p), flags));
		return ret(r as isize) as c_int;
	}
	sys(257, dirfd as isize as usize, p as usize, flags as usize, mode as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
	do_open(-100, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: u32) -> c_int {
	do_open(-100, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
	do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
	do_open(d, p, flags, mode)
}
unsafe fn with_act<T>(f: impl FnOnce() -> T) -> T {
	let was = ACTIVE.replace(false);
	let r = f();
	ACTIVE.set(was);
	r
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
	if fd >= VFD {
		if ACTIVE.get() {
			tick(0);
		}
		return ret(with_act(|| world::read(fd - VFD, std::slice::from_raw_parts_mut(b as *mut u8, n), None)));
	}
	sys(0, fd as usize, b as usize, n, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, off: i64) -> isize {
	if fd >= VFD {
		return ret(with_act(|| world::read(fd - VFD, std::slice::from_raw_parts_mut(b as *mut u8, n), Some(off as u64))));
	}
	sys(17, fd as usize, b as usize, n, off as usize, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: usize, off: i64) -> isize {
	pread64(fd, b, n, off)
}
#[repr(C)]
pub struct IoVec {
	base: *mut u8,
	len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const IoVec, n: c_int) -> isize {
	if fd >= VFD {
		for i in 0..n as usize {
			let iv = &*v.add(i);
			if iv.len > 0 {
				return read(fd, iv.base as *mut c_void, iv.len);
			}
		}
		return 0;
	}
	sys(19, fd as usize, v as usize, n as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
	if fd >= VFD {
		with_act(|| world::destructive("write"));
		return ret(-9);
	}
	sys(1, fd as usize, b as usize, n, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
	if fd >= VFD {
		return ret(with_act(|| world::close(fd - VFD)) as isize) as c_int;
	}
	sys(3, fd as usize, 0, 0, 0, 0, 0) as c_int
}
unsafe fn do_lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
	if fd >= VFD {
		return ret(with_act(|| world::lseek(fd - VFD, off, wh)) as isize) as i64;
	}
	sys(8, fd as usize, off as usize, wh as usize, 0, 0, 0) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
	do_lseek(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
	do_lseek(fd, off, wh)
}
unsafe fn put_stat(st: *mut c_void, m: (u32, u64, u64)) {
	// struct stat on x86_64: dev ino nlink mode uid gid pad rdev size ...
	std::ptr::write_bytes(st as *mut u8, 0, 144);
	*((st as *mut u64).add(1)) = m.2;
	*((st as *mut u64).add(2)) = 1;
	*((st as *mut u32).add(6)) = m.0;
	*((st as *mut u64).add(6)) = m.1;
	*((st as *mut u64).add(7)) = 4096;
}
unsafe fn vstat(r: Result<(u32, u64, u64), i32>, st: *mut c_void) -> c_int {
	match r {
		Ok(m) => {
			put_stat(st, m);
			0
		}
		Err(e) => {
			set_errno(e);
			-1
		}
	}
}
unsafe fn do_fstat(fd: c_int, st: *mut c_void) -> c_int {
	if fd >= VFD {
		return vstat(with_act(|| world::fstat(fd - VFD)), st);
	}
	sys(5, fd as usize, st as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut c_void) -> c_int {
	do_fstat(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut c_void) -> c_int {
	do_fstat(fd, st)
}
unsafe fn do_stat(p: *const c_char, st: *mut c_void, follow: bool) -> c_int {
	if ACTIVE.get() {
		return vstat(sim(|| world::stat(&path_of(p), follow)), st);
	}
	sys(if follow { 4 } else { 6 }, p as usize, st as usize, 0, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut c_void) -> c_int {
	do_stat(p, st, true)
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut c_void) -> c_int {
	do_stat(p, st, true)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut c_void) -> c_int {
	do_stat(p, st, false)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut c_void) -> c_int {
	do_stat(p, st, false)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut c_void) -> c_int {
	if dfd >= VFD || ACTIVE.get() {
		let path = if p.is_null() { vec![] } else { path_of(p) };
		let r = with_act(|| {
			if path.is_empty() && dfd >= VFD {
				world::fstat(dfd - VFD)
			} else {
				world::stat(&path, flags & 0x100 == 0)
			}
		});
		return match r {
			Ok((mode, size, ino)) => {
				let o = out as *mut u8;
				std::ptr::write_bytes(o, 0, 256);
				*(o as *mut u32) = 0x7ff; // stx_mask
				*(o.add(4) as *mut u32) = 4096; // blksize
				*(o.add(16) as *mut u32) = 1; // nlink
				*(o.add(28) as *mut u16) = mode as u16;
				*(o.add(32) as *mut u64) = ino;
				*(o.add(40) as *mut u64) = size;
				0
			}
			Err(e) => {
				set_errno(e);
				-1
			}
		};
	}
	sys(332, dfd as isize as usize, p as usize, flags as usize, mask as usize, out as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
	if ACTIVE.get() {
		match sim(world::getcwd) {
			Ok(p) => {
				let p = sim(|| real_name(&p));
				if p.len() + 1 > n {
					set_errno(34);
					return std::ptr::null_mut();
				}
				std::ptr::copy_nonoverlapping(p.as_ptr() as *const c_char, buf, p.len());
				*buf.add(p.len()) = 0;
				return buf;
			}
			Err(e) => {
				set_errno(e);
				return std::ptr::null_mut();
			}
		}
	}
	if sys(79, buf as usize, n, 0, 0, 0, 0) < 0 {
		std::ptr::null_mut()
	} else {
		buf
	}
}
extern "C" {
	fn malloc(n: usize) -> *mut c_void;
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
	if ACTIVE.get() {
		match sim(|| world::realpath(&path_of(p))) {
			Ok(r) => {
				let r = sim(|| real_name(&r));
				let o = if out.is_null() { malloc(r.len() + 1) as *mut c_char } else { out };
				std::ptr::copy_nonoverlapping(r.as_ptr() as *const c_char, o, r.len());
				*o.add(r.len()) = 0;
				return o;
			}
			Err(e) => {
				set_errno(e);
				return std::ptr::null_mut();
			}
		}
	}
	let f = dlsym(-1isize as *mut c_void, c"realpath".as_ptr());
	let f: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(f);
	f(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: usize) -> isize {
	if ACTIVE.get() {
		return match sim(|| world::readlink(&path_of(p))) {
			Ok(t) => {
				let t = sim(|| real_name(&t));
				let k = t.len().min(n);
				std::ptr::copy_nonoverlapping(t.as_ptr() as *const c_char, buf, k);
				k as isize
			}
			Err(e) => {
				set_errno(e);
				-1
			}
		};
	}
	sys(89, p as usize, buf as usize, n, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
	if ACTIVE.get() {
		return match sim(|| world::stat(&path_of(p), true)) {
			Ok(_) => 0,
			Err(e) => {
				set_errno(e);
				-1
			}
		};
	}
	sys(21, p as usize, mode as usize, 0, 0, 0, 0) as c_int
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
	if fd >= VFD {
		return match cmd {
			0 | 1030 => ret(with_act(|| world::dup(fd - VFD)) as isize) as c_int,
			1 | 2 | 3 | 4 => 0,
			_ => ret(-22) as c_int,
		};
	}
	sys(72, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
	do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
	do_fcntl(fd, cmd, arg)
}
// destructive calls made by the code under test are only recorded
macro_rules! record { ($($name:ident ( $($a:ident : $t:ty),* ) = $nr:expr;)*) => { $(
	#[no_mangle]
	pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
		if ACTIVE.get() {
			sim(|| world::destructive(stringify!($name)));
			return ret(-1) as c_int;
		}
		let v = [$($a as usize),*];
		let g = |i: usize| v.get(i).copied().unwrap_or(0);
		sys($nr, g(0), g(1), g(2), g(3), g(4), 0) as c_int
	}
)* } }
record! {
	unlink(p: *const c_char) = 87;
	rename(a: *const c_char, b: *const c_char) = 82;
	mkdir(p: *const c_char, m: u32) = 83;
	rmdir(p: *const c_char) = 84;
	chdir(p: *const c_char) = 80;
	symlink(a: *const c_char, b: *const c_char) = 88;
	link(a: *const c_char, b: *const c_char) = 86;
	chmod(p: *const c_char, m: u32) = 90;
	fchmod(fd: c_int, m: u32) = 91;
	ftruncate64(fd: c_int, n: i64) = 77;
	truncate64(p: *const c_char, n: i64) = 76;
	kill(p: c_int, s: c_int) = 62;
	ftruncate(fd: c_int, n: i64) = 77;
	truncate(p: *const c_char, n: i64) = 76;
	utimensat(d: c_int, p: *const c_char, t: *const c_void, f: c_int) = 280;
	chown(p: *const c_char, u: u32, g: u32) = 92;
	fchown(fd: c_int, u: u32, g: u32) = 93;
	lchown(p: *const c_char, u: u32, g: u32) = 94;
	fchmodat(d: c_int, p: *const c_char, m: u32, f: c_int) = 268;
	unlinkat(d: c_int, p: *const c_char, f: c_int) = 263;
	renameat(d: c_int, p: *const c_char, e: c_int, q: *const c_char) = 264;
	linkat(d: c_int, p: *const c_char, e: c_int, q: *const c_char, f: c_int) = 265;
	symlinkat(p: *const c_char, d: c_int, q: *const c_char) = 266;
	mkdirat(d: c_int, p: *const c_char, m: u32) = 258;
	mknod(p: *const c_char, m: u32, d: u64) = 133;
	fallocate64(fd: c_int, m: c_int, o: i64, n: i64) = 285;
	fchdir(fd: c_int) = 81;
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const c_void) -> c_int {
	if fd >= VFD || ACTIVE.get() {
		with_act(|| world::destructive("futimens"));
		return ret(-1) as c_int;
	}
	sys(280, fd as usize, 0, t as usize, 0, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, x: *mut i64, b: c_int, y: *mut i64, n: usize, f: u32) -> isize {
	if ACTIVE.get() {
		sim(|| world::destructive("copy_file_range"));
		return ret(-1);
	}
	sys(326, a as usize, x as usize, b as usize, y as usize, n, f as usize)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
	if fd >= VFD {
		with_act(|| world::destructive("writev"));
		return ret(-9);
	}
	sys(20, fd as usize, v as usize, n as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, off: i64) -> isize {
	if fd >= VFD {
		with_act(|| world::destructive("pwrite64"));
		return ret(-9);
	}
	sys(18, fd as usize, b as usize, n, off as usize, 0, 0)
}
// harmless on a file that is only read
macro_rules! no_effect { ($($name:ident = $nr:expr;)*) => { $(
	#[no_mangle]
	pub unsafe extern "C" fn $name(fd: c_int, a: usize) -> c_int {
		if fd >= VFD {
			return 0;
		}
		sys($nr, fd as usize, a, 0, 0, 0, 0) as c_int
	}
)* } }
no_effect! {
	flock = 73;
	fsync = 74;
	fdatasync = 75;
}
pub fn kind_name(k: CallKind) -> &'static str {
	match k {
		CallKind::Open => "open",
		CallKind::Read => "read",
		CallKind::Close => "close",
		CallKind::Stat => "stat",
		CallKind::Lseek => "lseek",
		CallKind::Getcwd => "getcwd",
		CallKind::Realpath => "realpath",
		CallKind::Other => "other",
	}
}
