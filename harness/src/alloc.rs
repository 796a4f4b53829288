//! A global allocator that keeps count, per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
	static LIVE: Cell<i64> = const { Cell::new(0) };
	static PEAK: Cell<i64> = const { Cell::new(0) };
	static CALLS: Cell<u64> = const { Cell::new(0) };
	static BYTES: Cell<u64> = const { Cell::new(0) };
}

fn add(size: usize) {
	let _ = LIVE.try_with(|l| {
		let v = l.get() + size as i64;
		l.set(v);
		let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
	});
	let _ = CALLS.try_with(|c| c.set(c.get() + 1));
	let _ = BYTES.try_with(|c| c.set(c.get() + size as u64));
}

fn sub(size: usize) {
	let _ = LIVE.try_with(|l| l.set(l.get() - size as i64));
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
		let p = unsafe { System.alloc(layout) };
		if !p.is_null() {
			add(layout.size());
		}
		p
	}
	unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
		let p = unsafe { System.alloc_zeroed(layout) };
		if !p.is_null() {
			add(layout.size());
		}
		p
	}
	unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
		sub(layout.size());
		unsafe { System.dealloc(ptr, layout) }
	}
	unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new: usize) -> *mut u8 {
		let p = unsafe { System.realloc(ptr, layout, new) };
		if !p.is_null() {
			// While moving, both exist
			add(new);
			sub(layout.size());
		}
		p
	}
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
	/// Bytes still allocated
	pub left: i64,
	/// Most bytes allocated at once
	pub peak: i64,
	pub calls: u64,
	pub bytes: u64,
}

/// What `f` allocates on this thread
pub fn measure<X>(f: impl FnOnce() -> X) -> (X, Usage) {
	let live = LIVE.with(|l| l.get());
	PEAK.with(|p| p.set(live));
	let calls = CALLS.with(|l| l.get());
	let bytes = BYTES.with(|l| l.get());
	let x = f();
	let u = Usage {
		left: LIVE.with(|l| l.get()) - live,
		peak: PEAK.with(|p| p.get()) - live,
		calls: CALLS.with(|l| l.get()) - calls,
		bytes: BYTES.with(|l| l.get()) - bytes,
	};
	(x, u)
}
