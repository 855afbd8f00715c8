//! A challenger with public coins: its challenges come from a seeded stream and do not depend on
//! what it observes, so a message can be altered while everything the verifier draws stays the same.
//! It records how observations and draws interleave.
use std::cell::{Cell, RefCell};

use binius_core::fiat_shamir::Challenger;
use bytes::{Buf, BufMut, buf::UninitSlice};

thread_local! {
	static SEED: Cell<u64> = const { Cell::new(0) };
	static EVENTS: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
	/// bytes observed since the last draw
	O(usize),
	/// bytes drawn since the last observation
	S(usize),
}
pub fn set_coins(seed: u64) {
	SEED.with(|s| s.set(seed));
}
/// events since the last transcript was started on this thread
pub fn events() -> Vec<Ev> {
	EVENTS.with(|e| e.borrow().clone())
}
fn push(ev: Ev) {
	EVENTS.with(|e| {
		let mut e = e.borrow_mut();
		match (e.last_mut(), ev) {
			(_, Ev::O(0)) | (_, Ev::S(0)) => {}
			(Some(Ev::O(n)), Ev::O(m)) => *n += m,
			(Some(Ev::S(n)), Ev::S(m)) => *n += m,
			_ => e.push(ev),
		}
	})
}
fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9e3779b97f4a7c15);
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
	z ^ (z >> 31)
}

#[derive(Clone, Debug)]
pub struct Draw {
	seed: u64,
	pos: u64,
	block: [u8; 64],
	at: usize,
}
#[derive(Clone, Debug)]
pub struct Sink(Vec<u8>);
#[derive(Clone, Debug)]
pub struct Coin {
	draw: Draw,
	sink: Sink,
}
impl Default for Coin {
	fn default() -> Self {
		EVENTS.with(|e| e.borrow_mut().clear());
		let mut draw = Draw { seed: SEED.with(|s| s.get()), pos: 0, block: [0; 64], at: 0 };
		draw.fill();
		Coin { draw, sink: Sink(vec![0; 4096]) }
	}
}
impl Draw {
	fn fill(&mut self) {
		for k in 0..8 {
			let x = mix(mix(self.seed) ^ mix(self.pos).rotate_left(17));
			self.block[8 * k..8 * k + 8].copy_from_slice(&x.to_le_bytes());
			self.pos += 1;
		}
		self.at = 0;
	}
}
impl Buf for Draw {
	fn remaining(&self) -> usize {
		usize::MAX
	}
	fn chunk(&self) -> &[u8] {
		&self.block[self.at..]
	}
	fn advance(&mut self, mut n: usize) {
		push(Ev::S(n));
		while n > 0 {
			let k = n.min(64 - self.at);
			self.at += k;
			n -= k;
			if self.at == 64 {
				self.fill();
			}
		}
	}
}
unsafe impl BufMut for Sink {
	fn remaining_mut(&self) -> usize {
		usize::MAX
	}
	unsafe fn advance_mut(&mut self, n: usize) {
		push(Ev::O(n));
	}
	fn chunk_mut(&mut self) -> &mut UninitSlice {
		(&mut self.0[..]).into()
	}
}
impl Challenger for Coin {
	fn sampler(&mut self) -> &mut impl Buf {
		&mut self.draw
	}
	fn observer(&mut self) -> &mut impl BufMut {
		&mut self.sink
	}
}
