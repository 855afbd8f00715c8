//! Conformance of one serializable value: shared by the C04 harnesses.
use binius_utils::{DeserializeBytes, SerializationMode, SerializeBytes};
use bytes::{Buf, BufMut};
use vmon::{Case, clip, ensure, ensure_eq, fail, guard};

pub const MODES: [SerializationMode; 2] = [SerializationMode::Native, SerializationMode::CanonicalTower];

/// A reader that hands its bytes out in small chunks and refuses to be over-read.
pub struct Seg<'a> {
	pub data: &'a [u8],
	pub cut: usize,
	pub overread: bool,
}
impl Buf for Seg<'_> {
	fn remaining(&self) -> usize {
		self.data.len()
	}
	fn chunk(&self) -> &[u8] {
		&self.data[..self.data.len().min(self.cut)]
	}
	fn advance(&mut self, n: usize) {
		if n > self.data.len() {
			self.overread = true;
		}
		self.data = &self.data[n..];
	}
}

fn hex(b: &[u8]) -> String {
	b.iter().take(96).map(|b| format!("{b:02x}")).collect()
}

pub fn encode<T: SerializeBytes>(v: &T, mode: SerializationMode) -> Result<Vec<u8>, String> {
	let mut out = vec![];
	guard(|| v.serialize(&mut out, mode)).map_err(|e| format!("serializing panicked: {e}"))?.map_err(|e| format!("serializing failed: {e}"))?;
	Ok(out)
}

/// `expect`: the bytes the value must have, when the harness knows them.
pub fn conform<T: SerializeBytes + DeserializeBytes>(
	c: &mut Case,
	what: &str,
	v: &T,
	mode: SerializationMode,
	expect: Option<&[u8]>,
	show: &dyn Fn(&T) -> String,
) -> Result<Vec<u8>, String> {
	let at = |e: String| format!("{what} {mode:?}: {e}");
	let shown = show(v);
	let bytes = encode(v, mode).map_err(at)?;
	if let Some(e) = expect {
		ensure_eq!(hex(&bytes), hex(e), "{what} {mode:?}: bytes of {}", clip(&shown));
		ensure!(bytes == e, "{what} {mode:?}: bytes of {} differ behind the first 96", clip(&shown));
	}
	// written after something else, and into a buffer made of small pieces
	let mut pre = vec![0xaa; 3];
	v.serialize(&mut pre, mode).map_err(|e| at(es(e)))?;
	ensure!(pre[..3] == [0xaa; 3] && pre[3..] == bytes, "{what} {mode:?}: a second serialization differs");
	// exact and too small fixed buffers
	let mut exact = vec![0u8; bytes.len()];
	{
		let mut w = &mut exact[..];
		guard(|| v.serialize(&mut w, mode)).map_err(|e| at(format!("panic writing into an exact buffer: {e}")))?.map_err(|e| at(format!("an exactly sized buffer was refused: {e}")))?;
		ensure_eq!(w.remaining_mut(), 0, "{what} {mode:?}: bytes left in an exactly sized buffer");
	}
	ensure!(exact == bytes, "{what} {mode:?}: bytes written to a fixed buffer differ");
	let cuts: Vec<usize> = if bytes.len() <= 40 { (0..bytes.len()).collect() } else { (0..24).map(|_| c.below(bytes.len())).chain([0, bytes.len() - 1]).collect() };
	for &k in &cuts {
		let mut small = vec![0u8; k + 8];
		small[k..].fill(0x5c);
		let (a, b) = small.split_at_mut(k);
		let mut w = &mut a[..];
		match guard(|| v.serialize(&mut w, mode)) {
			Err(e) => fail!("{what} {mode:?}: writing {} bytes into {k} panicked: {e}", bytes.len()),
			Ok(Ok(())) => fail!("{what} {mode:?}: writing {} bytes into {k} reported success", bytes.len()),
			Ok(Err(_)) => {}
		}
		ensure!(b == [0x5c; 8], "{what} {mode:?}: wrote past the buffer");
		let cut = c.range(1, 9);
		let mut r = Seg { data: &bytes[..k], cut, overread: false };
		match guard(|| T::deserialize(&mut r, mode)) {
			Err(e) => fail!("{what} {mode:?}: decoding {k} of {} bytes panicked: {e}", bytes.len()),
			Ok(Ok(x)) => fail!("{what} {mode:?}: {k} of {} bytes were decoded as {}", bytes.len(), clip(&show(&x))),
			Ok(Err(_)) => {}
		}
		ensure!(!r.overread, "{what} {mode:?}: read past the buffer");
		c.count("truncations", 1);
	}
	// read back, from one piece and from many, with other data behind
	for cut in [usize::MAX, 1, 3] {
		let mut data = bytes.clone();
		let k = c.below(20);
		data.extend(c.bytes(k));
		let mut r = Seg { data: &data, cut, overread: false };
		let back = guard(|| T::deserialize(&mut r, mode)).map_err(|e| at(format!("decoding {} panicked: {e}", clip(&shown))))?.map_err(|e| at(format!("decoding {} failed: {e}", clip(&shown))))?;
		ensure_eq!(r.remaining(), k, "{what} {mode:?}: bytes left after {}", clip(&shown));
		ensure_eq!(show(&back), shown, "{what} {mode:?}: read back");
	}
	c.count("round trips", 1);
	Ok(bytes)
}

/// Arbitrary bytes: a value that can be written and read back, or an error.
pub fn hostile<T: SerializeBytes + DeserializeBytes>(
	c: &mut Case,
	what: &str,
	data: &[u8],
	mode: SerializationMode,
	show: &dyn Fn(&T) -> String,
) -> Result<Option<T>, String> {
	let cut = if c.flip() { usize::MAX } else { c.range(1, 9) };
	let mut r = Seg { data, cut, overread: false };
	let x = match guard(|| T::deserialize(&mut r, mode)) {
		Err(e) => fail!("{what} {mode:?}: decoding arbitrary bytes panicked: {e}; bytes {}", hex(data)),
		Ok(Err(_)) => {
			c.count("refused", 1);
			return Ok(None);
		}
		Ok(Ok(x)) => x,
	};
	c.count("decoded", 1);
	let again = encode(&x, mode).map_err(|e| format!("{what} {mode:?}: value decoded from arbitrary bytes: {e}; bytes {}", hex(data)))?;
	let back = guard(|| T::deserialize(&again[..], mode))
		.map_err(|e| format!("{what} {mode:?}: {e}"))?
		.map_err(|e| format!("{what} {mode:?}: a decoded value cannot be written and read back: {e}; bytes {}", hex(data)))?;
	ensure_eq!(show(&back), show(&x), "{what} {mode:?}: decoded value after a second round trip; bytes {}", hex(data));
	Ok(Some(x))
}

/// Damage an encoding.
pub fn damage(c: &mut Case, bytes: &[u8]) -> Vec<u8> {
	let mut b = bytes.to_vec();
	for _ in 0..c.range(1, 3) {
		if b.is_empty() {
			let k = c.below(40);
			b = c.bytes(k);
			continue;
		}
		let i = c.below(b.len());
		match c.below(8) {
			0 => b[i] ^= 1 << c.below(8),
			1 => b[i] = c.below(256) as u8,
			2 => b[i] = b[i].wrapping_add(1),
			3 => b[i] = c.below(12) as u8,
			4 => {
				let k = c.below(b.len() - i + 1);
				b.drain(i..i + k);
			}
			5 => {
				let k = c.below(9);
				let x = c.bytes(k);
				b.splice(i..i, x);
			}
			6 => {
				// a 32-bit little-endian count or index
				let v = c.pick(&[0u32, 1, 2, 3, 7, 31, 32, 63, 64, 65, 127, 128, 200, 1 << 16, 1 << 31, u32::MAX]);
				for (j, x) in v.to_le_bytes().iter().enumerate() {
					if i + j < b.len() {
						b[i + j] = *x;
					}
				}
			}
			_ => {
				let j = c.below(b.len());
				let k = c.below(b.len() - i.max(j) + 1);
				let src = b[i..i + k].to_vec();
				b[j..j + k].copy_from_slice(&src);
			}
		}
	}
	b
}

fn es<E: std::fmt::Display>(e: E) -> String {
	e.to_string()
}
