//! Contracts of virto-common's payment id.
use nd::{any, ens, reach, req};
use std::fmt::Write;
use virto_common::PaymentId;

fn bytes_of(p: &PaymentId) -> [u8; 8] {
	let s: &[u8] = p.as_ref();
	ens!(s.len() == 8, "I01 raw view is eight bytes");
	[s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]]
}

/// Captures formatted output without allocation.
struct Text {
	b: [u8; 16],
	n: usize,
}
impl Text {
	fn new() -> Self {
		Text { b: [0; 16], n: 0 }
	}
}
impl Write for Text {
	fn write_str(&mut self, s: &str) -> core::fmt::Result {
		let s = s.as_bytes();
		let mut i = 0;
		while i < s.len() {
			if self.n >= 16 {
				return Err(core::fmt::Error);
			}
			self.b[self.n] = s[i];
			self.n += 1;
			i += 1;
		}
		Ok(())
	}
}

fn text_of(id: &PaymentId, pretty: bool) -> (Text, bool) {
	let mut t = Text::new();
	let r = if pretty { write!(t, "{:#}", id) } else { write!(t, "{}", id) };
	(t, r.is_ok())
}

fn i01() {
	let n: u64 = any();
	let id = PaymentId::from(n);
	ens!(u64::from(id) == n, "I01 number -> id -> number is the identity");
	ens!(id.to_number() == n, "I01 to_number agrees");
	ens!(PaymentId::from_number(n) == id, "I01 from_number agrees");
	let le = n.to_le_bytes();
	ens!(bytes_of(&id) == le, "I01 raw bytes are the little-endian number");
	ens!(id.block_number() == (n >> 32) as u32, "I01 block number is the high half");
	ens!(id.extrinsic_index() == ((n >> 16) & 0xffff) as u32, "I01 extrinsic index is bytes 2..4");
	let m: u64 = any();
	let other = PaymentId::from(m);
	ens!((id == other) == (n == m), "I01 ids equal iff numbers equal");
	reach!(n != m && id.block_number() == other.block_number(), "I01 distinct ids in one block");
}

fn i02() {
	let (block, idx): (u32, u32) = (any(), any());
	let extra: [u8; 4] = any();
	let len = 2 + nd::below(3) as usize;
	req!(idx < 65536);
	let id = PaymentId::from((block, idx, &extra[..len]));
	ens!(id.block_number() == block, "I02 block is kept");
	ens!(id.extrinsic_index() == idx, "I02 extrinsic index is kept");
	let b = bytes_of(&id);
	ens!(b[0] == extra[0] && b[1] == extra[1], "I02 prefix is the first two bytes");
	let (block2, idx2): (u32, u32) = (any(), any());
	let extra2: [u8; 2] = any();
	req!(idx2 < 65536);
	let id2 = PaymentId::from((block2, idx2, &extra2[..]));
	let same = block == block2 && idx == idx2 && extra[0] == extra2[0] && extra[1] == extra2[1];
	ens!((id == id2) == same, "I02 equal exactly when all three parts agree");
	ens!((u64::from(id) == u64::from(id2)) == same, "I02 numbers equal exactly when all three parts agree");
	reach!(same, "I02 equal ids");
	reach!(!same && block == block2 && idx == idx2, "I02 differ in prefix only");
}

/// Case split on the text length (8..=11 covers every id by the base58 contract).
#[cfg(kani)]
fn text_len(n: usize) {
	unsafe { bs58::TEXT_LEN = n }
}
#[cfg(not(kani))]
fn text_len(_: usize) {}

fn str_of(t: &Text) -> &str {
	let mut i = 0;
	let mut ascii = true;
	while i < t.n {
		ascii = ascii && t.b[i] < 128;
		i += 1;
	}
	ens!(ascii, "I03 text is ascii");
	nd::assume(ascii);
	unsafe { std::str::from_utf8_unchecked(&t.b[..t.n]) }
}

fn i03_plain(len: usize) {
	text_len(len);
	let n: u64 = any();
	let id = PaymentId::from(n);
	let (p, ok) = text_of(&id, false);
	ens!(ok, "I03 plain text prints");
	if ok {
		ens!(str_of(&p).parse::<PaymentId>() == Ok(id), "I03 plain text parses back");
		reach!(true, "I03 plain round trip");
	}
}

fn i03_pretty(len: usize) {
	text_len(len);
	let n: u64 = any();
	let id = PaymentId::from(n);
	let (p, ok) = text_of(&id, false);
	let (q, ok2) = text_of(&id, true);
	ens!(ok && ok2, "I03 both texts print");
	if ok && ok2 {
		ens!(p.n >= 5 && q.n == p.n + 1, "I03 pretty text is one character longer");
		let mut i = 0;
		while i < q.n {
			if i < 5 {
				ens!(q.b[i] == p.b[i], "I03 pretty text starts with the first five characters");
			} else if i == 5 {
				ens!(q.b[i] == b'-', "I03 pretty text has the dash after five characters");
			} else {
				ens!(q.b[i] == p.b[i - 1], "I03 pretty text continues with the rest");
			}
			i += 1;
		}
		ens!(str_of(&q).parse::<PaymentId>() == Ok(id), "I03 pretty text parses back");
		reach!(true, "I03 pretty round trip");
	}
}

/// Any text of `LEN` bytes with one- and two-byte characters.
fn i04<const LEN: usize>() {
	let raw: [u8; LEN] = any();
	let mut i = 0;
	while i < LEN {
		// valid UTF-8 made of one- and two-byte characters
		let lead = |b: u8| b >= 0xC2 && b <= 0xDF;
		let cont = |b: u8| b & 0xC0 == 0x80;
		req!(raw[i] < 128 || lead(raw[i]) || cont(raw[i]));
		req!(cont(raw[i]) == (i > 0 && lead(raw[i - 1])));
		req!(!lead(raw[i]) || i + 1 < LEN);
		i += 1;
	}
	let s = unsafe { std::str::from_utf8_unchecked(&raw) };
	let r = s.parse::<PaymentId>();
	reach!(r.is_err(), "I04 some text is refused");
	if let Ok(id) = r {
		// the accepted text without its first dash is the canonical text
		let (t, ok) = text_of(&id, false);
		ens!(ok, "I04 accepted id prints");
		let mut seen_dash = false;
		let mut k = 0;
		let mut equal = true;
		let mut i = 0;
		while i < LEN {
			if raw[i] == b'-' && !seen_dash {
				seen_dash = true;
			} else {
				equal = equal && k < t.n && k < 16 && t.b[if k < 16 { k } else { 0 }] == raw[i];
				k += 1;
			}
			i += 1;
		}
		ens!(equal && k == t.n, "I04 an accepted text is the canonical spelling of its id");
	}
}

/// Contract of the standard library's byte search (first position of `x`), assumed in place of its word-at-a-time loop.
#[cfg(kani)]
fn first_byte(x: u8, text: &[u8]) -> Option<usize> {
	let mut i = 0;
	while i < text.len() {
		if text[i] == x {
			return Some(i);
		}
		i += 1;
	}
	None
}

nd::harnesses! {
	i01_number => i01();
	i02_parts => i02();
	#[kani::unwind(14)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i03_plain_08 => i03_plain(8);
	#[kani::unwind(14)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i03_pretty_08 => i03_pretty(8);
	#[kani::unwind(14)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i03_plain_09 => i03_plain(9);
	#[kani::unwind(14)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i03_pretty_09 => i03_pretty(9);
	#[kani::unwind(14)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i03_plain_10 => i03_plain(10);
	#[kani::unwind(14)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i03_pretty_10 => i03_pretty(10);
	#[kani::unwind(14)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i03_plain_11 => i03_plain(11);
	#[kani::unwind(14)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i03_pretty_11 => i03_pretty(11);
	#[kani::unwind(16)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i04_len_00 => i04::<0>();
	#[kani::unwind(16)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i04_len_01 => i04::<1>();
	#[kani::unwind(16)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i04_len_07 => i04::<7>();
	#[kani::unwind(16)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i04_len_08 => i04::<8>();
	#[kani::unwind(16)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i04_len_10 => i04::<10>();
	#[kani::unwind(16)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i04_len_11 => i04::<11>();
	#[kani::unwind(16)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i04_len_12 => i04::<12>();
	#[kani::unwind(16)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i04_len_13 => i04::<13>();
	#[kani::unwind(16)]
	#[kani::stub(core::slice::memchr::memchr, first_byte)]
	i04_len_14 => i04::<14>();
}
