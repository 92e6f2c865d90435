//! Host functions used by the code under proof.
pub mod hashing {
	/// Contract: injective on the inputs it is used with (collision resistance); modelled by copying the input.
	pub fn blake2_256(data: &[u8]) -> [u8; 32] {
		nd::model_gap!(data.len() < 32, "blake2: input longer than the model covers");
		let mut out = [0u8; 32];
		out[..data.len()].copy_from_slice(data);
		out[31] = data.len() as u8;
		out
	}
	pub fn twox_64(data: &[u8]) -> [u8; 8] {
		let mut out = [0u8; 8];
		let n = if data.len() < 8 { data.len() } else { 8 };
		out[..n].copy_from_slice(&data[..n]);
		out
	}
}
