fn main() {
	#[cfg(not(kani))]
	nd::driver(&[proofs_common::TABLE], || {})
}
