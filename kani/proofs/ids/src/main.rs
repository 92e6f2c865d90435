fn main() {
	#[cfg(not(kani))]
	nd::driver(&[proofs_ids::TABLE], || {})
}
