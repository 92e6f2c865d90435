fn main() {
	#[cfg(not(kani))]
	nd::driver(&[proofs_runtime::TABLE, proofs_runtime::calls::TABLE, proofs_runtime::places::TABLE], proofs_runtime::world::reset)
}
