fn main() {
	#[cfg(not(kani))]
	nd::driver(&[proofs_payments::TABLE], proofs_payments::world::reset)
}
