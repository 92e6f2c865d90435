fn main() {
	#[cfg(not(kani))]
	nd::driver(&[proofs_communities::TABLE, proofs_communities::votes::TABLE, proofs_communities::manager::TABLE], proofs_communities::world::reset)
}
