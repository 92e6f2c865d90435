pub mod primitives {
	pub struct Sibling;
}
