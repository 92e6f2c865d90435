//! Makes the crate rebuild whenever the checked source tree changes, whatever its timestamps say.
fn main() {
	println!("cargo:rerun-if-env-changed=REPO_SRC_HASH");
	println!("cargo:rustc-env=REPO_SRC_HASH={}", std::env::var("REPO_SRC_HASH").unwrap_or_default());
}
