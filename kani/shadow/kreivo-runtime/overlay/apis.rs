//! Stands in for the runtime API declarations (no code under contract there).
pub struct RuntimeApi;
pub const RUNTIME_API_VERSIONS: () = ();
