//! The passkey authenticator, by name only.
pub struct Authenticator<C, A>(core::marker::PhantomData<(C, A)>);
