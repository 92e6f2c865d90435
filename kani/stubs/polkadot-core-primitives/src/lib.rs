pub type Balance = u128;
pub type BlockNumber = u32;
