pub type Balance = u128;
pub type BlockNumber = u32;
pub type Moment = u64;
pub struct Id(pub u32);
