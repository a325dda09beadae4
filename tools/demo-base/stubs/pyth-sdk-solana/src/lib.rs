//! Stand-in for `pyth-sdk-solana`: the types and functions the program names.
pub struct Price {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
    pub publish_time: i64,
}
pub mod state {
    pub const MAGIC: u32 = 0xa1b2c3d4;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum PriceStatus { Unknown, Trading, Halted, Auction, Ignored }
    #[derive(Clone, Copy, Debug)]
    pub struct PriceInfo { pub price: i64, pub conf: u64, pub status: PriceStatus, pub pub_slot: u64 }
    #[derive(Clone, Copy, Debug)]
    pub struct SolanaPriceAccount {
        pub expo: i32,
        pub timestamp: i64,
        pub prev_slot: u64,
        pub prev_price: i64,
        pub prev_conf: u64,
        pub prev_timestamp: i64,
        pub agg: PriceInfo,
    }
    #[derive(Debug)]
    pub struct PythError;
    pub fn load_price_account(_data: &[u8]) -> Result<&SolanaPriceAccount, PythError> { Err(PythError) }
}
