//! Stand-in for `switchboard-solana`: the types and functions the program names.
#[derive(Clone, Copy, Debug, bytemuck::Pod, bytemuck::Zeroable)]
#[repr(C)]
pub struct SwitchboardDecimal { pub mantissa: [u64; 2], pub scale: u64 }
#[derive(Debug)]
pub struct SwitchboardError;
impl std::fmt::Display for SwitchboardError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "switchboard") }
}
impl TryInto<f64> for SwitchboardDecimal {
    type Error = SwitchboardError;
    fn try_into(self) -> Result<f64, SwitchboardError> { Err(SwitchboardError) }
}
#[derive(Clone, Copy, Debug, bytemuck::Pod, bytemuck::Zeroable)]
#[repr(C)]
pub struct AggregatorRound { pub round_open_slot: u64, pub result: SwitchboardDecimal, pub std_deviation: SwitchboardDecimal }
#[derive(Clone, Copy, Debug, bytemuck::Pod, bytemuck::Zeroable)]
#[repr(C)]
pub struct AggregatorAccountData { pub latest_confirmed_round: AggregatorRound }
impl AggregatorAccountData {
    pub fn get_result(&self) -> Result<SwitchboardDecimal, SwitchboardError> { Err(SwitchboardError) }
}
