//! Stand-in for `switchboard-program`: the types and functions the program names.
pub struct FastRoundResult { pub round_open_slot: u64, pub result: f64, pub min_response: f64, pub max_response: f64 }
pub struct FastRoundResultAccountData { pub result: FastRoundResult }
#[derive(Debug)]
pub struct SwitchboardError;
impl FastRoundResultAccountData {
    pub fn deserialize(_data: &[u8]) -> Result<Self, SwitchboardError> { Err(SwitchboardError) }
}
