//! The storage records of the library and of the crates it keeps its ownership and version in, one root per
//! operation: what they do to the bytes of the store.
use cosmwasm_std::*;
use cw_ica_controller::types::msg::options::ChannelOpenInitOptions;
use cw_ica_controller::types::state::*;

type Q = Vec<(String, bool)>;

item!(STATE, ContractState, st_state_save, st_state_load, st_state_may_load, st_state_exists, st_state_remove);
item!(CHANNEL_STATE, ChannelState, st_channel_save, st_channel_load, st_channel_may_load, st_channel_exists, st_channel_remove);
item!(CHANNEL_OPEN_INIT_OPTIONS, ChannelOpenInitOptions, st_options_save, st_options_load, st_options_may_load, st_options_exists, st_options_remove);
item!(ALLOW_CHANNEL_OPEN_INIT, bool, st_open_save, st_open_load, st_open_may_load, st_open_exists, st_open_remove);
item!(ALLOW_CHANNEL_CLOSE_INIT, bool, st_close_save, st_close_load, st_close_may_load, st_close_exists, st_close_remove);
item!(QUERY, Q, st_query_save, st_query_load, st_query_may_load, st_query_exists, st_query_remove);

map!(PENDING_QUERIES, Q, (ch: &str, n: u64) => (ch, n), st_filed_save, st_filed_load, st_filed_may_load, st_filed_exists, st_filed_remove);

pub fn st_owner_load(s: &dyn Storage) -> StdResult<cw_ownable::Ownership<Addr>> {
    cw_ownable::get_ownership(s)
}
pub fn st_owner_init(s: &mut dyn Storage, api: &dyn Api, owner: Option<&str>) -> StdResult<cw_ownable::Ownership<Addr>> {
    cw_ownable::initialize_owner(s, api, owner)
}
pub fn st_version_load(s: &dyn Storage) -> StdResult<cw2::ContractVersion> {
    cw2::get_contract_version(s)
}
pub fn st_version_save(s: &mut dyn Storage, name: String, version: String) -> StdResult<()> {
    cw2::set_contract_version(s, name, version)
}
