//! The contracts of the repository that use the library: the owner contract and the callback counter.
use cosmwasm_std::*;

#[cfg(feature = "owner")]
pub mod owner {
    use super::*;
    use cw_ica_owner::{contract, msg::*, ContractError};
    pub fn ow_instantiate(d: DepsMut, e: Env, i: MessageInfo, m: InstantiateMsg) -> Result<Response, ContractError> {
        contract::instantiate(d, e, i, m)
    }
    pub fn ow_execute(d: DepsMut, e: Env, i: MessageInfo, m: ExecuteMsg) -> Result<Response, ContractError> {
        contract::execute(d, e, i, m)
    }
    pub fn ow_query(d: Deps, e: Env, m: QueryMsg) -> StdResult<Binary> {
        contract::query(d, e, m)
    }
    use cw_ica_owner::state::*;
    item!(STATE, ContractState, st_admin_save, st_admin_load, st_admin_may_load, st_admin_exists, st_admin_remove);
    item!(ICA_COUNT, u64, st_count_save, st_count_load, st_count_may_load, st_count_exists, st_count_remove);
    map!(ICA_STATES, IcaContractState, (n: u64) => n, st_ica_save, st_ica_load, st_ica_may_load, st_ica_exists, st_ica_remove);
    map!(CONTRACT_ADDR_TO_ICA_ID, u64, (a: Addr) => a, st_id_save, st_id_load, st_id_may_load, st_id_exists, st_id_remove);
}

#[cfg(feature = "counter")]
pub mod counter {
    use super::*;
    use callback_counter::{contract, msg::*, ContractError};
    pub fn cc_instantiate(d: DepsMut, e: Env, i: MessageInfo, m: InstantiateMsg) -> Result<Response, ContractError> {
        contract::instantiate(d, e, i, m)
    }
    pub fn cc_execute(d: DepsMut, e: Env, i: MessageInfo, m: ExecuteMsg) -> Result<Response, ContractError> {
        contract::execute(d, e, i, m)
    }
    item!(callback_counter::state::CALLBACK_COUNTER, callback_counter::state::CallbackCounter, st_counter_save, st_counter_load, st_counter_may_load, st_counter_exists, st_counter_remove);
    pub fn cc_query(d: Deps, e: Env, m: QueryMsg) -> StdResult<Binary> {
        contract::query(d, e, m)
    }
}
