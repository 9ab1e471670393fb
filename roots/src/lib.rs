//! Roots of the verified call graph.  Every function here only forwards to one item of
//! cw-ica-controller, so that the compiler monomorphises it; no logic lives here.
#![allow(clippy::all, missing_docs, unused_imports)]
#[macro_use]
mod ops;
#[cfg(feature = "trees")]
pub mod codec;
#[cfg(feature = "store")]
pub mod store;
#[cfg(feature = "min")]
pub mod min;
#[cfg(any(feature = "owner", feature = "counter"))]
pub mod example;
use cosmwasm_std::*;
use cw_ica_controller::types::msg::*;
use cw_ica_controller::types::ContractError;

type R<T> = Result<T, ContractError>;

// ---- entry points ------------------------------------------------------------------------------
#[cfg(all(feature = "full", not(feature = "trees")))]
pub mod entry {
use super::*;
pub fn ep_instantiate(d: DepsMut, e: Env, i: MessageInfo, m: InstantiateMsg) -> R<Response> {
    cw_ica_controller::contract::instantiate(d, e, i, m)
}
pub fn ep_execute(d: DepsMut, e: Env, i: MessageInfo, m: ExecuteMsg) -> R<Response> {
    cw_ica_controller::contract::execute(d, e, i, m)
}
pub fn ep_reply(d: DepsMut, e: Env, m: Reply) -> R<Response> {
    cw_ica_controller::contract::reply(d, e, m)
}
pub fn ep_query(d: Deps, e: Env, m: QueryMsg) -> StdResult<Binary> {
    cw_ica_controller::contract::query(d, e, m)
}
pub fn ep_migrate(d: DepsMut, e: Env, m: MigrateMsg) -> R<Response> {
    cw_ica_controller::contract::migrate(d, e, m)
}
pub fn ep_ibc_channel_open(d: DepsMut, e: Env, m: IbcChannelOpenMsg) -> R<IbcChannelOpenResponse> {
    cw_ica_controller::ibc::handshake::ibc_channel_open(d, e, m)
}
pub fn ep_ibc_channel_connect(d: DepsMut, e: Env, m: IbcChannelConnectMsg) -> R<IbcBasicResponse> {
    cw_ica_controller::ibc::handshake::ibc_channel_connect(d, e, m)
}
pub fn ep_ibc_channel_close(d: DepsMut, e: Env, m: IbcChannelCloseMsg) -> R<IbcBasicResponse> {
    cw_ica_controller::ibc::handshake::ibc_channel_close(d, e, m)
}
pub fn ep_ibc_packet_ack(d: DepsMut, e: Env, m: IbcPacketAckMsg) -> R<IbcBasicResponse> {
    cw_ica_controller::ibc::relay::ibc_packet_ack(d, e, m)
}
pub fn ep_ibc_packet_timeout(d: DepsMut, e: Env, m: IbcPacketTimeoutMsg) -> R<IbcBasicResponse> {
    cw_ica_controller::ibc::relay::ibc_packet_timeout(d, e, m)
}
pub fn ep_ibc_packet_receive(d: DepsMut, e: Env, m: IbcPacketReceiveMsg) -> Result<IbcReceiveResponse, Never> {
    cw_ica_controller::ibc::relay::ibc_packet_receive(d, e, m)
}
}

// ---- library items with a contract of their own --------------------------------------------------
#[cfg(feature = "lib")]
pub mod lib_roots {
    use super::*;
    use cosmos_sdk_proto::Any;
    use cw_ica_controller::helpers::*;
    use cw_ica_controller::ibc::types::metadata::*;
    use cw_ica_controller::ibc::types::packet::*;
    use cw_ica_controller::ibc::types::stargate::channel::new_ica_channel_open_init_cosmos_msg;
    use cw_ica_controller::types::callbacks::*;
    use cw_ica_controller::types::query_msg::{self, proto, IcaQueryResponse, IcaQueryResult};
    use cw_ica_controller::types::state::*;

    pub fn rt_convert(m: CosmosMsg, signer: String) -> Result<Any, prost::EncodeError> {
        cw_ica_controller::types::cosmos_msg::convert_to_proto_any(m, signer)
    }
    pub fn rt_query(q: QueryRequest<Empty>) -> (String, Vec<u8>, bool) {
        query_msg::query_to_protobuf(q)
    }
    pub fn rt_response(path: &str, data: &[u8], star: bool) -> R<IcaQueryResponse> {
        query_msg::from_protobuf::response(path, data, star)
    }
    pub fn rt_result(paths: Vec<(String, bool)>, resp: &proto::MsgModuleQuerySafeResponse) -> IcaQueryResult {
        query_msg::result_from_response(paths, resp)
    }
    pub fn rt_open_msg(addr: String, conn: String, port: Option<String>, cp: String, enc: Option<TxEncoding>, ord: Option<IbcOrder>) -> CosmosMsg {
        new_ica_channel_open_init_cosmos_msg(addr, conn, port, cp, enc, ord)
    }
    pub fn rt_validate(m: &IcaMetadata, c: &IbcChannel) -> R<()> {
        m.validate(c)
    }
    pub fn rt_from_channel(d: Deps, c: &IbcChannel) -> R<IcaMetadata> {
        IcaMetadata::from_channel(d, c)
    }
    pub fn rt_packet_new(data: Vec<u8>, memo: Option<String>) -> IcaPacketData {
        IcaPacketData::new(data, memo)
    }
    pub fn rt_packet_anys(a: Vec<Any>, memo: Option<String>) -> IcaPacketData {
        IcaPacketData::from_proto_anys(a, memo)
    }
    pub fn rt_packet_msgs(s: &mut dyn Storage, m: Vec<CosmosMsg>, q: Vec<QueryRequest<Empty>>, e: &TxEncoding, memo: Option<String>, ica: &str) -> StdResult<IcaPacketData> {
        IcaPacketData::from_cosmos_msgs(s, m, q, e, memo, ica)
    }
    pub fn rt_packet_send(p: &IcaPacketData, env: &Env, ch: String, t: Option<u64>) -> StdResult<IbcMsg> {
        p.to_ibc_msg(env, ch, t)
    }
    pub fn rt_ack_data(d: &acknowledgement::Data) -> R<cosmos_sdk_proto::cosmos::base::abci::v1beta1::TxMsgData> {
        d.to_tx_msg_data()
    }
    pub fn rt_ack_at(d: &acknowledgement::Data, i: usize) -> R<proto::MsgModuleQuerySafeResponse> {
        d.decode_module_query_safe_resp(i)
    }
    pub fn rt_callback(m: IcaControllerCallbackMsg, a: String) -> StdResult<CosmosMsg> {
        m.into_cosmos_msg(a)
    }
    pub fn rt_port(o: &options::ChannelOpenInitOptions) -> String {
        o.counterparty_port_id()
    }
    pub fn rt_h_execute(c: &CwIcaControllerContract, m: ExecuteMsg) -> StdResult<CosmosMsg> {
        c.execute(m)
    }
    pub fn rt_h_update_admin(c: &CwIcaControllerContract, a: String) -> CosmosMsg {
        c.update_admin(a)
    }
    pub fn rt_h_clear_admin(c: &CwIcaControllerContract) -> CosmosMsg {
        c.clear_admin()
    }
    pub fn rt_h_migrate(c: &CwIcaControllerContract, m: MigrateMsg, id: u64) -> StdResult<CosmosMsg> {
        c.migrate(m, id)
    }
    pub fn rt_h_addr(c: &CwIcaControllerContract) -> Addr {
        c.addr()
    }
    pub fn rt_h_code_id(c: &CwIcaControllerCode) -> u64 {
        c.code_id()
    }
    pub fn rt_h_instantiate(c: &CwIcaControllerCode, m: InstantiateMsg, label: String, admin: Option<String>) -> StdResult<CosmosMsg> {
        c.instantiate(m, label, admin)
    }
    pub fn rt_h_instantiate2(c: &CwIcaControllerCode, api: &dyn Api, q: &QuerierWrapper, env: &Env, m: InstantiateMsg, label: String, admin: Option<String>, salt: String) -> StdResult<(CosmosMsg, Addr)> {
        c.instantiate2(api, q, env, m, label, admin, salt)
    }
    pub fn rt_q_channel(c: &CwIcaControllerContract, q: &QuerierWrapper) -> StdResult<ChannelState> {
        c.query(q).get_channel()
    }
    pub fn rt_q_state(c: &CwIcaControllerContract, q: &QuerierWrapper) -> StdResult<ContractState> {
        c.query(q).get_contract_state()
    }
    pub fn rt_q_ownership(c: &CwIcaControllerContract, q: &QuerierWrapper) -> StdResult<cw_ownable::Ownership<String>> {
        c.query(q).ownership()
    }
}
