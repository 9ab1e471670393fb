//! The library as contracts that embed it build it: without the entry points (default features off), with and
//! without the query and staking features.
use super::*;
use cosmos_sdk_proto::Any;
use cw_ica_controller::helpers::*;
use cw_ica_controller::ibc::types::metadata::*;
use cw_ica_controller::ibc::types::packet::*;
use cw_ica_controller::ibc::types::stargate::channel::new_ica_channel_open_init_cosmos_msg;
use cw_ica_controller::types::callbacks::*;
use cw_ica_controller::types::state::*;

pub fn rt_convert(m: CosmosMsg, signer: String) -> Result<Any, prost::EncodeError> {
    cw_ica_controller::types::cosmos_msg::convert_to_proto_any(m, signer)
}
#[cfg(not(feature = "hasq"))]
pub fn rt_packet_msgs(m: Vec<CosmosMsg>, e: &TxEncoding, memo: Option<String>, ica: &str) -> StdResult<IcaPacketData> {
    IcaPacketData::from_cosmos_msgs(m, e, memo, ica)
}
#[cfg(feature = "hasq")]
pub fn rt_packet_msgs(m: Vec<CosmosMsg>, q: Vec<QueryRequest<Empty>>, e: &TxEncoding, memo: Option<String>, ica: &str) -> StdResult<IcaPacketData> {
    IcaPacketData::from_cosmos_msgs(m, q, e, memo, ica)
}
#[cfg(feature = "hasq")]
pub fn rt_query(q: QueryRequest<Empty>) -> (String, Vec<u8>, bool) {
    cw_ica_controller::types::query_msg::query_to_protobuf(q)
}
#[cfg(feature = "hasq")]
pub fn rt_response(path: &str, data: &[u8], star: bool) -> R<cw_ica_controller::types::query_msg::IcaQueryResponse> {
    cw_ica_controller::types::query_msg::from_protobuf::response(path, data, star)
}
#[cfg(feature = "hasq")]
pub fn rt_ack_at(d: &acknowledgement::Data, i: usize) -> R<cw_ica_controller::types::query_msg::proto::MsgModuleQuerySafeResponse> {
    d.decode_module_query_safe_resp(i)
}
pub fn rt_open_msg(addr: String, conn: String, port: Option<String>, cp: String, enc: Option<TxEncoding>, ord: Option<IbcOrder>) -> CosmosMsg {
    new_ica_channel_open_init_cosmos_msg(addr, conn, port, cp, enc, ord)
}
pub fn rt_validate(m: &IcaMetadata, c: &IbcChannel) -> R<()> {
    m.validate(c)
}
pub fn rt_from_channel(d: Deps, c: &IbcChannel) -> R<IcaMetadata> {
    IcaMetadata::from_channel(d, c)
}
pub fn rt_packet_new(data: Vec<u8>, memo: Option<String>) -> IcaPacketData {
    IcaPacketData::new(data, memo)
}
pub fn rt_packet_anys(a: Vec<Any>, memo: Option<String>) -> IcaPacketData {
    IcaPacketData::from_proto_anys(a, memo)
}
pub fn rt_packet_send(p: &IcaPacketData, env: &Env, ch: String, t: Option<u64>) -> StdResult<IbcMsg> {
    p.to_ibc_msg(env, ch, t)
}
pub fn rt_ack_data(d: &acknowledgement::Data) -> R<cosmos_sdk_proto::cosmos::base::abci::v1beta1::TxMsgData> {
    d.to_tx_msg_data()
}
pub fn rt_callback(m: IcaControllerCallbackMsg, a: String) -> StdResult<CosmosMsg> {
    m.into_cosmos_msg(a)
}
pub fn rt_port(o: &options::ChannelOpenInitOptions) -> String {
    o.counterparty_port_id()
}
pub fn rt_h_addr(c: &CwIcaControllerContract) -> Addr {
    c.addr()
}
pub fn rt_h_code_id(c: &CwIcaControllerCode) -> u64 {
    c.code_id()
}
pub fn rt_h_execute(c: &CwIcaControllerContract, m: ExecuteMsg) -> StdResult<CosmosMsg> {
    c.execute(m)
}
pub fn rt_h_update_admin(c: &CwIcaControllerContract, a: String) -> CosmosMsg {
    c.update_admin(a)
}
pub fn rt_h_clear_admin(c: &CwIcaControllerContract) -> CosmosMsg {
    c.clear_admin()
}
pub fn rt_h_migrate(c: &CwIcaControllerContract, m: MigrateMsg, id: u64) -> StdResult<CosmosMsg> {
    c.migrate(m, id)
}
pub fn rt_h_instantiate(c: &CwIcaControllerCode, m: InstantiateMsg, label: String, admin: Option<String>) -> StdResult<CosmosMsg> {
    c.instantiate(m, label, admin)
}
pub fn rt_h_instantiate2(c: &CwIcaControllerCode, api: &dyn Api, q: &QuerierWrapper, env: &Env, m: InstantiateMsg, label: String, admin: Option<String>, salt: String) -> StdResult<(CosmosMsg, Addr)> {
    c.instantiate2(api, q, env, m, label, admin, salt)
}
pub fn rt_q_channel(c: &CwIcaControllerContract, q: &QuerierWrapper) -> StdResult<ChannelState> {
    c.query(q).get_channel()
}
pub fn rt_q_state(c: &CwIcaControllerContract, q: &QuerierWrapper) -> StdResult<ContractState> {
    c.query(q).get_contract_state()
}
pub fn rt_q_ownership(c: &CwIcaControllerContract, q: &QuerierWrapper) -> StdResult<cw_ownable::Ownership<String>> {
    c.query(q).ownership()
}
