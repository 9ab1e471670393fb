//! A serde data format whose documents are trees: `to_tree` runs the real `Serialize` implementation of
//! a type, `from_tree` its real `Deserialize` implementation.  It has the conventions of JSON
//! (structs are objects, unit variants strings, other variants one-entry objects, newtypes transparent,
//! `None` null) and stands for the text layer, which is a dependency (serde-json-wasm).
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use serde::Deserialize;
use std::fmt::{self, Display};

pub enum Json {
    Null,
    Bool(bool),
    Num(u64),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
    /// an array of the numbers 0..255 (a `Vec<u8>`)
    Bytes(Vec<u8>),
    /// the encoding of a value of a type of a dependency
    Dep(Vec<u8>),
}

#[derive(Debug)]
pub struct E;
impl Display for E {
    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(_m: T) -> Self {
        E
    }
}
impl de::Error for E {
    fn custom<T: Display>(_m: T) -> Self {
        E
    }
    fn invalid_type(_u: de::Unexpected, _e: &dyn de::Expected) -> Self {
        E
    }
    fn invalid_value(_u: de::Unexpected, _e: &dyn de::Expected) -> Self {
        E
    }
    fn invalid_length(_l: usize, _e: &dyn de::Expected) -> Self {
        E
    }
    fn unknown_variant(_v: &str, _e: &'static [&'static str]) -> Self {
        E
    }
    fn unknown_field(_f: &str, _e: &'static [&'static str]) -> Self {
        E
    }
    fn missing_field(_f: &'static str) -> Self {
        E
    }
    fn duplicate_field(_f: &'static str) -> Self {
        E
    }
}

pub fn to_tree<T: Serialize + ?Sized>(x: &T) -> Result<Json, E> {
    x.serialize(S)
}
pub fn from_tree<'de, T: Deserialize<'de>>(j: Json) -> Result<T, E> {
    T::deserialize(D(j))
}
/// contract of the sequence decoder of serde (see hooks)
pub fn from_seq<'de, T: Deserialize<'de>>(v: Vec<Json>) -> Result<Vec<T>, E> {
    v.into_iter().map(|x| T::deserialize(D(x))).collect()
}
pub fn to_seq<T: Serialize>(v: &Vec<T>) -> Result<Json, E> {
    let r: Result<Vec<Json>, E> = v.iter().map(|x| x.serialize(S)).collect();
    match r {
        Ok(v) => Ok(Json::Arr(v)),
        Err(e) => Err(e),
    }
}

// ---- serialisation ------------------------------------------------------------------------------
pub struct S;
pub struct SeqS(Vec<Json>);
pub struct VarSeqS(&'static str, Vec<Json>);
pub struct MapS(Vec<(String, Json)>, Option<String>);
pub struct VarMapS(&'static str, Vec<(String, Json)>);

fn one(k: &str, v: Json) -> Json {
    let mut o = Vec::new();
    o.push((k.to_string(), v));
    Json::Obj(o)
}

impl Serializer for S {
    type Ok = Json;
    type Error = E;
    type SerializeSeq = SeqS;
    type SerializeTuple = SeqS;
    type SerializeTupleStruct = SeqS;
    type SerializeTupleVariant = VarSeqS;
    type SerializeMap = MapS;
    type SerializeStruct = MapS;
    type SerializeStructVariant = VarMapS;
    fn serialize_bool(self, v: bool) -> Result<Json, E> {
        Ok(Json::Bool(v))
    }
    fn serialize_i8(self, _v: i8) -> Result<Json, E> {
        Err(E)
    }
    fn serialize_i16(self, _v: i16) -> Result<Json, E> {
        Err(E)
    }
    fn serialize_i32(self, _v: i32) -> Result<Json, E> {
        Err(E)
    }
    fn serialize_i64(self, _v: i64) -> Result<Json, E> {
        Err(E)
    }
    fn serialize_u8(self, v: u8) -> Result<Json, E> {
        Ok(Json::Num(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<Json, E> {
        Ok(Json::Num(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<Json, E> {
        Ok(Json::Num(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<Json, E> {
        Ok(Json::Num(v))
    }
    fn serialize_f32(self, _v: f32) -> Result<Json, E> {
        Err(E)
    }
    fn serialize_f64(self, _v: f64) -> Result<Json, E> {
        Err(E)
    }
    fn serialize_char(self, _v: char) -> Result<Json, E> {
        Err(E)
    }
    fn serialize_str(self, v: &str) -> Result<Json, E> {
        Ok(Json::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Json, E> {
        Ok(Json::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<Json, E> {
        Ok(Json::Null)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Json, E> {
        v.serialize(S)
    }
    fn serialize_unit(self) -> Result<Json, E> {
        Ok(Json::Null)
    }
    fn serialize_unit_struct(self, _n: &'static str) -> Result<Json, E> {
        Ok(Json::Null)
    }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, v: &'static str) -> Result<Json, E> {
        Ok(Json::Str(v.to_string()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _n: &'static str, v: &T) -> Result<Json, E> {
        v.serialize(S)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _n: &'static str, _i: u32, k: &'static str, v: &T) -> Result<Json, E> {
        match v.serialize(S) {
            Ok(j) => Ok(one(k, j)),
            Err(e) => Err(e),
        }
    }
    fn serialize_seq(self, _l: Option<usize>) -> Result<SeqS, E> {
        Ok(SeqS(Vec::new()))
    }
    fn serialize_tuple(self, _l: usize) -> Result<SeqS, E> {
        Ok(SeqS(Vec::new()))
    }
    fn serialize_tuple_struct(self, _n: &'static str, _l: usize) -> Result<SeqS, E> {
        Ok(SeqS(Vec::new()))
    }
    fn serialize_tuple_variant(self, _n: &'static str, _i: u32, k: &'static str, _l: usize) -> Result<VarSeqS, E> {
        Ok(VarSeqS(k, Vec::new()))
    }
    fn serialize_map(self, _l: Option<usize>) -> Result<MapS, E> {
        Ok(MapS(Vec::new(), None))
    }
    fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<MapS, E> {
        Ok(MapS(Vec::new(), None))
    }
    fn serialize_struct_variant(self, _n: &'static str, _i: u32, k: &'static str, _l: usize) -> Result<VarMapS, E> {
        Ok(VarMapS(k, Vec::new()))
    }
}
impl ser::SerializeSeq for SeqS {
    type Ok = Json;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        match v.serialize(S) {
            Ok(j) => Ok(self.0.push(j)),
            Err(e) => Err(e),
        }
    }
    fn end(self) -> Result<Json, E> {
        Ok(Json::Arr(self.0))
    }
}
impl ser::SerializeTuple for SeqS {
    type Ok = Json;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        match v.serialize(S) {
            Ok(j) => Ok(self.0.push(j)),
            Err(e) => Err(e),
        }
    }
    fn end(self) -> Result<Json, E> {
        Ok(Json::Arr(self.0))
    }
}
impl ser::SerializeTupleStruct for SeqS {
    type Ok = Json;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        match v.serialize(S) {
            Ok(j) => Ok(self.0.push(j)),
            Err(e) => Err(e),
        }
    }
    fn end(self) -> Result<Json, E> {
        Ok(Json::Arr(self.0))
    }
}
impl ser::SerializeTupleVariant for VarSeqS {
    type Ok = Json;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        match v.serialize(S) {
            Ok(j) => Ok(self.1.push(j)),
            Err(e) => Err(e),
        }
    }
    fn end(self) -> Result<Json, E> {
        Ok(one(self.0, Json::Arr(self.1)))
    }
}
impl ser::SerializeMap for MapS {
    type Ok = Json;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        match v.serialize(S) {
            Ok(Json::Str(s)) => {
                self.1 = Some(s);
                Ok(())
            }
            _ => Err(E),
        }
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        match (self.1.take(), v.serialize(S)) {
            (Some(k), Ok(j)) => Ok(self.0.push((k, j))),
            _ => Err(E),
        }
    }
    fn end(self) -> Result<Json, E> {
        Ok(Json::Obj(self.0))
    }
}
impl ser::SerializeStruct for MapS {
    type Ok = Json;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        match v.serialize(S) {
            Ok(j) => Ok(self.0.push((k.to_string(), j))),
            Err(e) => Err(e),
        }
    }
    fn end(self) -> Result<Json, E> {
        Ok(Json::Obj(self.0))
    }
}
impl ser::SerializeStructVariant for VarMapS {
    type Ok = Json;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        match v.serialize(S) {
            Ok(j) => Ok(self.1.push((k.to_string(), j))),
            Err(e) => Err(e),
        }
    }
    fn end(self) -> Result<Json, E> {
        Ok(one(self.0, Json::Obj(self.1)))
    }
}

// ---- deserialisation ----------------------------------------------------------------------------
pub struct D(pub Json);
pub struct KeyD(String);
pub struct SeqD(std::vec::IntoIter<Json>);
pub struct MapD(std::vec::IntoIter<(String, Json)>, Option<Json>);
pub struct EnumD(String, Option<Json>);
pub struct VarD(Option<Json>);

impl<'de> Deserializer<'de> for D {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Json::Null => v.visit_unit(),
            Json::Bool(b) => v.visit_bool(b),
            Json::Num(n) => v.visit_u64(n),
            Json::Str(s) => v.visit_string(s),
            Json::Arr(a) => v.visit_seq(SeqD(a.into_iter())),
            Json::Obj(o) => v.visit_map(MapD(o.into_iter(), None)),
            Json::Bytes(_) | Json::Dep(_) => Err(E),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Json::Null => v.visit_none(),
            j => v.visit_some(D(j)),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _n: &'static str, _vs: &'static [&'static str], v: V) -> Result<V::Value, E> {
        match self.0 {
            Json::Str(s) => v.visit_enum(EnumD(s, None)),
            Json::Obj(o) => {
                let mut it = o.into_iter();
                match it.next() {
                    Some((k, j)) => v.visit_enum(EnumD(k, Some(j))),
                    None => Err(E),
                }
            }
            _ => Err(E),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct
        seq tuple tuple_struct map struct identifier
    }
}
impl<'de> Deserializer<'de> for KeyD {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_str(&self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct
        seq tuple tuple_struct map struct identifier option newtype_struct enum ignored_any
    }
}
impl<'de> SeqAccess<'de> for SeqD {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some(j) => match seed.deserialize(D(j)) {
                Ok(v) => Ok(Some(v)),
                Err(e) => Err(e),
            },
            None => Ok(None),
        }
    }
}
impl<'de> MapAccess<'de> for MapD {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, E> {
        match self.0.next() {
            Some((k, j)) => {
                self.1 = Some(j);
                match seed.deserialize(KeyD(k)) {
                    Ok(v) => Ok(Some(v)),
                    Err(e) => Err(e),
                }
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, E> {
        match self.1.take() {
            Some(j) => seed.deserialize(D(j)),
            None => Err(E),
        }
    }
}
impl<'de> EnumAccess<'de> for EnumD {
    type Error = E;
    type Variant = VarD;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, VarD), E> {
        match seed.deserialize(KeyD(self.0)) {
            Ok(v) => Ok((v, VarD(self.1))),
            Err(e) => Err(e),
        }
    }
}
impl<'de> VariantAccess<'de> for VarD {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        match self.0 {
            None => Ok(()),
            Some(_) => Err(E),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, E> {
        match self.0 {
            Some(j) => seed.deserialize(D(j)),
            None => Err(E),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _l: usize, v: V) -> Result<V::Value, E> {
        match self.0 {
            Some(Json::Arr(a)) => v.visit_seq(SeqD(a.into_iter())),
            _ => Err(E),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, _f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        match self.0 {
            Some(Json::Obj(o)) => v.visit_map(MapD(o.into_iter(), None)),
            _ => Err(E),
        }
    }
}

macro_rules! codec {
    ($($t:ty, $ser:ident, $de:ident, $rt:ident;)*) => {$(
        pub fn $ser(x: &$t) -> Result<Json, E> { to_tree(x) }
        pub fn $de(j: Json) -> Result<$t, E> { from_tree(j) }
        pub fn $rt(x: $t) -> Result<$t, E> {
            match to_tree(&x) {
                Ok(j) => from_tree(j),
                Err(e) => Err(e),
            }
        }
    )*};
}
use cosmwasm_std::{CosmosMsg, QueryRequest, Empty};
use cw_ica_controller::ibc::types::{metadata, packet};
use cw_ica_controller::types::{callbacks, msg, state};
#[cfg(feature = "full")]
use cw_ica_controller::types::query_msg;
codec! {
    packet::IcaPacketData, ser_packet, de_packet, rt_c_packet;
    packet::acknowledgement::Data, ser_ack, de_ack, rt_c_ack;
    metadata::IcaMetadata, ser_metadata, de_metadata, rt_c_metadata;
    metadata::TxEncoding, ser_encoding, de_encoding, rt_c_encoding;
    callbacks::IcaControllerCallbackMsg, ser_callback, de_callback, rt_c_callback;
    state::ContractState, ser_state, de_state, rt_c_state;
    state::ChannelState, ser_channel, de_channel, rt_c_channel;
    state::ChannelStatus, ser_status, de_status, rt_c_status;
    msg::options::ChannelOpenInitOptions, ser_options, de_options, rt_c_options;
    msg::InstantiateMsg, ser_instantiate, de_instantiate, rt_c_instantiate;
    msg::ExecuteMsg, ser_execute, de_execute, rt_c_execute;
    msg::QueryMsg, ser_query, de_query, rt_c_query;
    msg::MigrateMsg, ser_migrate, de_migrate, rt_c_migrate;
    Vec<(String, bool)>, ser_pending, de_pending, rt_c_pending;
}
#[cfg(feature = "full")]
codec! {
    query_msg::IcaQueryResult, ser_result, de_result, rt_c_result;
    query_msg::IcaQueryResponse, ser_response, de_response, rt_c_response;
}
#[cfg(feature = "ownercodec")]
codec! {
    cw_ica_owner::msg::InstantiateMsg, ser_ow_instantiate, de_ow_instantiate, rt_c_ow_instantiate;
    cw_ica_owner::msg::ExecuteMsg, ser_ow_execute, de_ow_execute, rt_c_ow_execute;
    cw_ica_owner::msg::QueryMsg, ser_ow_query, de_ow_query, rt_c_ow_query;
    cw_ica_owner::state::ContractState, ser_ow_state, de_ow_state, rt_c_ow_state;
    cw_ica_owner::state::IcaContractState, ser_ow_ica, de_ow_ica, rt_c_ow_ica;
}
#[cfg(feature = "countercodec")]
codec! {
    callback_counter::msg::InstantiateMsg, ser_cc_instantiate, de_cc_instantiate, rt_c_cc_instantiate;
    callback_counter::msg::ExecuteMsg, ser_cc_execute, de_cc_execute, rt_c_cc_execute;
    callback_counter::msg::QueryMsg, ser_cc_query, de_cc_query, rt_c_cc_query;
    callback_counter::state::CallbackCounter, ser_cc_counter, de_cc_counter, rt_c_cc_counter;
}
#[cfg(feature = "countercodec")]
pub fn seqs4(a: Vec<Json>, b: &Vec<cw_ica_controller::types::query_msg::IcaQueryResponse>, c: Vec<Json>, d: &Vec<cw_ica_controller::types::query_msg::Delegation>, e: Vec<Json>, f: &Vec<callbacks::IcaControllerCallbackMsg>) {
    let _ = from_seq::<cw_ica_controller::types::query_msg::IcaQueryResponse>(a);
    let _ = to_seq(b);
    let _ = from_seq::<cw_ica_controller::types::query_msg::Delegation>(c);
    let _ = to_seq(d);
    let _ = from_seq::<callbacks::IcaControllerCallbackMsg>(e);
    let _ = to_seq(f);
}
#[cfg(not(feature = "full"))]
pub fn seqs0(c: Vec<Json>, d: &Vec<CosmosMsg>) {
    let _ = from_seq::<CosmosMsg>(c);
    let _ = to_seq(d);
}
/// instances of the sequence contracts
pub fn seqs(a: Vec<Json>) {
    let _ = from_seq::<(String, bool)>(a);
}
#[cfg(feature = "full")]
pub fn seqs2(a: Vec<Json>, b: Vec<Json>, c: Vec<Json>, d: Vec<Json>) {
    let _ = from_seq::<query_msg::IcaQueryResponse>(a);
    let _ = from_seq::<query_msg::Delegation>(b);
    let _ = from_seq::<CosmosMsg>(c);
    let _ = from_seq::<QueryRequest<Empty>>(d);
}
#[cfg(feature = "full")]
pub fn seqs3(a: &Vec<(String, bool)>, b: &Vec<query_msg::IcaQueryResponse>, c: &Vec<query_msg::Delegation>, d: &Vec<CosmosMsg>, e: &Vec<QueryRequest<Empty>>) {
    let _ = to_seq(a);
    let _ = to_seq(b);
    let _ = to_seq(c);
    let _ = to_seq(d);
    let _ = to_seq(e);
}

// ---- protobuf -----------------------------------------------------------------------------------
#[cfg(feature = "full")]
pub mod pb {
use super::*;
use prost::encoding::{DecodeContext, WireType};
use prost::{DecodeError, Message};
pub fn pb_dec_safe(m: &mut query_msg::proto::MsgModuleQuerySafe, tag: u32, w: WireType, b: &mut &[u8], c: DecodeContext) -> Result<(), DecodeError> {
    m.merge_field(tag, w, b, c)
}
pub fn pb_dec_request(m: &mut query_msg::proto::AbciQueryRequest, tag: u32, w: WireType, b: &mut &[u8], c: DecodeContext) -> Result<(), DecodeError> {
    m.merge_field(tag, w, b, c)
}
pub fn pb_dec_safe_response(m: &mut query_msg::proto::MsgModuleQuerySafeResponse, tag: u32, w: WireType, b: &mut &[u8], c: DecodeContext) -> Result<(), DecodeError> {
    m.merge_field(tag, w, b, c)
}
pub fn pb_enc_safe(x: &query_msg::proto::MsgModuleQuerySafe, b: &mut Vec<u8>) {
    x.encode_raw(b)
}
pub fn pb_enc_request(x: &query_msg::proto::AbciQueryRequest, b: &mut Vec<u8>) {
    x.encode_raw(b)
}
pub fn pb_enc_safe_response(x: &query_msg::proto::MsgModuleQuerySafeResponse, b: &mut Vec<u8>) {
    x.encode_raw(b)
}
}
/// the callback as it is put into the message for the callback contract
pub fn enc_callback(x: callbacks::IcaControllerCallbackMsg) -> cosmwasm_std::StdResult<cosmwasm_std::Binary> {
    x.into_json_binary()
}
