p("C24", "Packets, metadata and acknowledgements follow the ICS-27 wire format",
  "For every value, the packet is the JSON object with members type, data and (only if given) memo; channel metadata is the object with exactly version, controller_connection_id, host_connection_id, address, encoding (proto3 or proto3json) and tx_type; an acknowledgement is result or error; and the query message, its requests and its response use the protobuf field numbers of the host's module-query-safe message. Decoding reads exactly these, rejects metadata lacking a member, and decoding an encoded value gives the value back.",
  ["inputs"], "every packet, metadata, acknowledgement and query message value", "Tests decode a few literal documents; member names and presence rules of the other members and combinations are never seen.",
  [P, M, QM], [("packet", P + " IcaPacketData"), ("acknowledgement", P + " acknowledgement::Data"), ("metadata", M + " IcaMetadata, TxEncoding"), ("query messages", QM + " proto")])
p("C25", "The JSON interface to users and callback contracts is stable",
  "For every value, instantiate, execute and query messages are the documented JSON documents (snake_case names, optional members left out or null, null or absent queries meaning none), and callbacks reach the callback contract as receive_ica_callback wrapping the documented callback document with query results spelled out per response kind. Required members may not be missing, unknown messages are rejected, and decoding an encoded message gives the message back.",
  ["inputs"], "every message, callback and query result value, with lists of every length", "The compatibility of every member of every variant is not sampled by the tests.",
  ["src/types/msg.rs", ST2, QM], [("messages", "src/types/msg.rs ExecuteMsg, InstantiateMsg, QueryMsg"), ("callbacks", ST2 + " IcaControllerCallbackMsg"), ("query results", QM + " response")])
p("C26", "Stored records read back as they were written",
  "For every contract state, channel state, options record and list of pending query paths, reading the stored bytes back gives the very value that was stored, in the documented JSON layout (status and encoding under their protocol names). A contract state without the optional members reads as having neither account nor callback, and members of other versions are ignored.",
  ["inputs", "histories"], "every storable value", "Tests round-trip a couple of values; an attribute on a member or variant nobody stores in the tests goes unnoticed.",
  [ST, "src/types/msg.rs"], [("contract state", ST + " ContractState, IcaInfo"), ("channel state", ST + " ChannelState, ChannelStatus"), ("options", "src/types/msg.rs options::ChannelOpenInitOptions")])
p("C27", "The helper wrappers address the right contract with the right content",
  "For every contract address, code id and argument: the helper for a deployed controller produces exactly one message to that very contract (execute with the given message as JSON and no funds, migrate with the given code id and message, update or clear admin), its queries ask that contract for channel, contract state or ownership and hand back the decoded answer, and the helper for a code id produces an instantiate (or instantiate2) message with that code id, message, label, admin and salt; the address it predicts is the platform's instantiate2 address of the code's checksum, the creating contract and the salt.",
  ["inputs"], "every argument value and every answer of the chain", "Tests never call the helpers; a swapped argument shows only on chain.",
  ["src/helpers.rs"], [("controller wrapper", "src/helpers.rs CwIcaControllerContract"), ("queries", "src/helpers.rs CwIcaControllerContractQuerier"), ("code wrapper", "src/helpers.rs CwIcaControllerCode")])
p("C28", "The library's packet and metadata building blocks behave as documented",
  "For every argument, contracts built on the library can rely on the public building blocks on their own: packets made from data, from protobuf messages or from messages and queries; the send message with its timeout; decoding of acknowledgements and of the response at a given index; the channel opening message with every encoding and ordering; the callback message; the effective counterparty port; metadata validation and its fallback from stored channel or options; and typed results from a response list.",
  ["inputs"], "every argument value, with lists of every length", "The entry points use these with fixed arguments (no encoding override, last index); the other argument values are reached only by contracts built on the library.",
  [P, M, QM, "src/ibc/types/stargate.rs", "src/types/state.rs"], [("packets", P + " IcaPacketData"), ("acknowledgement", P + " acknowledgement::Data"), ("metadata", M + " IcaMetadata"), ("channel opening", "src/ibc/types/stargate.rs channel"), ("callbacks", "src/types/callbacks.rs IcaControllerCallbackMsg::into_cosmos_msg"), ("query results", QM + " result_from_response")])
p("C29", "Contracts that embed the library with features off get the same behaviour",
  "For every argument and in each of the reduced builds (no features, staking only, query only, both, always without the entry points), message and query conversion, response decoding, packets, send messages, acknowledgements, channel opening, callbacks, metadata and the helper wrappers do what they do in the full build, restricted to what the build has: without staking the staking and distribution messages and queries do not exist, without query a packet carries the messages alone, execute messages have no queries and callbacks no query result. A callback of a full controller is still understood by a contract built without queries, which passes over the query result.",
  ["inputs"], "every argument value in each of four feature sets", "The tests only run with all features; the code compiled only in the reduced builds is never executed by them.",
  [P, "src/types/cosmos_msg.rs", QM, "src/helpers.rs"], [("packets without queries", P + " IcaPacketData::from_cosmos_msgs"), ("conversion", "src/types/cosmos_msg.rs convert_to_proto_any"), ("queries", QM + " query_to_protobuf, from_protobuf"), ("helpers", "src/helpers.rs")])
OW, CC = "testing/contracts/cw-ica-owner/src/", "testing/contracts/callback-counter/src/"
p("C30", "The owner contract manages its controllers without mixing them up",
  "For every message, sender and stored state, only the admin (given at instantiation, the instantiator otherwise) can create controllers or make them act. Each new controller is instantiated as owned, administered and called back by this contract, with the given options and salt (the block time in seconds without one), and filed under the next id both ways with its predicted address; the predefined action sends one bank message to exactly the controller with that id; a callback is accepted only from a known controller, and an opened channel is recorded for that controller alone. Known controllers never lose or swap their ids, queries return the stored records, and messages and records have their documented JSON form.",
  ["inputs", "histories"], "every message, sender, block time, stored state and answer of the chain", "The contract has no unit tests, and the end-to-end suite creates one controller; several controllers, salts, unknown senders and foreign callbacks are never seen.",
  [OW + "contract.rs", OW + "state.rs", OW + "msg.rs"], [("creation", OW + "contract.rs execute::create_ica_contract"), ("predefined action", OW + "contract.rs execute::send_predefined_action"), ("callbacks", OW + "contract.rs execute::ica_callback_handler"), ("records", OW + "state.rs"), ("queries", OW + "contract.rs query")])
p("C31", "The callback counter counts every callback once, in its own list",
  "For every callback and stored counter, a successful acknowledgement is appended to the successes, an error acknowledgement to the errors and a timeout to the timeouts, each unchanged and after everything counted before; a channel-open callback changes nothing. Instantiation starts with nothing counted, the query returns the stored counter, and messages and the counter have their documented JSON form.",
  ["inputs", "histories"], "every callback and every stored counter, with lists of every length", "The contract has no unit tests; mixed histories of many callbacks are never compared member by member.",
  [CC + "contract.rs", CC + "state.rs", CC + "msg.rs"], [("counting", CC + "contract.rs execute"), ("counter", CC + "state.rs"), ("query", CC + "contract.rs query")])
p("C32", "The callback macro adds exactly the callback message to a contract",
  "For every enum of execute messages, the attribute macro keeps all variants of the enum as they are and adds the one variant that receives the controller's callbacks; anything that is not an enum is a compile error.",
  ["inputs"], "every enum definition", "The repository has no test of the macro.",
  ["derive/src/lib.rs"], [("macro", "derive/src/lib.rs ica_callback_execute")])
p("C33", "Every record has a place of its own in the contract's storage",
  "For every value, channel identifier (of up to 65535 bytes) and sequence: saving a record writes its JSON under exactly one storage key, the documented one of that record, loading reads exactly that key and gives the stored value back (absent is reported as absent, bytes that do not read as an error), and removing removes exactly that key. No two records share a key: the contract state, the channel state, the options, the two authorisations, the pending query, the ownership, the version, and the filed queries of every channel and sequence are all apart from each other.",
  ["inputs", "histories"], "every record value, every channel identifier and sequence, every stored byte string", "Tests use one channel and a sequence or two and never look at the bytes; colliding keys show only when both records are live.",
  [ST], [("records", ST + " STATE, CHANNEL_STATE, CHANNEL_OPEN_INIT_OPTIONS, ALLOW_CHANNEL_OPEN_INIT, ALLOW_CHANNEL_CLOSE_INIT, QUERY"), ("filed queries", ST + " PENDING_QUERIES")])
UNCLAIMED = {"C32": "The macro runs inside the compiler on token streams, so its inputs are enum definitions and its result is program text: a contract on it would be about syn's and quote's data structures, all of them dependencies whose behaviour would have to be assumed wholesale, and nothing of the macro in /repo/derive is part of the compiled contract (the library uses the published copy of the crate). What the macro's result does is verified where it is used (documents of the messages of C30 and C31)."}
