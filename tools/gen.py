#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (kept so that both stay in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, R, P, M, C = "src/ibc/handshake.rs", "src/ibc/relay.rs", "src/ibc/types/packet.rs", "src/ibc/types/metadata.rs", "src/contract.rs"
CM, QM, ST, SG, ST2 = "src/types/cosmos_msg.rs", "src/types/query_msg.rs", "src/types/state.rs", "src/ibc/types/stargate.rs", "src/types/callbacks.rs"
HIST = "every contract state (any stored records whatsoever), every call with every sender, message, block and environment"

PROPS = []


def p(id, title, statement, over, text, why, files, mech, assurance=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


p("C01", "Only the owner can operate the controller",
  "Every execute call that is accepted comes from the current owner, with one exception: the pending owner accepting a proposed ownership transfer. Nobody else can create or close channels, send packets, change the callback address or propose a new owner.",
  ["inputs", "histories"], HIST, "Existing tests try one non-owner for a few messages; the rule is over all senders, messages and stored owners.",
  [C], [("owner assertion before every action", C + " execute::*"), ("ownership actions", C + " execute::update_ownership")])
p("C02", "Two-step ownership that can never be lost",
  "Ownership changes only when the owner proposed an address and that very address accepts before the proposal expires; the proposal is recorded exactly as given and acceptance leaves no proposal behind. Renouncing is always rejected, no other operation touches the ownership record, and a contract that has an owner always keeps one.",
  ["inputs", "histories"], HIST, "Expiry boundaries, unusual senders and all the operations that must leave ownership alone are not sampled by unit tests.",
  [C], [("update_ownership", C + " execute::update_ownership"), ("initialisation of the owner", C + " instantiate")])
p("C03", "Each channel-open authorisation is used at most once",
  "A channel handshake can be initiated on the controller only while an authorisation given by instantiation or by the owner's create-channel request is outstanding, and initiating consumes it. Nothing else grants an authorisation, and an outstanding one survives every other operation.",
  ["histories", "inputs"], HIST + "; hence every interleaving of create requests and handshake steps", "The tests walk one handshake; whether any other call re-arms or loses the flag is a claim over all histories.",
  [H, C, ST], [("open authorisation flag", ST + " ALLOW_CHANNEL_OPEN_INIT"), ("consumed at OpenInit", H + " ibc_channel_open::init")])
p("C04", "Each channel-close authorisation is used at most once",
  "A close of the channel is initiated on the controller's side only while an authorisation given by the owner's close-channel request is outstanding, and the close consumes it. The close request is accepted exactly from the owner while the stored channel is open, asks the chain to close that very channel, and nothing else grants or loses an authorisation.",
  ["histories", "inputs"], HIST, "Requires all interleavings of close requests, closes by the counterparty, timeouts and re-opens.",
  [H, C, ST], [("close authorisation flag", ST + " ALLOW_CHANNEL_CLOSE_INIT"), ("consumed at CloseInit", H + " ibc_channel_close"), ("close request", C + " execute::close_channel")])
p("C05", "At most one active channel",
  "While a channel is open no handshake step (initiation or acknowledgement) is accepted, so an open channel and its interchain account are never replaced by another one. Until the channel is closed, every accepted call leaves the stored channel description and the interchain account information as they are.",
  ["histories", "inputs"], HIST + "; hence any number of interleaved handshakes", "Needs two handshakes in flight and arbitrary histories; tests run a single handshake.",
  [H], [("already-open checks", H + " ibc_channel_open::init, ibc_channel_connect")])
p("C06", "The handshake accepts exactly valid ICS-27 metadata",
  "A handshake step is accepted exactly when the proposed (or previous, or default) metadata is valid ICS-27 metadata for this channel: version ics27-1, protobuf encoding, sdk_multi_msg transactions, the controller connection of the channel, and an account address of at most 128 alphanumeric characters that must be non-empty once the host has answered. On initiation the negotiated version returned to the chain is the proposed metadata, else the previous channel's, else one built from the stored options.",
  ["inputs", "configurations"], "every channel description, version string, counterparty version and stored state", "Tests use three or four hand-written version strings; acceptance is a predicate over all of them.",
  [H, M], [("validation", M + " IcaMetadata::validate"), ("negotiation", H + " ibc_channel_open::init"), ("acknowledgement", H + " ibc_channel_connect")])
p("C07", "The recorded account is the one the host assigned",
  "When the handshake completes, the contract records exactly the account address from the host's answer, the id of that channel and the protobuf encoding, together with the channel as agreed (with the host's version). No other operation ever changes the recorded account, channel id or encoding.",
  ["inputs", "histories"], HIST, "Tests compare one fixed handshake; that nothing else writes the account information is a claim over every operation.",
  [H, ST], [("recording", H + " ibc_channel_connect"), ("contract state", ST + " ContractState")])
p("C08", "The stored channel status follows the real channel",
  "The stored status becomes open only by a completed handshake and closed only when the open stored channel is closed by either side or a packet sent over it, on an ordered channel, times out. A close that does not name the stored, open channel is rejected, a timeout of a packet from any other channel or on an unordered channel leaves the status alone, and no other operation changes it.",
  ["histories", "inputs", "fault_sequences"], HIST + "; including late timeouts of packets of earlier channels", "Needs timeouts and closes that arrive late or for other channels; tests cover one timeout.",
  [H, R, ST], [("close", H + " ibc_channel_close"), ("timeout", R + " ibc_packet_timeout"), ("status", ST + " ChannelState")])
p("C09", "Channel opening requests carry the configured options",
  "Instantiation and every accepted create-channel request emit exactly one channel-open-init request, sent and signed by this contract from its own port, with the requested (or, if none were given, the stored) connection, counterparty port (icahost by default), ordering (ordered by default) and ICS-27 metadata. The options are stored for later use and no other operation changes them.",
  ["inputs", "configurations"], "every instantiation and create-channel message, every stored options record", "Tests compare one configuration; the mapping is over every combination of optional fields.",
  [C, SG, "src/types/msg.rs"], [("request builder", SG + " channel::new_ica_channel_open_init_cosmos_msg"), ("stored options", ST + " CHANNEL_OPEN_INIT_OPTIONS")])
p("C10", "A send request becomes exactly one packet, in order and complete",
  "An accepted send request emits exactly one packet, on the recorded channel, whose transaction contains the encoding of each given message, once and in the given order, followed by one query message with all given queries in order if there are any, plus the given memo. Its timeout is the block time plus the requested seconds (600 by default), and the request is accepted exactly if it comes from the owner of a contract with an account, every message and query is supported and the timeout does not overflow.",
  ["inputs"], "every list of messages and queries of every length, every memo, timeout, block time and stored state", "Lists of arbitrary length and content, overflow boundaries; tests send one message.",
  [C, P], [("request", C + " execute::send_cosmos_msgs"), ("packet", P + " IcaPacketData::from_cosmos_msgs, to_ibc_msg")])
p("C11", "Messages are translated faithfully for the host chain",
  "Every supported message (bank, staking, distribution, governance, wasm, IBC transfer, raw) is encoded as the protobuf message of that type with each field in its place, signed by the interchain account and nobody else. No field is dropped, swapped or defaulted, for any value of any field.",
  ["inputs"], "every message of every supported kind, with every value of every field and lists of every length", "Tests check a few messages with one value each; swapped or dropped fields in other kinds are never seen.",
  [CM], [("conversion", CM + " convert_to_proto_any")])
p("C12", "Queries are translated faithfully for the host chain",
  "Every supported query is turned into the gRPC path and request message of exactly that query, with each field in its place; raw queries pass through with their path and data unchanged and are marked so.",
  ["inputs"], "every query of every supported kind, with every value of every field", "No test encodes queries; each of 14 kinds has its own path and fields.",
  [QM], [("conversion", QM + " query_to_protobuf")])
p("C13", "Queries are filed under the packet that carries them",
  "When a packet with queries is sent, the paths of exactly its queries, in order and with their raw marks, are kept and the contract asks to be told the packet's sequence number; on that notice they are filed under the packet's channel and sequence number and nothing stays behind. No other operation touches the kept paths and nothing else files queries.",
  ["inputs", "histories"], HIST, "Depends on submessage replies and on histories; unit tests of this repository never reply.",
  [P, C, ST], [("kept paths", ST + " PENDING_QUERY"), ("reply", C + " reply"), ("filing", ST + " QUERY / PENDING_QUERIES")])
p("C14", "Each acknowledgement's answers are matched to its own queries",
  "The query result delivered for an acknowledgement is computed from the queries filed under that very channel and sequence: the answers of the last message response, matched one to one and in order with the filed queries, with the height the host reported. An error acknowledgement yields an error result, a count mismatch or an undecodable answer yields an error result and never a partial or misplaced success, and a packet without filed queries yields none.",
  ["inputs", "histories"], "every acknowledgement, every set of filed queries of every length, every stored state", "Tests have no acknowledgement carrying query answers.",
  [R, QM, P], [("result assembly", QM + " result_from_response"), ("acknowledgement", R + " ibc_packet_ack::success, error")])
p("C15", "Query answers are decoded faithfully",
  "For every supported query the answer bytes are decoded as the response of exactly that query and every field is delivered unchanged in its place; raw queries deliver the answer's bytes and path unchanged. An answer that does not decode, lacks a required part or belongs to an unknown path is an error, never a made-up value.",
  ["inputs"], "every path and every answer byte string", "No test decodes answers; 13 response types with optional parts.",
  [QM], [("decoding", QM + " from_protobuf")])
p("C16", "Filed queries live exactly as long as their packet",
  "Filed queries are removed when, and only when, their own packet is acknowledged (with success or error) or times out; queries filed under any other channel or sequence are untouched. A later packet can therefore never be answered with an earlier packet's queries.",
  ["histories", "fault_sequences"], HIST, "A leak or a wrong key shows only with several packets in flight and error acknowledgements or timeouts.",
  [R, ST], [("removal", R + " ibc_packet_ack::success, error, ibc_packet_timeout"), ("filed queries", ST + " PENDING_QUERIES")])
p("C17", "Exactly one truthful callback per channel or packet event",
  "If a callback contract is configured, a completed handshake, every acknowledgement and every timeout sends it exactly one message, without funds, that repeats the event as received: the channel and account, the acknowledgement with the original packet and relayer, or the timed-out packet and relayer. Without a configured contract nothing is sent, no other operation sends callbacks, and an acknowledgement or timeout is accepted whenever its contents decode.",
  ["inputs", "histories"], HIST, "Every packet, acknowledgement and relayer; tests check one payload of each.",
  [R, H, ST2], [("callbacks", ST2 + " IcaControllerCallbackMsg::into_cosmos_msg"), ("senders", R + " ibc_packet_ack, ibc_packet_timeout; " + H + " ibc_channel_connect")])
p("C18", "Acknowledgement events describe the packet truthfully",
  "Every accepted acknowledgement emits exactly one acknowledge_packet event with the sequence, source port and source channel of the original packet, and either the base64 of the result or the host's error text.",
  ["inputs"], "every acknowledgement and packet", "Tests compare one packet; attribute mix-ups show for other values only.",
  [R, "src/ibc/types/events.rs"], [("events", "src/ibc/types/events.rs packet_ack")])
p("C19", "Migration only upgrades, and preserves everything",
  "Migration is accepted exactly from the same contract at a strictly lower semantic version whose channel, if any, is not using JSON encoding; it records the new version and leaves every other record untouched. Nothing else changes the recorded contract name and version.",
  ["inputs", "configurations", "histories"], "every stored version string and contract name, every stored state", "Tests try two versions; the order of semantic versions and the untouched state are claims over all.",
  [C], [("migrate", C + " migrate")])
p("C20", "The callback address is what the owner last set",
  "Callbacks go to the address given at instantiation until the owner replaces or clears it; a new address is accepted only if it is a valid address and takes effect unchanged, and updating it leaves the account information alone. No other operation changes the callback address.",
  ["inputs", "histories"], HIST, "Requires that no other operation (handshake completion included) rewrites or resets it.",
  [C, ST, H], [("update", C + " execute::update_callback_address"), ("state", ST + " ContractState")])
p("C21", "The contract acts only as an ICS-27 controller",
  "Handshake steps and packets that make the contract anything but the initiating controller are rejected: open-try, open-confirm, a counterparty port other than icahost on initiation, an own port icahost, and every incoming packet. Replies are accepted only for the submessage the contract itself asked about.",
  ["inputs", "histories"], HIST, "Rejection must hold for every channel, packet and state.",
  [H, R, C], [("role checks", H + " ibc_channel_open, ibc_channel_connect"), ("packet receive", R + " ibc_packet_receive"), ("reply id", C + " reply")])
p("C22", "The contract emits nothing beyond its purpose",
  "Owner requests emit at most one message, of the kind the request names (open a channel, close the channel, send a packet); chain events emit at most a funds-free call to the configured callback contract; replies, channel closes and migrations emit nothing.",
  ["inputs", "histories"], HIST, "Confinement is a universal claim: no input whatsoever makes the contract send anything else.",
  [C, H, R], [("responses", C + " execute::*, " + R + ", " + H)])
p("C23", "Instantiation sets up every record; records are never lost",
  "Instantiation is accepted exactly if the owner and callback addresses are valid, and stores owner, state, options, authorisation and version; no later operation ever removes one of them or the stored channel. Queries always return the stored records unchanged.",
  ["inputs", "histories"], HIST, "That nothing ever removes a record is a claim over all histories.",
  [C], [("instantiate", C + " instantiate"), ("queries", C + " query::*")])

EXTRA = os.path.join(V, "tools", "extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

NOTE = ("Deductive: every path of the functions involved is executed symbolically on the compiler's MIR of /repo's current source and each "
        "contract clause is discharged by z3 for all inputs, states and list lengths (no bound; loops by checked element-wise contracts). "
        "Trusted: rustc's MIR, the engine in /verif/engine, the assumed contracts of dependencies and std (listed per run in the evidence), "
        "the CosmWasm platform's atomicity. If a change leaves an obligation undecided, only a bounded differential search on the compiled "
        "code stands in for it and the evidence says so.")
checks = []
claimed = [q for q in PROPS if q["id"] not in globals().get("UNCLAIMED", {})]
for q in claimed:
    i = q["id"]
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i} quick", thorough_cmd=f"python3-vt check.py {i} thorough",
                       technique="contract-based deductive verification: contracts on the real functions' MIR, weakest-precondition style symbolic execution, obligations discharged by z3 (thorough: also cvc5)",
                       level="proof", level_note=NOTE))
man = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
           not_applicable=[dict(property=k, reason=v) for k, v in globals().get("UNCLAIMED", {}).items()],
           notes="See DESIGN.md. No hooks in /repo are needed: the checks read the MIR the compiler produces from /repo through the path dependency of /verif/roots.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in PROPS:
        f.write(json.dumps(q) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
for q in PROPS:
    assert len(q["title"]) <= 80, q["title"]
print(len(PROPS), "properties,", len(checks), "checks")
