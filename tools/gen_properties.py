#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSONL is awkward to edit)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
D="codec/src/codec/decode.rs";E="codec/src/codec/encode.rs";DEF="codec/src/protocol/definitions.rs"
MSG="codec/src/message/message.rs";BODY="codec/src/message/body.rs";IO="codec/src/io.rs";FR="codec/src/framing.rs"
VAR="codec/src/types/variant.rs";ARR="codec/src/types/array.rs";PM="codec/src/protocol/mod.rs"
SES="src/session.rs";SND="src/sndlink.rs";RCV="src/rcvlink.rs";CON="src/connection.rs";DEL="src/delivery.rs";DIS="src/dispatcher.rs"

p("C01","Decoding arbitrary bytes never crashes the process",
 "Whatever bytes a peer sends, decoding them as a frame, a SASL frame, a value, a message or any protocol body either yields a value or reports an error. It never panics, overflows an integer, overruns a buffer, recurses without limit or aborts.",
 ["inputs"],"every byte string up to the stated length, at every decoding entry point",
 "Tests decode a few well-formed frames; malformed sizes, counts, codes and nestings form an input space no sample covers.",
 [D,DEF,FR,MSG,BODY,ARR,PM,IO],[("length checks before each read",D),("declared-size check for compound values",D),("composite body decoding",DEF)],
 ["return value of the public decode functions"])
p("C02","Memory used to decode is proportional to the bytes received",
 "Decoding n bytes never requests more heap memory than a fixed multiple of n plus a small constant. Element counts, sizes and lengths announced by the peer are never trusted for allocation beyond the bytes actually present.",
 ["inputs"],"every byte string up to the stated length; every announced count or size, including 2^32-1",
 "Tests never send a frame whose announced element count disagrees with its size.",
 [D,ARR,DEF,BODY],[("capacity reserved from announced counts",D)],["allocator requests during decode"])
p("C03","Values survive encoding and decoding unchanged",
 "Encoding any AMQP value - null, boolean, integer, float, decimal, char, timestamp, uuid, binary, string, symbol, list, map, array or described value - and decoding the bytes gives an equal value and consumes exactly the bytes written. This holds on both sides of every change of wire width (zero, 8-bit and 32-bit forms).",
 ["inputs"],"every value of each primitive type; every variable-width and compound value within the stated lengths and depth, including the 255/256 boundary",
 "Tests round-trip a handful of constants per type; boundary lengths and sign boundaries are a measure-zero part of the space.",
 [D,E,VAR,ARR],[("width selection on encode",E),("format code dispatch on decode",D)],["encode then decode through the public API"])
p("C04","Protocol frames survive encoding and decoding unchanged",
 "Every connection, session, link, transfer, disposition and SASL frame, with any combination of present and absent fields and any field values, decodes from its own encoding to an equal frame on the same channel. Absent optional fields stay absent and defaulted fields take the value the specification gives.",
 ["inputs"],"every performative, every presence pattern of its fields, all values of fixed-width fields, bounded variable-width fields",
 "Tests round-trip one or two hand-made frames of a few kinds; presence patterns and field order have no exhaustive test.",
 [DEF,FR,PM,IO],[("generated field encoders and decoders",DEF),("frame header",FR)],["encode then decode of a frame"])
p("C05","Messages survive encoding and decoding unchanged",
 "A message built through the public API - header, delivery and message annotations, properties, application properties, body of any kind, footer - decodes from its own encoding to the same sections and the same body. Sections that were not set are absent after decoding, and the order of the sections on the wire is the one the specification requires.",
 ["inputs"],"every presence pattern of sections, every body kind, all values of fixed-width fields, bounded variable-width fields",
 "Tests cover a few messages with one or two sections.",
 [MSG,BODY,DEF],[("section encoder/decoder",MSG),("body encoder/decoder",BODY)],["encode then decode of a message"])
p("C06","Announced encoded size equals the bytes written",
 "For every encodable value, frame and message, the size computed before encoding equals the number of bytes the encoder then writes, including after any sequence of mutations of the message. The size field of every emitted frame and compound value is therefore truthful.",
 ["inputs","histories"],"every value, frame and message within the bounds; every sequence of up to the stated number of setter calls interleaved with size queries",
 "Tests check sizes for isolated values; cached sizes go stale only after particular setter histories.",
 [E,MSG,BODY,DEF,FR,ARR,VAR],[("encoded_size mirrors encode",E),("cached message size reset",MSG)],["encoded size versus length of the output buffer"],
 [("size","cached encoded size of a message",MSG)])
p("C07","Stream framing does not depend on how bytes are chunked",
 "Feeding a byte stream to the frame decoder in any pieces yields exactly the same sequence of frames and the same error, if any, as feeding it at once. Each decoded frame consumes exactly the number of bytes its header announces and nothing is delivered before a frame is complete.",
 ["inputs","schedules"],"every byte stream up to the stated length and every way to cut it into pieces",
 "Tests feed whole frames, or one fixed cut; partial-header states are reached only for particular cuts.",
 [IO,FR],[("decoder state: header, then body",IO)],["frames and errors returned by the stream decoder; bytes left in the buffer"],
 [("state","whether a frame header has been read and the size of the pending frame",IO)])
p("C08","Malformed frame headers and protocol headers are rejected",
 "A frame smaller than its fixed header, larger than the configured maximum, with a data offset below the header size or beyond the frame, or of the wrong frame type is rejected with an error before its body is interpreted; a frame within limits is never rejected for its size. The eight byte protocol header is accepted only for the protocols and version the library supports, and each protocol is told apart.",
 ["inputs","configurations"],"every 8-byte frame header, every 8-byte protocol header, every configured maximum size",
 "Tests try a couple of valid headers; the space of wrong headers is 2^64.",
 [IO,FR,PM],[("size and offset checks",IO),("protocol id codec",IO)],["result of the stream decoder"])
p("C09","Every permitted wire form of a value decodes to that value",
 "The specification permits several encodings for many types (zero-length, one-byte, 8-bit and 32-bit forms); each of them decodes to the value the specification defines, wherever the value stands: alone, as a field, as a list, map or array element. Null or missing trailing fields of a composite take the default.",
 ["inputs"],"every constructor byte followed by arbitrary payload within the bounds, compared with an independent reference reading of the specification",
 "The library's own encoder never emits many of the permitted forms, so round-trip tests cannot reach them.",
 [D,DEF,VAR,ARR],[("format code dispatch",D)],["decoded value versus reference model"])
p("C10","Emitted bytes follow the AMQP 1.0 type system",
 "Everything the encoder emits is well-formed AMQP 1.0: an independent reading of the specification accepts it, finds the same values in it, and finds that every announced size and count matches the bytes that follow. Described types carry the descriptor the specification assigns to them.",
 ["inputs"],"every value and frame within the bounds, compared with an independent reference reader",
 "Round-trip tests pass when encoder and decoder share the same mistake; interoperability needs an independent oracle.",
 [E,DEF,VAR,ARR,MSG],[("encoders",E),("descriptor constants",DEF)],["output bytes versus reference model"])
p("C11","A compound value is confined to the size it announces",
 "A list, map, array or described composite is decoded only from the bytes its own header announces: its elements never extend past the announced size, announced sizes that do not fit are errors, and whatever follows the compound value is decoded as the next value. Announced bytes that its elements do not use are never interpreted as a following value.",
 ["inputs"],"every compound header (size, count) and element bytes within the bound, followed by arbitrary bytes",
 "Only crafted inputs whose sizes and counts disagree show a violation; tests have none.",
 [D,DEF,ARR,BODY],[("split the declared bytes before decoding elements",D)],["decoded value and the remaining input"])
p("C12","Equal values are interchangeable as map keys",
 "Two values that compare equal hash equally, comparison is an equivalence, and hashing or comparing any decodable value never fails. Every key put in a map by the decoder can be found again.",
 ["inputs"],"all pairs of values within the bounds",
 "Tests hash a few string and integer keys only.",
 [VAR,"codec/src/types/symbol.rs","codec/src/types/mod.rs",ARR],[("hand-written Hash/PartialEq",VAR)],["Eq and Hash of values"])

p("S01","A sender never sends more deliveries than its link credit",
 "On every link, the number of deliveries put on the wire never exceeds the credit the receiver has granted, computed from its latest flow as delivery-count plus link-credit with serial-number arithmetic. Deliveries that find no credit wait and go out, in the order they were submitted, as credit arrives.",
 ["inputs","histories","schedules"],"every sequence of sends and flow frames up to the stated length, with arbitrary counts and credits",
 "Tests use one generous credit grant; the wrap-around of counters and shrinking credit are never sampled.",
 [SND,SES],[("credit accounting on flow",SND),("queue of waiting sends",SND)],["transfer frames written"],
 [("link_credit","remaining deliveries allowed",SND)],"private session and link state reachable only inside the crate")
p("S02","A session never sends beyond the remote incoming window",
 "The number of transfers a session puts on the wire never exceeds the remote peer's incoming window as last announced, computed as next-incoming-id plus incoming-window minus next-outgoing-id with serial-number arithmetic. Transfers that find the window closed wait, and go out in order when it opens.",
 ["inputs","histories"],"every begin and flow content, every sequence of sends and flows up to the stated length",
 "Tests never shrink or close the window and never omit next-incoming-id.",
 [SES],[("remote incoming window accounting",SES)],["transfer frames written"],
 [("remote_incoming_window","transfers still allowed",SES)],"private session state")
p("S03","Deliveries keep identity, order and content on the wire",
 "Each delivery sent on a session gets a delivery id one greater (modulo 2^32) than the one before it, its own delivery tag, and is sent on the link it was submitted to. Its frames are contiguous on the link; concatenating their payloads gives the submitted body, with the more flag set on all but the last.",
 ["inputs","histories"],"every body length and frame limit within the bounds, sequences of sends over several links, any starting id",
 "Tests send a few messages that fit in one frame.",
 [SES,SND,DEL],[("chunking in the transfer path",SES),("outgoing id counter",SES)],["transfer frames written"],
 [("next_outgoing_id","id of the next delivery",SES)],"private session state")
p("S04","No transfer frame exceeds the peer's maximum frame size",
 "Once the peer has announced its maximum frame size (512 or more), every transfer frame written to it, headers and payload together, is at most that large, whatever the body length, body kind, delivery tag or message annotations: larger deliveries are split, and none of their content is lost.",
 ["inputs","configurations"],"every negotiated maximum frame size from the protocol minimum of 512, every body length within the bound, every tag length",
 "Tests use the default large frame size or one small value.",
 [SES,CON,SND],[("payload chunk size",SES)],["length of written frames"],[],"private session state")
p("S05","A receiver accepts no more deliveries than the credit it granted",
 "A delivery that arrives on a receiving link when the credit granted so far is used up is refused by detaching the link with a transfer-limit error, and a delivery that arrives with credit available is delivered to the application. Credit granted to the peer accumulates exactly as the flow frames announce.",
 ["inputs","histories"],"every sequence of credit grants and transfers up to the stated length",
 "Tests grant large credits and never overrun them.",
 [RCV,SES],[("credit check on transfer",RCV)],["deliveries handed to the application; flow and detach frames written"],
 [("credit","deliveries still acceptable",RCV)],"private link state")
p("S06","Reassembled deliveries equal what was sent",
 "A delivery spread over several transfer frames is handed to the application exactly once, when its last frame arrives, with the concatenation of the payloads in order. Continuation frames that contradict the first frame, and deliveries larger than the announced maximum message size, are refused by detaching the link; deliveries on other links are not disturbed.",
 ["inputs","histories"],"every cut of a body into frames, every optional-field pattern on continuation frames, every maximum size",
 "Tests reassemble one message from a few frames.",
 [RCV],[("partial body and delivery merge",RCV)],["delivery body seen by the application; detach frames written"],
 [("partial_body","payload so far",RCV)],"private link state")
p("S07","A disposition settles exactly the deliveries it names",
 "A disposition from the peer for the range first..last settles each unsettled delivery of that range, in the direction its role states, and no other; a missing last means first only, and the range wraps modulo 2^32. The sender of each settled delivery is told the state the peer gave, once, and handling takes time bounded by the number of unsettled deliveries.",
 ["inputs","histories"],"every first, last, role, settled flag and state; every set of unsettled deliveries up to the stated size",
 "Tests settle single deliveries with small ids.",
 [SES,DEL],[("range settlement",SES),("unsettled delivery table",SES)],["result of the send future; disposition frames written"],
 [("unsettled deliveries","id to delivery state",SES)],"private session state")
p("S08","Each received delivery is settled at most once",
 "For a received delivery the application can cause at most one terminal disposition on the wire, carrying the delivery's own id and the state the application chose. A delivery that is dropped without being settled is rejected exactly once; one that arrived settled, or that the peer already settled, causes none.",
 ["histories","inputs"],"every sequence of settle, drop and remote settle operations up to the stated length",
 "Tests settle each delivery once in the ordinary way.",
 [DEL,RCV,SES],[("settled flag and drop handler",DEL)],["disposition frames written"],[],"private delivery constructors")
p("S09","Frames for one link never disturb another link",
 "Attach, flow, transfer, disposition and detach frames act only on the link their handle names in the sender's handle space; state, credit, waiting sends and deliveries of every other link on the session stay as they were. A frame naming a handle that no attached link has changes no link: it is ignored, or ends the session or the connection with an error.",
 ["inputs","histories"],"every pair of links with arbitrary distinct handles on both sides, every frame kind and handle value",
 "Tests use one link, or links whose local and remote handles coincide.",
 [SES,SND,RCV],[("remote to local handle maps",SES)],["link states, pending sends and frames written"],
 [("remote_handles","remote handle to local handle",SES)],"private session state")
p("S10","Ending one session leaves the others running",
 "Sessions are told apart by channel: frames act on the session of the channel they arrive on, frames of a session go out on its own channel, and ending or losing one session - from either side - leaves every other session usable. Ending a session completes, and the channel can then be reused.",
 ["histories","inputs"],"every pairing of local and remote channel numbers for up to the stated number of sessions, every order of end",
 "Tests open one session, so local and remote channel numbers coincide.",
 [CON,SES,"src/state.rs"],[("remote channel to session map",CON),("session slab",CON)],["frames written; session futures"],
 [("sessions","local channel table",CON)],"private connection state")
p("S11","No operation waits forever after its link, session or connection ends",
 "Every pending send, credit wait, delivery wait, link open, detach and session end completes - with success or an error - once its link is detached, its session ended or its connection closed, from either side, whatever state it was waiting in. Later operations on the dead object fail instead of waiting.",
 ["schedules","histories","fault_sequences"],"every point in the life of an operation at which the link, session or connection ends, every order of up to the stated number of events",
 "Tests close things in one or two orders, with nothing pending.",
 [SES,SND,RCV,CON,DEL],[("error propagation to waiters",SES),("pool of oneshot senders",SND)],["completion of the returned futures"],
 [("pending_transfers","waiting sends",SES)],"private session and connection state")
p("S12","Channel limits are respected in both directions",
 "The library never opens a session on a channel number above the limit the peer announced, nor more sessions than it was configured for; a request beyond the limit fails with an error. Sessions begun by the peer beyond the limit it was given are refused and never replace an existing session.",
 ["configurations","inputs","histories"],"every configured and announced channel limit, every remote channel number, up to the stated number of sessions",
 "Tests never approach the limit.",
 [CON,"src/lib.rs"],[("channel-max check",CON)],["begin frames written; result of opening a session"],[],"private connection state")
p("S13","Idle time-outs are honoured on both sides",
 "While the connection is idle, the library sends something at least as often as the idle time-out the peer announced, for every announced value of at least 100 ms, for as long as the connection lives, and an idle connection is not ended for it. No announcement, or zero, disables keep-alive. The library announces exactly the time-out it was configured with, and none when that is zero.",
 ["configurations","inputs"],"every 32-bit idle time-out announced by the peer, every locally configured value",
 "Tests use one configured value; short and zero time-outs are not sampled.",
 [DIS,"src/lib.rs","src/server/handshake.rs","src/client/connection.rs"],[("interval derived from the announced time-out",DIS)],["time between outgoing frames"],[],"private dispatcher construction")
p("S14","SASL outcome decides access, in protocol order",
 "A server passes a client on to the application only after the exchange its policy requires: mechanisms offered, an init received, an outcome of success sent, then the AMQP header and open frames. Any other frame, order or outcome gives no access and ends the connection with an error (a protocol header where a frame belongs may instead be taken for the start of a frame), and the outcome code sent is the one the policy chose. A client sends its credentials only after the server's SASL header and mechanisms, goes on only after an outcome of success, and reports the code of any other.",
 ["inputs","histories"],"every sequence of SASL frames and outcome codes up to the stated length",
 "Tests walk one successful handshake.",
 ["src/server/sasl.rs","src/server/handshake.rs","src/server/service.rs","src/client/connector.rs"],[("typestate of the SASL exchange","src/server/sasl.rs")],["frames written; result of the handshake"],[],None)
p("S15","Any sequence of well-formed frames is handled without crashing",
 "A connection handles every sequence of well-formed frames from its peer, in any order and with any field values, by acting on it, answering with an error, or ending the link, session or connection. It never panics, never loops without bound and never corrupts the state of unrelated objects.",
 ["inputs","histories"],"every sequence of up to the stated number of frames with arbitrary field values, from each of several reachable states",
 "Tests send frames in the ordinary order with ordinary values.",
 [CON,SES,DIS,RCV,SND],[("frame dispatch",CON),("session frame handling",SES)],["return value of frame handling; frames written"],[],"private connection and session entry points")
p("S16","Link names and handles can be reused after detach",
 "After a link is detached from either side, its name and handles are free: a later attach with the same name or handle creates a new working link on both sides and is never attributed to the old one. While a link is attached its name and handle identify exactly one link.",
 ["histories","inputs"],"every sequence of attach and detach, local or remote, up to the stated length, over arbitrary handles and equal or different names",
 "Tests attach a link once per session.",
 [SES],[("name and handle tables",SES)],["attach/detach frames written; links returned"],[("links_by_name","name to local handle",SES)],"private session state")
p("S17","The router hands every delivery to its link's handler once and settles it with the outcome",
 "With a router, the link a peer attaches to a registered address is served by that address's handler, made with the link and the connection's state. Every complete delivery on the link is handed to that handler exactly once, with its content, and settled with what the handler returned: accepted, rejected, or rejected with the handler's error; a delivery the peer sent settled is not settled again. A link with no target, an unregistered one, or one whose handler cannot be made is detached with an error and gets no credit. Handlers that are still working when their link or session ends do no harm to memory, to other links or to the connection.",
 ["histories","inputs","interleavings"],"every order of attaches, deliveries, completions of handlers and of their creation, detaches and session ends up to the stated length",
 "Tests run one handler that answers at once.",
 ["src/router.rs","src/types.rs",DIS],[("dispatch to handlers","src/router.rs"),("outcome to delivery state","src/types.rs")],["calls of handlers; disposition, detach and flow frames"],[("handlers","link to its service","src/router.rs")],None)
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
