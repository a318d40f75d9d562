"""What each check runs, within which bounds."""
ASSUMPTIONS = [
 "x86-64, rustc stable 1.99.1, opt-level 1, fat LTO, panic=abort, overflow checks and debug assertions on: the module explored is the one the native replay binary is compiled from",
 "hash function of ntex_util::HashMap replaced by a constant one (stubs/foldhash); clock, randomness and environment variables are fixed",
 "memory allocation succeeds; reads of uninitialised memory yield zero; one thread",
 "paths are pruned only when the solver (Z3, or an exact 256-value domain for conditions over one byte) proves them infeasible",
]
CHECKS = {}
def check(pid, bounds, outside, runs, **kw):
    CHECKS[pid] = dict(bounds=bounds, outside=outside, runs=runs, **kw)
def run(crate, h, quick, thorough=None, deep=(), heavy=(), **kw):
    """heavy: parameters explored with all cores, one after another. deep: parameters of the
    thorough tier that may run out of time (reported as unfinished, not as held)."""
    quick = list(quick)
    return dict(crate=crate, h=h, quick=quick, thorough=list(thorough) if thorough is not None else quick,
                deep=list(deep), heavy=heavy, **kw)
def hc(h, quick, thorough=None, **kw):
    return run("hcodec", h, quick, thorough, **kw)
R = range
CRASH = "panic:|memory:|stack:|steps:"

def tot_runs():
    return [
     hc("h_tot_variant", [1, 2, 3, 4, 5, 6], [1, 2, 3, 4, 5, 6, 7], heavy=[6, 7], deep=[8], covers={6: ["ok", "err"]}),
     hc("h_tot_frame", [4, 6, 8, 104, 106], [4, 6, 8, 9, 104, 106, 107], heavy=[8, 9, 107], deep=[10]),
     hc("h_tot_comp", [c + 1000 for c in R(24)], [c + 1000 for c in R(24)] + [c + 1200 for c in R(24)], heavy=[1002, 1202, 1015, 1016, 1215, 1216]),
     hc("h_tot_field", [c + 400 for c in R(24)] , [c + 500 for c in R(24)], heavy=[402, 415, 502, 515, 500], deep=[c + 700 for c in (0, 2, 15, 16)]),
     hc("h_tot_typed", [k + 500 for k in R(32)], [k + 600 for k in R(32)] + [1024, 926, 827, 830, 1131, 1225, 1325], heavy=[624, 1024, 926, 1325, 1225, 1131]),
     hc("h_tot_inner", [k + 500 for k in R(9)], [k + 500 for k in R(9)] + [700, 808], heavy=[507, 700, 808], deep=[702, 800, 704]),
     hc("h_tot_msg", [k + 50 for k in R(10)], [k + 50 for k in R(10)] + [k + 80 for k in (0, 1, 2, 3, 4, 5, 8, 9)], deep=[86, 87]),
     hc("h_tot_deep", R(300000, 300004)),
     hc("h_tot_near", list(R(36)) + list(R(100, 136)), list(R(36)) + list(R(100, 136)) + list(R(200, 236)), heavy=[222, 234]),
     hc("h_tot_near_comp", [c for c in R(24) if c not in (0, 2, 15, 23)] + list(R(100, 124)), [c for c in R(24) if c != 2] + list(R(100, 124)), heavy=[0, 15, 23], deep=[2]),
     hc("h_tot_near_msg", [0, 1, 2, 4, 5, 6, 7, 8] + list(R(10, 19)), list(R(9)) + list(R(10, 19)), heavy=[3]),
     hc("h_tot_stream", [0, 65536]),
     hc("h_tot_ts", [0, 1]),
    ]
TOT_BOUNDS = ("any n bytes: values n<=6 (thorough 7), frames n<=8 behind the size field, composites: header and up to 10 bytes of fields, "
 "each field of each composite and each frame: 4 (thorough 5) symbolic bytes at its place, 32 typed decoders over 5 (6) bytes behind their "
 "format code, values inside arrays, maps, lists and described values 5 bytes, message sections 5 bytes; nesting to depth 30000 in 4 shapes; "
 "36 kinds of values, 24 composites with all fields, 9 kinds of message sections (all well-formed, concrete contents): any one byte replaced by any byte, "
 "and cut at any place (values, thorough: both at once); the stream decoder on every announced size with up to 10 bytes; "
 "timestamps: every instant")
TOT_OUT = "longer inputs whose behaviour depends on more symbolic bytes at once; paths beyond 20 million instructions"
check("C01", TOT_BOUNDS, TOT_OUT, tot_runs(), ids="panic:|memory:|stack:|steps:|check:(?!alloc)")
check("C02", TOT_BOUNDS + "; budget checked: 512 bytes per input byte + 64 KB in total", TOT_OUT, tot_runs(), ids="alloc:|check:alloc")

def rt(ids):
    return "^(check:(%s)|panic:|memory:|stack:|steps:)" % ids
VAL = [
 hc("h_rt_scalar", R(21)), hc("h_rt_long", R(9)), hc("h_rt_compound", [0], heavy=[0]), hc("h_rt_compound_long", [0]),
 hc("h_rt_array", R(17), heavy=[16]), hc("h_rt_array_forward", [0]),
]
def comp_runs(quick_frames=(0, 1, 3, 4, 5, 6, 7, 8, 9, 10)):
    return [hc("h_rt_comp", R(24), list(R(24)) + [103, 104, 123], heavy=[0, 1, 2, 3, 4, 15, 16], deep=[102]),
            hc("h_rt_frame", quick_frames, R(11), heavy=[0, 1, 2, 3, 10]), hc("h_rt_sasl", R(5)), hc("h_rt_comp_long", R(20)), hc("h_rt_enum", [0])]
MSG = [hc("h_rt_msg", list(R(8)) + list(R(10, 18)), heavy=[13, 14, 17]), hc("h_rt_msg_long", R(10))]
VAL_B = ("every scalar of every type (integers, floats, decimals, uuid, char: all values; timestamps: around second, day, leap and range boundaries; "
 "text, symbols, binaries of 0..6 symbolic bytes and of 255, 256 and 257 bytes), lists and maps of up to 3 elements of 8 types, nested "
 "lists, maps, arrays and described values, lists and maps around the 255 byte / 255 element limits, arrays of 17 element types of 0..2 and of 255..257 elements")
COMP_B = ("24 composites, 11 frames on every channel, 5 SASL frames: every subset of at most two present optional fields, all and none of them; "
 "every integer value in classes zero, one-byte, wide; texts and binaries of 0..2 symbolic bytes; fields of 255..257 bytes; nested error, source, target, state")
check("C03", VAL_B, "longer texts, larger and deeper collections", VAL, ids=rt("rt:"))
check("C04", COMP_B, "other subsets of three or more optional fields (thorough: all subsets for begin, flow, source), longer contents", comp_runs(R(11)), ids=rt("rt:"))
check("C05", "messages with every single section, pairs of sections and all of them, body kinds data (0..2 sections), sequence, value; section contents symbolic; every kind of section with contents around 255 bytes",
      "longer bodies, more sections of a kind", MSG + [hc("h_msg_mutations", [2], [2, 3])], ids=rt("rt:"))
check("C06", VAL_B + "; " + COMP_B + "; messages as in C05; sequences of 2 (thorough 3) mutations of a message out of all setters, size asked in between",
      "longer contents", VAL + comp_runs() + MSG + [hc("h_msg_mutations", [2, 3], [2, 3], deep=[4], heavy=[3])], ids=rt("size:"))
check("C10", VAL_B + "; " + COMP_B + "; messages as in C05", "longer contents", VAL + comp_runs() + MSG, ids=rt("wf:"))
check("C07", "any 16 bytes as a frame stream at every single cut and byte by byte, with and without a size limit; 18 to 32 bytes cut into up to three frames of every size; "
      "streams of 2-3 real frames with symbolic contents at every pair (longer ones: every single) of cuts; protocol header followed by 3 bytes at every cut",
      "longer streams, three or more cuts other than byte-by-byte",
      [hc("h_f_chunks", [11, 13, 18, 24, 30, 1213, 1224, 932], [11, 13, 16, 18, 24, 30, 36, 1213, 1224, 932, 1236], heavy=[13, 16, 1213, 30, 36]),
       hc("h_f_frames", [0, 1, 2, 3, 4, 10, 11]), hc("h_f_proto", [0], covers=["ok", "err"])], ids="^(check:(frame|chunk|proto):|panic:|memory:|stack:|steps:)")
check("C08", "every 32 bit size against every configured maximum (0..2^64-1); every data offset, frame type and channel with 0, 4, 8 (thorough 12) bytes of extended header "
      "for four bodies of AMQP and SASL frames; sizes 0..7; every 8 byte protocol header",
      "longer extended headers",
      [hc("h_f_size", [0], covers=["err", "wait", "frame"]), hc("h_f_header", [k * 100 + e for k in R(4) for e in (0, 4, 8)], [k * 100 + e for k in R(4) for e in (0, 4, 8, 12, 16)], covers=["ok", "err"]),
       hc("h_f_short", [0, 1, 2, 3, 4, 5, 6, 7]), hc("h_f_proto", [0]), hc("h_f_proto_out", [0]), hc("h_f_chunks", [11, 1213], heavy=[1213])], ids="^(check:(frame|size|header|proto):|panic:|memory:|stack:|steps:)")
check("C09", "every scalar value in every form (texts of 0..3 bytes), alone, as list, map and array element, described; typed decoders of 17 types; "
      "24 composites with one field (all values, all forms; one optional or no other field present), descriptors as code in both widths or name, null against default, missing trailing fields; "
      "message sections; any 6 (thorough 7) bytes an independent strict reader accepts",
      "descriptors other than ulong and symbol; timestamps beyond chrono's range; arrays of more than 255 zero-width elements; nesting beyond 128",
      [hc("h_w_scalar", list(R(21)) + [117, 118, 119, 317, 318, 319]), hc("h_w_compound", R(10), heavy=[2]), hc("h_w_array", [k + 100 * n for n in (0, 1, 2) for k in R(20)] + [120], heavy=[120]),
       hc("h_w_typed_map", [0], heavy=[0]), hc("h_w_comp", R(24), list(R(24)) + [100, 102, 104, 116], heavy=[0, 2, 3, 4, 5, 15, 16, 100, 102, 104, 116], deep=[115]), hc("h_w_state", [0]), hc("h_w_msg", R(9)),
       hc("h_w_any", [2, 3, 4, 5, 6], [2, 3, 4, 5, 6, 7], heavy=[7])], ids=rt("wire:"))
check("C11", "any 6 (thorough 7) bytes as a value; lists, maps and arrays whose size and count fields and following bytes (5..6) are symbolic, alone and inside a list, map or described value; typed lists, arrays and maps likewise; "
      "24 composites whose list ends anywhere around a field of 4 symbolic bytes",
      "larger contents",
      [hc("h_c_any", [2, 3, 4, 5, 6], [2, 3, 4, 5, 6, 7], heavy=[6, 7]), hc("h_c_compound", [k * 100 + 5 for k in R(11)], [k * 100 + n for k in R(11) for n in (5, 6, 7)], heavy=[5, 105, 6, 7, 106, 107]),
       hc("h_c_typed", [k + 500 for k in R(9)], [k + 500 for k in R(9)] + [600, 601, 604, 605, 606, 607, 608], heavy=[502, 503]), hc("h_c_comp", [k + 400 for k in R(24)], [k + 400 for k in R(24)] + [k + 500 for k in R(24)], heavy=[402, 502, 515, 516])],
      ids=rt("conf:"))
check("C12", "any three values of each scalar type (texts of 1..3 bytes), any two of different types, floats against zeros, not-a-numbers and infinities, strings and symbols however made, "
      "lists, arrays, described values of 2 elements, maps of 1..3 entries in any order; any value of 6 bytes against its copy; decoded maps of 1..2 keys of every type",
      "longer contents; hash functions other than a collecting one and the constant one of the map",
      [hc("h_k_scalar", [k + 100 for k in R(21)] + [317, 318, 319]), hc("h_k_float", [0]), hc("h_k_mixed", [0]), hc("h_k_text", R(4)), hc("h_k_compound", R(10)),
       hc("h_k_any", [2, 3, 4, 5, 6], [2, 3, 4, 5, 6, 7], heavy=[6, 7]), hc("h_k_lookup", list(R(0, 31)) + [102, 103, 104, 105], list(R(0, 31)) + [102, 103, 104, 105, 106], heavy=[21, 22]), hc("h_k_borrowed", [0, 1, 2, 3])],
      ids=rt("eq:"))

def hm(h, quick, thorough=None, **kw):
    return run("hmain", h, quick, thorough, **kw)
CONN = "; one connection with a peer in memory, the runtime, transport and timer driven by the harness"
check("S01", "sends and flows in every order of 3 (thorough 5) steps, client and server side, every initial delivery-count, credit and seen count of a valid peer, delivery-count present or null, "
      "sends submitted before or after a flow is read" + CONN,
      "more steps; a peer whose delivery-count is ahead of what was sent",
      [hm("h_s1_credit", [30, 31], [40, 31, 41], heavy=[31, 41])], ids=rt("credit\\."))
check("S02", "flows (window fields of the peer symbolic), sends of one and of three frames, transfers of the peer in every order of 2 (thorough 3) steps, one and two links" + CONN,
      "more steps",
      [hm("h_s2_window", [20, 21, 22], [20, 22, 23, 30, 31], heavy=[30, 31])], ids=rt("window\\.|rx\\."))
check("S03", "up to 2 (thorough 3) sends of one to three frames on two links or two sessions, flows of link credit and session window in between, every order" + CONN,
      "more sends",
      [hm("h_s3_send", [10, 20, 23], [10, 12, 20, 21, 22, 23, 31, 32], heavy=[31, 32])], ids=rt("send\\.|rx\\."))
check("S04", "maximum frame sizes 512 (thorough also 1024, 2048, 4096, 65535); bodies of sizes around every frame boundary, data, message and annotated message bodies, tags of 4 sizes, batchable or settled or not" + CONN,
      "other maximum frame sizes",
      [hm("h_s4_size", [512, 2000512, 3000512, 200512], [512, 1024, 2048, 4096, 65535, 100512, 200512, 1000512, 2000512, 3000512, 2204096])], ids=rt("size\\."))
check("S05", "application credit, transfers, flows of the peer (also asking for an answer) in every order of 3 (thorough 4) steps, every credit and delivery-count, client and server side" + CONN,
      "more steps",
      [hm("h_s5_credit", [30, 31], [30, 40, 41], heavy=[40, 41])], ids=rt("credit\\."))
check("S06", "2 (thorough 3) transfer frames: every handle of two links, every combination of more, aborted, settled, same or other or no delivery id and tag; sizes around the announced maximum" + CONN,
      "more frames",
      [hm("h_s6_assembly", [20, 21, 22, 23], [20, 21, 22, 23, 30, 31, 32], heavy=[30, 31, 32])], ids=rt("assembly\\."))
check("S07", "1 (thorough 2) dispositions with any role, first, last (present or null), settled, state over sent and received deliveries with any ids; waited for before or afterwards" + CONN,
      "more dispositions; ranges longer than 2^31",
      [hm("h_s7_disp", [10, 12, 13], [10, 11, 12, 13, 20, 22], heavy=[12, 13, 20, 22])], ids=rt("disp\\."))
check("S08", "settle, update, drop by the application, dispositions by the peer, end of the session or connection in every order of 3 (thorough 4) steps, delivery arriving settled or not" + CONN,
      "more steps",
      [hm("h_s8_settle", [30, 31, 32, 34], [40, 41, 42, 44], heavy=[40, 41])], ids=rt("settle\\."))
check("S09", "two links of one session, senders or receivers, with any two handles of the peer, an unsettled and a waiting delivery (or a started one) on each; "
      "2 (thorough 3) flow, transfer, detach, attach frames with any handle, any credit and delivery-count; client and server side" + CONN,
      "more links, more frames",
      [hm("h_s9_links", [20, 21, 22, 23, 24, 25, 26, 27], [30, 31, 32, 33, 34, 35, 36, 37], heavy=[30, 31, 32, 33, 34, 35, 36, 37])], ids=rt("link\\."))
check("S10", "sessions opened, answered, begun by the peer on any channel number, ended by either side in every order of 4 (thorough 5) events; after them each open session attaches a link and sends; client and server side" + CONN,
      "more events",
      [hm("h_s10_chan", [40, 41], [50, 51], heavy=[50, 51])], ids=rt("chan\\."))
check("S11", "15 kinds of wait (send without credit, without window, behind another send, behind a started delivery; credit; outcome of a sent and a received delivery; attach of either kind; next delivery; close of a link, connection; credit update; open of a session), "
      "then 1 or 2 events of 12 (detach, end, close by either side, answered or not, with or without error, refusal of a link, loss of the transport, frame of an unknown session, malformed frame, two of them in one read), any channel and handles of the peer; "
      "afterwards every operation on what has ended; client and server side" + CONN,
      "more events, several operations waiting at once; an application whose control handler never finishes",
      [hm("h_s11_waits", [k * 10 + s for k in range(15) for s in (0, 1)])], ids=rt("wait\\."))
check("S12", "every configured and every announced channel limit; sessions opened, answered or begun by the peer on any channel number (free, in use, beyond the limit), ended by either side in every order of 4 (thorough 5) events; client and server side" + CONN,
      "limits that take more than 5 sessions to reach are decided only by the comparison with the first channel numbers",
      [hm("h_s10_chan", [46, 47], [56, 57], heavy=[56, 57])], ids=rt("limit\\."))
check("S13", "every 32-bit idle time-out announced by the peer from 100 ms on, none and zero; every configured one; a peer that is silent or keeps sending; three keep-alive periods (40 steps over hours of virtual time when there is none); client and server side; "
      "the application is idle and ready" + CONN,
      "time-outs below 100 ms (timers tick at 16 ms); an application that is not ready to take messages; enforcement of the local time-out, which is the I/O layer's",
      [hm("h_s13_idle", [0, 10, 11], [1, 20, 21], heavy=[0, 1, 20, 21])], ids=rt("idle\\."))
check("S14", "as server: application policies with and without challenge, plain connections taken or not, every outcome code, any challenge bytes; as client: any credentials of 2+2 bytes; the peer sends any of 9 kinds of item "
      "(header of any 8 bytes or where a frame belongs, init, response, mechanisms, challenge, outcome, open, begin with any contents of the stated sizes, the expected frame with any other frame type) at each step up to the end of the exchange, one by one or all in one read" + CONN,
      "longer fields; TLS; a handshake time-out (none is configured); repeated challenges (the API offers one)",
      [hm("h_s14_server", [0, 1, 2, 3, 4, 7], [0, 1, 2, 3, 4, 5, 6, 7], covers=["opened"]), hm("h_s14_client", [0, 2], covers=["opened"])], ids=rt("sasl\\."))
ANYQ = [1, 14, 20, 54, 71, 84, 90, 101, 20033, 20043, 20063]
ANYT = [10 * k + m for k in (0, 1, 2, 5, 7, 8, 9, 10) for m in (0, 3, 5, 6)] + [30, 37, 20040, 20043, 20061, 20066]
ANYD = [43, 60, 10053, 10061, 10021, 21070, 21053]
check("S15", "a connection with two sessions, a sender with unsettled deliveries (one waited for) and a send without credit, a receiver with a complete and a partial delivery, a link being opened; then 2 frames (thorough: also 3), "
      "each of any of the 11 kinds with any channel, handle, number and flag and several combinations of optional parts (thorough: all combinations), in one read or apart; the application then takes deliveries, sets credit, settles; client and server side. After a first attach of a receiver, flow or disposition, the second frame is a transfer, detach or end in quick" + CONN,
      "frames of other addresses, names, properties and filters; more than 3 frames; an application that answers with errors",
      [hm("h_s15_any", ANYQ, ANYT, deep=ANYD, heavy=ANYQ + ANYT + ANYD)], ids="^(check:(any|world)\\.|panic:|memory:|stack:|steps:)")
check("S17", "a router with three addresses (one with a variable, one whose handler takes time to make); 2 or 3 links at first, then every order of 3 (thorough 4) events: attach to any of 6 targets, delivery with any body byte, settled or not, "
      "end of any running handler with each of 5 results, end of a handler's creation, detach by the peer, end of the session; every handler ends in the end; server side" + CONN,
      "handlers that are not ready; more than one frame per delivery (S06); credit beyond 50 deliveries",
      [hm("h_s17_route", [22, 33], [32, 33, 25, 24], deep=[42, 43], heavy=[22, 33, 32, 24, 25, 42, 43])], ids=rt("route\\."))
check("S16", "attach, answer, detach, answer by either side, detach and attach of the peer in one read, any handles of the peer, two names, senders, receivers (thorough: also mixed) in every order of 4 (thorough 5) events; "
      "after them each attached link works and no detached one is found; client and server side" + CONN,
      "more events, more names",
      [hm("h_s16_reuse", [40, 41, 42, 43, 34, 35], [50, 51, 52, 53, 44, 45], heavy=[50, 51, 52, 53, 44, 45])], ids=rt("reuse\\."))

# the assertion names: a check evaluates only those of its property (others, such as "handshake.", are conditions of all)
PREFIXES = ["alloc:", "rt:", "wf:", "size:", "wire:", "conf:", "eq:", "frame:", "chunk:", "proto:", "header:",
            "credit.", "window.", "send.", "rx.", "size.", "assembly.", "disp.", "settle.", "link.",
            "chan.", "limit.", "reuse.", "wait.", "idle.", "sasl.", "any.", "route."]

NA = {}
HOOK = dict(guard="none", enable="no hooks: the harness crates use the public interface", commits=[])
