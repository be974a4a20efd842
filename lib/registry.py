"""Properties, the harnesses that decide them, and the bounds of each harness."""

HARNESSES = {}
# What each property quantifies over, where it is not inputs and histories.
OVER = {
    "C06": ["inputs"], "C09": ["inputs", "configurations"], "C10": ["inputs", "configurations"],
    "C08": ["inputs", "histories", "configurations"], "C13": ["inputs", "histories", "schedules"],
    "C14": ["histories", "schedules"], "C15": ["histories", "schedules", "inputs"], "C17": ["inputs", "schedules"], "C18": ["histories", "schedules"], "C19": ["schedules", "fault_sequences"],
    "C20": ["inputs", "schedules"], "C21": ["fault_sequences", "schedules"], "C22": ["histories", "schedules"],
    "C23": ["histories", "schedules", "inputs"], "C24": ["histories", "schedules", "inputs"], "C25": ["inputs"], "C26": ["histories", "inputs"], "C27": ["inputs", "histories"],
    "C28": ["fault_sequences", "schedules"], "C29": ["configurations", "inputs"], "C30": ["configurations", "inputs"], "C31": ["configurations", "fault_sequences"],
}
PROPS = {}


def H(name, crate, bounds, covers, **kw):
    assert name not in HARNESSES
    HARNESSES[name] = dict(crate=crate, bounds=bounds, covers=covers, **kw)


def P(id, title, statement, domain, why, files, mechanism, quick, thorough=(), assumptions=(), state=(), note="", level="model_checking"):
    for n in list(quick) + list(thorough):
        assert n in HARNESSES, n
    PROPS[id] = dict(title=title, statement=statement, domain=domain, why=why, files=list(files), mechanism=list(mechanism),
                     quick=list(quick), thorough=list(thorough), assumptions=list(assumptions), state=list(state),
                     note=note, level=level)


CODEC = ("imap-codec/imap-types (not available offline) are replaced by models: decoders are deterministic functions of every byte "
         "passed to them and can return every documented outcome; encoders are injective with the documented fragment shapes.")
BYTES = "Message payloads carry one symbolic byte per field; message templates and lengths are enumerated by forking within the stated bounds."
ALLOC = "Allocation always succeeds; formatting/logging (tracing) has no effect."
REL = "Release profile (debug assertions off, overflow checks on), x86-64."
BASE = [CODEC, BYTES, ALLOC, REL]

# ---------------------------------------------------------------- client and server state machines
H("c_order", "hcore", "<=2 commands (NOOP, non-sync literal, AUTHENTICATE, IDLE) enqueued at any time, <=2 responses (data, tagged), greeting at any time, <=5 rounds of one call of next, then to rest", [1, 3, 5, 6, 15])
H("c_order_long", "hcore", "<=4 commands (NOOP, non-sync and sync literal), <=3 responses (greeting/continuation, data), <=6 rounds, client run to rest each round", [1, 2, 3, 5, 6])
H("c_literal", "hcore", "<=2 commands with 1-2 sync literals, <=2 responses (continuation, tagged), <=6 rounds of one call of next", [1, 2, 3, 6, 7, 17])
H("c_literal_mid", "hcore", "<=2 commands (sync, non-sync+sync, sync+non-sync, empty sync literal), <=3 responses (continuation, tagged), <=4 rounds to rest", [1, 2, 3, 6, 7, 16, 17])
H("c_literal_long", "hcore", "<=2 commands of 5 literal shapes, <=4 responses (continuation, tagged, data), <=4 rounds to rest", [1, 2, 3, 6, 7, 15, 16, 17])
H("c_auth", "hcore", "1 AUTHENTICATE, <=2 responses (continuation, tagged), <=2 set_authenticate_data calls, <=6 rounds of one call of next", [1, 8, 9, 10, 20, 21])
H("c_auth_mid", "hcore", "1 AUTHENTICATE, <=4 responses, <=2 set_authenticate_data calls, <=4 rounds to rest", [1, 8, 9, 10, 20, 21])
H("c_auth_queue", "hcore", "<=3 commands (AUTHENTICATE, NOOP), <=3 responses, <=2 set_authenticate_data calls, <=3 rounds to rest", [1, 6, 8, 9, 10, 20, 21])
H("c_auth_long", "hcore", "<=2 commands (AUTHENTICATE, NOOP), <=4 responses, <=3 set_authenticate_data calls, <=5 rounds to rest", [1, 6, 8, 9, 10, 20, 21])
H("c_idle", "hcore", "1 IDLE, <=2 responses (continuation, tagged), <=2 set_idle_done calls, <=6 rounds of one call of next", [1, 11, 12, 13, 14, 22, 23])
H("c_idle_long", "hcore", "<=2 commands (IDLE, NOOP), <=3 responses (continuation, tagged, data), <=2 set_idle_done calls, <=5 rounds to rest", [1, 6, 11, 12, 13, 14, 15, 22, 23])
H("c_resp", "hcore", "<=1 command (sync literal, AUTHENTICATE, IDLE), <=3 responses of every class incl. malformed, <=4 rounds of one call of next", [1, 4, 7, 9, 10, 12, 13, 15, 16, 17])
H("c_resp_t", "hcore", "<=2 commands (sync literal, AUTHENTICATE, IDLE), <=3 responses of every class incl. malformed, <=4 rounds of one call of next", [1, 4, 7, 9, 10, 12, 13, 15, 16, 17])
H("c_mixed_q", "hcore", "<=2 commands (sync literal, AUTHENTICATE, IDLE), <=3 responses (continuation, tagged), <=2 calls of set_authenticate_data/set_idle_done in any state, <=3 rounds to rest", [1, 6, 7, 9, 10, 12, 13, 14, 20, 21, 22, 23])
H("c_mixed", "hcore", "as c_mixed_q with 4 rounds", [1, 6, 7, 9, 10, 12, 13, 14, 20, 21, 22, 23])
H("c_frame_greeting", "hcore", "any 6 bytes from the start of the connection, every chunking, both line-ending modes", [1, 2, 4, 5])
H("c_frame", "hcore", "any 6 bytes after the greeting, every chunking, CRLF required", [2, 4, 5])
H("c_frame_relaxed", "hcore", "any 5 bytes after the greeting, every chunking, bare LF allowed", [2, 4])
H("c_frame_greeting_t", "hcore", "any 8 bytes from the start of the connection, every chunking, both line-ending modes", [1, 2, 4, 5])
H("c_frame_t", "hcore", "any 8 bytes after the greeting, every chunking, both line-ending modes", [2, 4, 5])
H("c_stream", "hcore", "one message with <=2 literals (0-2 arbitrary bytes) cut at <=2 places, or two messages with <=1 literal cut at <=1 place; CR missing or not; malformed or not", [1, 2, 4, 5])
H("c_stream_t", "hcore", "one message with <=3 literals cut at <=2 places, or two with <=2 literals cut at <=1 place", [1, 2, 4, 5])

H("s_order", "hcore", "<=3 responses (data, data with literal, status, continuation), <=1 command (plain or literal announcement), <=5 rounds of one call of next, greeting included", [1, 4, 5, 6, 7])
H("s_order_t", "hcore", "<=4 responses, <=2 commands, <=5 rounds of one call of next, greeting included", [1, 4, 5, 6, 7])
H("c_any", "hcore", "<=2 commands (any of 23 more kinds such as LOGIN, APPEND or FETCH, plain or with a sync literal; AUTHENTICATE, IDLE), <=1 response (greeting, continuation, tagged), <=4 rounds to rest", [1, 2, 3, 5, 6, 7, 10, 16, 17])
H("c_any_queue", "hcore", "<=3 commands (any of 23 more kinds, AUTHENTICATE), <=1 tagged response, <=5 rounds to rest", [1, 3, 5, 6, 8, 10, 16])
H("c_any_in", "hcore", "<=1 command (NOOP, AUTHENTICATE, IDLE), <=2 responses (data of any of 15 kinds, continuation, tagged), <=4 rounds to rest", [1, 5, 6, 8, 10, 12, 15, 16, 17])
H("s_any", "hcore", "<=2 responses (data of any of 15 kinds, statuses and continuation requests of every kind), <=1 command, <=4 rounds of one call of next, greeting included", [1, 4, 5, 6, 7])
H("s_sizes", "hcore", "max_literal_size any u32, max_command_size 50 or u32::MAX; one literal, sync or not, of 99 lengths (0..6, all powers of two up to 2^31 and their neighbours, u32::MAX), its first <=46 bytes", [1, 2, 3, 4, 5])
H("c_sizes", "hcore", "one response with a literal of 99 lengths as in s_sizes, its first <=39 bytes", [1, 2])
H("s_any_in", "hcore", "any 6 bytes after the greeting, every chunking, commands of 24 kinds", [3, 4, 5, 6, 8])
H("s_kinds", "hcore", "<=1 response (2 in command state) of any kind (data, statuses with and without tag, BYE, with and without code, both kinds of continuation request) and <=1 call of any of the user functions with any kind of status or request, in any state (command, AUTHENTICATE, IDLE), <=1 more message, 4 rounds", [1, 4, 5, 6, 7, 8, 10, 20, 21, 22, 23, 24, 25, 26, 27])
H("s_literal", "hcore", "<=2 data responses, <=3 messages (command or literal announcement, sync/non-sync, 0..u32::MAX long), <=6 rounds of one call of next", [1, 2, 3, 4, 6, 7, 15, 16])
H("s_literal_t", "hcore", "<=2 responses, <=4 messages, <=6 rounds of one call of next", [1, 2, 3, 4, 6, 7, 15, 16])
H("s_auth", "hcore", "<=3 messages (AUTHENTICATE, other), <=2 calls of authenticate_continue/finish in any state, <=6 rounds of one call of next", [1, 6, 7, 8, 9, 20, 21, 22, 23])
H("s_auth_t", "hcore", "<=1 response, <=4 messages (AUTHENTICATE, other, literal, malformed), <=3 calls of authenticate_continue/finish, <=5 rounds of one call of next", [1, 6, 7, 8, 9, 20, 21, 22, 23])
H("s_idle", "hcore", "<=3 messages (IDLE, other), <=2 calls of idle_accept/reject in any state, <=6 rounds of one call of next", [1, 6, 7, 10, 11, 24, 25, 26, 27])
H("s_idle_t", "hcore", "<=1 response, <=4 messages (IDLE, other, literal, malformed), <=3 calls of idle_accept/reject, <=5 rounds of one call of next", [1, 6, 7, 10, 11, 24, 25, 26, 27])
H("s_mixed", "hcore", "<=1 response, <=2 messages (AUTHENTICATE, IDLE, other), <=2 of the four flow calls in any state, <=5 rounds of one call of next", [1, 6, 7, 8, 10, 20, 21, 22, 23, 24, 25, 26, 27])
H("s_mixed_t", "hcore", "<=1 response, <=3 messages (AUTHENTICATE, IDLE, other, literal), <=3 of the four flow calls in any state, <=5 rounds of one call of next", [1, 6, 7, 8, 9, 10, 11, 20, 21, 22, 23, 24, 25, 26, 27])
H("s_flow_bytes", "hcore", "AUTHENTICATE or IDLE, then <=2 pieces of 1-4 arbitrary bytes and <=2 calls of authenticate_finish/idle_accept/idle_reject in any order, max_command_size 4, <=3 rounds to rest", [6, 8, 9, 10, 11, 12, 13, 14, 22, 24, 26])
H("s_flow_bytes_t", "hcore", "as s_flow_bytes with <=3 pieces, 5 rounds, max_command_size 4..5", [6, 8, 9, 10, 11, 12, 13, 14, 22, 24, 26])
H("s_flow_relaxed", "hcore", "as s_flow_bytes with <=1 piece of 1-4 bytes, bare LF allowed", [6, 8, 9, 10, 11, 12, 14, 22, 24, 26])
H("s_flow_relaxed_t", "hcore", "as s_flow_bytes, bare LF allowed", [6, 8, 9, 10, 11, 12, 13, 14, 22, 24, 26])
H("s_bad", "hcore", "<=1 response, <=3 messages (malformed, AUTHENTICATE, IDLE, literal), <=2 calls of authenticate_finish/idle_accept, <=4 rounds to rest", [1, 2, 3, 8, 9, 10, 11, 12, 15, 16])
H("s_texts", "hcore", "<=2 calls of the text setters with any ASCII text of <=2 characters, then any literal announcement", [30, 31, 32, 33])
H("s_frame", "hcore", "any 6 bytes after the greeting, every chunking, CRLF required, max literal 1", [3, 4, 5, 6, 8])
H("s_frame_relaxed", "hcore", "any 5 bytes, every chunking, bare LF allowed", [3, 4, 6, 8])
H("s_frame_max", "hcore", "any 5 bytes, every chunking, max_command_size 1..6, max_literal_size 0..2, both line-ending modes", [3, 4, 5, 6, 7, 8])
H("s_frame_t", "hcore", "any 8 bytes, every chunking, both line-ending modes", [3, 4, 5, 6, 8])
H("s_frame_max_t", "hcore", "any 7 bytes, every chunking, max_command_size 1..8, max_literal_size 0..2, both line-ending modes", [3, 4, 5, 6, 7, 8])
H("s_stream", "hcore", "one message with <=2 literals (0-2 arbitrary bytes, or announced 0..u32::MAX) cut at <=1 place, or two with <=1 literal", [3, 4, 5, 6, 8])
H("s_stream_t", "hcore", "one message with <=3 literals cut at <=2 places, or two with <=2 literals cut at <=1 place", [3, 4, 5, 6, 8])
H("s_stream_relaxed", "hcore", "one message with <=2 literals cut at <=1 place, bare LF allowed", [3, 4, 8])
H("s_stream_max", "hcore", "one message with <=2 literals cut at <=1 place, max_command_size 1..12", [3, 4, 5, 7, 8])
H("s_stream_max_t", "hcore", "one or two messages with <=2 literals in total cut at <=2 places, max_command_size 1..14", [3, 4, 5, 7, 8])
H("pair_lit", "hcore", "real client against real server: <=2 commands of 5 literal shapes, literals accepted or rejected (limit 1..2), responses interleaved, bytes delivered in pieces (<=1 cut)", [1, 8, 11, 20])
H("pair_flows", "hcore", "real client against real server: <=2 commands (literal, AUTHENTICATE with <=2 rounds, IDLE, NOOP), accepted or rejected, 6 turns in any order", list(range(1, 9)) + [10, 11, 12, 13, 14, 15, 20])
H("pair_lit_t", "hcore", "as pair_lit with 2 interleaved responses, 8 turns, <=2 cuts", [1, 8, 11, 20])
H("pair_flows_t", "hcore", "as pair_flows with <=3 commands, 2 extra responses, 7 turns, <=1 cut", list(range(1, 9)) + [10, 11, 12, 13, 14, 15, 20])
H("s_secrets", "hcore", "every kind of error and of event that carries bytes a client sent (discarded, initial response, authentication data), server printed after every call; 4 arbitrary secret bytes, twice", [1, 2, 3, 4, 5])
H("c_secrets", "hcore", "discarded responses, initial response and authentication data of AUTHENTICATE, client printed after every call; <=4 arbitrary secret bytes, twice", [2, 3, 4, 5, 6, 7, 8])
H("h_seq", "hcore", "2 clients and 2 servers among up to 8 created and dropped, 4 handles each, any interleaving of use", [1])
H("h_seq_t", "hcore", "3 clients and 3 servers, 6 handles each", [1])
H("h_conc", "hcore", "2 threads each creating a client and a server and 2 handles of each; every interleaving of atomic operations (sequentially consistent)", [2], threads=True)
H("h_conc3", "hcore", "3 threads, as h_conc", [2], threads=True)
H("c_scale", "hcore", "70 commands of <=2 kinds, before or after the greeting; 70 rounds of AUTHENTICATE; 70 IDLEs; 140 responses of <=2 kinds in any state; literals of 2 or 5000 bytes; responses with <=5 literals of <=150 bytes in any 2 pieces", [1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 14, 15, 16, 20, 22] + list(range(30, 37)), fuel=60_000_000)
H("s_scale", "hcore", "70 responses with literals of <=5000 bytes; 140 commands of <=2 kinds; 70 rounds of AUTHENTICATE; 70 IDLEs; commands with <=5 literals of <=150 bytes in any 2 pieces", list(range(1, 13)) + [20, 22, 24] + list(range(30, 37)), fuel=60_000_000)
H("pair_scale", "hcore", "20 commands of any one kind (literal accepted or refused, literals of 2 or 200 bytes), or 5 of AUTHENTICATE or IDLE with either outcome each, responses interleaved", [1, 2, 4, 5, 6, 7, 10, 11, 12, 14, 15, 20], fuel=60_000_000)
H("h_scale", "hcore", "66000 clients and servers, or as many handles of one each", [1], fuel=600_000_000)

NOTEST = "The repository's own tests sample single conversations (and none of them builds offline); this quantifies over "

P("C01", "A client sends exactly its commands, in order, after the greeting",
  "A client sends no byte before the server's greeting was received and nothing but the commands (and authentication data / DONE) the user handed to it. "
  "Commands are sent byte for byte as encoded, one at a time, in the order they were enqueued, each exactly once, for every interleaving of enqueueing, received responses and calls of next. "
  "Every command handle is unique and gets exactly one completion event, not before the last byte of the command was output, and a command that nothing blocks is sent without further input.",
  "every sequence of enqueue_command, received responses and next calls within the bounds", NOTEST + "all interleavings of enqueueing, input and next calls, and all payload bytes.",
  ["src/client.rs", "src/client_send.rs"], [("ClientSendState queue and current command", "src/client_send.rs"), ("Client::next", "src/client.rs")],
  ["c_order", "c_order_long", "c_literal_mid", "c_any", "c_any_queue", "c_scale"], ["c_literal_long", "c_mixed"], BASE)
P("C02", "Literal handshake of the client",
  "A client outputs the data of a synchronizing literal only after a continuation request arrived while it was waiting for it, sends non-synchronizing literals without waiting, and continues exactly where it stopped. "
  "A tagged BAD for the command that is waiting rejects that command (reported once with the command and the status, rest of it never sent); other responses neither release nor reject it; continuation requests that nothing waits for are reported to the user.",
  "every literal shape, order and timing of responses within the bounds", NOTEST + "all orders of continuation requests and statuses relative to each literal of each command.",
  ["src/client_send.rs", "src/client.rs"], [("FragmentKind / WaitForContinuationRequest handling", "src/client_send.rs")],
  ["c_literal", "c_literal_mid", "c_any", "c_scale"], ["c_literal_long", "c_mixed"], BASE)
P("C03", "AUTHENTICATE flow of the client",
  "After AUTHENTICATE was sent, each continuation request while the server has the turn is reported as a request for authentication data; set_authenticate_data is accepted exactly when data was requested and not yet given, sends exactly that data once, and otherwise returns it unchanged. "
  "A tagged status with the command's tag ends the flow exactly once, with that command and status; no other command is sent in between and the next queued command follows afterwards.",
  "every order of responses and set_authenticate_data calls within the bounds", NOTEST + "all orders of continuation requests, statuses and user calls.",
  ["src/client_send.rs", "src/client.rs"], [("AuthenticateState", "src/client_send.rs"), ("Client::set_authenticate_data", "src/client.rs")],
  ["c_auth", "c_auth_mid", "c_auth_queue", "c_scale"], ["c_auth_long", "c_mixed"], BASE)
P("C04", "IDLE flow of the client",
  "After IDLE was sent, the first continuation request accepts it and a tagged status with its tag rejects it, each reported once with its handle; set_idle_done succeeds exactly while IDLE is accepted and not yet ended, and then DONE is sent exactly once and reported. "
  "Until DONE was sent or IDLE was rejected no other command is sent; afterwards the next queued one is.",
  "every order of responses and set_idle_done calls within the bounds", NOTEST + "all orders of continuation requests, statuses, data and user calls.",
  ["src/client_send.rs", "src/client.rs"], [("IdleState", "src/client_send.rs"), ("Client::set_idle_done", "src/client.rs")],
  ["c_idle", "c_idle_long", "c_scale"], ["c_mixed"], BASE)
P("C05", "Every received response reaches the client user exactly once, in order",
  "Each greeting, data, status and continuation request received by a client is surfaced by exactly one event, unchanged and in the order received, except continuation requests that release a literal; no response is lost, duplicated or attributed to the wrong flow. "
  "Malformed responses are reported with exactly their bytes and do not affect the current flow or later responses.",
  "every sequence of responses of every kind in every state of the current command, within the bounds", NOTEST + "all response classes in all flow states.",
  ["src/client.rs", "src/client_receive.rs", "src/client_send.rs"], [("Client::progress_receive", "src/client.rs"), ("maybe_* / ClientSendState::maybe_terminate", "src/client_send.rs")],
  ["c_resp", "c_mixed_q", "c_any_in", "c_scale"], ["c_resp_t", "c_mixed", "c_auth_long"], BASE)
P("C06", "Message framing of the client",
  "What a client reports depends only on the bytes received, not on how they were split: lines end at CRLF (bare LF is an error with exactly the bytes up to it, unless relaxed), announced literals are taken verbatim whatever bytes they contain, and each message is decoded from exactly its own bytes. "
  "A broken message is discarded exactly up to its end so that the following message is received intact; a complete message is never withheld.",
  "every byte string up to the bound and every way of cutting it", NOTEST + "all byte strings and all chunkings.",
  ["src/receive.rs", "src/client_receive.rs", "src/client.rs"], [("ReceiveState::next, find_crlf, progress_literal", "src/receive.rs")],
  ["c_frame_greeting", "c_sizes", "c_frame", "c_frame_relaxed", "c_stream", "c_scale"], ["c_frame_greeting_t", "c_frame_t", "c_stream_t"], BASE)
P("C07", "A server sends greeting and responses in order, once each, and promptly",
  "The first bytes a server sends are its greeting; then every enqueued data, status and continuation request is sent byte for byte as encoded, exactly once, in the order enqueued, and reported once (unique handle, same response) after its last byte was output. "
  "Whenever next asks for more input, nothing that was enqueued is still unsent, also when the server has itself produced responses in between.",
  "every interleaving of enqueueing, received commands and next calls within the bounds", NOTEST + "all interleavings.",
  ["src/server.rs", "src/server_send.rs"], [("ServerSendState::next", "src/server_send.rs"), ("Server::progress_send", "src/server.rs")],
  ["s_order", "s_kinds", "s_any", "s_literal", "s_mixed", "s_scale"], ["s_order_t", "s_literal_t", "s_mixed_t"], BASE)
P("C08", "Literal negotiation of the server",
  "A synchronizing literal within max_literal_size is answered with exactly one continuation request carrying the configured accept text, a longer one with exactly one tagged BAD carrying the command's tag and the configured reject text, after which the announcing line is reported and discarded; non-synchronizing literals are never answered. "
  "The texts are those last set successfully; a text that cannot be sent is returned unchanged and changes nothing.",
  "every announced length, mode, tag and text, within the bounds, with responses interleaved", NOTEST + "all lengths, modes, tags and texts.",
  ["src/server.rs"], [("LiteralFound handling in Server::progress_receive", "src/server.rs"), ("Options::set_literal_*_text", "src/server.rs")],
  ["s_sizes", "s_literal", "s_texts", "s_stream", "s_scale"], ["s_literal_t", "s_stream_t"], BASE)
P("C09", "Command size limit of the server",
  "A server buffers and decodes at most max_command_size bytes of a command, literals included, or of a line of AUTHENTICATE or IDLE: as soon as that many bytes arrived without completing the command, CommandTooLong reports exactly those bytes, and a command that fits is never refused. Reception continues with the next byte.",
  "every byte string, chunking and limit within the bounds (limit >= 1)", NOTEST + "all limits, byte strings and chunkings.",
  ["src/receive.rs", "src/server.rs"], [("max_readable_bytes / MessageTooLong", "src/receive.rs")],
  ["s_sizes", "s_frame_max", "s_stream_max", "s_flow_bytes", "s_scale"], ["s_frame_max_t", "s_stream_max_t", "s_flow_bytes_t"], BASE + ["max_command_size >= 1 (0 is meaningless: documented max_literal_size < max_command_size)."])
P("C10", "Message framing of the server",
  "What a server reports depends only on the bytes received, not on how they were split: lines end at CRLF (bare LF is an error unless relaxed), accepted literals are taken verbatim, each command is decoded from exactly its own bytes. "
  "Malformed, bare-LF or refused messages are reported with exactly their bytes and discarded exactly up to their end; the following command is received intact and no complete one is withheld.",
  "every byte string up to the bound and every way of cutting it", NOTEST + "all byte strings and all chunkings.",
  ["src/receive.rs", "src/server.rs", "src/server_receive.rs"], [("ReceiveState::next", "src/receive.rs"), ("Server::progress_receive", "src/server.rs")],
  ["s_frame", "s_any_in", "s_frame_relaxed", "s_stream", "s_flow_relaxed", "s_stream_relaxed", "s_scale"], ["s_frame_t", "s_flow_relaxed_t", "s_stream_t"], BASE)
P("C11", "AUTHENTICATE flow of the server",
  "AUTHENTICATE is reported as such with its tag, mechanism and initial response, and from then on lines are taken as authentication data until authenticate_finish. "
  "authenticate_continue and authenticate_finish succeed exactly during that flow, enqueue exactly the given response, and otherwise return it unchanged with no effect; bytes already received are neither lost nor misread when the flow changes.",
  "every order of messages and user calls within the bounds", NOTEST + "all orders of messages and calls.",
  ["src/server.rs", "src/server_receive.rs"], [("ServerReceiveState::change_state", "src/server_receive.rs"), ("authenticate_*", "src/server.rs")],
  ["s_auth", "s_kinds", "s_mixed", "s_bad", "s_flow_relaxed", "s_flow_bytes", "s_scale"], ["s_auth_t", "s_flow_relaxed_t", "s_mixed_t"], BASE)
P("C12", "IDLE flow of the server",
  "IDLE is reported as such with its tag; until idle_accept or idle_reject no further input is interpreted, after idle_accept the next line is taken as DONE and reported once, after idle_reject as a command. "
  "idle_accept and idle_reject succeed exactly once per IDLE, enqueue exactly the given response, and otherwise return it unchanged with no effect; input received early is kept.",
  "every order of messages and user calls within the bounds", NOTEST + "all orders of messages and calls.",
  ["src/server.rs", "src/server_receive.rs"], [("ServerReceiveState::change_state", "src/server_receive.rs"), ("idle_*", "src/server.rs")],
  ["s_idle", "s_kinds", "s_mixed", "s_bad", "s_flow_relaxed", "s_flow_bytes", "s_scale"], ["s_idle_t", "s_flow_relaxed_t", "s_mixed_t"], BASE)
P("C13", "Client and server understand each other and never deadlock",
  "When this library's client talks to this library's server over any reliable ordered byte stream, every command the client reports as sent is received by the server equal to the one enqueued, and every response reported as sent reaches the client equal to the one enqueued, in order. "
  "Rejected literals, AUTHENTICATE and IDLE end consistently on both sides, and neither side ends up waiting for the other while it has work to do.",
  "every workload, scheduling of the two sides and delivery of bytes within the bounds", NOTEST + "all workloads, turn orders and deliveries.",
  ["src/client.rs", "src/server.rs", "src/client_send.rs", "src/server_send.rs", "src/receive.rs"], [("both state machines", "src")],
  ["pair_lit", "pair_flows", "pair_scale"], ["pair_lit_t", "pair_flows_t"], BASE)
P("C14", "Handles are never given out twice",
  "No two commands enqueued in this process, by the same or different clients, get equal handles, and no two responses enqueued by any servers do, whatever clients and servers are created, dropped and used in between and whichever threads create them concurrently.",
  "every creation/use order and every interleaving of threads within the bounds", "The test checks consecutive ids of one generator; this quantifies over generators, creation orders and thread interleavings.",
  ["src/handle.rs", "src/client.rs", "src/server.rs"], [("HandleGeneratorGenerator (atomic), HandleGenerator", "src/handle.rs")],
  ["h_seq", "h_conc", "h_scale"], ["h_seq_t", "h_conc3"], BASE + ["Sequentially consistent memory (the only atomic is one fetch_add).", "Fewer than 2^64 handles."])
P("C16", "No input or call order makes a client or server panic or hang",
  "Whatever bytes the peer sends, in whatever pieces, and in whatever order the user calls the public functions, a client or server neither panics nor loops: after finitely many steps next returns an event, an error, output, or a request for more input.",
  "every byte string and call order within the bounds", NOTEST + "all inputs and call orders.",
  ["src"], [("unreachable!/unwrap/assert/index sites", "src")],
  ["c_frame", "c_resp", "c_any", "c_any_in", "c_auth_queue", "s_frame", "s_any", "s_sizes", "s_any_in", "s_mixed", "s_bad", "c_scale", "s_scale"], ["c_mixed_q", "s_frame_max", "c_frame_greeting_t", "c_resp_t", "c_mixed", "s_frame_max_t", "s_mixed_t"], BASE)

P("C32", "What is printed does not depend on secret bytes",
  "The Debug and Display output of errors and events, and the Debug output of a client or server after any call, do not depend on the bytes kept secret: discarded bytes, bytes received but not yet taken, the initial response of AUTHENTICATE and authentication data.",
  "all secret bytes in every error, event and state that carries them, within the bounds", NOTEST + "all secret bytes: what is printed must be a function of everything else.",
  ["src/client.rs", "src/server.rs", "src/types.rs"], [("Error, Event, Debug for Client", "src/client.rs"), ("Error, Event, Debug for Server", "src/server.rs"), ("CommandAuthenticate", "src/types.rs")],
  ["s_secrets", "c_secrets"], (), BASE[:2] + ["Allocation always succeeds; logging (tracing) has no effect, formatting is the standard library's.", REL, "Secret prints the same whatever it holds, and so do the types of imap-types that hold secrets (as imap-types documents)."])

# ---------------------------------------------------------------- stream
NET = ("tokio's sockets, runtime and the random start of select! are models: a read or write transfers any number of the available bytes, "
       "reports not-ready spuriously, end of file, errors; AsyncRead/AsyncWrite, their extension traits, select!/join! are tokio 1.54.1's own code.")
TLSM = ("rustls and tokio-rustls are models of a session after the handshake (buffers, limits, wants_read/wants_write, close_notify, sticky errors as in rustls 0.23); "
        "sizes are scaled down (2 bytes per record, 4 per read_tls, buffer limit 6 bytes); records carry position- and direction-dependent transformed bytes.")
STREAM = [NET, "The state machine is an arbitrary one (any sequence of need-more-input, output, event, error within the bounds).", ALLOC, REL]
H("t_io", "hstream", "<=3 input bytes (<=2 per poll), outputs of 1-2 bytes, events, <=3 results of the state machine, network takes <=2 bytes per poll, 2 polls and then to rest", [1, 2, 4, 5, 8])
H("t_duplex", "hstream", "<=1 byte in and room for 1 byte per poll, <=3 outputs of 1-2 bytes, 3 polls and then to rest", [1, 2, 4, 5])
H("t_short", "hstream", "<=3 bytes in, outputs of 1-3 bytes, 2 short transfers of any size, 2 polls and then to rest", [1, 2, 4, 5])
H("t_spurious", "hstream", "2 spurious not-ready results, <=3 outputs, 3 polls and then to rest", [1, 2, 4, 5])
H("t_cancel", "hstream", "<=2 dropped futures, <=2 outputs, <=1 byte in and room for 1 byte per poll, 3 polls and then to rest", [1, 2, 4, 5, 6])
H("t_flush", "hstream", "<=2 calls of flush at any time, 1 dropped future, <=2 outputs, 3 polls and then to rest", [1, 2, 3, 4, 5, 6, 7])
H("t_close", "hstream", "end of file or error at any time, <=3 results, 3 polls and then to rest", [1, 2, 4, 5, 8, 10, 11])
H("t_error", "hstream", "failures of 11 kinds, writes fail or accept nothing from any time on, events and errors of the state machine, <=1 flush, 2 polls and then to rest", [1, 2, 3, 4, 5, 7, 8, 9, 10, 11])
H("t_convert", "hstream", "<=2 results, 1 dropped future, flush, then the stream is turned back into its socket", [1, 2, 4, 5, 6, 7, 8, 20])
H("tls_in", "hstream", "client or server side; <=3 bytes of data records (1-2 bytes each), cut anywhere, 3 polls and then to rest", [2, 4, 8])
H("tls_out", "hstream", "<=3 outputs of 1-3 bytes, events, short writes, 3 polls and then to rest", [1, 2, 4, 5, 8])
H("tls_big", "hstream", "one output of 14 bytes, more than twice the session's buffer limit", [1, 2, 4, 5])
H("tls_ask", "hstream", "data, messages that need an answer and messages that need none in any order, <=4 bytes cut anywhere, 1 output, 2 polls and then to rest", [1, 2, 4, 5, 13])
H("tls_early", "hstream", "<=2 data records received together with the end of the handshake, then more, 2 polls and then to rest", [1, 2, 4, 5, 8, 15])
H("tls_close", "hstream", "close_notify anywhere among <=4 bytes of records, end of file and errors at any time, 2 polls and then to rest", [1, 2, 4, 5, 10, 11, 14])
H("tls_bad", "hstream", "an undecipherable record anywhere among <=3 bytes of records, <=2 outputs, 2 polls and then to rest", [1, 2, 4, 5, 12])
H("tls_cancel", "hstream", "<=2 dropped futures, <=2 outputs, <=1 byte of records per poll, 3 polls and then to rest", [1, 2, 4, 5, 6])
H("tls_flush", "hstream", "<=2 calls of flush at any time, 1 dropped future, answers pending, 3 polls and then to rest", [1, 2, 3, 4, 5, 6, 7, 8])
H("link_small", "hstream", "real client and real server behind real streams: 2 commands (NOOP, sync literal, two non-sync literals), 2 unsolicited responses, network capacity 1..4 bytes per direction, 5 turns in any order and then alternating", [1, 2, 3])
H("link_tls", "hstream", "as link_small over TLS", [1, 2, 3])
H("t_io_t", "hstream", "as t_io with 4 results, 3 polls, <=1 byte per poll", [1, 2, 4, 5, 8])
H("t_duplex_t", "hstream", "as t_duplex with 4 polls and <=2 bytes in per poll", [1, 2, 4, 5])
H("t_cancel_t", "hstream", "as t_cancel with 3 outputs and a short transfer", [1, 2, 4, 5, 6])
H("t_flush_t", "hstream", "as t_flush with 3 results including events", [1, 2, 3, 4, 5, 6, 7, 8])
H("t_error_t", "hstream", "as t_error with failures of both directions and 3 polls", [1, 2, 3, 4, 5, 7, 8, 9, 10, 11])
H("tls_in_t", "hstream", "as tls_in with <=7 bytes and 4 polls", [2, 4, 8])
H("tls_out_t", "hstream", "as tls_out with errors and more room", [1, 2, 4, 5, 8, 9])
H("tls_ask_t", "hstream", "as tls_ask with 2 outputs and 3 polls", [1, 2, 4, 5, 13])
H("tls_close_t", "hstream", "as tls_close with <=5 bytes, bad records, events and 3 polls", [1, 2, 4, 5, 8, 10, 11, 12, 14])
H("tls_cancel_t", "hstream", "as tls_cancel with 3 outputs and <=2 bytes per poll", [1, 2, 4, 5, 6])
H("link_small_t", "hstream", "as link_small with 3 commands, 3 responses, capacity 1..6, 7 turns", [1, 2, 3])
H("link_tls_t", "hstream", "as link_tls with 3 commands, 3 responses, capacity 1..6, 7 turns", [1, 2, 3])
H("t_bulk", "hstream", "1500-3000 bytes at a time in both directions, <=2 results of the state machine, 1 poll and then to rest", [1, 2, 4, 5, 8], fuel=60_000_000)
H("t_huge", "hstream", "up to 80000 bytes in, outputs of 40000 and 80000 bytes, one poll, then to rest", [1, 2, 4, 5], fuel=2_000_000_000)
H("tls_huge", "hstream", "as t_huge with the real sizes of the session's buffers", [1, 2, 4, 5], fuel=2_000_000_000)
H("tls_bulk", "hstream", "300-600 bytes of records at a time in and 300 out, session buffers larger than those of the code (reads of 700, buffer of 500 bytes), 2 polls and then to rest", [1, 2, 4, 5, 8], fuel=60_000_000)
H("tls_early_bulk", "hstream", "<=60 data records (8 bytes each) received together with the end of the handshake, then more", [1, 2, 4, 5, 8, 15], fuel=60_000_000)
H("link_bulk", "hstream", "12 commands and 12 responses, capacity 3, 64 or 2000, with and without TLS", [1, 2, 3], fuel=60_000_000)

SWHY = "The repository's tests of the stream need a network and sample single conversations; this quantifies over "
SF = ["src/stream.rs"]
P("C17", "Stream: received bytes reach the state machine exactly once, in order",
  "Stream::next hands every byte read from the connection to the state machine exactly once, in order and unchanged, before it waits for more, however the bytes are split and whatever the state machine does in between. "
  "While it waits it always waits for input, also while output is pending; turning the stream back into its socket loses no byte.",
  "every timing and splitting of received bytes, every behaviour of the state machine, within the bounds", SWHY + "all splittings, timings and poll orders.",
  SF, [("Stream::next, read", "src/stream.rs")], ["t_io", "t_duplex", "t_short", "t_spurious", "t_convert", "t_bulk", "t_huge"], ["t_io_t", "t_duplex_t"], STREAM)
P("C18", "Stream: output is sent exactly once, in order; flush sends all of it",
  "Every byte the state machine outputs is written to the connection exactly once, in order and unchanged; while Stream::next or flush waits with unsent output it waits for the connection to accept more, so nothing stays unsent once it does. "
  "flush succeeds only when everything output so far is written, and neither reads nor drives the state machine.",
  "every timing and size of writes, every sequence of outputs and flush calls, within the bounds", SWHY + "all write sizes, timings and poll orders.",
  SF, [("write, Stream::next, Stream::flush", "src/stream.rs")], ["t_io", "t_duplex", "t_short", "t_flush", "t_spurious", "tls_flush", "t_bulk", "tls_bulk", "t_huge"], ["t_io_t", "t_flush_t"], STREAM + [TLSM])
P("C19", "Stream: dropping a pending operation loses nothing",
  "Stream::next and Stream::flush can be dropped at any point where they wait and called again: no received byte and no output byte is lost, duplicated or reordered by it, and no event or error of the state machine is lost.",
  "every point of cancellation, within the bounds", SWHY + "every point at which a future can be dropped.",
  SF, [("Stream::next, select! of read and write", "src/stream.rs")], ["t_cancel", "t_flush", "tls_cancel", "tls_flush", "t_convert"], ["t_cancel_t", "t_flush_t", "tls_cancel_t"], STREAM + [TLSM])
P("C20", "Stream over TLS: the same bytes, whatever the records look like",
  "Over TLS the state machine receives exactly the plaintext the peer sent and the peer exactly the plaintext the state machine output, in order, however records are cut, including data that arrived with the end of the handshake, outputs larger than the session's buffer, and TLS messages that have to be answered (the answers are sent). "
  "Data received before a close_notify is delivered, nothing after it; nothing of this ever makes next or flush hang, spin or fail.",
  "every sequence of records, cutting, timing and output, within the bounds", SWHY + "all record sequences, cuts and timings.",
  SF, [("decrypt, encrypt", "src/stream.rs")], ["tls_in", "tls_out", "tls_big", "tls_ask", "tls_early", "tls_close", "tls_flush", "tls_bulk", "tls_huge", "tls_early_bulk"], ["tls_in_t", "tls_out_t", "tls_ask_t", "tls_close_t"], STREAM + [TLSM])
P("C21", "Stream: results, end of connection and failures are reported as they are",
  "An event or error of the state machine is returned at once, unchanged, before any further transfer. Closed is returned exactly when the connection ended (end of file, or it accepts no more bytes), Io exactly when reading or writing failed, Tls exactly when the peer's records are invalid; none of these is swallowed, and everything received before the end was delivered first.",
  "every failure at every point, within the bounds", SWHY + "every failure at every point.",
  SF, [("Error, ReadWriteError, Stream::next", "src/stream.rs")], ["t_close", "t_error", "tls_close", "tls_bad", "t_io"], ["t_error_t", "tls_close_t"], STREAM + [TLSM])
P("C22", "Client and server over streams never block each other",
  "A client and a server that use Stream over a connection that buffers only a few bytes per direction always finish: every command and response enqueued arrives and is reported, also when both sides send more than the connection holds.",
  "every capacity, poll order and workload within the bounds", SWHY + "all capacities, workloads and poll orders.",
  ["src/stream.rs", "src/client.rs", "src/server.rs"], [("select! of read and write in Stream::next", "src/stream.rs")], ["link_small", "link_tls", "link_bulk"], ["link_small_t", "link_tls_t"], BASE + [NET, TLSM])

H("tags", "htag", "<=3 generators created and dropped at any time, 5 tags taken from any of them in any order, every random value", [1, 2, 3])
H("tags_many", "htag", "13 generators, 13 tags of any one of them next to 2 of every other, every random value", [1])
H("tags_threads", "htag", "2 threads next to the first one, each creating 2-3 generators and taking 3-4 tags, all interleavings of atomic operations", [1])
H("tags_random", "htag", "3 tags of one generator, every random value", [1])
H("tags_t", "htag", "<=4 generators created and dropped at any time, 7 tags taken from any of them", [1, 2, 3])
H("tags_scale", "htag", "66001 tags of one generator and 1 of another, 1 tag of each of 66001 generators; all random characters equal", [1], fuel=600_000_000)
H("tags_threads_t", "htag", "3 threads next to the first one, each creating 2-3 generators and taking 3-4 tags, all interleavings of atomic operations", [1])
P("C15", "Tags never repeat, are valid, and carry randomness of their own",
  "All tags generated by all TagGenerators of a process, in any order and on any threads, are pairwise different, also when the random parts coincide; every tag is a valid IMAP tag, and in release builds every tag contains random characters (at least 8 alphanumeric ones) drawn for it alone.",
  "every history of creating, dropping and using generators, every interleaving, every random value, within the bounds",
  "The test samples one schedule and builds without the random part; this covers every interleaving and every random value.",
  ["tag-generator/src/lib.rs"], [("TagGenerator::new, TagGenerator::generate", "tag-generator/src/lib.rs")],
  ["tags", "tags_many", "tags_threads", "tags_random", "tags_scale"], ["tags_t", "tags_threads_t"],
  ["imap_types::core::Tag is modelled as the string it is made of; `rand` yields arbitrary values of the documented range, so no claim is made about the quality of the generator behind it.", REL,
   "Threads: sequentially consistent interleavings of atomic operations."])

# ------------------------------------------------------------------------------------------- proxy
H("p_any", "hproxy", "<=1 client message (command of any of 24 kinds, with a sync or non-sync literal) and 1 server message, or 2 server messages (data of 15 kinds, statuses with codes of 20 kinds, continuation), or a command with a sync literal and its answer, or AUTHENTICATE, data, IDLE, DONE (2 messages) and 2 answers, any order; a greeting of 3 kinds with any code", [1, 2, 3])
H("p_any_burst", "hproxy", "2 messages of any kind at once (both from the client, both from the server, one of each), the receiver's network blocked after 3 bytes or not", [1])
H("p_relay", "hproxy", "<=2 client messages (command with/without arguments, with a non-sync literal, malformed), <=2 server messages (data, data with literal, status with/without tag and code, BYE, continuation, malformed), any order; malformed: unparsable or ended by a bare LF", [1, 2])
H("p_cut", "hproxy", "1 client message (also with a sync literal) and 1 server message, each cut anywhere once", [1, 2])
H("p_literal", "hproxy", "4 client messages (commands with 0-2 literals, sync and not, too long literals), 2 answers of the server (data, continuation, OK/NO/BAD with no, alert or another code), any order", [1, 2])
H("p_auth", "hproxy", "3 client messages (AUTHENTICATE with/without initial response, data, cancellation, others, malformed), 3 server messages (data, continuation, tagged), any order", [1, 2])
H("p_idle", "hproxy", "3 client messages (IDLE, DONE, others, malformed), 3 server messages (data, continuation, tagged), any order", [1, 2])
H("p_mixed", "hproxy", "3 client messages (plain, sync literal, AUTHENTICATE, IDLE), 3 server messages (continuation, status with any tag), any order", [1, 2])
H("p_race", "hproxy", "2 rounds in which client and server send at the same time, every order of polling them", [1])
H("p_slow", "hproxy", "2 commands, 2 responses (data, data with literal), network takes 0 or 3 bytes at a time per direction", [1])
H("p_tls_relay", "hproxy", "one or both connections over TLS: 2 client and 2 server messages (plain, sync literal, AUTHENTICATE, data, continuation, tagged)", [1, 2])
H("p_two", "hproxy", "2 clients at once, 3 messages of either client (plain, sync literal, AUTHENTICATE, malformed) or its server", [1])
H("p_caps", "hproxy", "lists of 1-2 of 38 capabilities, and lists of 3-4 of 6 of them (kept, dropped, repeated), in the greeting, data, statuses with and without tag, BYE, continuation requests", [1, 2])
H("p_caps_flow", "hproxy", "lists of 1-2 of 38 capabilities in what answers AUTHENTICATE, authentication data, IDLE and a refused literal", [1, 2, 3, 4])
H("p_panic", "hproxy", "any 3 messages of either peer in any state, coming together or one by one", [1, 2])
H("p_bytes", "hproxy", "any 5 bytes of either peer, before and after the greeting", [1, 2])
H("p_end", "hproxy", "end of file, read error or failing write of either connection, before the greeting or after <=1 message", [1, 2, 3])
H("p_bye", "hproxy", "<=2 responses of the server (data, with literal, status, BYE), then end of file or error; client slow or not; every order of polling", [1])
H("p_silence", "hproxy", "<=2 client messages (plain, sync literal, AUTHENTICATE, IDLE, malformed; cut at <=1 place), <=2 server messages (data, continuation, tagged, malformed), before each and inside it no message for any time (every timer expires)", [1, 2, 3])
H("p_silence_t", "hproxy", "as p_silence with 3 client messages", [1, 2, 3])
H("p_others", "hproxy", "failures of 11 kinds; first client: connection aborted, server refuses or never answers, TLS handshake of either side fails, that of the client never ends; then a second one", list(range(1, 7)))
H("p_tls", "hproxy", "all 4 combinations of encryption, chains of 1, 2, 3 or 5 certificates, 0, 1, 2 or 4 system roots, all bytes symbolic", [1, 2, 3, 4])
H("p_identity", "hproxy", "6 kinds of chain files x 7 kinds of key files (empty, other contents, several, malformed, missing, unreadable)", [1, 2])
H("p_tls_two", "hproxy", "2 services (also of the same name) with and without TLS on either side, different certificates, keys and hosts, 3 sessions of any of them one after the other, every one-byte certificate and key", [1])
H("p_names", "hproxy", "10 hosts of TLS servers, valid and not", [1, 2])
H("p_port", "hproxy", "every decimal number of 1-5 digits as port of either end", [1, 2])
H("p_config", "hproxy", "all combinations of encryption and given/default ports, any letters in hosts and name, default and given path, 7 ways of being invalid", [1, 2])
H("p_service", "hproxy", "1-3 services, every subset of them failing to start, 2 clients of any of the others", [1, 2])
H("p_scale", "hproxy", "one session: 70 rounds of the same messages of either side (one of 7 kinds: plain, data, literals of the client, of the server, AUTHENTICATE, IDLE, refused literals, malformed), symbolic payloads", [1, 2, 3, 4, 5, 6, 7], fuel=200_000_000)
H("p_sessions", "hproxy", "69 sessions one after the other (or open at a time), all with one of 9 fates, all combinations of encryption, then one more", [1, 2, 3, 4, 5, 6, 7, 8, 9], fuel=200_000_000)
H("p_crowd", "hproxy", "260 sessions one after the other (or open at a time), all with one of 4 fates (server unreachable, ended by the client, by the server, not ended), without encryption, then one more", [1, 2, 3, 4], fuel=2_000_000_000)
H("p_crowd_t", "hproxy", "1030 sessions as in p_crowd", [1, 2, 3, 4], fuel=8_000_000_000)
H("p_services", "hproxy", "20 services: all but one, none but one, or half of them fail to start; 1 client of any of the others", [2], fuel=200_000_000)
H("p_long", "hproxy", "a literal of 100 bytes to 20 MB announced", [1], fuel=200_000_000)
H("p_relay_t", "hproxy", "as p_relay with 3 server messages", [1, 2])
H("p_cut_t", "hproxy", "as p_cut with 2 messages of each side", [1, 2])
H("p_literal_t", "hproxy", "as p_literal with 3 answers of the server", [1, 2])
H("p_auth_t", "hproxy", "as p_auth with 4 client and 5 server messages", [1, 2])
H("p_idle_t", "hproxy", "as p_idle with 4 client and 4 server messages, also malformed ones", [1, 2])
H("p_mixed_t", "hproxy", "as p_mixed with 4 client messages", [1, 2])
H("p_race_t", "hproxy", "as p_race with 3 rounds", [1])
H("p_slow_t", "hproxy", "as p_slow with 3 commands", [1])
H("p_two_t", "hproxy", "as p_two with 4 messages", [1])
H("p_panic_t", "hproxy", "as p_panic with 4 messages", [1, 2])
H("p_bytes_t", "hproxy", "as p_bytes with 7 bytes", [1, 2])
H("p_bye_t", "hproxy", "as p_bye with 3 responses", [1])
H("p_end_t", "hproxy", "as p_end after <=3 messages", [1, 2, 3])
H("p_service_t", "hproxy", "as p_service with 3 clients", [1, 2])

PF = ["proxy/src/proxy.rs", "proxy/src/main.rs"]
PROXY = [CODEC.replace("encoders are", "what was decoded is encoded again as it was (the codec's own round trip is not in question); encoders are"), BYTES, ALLOC, REL, NET,
         "The whole program runs, from its command line (argh), configuration file and configuration (real serde, toml) down to the bytes on its sockets; colored and tracing have no effect."]
PWHY = "The proxy has no tests of its behaviour (one test parses one configuration file) and does not build offline; this quantifies over "
P("C23", "Proxy: commands reach the server exactly once, in order, unchanged",
  "Every command the client sends (with its literals), every piece of authentication data, IDLE and DONE is sent to the server exactly once, in order and byte for byte as received, and nothing else is; each as soon as the server's previous literal, AUTHENTICATE or IDLE exchange allows it, as long as the client's connection lasts, also when the client did not wait, when both sides act at the same time and when the network is slow. "
  "The client's literals are accepted by the proxy itself without asking the server.",
  "every conversation and timing within the bounds", PWHY + "all conversations and timings within the bounds.",
  PF, [("handle_client_event", "proxy/src/proxy.rs"), ("start_conversation", "proxy/src/proxy.rs")],
  ["p_relay", "p_any", "p_any_burst", "p_cut", "p_literal", "p_auth", "p_idle", "p_race", "p_slow", "p_two", "p_scale", "p_long"], ["p_mixed_t", "p_literal_t", "p_auth_t", "p_idle_t", "p_race_t", "p_slow_t", "p_two_t"], PROXY)
P("C24", "Proxy: responses reach the client exactly once, in order, unchanged",
  "The server's greeting, data, statuses, continuation requests (except those that release a literal the proxy accepted already) and BYE are sent to the client exactly once, in order and byte for byte as received, apart from capability lists; continuation requests and statuses of AUTHENTICATE and IDLE at the point of the exchange where they belong. "
  "What the server sent before it closed its connection still reaches the client.",
  "every conversation and timing within the bounds", PWHY + "all conversations and timings within the bounds.",
  PF, [("handle_server_event", "proxy/src/proxy.rs"), ("start_conversation", "proxy/src/proxy.rs")],
  ["p_relay", "p_any", "p_any_burst", "p_cut", "p_literal", "p_mixed", "p_race", "p_slow", "p_bye", "p_scale"], ["p_relay_t", "p_auth_t", "p_idle_t", "p_bye_t", "p_cut_t"], PROXY)
P("C25", "Proxy: only capabilities that work through it are offered",
  "Wherever the server lists capabilities (greeting, CAPABILITY data, codes of statuses and continuation requests, in any state) the client receives exactly those that can work through the proxy, in the same order: IMAP4rev1, SASL-IR, QUOTA*, MOVE, LITERAL+/-, UNSELECT, ID, IDLE and AUTH= of PLAIN, LOGIN, XOAUTH2, SCRAM-SHA-1, SCRAM-SHA-256; IMAP4rev1 if none is left. In particular STARTTLS, COMPRESS, ENABLE, channel-binding and unknown mechanisms never get through.",
  "every list of <=2 of the 38 kinds of capabilities, and longer lists with repetitions of six of them, wherever a list can be", PWHY + "all lists in all places.",
  ["proxy/src/util.rs", "proxy/src/proxy.rs"], [("filter_capabilities*", "proxy/src/util.rs"), ("handle_server_event", "proxy/src/proxy.rs")],
  ["p_caps", "p_caps_flow"], ["p_caps", "p_caps_flow", "p_relay_t"], PROXY)
P("C26", "Proxy: a command refused by the server is answered with BAD and its tag",
  "If the server refuses a command (tagged BAD instead of the continuation its literal waits for) the client, which has sent all of the command already, gets exactly one tagged BAD with that command's tag: the server's code and text if it is an alert, no code and the proxy's own text otherwise. The rest of the command is never sent, and the commands that follow are forwarded as usual. Literals that are too long are refused by the proxy with BAD and never reach the server.",
  "every refusal at every literal, with any code and text, within the bounds", PWHY + "all refusals.",
  PF, [("CommandRejected in handle_server_event", "proxy/src/proxy.rs")],
  ["p_literal", "p_any", "p_caps_flow", "p_mixed", "p_scale"], ["p_literal_t", "p_mixed_t"], PROXY)
P("C27", "Proxy: no message of a client or server makes it panic or stop",
  "Whatever a client or a server sends, in any state, the program neither panics nor stops nor hangs: malformed messages are dropped without affecting what follows, a session that cannot go on is ended on both sides, and other clients are served.",
  "every sequence of messages and bytes within the bounds", PWHY + "all sequences of messages, in and out of turn.",
  PF + ["proxy/src/util.rs"], [("handle_client_event, handle_server_event", "proxy/src/proxy.rs"), ("handle_service", "proxy/src/main.rs")],
  ["p_panic", "p_bytes", "p_relay", "p_names", "p_scale", "p_sessions"], ["p_panic_t", "p_bytes_t", "p_relay_t"], PROXY)
P("C28", "Proxy: a session ends with either of its connections, and alone",
  "When either connection of a session ends or fails, at any point, both are closed (a client that leaves before the server's greeting is noticed when that arrives), and not before, however long nothing is said in whatever state; when a server cannot be reached or a handshake fails, the client's connection is closed without a byte sent. Other sessions are not affected by that, and new clients are accepted also while another one's TLS handshake or connection to the server is pending.",
  "every failure at every point within the bounds", PWHY + "all failures at all points.",
  PF, [("start_conversation", "proxy/src/proxy.rs"), ("handle_service, handle_client", "proxy/src/main.rs")],
  ["p_end", "p_bye", "p_silence", "p_others", "p_two", "p_sessions", "p_crowd"], ["p_end_t", "p_bye_t", "p_silence_t", "p_two_t", "p_crowd_t"], PROXY + [TLSM])
P("C29", "Proxy: connections are encrypted exactly as configured",
  "The connection with the client and that to the server use TLS exactly if configured, each before any IMAP byte is exchanged on it: with the client the configured certificate chain (whole, in order) and key, with the server the configured host as the name to verify and exactly the system's (parsable) root certificates as trusted; both with ALPN \"imap\". "
  "If the identity cannot be used or a handshake fails, the connection is closed and nothing is sent in plain.",
  "all combinations of encryption, certificate and key files and roots within the bounds", PWHY + "all combinations.",
  PF + ["proxy/src/util.rs"], [("secure_client, connect_to_server", "proxy/src/proxy.rs"), ("load_certificate_chain_pem, load_leaf_key_pem", "proxy/src/util.rs")],
  ["p_tls", "p_tls_two", "p_identity", "p_names", "p_port", "p_others", "p_tls_relay"], (), PROXY + [TLSM, "PEM files are modelled as sequences of items (certificate, PKCS #8 key, other key, malformed); loading the system's root certificates succeeds."])
P("C30", "Proxy: the configuration means what it says",
  "The proxy reads the file given by --config, config.toml by default; listens at and connects to exactly the configured hosts and ports, by default 143 without and 993 with TLS; and prints each service's name, addresses and encryption. A missing, malformed, incomplete or unknown setting and a port out of range are errors, and then no service is started.",
  "every configuration file within the bounds", PWHY + "all values of hosts and ports and all combinations of settings.",
  ["proxy/src/config.rs", "proxy/src/main.rs"], [("Config::load, Bind, Connect", "proxy/src/config.rs"), ("main", "proxy/src/main.rs")],
  ["p_config", "p_port", "p_names"], (), PROXY)
P("C31", "Proxy: every configured service runs, independently of the others",
  "Every configured service is started and connects its clients to its own server; one that cannot be started does not keep the others from running, and the program ends exactly when none is left.",
  "all sets of services that fail, all distributions of clients, within the bounds", PWHY + "all sets of failing services.",
  ["proxy/src/main.rs", "proxy/src/proxy.rs"], [("main, handle_service", "proxy/src/main.rs"), ("Proxy::bind", "proxy/src/proxy.rs")],
  ["p_tls_two", "p_service", "p_services", "p_others", "p_two"], ["p_service_t", "p_two_t"], PROXY)

# Stated in DESIGN.md.
MON = "an independent monitor written from the protocol (what may be sent, what must be reported next, what must be refused), run in lockstep with the real code."
REF = "an independent receiver that sees the whole byte string at once, compared with the real one that gets it in pieces."
ORACLES = {
    "C01": MON, "C02": MON, "C03": MON, "C04": MON, "C05": MON, "C06": REF, "C07": MON, "C08": MON, "C09": REF, "C10": REF, "C11": MON, "C12": MON,
    "C13": "the other side: the real client and the real server are run against each other; what one reports as sent is compared with what the other reports as received, and a state in which neither can move must have all work done.",
    "C14": "pairwise comparison of all handles; atomic operations are interleaved in every order.",
    "C15": "pairwise comparison of all tags; the random characters are symbolic and must reappear in the tag.",
    "C32": "the output of the same calls with other secret bytes.",
    "C16": "panics, unreachable code, memory errors and running out of fuel are violations in every harness; here they are the property.",
}
SM = "the network and the state machine around the stream (both arbitrary), with the bytes on either side compared after every poll."
ORACLES.update({"C17": SM, "C18": SM, "C19": SM, "C20": SM + " The peer seals and opens records independently.", "C21": SM,
                "C22": "everything enqueued on one side must be reported on the other when neither side moves any more."})
SESSION = "a model of what a session must do (which bytes must have arrived on either side after each step), written from the protocol and independent of the code; peers act in any order."
ORACLES.update({"C23": SESSION, "C24": SESSION, "C26": SESSION, "C25": "the list of extensions that need nothing but forwarding; the list received must be the list sent without the others.",
                "C27": "panics, memory errors, running out of fuel and the end of the program are violations; afterwards another client is served.",
                "C28": SESSION + " After the end both sockets must be closed and another client be served.",
                "C29": "the configuration the TLS library is given, and every byte on a connection that has to be encrypted must be part of a record.",
                "C30": "addresses, messages and outcome computed from the values written into the file.",
                "C31": "the set of services that did not fail; each client's server is known from its service."})
NOT = []
