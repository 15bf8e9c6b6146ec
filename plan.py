"""What each check runs: budgets, and the descriptions its evidence carries."""

CONN = ["bnl/http3 client and server connections, streams and handles",
        "bnl/http3 codecs (varint, frame, qpack, huffman, headers, body)",
        "bnl/base (buffers, buffer chains, events, headers, settings)"]
ONE = ["one bnl/http3 connection (client or server) with its streams and handles",
       "bnl/http3 codecs", "bnl/base"]
CODEC = ["bnl/http3 codecs (varint, frame, qpack, huffman, headers, body)", "bnl/base"]
BASE = ["bnl/base buffers, chains and lookaheads"]
NET = ["QUIC transport: simulated streams over a lossy, reordering, duplicating, partitioning "
       "packet network in virtual time (sim/net.hpp)"]
APPS = ["applications: scripted, every step placed by the seeded scheduler"]
PEER = ["the peer: scripted, its bytes made by an independent encoder (sim/ref.cpp)"]
FEED = ["the stream under the decoder: bytes made by an independent encoder, cut up by the "
        "seeded scheduler"]
ORDER = ("the QUIC layer below delivers each stream's bytes in order, exactly once, with the end "
         "after the last byte (the simulated transport does)")
THREAD = "one thread per connection: the library documents no thread safety"
REF = ("the independent codec and receiver model in sim/ref*.cpp states draft-ietf-quic-http-22 / "
       "qpack-09 correctly for the parts the library implements")

QUIC = ["bnl/quic client connection, handshake, streams, ngtcp2 and BoringSSL glue, crypto",
        "bnl/base"]
QSTUB = ["ngtcp2: an independent small transport with the same API (sim/quic/engine.cpp, "
         "ngtcp2.cpp)", "BoringSSL: an independent small TLS and real cipher primitives "
         "(sim/quic/ssl.cpp, tls.cpp, prim.cpp)",
         "the server and the packet network (sim/quic/server.cpp)"]
QA = ["the stand-ins keep the contracts of ngtcp2 (of the version in the repository's build "
      "files) and BoringSSL; neither library is installed here", THREAD,
      "connections are not moved once used (the library's own moves leave its callbacks behind)"]
QF = ["fault.loss", "fault.duplicate", "fault.reorder", "probe.handshake_completed"]

PROG = ["the client program of bnl/http3/app/endpoint: main, sockets, name resolution, event loop, "
        "descriptors", "bnl/quic client connection", "bnl/http3 client connection and codecs",
        "bnl/base", "bnl/log console logger"]
PSTUB = ["operating system: sockets, getaddrinfo, errno, descriptors, stdout and stderr resolved at link "
         "time to a simulated one (sim/quic/program.cpp)",
         "sd-event: a stand-in event loop with the same API in virtual time (sim/quic/program.cpp)",
         "the server: scripted HTTP/3 from an independent encoder over the stand-in transport",
         ] + QSTUB

NETFAULTS = ["fault.loss", "fault.duplicate", "fault.partition", "fault.separate_fin"]


def P(quick, thorough, rule, real, stub, assumptions, must, seconds=60, tseconds=840, quic=None):
    return dict(level="exploration", quick_runs=quick, thorough_runs=thorough, rule=rule,
                real=real, stub=stub, assumptions=assumptions, must_reach=must,
                quick_seconds=seconds, thorough_seconds=tseconds, quic=quic)


EX = ("A run is one seeded execution of a real client and a real server exchanging up to 4 "
      "requests (6-10 in some properties or tiers) over the simulated network; it is nontrivial "
      "when a message finished and more than 20 scheduler steps were taken.")
PR = ("A run is one seeded execution of one real endpoint against a scripted peer; it is "
      "nontrivial when the peer's streams reached the endpoint and were judged by the reference "
      "receiver.")
MIX = " Some runs are of the other kinds described in DESIGN.md for this property."
CO = ("A run feeds one incremental codec a stream of items in seeded pieces, or drives one "
      "encoder; it is nontrivial when at least one item was decoded, refused or encoded.")
ME = ("A run is one seeded history of operations on byte containers; it is nontrivial when more "
      "than ten operations were applied.")

QU = ("A run is one seeded execution of a real QUIC client connection against a scripted server, "
      "from the first packet until everything is delivered and acknowledged or the connection "
      "failed as it had to; every run that starts is nontrivial.")

PG = ("A run is one seeded execution of the client program, from main's arguments to its exit status "
      "and output, in a simulated operating system and network; every run is nontrivial.")

PLANS = {
    "C01": P(100000, 3000000, EX + MIX, CONN, NET + APPS + PEER, [ORDER, THREAD, REF],
             NETFAULTS + ["fault.crash", "probe.four_messages_finished"]),
    "C02": P(20000, 800000, PR + MIX, ONE, NET + APPS + PEER, [ORDER, THREAD, REF],
             NETFAULTS + ["probe.differential", "fault.split"]),
    "C03": P(80000, 3000000, PR + MIX, CONN, NET + APPS + PEER, [ORDER, THREAD, REF],
             NETFAULTS + ["fault.forbidden_frame", "fault.truncated_stream", "fault.handle_drop"]),
    "C04": P(100000, 3000000, EX + MIX, CONN, NET + APPS + PEER, [ORDER, THREAD, REF],
             NETFAULTS + ["probe.late_fin"]),
    "C05": P(100000, 3000000, EX + MIX, CONN, NET + APPS + PEER, [ORDER, THREAD, REF],
             NETFAULTS + ["probe.early_response", "probe.late_fin", "probe.closed_exchange",
                          "probe.big_run"]),
    "C06": P(100000, 3000000, EX, CONN, NET + APPS, [ORDER, THREAD, REF],
             ["fault.handle_move", "fault.handle_reassign", "fault.handle_replaced",
              "fault.handle_drop", "fault.connection_move", "fault.sender_move",
              "fault.receiver_move", "env.log_message"]),
    "C07": P(100000, 4000000, PR + MIX, ONE, NET + APPS + PEER, [ORDER, THREAD, REF],
             ["fault.bad_control", "fault.control_extra", "probe.control_error",
              "probe.closed_critical_stream", "fault.unknown_setting"]),
    "C08": P(50000, 2000000, PR + MIX, ONE, NET + APPS + PEER, [THREAD, REF],
             ["fault.corrupt_bytes", "fault.garbage_stream", "fault.length_lie",
              "fault.bad_field_line", "fault.hostile_call", "fault.forbidden_frame",
              "fault.truncated_stream", "fault.bad_control"]),
    "C09": P(60000, 2500000, PR + MIX, ONE, NET + APPS + PEER, [ORDER, THREAD, REF],
             ["fault.truncated_stream", "probe.truncation_detected", "fault.crash"]),
    "C10": P(50000, 2000000, PR, ONE, NET + APPS + PEER, [ORDER, THREAD, REF],
             ["fault.unknown_frame", "fault.unknown_setting", "fault.unknown_uni_stream",
              "fault.zero_length_data", "fault.trailers", "fault.wide_varint"]),
    "C11": P(50000, 2000000, PR + MIX, ONE, NET + APPS + PEER, [ORDER, THREAD, REF],
             ["fault.forbidden_frame", "fault.length_lie", "fault.bad_field_line",
              "fault.bad_control", "probe.stream_error"]),
    "C12": P(100000, 3000000, EX + MIX, CONN, NET + APPS + PEER, [ORDER, THREAD, REF],
             NETFAULTS + ["probe.encoded"]),
    "C13": P(80000, 3000000, CO + MIX, CONN, FEED + NET + APPS + PEER, [REF],
             ["fault.split", "fault.bad_huffman", "fault.bad_field_line", "fault.huge_integer",
              "probe.encoded", "probe.decoded"]),
    "C14": P(120000, 4000000, CO, CODEC, FEED, [REF],
             ["fault.split", "fault.empty_piece", "fault.length_lie", "fault.alloc",
              "probe.incomplete", "probe.decoded", "probe.rejected"]),
    "C15": P(150000, 5000000, ME, BASE, ["no stub: the containers run alone"], [THREAD],
             ["fault.alloc", "probe.slice", "probe.shared_slice", "probe.self_move",
              "probe.view", "probe.many_slices"]),
    "C16": P(150000, 5000000, ME, BASE, ["no stub: the containers run alone"], [THREAD],
             ["fault.alloc", "probe.lookahead", "probe.chain_slice", "probe.long_chain"]),
    "C17": P(80000, 3000000, EX + MIX, CONN, NET + APPS + FEED, [ORDER, THREAD, REF],
             ["fault.alloc", "fault.alloc_failed_call"]),
    "C18": P(40000, 1500000, "A run is one client and one server serving up to 24 (thorough: 100) "
             "exchanges, whose memory is compared after each; it is nontrivial when at least one "
             "exchange was completed." + MIX, CONN, NET + APPS + PEER, [ORDER, THREAD],
             ["probe.rounds", "fault.alloc_failed_call", "probe.closed_exchange"]),
    "C19": P(80000, 3000000, EX + MIX, CONN, NET + APPS + FEED, [ORDER, THREAD, REF],
             ["probe.misuse", "fault.handle_replaced"]),
    "C20": P(15000, 600000, "A run is one complete execution of one of the two programs in a child "
             "process on a virtual disk; it is nontrivial when the program got its input.",
             ["qpack-interop-encode and qpack-interop-decode, main() included",
              "bnl/http3 qpack codec", "bnl/base", "libstdc++ file streams"],
             ["file system: libc's file calls resolve to a virtual disk (sim/vdisk.cpp)"], [REF],
             ["fault.short_io", "fault.eintr", "fault.read_error", "fault.write_error",
              "fault.disk_full", "fault.open_error", "fault.close_error", "fault.seek_error",
              "fault.invalid_input", "fault.truncated_file", "probe.tool_success",
              "probe.tool_failure"]),
    "C21": P(10000, 150000, QU, QUIC, QSTUB + APPS, QA, QF +
             ["fault.short_write", "fault.stream_data_blocked", "fault.stream_id_blocked",
              "fault.congestion_limited", "fault.stop_sending", "fault.socket_blocked",
              "net.retransmit", "probe.everything_delivered"], quic="library"),
    "C22": P(14000, 250000, QU, QUIC, QSTUB + APPS, QA, QF +
             ["fault.events_left_undrained", "fault.server_reset", "probe.reset_reported",
              "probe.bytes_received", "probe.everything_delivered"], quic="library"),
    "C23": P(45000, 700000, QU, QUIC, QSTUB + APPS, QA, QF +
             ["fault.partition", "fault.partition_drop", "fault.client_stall",
              "fault.spurious_expire", "probe.client_loss_timer", "probe.client_ack_timer",
              "net.loss_timeout", "probe.everything_delivered"], quic="library"),
    "C24": P(60000, 900000, QU, QUIC, QSTUB + APPS, QA, QF +
             ["fault.corrupt", "fault.truncate", "fault.garbage", "fault.tls",
              "fault.unauthenticated_packet", "fault.bad_post_handshake", "probe.key_update", "probe.session_ticket",
              "probe.failed_as_it_must", "probe.everything_delivered"], quic="library"),
    "C25": P(12000, 200000, PG, PROG, PSTUB, QA + [
        "sd-event's contract as documented (a negative result of a handler disables its source)"],
             ["fault." + f for f in (
                 "loss", "duplicate", "reorder", "partition", "socket_blocked", "recv_race",
                 "client_stall", "spurious_wakeup", "empty_datagram", "dns", "socket", "connect",
                 "arguments", "refused", "server_silent", "server_reset", "connection_close",
                 "send_error", "recv_error", "tls", "bad_control", "output_full", "signal",
                 "unknown_frame", "unknown_uni_stream")] +
             ["probe.program_success", "probe.program_failure", "probe.program_timer",
              "probe.handler_failed"], quic="program"),
    "C26": P(60000, 2000000, "A run is one seeded history of messages given to the console logger "
             "while its outputs fail and recover, or one connection history carried out with and "
             "without a logger; it is nontrivial when a message was logged.",
             ["bnl/log console logger", "bnl/base log", "in the logged connection histories: "
              "bnl/http3 client and server connections"],
             ["stdout and stderr: simulated outputs under real stdio streams, which fill up, fail "
              "and recover (sim/logging.cpp)", "the clock: simulated, resolved at link time"] +
             NET + APPS + PEER, [THREAD],
             ["fault.log_write_error", "fault.log_disk_full", "fault.clock_jump",
              "probe.log_recovered", "probe.logged_connection", "probe.logged",
              "probe.message_lost"]),
}
