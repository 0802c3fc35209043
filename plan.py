"""Which simulated worlds decide which property, and with what share of the budget."""
J3 = ("nlohmann", "rapid", "jsoncpp")
N1 = ("nlohmann",)

QUICK_CORE_SECONDS = 360
QUICK_WALL_CAP = 150
THOROUGH_CORE_SECONDS = 8 * 600
THOROUGH_WALL_CAP = 1800

REAL = ["all of /repo/src and /repo/include (session, content stream, io, socket, network, type information, protocol types, JSON serializer)",
        "the JSON library of each back end", "libstdc++"]
STUB = ["thread scheduling, mutexes, condition variables (real pthreads, one runs at a time, chosen by the seed)",
        "clocks and timed waits (simulated time)", "heap (deterministic arena with bounds, use-after-free and leak tracking)",
        "TCP sockets, name lookup, poll/select (in-process model)", "stdio files (in-process model)",
        "the peer, where a world drives one endpoint with raw bytes"]
ASSUMPTIONS = [
    "Interleavings are explored at synchronisation operations, atomics and I/O calls, and at plain memory accesses in the runs with race detection; "
    "memory is sequentially consistent (weaker orders appear only as reported races).",
    "The simulated sockets and files behave as Linux documents them.",
]

PLAN = {
    "P01": {"worlds": [("rpc_two_sessions", J3, 3), ("rpc_raw_peer", J3, 3), ("rpc_raw_client", J3, 3), ("long_rpc", N1, 2),
                       ("dispatch_nested", N1, 0.4), ("manual_pump", N1, 0.4), ("future_session", N1, 0.4), ("wire_frames", N1, 0.4), ("net_sessions", N1, 0.4)]},
    "P02": {"worlds": [("wire_frames", J3, 4), ("wire_breaks", J3, 3), ("wire_transient", J3, 1), ("rpc_two_sessions", J3, 1), ("long_wire", N1, 2),
                       ("rpc_raw_client", N1, 0.4), ("send_failures", N1, 0.4), ("response_sent", N1, 0.4), ("session_chaos", N1, 0.4)]},
    "P03": {"worlds": [("dispatch_order", J3, 3), ("dispatch_nested", J3, 2), ("pipe_sessions", N1, 1), ("long_dispatch", N1, 0.6),
                       ("session_chaos", N1, 0.4), ("close_notify", N1, 0.4), ("error_reports", N1, 0.4)]},
    "P04": {"worlds": [("protocol_values", J3, 2), ("protocol_decode", J3, 2), ("moved_values", J3, 1), ("big_values", J3, 0.6), ("rpc_two_sessions", N1, 0.2)]},
    "P05": {"worlds": [("reassembly", J3, 4), ("pipe_sessions", N1, 1), ("file_session", N1, 1), ("long_stream", N1, 1),
                       ("dispatch_order", N1, 0.4), ("net_sessions", N1, 0.4), ("invalid_ignored", N1, 0.4)]},
    "P06": {"worlds": [("invalid_ignored", J3, 3), ("invalid_closes", J3, 3), ("long_garbage", N1, 0.4), ("close_notify", N1, 0.3), ("long_stream", N1, 0.3)]},
    "P07": {"worlds": [("hostile_json", J3, 4), ("invalid_ignored", J3, 1), ("rpc_raw_peer", J3, 1), ("error_reports", J3, 0.6), ("protocol_decode", J3, 0.6)]},
    "P08": {"worlds": [("close_notify", J3, 4), ("net_sessions", N1, 1), ("invalid_closes", N1, 1), ("long_close", N1, 0.5),
                       ("destroy_anytime", N1, 0.5), ("file_session", N1, 0.3)]},
    "P09": {"worlds": [("destroy_anytime", J3, 4), ("net_sessions", N1, 1), ("long_close", N1, 0.5),
                       ("close_notify", N1, 0.5), ("session_leaks", N1, 0.5), ("manual_pump", N1, 0.3), ("response_sent", N1, 0.3)]},
    "P10": {"worlds": [("send_failures", J3, 3), ("send_transient", J3, 2), ("wire_breaks", J3, 1), ("long_failures", N1, 0.6),
                       ("wire_transient", N1, 0.5), ("net_sessions", N1, 0.4), ("session_leaks", N1, 0.3)]},
    "P11": {"worlds": [("response_sent", J3, 6), ("long_sent", N1, 1), ("rpc_raw_client", N1, 0.3)]},
    "P12": {"worlds": [("pipe_fifo", N1, 2), ("pipe_close", N1, 2), ("pipe_sessions", N1, 1), ("long_pipe", N1, 0.6)]},
    "P13": {"worlds": [("future_waits", N1, 3), ("future_session", J3, 2), ("long_future", N1, 0.5), ("rpc_two_sessions", N1, 0.3)]},
    "P14": {"worlds": [("tcp_streams", N1, 2), ("tcp_breaks", N1, 2), ("net_sessions", N1, 1), ("long_tcp", N1, 0.5), ("server_serves", N1, 0.3)]},
    "P15": {"worlds": [("net_close", N1, 3), ("net_sessions", N1, 2), ("tcp_breaks", N1, 1), ("server_life", N1, 0.4), ("connect_outcome", N1, 0.3)]},
    "P16": {"worlds": [("server_life", N1, 3), ("server_serves", N1, 2), ("long_server", N1, 0.3), ("net_sessions", N1, 0.4)]},
    "P17": {"worlds": [("connect_outcome", N1, 5), ("server_serves", N1, 0.3), ("net_sessions", N1, 0.3)]},
    "P18": {"worlds": [("file_session", N1, 2), ("file_write", N1, 2), ("file_close_race", N1, 2), ("long_file", N1, 0.7)]},
    "P19": {"worlds": [("spy_transparent", N1, 1), ("readerwriter_adapter", N1, 1), ("long_spy", N1, 0.2)]},
    "P20": {"worlds": [("types_first_use", N1, 1), ("types_lifetime", N1, 1), ("moved_values", N1, 0.2)]},
    "P21": {"worlds": [("manual_pump", J3, 6), ("long_pump", N1, 0.8)]},
    "P22": {"worlds": [("error_reports", J3, 3), ("failed_requests", J3, 1), ("misuse", N1, 2),
                       ("hostile_json", N1, 0.4), ("rpc_raw_peer", N1, 0.4), ("send_failures", N1, 0.4)]},
    "P23": {"worlds": [("session_chaos", J3, 3), ("misuse", N1, 1), ("rpc_two_sessions", N1, 1),
                       ("wire_frames", N1, 0.4), ("response_sent", N1, 0.4), ("manual_pump", N1, 0.4), ("destroy_anytime", N1, 0.4), ("types_first_use", N1, 0.4)]},
    "P24": {"worlds": [("session_leaks", J3, 3), ("moved_values", J3, 1), ("net_sessions", N1, 1), ("server_life", N1, 1), ("destroy_anytime", N1, 1),
                       ("send_failures", N1, 0.4), ("response_sent", N1, 0.4), ("hostile_json", N1, 0.4), ("manual_pump", N1, 0.4), ("rpc_raw_peer", N1, 0.4), ("connect_outcome", N1, 0.4)]},
    "P25": {"worlds": [("rwmutex_exclusion", N1, 1), ("rwmutex_shared", N1, 1), ("long_rwmutex", N1, 0.2)]},
    "P26": {"worlds": [("chan_fifo", N1, 10), ("long_chan", N1, 1)]},
}
