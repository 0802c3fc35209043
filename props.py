#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json.  `python3 props.py` rewrites both."""
import json, os
VERIF = os.path.dirname(os.path.abspath(__file__))
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mech]}})


S, H, I, F, C, PR = "schedules", "histories", "inputs", "fault_sequences", "configurations", "programs"

p("P01", "Each request gets exactly its own response, exactly once",
  "Every request sent on a session while the connection works completes exactly once, with the response or error that the peer produced for that very request, "
  "no matter how many threads send at once or in which order the peer answers. "
  "Answering a request sends exactly one response that names the request's own sequence number and command. "
  "Duplicate, unsolicited or unknown responses change no other request and are reported as errors.",
  [S, H, I], "all interleavings of concurrent senders, handlers that answer inline, later or from other threads, any answer order, any peer sequence numbers, duplicated and forged responses",
  "The tests send a handful of requests one after the other to a well-behaved peer and never reorder, duplicate or forge responses, nor send from many threads.",
  ["src/session.cpp", "include/dap/session.h", "include/dap/future.h"],
  ["sequence number allocation", "pending-response table", "response routing", "request handler callbacks"])
p("P02", "Outgoing messages are whole frames with unique sequence numbers",
  "The bytes a session writes are always a concatenation of complete frames - a length header naming the exact body size in bytes, then one JSON object - for every message sent, "
  "whichever threads send concurrently and while requests are being answered; no message is lost, repeated or mixed with another. "
  "All messages of a session carry different sequence numbers. "
  "When the writer fails part-way, what was written is a prefix of such a stream.",
  [S, H, F], "all interleavings of senders, responders and event sources, all body sizes and contents, writers that accept slowly, partially or fail at any byte",
  "Tests send from one thread and check the decoded result, not the bytes; interleavings of header and body writes are never provoked.",
  ["src/session.cpp", "src/content_stream.cpp"], ["send lock", "content framing", "sequence counter"])
p("P03", "Messages are dispatched once each, in arrival order, one at a time",
  "Incoming requests and events reach their handlers exactly once each, in the order in which they arrived, never two at the same time, and carrying the arrived content. "
  "A handler may itself send requests and wait for their responses, and local threads may send at any time, without stalling the session.",
  [S, H], "all arrival patterns, handler durations, nested requests from handlers and concurrent local sends",
  "Tests dispatch a few messages with instantaneous handlers; overtaking, double dispatch and the blocking of response delivery by a waiting handler need particular schedules.",
  ["src/session.cpp", "src/chan.h"], ["receive thread", "inbox channel", "dispatch thread"])
p("P04", "Every protocol value arrives exactly as it was sent",
  "For every message type of the protocol, each field that the sender set arrives at the receiving handler or future with the same value, and each optional field that it left unset arrives unset: "
  "booleans, integers, numbers, strings of any bytes that JSON can carry, arrays, objects, nested structures, variants and dynamically typed values, success bodies and error messages of any length. "
  "On the wire each field has its name of the Debug Adapter Protocol. "
  "This holds for each of the three JSON back ends, also when sessions with different traffic run at the same time.",
  [I, C, S], "all values of all request, response and event types, all three JSON libraries, concurrent sessions",
  "Tests round-trip a few hand-written values of a few types.",
  ["src/protocol_types.cpp", "src/protocol_requests.cpp", "src/protocol_response.cpp", "src/protocol_events.cpp", "src/nlohmann_json_serializer.cpp", "src/rapid_json_serializer.cpp", "src/jsoncpp_json_serializer.cpp", "src/typeof.cpp", "include/dap/typeof.h", "include/dap/serialization.h", "include/dap/any.h", "include/dap/variant.h", "include/dap/optional.h"],
  ["field tables", "JSON serializer and deserializer", "any/variant/optional conversions", "error message construction"])
p("P05", "Messages survive any segmentation of the byte stream",
  "However the bytes of well-formed messages are split into reads - down to single bytes, across header and body boundaries, several messages at once, with any delay between the pieces - "
  "each message is delivered exactly once, unchanged and in order, as soon as its last byte has arrived and without needing any later byte.",
  [I, H, F], "all segmentations and delays, all body sizes around internal buffer sizes, all legal header spellings",
  "Tests use whole-message reads and a single fixed short-read reader.",
  ["src/content_stream.cpp", "src/session.cpp"], ["buffering", "header matching", "exact-length body read"])
p("P06", "Invalid stream data is skipped or closes the stream, as configured",
  "With the ignore policy, bytes that are not a valid frame are skipped and every later complete valid message is still delivered. "
  "With the close policy, the first invalid header closes the reader: nothing after it is delivered, everything before it is, and the session is told of the end. "
  "Neither policy ever delivers a message that was not in the stream.",
  [I, H, C], "all garbage placed between, before and after frames, both policies, any segmentation",
  "Tests check a few fixed garbage strings against the frame reader alone.",
  ["src/content_stream.cpp", "src/session.cpp"], ["header scan", "invalid-data policy"])
p("P07", "Hostile or malformed peers cannot crash, wedge or corrupt a session",
  "Whatever bytes a peer sends in well-framed bodies - malformed JSON, wrong types, missing, null or extra fields, huge or negative numbers, odd strings - the session does not crash, abort, hang or touch memory it does not own, "
  "runs no handler for a message it could not decode, and goes on to serve every following valid message.",
  [I, H], "all bodies: mutations of valid messages, random JSON values in every position, raw garbage, for each JSON back end",
  "Tests feed only well-formed messages to sessions.",
  ["src/session.cpp", "src/nlohmann_json_serializer.cpp", "src/rapid_json_serializer.cpp", "src/jsoncpp_json_serializer.cpp"],
  ["message decoding", "type-checked field access", "error reporting"])
p("P08", "The close handler runs exactly once, when the connection ends",
  "When the incoming stream ends, for whatever reason and at whatever byte, the close handler given at bind time runs exactly once, promptly, and after every complete message that preceded the end has been taken over for dispatch. "
  "It never runs while the connection is alive.",
  [S, F, H], "peer close, end of stream, reset, local close, invalid data and session destruction, at every byte position and interleaving",
  "Tests close once, at a quiet moment.",
  ["src/session.cpp", "src/content_stream.cpp"], ["receive loop", "end-of-stream detection", "close callback"])
p("P09", "A session can be destroyed at any moment",
  "Destroying a session at any moment - while messages arrive, are dispatched or are sent, whether or not it was ever bound - returns in bounded time with its threads ended, closes its streams, "
  "runs no handler afterwards, and touches no memory that has been released.",
  [S, H], "all moments of destruction relative to receiving, dispatching, handler execution and peer activity",
  "Tests destroy sessions only after the traffic has ended.",
  ["src/session.cpp", "src/chan.h"], ["destructor order", "inbox close", "thread joins"])
p("P10", "Sends on a dead connection fail cleanly",
  "Sending on a session that is unbound, whose writer is closed, or whose writer fails, or sending a value that cannot be serialized, returns in bounded time without crashing; a request then yields a future that is ready with an error, "
  "and is never reported as sent. "
  "Failures on one message leave no lock held and no state that affects a later valid exchange.",
  [S, F, H], "all moments at which the writer closes or fails relative to concurrent sends",
  "The tests do not send over failing streams, and only once over a closed one.",
  ["src/session.cpp", "src/content_stream.cpp", "include/dap/session.h"], ["writer-open check", "send result propagation", "failed-send future"])
p("P11", "The response-sent handler runs once per response, after it was sent",
  "For each response sent, the handler registered for its type runs exactly once, after the response's bytes have been passed to the writer, and receives exactly the response or error that was sent. "
  "It is not run for other response types.",
  [S, H], "all orders and threads of answering, success and error, several response types, slow writers",
  "Tests check one response in one order.",
  ["src/session.cpp", "include/dap/session.h"], ["response-sent handler table", "call after send"])
p("P12", "The in-memory pipe is a lossless FIFO with clean close",
  "Bytes written to a pipe are read in order, each exactly once, with no loss or duplication, for any sizes and any number of writing threads, and each write stays contiguous. "
  "A read blocks until there is data or the pipe is closed, and never returns more than was asked for. "
  "Closing, also twice, wakes every blocked reader; from then on the pipe reports closed, reads return nothing and writes fail.",
  [S, I, H], "all read and write sizes, all interleavings of readers, writers and close",
  "Tests write then read from one or two threads with a few sizes.",
  ["src/io.cpp"], ["pipe buffer", "condition variable", "close"])
p("P13", "Futures deliver their value exactly, and timed waits keep time",
  "A future becomes ready exactly when its promise is given a value, every wait then returns, and the value obtained is the one given, once. "
  "A timed wait returns ready only if the value is there and returns timeout only after its full time has passed, regardless of spurious wake-ups; waits that were pending when the value is set return.",
  [S, H], "all interleavings of setting and waiting, all timeouts, spurious wake-ups, clock jumps for steady waits",
  "Tests set the value before or well after waiting.",
  ["include/dap/future.h"], ["shared state mutex and condition variable", "wait predicates"])
p("P14", "TCP connections carry bytes intact and in order",
  "Bytes written on one end of a network connection are read on the other end in order, each once and unchanged, for all sizes, through partial and interrupted system calls, full buffers and delays. "
  "A write reports success only if all its bytes were handed over. "
  "If the connection breaks, what was read is a prefix of what was written, and both ends observe the end.",
  [F, S, I], "all short, interrupted and blocked socket calls, resets and closes at any byte, concurrent connections",
  "Loopback tests move a few small buffers and never see short or interrupted calls.",
  ["src/socket.cpp", "src/network.cpp"], ["send loop", "receive", "error mapping"])
p("P15", "Closing a connection unblocks everyone and releases everything",
  "Closing a connection, from any thread and at any moment, makes reads and writes blocked on it return, after which it is closed for good; closing twice is harmless. "
  "Descriptors are closed exactly once and none is used after it was closed, none is left open when all owners are gone, and a vanished peer never kills the process with a signal.",
  [S, F, H], "all interleavings of close with blocked or starting reads, writes and state queries, resets from the peer",
  "Tests close idle or just-blocked sockets once.",
  ["src/socket.cpp", "src/network.cpp"], ["socket state lock", "shutdown and close", "descriptor ownership"])
p("P16", "A server serves every client and stops cleanly",
  "While a server runs, every client that connects is handed to the connect callback exactly once with its own connection, through interrupted and aborted accepts. "
  "Starting reports failure exactly when the port cannot be used; stop, restart and destruction at any moment return in bounded time, after which no callback runs and the port is free.",
  [S, F, H], "all interleavings of start, stop, restart, destruction and clients connecting; failing socket calls",
  "Tests start one server, connect one client and stop.",
  ["src/network.cpp", "src/socket.cpp"], ["accept loop", "stop protocol", "bind and listen"])
p("P17", "Connecting succeeds, fails or times out correctly",
  "Connecting to a listening server returns a working connection; to a refusing, unreachable or unresolvable one returns nothing. "
  "With a timeout, it returns within that time plus scheduling delay, does not give up before it while the server may still answer, and leaves no descriptor or blocking mode behind.",
  [F, S, C], "all delays and outcomes of the handshake relative to the timeout, interrupted waits, large descriptor numbers",
  "Tests connect on the loopback where the answer is immediate.",
  ["src/socket.cpp", "src/network.cpp"], ["non-blocking connect", "wait with timeout", "error query"])
p("P18", "File streams carry every byte and close safely",
  "A session over files, such as standard input and output, exchanges messages intact through short and interrupted reads; each write is flushed and reaches the file whole and unmixed with concurrent writes, or is reported as failed. "
  "Closing waits for operations in progress, closes the underlying file exactly once and only if asked to, and makes later operations fail.",
  [F, S, H], "all short, interrupted and failing reads and writes, full disks, all interleavings with close",
  "Tests write and read one file sequentially.",
  ["src/io.cpp"], ["file reader/writer locks", "short read handling", "flush", "close"])
p("P19", "Spies and adapters are transparent",
  "Reading or writing through a spy behaves exactly as without it - same bytes, same results, same open state, same close - while the log receives, in order and with its prefix, exactly the bytes that passed, whatever the log itself does. "
  "A combined reader-writer passes each operation to the half it belongs to; closing it closes both.",
  [S, F, H], "all sequences of reads, writes, closes and failures of the spied stream and of the log",
  "Tests pass one message through.",
  ["src/io.cpp"], ["reader spy", "writer spy", "reader-writer wrapper"])
p("P20", "Type information is safe to set up and tear down from any thread",
  "Type information of every type can be obtained for the first time from any number of threads at once: each obtains the same complete description and no access races. "
  "Initialising and terminating the library in matched pairs, nested and from several threads, keeps all type information usable, also after the end of main(), until the last termination, which releases all of it exactly once.",
  [S, H], "all interleavings of first uses, initialise and terminate pairs and the end of the process",
  "Tests run single-threaded in one initialise/terminate pair.",
  ["src/typeof.cpp", "src/typeinfo.cpp", "include/dap/typeof.h"], ["type registry", "reference count", "lazy construction"])
p("P21", "Caller-driven message processing loses and repeats nothing",
  "When the caller pulls messages itself, every valid incoming request and event yields one callable that runs its handler exactly once, with the right content, on whichever thread and in whichever order the caller chooses; "
  "responses are delivered while pulling; an empty result is returned once the connection is lost.",
  [S, H], "all thread assignments and orders of running the pulled work, connection loss at any byte",
  "Tests pull and run a few messages in order.",
  ["src/session.cpp"], ["payload construction", "blocking read"])
p("P22", "Protocol and usage errors are reported exactly once and have no effect",
  "Each message that cannot be handled - not a JSON object, unknown type, command, event or response, required fields missing or mistyped - and each misuse - registering a handler twice, connecting or starting twice - "
  "calls the current error handler exactly once with a message naming the offender, never two at a time, and otherwise changes nothing: the first registration and connection stay in force and later traffic works. "
  "Valid traffic, including requests and events that leave out arguments none of which is required, reports no error, and a request that the peer answers with a failure always yields an error.",
  [I, H, S], "all mixes of faulty and valid messages and misuse, error handlers replaced at any time",
  "Tests check the presence of a few error reports.",
  ["src/session.cpp"], ["handler tables", "error reporting"])
p("P23", "A session may be used from many threads at once",
  "Sending, answering, registering handlers and replacing the error handler may happen concurrently from any threads, also while messages arrive: there is no data race, no deadlock, no crash and no lost message.",
  [S, PR], "all interleavings of the public operations of one session",
  "A test run sees a handful of schedules and cannot observe races that did not bite.",
  ["src/session.cpp", "include/dap/session.h", "src/typeof.cpp"], ["handler table mutexes", "send mutex", "atomics"])
p("P24", "Memory, threads and descriptors are all given back",
  "After a session, server, connection, pipe or future is gone, every byte of memory, thread and descriptor it used has been released exactly once, whatever traffic it carried and however it ended, "
  "including messages that were received but never dispatched and requests that were never answered.",
  [S, F, H], "all histories and end points of sessions, connections and servers",
  "Tests run once, at an orderly end, without leak checking.",
  ["src/session.cpp", "src/network.cpp", "src/io.cpp", "src/chan.h", "include/dap/future.h"], ["payload ownership", "thread joins", "reference counts"])
p("P25", "The reader-writer lock excludes writers, admits readers, starves nobody",
  "A writer holding the lock is alone; any number of readers hold it together. "
  "Every request for the lock is granted in bounded time once conflicting holders release it, and what was written under the lock is visible to the next holder.",
  [S, PR], "all interleavings of readers and writers",
  "Tests try a few timings.",
  ["src/rwmutex.h"], ["reader count", "pending writers", "condition variables"])
p("P26", "The channel hands over each item once, in order, and closes cleanly",
  "Items put into a channel are taken exactly once each and in order; a taker blocks while the channel is empty; closing wakes every taker, items still queued can be taken, and then every taker receives the end; no item or wake-up is lost.",
  [S, H], "all interleavings of producers, consumers and close",
  "Tests use one producer and one consumer.",
  ["src/chan.h"], ["queue mutex", "condition variable", "close flag"])

NA = []

NOTE = ("Seeded search: the real library under a simulator that decides every interleaving, clock reading, I/O result and fault; a green run means that no explored execution broke the property. "
        "Trusted: the simulator's models of pthreads, sockets and stdio, and the oracle of each world. Assumes sequentially consistent memory except for reported data races.")


def main():
    import plan
    claimed = [x for x in P if x["id"] in plan.PLAN]
    with open(VERIF + "/properties.jsonl", "w") as f:
        for x in claimed:
            f.write(json.dumps(x) + "\n")
        for x in NA:
            f.write(json.dumps(x[0]) + "\n")
    m = {"version": 1, "setup_cmd": "python3 simbuild.py", "checks": [], "not_applicable": [{"property": x[0]["id"], "reason": x[1]} for x in NA],
         "notes": "No hooks in /repo: instrumentation is added by the compiler and calls are interposed at link time. Replay: python3 check.py replay FILE."}
    for x in claimed:
        m["checks"].append({"property": x["id"], "quick_cmd": "python3 check.py " + x["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + x["id"],
                            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults (" + ", ".join(w for w, _, _ in plan.PLAN[x["id"]]["worlds"]) + ")",
                            "level": "exploration", "level_note": NOTE})
    with open(VERIF + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for x in P:
        assert len(x["title"]) <= 80, x["id"]


if __name__ == "__main__":
    main()
