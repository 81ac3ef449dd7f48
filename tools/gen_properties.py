#!/usr/bin/env python3
"""Writes properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})
D = "dataplicity/"
M = D + "m2m/"
p("C01", "Bencode encoding is canonical and lossless",
  "For every value built from integers (booleans count as the integers they are), byte strings, text, lists, tuples and dictionaries with byte-string keys, encoding yields exactly the canonical bencode bytes (decimal integers, length-prefixed strings with text as UTF-8, dictionary entries in ascending key order). Decoding those bytes, whatever bytes follow them, gives the value back (text as its UTF-8 bytes, tuples as lists) and consumes exactly the encoding. A value outside this domain, at any nesting depth, is refused with an exception and never turned into bytes.",
  ["inputs"], "all values of any nesting, size and content",
  "tests check 13 literal values; nesting, key order, lengths and trailing data range over an infinite domain",
  [M + "bencode.py"], [("encode/add_encode", M + "bencode.py:60"), ("_decode", M + "bencode.py:104")], observe=["encode", "decode"])
p("C02", "Decoding untrusted bytes terminates with a value or a decode error",
  "For every byte string, bencode decoding terminates after reading each input byte at most once and either returns a value made only of integers, byte strings, lists and dictionaries, or raises the module's decode error; no other exception escapes (nesting deeper than the interpreter's recursion limit excepted). A string whose declared length exceeds the remaining input, or whose length field is not a plain decimal number, is rejected rather than returned shortened.",
  ["inputs"], "all byte strings, including truncated and malicious ones",
  "tests decode eight literals; a hang or stray exception needs malformed input nobody sampled",
  [M + "bencode.py"], [("_decode loops", M + "bencode.py:104"), ("decode", M + "bencode.py:98")], observe=["decode"])
p("C03", "Packets survive the wire and malformed packets are refused",
  "For every packet type and all field values of the declared types, a packet built from those values and encoded to bytes parses back to a packet of the same type with the same values, and the bytes are the bencoding of the type code followed by the fields in protocol order. Building a packet with a missing or wrongly typed field fails with a packet format error. Parsing arbitrary bytes either yields a packet whose fields all have their declared types or raises a packet error.",
  ["inputs"], "all packet types, all field values, all byte strings given to the parser",
  "tests build three packet types; most of the 45 types and all malformed shapes are never exercised",
  [M + "packetbase.py", M + "packets.py"], [("init_params/encode/from_bytes/from_body/create", M + "packetbase.py"), ("attribute tables", M + "packets.py")])
p("C04", "An incoming packet reaches exactly its handler with its own fields",
  "A packet received from the server invokes exactly the handler declared for its type code, once, with the packet's fields bound to the handler's parameters in protocol order. A packet with an unknown code, without a handler, or with missing or wrongly typed fields invokes no handler and changes no channel state. The type codes and field order of every packet are those of the m2m protocol.",
  ["inputs"], "all decoded messages, of any shape and field values",
  "no test dispatches a packet at all; field/parameter misbinding shows only for particular types",
  [M + "dispatcher.py", M + "wsclient.py", M + "packetbase.py", M + "packets.py"], [("dispatch/dispatch_packet", M + "dispatcher.py:72"), ("on_packet", M + "wsclient.py:321")])
p("C05", "No incoming message or handler failure ends the connection loop",
  "Whatever bytes arrive in a message, and whatever exception is raised while it is handled, the connection loop goes on to process every following event in order; only the event source ending, an exit request, or a failure of the event source itself ends it. When the loop ends for any of these reasons, every open channel is closed and the connection thread finishes without an escaping exception.",
  ["inputs", "fault_sequences"], "all event sequences and all exceptions raised by handlers at any event",
  "no test drives the event loop",
  [M + "wsclient.py"], [("run/on_event/on_binary/on_packet", M + "wsclient.py:249")])
p("C06", "A channel delivers received bytes exactly once and in order",
  "For any sequence of received chunks and reads, on any interleaving of the receiving and the reading thread, the bytes returned by reads followed by the bytes still buffered equal the received bytes in order, with nothing lost, duplicated or reordered. A read of n returns exactly min(n, buffered) bytes, the reported size is the number of buffered bytes, and the readable flag is set exactly when something is buffered.",
  ["inputs", "histories", "schedules"], "all chunkings, read sizes and lock-level interleavings",
  "one test reads 6+1 bytes from a single chunk; partial reads across chunks and interleavings are not sampled",
  [M + "wsclient.py"], [("Channel.on_data/read/size", M + "wsclient.py:92")], [("deque", "buffered chunks", M + "wsclient.py:62")])
p("C07", "Channels are isolated and close exactly once",
  "Data, control and close notices for a channel number affect only that channel, and a channel's close callback runs at most once, without its exceptions escaping. After a channel is closed nothing is delivered to its callbacks or written to the server from it, and closing it again sends nothing. After a close notice or a lost connection the channels concerned are closed and forgotten, so their numbers later name fresh, open channels; every response callback is invoked exactly once.",
  ["inputs", "histories"], "all packet histories over any set of channel numbers",
  "tests drive single Channel objects with a fake client; the channel table, disconnects and number reuse are untested",
  [M + "wsclient.py"], [("Channel", M + "wsclient.py:50"), ("channel table", M + "wsclient.py:217"), ("callbacks", M + "wsclient.py:192")])
p("C08", "The session handshake and identity association follow the protocol",
  "When the connection becomes ready the agent sends exactly one packet: an identify request carrying its identity if it has one, otherwise a join request. A ping is answered by exactly one pong carrying the first 1024 bytes of the ping's data. An identity assigned by the server is reported to the API until the API acknowledges both authentication and association, is then not reported again until it changes, and losing the connection forgets it.",
  ["inputs", "histories", "fault_sequences"], "all identities and ping payloads, all sequences of API failures and polls",
  "no test covers the handshake or the retry of the association",
  [M + "wsclient.py", D + "m2mmanager.py", D + "client.py"], [("on_ready/handle_ping/handle_set_identity/sync_identity", M + "wsclient.py"), ("set_identity", D + "m2mmanager.py:118"), ("set_m2m_identity", D + "client.py:312")])
p("C09", "A limiter never exceeds its limit or goes below zero under any interleaving",
  "However many threads take and release slots, the number of slots in use always stays between zero and the limit. Taking a slot succeeds exactly when one is free and otherwise fails with the limit error leaving the count unchanged; releasing with none in use fails and leaves the count unchanged. Guarded start-up code that fails gives its slot back, and start-up code that succeeds keeps exactly one.",
  ["schedules", "histories"], "all interleavings at lock granularity, all call histories",
  "the limiter has no test; a race needs a schedule no unit test produces",
  [D + "limiter.py"], [("increment/decrement/limiter_context", D + "limiter.py")], [("_value", "slots in use", D + "limiter.py:53")])
p("C10", "Every service slot taken is released exactly once and refusals are reported",
  "A file, command, port-forward or terminal service whose thread starts releases its slot exactly once, when its work ends, however it ends; one that cannot start (limit reached or no thread available) holds no slot afterwards. In the latter case the remote end is told (a busy notice on file and port-forward channels, an error control message for commands, a launch failure text for terminals) and its channel is closed, and no exception escapes to the caller.",
  ["fault_sequences", "inputs"], "every failure point of start-up and of the service's own work",
  "no test starts a service against an exhausted limiter or makes a service's work fail",
  [D + "limiter.py", M + "fileservice.py", M + "commandservice.py", M + "remoteprocess.py", D + "m2mmanager.py", D + "portforward.py"],
  [("with limiter()", D + "portforward.py:285"), ("run_service finally", M + "fileservice.py:66"), ("Terminal.launch", D + "m2mmanager.py:43")])
p("C11", "A port-forward tunnel carries bytes intact in both directions",
  "Bytes arriving on the channel, before or after the local connection is established, are sent to the local socket exactly once and in arrival order. Bytes received from the local socket are written to the channel exactly once and in order until the tunnel ends. This holds for every chunking and every interleaving of the channel thread and the tunnel thread at lock granularity.",
  ["inputs", "schedules", "histories"], "all chunkings, sizes, connect timings and lock-level interleavings",
  "tests patch the connection thread out; no byte is ever forwarded",
  [D + "portforward.py"], [("_run/_flush_buffer/on_channel_data/_connect", D + "portforward.py:63")], [("read_buffer", "bytes received before connect", D + "portforward.py:43")])
p("C12", "Port-forward tunnels reach only the requested local port and end independently",
  "A tunnel connects only to the loopback address, to the port registered under the requested service name or to the explicitly requested device port; an unknown name opens nothing and a request without name and port is refused. When the local end closes, fails or cannot be reached, that tunnel's loop ends and its channel is closed whatever fails meanwhile, and no other tunnel is affected.",
  ["inputs", "fault_sequences", "histories"], "all names, ports, socket events and failures",
  "tests check only that a patched connect method is called",
  [D + "portforward.py", D + "m2mmanager.py"], [("Service/PortForwardManager", D + "portforward.py:210"), ("_run", D + "portforward.py:63")])
p("C13", "The file service streams exactly the requested file",
  "For a readable file, the concatenation of the chunks written to the channel is the file's content from the start, in order and complete unless the channel is closed meanwhile, in chunks of at most 1 MiB; the path is taken from the root directory. If the file cannot be opened or read an error control message is sent. On every path the channel is closed exactly once, after everything else.",
  ["inputs", "fault_sequences"], "all paths, file sizes, short reads and failures at any read or write",
  "the file service has no test",
  [M + "fileservice.py"], [("_run_service", M + "fileservice.py:79")])
p("C14", "The command service forwards all of a command's output and always finishes",
  "The bytes written to the channel are exactly the command's standard output, in order and complete up to its end of file, unless the channel is closed meanwhile; standard error is never forwarded. When output ends, including by a hang-up with no further data, the service stops; on every path, also when the command cannot be launched, it sends a control message about the outcome, closes the channel, and leaves no process of its own running unsignalled.",
  ["inputs", "fault_sequences", "schedules"], "all commands, output chunkings, poll event combinations and failures",
  "the command service has no test",
  [M + "commandservice.py"], [("_run_service", M + "commandservice.py:65")])
p("C15", "Terminal input, output and size are passed through unchanged",
  "Every byte the remote user sends to a running terminal is written to it in order and completely, however the system splits the writes; every byte read from the terminal is written to the channel in order, and nothing else is. A terminal starts at 80 columns by 24 rows unless told otherwise, and a resize request for c columns and r rows sets exactly c columns and r rows; every other control message, well formed or not, changes nothing.",
  ["inputs", "fault_sequences"], "all data, all partial-write patterns, all control messages",
  "the terminal code has no test",
  [M + "proxy.py", M + "remoteprocess.py"], [("write_master/_copy/_set_pty_size", M + "proxy.py"), ("on_data/on_control/master_read", M + "remoteprocess.py")])
p("C16", "Closing a terminal signals its process once and never signals a reaped pid",
  "Closing a running terminal, however often and through whichever path, sends its process exactly one hang-up and starts exactly one waiter; a terminal that has no process is never signalled. The waiter sends at most one kill, only to that process, only after at least 15 seconds and only while the process has not been reaped, and stops once it has been. Shutting a terminal down closes each of its processes even if closing one fails.",
  ["histories", "fault_sequences", "inputs"], "all wait results, clock readings and failure points",
  "no test closes a terminal process",
  [M + "remoteprocess.py", D + "m2mmanager.py"], [("close/PidWaitThread.run", M + "remoteprocess.py:20"), ("Terminal.close", D + "m2mmanager.py:78")])
p("C17", "Remote reads never leave the remote directory or the snapshot area",
  "Whatever path and upload id the server sends, opening a remote file reads only a path inside the configured remote directory (or the published scan file) and copies it only to a file directly inside the agent's snapshot directory; reading and closing an upload touch only such snapshot files. Any other path or id is refused before any file is read, written or removed. (Lexical containment: symbolic links inside the remote directory are followed.)",
  ["inputs"], "all byte strings as path and upload id",
  "no test touches the remote directory; escapes need crafted paths",
  [D + "remote_directory.py"], [("add_upload/get_snapshot_path/read_upload/close_upload/validate_path", D + "remote_directory.py")])
p("C18", "Remote writes stay in the download area and never overwrite a file",
  "Whatever id, destination path and device path the server sends, received data is written only to a file directly inside the agent's download directory, only such a file is removed after a failed write, and a finished download is moved only to a path inside the configured remote directory. The destination of the move is a path found not to exist: the requested name or, when taken, a numbered variation of it; after 100 taken variations the download is refused.",
  ["inputs", "histories"], "all byte strings for id, path and device path, all existing-file patterns",
  "no test covers remote writes; escapes need crafted paths",
  [D + "remote_directory.py"], [("on_write_remote_file/add_download/copy_download", D + "remote_directory.py")])
p("C19", "Every remote file request gets exactly one truthful reply",
  "Each open, read and write request for a remote file is answered by exactly one result packet carrying the request's id, and no exception escapes. Success is reported only if the operation took place: for open the snapshot's size, for read the snapshot bytes found at the requested offset, at most the requested (non-negative) size, for write the position after the data, the data having been stored at the requested offset and, if final, moved in place. Every failure is reported as a failure with its stage code.",
  ["inputs", "fault_sequences"], "all request fields, every failure point of the file operations",
  "no test covers remote file requests",
  [D + "remote_directory.py", M + "wsclient.py"], [("on_open_remote_file/on_read_remote_file/on_write_remote_file", D + "remote_directory.py")])
p("C20", "A directory scan lists exactly what is visible, once, within its depth limit",
  "A scan of any directory tree, including one with link cycles and with entries failing at any point, lists under each scanned directory exactly its non-hidden files (with size, or -1 when sizes are off or unknown) and its non-hidden sub-directories within the depth limit that were not listed before, each once. No hidden entry is listed or entered, no directory is entered twice, and nothing deeper than the depth limit is entered.",
  ["inputs", "fault_sequences"], "all directory trees, depth limits and failures of individual entries",
  "the scanner has no test",
  [D + "scan_directory.py"], [("scan_directory", D + "scan_directory.py:70")])
p("C21", "Scan success is announced only after the scan was written completely",
  "The success callback of a scan runs at most once and only after the complete JSON of that scan was written to the published scan file; a scan or write failure never leads to it. Two scans never run at the same time, and a failing callback does not disturb the scanner.",
  ["fault_sequences", "schedules"], "every failure point of scan and write, all lock-level interleavings",
  "the scanner has no test",
  [D + "directory_scanner.py", M + "wsclient.py"], [("_perform_scan/perform_scan/write_scan", D + "directory_scanner.py")])
p("C22", "A JSON-RPC result is returned only for the matching successful response",
  "A call returns a value only if the server's reply is a JSON-RPC 2.0 response carrying that call's id and no error, and then returns that reply's result; a batch returns for an id only the result of a reply carrying that id without error. Every other outcome is raised as an exception: an unreachable server as such, an error reply as a remote error (generic or method specific, by code) carrying the method, code, data and message. Ids of a batch's calls are unique, and leaving the context of a batch sends it once if it was not sent before, and not at all if it was abandoned or building it failed. (An error reply here has an error object whose code is an integer, text or absent.)",
  ["inputs", "fault_sequences"], "all server replies of any JSON shape and all transport failures",
  "tests use eight canned replies",
  [D + "jsonrpc.py"], [("call/_handle_error/Batch.send/get_result/check", D + "jsonrpc.py")])
p("C23", "Periodic sync retries until acknowledged, never repeats, and never dies",
  "A poll never lets an exception escape, whichever of its steps fails, and performs all of its steps. Device information is sent on each sync until the server acknowledged all of it and never again afterwards; tags are sent exactly when they differ from the last acknowledged ones; disk figures are sent at most once per hour. Every batch to the server starts with this device's own credentials, and the agent polls until asked to exit and then always shuts down.",
  ["histories", "fault_sequences"], "all sequences of polls, clock readings, server replies and failures",
  "tests cover one failing sync and one (networked) disk poll",
  [D + "client.py"], [("poll/disk_poll/tag_poll/_sync/_check_meta/run_forever", D + "client.py")])
p("C24", "Each instruction triggers exactly the requested action with its own parameters",
  "An instruction from the server starts exactly the one action it names, on the channel, path, command, service or port it names, and any other instruction starts nothing. An instruction that lacks a field it needs, or whose route does not have four elements, starts nothing, and no failure escapes the packet handler.",
  ["inputs"], "all instruction dictionaries",
  "one test sends one well-formed instruction",
  [D + "m2mmanager.py", M + "wsclient.py"], [("on_instruction", D + "m2mmanager.py:144"), ("on_instruction_packet", M + "wsclient.py")])
p("C25", "Passwords never appear in printed or logged packets",
  "The printable form of any packet, and the text of any error raised while building one from valid values (bytes, numbers, valid text, lists), does not depend on the value of a password field, and shows at most 32 bytes of any byte-string field. What is logged while a packet is sent or received does not depend on the value of a password field either.",
  ["inputs"], "all packet types and field values",
  "tests print one packet without a password; independence is a statement about pairs of runs",
  [M + "packetbase.py", M + "wsclient.py", M + "dispatcher.py"], [("__repr__/summarize", M + "packetbase.py:54")])
p("C26", "Reported device facts are computed correctly",
  "Reported disk capacity and usage are the file system's total and total-minus-free bytes, free is what users may still use, and the percentage is the share of used in used plus free to one decimal, between 0 and 100, and 0 for an empty file system. Reported tags are exactly the non-empty pieces of the tag script's output between commas and white space, in order, each cut to 25 characters; a missing or unstartable script means no tags, and a failing one an error. The reported machine revision is the first revision value in the processor information, in lower case, or none.",
  ["inputs", "fault_sequences"], "all file system statistics, script outputs and processor information contents",
  "tests check one disk, one cpuinfo and no tag script",
  [D + "disk_tools.py", D + "tags.py", D + "rpi.py"], [("disk_usage/usage_percent", D + "disk_tools.py"), ("get_tag_list", D + "tags.py"), ("get_machine_revision", D + "rpi.py")])
p("C27", "The command line reports success and failure faithfully",
  "The process exit status is zero only if the selected sub-command finished without an error; a missing sub-command gives a non-zero status, and an unhandled exception gives one with a message on standard error, except that in debug mode the exception is passed on. An invalid log level is reported as such and ends the program with a non-zero status.",
  ["inputs", "fault_sequences"], "all argument combinations, all sub-command outcomes",
  "tests run the two sub-commands directly and never the command line itself",
  [D + "app.py"], [("App.run/_init_logging/main", D + "app.py")])
ONLY = os.environ.get("ONLY")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
