"""The m2m protocol: every packet's code and its fields in order (i integer, b bytes, d dictionary, l list).  This is the
specification the code is checked against; it is written down here and not read from the code."""
PACKETS = {
    "null": (0, ""), "request_join": (1, ""), "request_identify": (2, "uuid:b"), "welcome": (3, ""), "log": (4, "text:b"),
    "request_send": (5, "channel:i data:b"), "route": (6, "channel:i data:b"), "ping": (7, "data:b"), "pong": (8, "data:b"), "set_identity": (9, "uuid:b"),
    "request_close": (11, "port:i"), "keep_alive": (13, ""), "notify_open": (14, "channel:i"), "request_login": (15, "username:b password:b"),
    "instruction": (16, "sender:b data:d"), "notify_login_success": (17, "user:b"), "notify_login_fail": (18, "message:b"), "notify_close": (19, "port:i"),
    "request_leave": (20, ""), "route_control": (21, "channel:i data:b"), "request_send_control": (22, "channel:i data:b"),
    "open_remote_file": (24, "upload_id:b path:b"), "open_remote_file_result": (25, "upload_id:b size:i fail:i fail_reason:b"),
    "close_remote_file": (26, "upload_id:b"), "read_remote_file": (27, "upload_id:b offset:i size:i"),
    "read_remote_file_result": (28, "upload_id:b offset:i size:i data:b fail:i fail_reason:b"), "scan_remote_directory": (29, ""),
    "scan_remote_directory_result": (30, "error:b"), "write_remote_file": (31, "id:b path:b device_path:b offset:i data:b final:i"),
    "write_remote_file_result": (32, "id:b position:i chunk_size:i device_path:b fail:i fail_reason:b"), "response": (100, "command_id:i result:d"),
    "command_add_route": (101, "command_id:i node1:b port1:i node2:b port2:i requester:b forwarded:i"),
    "command_send_instruction": (102, "command_id:i node:b data:d"), "command_log": (103, "command_id:i node:b text:b"),
    "command_broadcast_log": (104, "command_id:i text:b"), "command_set_name": (106, "command_id:i node:b name:b"),
    "command_check_nodes": (107, "command_id:i nodes:l"), "command_get_identities": (108, "command_id:i nodes:l"),
    "command_set_auth": (109, "command_id:i expire:i value:b"), "command_set_meta": (110, "command_id:i requester:b node:b key:b value:b"),
    "command_get_meta": (111, "command_id:i requester:b node:b"),
    "peer_add_route": (200, "command_id:i requester:b node1:b port1:i node2:b port2:i"), "peer_forward": (201, "recipient:b packet:b"),
    "peer_notify_disconnect": (202, "node:b"), "peer_notify_name": (203, "node:b name:b"), "peer_close_port": (204, "node:b port:i"),
}
PACKETS = {n: (c, [tuple(x.split(":")) for x in f.split()]) for n, (c, f) in PACKETS.items()}
# codes the protocol names without a packet of their own here
OTHER_CODES = {"request_open": 10, "request_close_all": 12}
# packets the server sends to an agent and that the agent acts on
INCOMING = ["null", "welcome", "log", "route", "ping", "set_identity", "notify_open", "instruction", "notify_login_success", "notify_close", "route_control",
            "open_remote_file", "close_remote_file", "read_remote_file", "scan_remote_directory", "write_remote_file", "response"]
