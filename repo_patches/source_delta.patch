From fe1471bb032577ef5a2e2d34b1b467e24cb0716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 01/17] fix: bencode decode hangs or leaks other errors on
 truncated or malformed input

---
 dataplicity/m2m/bencode.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/dataplicity/m2m/bencode.py b/dataplicity/m2m/bencode.py
index 539b031..3c82f34 100644
--- a/dataplicity/m2m/bencode.py
+++ b/dataplicity/m2m/bencode.py
@@ -99,7 +99,10 @@ def encode(obj):
 def decode(data):
     """Decode Bencode, return an object."""
     assert isinstance(data, bytes), "decode takes bytes"
-    return _decode(io.BytesIO(data).read)
+    obj = _decode(io.BytesIO(data).read)
+    if obj is None:
+        raise DecodeError("unexpected end marker")
+    return obj
 
 
 def _decode(read):
@@ -119,7 +122,10 @@ def _decode(read):
                     raise DecodeError("illegal digit in size")
                 break
             number_bytes += c
-        number = int(number_bytes)
+        try:
+            number = int(number_bytes)
+        except ValueError:
+            raise DecodeError("invalid integer")
         return number
     elif obj_type == b"l":
         l = []
@@ -136,14 +142,29 @@ def _decode(read):
             if k is None:
                 break
             v = _decode(read)
+            if v is None:
+                raise DecodeError("missing value in dict")
             kv.append((k, v))
-        return dict(kv)
+        try:
+            return dict(kv)
+        except TypeError:
+            raise DecodeError("illegal dict key")
     else:
+        if not obj_type.isdigit():
+            raise DecodeError("illegal digit in size")
         size_bytes = obj_type
         while 1:
             c = read(1)
             if c == b":":
                 break
+            if not c.isdigit():
+                raise DecodeError("illegal digit in size")
             size_bytes += c
-        size = int(size_bytes)
-        return read(size)
+        try:
+            size = int(size_bytes)
+            obj = read(size)
+        except (ValueError, OverflowError):
+            raise DecodeError("invalid size")
+        if len(obj) != size:
+            raise DecodeError("unexpected end of data")
+        return obj
-- 
2.43.0


From cce3f148f5d119d28fb5fd0894e402bf8e350378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 02/17] fix: empty packet raises IndexError instead of a packet
 format error

---
 dataplicity/m2m/packetbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataplicity/m2m/packetbase.py b/dataplicity/m2m/packetbase.py
index 0afe202..85d40e7 100644
--- a/dataplicity/m2m/packetbase.py
+++ b/dataplicity/m2m/packetbase.py
@@ -95,6 +95,8 @@ class PacketBaseType(object):
 
         if not isinstance(packet_data, list):
             raise PacketFormatError("packet must be a list")
+        if not packet_data:
+            raise PacketFormatError("packet must not be empty")
         packet_type = packet_data[0]
         if not isinstance(packet_type, int_types):
             raise PacketFormatError("first value must be an integer")
-- 
2.43.0


From b9948e582288b6d0d071babe62c3fd8698231f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 03/17] fix: command service never ends after its command, nor
 closes the channel of one that cannot start

---
 dataplicity/m2m/commandservice.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dataplicity/m2m/commandservice.py b/dataplicity/m2m/commandservice.py
index b25badd..3c9cb66 100644
--- a/dataplicity/m2m/commandservice.py
+++ b/dataplicity/m2m/commandservice.py
@@ -66,9 +66,15 @@ class CommandService(threading.Thread):
     def _run_service(self, channel, command):
         """Run command and send stdout over m2m."""
         log.debug("%r started", self)
-        process = subprocess.Popen(
-            command, stdout=subprocess.PIPE, stderr=subprocess.PIPE, shell=True
-        )
+        try:
+            process = subprocess.Popen(
+                command, stdout=subprocess.PIPE, stderr=subprocess.PIPE, shell=True
+            )
+        except Exception as error:
+            log.warning("%r unable to run command; %s", self, error)
+            self.send_error(channel, "error", "error running command")
+            channel.close()
+            return
         bytes_sent = 0
         stdout_fh = process.stdout.fileno()
         stderr_fh = process.stderr.fileno()
@@ -89,7 +95,8 @@ class CommandService(threading.Thread):
                     break
 
                 for _file_descriptor, event_mask in poll_result:
-                    if event_mask & readable_events:
+                    # A hang up may leave data to read, and is followed by EOF
+                    if event_mask & events:
                         if _file_descriptor == stdout_fh:
                             chunk = os.read(stdout_fh, CHUNK_SIZE)
                             if not chunk:
@@ -100,9 +107,10 @@ class CommandService(threading.Thread):
                             bytes_sent += len(chunk)
                         else:
                             chunk = os.read(stderr_fh, CHUNK_SIZE)
+                            if not chunk:
+                                poll.unregister(stderr_fh)
+                                continue
                             log.debug("%r [stderr] %r", self, chunk)
-                    if event_mask & error_events:
-                        break
                 if channel.is_closed:
                     log.debug("%r channel closed", self)
                     break
-- 
2.43.0


From 72b403b2241723024c434be0ad796dcc65f8f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 04/17] fix: port forward loop spins after local end of file,
 and one error ends every tunnel

---
 dataplicity/portforward.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index fbb6996..2d5b636 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -73,7 +73,8 @@ class Connection(threading.Thread):
 
             log.debug("entered recv loop")
             # Read all the data we can and write it to the channel
-            while not self.close_event.is_set():
+            is_open = True
+            while is_open and not self.close_event.is_set():
                 # Block for a period of time until the socket becomes readable,
                 # or there is an error
                 try:
@@ -91,6 +92,7 @@ class Connection(threading.Thread):
                             data = self.socket.recv(CHUNK_SIZE)
                         except Exception:
                             log.exception("error in recv")
+                            is_open = False
                             break
                         else:
                             if data:
@@ -98,14 +100,15 @@ class Connection(threading.Thread):
                                 bytes_written += len(data)
                             else:
                                 # No data means the socket has been closed
+                                is_open = False
                                 break
-                    if event_mask & error_events:
+                    elif event_mask & error_events:
                         # Socket has been closed in another thread, possibly due to
                         # m2m channel closing
-                        self.close_event.set()
+                        is_open = False
         finally:
-
-            speed = bytes_written / 1024.0 / (time() - self._start_time)
+            elapsed = time() - self._start_time
+            speed = bytes_written / 1024.0 / elapsed if elapsed else 0.0
             log.debug("left recv loop (read %s bytes) %0.1fKB/s ", bytes_written, speed)
             # These close methods are a null operation if the objects are
             # already closed
-- 
2.43.0


From e10450562edb88cbb9a6889aa09e073fa51daf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 05/17] fix: lost connection leaves closed channels and spent
 callbacks behind, and the thread fails on exit

---
 dataplicity/m2m/wsclient.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index db8ac40..c06b9d0 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -231,7 +231,9 @@ class WSClient(threading.Thread):
     def clear_callbacks(self):
         """Clear all callbacks, because they may be blocking."""
         with self.callback_lock:
-            for command_id, callbacks in self.callbacks.items():
+            pending = list(self.callbacks.values())
+            self.callbacks.clear()
+            for callbacks in pending:
                 for callback in callbacks:
                     try:
                         callback(None)
@@ -253,7 +255,9 @@ class WSClient(threading.Thread):
 
     def hard_close_channels(self):
         """Called when all the channels have been abruptly closed."""
-        for channel in self.channels.values():
+        channels = list(self.channels.values())
+        self.channels.clear()
+        for channel in channels:
             channel.on_close()
 
     def run(self):
@@ -270,7 +274,7 @@ class WSClient(threading.Thread):
             log.info("exit requested")
         except Exception:
             log.exception("unhandled error from websocket")
-        self.on_close()
+        self.on_disconnected()
 
     def on_event(self, event):
         """Called when new websocket events arrive."""
-- 
2.43.0


From 598496ae1feaa9742cb40f7315355b22064141de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:46 +0000
Subject: [PATCH 06/17] fix: remote directory ids and paths from the server can
 name files outside its directories

---
 dataplicity/remote_directory.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 964e862..7b2c1c3 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -58,6 +58,19 @@ def validate_path(path):
     return ".." not in path.split(os.sep)
 
 
+def validate_id(id):
+    # type: (Text) -> bool
+    """Check an ID may be used as the name of a file directly inside a directory.
+
+    Args:
+        id (Text): An upload or download ID.
+
+    Returns:
+        bool: True if the ID is valid, otherwise False
+    """
+    return id not in ("", ".", "..") and os.sep not in id
+
+
 class RemoteDirectory(object):
     """Manages remote directory."""
 
@@ -90,6 +103,8 @@ class RemoteDirectory(object):
         Returns:
             str: A path to the snapshot file.
         """
+        if not validate_id(upload_id):
+            raise IllegalPath("Upload ID %r is illegal" % upload_id)
         try:
             temp_path = self.temp_path
             dir_path = os.path.join(temp_path, "dataplicity_remote")
@@ -112,6 +127,8 @@ class RemoteDirectory(object):
         Returns:
             [type]: [description]
         """
+        if not validate_id(id):
+            raise IllegalPath("Download ID %r is illegal" % id)
 
         temp_path = self.temp_path
         dir_path = os.path.join(temp_path, "dataplicity_remote_downloads")
@@ -309,6 +326,12 @@ class RemoteDirectory(object):
             # If we haven't set a device_path allocate a temp location
             if not write_device_path:
                 write_device_path = self.add_download(id.decode("utf-8"))
+            else:
+                dir_path, name = os.path.split(write_device_path)
+                if not validate_id(name) or dir_path != os.path.join(
+                    self.temp_path, "dataplicity_remote_downloads"
+                ):
+                    raise IllegalPath("Path %s is illegal" % write_device_path)
         except Exception as error:
             log.exception("error adding download")
             # Couldn't create temporary location, tell server
@@ -383,6 +406,8 @@ class RemoteDirectory(object):
         """Copy a download in to the remote directory"""
 
         destination_path = os.path.join(self.path, path.decode("utf-8").lstrip("/"))
+        if not validate_path(destination_path):
+            raise IllegalPath("Path %s is illegal" % destination_path)
         dirname, filename = os.path.split(destination_path)
         if not os.path.isdir(dirname):
             dirname = self.path
-- 
2.43.0


From 8c05d3e62e4f99f908d6cd66b13c20cbf4f8e29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:46 +0000
Subject: [PATCH 07/17] fix: write request with an undecodable device path gets
 no reply

---
 dataplicity/remote_directory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 7b2c1c3..f563024 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -321,8 +321,8 @@ class RemoteDirectory(object):
     def on_write_remote_file(self, client, id, path, device_path, offset, data, final):
         # type: (WSClient, bytes, bytes, bytes, int, bytes, int) -> None
         """Write data from server to temporary file."""
-        write_device_path = device_path.decode("utf-8")
         try:
+            write_device_path = device_path.decode("utf-8")
             # If we haven't set a device_path allocate a temp location
             if not write_device_path:
                 write_device_path = self.add_download(id.decode("utf-8"))
-- 
2.43.0


From ca59f99952dc25eaa1bf1cb74dec09da34cc37fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:56 +0000
Subject: [PATCH 08/17] fix: invalid log level fails with a bare KeyError
 instead of its message

---
 dataplicity/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/app.py b/dataplicity/app.py
index 13066b6..f3d0fdc 100644
--- a/dataplicity/app.py
+++ b/dataplicity/app.py
@@ -123,7 +123,7 @@ class App(object):
         log_level = "CRITICAL" if self.args.quiet else self.args.log_level.upper()
         try:
             log_level_no = _logging_level_names[log_level]
-        except IndexError:
+        except KeyError:
             self.error("invalid log level")
 
         if self.args.log_file:
-- 
2.43.0


From bcf88b80591f7e1866566ba62fe75f0515427e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:01 +0000
Subject: [PATCH 09/17] fix: an empty chunk makes a channel with nothing
 buffered readable

---
 dataplicity/m2m/wsclient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index c06b9d0..f1a0552 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -93,7 +93,7 @@ class Channel(object):
             return
         if self._data_callback is not None:
             self._data_callback(data)
-        else:
+        elif data:
             with self._lock:
                 self.deque.append(data)
                 self._data_event.set()
-- 
2.43.0


From 96b2b411ff92f838692207408f7331d9e45ab37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:33 +0000
Subject: [PATCH 10/17] fix: ignore messages that are not a list instead of
 treating a byte string as a packet

---
 dataplicity/m2m/wsclient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index f1a0552..b0e5eb3 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -344,6 +344,8 @@ class WSClient(threading.Thread):
     def on_packet(self, packet):
         """Called with a binary packet."""
         try:
+            if not isinstance(packet, list):
+                raise TypeError("packet must be a list")
             packet_type = packet[0]
             packet_body = packet[1:]
         except Exception:
-- 
2.43.0


From 16747797209205f1445813f262addab5ef43a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:14 +0000
Subject: [PATCH 11/17] fix: keep the terminal size when a resize request is
 malformed

---
 dataplicity/m2m/proxy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index dc6646f..d52b6cf 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -154,6 +154,9 @@ class Interceptor(object):
 
     def resize_terminal(self, size):
         """Resize terminal to [COLUMNS, LINES]"""
+        # A size that can not be set is refused here, and not when the terminal starts
+        columns, lines = size
+        array.array("h", [columns, lines])
         self.size = size
         if self.master_fd is not None:
             self._set_pty_size()
-- 
2.43.0


From 18696c0b2ac942e8a3a2c8c2d6bc49146f31abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:14 +0000
Subject: [PATCH 12/17] fix: ids chosen for a batch's calls never repeat an id
 already in the batch

---
 dataplicity/jsonrpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataplicity/jsonrpc.py b/dataplicity/jsonrpc.py
index 2d96f33..072e434 100644
--- a/dataplicity/jsonrpc.py
+++ b/dataplicity/jsonrpc.py
@@ -101,13 +101,17 @@ class Batch(object):
 
     def call(self, method, **params):
         """Add a call to the batch, using a default id."""
+        call_id = self.client.new_call_id()
+        while call_id in self.ids_used:
+            call_id = self.client.new_call_id()
         call = {
             "jsonrpc": "2.0",
             "method": method,
             "params": params,
-            "id": self.client.new_call_id(),
+            "id": call_id,
         }
         self.calls.append(call)
+        self.ids_used.add(call_id)
         self.methods[call["id"]] = method
 
     def call_with_id(self, call_id, method, **params):
-- 
2.43.0


From 60f1063e770f6dc3f9324d081ac0a531f1a15551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 13/17] fix: leaving a batch's context does not send a batch
 that was already sent

---
 dataplicity/jsonrpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/jsonrpc.py b/dataplicity/jsonrpc.py
index 072e434..6abac12 100644
--- a/dataplicity/jsonrpc.py
+++ b/dataplicity/jsonrpc.py
@@ -96,7 +96,7 @@ class Batch(object):
         return self
 
     def __exit__(self, exc_type, exc_value, traceback):
-        if not exc_type and not self._abandoned:
+        if not exc_type and not self._abandoned and not self.sent:
             self.send()
 
     def call(self, method, **params):
-- 
2.43.0


From f3c95235c256ea01a3f1496ee5f5d9e4323ff2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:59 +0000
Subject: [PATCH 14/17] fix: send data received before connecting when the
 channel closes meanwhile

---
 dataplicity/portforward.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index 2d5b636..c4c3eda 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -180,8 +180,10 @@ class Connection(threading.Thread):
             return False
         else:
             log.debug("connected to %s:%d", *self.host_port)
-            self.socket = _socket
-            self._flush_buffer()
+            with self._lock:
+                # The channel may be closing: send what it brought before that
+                self.socket = _socket
+                self._flush_buffer()
             return True
 
     def on_channel_data(self, data):
-- 
2.43.0


From 765d32873fd319fb7330dfd474a9f9057801ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:08 +0000
Subject: [PATCH 15/17] fix: skip a directory whose inode cannot be read

It was entered without being listed under its parent, and without being
remembered, so a link cycle through it was followed down to the depth limit.
---
 dataplicity/scan_directory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataplicity/scan_directory.py b/dataplicity/scan_directory.py
index edd4955..7fdee59 100644
--- a/dataplicity/scan_directory.py
+++ b/dataplicity/scan_directory.py
@@ -160,6 +160,7 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
                 inode = dir_entry.inode()
             except Exception as error:
                 log.warning("error in inode; %r", error)
+                continue
             else:
                 if inode in visited_directories:
                     # We have visited this directory before, we must have a recursive link
-- 
2.43.0


From 9384b1d2bf1a3b161db101cbd4da2459b2c86ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:19 +0000
Subject: [PATCH 16/17] fix: do not log the data of received messages

A received message is a packet, which may contain a password. The event was
logged with the first bytes of its data, before the packet was decoded and
logged in its printable form (which hides passwords).
---
 dataplicity/m2m/wsclient.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index b0e5eb3..4a9550a 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -265,7 +265,12 @@ class WSClient(threading.Thread):
         try:
             with self.websocket:
                 for event in persist(self.websocket):
-                    log.debug("WS %r", event)
+                    if event.name == "binary":
+                        # The data is a packet, which may contain a password. It
+                        # is logged (without passwords) when it is dispatched.
+                        log.debug("WS %s", event.name)
+                    else:
+                        log.debug("WS %r", event)
                     try:
                         self.on_event(event)
                     except Exception as error:
-- 
2.43.0


From c078243ecc73a3f4b6778abab46eaa3eb1d18fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:27 +0000
Subject: [PATCH 17/17] fix: bencode booleans as the integers they are

---
 dataplicity/m2m/bencode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/m2m/bencode.py b/dataplicity/m2m/bencode.py
index 3c82f34..453f052 100644
--- a/dataplicity/m2m/bencode.py
+++ b/dataplicity/m2m/bencode.py
@@ -71,7 +71,7 @@ def encode(obj):
             append("{}:".format(len(obj_bytes)).encode())
             append(obj_bytes)
         elif isinstance(obj, number_types):
-            append("i{}e".format(obj).encode())
+            append("i{:d}e".format(obj).encode())
         elif isinstance(obj, (list, tuple)):
             append(b"l")
             for item in obj:
-- 
2.43.0

