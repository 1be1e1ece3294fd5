From cdb1efcb06c7335c086b2e03f23974db48cd2fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 01/62] fix: release OptionalRLock when the guarded block
 raises

---
 vtelem/classes/time_entity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/time_entity.py b/vtelem/classes/time_entity.py
index 9975a95..c603ac9 100644
--- a/vtelem/classes/time_entity.py
+++ b/vtelem/classes/time_entity.py
@@ -37,10 +37,10 @@ class OptionalRLock(AbstractContextManager):
             self.lock.acquire()
         return self.item
 
-    def __exit__(self, exc_type, __, ___) -> Literal[False]:
-        """Release the lock if no exception was raised."""
+    def __exit__(self, _, __, ___) -> Literal[False]:
+        """Release the lock, even if an exception was raised."""
 
-        if exc_type is None and self.lock is not None:
+        if self.lock is not None:
             self.lock.release()
         return False
 
-- 
2.43.0


From c7b70c45649ba5f5af66014df81978dd05f2bc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 02/62] fix: load the fragments of every message of a type, not
 just the first

---
 vtelem/message/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index a8197df..3ede1a1 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -105,11 +105,11 @@ class MessageCache(DataCache, MessageDispatcher):
                 if crc_int not in type_data:
                     type_data[crc_int] = {}
                 crc_data = type_data[crc_int]
-                curr = os.path.join(curr, crc)
+                path = os.path.join(curr, crc)
 
                 # load all fragments for this message's crc
-                for fragment in os.listdir(curr):
-                    with open(os.path.join(curr, fragment), "rb") as frag:
+                for fragment in os.listdir(path):
+                    with open(os.path.join(path, fragment), "rb") as frag:
                         crc_data[int(fragment)] = frag.read()
 
     def store_fragment(
-- 
2.43.0


From f010ef7884233a29e92a8bd554c8ab8973f0c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 03/62] fix: count each distinct message fragment once

---
 vtelem/message/cache.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 3ede1a1..a233113 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -197,23 +197,24 @@ class MessageCache(DataCache, MessageDispatcher):
             return
 
         # store this message fragment if we don't have it
-        if message.fragment_index not in crc_data:
+        stored = self.fragment_data[message.type.value]
+        if message.fragment_index not in stored.get(message.crc, {}):
             self.store_fragment(
                 message.type, message.crc, message.fragment_index, message.data
             )
-            crc_data["fragments"] += 1
-
-            # mark this message as complete if we now have all of the fragments
-            if crc_data["fragments"] == message.total_fragments:
-                crc_data["complete"] = True
-                crc_data["number"] = message.number
-
-                # service message consumers
-                full_message = self.content(message.type, message.crc)
-                assert full_message is not None
-                self.service_callbacks(
-                    message.type, full_message[0], full_message[1]
-                )
+
+        # mark this message as complete if we now have all of the fragments
+        crc_data["fragments"] = len(stored[message.crc])
+        if crc_data["fragments"] == message.total_fragments:
+            crc_data["complete"] = True
+            crc_data["number"] = message.number
+
+            # service message consumers
+            full_message = self.content(message.type, message.crc)
+            assert full_message is not None
+            self.service_callbacks(
+                message.type, full_message[0], full_message[1]
+            )
 
 
 @contextmanager
-- 
2.43.0


From ef4d5b55b66f626c368386669a6cafad19afd514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 04/62] fix: never load a partially written message fragment

---
 vtelem/message/cache.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index a233113..d2cc3a7 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -109,6 +109,8 @@ class MessageCache(DataCache, MessageDispatcher):
 
                 # load all fragments for this message's crc
                 for fragment in os.listdir(path):
+                    if not fragment.isdigit():
+                        continue
                     with open(os.path.join(path, fragment), "rb") as frag:
                         crc_data[int(fragment)] = frag.read()
 
@@ -117,6 +119,14 @@ class MessageCache(DataCache, MessageDispatcher):
     ) -> None:
         """Store a message fragment to disk."""
 
+        # write data to disk, a partial write must never look like a fragment
+        path = os.path.join(self.fragment_dir, str(mtype.value), str(crc))
+        os.makedirs(path, exist_ok=True)
+        path = os.path.join(path, str(fragment_index))
+        with open(path + ".tmp", "wb") as frag:
+            frag.write(data)
+        os.replace(path + ".tmp", path)
+
         # store data
         to_write = self.fragment_data[mtype.value]
         if crc not in to_write:
@@ -124,13 +134,6 @@ class MessageCache(DataCache, MessageDispatcher):
         to_write = to_write[crc]
         to_write[fragment_index] = data
 
-        # write data to disk
-        path = os.path.join(self.fragment_dir, str(mtype.value), str(crc))
-        os.makedirs(path, exist_ok=True)
-        path = os.path.join(path, str(fragment_index))
-        with open(path, "wb") as frag:
-            frag.write(data)
-
     def complete(self, mtype: MessageType) -> List[int]:
         """Get complete messages (by checksum) for a given type."""
 
-- 
2.43.0


From 2e6c64b11a987f605509be23790364afafb96cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 05/62] fix: reject duplicate names in the serializable enum
 registry

---
 vtelem/registry/enum_retry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/registry/enum_retry.py b/vtelem/registry/enum_retry.py
index 42e0f13..46a0273 100644
--- a/vtelem/registry/enum_retry.py
+++ b/vtelem/registry/enum_retry.py
@@ -58,8 +58,9 @@ class EnumRegistry(Serializable, LockEntity):
     def add(self, enum: UserEnum) -> int:
         """Add an enum to the registry."""
 
-        assert enum.name not in self.data
         with self.lock:
+            assert enum.name not in self.enums
+
             # Store a reference to the serializable data directly.
             self.enum_data[enum.name] = enum.data
 
-- 
2.43.0


From 890eae0c245e0db8833d17ec5e90043414071595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 06/62] fix: allow the websocket command service to be disabled

---
 vtelem/telemetry/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 445a8ef..b2150ad 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -143,7 +143,7 @@ class TelemetryServer(HttpDaemon):
                 telem,
                 self.time_keeper,
             )
-        assert self.daemons.add_daemon(ws_cmd, ["stream"])
+            assert self.daemons.add_daemon(ws_cmd, ["stream"])
 
         # make the daemon-manager commandable
         create_daemon_manager_commander(self.daemons, queue_daemon)
-- 
2.43.0


From 9161c6a13059a37dffc5c3bb85d8a12c1aeca427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 07/62] fix: fail cleanly on a daemon operation that has no
 action

---
 vtelem/daemon/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index d96c747..8b3f983 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -119,7 +119,11 @@ class DaemonBase(TimeEntity):
 
         # set up the actions data
         default: dict = defaultdict(
-            lambda: {"action": lambda: False, "takes_args": False}
+            lambda: {
+                "action": lambda: False,
+                "takes_args": False,
+                "skip_if_state": [],
+            }
         )
         self.daemon_ops: Dict[DaemonOperation, dict] = default
         self.daemon_ops[DaemonOperation.START] = {
-- 
2.43.0


From f98fa8bf80a9dfa01abe655ba6fead71524b067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 08/62] fix: looking up an unknown daemon must not register it

---
 vtelem/daemon/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index 943942e..b38e425 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -35,7 +35,7 @@ class DaemonManager(LockEntity):
         """Get a daemon object by name."""
 
         assert name not in NAME_DENYLIST
-        return self.daemons[name]
+        return self.daemons.get(name)
 
     def add_daemon(
         self, daemon: DaemonBase, depends_on: List[str] = None
-- 
2.43.0


From 34d05da4be9878894653b5ed1cd644e53fea4be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 09/62] fix: registry lookups must not insert entries

---
 vtelem/registry/__init__.py | 4 ++--
 vtelem/registry/enum.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/registry/__init__.py b/vtelem/registry/__init__.py
index 9ecff56..81c088d 100644
--- a/vtelem/registry/__init__.py
+++ b/vtelem/registry/__init__.py
@@ -49,7 +49,7 @@ class Registry(Generic[T]):
         """Obtain an item's data by its integer identifier."""
 
         with self.lock:
-            result = self.data[self.type_name][item_id]
+            result = self.data[self.type_name].get(item_id)
         return result
 
     def get_id(self, name: str) -> Optional[int]:
@@ -58,7 +58,7 @@ class Registry(Generic[T]):
         """
 
         with self.lock:
-            result = self.data["mappings"][name]
+            result = self.data["mappings"].get(name)
         return result
 
     def add(self, name: str, data: T) -> Tuple[bool, int]:
diff --git a/vtelem/registry/enum.py b/vtelem/registry/enum.py
index 4f31e73..cb994eb 100644
--- a/vtelem/registry/enum.py
+++ b/vtelem/registry/enum.py
@@ -76,7 +76,7 @@ class EnumRegistry(Registry[UserEnum]):
                 # determine if this enum has already been registered
                 curr_id = registry.get_id(enum_data.name)
                 if curr_id is not None:
-                    expected_id = self.data["global_mappings"][curr_id]
+                    expected_id = self.data["global_mappings"].get(curr_id, -1)
                     if expected_id != enum_id:
                         log_str = (
                             "couldn't register '%s', type has value "
-- 
2.43.0


From 629d4ca571ae60bba9c2bfde939a2ab9a8d4ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 10/62] fix: enum lookups must not insert entries

---
 vtelem/classes/user_enum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 4b1ade8..5dd05be 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -103,7 +103,7 @@ class UserEnum(Serializable):
     def get_value(self, val: str) -> int:
         """Get the integer value of an enum String."""
 
-        result = self.strings[val.lower()]
+        result = self.strings.get(val.lower())
         assert result is not None
         return result
 
@@ -115,7 +115,7 @@ class UserEnum(Serializable):
         """
 
         result = new_default("enum", changed_cb)
-        val = self.strings[value.lower()]
+        val = self.strings.get(value.lower())
         assert val is not None
         assert result.set(val)
         return result
-- 
2.43.0


From 89cd4d6d8c9185b96b2eff9bc663bf991e79670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 11/62] fix: checking for an enum channel must not insert
 entries

---
 vtelem/telemetry/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 4f014c5..9cdbf06 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -87,7 +87,7 @@ class TelemetryEnvironment(ChannelEnvironment):
     def is_enum_channel(self, chan_id: int) -> bool:
         """Determine if a channel holds an enumeration value."""
 
-        return self.enum_channel_types[chan_id] != -1
+        return self.enum_channel_types.get(chan_id, -1) != -1
 
     def add_enum_channel(
         self,
-- 
2.43.0


From e9277c023ff16e54a48e95e4a189ea2540706cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 12/62] fix: unknown request paths must not be added to the
 request index

---
 vtelem/classes/http_request_mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 3a3ad24..25e6c76 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -61,8 +61,8 @@ class HttpRequestMapper:
         """Retrieve a handle by request type and path."""
 
         return (
-            self.requests[request_type][path],
-            self.handle_data[request_type][path],
+            self.requests.get(request_type, {}).get(path),
+            self.handle_data.get(request_type, {}).get(path),
         )
 
     def add_handler(
-- 
2.43.0


From 5745ea499b686a691af2d7336921e0cb63d27f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 13/62] fix: ignore failures of streams that are not udp
 clients

---
 vtelem/classes/udp_client_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 7277311..a58338a 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -40,6 +40,8 @@ class UdpClientManager(LockEntity):
             """
 
             with self.lock:
+                if stream_id not in self.clients:
+                    return
                 sock, sock_file = self.clients[stream_id]
                 del self.clients[stream_id]
             name = sock.getsockname()
-- 
2.43.0


From 12aa5a7ebbf2061f60a804d1f302636edded1c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 14/62] fix: a closed or short-writing stream must not stop the
 stream writer

---
 vtelem/stream/writer.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index e7bedaf..b1199fe 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -84,18 +84,14 @@ class StreamWriter(QueueDaemon):
                             stream.flush()
                         self.increment_metric("stream_writes")
                         self.increment_metric("bytes_written", size)
-                    except OSError as exc:
-                        msg = (
-                            "stream '%s' (%d) error writing %d "
-                            + "bytes: %s (%d)"
-                        )
+                    except (AssertionError, OSError, ValueError) as exc:
+                        msg = "stream '%s' (%d) error writing %d bytes: %s"
                         LOG.error(
                             msg,
-                            stream.name,
+                            getattr(stream, "name", stream),
                             stream_id,
                             len(array),
-                            exc.strerror,
-                            exc.errno,
+                            exc,
                         )
                         to_remove.append((stream_id, stream))
 
@@ -103,7 +99,7 @@ class StreamWriter(QueueDaemon):
                 for stream_id, stream in to_remove:
                     LOG.warning(
                         "removing stream '%s' (%d) errors writing",
-                        stream.name,
+                        getattr(stream, "name", stream),
                         stream_id,
                     )
 
@@ -111,7 +107,7 @@ class StreamWriter(QueueDaemon):
                     if self.error_handle is not None:
                         self.error_handle(stream_id)
 
-                    assert self.remove_stream(stream_id)
+                    self.remove_stream(stream_id)
 
             # add to queues
             for queue in queues:
-- 
2.43.0


From 1660e91869fd83bf161b80a7fdbb4d2189e8cfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 15/62] fix: forget the attributes of removed streams

---
 vtelem/stream/writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index b1199fe..e9588cc 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -80,7 +80,7 @@ class StreamWriter(QueueDaemon):
                 for stream_id, stream in streams.items():
                     try:
                         assert stream.write(array) == size
-                        if self.stream_attrs[stream_id]["flush"]:
+                        if self.stream_attrs.get(stream_id, {}).get("flush"):
                             stream.flush()
                         self.increment_metric("stream_writes")
                         self.increment_metric("bytes_written", size)
@@ -218,6 +218,7 @@ class StreamWriter(QueueDaemon):
                 del self.streams[stream_id]
                 closer = self.stream_closers[stream_id]
                 del self.stream_closers[stream_id]
+                self.stream_attrs.pop(stream_id, None)
         if closer is not None and call_closer:
             closer()
         if result:
-- 
2.43.0


From c4df00bfb645cb93df8b18fd7cb858fef76925e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 16/62] fix: reject commands whose name is not a string

---
 vtelem/daemon/command_queue.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f6a3ba6..f4b3001 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -49,7 +49,9 @@ class CommandQueueDaemon(QueueDaemon):
 
             # make sure the element is a dictionary, has "command", has a
             # handler registered
-            if not isinstance(elem, dict) or "command" not in elem:
+            if not isinstance(elem, dict) or not isinstance(
+                elem.get("command"), str
+            ):
                 err = f"{self.name}: unknown or malformed command, rejected"
                 LOG.error(err)
                 self.increment_metric("rejected_count")
-- 
2.43.0


From 0636ee8a3079f900b2298a369657e665408053f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 17/62] fix: unknown commands must not be registered by
 executing them

---
 vtelem/daemon/command_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f4b3001..f36076e 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -58,7 +58,7 @@ class CommandQueueDaemon(QueueDaemon):
                 if cmd_cb is not None:
                     cmd_cb(False, err)
                 return None
-            if not self.handlers[elem["command"]]:
+            if not self.handlers.get(elem["command"]):
                 err = (
                     f"{self.name}: command '{elem['command']}' "
                     "has no handlers, rejected"
-- 
2.43.0


From 6422be94b6a18b264d3861bc0dfa1f914e24603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 18/62] fix: a failing command handler must not stop the
 command thread

---
 vtelem/daemon/command_queue.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f36076e..f59bab4 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -77,7 +77,11 @@ class CommandQueueDaemon(QueueDaemon):
             # execute command
             handlers = self.handlers[elem["command"]]
             for handler, result_cb, _ in handlers:
-                result, message = handler(cmd_data)
+                try:
+                    result, message = handler(cmd_data)
+                except Exception as exc:  # pylint: disable=broad-except
+                    LOG.exception("%s: command handler failed", self.name)
+                    result, message = False, f"{type(exc).__name__}: {exc}"
                 if result_cb is not None:
                     result_cb(result, message)
                 if cmd_cb is not None:
@@ -91,7 +95,7 @@ class CommandQueueDaemon(QueueDaemon):
                     "%s: command '%s' '%s' %s, '%s'",
                     self.name,
                     elem["command"],
-                    json.dumps(cmd_data),
+                    dict(cmd_data),
                     status,
                     message,
                 )
-- 
2.43.0


From 6042e34d27ac314c2b092dc1fde676d93e405627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 19/62] fix: respond to requests whose handler raises

---
 vtelem/classes/http_request_mapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 25e6c76..cfdfa13 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -152,7 +152,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
             return self._no_handle_response(command)
 
         # run handler
-        success, content = handle(self, data)
+        try:
+            success, content = handle(self, data)
+        except Exception as exc:  # pylint: disable=broad-except
+            LOG.exception("request handler for '%s' failed", self.path)
+            success, content = False, f"{type(exc).__name__}: {exc}"
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
         if not success:
-- 
2.43.0


From 28b1b05b3d04216cbc7d8e0adb48702ebc6157b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 20/62] fix: send the length of the encoded response body

---
 vtelem/classes/http_request_mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index cfdfa13..eb3165c 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -169,10 +169,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         if handle_data is not None:
             for key, value in handle_data.items():
                 self.send_header(key, value)
-        self.send_header("Content-Length", str(len(content)))
+        body = content.encode()
+        self.send_header("Content-Length", str(len(body)))
         self.end_headers()
         if not headers_only:
-            self.wfile.write(content.encode())
+            self.wfile.write(body)
         self.log_request(status)
         return None
 
-- 
2.43.0


From 5343041f6915e8893f1f53f58ae4987b800ada75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:49 +0000
Subject: [PATCH 21/62] fix: keep request-derived text out of the response
 status line

---
 vtelem/classes/http_request_mapper.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index eb3165c..44b868d 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -112,7 +112,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         self.send_error(
             HTTPStatus.NOT_IMPLEMENTED, "no request-mapper configured"
         )
-        self.end_headers()
         self.close_connection = True
 
     def _no_handle_response(self, command: str) -> None:
@@ -121,8 +120,7 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         """
 
         msg = f"no request-mapper for '{command}' path '{self.path}'"
-        self.send_error(HTTPStatus.NOT_FOUND, msg)
-        self.end_headers()
+        self.send_error(HTTPStatus.NOT_FOUND, explain=msg)
         self.close_connection = True
 
     def _handle(self, _data: dict = None) -> None:
@@ -160,8 +158,7 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
         if not success:
-            self.send_error(status, content)
-            self.end_headers()
+            self.send_error(status, explain=content)
             self.close_connection = True
             return None
 
-- 
2.43.0


From ca4f52ddf8829b67d5e32709c2fd8a1d1862548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 22/62] fix: concurrent metric additions must not lose updates

---
 vtelem/channel/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 9646f5d..4703cc2 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -157,7 +157,8 @@ class ChannelEnvironment(TimeEntity):
         if self.metrics is not None and name in self.metrics:
             chan = self.channel_registry.get_item(self.metrics[name])
             assert chan is not None
-            assert chan.add(data, time)
+            with self.lock:
+                assert chan.add(data, time)
 
     def set_channel_rate(self, chan_id: int, rate: float) -> None:
         """Set the update-rate of a channel."""
-- 
2.43.0


From 4fc92d3b6e9e1ecad7c723c5f1787144faa896d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 23/62] fix: registering the same metric concurrently must not
 fail

---
 vtelem/channel/environment.py   | 11 ++++++-----
 vtelem/telemetry/environment.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 4703cc2..6c634b6 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -111,11 +111,12 @@ class ChannelEnvironment(TimeEntity):
     ) -> None:
         """Add a new, named metric channel"""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_channel(
-                name, instance, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_channel(
+                    name, instance, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def get_metric(self, name: str) -> Any:
         """Get the value from a metrics channel."""
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 9cdbf06..05bde55 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -123,11 +123,12 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Add a metric based on an enumeration definition."""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_enum_channel(
-                name, enum_name, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_enum_channel(
+                    name, enum_name, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def set_enum_metric(
         self, name: str, data: str, time: float = None
-- 
2.43.0


From bcecf2051704efc1431820723eb5179f4c3e8243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 24/62] fix: rejecting a duplicate channel must not capture an
 event for it

---
 vtelem/channel/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 6c634b6..6417a30 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -207,6 +207,7 @@ class ChannelEnvironment(TimeEntity):
         """
 
         with self.lock:
+            assert not self.has_channel(name)
             queue = None if not track_change else self.event_queue
             new_chan = Channel(name, instance, rate, queue, commandable)
             if initial is not None:
-- 
2.43.0


From a08e46b3e70c6185ebdadcd629d8918aa59fb7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 25/62] fix: block on a full frame queue without holding the
 environment lock

---
 vtelem/channel/environment.py | 36 +++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 6417a30..54f3d58 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -5,6 +5,7 @@ vtelem - Exposes a runtime environment for managing sets of channels.
 # built-in
 from collections import defaultdict
 import logging
+from queue import Queue
 from typing import Any, Dict, List, Optional, Tuple
 
 # internal
@@ -222,10 +223,12 @@ class ChannelEnvironment(TimeEntity):
     def dispatch(self, time: float, should_log: bool = True) -> int:
         """Dispatch events and channel emissions."""
 
+        pending: Queue = Queue()
         with self.lock:
-            data = self.dispatch_data(time)
-            events = self.dispatch_events(time)
+            data = self.dispatch_data(time, pending)
+            events = self.dispatch_events(time, pending)
             self.metric_add("dispatch_count", 1)
+        self.enqueue_frames(pending)
 
         total = data[0] + events[0]
 
@@ -264,22 +267,39 @@ class ChannelEnvironment(TimeEntity):
 
         return decode_frame(self.channel_registry, data, size, expected_id)
 
-    def dispatch_events(self, time: float) -> Tuple[int, int]:
+    def enqueue_frames(self, frames: Queue) -> None:
+        """
+        Enqueue built frames. The frame queue is bounded, so this must not be
+        called with the environment locked.
+        """
+
+        while not frames.empty():
+            self.frame_queue.put(frames.get())
+
+    def dispatch_events(
+        self, time: float, queue: Queue = None
+    ) -> Tuple[int, int]:
         """Process all queued events (build frames)."""
 
+        frames: Queue = Queue() if queue is None else queue
         result = self.framer.build_event_frames(
-            time, self.event_queue, self.frame_queue, self.write_crc
+            time, self.event_queue, frames, self.write_crc
         )
         self.metric_add("events_captured", result[1], time)
+        if queue is None:
+            self.enqueue_frames(frames)
         return result
 
-    def dispatch_data(self, time: float) -> Tuple[int, int]:
+    def dispatch_data(
+        self, time: float, queue: Queue = None
+    ) -> Tuple[int, int]:
         """Process all channel emissions for the specified, absolute time."""
 
-        result = self.framer.build_data_frames(
-            time, self.frame_queue, self.write_crc
-        )
+        frames: Queue = Queue() if queue is None else queue
+        result = self.framer.build_data_frames(time, frames, self.write_crc)
         self.metric_add("emits_captured", result[1], time)
+        if queue is None:
+            self.enqueue_frames(frames)
         return result
 
     def dispatch_now(self, *_, should_log: bool = True, **__) -> int:
-- 
2.43.0


From 93da1e2908defc0d70798b4a13332c8b742f9780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 26/62] fix: environments must not share the list of initial
 channels

---
 vtelem/channel/framer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/channel/framer.py b/vtelem/channel/framer.py
index 7af2081..cc86825 100644
--- a/vtelem/channel/framer.py
+++ b/vtelem/channel/framer.py
@@ -39,7 +39,7 @@ class ChannelFramer(Framer):
 
         super().__init__(mtu, app_id_basis, use_crc)
         self.registry = registry
-        self.channels = channels
+        self.channels = list(channels)
         self.lock = channel_lock
 
     def new_event_frame(self, time: float = None) -> ChannelFrame:
-- 
2.43.0


From 4fcaa3eed54c1608b56421b5399b20c299c489d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 27/62] fix: a rejected enum channel must not stay registered

---
 vtelem/telemetry/environment.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 05bde55..8c0ad7d 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -100,18 +100,18 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> int:
         """Add a channel that stores an enumeration value."""
 
-        new_chan = self.add_channel(
-            name, DEFAULTS["enum"], rate, track_change, None, commandable
-        )
         enum_type = self.enum_registry.get_id(enum_name)
         assert enum_type is not None
-        self.enum_channel_types[new_chan] = enum_type
+        value: Optional[Tuple[int, Optional[float]]] = None
         if initial is not None:
-            chan = self.registries["channel"].get_item(new_chan)
-            assert chan is not None
             enum_def = self.enum_registry.get_item(enum_type)
             assert enum_def is not None
-            assert chan.set(enum_def.get_value(initial[0]), initial[1])
+            value = (enum_def.get_value(initial[0]), initial[1])
+        with self.lock:
+            new_chan = self.add_channel(
+                name, DEFAULTS["enum"], rate, track_change, value, commandable
+            )
+            self.enum_channel_types[new_chan] = enum_type
         return new_chan
 
     def add_enum_metric(
-- 
2.43.0


From 5d5c5114b574eb65b36500f0e47a7734b0ab67d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 28/62] fix: an enum rejected for its type name must not stay
 registered

---
 vtelem/telemetry/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 8c0ad7d..f0ace57 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -190,6 +190,7 @@ class TelemetryEnvironment(ChannelEnvironment):
         with self.lock:
             if self.has_enum(enum):
                 return self.enum_registry.get_enum(enum)[1]
+            assert self.type_registry.get_id(enum.name) is None
             result = self.enum_registry.add_enum(enum)
             assert result[0]
             assert self.enum_registry.export(self.type_registry)
-- 
2.43.0


From 0e7e78658ad2cc9a2db6bb68b3b600b7cfb97471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 29/62] fix: reject float values that cannot be packed

---
 vtelem/enums/primitive.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vtelem/enums/primitive.py b/vtelem/enums/primitive.py
index b31bb9f..5a7421d 100644
--- a/vtelem/enums/primitive.py
+++ b/vtelem/enums/primitive.py
@@ -11,6 +11,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+import struct
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -48,6 +49,16 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """Check if a floating-point primitive can be packed with some value."""
+
+    try:
+        struct.pack(prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -127,7 +138,9 @@ class Primitive(Enum):
         *integer_bounds(8, False),
         integer_can_hold,
     )
-    FLOAT = BasePrimitive("f", float, 4, "float", True)
+    FLOAT = BasePrimitive(
+        "f", float, 4, "float", True, validate=float_can_hold
+    )
     DOUBLE = BasePrimitive("d", float, 8, "double", True)
 
 
-- 
2.43.0


From c268231e6ce3cafdf00ccb8d53336c869c1ab9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 30/62] fix: treat unknown frame types as invalid frames

---
 vtelem/parsing/encapsulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/parsing/encapsulation.py b/vtelem/parsing/encapsulation.py
index 36d6c68..054385a 100644
--- a/vtelem/parsing/encapsulation.py
+++ b/vtelem/parsing/encapsulation.py
@@ -30,10 +30,14 @@ def parse_frame_header(
         if app_id != expected_id.get():
             return app_id, None
 
+    frame_type = buf.read(DEFAULTS["enum"])
+    if frame_type not in FrameType.__members__.values():
+        frame_type = FrameType.INVALID
+
     return app_id, FrameHeader(
         buf.size,
         app_id,
-        FrameType(buf.read(DEFAULTS["enum"])),
+        FrameType(frame_type),
         buf.read(DEFAULTS["timestamp"]),
         buf.read(DEFAULTS["count"]),
     )
-- 
2.43.0


From 546c30853b67d6c6420fd9e987747ae8da502e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 31/62] fix: a malformed frame must not stop a telemetry client

---
 vtelem/client/__init__.py | 16 ++++++++++------
 vtelem/parsing/frames.py  |  3 +++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/vtelem/client/__init__.py b/vtelem/client/__init__.py
index 826f8c9..e1559a2 100644
--- a/vtelem/client/__init__.py
+++ b/vtelem/client/__init__.py
@@ -56,12 +56,16 @@ class TelemetryClient:
 
         count = 0
         for frame in new_frames:
-            new_frame = decode_frame(
-                self.channel_registry,
-                frame,
-                len(frame),
-                self.expected_id,
-            )
+            try:
+                new_frame = decode_frame(
+                    self.channel_registry,
+                    frame,
+                    len(frame),
+                    self.expected_id,
+                )
+            except AssertionError:
+                LOG.error("%s: discarding malformed frame", self.name)
+                new_frame = None
             if new_frame is not None:
                 self.frames.put(new_frame)
                 count += 1
diff --git a/vtelem/parsing/frames.py b/vtelem/parsing/frames.py
index a10acad..71e59fb 100644
--- a/vtelem/parsing/frames.py
+++ b/vtelem/parsing/frames.py
@@ -37,6 +37,7 @@ def parse_data_frame(
     for _ in range(header.size):
         chan = {"id": buf.read(DEFAULTS["id"])}
         chan["channel"] = registry.get_item(chan["id"])
+        assert chan["channel"] is not None
         assert not chan["channel"].is_stream
         obj["channels"].append(chan)
 
@@ -59,6 +60,7 @@ def parse_event_frame(
     for _ in range(header.size):
         event = {"id": buf.read(DEFAULTS["id"])}
         event["channel"] = registry.get_item(event["id"])
+        assert event["channel"] is not None
         assert not event["channel"].is_stream
         obj["events"].append(event)
 
@@ -93,6 +95,7 @@ def parse_stream_frame(
 
     obj = {"id": buf.read(DEFAULTS["id"])}
     obj["channel"] = registry.get_item(obj["id"])
+    assert obj["channel"] is not None
     assert obj["channel"].is_stream
     obj["index"] = buf.read(DEFAULTS["count"])
     obj["data"] = buf.read_bytes(header.size * obj["channel"].size())
-- 
2.43.0


From ecb96156e58c19271e4329d6295a00d709721ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 32/62] fix: message numbers wrap, oversized messages are
 rejected

---
 vtelem/frame/message.py  | 2 +-
 vtelem/message/framer.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/frame/message.py b/vtelem/frame/message.py
index 75736e1..4d09283 100644
--- a/vtelem/frame/message.py
+++ b/vtelem/frame/message.py
@@ -88,7 +88,7 @@ class MessageFrame(Frame):
         for field in MESSAGE_FIELDS:
             prim = TypePrimitive(field.type)
             if values is not None and field.name in values:
-                prim.set(values[field.name])
+                assert prim.set(values[field.name])
             result[field.name] = prim
         return result
 
diff --git a/vtelem/message/framer.py b/vtelem/message/framer.py
index b0a4fbb..147744d 100644
--- a/vtelem/message/framer.py
+++ b/vtelem/message/framer.py
@@ -7,6 +7,7 @@ from json import JSONEncoder, dumps
 from typing import Dict, Sequence, Tuple, Type
 
 # internal
+from vtelem.classes import DEFAULTS
 from vtelem.classes.serdes import ObjectData, Serializable
 from vtelem.frame.framer import Framer
 from vtelem.frame.message import MessageFrame, frames_required
@@ -63,6 +64,7 @@ class MessageFramer(Framer):
             }
         )
         self.message_numbers[message_type] += 1
+        self.message_numbers[message_type] %= DEFAULTS["id"].value.max + 1
 
         frames = []
         frame_start = 0
-- 
2.43.0


From 5e6e769647ae8952b15ea01fc3e7b46ca4990b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 33/62] fix: concurrent state machine runs must see one current
 state

---
 vtelem/classes/state_machine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vtelem/classes/state_machine.py b/vtelem/classes/state_machine.py
index 0f5c912..fdadcad 100644
--- a/vtelem/classes/state_machine.py
+++ b/vtelem/classes/state_machine.py
@@ -87,10 +87,9 @@ class StateMachine(LockEntity):
             with self.lock:
                 self._data.update(new_data)
 
-        curr = self.states[self.current_state]
-        assert curr is not None
-
         with self.lock:
+            curr = self.states[self.current_state]
+            assert curr is not None
             new = curr.run(self._data)
             assert new in self.states
 
@@ -123,6 +122,9 @@ class StateMachine(LockEntity):
                     )
                     exit_failed = True
 
+            actual_new = self.states[self.current_state]
+            assert actual_new is not None
+
         # increment metrics
         if self.metrics is not None:
             with self.metrics.data() as metrics_data:
@@ -131,6 +133,4 @@ class StateMachine(LockEntity):
                 metrics_data["transitions"] += int(transitioned)
                 metrics_data["iterations"] += 1
 
-        actual_new = self.states[self.current_state]
-        assert actual_new is not None
         return (curr, actual_new)
-- 
2.43.0


From cc13edc401f0b27d7ec4357a518e70c76f26187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 34/62] fix: sleeping must not fail when time is not
 progressing

---
 vtelem/classes/time_keeper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index d9b4c00..24a3771 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -76,4 +76,5 @@ class TimeKeeper(Daemon):
     def sleep(self, amount: float) -> None:
         """Sleep for the specified amount, scaled appropriately."""
 
-        self.sleep_function(amount / self.scalar)
+        scalar = self.scalar
+        self.sleep_function(amount / scalar if scalar > 0.0 else amount)
-- 
2.43.0


From 1d5ecae719483709a30f92726deb91613f2efc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 35/62] fix: a paused daemon can be stopped

---
 vtelem/daemon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 8b3f983..c19ecef 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -347,7 +347,7 @@ class DaemonBase(TimeEntity):
         # make sure we're in the correct state to attempt a stop
         should_stop = False
         with self.lock:
-            if self.state == DaemonState.RUNNING:
+            if self.state in (DaemonState.RUNNING, DaemonState.PAUSED):
                 if self.set_state(DaemonState.STOPPING):
                     should_stop = True
 
-- 
2.43.0


From f071b905d883d3305dd500ba00675079c6c6a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 36/62] fix: only wait for websocket connections that will be
 closed

---
 vtelem/daemon/websocket.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vtelem/daemon/websocket.py b/vtelem/daemon/websocket.py
index a0c29ce..fe23a41 100644
--- a/vtelem/daemon/websocket.py
+++ b/vtelem/daemon/websocket.py
@@ -63,14 +63,13 @@ class WebsocketDaemon(EventLoopDaemon):
             ws_handler = create_default_handler(message_consumer)
 
         async def handler(websocket, path) -> None:
-            with self.lock:
-                self.wait_count += 1
-
             laddr = websocket.local_address
             raddr = websocket.remote_address
             fstr = "connection ('%s') opened '%s:%d' -> '%s:%d'"
             LOG.info(fstr, path, laddr[0], laddr[1], raddr[0], raddr[1])
 
+            with self.lock:
+                self.wait_count += 1
             try:
                 assert ws_handler is not None
                 await ws_handler(websocket, path)
-- 
2.43.0


From 18a59e91568b96fc60e0f028e04b61a84e6c09e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 37/62] fix: forget disconnected tcp clients

---
 vtelem/daemon/tcp_telemetry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 16546ad..648faab 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -51,6 +51,8 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
             sem.acquire()  # pylint:disable=consider-using-with
         finally:
             writer.remove_stream(stream_id, False)
+            with daemon.lock:
+                daemon.client_sems.pop(stream_id, None)
             LOG.info(
                 "%s:%d disconnected",
                 self.client_address[0],
@@ -89,10 +91,9 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
 
             self.server.shutdown()
             with self.lock:
-                closed_clients = list(self.client_sems.keys())
-            for client in closed_clients:
-                self.client_sems[client].release()
-                del self.client_sems[client]
+                for sem in self.client_sems.values():
+                    sem.release()
+                self.client_sems.clear()
 
         self.function["inject_stop"] = stopper
         self.server.daemon = self  # type: ignore
-- 
2.43.0


From 2ddefbc3dd8722a389f9abe09a92f591a244ef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 38/62] fix: do not mask a failure to read a channel group

---
 vtelem/channel/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index 8b0faa7..a98f0f8 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -98,8 +98,8 @@ class ChannelGroup:
         synced with the environment.
         """
 
+        data = self.read()
         try:
-            data = self.read()
             yield data
         finally:
             self.write(data)
-- 
2.43.0


From 622411ebe54309aa34f96567c1dcc65f602d5efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 39/62] fix: channel commands run with the environment locked

---
 vtelem/factories/telemetry_environment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vtelem/factories/telemetry_environment.py b/vtelem/factories/telemetry_environment.py
index 1bb2056..0433e14 100644
--- a/vtelem/factories/telemetry_environment.py
+++ b/vtelem/factories/telemetry_environment.py
@@ -133,9 +133,10 @@ def create_channel_commander(
             return False, f"operation '{cmd['operation']}' not supported"
 
         # return the result of the operation
-        return supported_ops[cmd["operation"]](
-            (chan, chan_id), cmd, env.get_time(), env
-        )
+        with env.lock:
+            return supported_ops[cmd["operation"]](
+                (chan, chan_id), cmd, env.get_time(), env
+            )
 
     ops_str = ", ".join(f"'{val}'" for val in supported_ops)
     daemon.register_consumer(
-- 
2.43.0


From 0911a5b50be0d64638300b2b87b10f4183d7aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 40/62] fix: stopping a disconnected socket client must end its
 stream

---
 vtelem/client/socket.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index c8cde27..2faf99b 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -61,8 +61,12 @@ class SocketClient(DaemonBase, TelemetryClient):
             queue that frames are over.
             """
             LOG.info("%s: closing socket reader", self.name)
-            stopper()
-            self.close()
+            try:
+                stopper()
+            except OSError as exc:
+                LOG.warning("%s: %s", self.name, exc)
+            finally:
+                self.close()
 
         self.function["inject_stop"] = stop_server
 
-- 
2.43.0


From 29efd254b67b73d73a8da11bb0cb1166481b4660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:02 +0000
Subject: [PATCH 41/62] fix: keep partial size prefixes after discarding an
 oversized frame

---
 vtelem/frame/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/frame/processor.py b/vtelem/frame/processor.py
index 8533cf7..e6dbd62 100644
--- a/vtelem/frame/processor.py
+++ b/vtelem/frame/processor.py
@@ -35,7 +35,7 @@ class FrameProcessor:
             self.size_stale = False
 
         # clear buffer state if we get an unreasonable value
-        if self.size > mtu:
+        if not self.size_stale and self.size > mtu:
             self.buffer.reset()
             self.size_stale = True
 
-- 
2.43.0


From 92023c7d6c0c3a2833302b22896caae2c4ec5102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:20 +0000
Subject: [PATCH 42/62] fix: respond to HTTP requests with an invalid URI

---
 vtelem/classes/http_request_mapper.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 44b868d..d055d7e 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -123,6 +123,12 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         self.send_error(HTTPStatus.NOT_FOUND, explain=msg)
         self.close_connection = True
 
+    def _bad_request_response(self, exc: ValueError) -> None:
+        """Respond to a request that couldn't be parsed."""
+
+        self.send_error(HTTPStatus.BAD_REQUEST, explain=str(exc))
+        self.close_connection = True
+
     def _handle(self, _data: dict = None) -> None:
         """Handle an arbitrary request."""
 
@@ -132,7 +138,10 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         data.update(_data)
 
         # parse the request uri
-        parsed = urllib.parse.urlparse(self.path)  # type: ignore
+        try:
+            parsed = urllib.parse.urlparse(self.path)  # type: ignore
+        except ValueError as exc:
+            return self._bad_request_response(exc)
         self.path = parsed.path
         if parsed.query:
             data.update(urllib.parse.parse_qs(parsed.query))  # type: ignore
-- 
2.43.0


From d3c1ddb954f31ee3da3808131257a58903f954b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:20 +0000
Subject: [PATCH 43/62] fix: respond to POST requests with invalid body data

---
 vtelem/classes/http_request_mapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index d055d7e..19ecd69 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -193,7 +193,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
     def do_POST(self) -> None:  # pylint: disable=invalid-name
         """Respond to a POST request."""
-        return self._handle(get_post_request_data(self))
+        try:
+            data = get_post_request_data(self)
+        except ValueError as exc:
+            return self._bad_request_response(exc)
+        return self._handle(data)
 
 
 def parse_content_type(value: str) -> Opt[dict]:
-- 
2.43.0


From 8f8e4baac402a057b962be766a7ac5049c4da68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:12 +0000
Subject: [PATCH 44/62] fix: enum lookups added entries for channels that
 aren't enums

---
 vtelem/telemetry/environment.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index f0ace57..582001e 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -70,7 +70,7 @@ class TelemetryEnvironment(ChannelEnvironment):
     def command_enum_channel_id(self, chan_id: int, value: str) -> bool:
         """Attempt to command an enum-based channel by integer identifier."""
 
-        enum_type = self.enum_channel_types[chan_id]
+        enum_type = self.enum_channel_types.get(chan_id, -1)
         enum_def = self.enum_registry.get_item(enum_type)
         assert enum_def is not None
         return self.command_channel_id(chan_id, enum_def.get_value(value))
@@ -139,7 +139,7 @@ class TelemetryEnvironment(ChannelEnvironment):
         if name in self.metrics:
             chan = self.registries["channel"].get_item(self.metrics[name])
             assert chan is not None
-            enum_type = self.enum_channel_types[self.metrics[name]]
+            enum_type = self.enum_channel_types.get(self.metrics[name], -1)
             enum_def = self.enum_registry.get_item(enum_type)
             assert enum_def is not None
             assert chan.set(enum_def.get_value(data), time)
@@ -148,7 +148,7 @@ class TelemetryEnvironment(ChannelEnvironment):
         """Get the currently-held enum String of a metric channel by name."""
 
         assert self.metrics is not None
-        enum_type = self.enum_channel_types[self.metrics[name]]
+        enum_type = self.enum_channel_types.get(self.metrics[name], -1)
         enum_def = self.enum_registry.get_item(enum_type)
         assert enum_def is not None
         return enum_def.get_str(self.get_metric(name))
@@ -156,7 +156,7 @@ class TelemetryEnvironment(ChannelEnvironment):
     def get_enum_value(self, chan_id: int) -> str:
         """Get the String value currently held by an enum channel."""
 
-        enum_type = self.enum_channel_types[chan_id]
+        enum_type = self.enum_channel_types.get(chan_id, -1)
         enum_def = self.enum_registry.get_item(enum_type)
         assert enum_def is not None
         return enum_def.get_str(self.get_value(chan_id))
@@ -164,7 +164,7 @@ class TelemetryEnvironment(ChannelEnvironment):
     def set_enum_now(self, channel_id: int, data: str) -> bool:
         """Set an enum channel with the provided value, assign time."""
 
-        enum_type = self.enum_channel_types[channel_id]
+        enum_type = self.enum_channel_types.get(channel_id, -1)
         enum_def = self.enum_registry.get_item(enum_type)
         assert enum_def is not None
         return self.set_now(channel_id, enum_def.get_value(data))
-- 
2.43.0


From 8381389c20e6dcd98e43f62e2c7dffe56e281505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:51 +0000
Subject: [PATCH 45/62] fix: daemons work with an environment that has no
 metrics

---
 vtelem/telemetry/environment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 582001e..bd2d3a2 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -135,8 +135,7 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Set the value for an enumeration metric."""
 
-        assert self.metrics is not None
-        if name in self.metrics:
+        if self.metrics is not None and name in self.metrics:
             chan = self.registries["channel"].get_item(self.metrics[name])
             assert chan is not None
             enum_type = self.enum_channel_types.get(self.metrics[name], -1)
-- 
2.43.0


From 40caffc8669d506e87f70ac8fdb4245dbad54298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:51 +0000
Subject: [PATCH 46/62] fix: scaling time must not leave daemons paused

---
 vtelem/telemetry/server.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index b2150ad..acafcf1 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -191,9 +191,12 @@ class TelemetryServer(HttpDaemon):
     def scale_speed(self, scalar: float) -> None:
         """Change the time scaling for the time keeper."""
 
-        assert self.daemons.perform_all(DaemonOperation.PAUSE)
-        self.time_keeper.scale(scalar)
-        assert self.daemons.perform_all(DaemonOperation.UNPAUSE)
+        # daemons that aren't running can't be paused, and don't need to be
+        self.daemons.perform_all(DaemonOperation.PAUSE)
+        try:
+            self.time_keeper.scale(scalar)
+        finally:
+            self.daemons.perform_all(DaemonOperation.UNPAUSE)
 
     def start_all(self) -> None:
         """Start everything."""
-- 
2.43.0


From d13f595b2554589304032925469497ed50781380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:51 +0000
Subject: [PATCH 47/62] fix: stop the whole server even if a daemon can't be
 stopped

---
 vtelem/telemetry/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index acafcf1..02c657d 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -216,14 +216,15 @@ class TelemetryServer(HttpDaemon):
     def stop_all(self) -> None:
         """Stop everything."""
 
-        assert self.daemons.perform_all(DaemonOperation.STOP)
+        stopped = self.daemons.perform_all(DaemonOperation.STOP)
 
         if self.http_enabled:
-            assert self.perform(DaemonOperation.STOP)
+            stopped = self.perform(DaemonOperation.STOP) and stopped
         self.close()
 
         self.udp_clients.remove_all()
         self.state_sem.release()
+        assert stopped
 
     @contextmanager
     def booted(self, *_, **__) -> Iterator[None]:
-- 
2.43.0


From b9eaa482242914d73c1c3912c35a00ac0cd09ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:42 +0000
Subject: [PATCH 48/62] fix: describe a registry of channel groups

GET /registries failed as soon as a channel group existed: groups are not JSON.
---
 vtelem/channel/group.py          | 15 +++++++++++++++
 vtelem/channel/group_registry.py |  7 ++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index a98f0f8..53bb295 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -5,6 +5,7 @@ vtelem - Simplify management of logical groups of channels and synchronize
 
 # built-in
 from contextlib import contextmanager
+from json import JSONEncoder
 from typing import Any, Dict, Iterator
 
 # internal
@@ -127,3 +128,17 @@ class ChannelGroup:
                     self.env.set_enum_now(chan["id"], value)
                 else:
                     self.env.set_now(chan["id"], value)
+
+
+class ChannelGroupEncoder(JSONEncoder):
+    """A JSON encoder for a group of channels."""
+
+    def default(self, o) -> dict:
+        """Implement serialization for a channel group."""
+
+        assert isinstance(o, ChannelGroup)
+        channels = list(o.channels.items())
+        return {
+            "name": o.name,
+            "channels": {name: chan["id"] for name, chan in channels},
+        }
diff --git a/vtelem/channel/group_registry.py b/vtelem/channel/group_registry.py
index f0208a8..42df380 100644
--- a/vtelem/channel/group_registry.py
+++ b/vtelem/channel/group_registry.py
@@ -7,7 +7,7 @@ from contextlib import contextmanager
 from typing import Any, Dict, Iterator
 
 # internal
-from vtelem.channel.group import ChannelGroup
+from vtelem.channel.group import ChannelGroup, ChannelGroupEncoder
 from vtelem.enums.primitive import Primitive
 from vtelem.registry import Registry
 from vtelem.telemetry.environment import TelemetryEnvironment
@@ -22,6 +22,11 @@ class ChannelGroupRegistry(Registry[ChannelGroup]):
         super().__init__("channel_groups")
         self.env = env
 
+    def describe(self, indented: bool = False) -> str:
+        """Obtain a JSON String of the group registry's current state."""
+
+        return self.describe_raw(indented, ChannelGroupEncoder)
+
     def create_group(self, name: str) -> int:
         """Add a new, named channel group."""
 
-- 
2.43.0


From 06d04c92dc5bd02fb792d2f55a20af83cd1d51b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:42 +0000
Subject: [PATCH 49/62] fix: an element which a metered queue refuses is not
 counted as enqueued

---
 vtelem/classes/metered_queue.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/metered_queue.py b/vtelem/classes/metered_queue.py
index 48a584a..77512a4 100644
--- a/vtelem/classes/metered_queue.py
+++ b/vtelem/classes/metered_queue.py
@@ -3,7 +3,7 @@ vtelem - Allows queues to publish telemetry metrics.
 """
 
 # built-in
-from queue import Queue
+from queue import Full, Queue
 from typing import Any
 
 # internal
@@ -58,7 +58,13 @@ class MeteredQueue(Queue):
         time = self.env.get_time()
         self.env.metric_add(f"{self.name}.elements", 1, time)
         self.env.metric_add(f"{self.name}.total_enqueued", 1, time)
-        super().put(item, block, timeout)
+        try:
+            super().put(item, block, timeout)
+        except (Full, ValueError):
+            # counted before anyone could dequeue it, but not enqueued
+            self.env.metric_add(f"{self.name}.elements", -1, time)
+            self.env.metric_add(f"{self.name}.total_enqueued", -1, time)
+            raise
 
 
 def create(
-- 
2.43.0


From 9017c093b47410ae06204f24657b088371ceef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:42 +0000
Subject: [PATCH 50/62] fix: a udp client which cannot flush does not stop the
 stream writer

---
 vtelem/classes/udp_client_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index a58338a..b5e9c2a 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -48,7 +48,7 @@ class UdpClientManager(LockEntity):
             LOG.info("closing stream client '%s:%d'", name[0], name[1])
             try:
                 sock_file.close()
-            except ConnectionRefusedError:  # pragma: no cover
+            except OSError:  # pending data could not be sent
                 pass
             finally:
                 sock.close()
-- 
2.43.0


From c5ddb4a1cf06052465c2863969a27f49138e3e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:42 +0000
Subject: [PATCH 51/62] fix: publish a daemon's counts in the order they change

---
 vtelem/daemon/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index c19ecef..0f4100e 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -215,7 +215,7 @@ class DaemonBase(TimeEntity):
 
         with self.lock:
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def increment_metric(self, name: str, value: Any = 1) -> None:
         """Increment a named metric."""
@@ -223,7 +223,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] + value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def decrement_metric(self, name: str, value: Any = 1) -> None:
         """Decrement a named metric."""
@@ -231,7 +231,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] - value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def get_state(self) -> DaemonState:
         """Query this daemon's current state."""
-- 
2.43.0


From 880b5bc1be085752ced76e0bda311f81331d27fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:42 +0000
Subject: [PATCH 52/62] fix: count a stream before the writer can fail and
 remove it

The count would go below zero, which its metric refuses with an assertion in
the writer's thread.
---
 vtelem/stream/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index e9588cc..44ec30b 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -170,7 +170,7 @@ class StreamWriter(QueueDaemon):
             self.stream_closers[result] = stream_closer
             self.stream_attrs[result]["flush"] = flush
             self.curr_id += 1
-        self.increment_metric("stream_count")
+            self.increment_metric("stream_count")
         return result
 
     @contextmanager
-- 
2.43.0


From fafd59bbab5ff506d251cf317d947b900b4c1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:20 +0000
Subject: [PATCH 53/62] fix: validate a loaded object with the schemas of its
 loader

---
 vtelem/classes/serdes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/serdes.py b/vtelem/classes/serdes.py
index 7d611e7..b64179f 100644
--- a/vtelem/classes/serdes.py
+++ b/vtelem/classes/serdes.py
@@ -145,7 +145,7 @@ class Serializable:
         """Create a serializable from a text stream loaded as JSON."""
 
         data: ObjectData = load(stream, cls=self.params.decoder, **load_kwargs)
-        return self.__class__(data, self.params)
+        return self.__class__(data, self.params, manager=self.manager)
 
     def load_str(self, data: str, **load_kwargs) -> "Serializable":
         """Create a serializable from a String loaded as JSON."""
-- 
2.43.0


From 7f224c063dcff2b3ccc851e2f947e47d98e168b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:20 +0000
Subject: [PATCH 54/62] fix: let the user enum schema accept any lower-case
 identifier

---
 docs/serializable.md                    | 4 ++--
 local/serializables/UserEnum.yaml       | 4 ++--
 vtelem/data/serializables/UserEnum.yaml | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/docs/serializable.md b/docs/serializable.md
index de28ca4..e352ba4 100644
--- a/docs/serializable.md
+++ b/docs/serializable.md
@@ -85,12 +85,12 @@ message.*
         },
         "type": "dict",
         "valuesrules": {
-            "regex": "[a-z]+",
+            "regex": "[a-z0-9_]+",
             "type": "string"
         }
     },
     "name": {
-        "regex": "[a-z_]+",
+        "regex": "[a-z0-9_]+",
         "type": "string"
     },
     "type": {
diff --git a/local/serializables/UserEnum.yaml b/local/serializables/UserEnum.yaml
index 616046a..8fd24b3 100644
--- a/local/serializables/UserEnum.yaml
+++ b/local/serializables/UserEnum.yaml
@@ -9,7 +9,7 @@ message: enum
 cerberus:
   name:
     type: string
-    regex: "[a-z_]+"
+    regex: "[a-z0-9_]+"
   type:
     type: string
     regex: "^user_enum$"
@@ -21,7 +21,7 @@ cerberus:
       type: integer
     valuesrules:
       type: string
-      regex: "[a-z]+"
+      regex: "[a-z0-9_]+"
 example:
   name: "sample_enum"
   mappings:
diff --git a/vtelem/data/serializables/UserEnum.yaml b/vtelem/data/serializables/UserEnum.yaml
index 6b0009c..6b3e1fa 100644
--- a/vtelem/data/serializables/UserEnum.yaml
+++ b/vtelem/data/serializables/UserEnum.yaml
@@ -2,6 +2,6 @@ default: {type: string}
 mappings:
   keysrules: {type: integer}
   type: dict
-  valuesrules: {regex: '[a-z]+', type: string}
-name: {regex: '[a-z_]+', type: string}
+  valuesrules: {regex: '[a-z0-9_]+', type: string}
+name: {regex: '[a-z0-9_]+', type: string}
 type: {regex: ^user_enum$, type: string}
-- 
2.43.0


From 40eac1865ed11e6a2a9adc8e055af655171216cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:58 +0000
Subject: [PATCH 55/62] fix: answer websocket commands that cannot be read at
 all

---
 vtelem/factories/websocket_daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/factories/websocket_daemon.py b/vtelem/factories/websocket_daemon.py
index eb4a289..e123924 100644
--- a/vtelem/factories/websocket_daemon.py
+++ b/vtelem/factories/websocket_daemon.py
@@ -37,7 +37,7 @@ def commandable_websocket_daemon(
             cmd_result = daemon.execute(json.loads(message))
             result["success"] = cmd_result[0]
             result["message"] = cmd_result[1]
-        except json.decoder.JSONDecodeError as exc:
+        except (ValueError, RecursionError) as exc:
             result["message"] = str(exc)
 
         await websocket.send(json.dumps(result))
-- 
2.43.0


From cc3c76f2550a0f622ae52821cc63beb61c23d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:58 +0000
Subject: [PATCH 56/62] fix: read on from a file when some of a limited number
 of frames do not count

---
 vtelem/client/file.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index 681735c..6686f84 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -62,14 +62,17 @@ class FileClient(DaemonBase, TelemetryClient):
 
         # Determine how many frames to process, we can either process them all
         # or we want to truncate so we don't process more than was requested.
-        process_count = len(self.to_process)
-        if task.max_frames is not None:
-            process_count = min(
-                process_count, task.max_frames - self.frame_count
-            )
+        # Payloads that can't be decoded don't count toward the limit.
+        while self.to_process and (
+            task.max_frames is None or self.frame_count < task.max_frames
+        ):
+            process_count = len(self.to_process)
+            if task.max_frames is not None:
+                process_count = min(
+                    process_count, task.max_frames - self.frame_count
+                )
 
-        # Consume the desired number of payloads from our process list.
-        if process_count:
+            # Consume the desired number of payloads from our process list.
             to_process = [self.to_process.pop(0) for _ in range(process_count)]
             self.frame_count += self.handle_frames(to_process)
 
-- 
2.43.0


From f5c3fb0a054554eabe541c78ea883b1aaeadd8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:42 +0000
Subject: [PATCH 57/62] fix: let a websocket server given any port tell clients
 the one it listens on

---
 vtelem/daemon/websocket.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vtelem/daemon/websocket.py b/vtelem/daemon/websocket.py
index fe23a41..741f7dd 100644
--- a/vtelem/daemon/websocket.py
+++ b/vtelem/daemon/websocket.py
@@ -5,6 +5,7 @@ vtelem - An interface for managing websocket servers.
 # built-in
 import asyncio
 import logging
+import socket
 from typing import Any, Callable, Optional
 
 # third-party
@@ -12,7 +13,7 @@ import websockets
 
 # internal
 from vtelem.daemon.event_loop import EventLoopDaemon
-from vtelem.mtu import Host, get_free_tcp_port
+from vtelem.mtu import Host, host_resolve_zero
 from vtelem.registry.service import ServiceRegistry
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -51,9 +52,12 @@ class WebsocketDaemon(EventLoopDaemon):
         super().__init__(name, env, time_keeper)
 
         # listen on all interfaces, on an arbitrary port by default
+        # clients need the actual port, if any port can be used
         if address is None:
-            address = Host(port=get_free_tcp_port())
-        self.address = address
+            address = Host()
+        self.address = host_resolve_zero(
+            socket.SOCK_STREAM, Host(*address)
+        )
         self.secure = secure
         self.server = None
         self.serving = False
-- 
2.43.0


From 0ff69b3492577ae5d6e5f39aa8f040b5954c336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:42 +0000
Subject: [PATCH 58/62] fix: don't start the daemon which has the name when an
 application can't be registered

---
 vtelem/telemetry/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 02c657d..b9b7ca7 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -182,7 +182,7 @@ class TelemetryServer(HttpDaemon):
             init=setup_caller,
         )
         result = self.daemons.add_daemon(daemon, ["telemetry"])
-        if not self.first_start:
+        if result and not self.first_start:
             app_daemon = self.daemons.get(name)
             assert app_daemon is not None
             assert app_daemon.perform(DaemonOperation.START)
-- 
2.43.0


From 81ac7255eb2433dd05f9adda6acdaecea975fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:42 +0000
Subject: [PATCH 59/62] fix: start decoding at a frame boundary after
 reconnecting

---
 vtelem/client/socket.py    | 10 +++++++++-
 vtelem/client/websocket.py |  6 ++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index 2faf99b..c1a8384 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -14,6 +14,7 @@ from vtelem.channel.registry import ChannelRegistry
 from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonBase, DaemonState
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -86,7 +87,14 @@ class SocketClient(DaemonBase, TelemetryClient):
 
         # If an 'init' function is provided, re-initialize the socket.
         if "init" in self.function:
-            self.socket = self.function["init"](self.socket)
+            sock = self.function["init"](self.socket)
+
+            # Bytes left over from a closed connection aren't continued by a
+            # new one.
+            if sock is not self.socket:
+                self.processor = FrameProcessor()
+                self.socket = sock
+
             self.update_name(self.socket)
 
         frame_size = new_default("count")
diff --git a/vtelem/client/websocket.py b/vtelem/client/websocket.py
index 277f30e..2202831 100644
--- a/vtelem/client/websocket.py
+++ b/vtelem/client/websocket.py
@@ -18,6 +18,7 @@ from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonState
 from vtelem.daemon.event_loop import EventLoopDaemon
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU, Host
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -57,6 +58,11 @@ class WebsocketClient(EventLoopDaemon, TelemetryClient):
 
             frame_size = new_default("count")
             assert self.env is not None
+
+            # Bytes left over from a previous connection aren't continued by
+            # this one.
+            self.processor = FrameProcessor()
+
             try:
                 while self.state != DaemonState.STOPPING:
                     self.handle_frames(
-- 
2.43.0


From 8caab882fc344c74e4c7011aec2e9984dcf435ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:03 +0000
Subject: [PATCH 60/62] fix: keep a server's protocol when its TLS certificate
 cannot be read

---
 vtelem/daemon/http.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/http.py b/vtelem/daemon/http.py
index e1d16f6..a6f3904 100644
--- a/vtelem/daemon/http.py
+++ b/vtelem/daemon/http.py
@@ -67,8 +67,9 @@ class HttpDaemon(DaemonBase):
 
         with self.lock:
             assert self.get_state() == DaemonState.IDLE
-            self.ssl_context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
-            self.ssl_context.load_cert_chain(certfile_path, keyfile_path)
+            context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
+            context.load_cert_chain(certfile_path, keyfile_path)
+            self.ssl_context = context
 
     def get_base_url(self) -> str:
         """Get this server's root url as a String."""
-- 
2.43.0


From 33a4b68b22c079ac2cf11a0cffb629ef64dd9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:02 +0000
Subject: [PATCH 61/62] fix: managed uses of a daemon undo only what they did

---
 vtelem/daemon/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 0f4100e..4ed491e 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -267,8 +267,8 @@ class DaemonBase(TimeEntity):
         automatically stops it.
         """
 
+        assert self.start(*args, **kwargs)
         try:
-            assert self.start(*args, **kwargs)
             yield
         finally:
             stop_result = self.stop()
@@ -313,8 +313,8 @@ class DaemonBase(TimeEntity):
     def paused(self) -> Iterator[None]:
         """Exposes pausing and unpausing while yielded."""
 
+        assert self.pause()
         try:
-            assert self.pause()
             yield
         finally:
             assert self.unpause()
-- 
2.43.0


From 8e8d18826099b25d33520ca278dcf16dbd44f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:02 +0000
Subject: [PATCH 62/62] fix: refuse a negative content length, it reads until
 the client leaves

---
 vtelem/classes/http_request_mapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 19ecd69..fec640e 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -363,6 +363,8 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
     if all(key in request.headers for key in keys):
         content_type = parse_content_type(request.headers["Content-Type"])
         length = int(request.headers["Content-Length"])
+        if length < 0:
+            raise ValueError(f"invalid content length '{length}'")
         if content_type is not None and content_type["type"] in parsers:
             subparsers = parsers[content_type["type"]]
             if content_type["subtype"] in subparsers:
-- 
2.43.0

