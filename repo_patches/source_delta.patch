From 878b672c940d7268a5e7ff2784a30ed00497aef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 01/41] fix: stop serving a connection whose authentication
 failed

A failed handshake or COM_CHANGE_USER wrote ERR but then carried on into
session.init() and the command phase, so unauthenticated clients could run
queries.
---
 mysql_mimic/connection.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 5160192..c51eee0 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -33,6 +33,10 @@ from mysql_mimic.utils import seq, aiterate, cooperative_iterate
 logger = logging.getLogger(__name__)
 
 
+class AuthenticationFailed(MysqlError):
+    """The client failed to authenticate, so nothing else may be served on its connection"""
+
+
 class Connection:
     _MAX_PREPARED_STMT_ID = 2**32
 
@@ -96,6 +100,9 @@ class Connection:
         try:
             await self.connection_phase()
             await self.session.init(self)
+        except AuthenticationFailed as e:
+            await self.stream.write(self.error(msg=e.msg, code=e.code))
+            return
         except Exception as e:
             await self.stream.write(self.error(msg=e, code=ErrorCode.HANDSHAKE_ERROR))
             raise
@@ -208,13 +215,9 @@ class Connection:
         user = await self.identity_provider.get_user(username)
 
         if not user:
-            await self.stream.write(
-                self.error(
-                    msg=f"User {username} does not exist",
-                    code=ErrorCode.USER_DOES_NOT_EXIST,
-                )
+            raise AuthenticationFailed(
+                f"User {username} does not exist", ErrorCode.USER_DOES_NOT_EXIST
             )
-            return
 
         user_plugin = (
             self.identity_provider.get_plugin(user.auth_plugin or "")
@@ -278,11 +281,9 @@ class Connection:
                 auth_info.user.name,
                 user_plugin.name,
             )
-            await self.stream.write(
-                self.error(
-                    msg=decision.msg or f"Access denied for user {auth_info.user.name}",
-                    code=ErrorCode.ACCESS_DENIED_ERROR,
-                )
+            raise AuthenticationFailed(
+                decision.msg or f"Access denied for user {auth_info.user.name}",
+                ErrorCode.ACCESS_DENIED_ERROR,
             )
 
     async def command_phase(self) -> None:
@@ -314,7 +315,12 @@ class Connection:
                 elif command == types.Commands.COM_PING:
                     await self.handle_ping(rest)
                 elif command == types.Commands.COM_CHANGE_USER:
-                    await self.handle_change_user(rest)
+                    try:
+                        await self.handle_change_user(rest)
+                    except MysqlError as e:
+                        raise AuthenticationFailed(e.msg, e.code) from e
+                    except Exception as e:
+                        raise AuthenticationFailed(str(e)) from e
                 elif command == types.Commands.COM_RESET_CONNECTION:
                     await self.handle_reset_connection(rest)
                 elif command == types.Commands.COM_DEBUG:
@@ -334,6 +340,9 @@ class Connection:
             except MysqlError as e:
                 logger.error(e)
                 await self.stream.write(self.error(msg=e.msg, code=e.code))
+                if isinstance(e, AuthenticationFailed):
+                    # Same as a failed handshake - don't serve anything else
+                    return
             except asyncio.CancelledError:
                 if self._kill == KillKind.QUERY:
                     logger.info("Query killed on connection %s", self.connection_id)
-- 
2.43.0


From 5f2be1c99b680fff40a1c5f3c6dee338557b46f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 02/41] fix: answer COM_CHANGE_USER once, after the session was
 reset

The OK was sent before session.reset(), so an error there produced a second
response packet for the same command.
---
 mysql_mimic/connection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index c51eee0..3d02052 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -174,6 +174,7 @@ class Connection:
             auth_response=response.auth_response,
             connect_attrs=response.connect_attrs,
         )
+        await self.stream.write(self.ok())
         self.stream.reset_seq()
 
     async def handle_change_user(self, data: bytes) -> None:
@@ -201,7 +202,9 @@ class Connection:
             connect_attrs=com_change_user.connect_attrs,
         )
 
+        # Reset before replying - if it fails, the only response has to be the ERR
         await self.session.reset()
+        await self.stream.write(self.ok())
 
     async def authenticate(
         self,
@@ -274,7 +277,6 @@ class Connection:
 
         if isinstance(decision, Success):
             self.session.username = decision.authenticated_as
-            await self.stream.write(self.ok())
         else:
             logger.info(
                 "Access denied for user '%s' with plugin '%s'",
-- 
2.43.0


From 686a90ff7d34a72c4c38090b4750c700aafd7cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 03/41] fix: don't reply to COM_STMT_SEND_LONG_DATA for an
 unknown statement

The command has no response, so the ERR was taken for the response to the
next command.
---
 mysql_mimic/connection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 3d02052..0c36549 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -471,7 +471,11 @@ class Connection:
         COM_STMT_SEND_LONG_DATA sends the data for a column.
         """
         com_stmt_send_long_data = packets.parse_com_stmt_send_long_data(data)
-        stmt = self.get_stmt(com_stmt_send_long_data.stmt_id)
+        stmt = self.prepared_stmts.get(com_stmt_send_long_data.stmt_id)
+        if stmt is None:
+            # This command never gets a response, not even an error
+            logger.info("Unknown statement: %s", com_stmt_send_long_data.stmt_id)
+            return
         if stmt.param_buffers is None:
             stmt.param_buffers = {}
         buffer = stmt.param_buffers.setdefault(
-- 
2.43.0


From 8d48450051dfcdbbd8be5cbe8164a6a966c44b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 04/41] fix: send each COM_FIELD_LIST column definition in its
 own packet

---
 mysql_mimic/connection.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 0c36549..b84dfa2 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -404,19 +404,17 @@ class Connection:
         com_field_list = parse_com_field_list(self.client_charset, data)
         sql = com_field_list_to_show_statement(com_field_list)
         result = await self.query(sql=sql, query_attrs={})
-        columns = b"".join(
-            [
+        async for row in aiterate(result.rows):
+            await self.stream.write(
                 make_column_definition_41(
                     server_charset=self.server_charset,
                     table=com_field_list.table,
                     name=row[0],
                     is_com_field_list=True,
                     default=row[4],
-                )
-                async for row in aiterate(result.rows)
-            ]
-        )
-        await self.stream.write(columns)
+                ),
+                drain=False,
+            )
         await self.stream.write(self.ok_or_eof())
 
     async def handle_query(self, data: bytes) -> None:
-- 
2.43.0


From 2bd671d117d13173d28be17752a612dcca578931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 05/41] fix: no EOF after parameter definitions if the client
 negotiated its removal

---
 mysql_mimic/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index b84dfa2..44ac9ca 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -673,4 +673,5 @@ class Connection:
                 yield packets.make_column_definition_41(
                     server_charset=self.server_charset, name="?"
                 )
-            yield self.eof()
+            if not self.deprecate_eof():
+                yield self.eof()
-- 
2.43.0


From 8e2e023a007abf1519dac2a6d83343b43089374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 06/41] fix: read packet headers that arrive in several
 segments

read(4) may return fewer than 4 bytes.
---
 mysql_mimic/stream.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index ed8c280..d88160e 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -27,10 +27,10 @@ class MysqlStream:
     async def read(self) -> bytes:
         data = b""
         while True:
-            header = await self.reader.read(4)
-
-            if not header:
-                raise ConnectionClosed()
+            try:
+                header = await self.reader.readexactly(4)
+            except asyncio.IncompleteReadError as e:
+                raise ConnectionClosed() from e
 
             i = struct.unpack("<I", header)[0]
             payload_length = i & 0x00FFFFFF
-- 
2.43.0


From c7dbe60b75dc774d407203820a6335085be4fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 07/41] fix: don't lose buffered packets when the client reads
 slowly

Since Python 3.12 the selector transport keeps (a view of) the object it
was given until the socket accepts it, but the buffer was cleared.
---
 mysql_mimic/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index d88160e..debe73e 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -71,7 +71,8 @@ class MysqlStream:
 
     async def drain(self) -> None:
         if self._buffer:
-            self.writer.write(self._buffer)
+            # The transport may keep a reference to what it was given, so don't clear that
+            self.writer.write(bytes(self._buffer))
             self._buffer.clear()
         await self.writer.drain()
 
-- 
2.43.0


From 170e8b437ade873337131cb0eea441570e007fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 08/41] fix: don't lose TLS bytes received along with the SSL
 request

---
 mysql_mimic/stream.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index debe73e..8c0e292 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -1,6 +1,7 @@
 import asyncio
 import struct
 from ssl import SSLContext
+from typing import cast
 
 from mysql_mimic.errors import MysqlError, ErrorCode
 from mysql_mimic.types import uint_3, uint_1
@@ -83,6 +84,14 @@ class MysqlStream:
         transport = self.writer.transport
         protocol = transport.get_protocol()
         loop = asyncio.get_event_loop()
+
+        # The client may have sent (part of) its ClientHello along with the SSL request,
+        # in which case the reader has already taken it from the transport.
+        early_data = bytes(self.reader._buffer)  # type: ignore # pylint: disable=protected-access
+        self.reader._buffer.clear()  # type: ignore # pylint: disable=protected-access
+        if early_data:
+            # loop.start_tls() schedules the new protocol's connection_made()
+            loop.call_soon(loop.call_soon, _feed_protocol, transport, early_data)
         new_transport = await loop.start_tls(
             transport=transport,
             protocol=protocol,
@@ -93,3 +102,17 @@ class MysqlStream:
         # This seems to be the easiest way to wrap the socket created by asyncio
         self.writer._transport = new_transport  # type: ignore # pylint: disable=protected-access
         self.reader._transport = new_transport  # type: ignore # pylint: disable=protected-access
+
+
+def _feed_protocol(transport: asyncio.Transport, data: bytes) -> None:
+    """Pass data to a transport's protocol, as if it had just been received"""
+    protocol = transport.get_protocol()
+    if isinstance(protocol, asyncio.BufferedProtocol):
+        while data:
+            buffer = protocol.get_buffer(len(data))
+            nbytes = min(len(buffer), len(data))
+            buffer[:nbytes] = data[:nbytes]
+            protocol.buffer_updated(nbytes)
+            data = data[nbytes:]
+    else:
+        cast(asyncio.Protocol, protocol).data_received(data)
-- 
2.43.0


From f2a78e70afca8023d3082f26a2a41b363fd5c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 09/41] fix: buffer a whole payload before draining

If the connection's statement is killed while draining between the packets
of a payload, the ERR would be taken for the rest of that payload.
---
 mysql_mimic/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index 8c0e292..dfe72a9 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -63,12 +63,13 @@ class MysqlStream:
             packet = payload_length + sequence_id + payload
 
             self._buffer.extend(packet)
-            if drain or len(self._buffer) >= self._buffer_size:
-                await self.drain()
 
             # We are done unless len(send) == 0xFFFFFF
             if len(payload) != 0xFFFFFF:
-                return
+                break
+
+        if drain or len(self._buffer) >= self._buffer_size:
+            await self.drain()
 
     async def drain(self) -> None:
         if self._buffer:
-- 
2.43.0


From 0855b61d6aae1b7edb177fd7dfdafb19b4841f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 10/41] fix: encode TINY columns as integers in the binary
 protocol

Values other than 0 and 1 were sent as 1.  BOOL columns were sent as a raw
byte in the text protocol.
---
 mysql_mimic/results.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 9716207..7c513ca 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -165,6 +165,10 @@ async def _ensure_result_cols(
 
 
 def _binary_encode_tiny(col: ResultColumn, val: Any) -> bytes:
+    return struct.pack("<b", int(val))
+
+
+def _binary_encode_bool(col: ResultColumn, val: Any) -> bytes:
     return uint_1(int(bool(val)))
 
 
@@ -341,7 +345,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.TIME2: _unsupported,
     ColumnType.TYPED_ARRAY: _unsupported,
     ColumnType.INVALID: _unsupported,
-    ColumnType.BOOL: _binary_encode_tiny,
+    ColumnType.BOOL: _text_encode_tiny,
     ColumnType.JSON: _text_encode_str,
     ColumnType.NEWDECIMAL: _text_encode_str,
     ColumnType.ENUM: _text_encode_str,
@@ -378,7 +382,7 @@ _BINARY_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.TIME2: _unsupported,
     ColumnType.TYPED_ARRAY: _unsupported,
     ColumnType.INVALID: _unsupported,
-    ColumnType.BOOL: _binary_encode_tiny,
+    ColumnType.BOOL: _binary_encode_bool,
     ColumnType.JSON: _binary_encode_str,
     ColumnType.NEWDECIMAL: _binary_encode_str,
     ColumnType.ENUM: _binary_encode_str,
-- 
2.43.0


From 0b3c08bd4013b96c74764f5c2e18c135b1fd4f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 11/41] fix: encode negative and long durations

Python's "-1 day, 23:59:59" isn't a MySQL TIME, and the binary encoding
mixed the negative days with the positive remainder.
---
 mysql_mimic/results.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 7c513ca..a81caed 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -253,11 +253,13 @@ def _binary_encode_double(col: ResultColumn, val: Any) -> bytes:
 
 
 def _binary_encode_timedelta(col: ResultColumn, val: Any) -> bytes:
-    days = abs(val.days)
-    hours, remainder = divmod(abs(val.seconds), 3600)
+    is_negative = val.total_seconds() < 0
+    # A negative timedelta only has negative days
+    val = abs(val)
+    days = val.days
+    hours, remainder = divmod(val.seconds, 3600)
     minutes, seconds = divmod(remainder, 60)
     microseconds = val.microseconds
-    is_negative = val.total_seconds() < 0
 
     if microseconds == 0:
         if days == hours == minutes == seconds == 0:
@@ -299,6 +301,19 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
+def _text_encode_time(col: ResultColumn, val: Any) -> bytes:
+    if isinstance(val, timedelta):
+        sign = "-" if val.total_seconds() < 0 else ""
+        val = abs(val)
+        minutes, seconds = divmod(val.seconds, 60)
+        hours, minutes = divmod(minutes, 60)
+        hours += val.days * 24
+        fraction = f".{val.microseconds:06}" if val.microseconds else ""
+        val = f"{sign}{hours:02}:{minutes:02}:{seconds:02}{fraction}"
+
+    return _text_encode_str(col, val)
+
+
 def _unsupported(col: ResultColumn, val: Any) -> bytes:
     raise MysqlError(f"Unsupported column type: {col.type}")
 
@@ -334,7 +349,7 @@ _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.LONGLONG: _text_encode_str,
     ColumnType.INT24: _text_encode_str,
     ColumnType.DATE: _text_encode_str,
-    ColumnType.TIME: _text_encode_str,
+    ColumnType.TIME: _text_encode_time,
     ColumnType.DATETIME: _text_encode_str,
     ColumnType.YEAR: _text_encode_str,
     ColumnType.NEWDATE: _text_encode_str,
-- 
2.43.0


From 6844c10d8518151bd3abc5983a158182844eac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 12/41] fix: infer column types of results with duplicate
 column names

---
 mysql_mimic/results.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index a81caed..8618f3c 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -104,8 +104,9 @@ async def _ensure_result_cols(
     columns: Sequence[AllowedColumn],
 ) -> ResultSet:
     # Which columns need to be inferred?
+    # Keyed by position, since names don't have to be unique
     remaining = {
-        col: i for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
+        i: col for i, col in enumerate(columns) if not isinstance(col, ResultColumn)
     }
 
     if not remaining:
@@ -132,7 +133,7 @@ async def _ensure_result_cols(
         peeks.append(peek)
 
         inferred = []
-        for name, i in remaining.items():
+        for i, name in remaining.items():
             value = peek[i]
             if value is not None:
                 type_ = infer_type(value)
@@ -140,13 +141,13 @@ async def _ensure_result_cols(
                     name=str(name),
                     type=type_,
                 )
-                inferred.append(name)
+                inferred.append(i)
 
-        for name in inferred:
-            remaining.pop(name)
+        for i in inferred:
+            remaining.pop(i)
 
     # If we failed to find a non-null value, set the type to NULL
-    for name, i in remaining.items():
+    for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
             type=ColumnType.NULL,
-- 
2.43.0


From 73601f103714cb6e1cfbcf21ce557bbc799774a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 13/41] fix: accept any async iterable as row source, not just
 async generators

---
 mysql_mimic/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index e1444af..676f045 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import asyncio
-import inspect
 import sys
 from collections.abc import Iterator
 import random
@@ -103,7 +102,7 @@ def dict_depth(d: dict) -> int:
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
     """Iterate either an async iterable or a regular iterable"""
-    if inspect.isasyncgen(iterable):
+    if isinstance(iterable, AsyncIterable):
         async for item in iterable:
             yield item
     else:
-- 
2.43.0


From 4119c0b22048d2d1b05f069af80937a5974f71de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 14/41] fix: bound the number of rows read ahead to infer
 column types

A column with only NULLs made the server buffer the entire result.
---
 mysql_mimic/results.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index 8618f3c..a941ed7 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -81,6 +81,10 @@ AllowedResult = Union[
 ]
 
 
+# How many rows to read ahead in order to infer column types
+_MAX_PEEKS = 1000
+
+
 async def ensure_result_set(result: AllowedResult) -> ResultSet:
     if result is None:
         return ResultSet([], [])
@@ -123,11 +127,14 @@ async def _ensure_result_cols(
     # Keep track of rows we've consumed from the iterator so we can add them back
     peeks = []
 
+    exhausted = False
+
     # Find the first non-null value for each column
-    while remaining:
+    while remaining and len(peeks) < _MAX_PEEKS:
         try:
             peek = await arows.__anext__()
         except StopAsyncIteration:
+            exhausted = True
             break
 
         peeks.append(peek)
@@ -146,11 +153,12 @@ async def _ensure_result_cols(
         for i in inferred:
             remaining.pop(i)
 
-    # If we failed to find a non-null value, set the type to NULL
+    # If we failed to find a non-null value, set the type to NULL.
+    # That can't represent any of the values that might be in the rows we haven't seen.
     for i, name in remaining.items():
         columns[i] = ResultColumn(
             name=str(name),
-            type=ColumnType.NULL,
+            type=ColumnType.NULL if exhausted else ColumnType.VARCHAR,
         )
 
     # Add the consumed rows back in to the iterator
-- 
2.43.0


From f753a292ac8a1935474e5f74a3b4036eebf5fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 15/41] fix: bind prepared statement parameters as data

Quotes and backslashes in string parameters weren't escaped, question marks
in parameters were taken for placeholders, and backslashes were processed as
regex templates.  The placeholder regex also took quadratic time and was
confused by quotes within quotes and by escaped quotes.
---
 mysql_mimic/connection.py |  4 ++--
 mysql_mimic/packets.py    | 23 ++++++++++++++++++++---
 mysql_mimic/prepared.py   | 28 +++++++++++++++++++++++++---
 3 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 44ac9ca..745974c 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -21,7 +21,7 @@ from mysql_mimic.packets import (
     parse_com_field_list,
     make_column_definition_41,
 )
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, split_params
 from mysql_mimic.results import ensure_result_set, ResultSet
 from mysql_mimic import types, packets, context
 from mysql_mimic.schema import com_field_list_to_show_statement
@@ -449,7 +449,7 @@ class Connection:
         sql = self.client_charset.decode(data)
 
         stmt_id = next(self.prepared_stmt_seq)
-        num_params = len(REGEX_PARAM.findall(sql))
+        num_params = len(split_params(sql)) - 1
 
         stmt = PreparedStatement(
             stmt_id=stmt_id,
diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 19604d0..caad957 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -5,7 +5,7 @@ from typing import Optional, Dict, Any, Sequence, Callable, Tuple, List, Union
 from mysql_mimic.charset import Collation, CharacterSet
 from mysql_mimic.constants import DEFAULT_SERVER_CAPABILITIES
 from mysql_mimic.errors import ErrorCode, get_sqlstate, MysqlError
-from mysql_mimic.prepared import PreparedStatement, REGEX_PARAM
+from mysql_mimic.prepared import PreparedStatement, split_params
 from mysql_mimic.results import NullBitmap, ResultColumn
 from mysql_mimic.types import (
     Capabilities,
@@ -522,6 +522,12 @@ def _interpolate_params(
         if Capabilities.CLIENT_QUERY_ATTRIBUTES in capabilities:
             parameter_count = read_uint_len(reader)
 
+    if parameter_count < stmt.num_params:
+        raise MysqlError(
+            f"Expected {stmt.num_params} parameters got {parameter_count}",
+            ErrorCode.MALFORMED_PACKET,
+        )
+
     if parameter_count > 0:
         # When there are query attributes, they are combined with statement parameters.
         # The statement parameters will be first, query attributes second.
@@ -529,16 +535,27 @@ def _interpolate_params(
             capabilities, client_charset, reader, parameter_count, stmt.param_buffers
         )
 
-        for _, value in params[: stmt.num_params]:
-            sql = REGEX_PARAM.sub(_encode_param_as_sql(value), sql, 1)
+        literals = [_encode_param_as_sql(v) for _, v in params[: stmt.num_params]]
+        sql = _replace_params(stmt.sql, literals)
 
         query_attrs = {k: v for k, v in params[stmt.num_params :] if k is not None}
 
     return sql, query_attrs
 
 
+def _replace_params(sql: str, literals: Sequence[str]) -> str:
+    first, *rest = split_params(sql)
+    parts = [first]
+    for literal, part in zip(literals, rest):
+        if literal.startswith("-") and parts[-1].endswith("-"):
+            parts.append(" ")  # Don't start a comment
+        parts.extend([literal, part])
+    return "".join(parts)
+
+
 def _encode_param_as_sql(param: Any) -> str:
     if isinstance(param, str):
+        param = param.replace("\\", "\\\\").replace("'", "''")
         return f"'{param}'"
     if param is None:
         return "NULL"
diff --git a/mysql_mimic/prepared.py b/mysql_mimic/prepared.py
index 925efba..91e7167 100644
--- a/mysql_mimic/prepared.py
+++ b/mysql_mimic/prepared.py
@@ -1,9 +1,31 @@
 import re
 from dataclasses import dataclass
-from typing import Optional, Dict, AsyncIterable
+from typing import Optional, Dict, AsyncIterable, List
 
-# Borrowed from mysql-connector-python
-REGEX_PARAM = re.compile(r"""\?(?=(?:[^"'`]*["'`][^"'`]*["'`])*[^"'`]*$)""")
+# Placeholders, and everything that may contain a question mark that isn't a placeholder
+_RE_TOKEN = re.compile(
+    r"""
+    \?
+    | '[^'\\]*(?:\\(?:.|\Z)[^'\\]*)*(?:'|\Z)  # string
+    | "[^"\\]*(?:\\(?:.|\Z)[^"\\]*)*(?:"|\Z)  # string
+    | `[^`]*(?:`|\Z)  # identifier
+    | /\*.*?(?:\*/|\Z)  # comment
+    | (?:--(?=\s|\Z)|\#)[^\n]*  # comment
+    """,
+    re.DOTALL | re.VERBOSE,
+)
+
+
+def split_params(sql: str) -> List[str]:
+    """Split a statement at its placeholders"""
+    parts = []
+    start = 0
+    for match in _RE_TOKEN.finditer(sql):
+        if match.group() == "?":
+            parts.append(sql[start : match.start()])
+            start = match.end()
+    parts.append(sql[start:])
+    return parts
 
 
 @dataclass
-- 
2.43.0


From cb13dfd4dddaf37dd8620809bfd326e328594124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 16/41] fix: reject truncated and unterminated strings

read_str_null() never returned if the terminator was missing, blocking the
event loop, and took quadratic time if it wasn't.
---
 mysql_mimic/types.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/types.py b/mysql_mimic/types.py
index 81b2e67..91987d5 100644
--- a/mysql_mimic/types.py
+++ b/mysql_mimic/types.py
@@ -4,6 +4,8 @@ import struct
 
 from enum import IntEnum, IntFlag, auto
 
+from mysql_mimic.errors import ErrorCode, MysqlError
+
 
 class ColumnType(IntEnum):
     DECIMAL = 0x00
@@ -308,16 +310,20 @@ def read_uint_len(reader: io.BytesIO) -> int:
 
 
 def read_str_fixed(reader: io.BytesIO, l: int) -> bytes:
-    return reader.read(l)
+    data = reader.read(l)
+    if len(data) != l:
+        raise MysqlError("Truncated string", ErrorCode.MALFORMED_PACKET)
+    return data
 
 
 def read_str_null(reader: io.BytesIO) -> bytes:
-    data = b""
-    while True:
-        b = reader.read(1)
-        if b == b"\x00":
-            return data
-        data += b
+    pos = reader.tell()
+    end = reader.getvalue().find(b"\x00", pos)
+    if end < 0:
+        raise MysqlError("Unterminated string", ErrorCode.MALFORMED_PACKET)
+    data = reader.read(end - pos)
+    reader.seek(end + 1)
+    return data
 
 
 def read_str_len(reader: io.BytesIO) -> bytes:
-- 
2.43.0


From fe06d1aabab121993d957a193b4e0f1d4ebd80a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 17/41] fix: kill the running statement only

KILL QUERY ended idle connections, added a second ERR to a statement whose
response was already complete, and could replace a pending KILL CONNECTION.
A killed connection whose client didn't read never ended, and a kill during
session.close() interrupted that.
---
 mysql_mimic/connection.py | 75 +++++++++++++++++++++++++++------------
 mysql_mimic/stream.py     |  5 ++-
 2 files changed, 57 insertions(+), 23 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 745974c..8587ae6 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -77,6 +77,8 @@ class Connection:
 
         self.connection_id: int = 0
         self._kill: Optional[KillKind] = None
+        # Is there a statement to kill, i.e. one whose response isn't complete yet?
+        self._killable = False
         self._task: Optional[asyncio.Task] = None
 
     @property
@@ -112,22 +114,39 @@ class Connection:
         except asyncio.CancelledError:
             if self._kill == KillKind.CONNECTION:
                 logger.info("Connection %s killed", self.connection_id)
-                await self.stream.write(
-                    self.error(
-                        msg="Session was killed", code=ErrorCode.SESSION_WAS_KILLED
+                if self._killable:
+                    # The client may not be reading, so don't wait for it
+                    self.stream.flush()
+                    await self.stream.write(
+                        self.error(
+                            msg="Session was killed", code=ErrorCode.SESSION_WAS_KILLED
+                        ),
+                        drain=False,
                     )
-                )
-                self._kill = None
+                    self.stream.flush()
             else:
                 raise
         finally:
+            # There's nothing left to kill
+            self._task = None
             await self.session.close()
 
     def kill(self, kind: KillKind = KillKind.CONNECTION) -> None:
-        if self._task:
-            self._kill = kind
+        if not self._task or self._kill == KillKind.CONNECTION:
+            return
+        # Is this the statement that's issuing the KILL? Then let it complete first
+        is_self = asyncio.current_task() is self._task
+        if kind == KillKind.QUERY and (self._kill or not self._killable or is_self):
+            return
+        self._kill = kind
+        if not is_self:
             self._task.cancel()
 
+    async def end_response(self, packet: bytes) -> None:
+        """Send the last packet of a response"""
+        self._killable = False
+        await self.stream.write(packet)
+
     async def connection_phase(self) -> None:
         default_auth_plugin = self.identity_provider.get_default_plugin()
         auth_data, auth_state = await default_auth_plugin.start()
@@ -178,6 +197,8 @@ class Connection:
         self.stream.reset_seq()
 
     async def handle_change_user(self, data: bytes) -> None:
+        # Authentication isn't a statement
+        self._killable = False
         com_change_user = packets.parse_com_change_user(
             capabilities=self.capabilities,
             client_charset=self.client_charset,
@@ -297,6 +318,7 @@ class Connection:
                 logger.info("Connection closed")
                 return
             try:
+                self._killable = True
                 command = data[0]
                 rest = data[1:]
 
@@ -341,7 +363,7 @@ class Connection:
 
             except MysqlError as e:
                 logger.error(e)
-                await self.stream.write(self.error(msg=e.msg, code=e.code))
+                await self.end_response(self.error(msg=e.msg, code=e.code))
                 if isinstance(e, AuthenticationFailed):
                     # Same as a failed handshake - don't serve anything else
                     return
@@ -350,19 +372,26 @@ class Connection:
                     logger.info("Query killed on connection %s", self.connection_id)
                     if self._task and hasattr(self._task, "uncancel"):  # python >=3.11
                         self._task.uncancel()
-                    await self.stream.write(
+                    self._kill = None
+                    await self.end_response(
                         self.error(
                             msg="Query was killed", code=ErrorCode.SESSION_WAS_KILLED
                         )
                     )
-                    self._kill = None
                 else:
                     raise
             except Exception as e:  # pylint: disable=broad-except
                 logger.exception(e)
-                await self.stream.write(self.error(msg=e))
+                await self.end_response(self.error(msg=e))
             finally:
+                if self._kill == KillKind.QUERY:
+                    # The application finished the statement nevertheless
+                    self._kill = None
                 self.stream.reset_seq()
+            self._killable = False
+            if self._kill:
+                logger.info("Connection %s killed", self.connection_id)
+                return
 
     async def handle_ping(self, data: bytes) -> None:  # pylint: disable=unused-argument
         """
@@ -370,7 +399,7 @@ class Connection:
 
         COM_PING check if the server is alive.
         """
-        await self.stream.write(self.ok())
+        await self.end_response(self.ok())
 
     async def handle_reset_connection(
         self, data: bytes
@@ -382,7 +411,7 @@ class Connection:
 
         For now, we're just treating this like a no-op.
         """
-        await self.stream.write(self.ok())
+        await self.end_response(self.ok())
 
     async def handle_debug(
         self, data: bytes
@@ -394,11 +423,11 @@ class Connection:
 
         For now, we're just treating this like a no-op.
         """
-        await self.stream.write(self.ok())
+        await self.end_response(self.ok())
 
     async def handle_init_db(self, data: bytes) -> None:
         await self.session.use(parse_com_init_db(self.client_charset, data))
-        await self.stream.write(self.ok())
+        await self.end_response(self.ok())
 
     async def handle_field_list(self, data: bytes) -> None:
         com_field_list = parse_com_field_list(self.client_charset, data)
@@ -415,7 +444,7 @@ class Connection:
                 ),
                 drain=False,
             )
-        await self.stream.write(self.ok_or_eof())
+        await self.end_response(self.ok_or_eof())
 
     async def handle_query(self, data: bytes) -> None:
         """
@@ -433,7 +462,7 @@ class Connection:
         result_set = await self.query(com_query.sql, com_query.query_attrs)
 
         if not result_set:
-            await self.stream.write(self.ok())
+            await self.end_response(self.ok())
             return
 
         async for packet in self.text_resultset(result_set):
@@ -446,6 +475,7 @@ class Connection:
 
         COM_STMT_PREPARE creates a prepared statement from the passed query string.
         """
+        self._killable = False
         sql = self.client_charset.decode(data)
 
         stmt_id = next(self.prepared_stmt_seq)
@@ -501,7 +531,7 @@ class Connection:
         )
 
         if not result_set:
-            await self.stream.write(self.ok())
+            await self.end_response(self.ok())
             return
 
         await self.stream.write(types.uint_len(len(result_set.columns)))
@@ -524,7 +554,7 @@ class Connection:
 
         if com_stmt_execute.use_cursor:
             com_stmt_execute.stmt.cursor = rows
-            await self.stream.write(
+            await self.end_response(
                 self.ok_or_eof(flags=types.ServerStatus.SERVER_STATUS_CURSOR_EXISTS)
             )
         else:
@@ -532,7 +562,7 @@ class Connection:
                 await self.stream.write(self.eof())
             async for row in rows:
                 await self.stream.write(row)
-            await self.stream.write(self.ok_or_eof())
+            await self.end_response(self.ok_or_eof())
 
     async def handle_stmt_fetch(self, data: bytes) -> None:
         """
@@ -555,7 +585,7 @@ class Connection:
 
         done = count < com_stmt_fetch.num_rows
 
-        await self.stream.write(
+        await self.end_response(
             self.ok_or_eof(
                 flags=(
                     types.ServerStatus.SERVER_STATUS_LAST_ROW_SENT
@@ -577,7 +607,7 @@ class Connection:
         stmt.param_buffers = None
         stmt.cursor = None
         await self.session.reset()
-        await self.stream.write(self.ok())
+        await self.end_response(self.ok())
 
     async def handle_stmt_close(self, data: bytes) -> None:
         """
@@ -662,6 +692,7 @@ class Connection:
             affected_rows += 1
             yield packets.make_text_resultset_row(row, result_set.columns)
 
+        self._killable = False
         yield self.ok_or_eof(affected_rows=affected_rows)
 
     def com_stmt_prepare_response(
diff --git a/mysql_mimic/stream.py b/mysql_mimic/stream.py
index dfe72a9..37f2b7c 100644
--- a/mysql_mimic/stream.py
+++ b/mysql_mimic/stream.py
@@ -71,11 +71,14 @@ class MysqlStream:
         if drain or len(self._buffer) >= self._buffer_size:
             await self.drain()
 
-    async def drain(self) -> None:
+    def flush(self) -> None:
         if self._buffer:
             # The transport may keep a reference to what it was given, so don't clear that
             self.writer.write(bytes(self._buffer))
             self._buffer.clear()
+
+    async def drain(self) -> None:
+        self.flush()
         await self.writer.drain()
 
     def reset_seq(self) -> None:
-- 
2.43.0


From a7ecfe7241653009f73bd81b87415acc2795dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 18/41] fix: close the socket of clients that are turned away

A failing session factory, a full registry or a failing control left the
socket open.
---
 mysql_mimic/server.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/server.py b/mysql_mimic/server.py
index 6410a1e..204f4bb 100644
--- a/mysql_mimic/server.py
+++ b/mysql_mimic/server.py
@@ -61,8 +61,12 @@ class MysqlServer:
     async def _client_connected_cb(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter
     ) -> None:
-        stream = MysqlStream(reader, writer)
+        try:
+            await self._handle_client(MysqlStream(reader, writer))
+        finally:
+            writer.close()
 
+    async def _handle_client(self, stream: MysqlStream) -> None:
         try:
             if inspect.iscoroutinefunction(self.session_factory):
                 session = await self.session_factory()
@@ -105,7 +109,6 @@ class MysqlServer:
         try:
             return await connection.start()
         finally:
-            writer.close()
             await self.control.remove(connection_id)
 
     async def start_server(self, **kwargs: Any) -> None:
-- 
2.43.0


From 04f020c9ca1a22e789db3aae20225ed5b8635d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 19/41] fix: discard a statement's cursor when it's executed
 again

---
 mysql_mimic/connection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 8587ae6..091b086 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -525,6 +525,7 @@ class Connection:
         )
 
         com_stmt_execute.stmt.param_buffers = None
+        com_stmt_execute.stmt.cursor = None
 
         result_set = await self.query(
             com_stmt_execute.sql, com_stmt_execute.query_attrs
-- 
2.43.0


From 2bddf43b5fae2156ad82a1ced8c92cf6c662a26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 20/41] fix: don't lose a row between fetches from a cursor

The row that ended a fetch had already been taken off the cursor.
---
 mysql_mimic/connection.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 091b086..5e0085b 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -577,11 +577,13 @@ class Connection:
         assert stmt.cursor is not None
         count = 0
 
-        async for packet in cooperative_iterate(stmt.cursor):
-            if count >= com_stmt_fetch.num_rows:
-                break
-            await self.stream.write(packet, drain=False)
-            count += 1
+        # Don't take a row off the cursor unless it's going to be sent
+        if com_stmt_fetch.num_rows > 0:
+            async for packet in cooperative_iterate(stmt.cursor):
+                await self.stream.write(packet, drain=False)
+                count += 1
+                if count >= com_stmt_fetch.num_rows:
+                    break
         await self.stream.drain()
 
         done = count < com_stmt_fetch.num_rows
-- 
2.43.0


From 034a113d559c5a9749f03e29f2b6106a4e2fe871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 21/41] fix: don't report a cursor that failed as exhausted

After an error or a KILL QUERY during a fetch, the next fetch returned no
rows and the last-row-sent flag.
---
 mysql_mimic/connection.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index 5e0085b..d2443a1 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -574,18 +574,23 @@ class Connection:
         com_stmt_fetch = packets.parse_handle_stmt_fetch(data)
 
         stmt = self.get_stmt(com_stmt_fetch.stmt_id)
-        assert stmt.cursor is not None
+        cursor = stmt.cursor
+        assert cursor is not None
         count = 0
 
+        # If this fails, the rest of the rows can't be fetched anymore
+        stmt.cursor = None
+
         # Don't take a row off the cursor unless it's going to be sent
         if com_stmt_fetch.num_rows > 0:
-            async for packet in cooperative_iterate(stmt.cursor):
+            async for packet in cooperative_iterate(cursor):
                 await self.stream.write(packet, drain=False)
                 count += 1
                 if count >= com_stmt_fetch.num_rows:
                     break
         await self.stream.drain()
 
+        stmt.cursor = cursor
         done = count < com_stmt_fetch.num_rows
 
         await self.end_response(
-- 
2.43.0


From 63cc3c011ed9e79e2d6f6b2666feb16bcfea75d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 22/41] fix: route statements on user tables to the application

With a catalog database selected, every statement was answered from the
catalog: DML, DDL and queries on qualified user tables never reached the
application.
---
 mysql_mimic/session.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 0fdb119..7f9b879 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -506,10 +506,9 @@ class Session(BaseSession):
 
     async def _info_schema_middleware(self, q: Query) -> AllowedResult:
         """Intercept queries to INFORMATION_SCHEMA tables"""
-        dbs = find_dbs(q.expression)
-        if (self.database and self.database.lower() in INFO_SCHEMA) or (
-            dbs and all(db.lower() in INFO_SCHEMA for db in dbs)
-        ):
+        # Tables that aren't qualified belong to the current database
+        dbs = [db or self.database or "" for db in find_dbs(q.expression)]
+        if dbs and all(db.lower() in INFO_SCHEMA for db in dbs):
             return await self._query_info_schema(q.expression)
         return await q.next()
 
-- 
2.43.0


From d8a940fb487d64e9015247a0322ece2f81c1d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 23/41] fix: answer FROM-less selects, forward selects that
 read tables in subqueries

SELECT 1 ORDER BY 1, SELECT DISTINCT 1, SELECT 1 WHERE ... were passed to the
application, while SELECT (SELECT a FROM t) was withheld from it and failed.
---
 mysql_mimic/session.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 7f9b879..a26d86b 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -470,11 +470,15 @@ class Session(BaseSession):
 
         These very common, as many clients execute commands like SELECT DATABASE() when connecting.
         """
-        if isinstance(q.expression, exp.Select) and not any(
-            q.expression.args.get(a)
-            for a in set(exp.Select.arg_types) - {"expressions", "limit", "hint"}
+        if (
+            isinstance(q.expression, exp.Select)
+            and not q.expression.find(exp.From)
+            and not any(q.expression.args.get(a) for a in ("having", "offset", "into"))
         ):
-            result = execute(q.expression)
+            # SQLGlot's executor can only sort and aggregate the rows of a table
+            result = execute(
+                q.expression.from_("dual"), tables={"dual": [{"dummy": "X"}]}
+            )
             return result.rows, result.columns
         return await q.next()
 
-- 
2.43.0


From b93fc7b7246e3adebdd6d352bc0c5649bba240ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 24/41] fix: describe the named table only

DESCRIBE dropped the database and the quotes of the table name, and answered
DESCRIBE of a union or subquery with an error instead of forwarding it.
---
 mysql_mimic/session.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index a26d86b..79523c1 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -393,12 +393,13 @@ class Session(BaseSession):
     async def _describe_middleware(self, q: Query) -> AllowedResult:
         """Intercept DESCRIBE statements"""
         if isinstance(q.expression, exp.Describe):
-            if isinstance(q.expression.this, exp.Select):
+            table = q.expression.this
+            if not isinstance(table, exp.Table):
                 # Mysql parse treats EXPLAIN SELECT as a DESCRIBE SELECT statement
                 return await q.next()
-            name = q.expression.this.name
-            show = self.dialect().parse(f"SHOW COLUMNS FROM {name}")[0]
-            return await self._show(show) if isinstance(show, exp.Show) else None
+            return await self._show(
+                exp.Show(this="COLUMNS", target=table.this, db=table.args.get("db"))
+            )
         return await q.next()
 
     async def _rollback_middleware(self, q: Query) -> AllowedResult:
-- 
2.43.0


From 610060a24da3d00d68925eb5fbe82036403a633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 25/41] fix: reject character sets and time zones the session
 can't use

They were accepted by SET, and then every later statement of the session
failed.
---
 mysql_mimic/errors.py    |  2 ++
 mysql_mimic/variables.py | 37 +++++++++++++++++++++++++++++++------
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/errors.py b/mysql_mimic/errors.py
index beffc0c..fca801e 100644
--- a/mysql_mimic/errors.py
+++ b/mysql_mimic/errors.py
@@ -11,6 +11,7 @@ class ErrorCode(IntEnum):
     PARSE_ERROR = 1064
     EMPTY_QUERY = 1065
     UNKNOWN_PROCEDURE = 1106
+    UNKNOWN_CHARACTER_SET = 1115
     UNKNOWN_SYSTEM_VARIABLE = 1193
     UNKNOWN_COM_ERROR = 1047
     UNKNOWN_ERROR = 1105
@@ -32,6 +33,7 @@ SQLSTATES = {
     ErrorCode.EMPTY_QUERY: b"42000",
     ErrorCode.UNKNOWN_PROCEDURE: b"42000",
     ErrorCode.UNKNOWN_COM_ERROR: b"08S01",
+    ErrorCode.UNKNOWN_CHARACTER_SET: b"42000",
     ErrorCode.WRONG_VALUE_FOR_VAR: b"42000",
     ErrorCode.NOT_SUPPORTED_YET: b"42000",
 }
diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index e5a0d8a..4b0acff 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import abc
+import codecs
 import re
 from datetime import timezone, timedelta
 from functools import lru_cache
@@ -19,14 +20,34 @@ VariableSchema = Tuple[VariableType, Any, bool]
 
 DEFAULT = Default()
 
+
+def charset_name(value: Any) -> str:
+    """Name of a character set that text can be converted to and from"""
+    name = str(value).lower()
+    try:
+        codecs.lookup(CharacterSet[name].codec)
+    except LookupError as e:
+        raise MysqlError(
+            f"Unknown or unsupported character set: {value}",
+            code=ErrorCode.UNKNOWN_CHARACTER_SET,
+        ) from e
+    return name
+
+
+def timezone_name(value: Any) -> str:
+    """Name of a time zone that's understood by `parse_timezone`"""
+    parse_timezone(str(value))
+    return str(value)
+
+
 SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     # name: (type, default, dynamic)
     "auto_increment_increment": (int, 1, True),
     "autocommit": (bool, True, True),
-    "character_set_client": (str, CharacterSet.utf8mb4.name, True),
+    "character_set_client": (charset_name, CharacterSet.utf8mb4.name, True),
     "character_set_connection": (str, CharacterSet.utf8mb4.name, True),
     "character_set_database": (str, CharacterSet.utf8mb4.name, True),
-    "character_set_results": (str, CharacterSet.utf8mb4.name, True),
+    "character_set_results": (charset_name, CharacterSet.utf8mb4.name, True),
     "character_set_server": (str, CharacterSet.utf8mb4.name, True),
     "collation_connection": (str, Collation.utf8mb4_general_ci.name, True),
     "collation_database": (str, Collation.utf8mb4_general_ci.name, True),
@@ -45,7 +66,7 @@ SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     "sql_mode": (str, "ANSI", True),
     "sql_select_limit": (int, None, True),
     "system_time_zone": (str, "UTC", False),
-    "time_zone": (str, "UTC", True),
+    "time_zone": (timezone_name, "UTC", True),
     "transaction_read_only": (bool, False, True),
     "transaction_isolation": (str, "READ-COMMITTED", True),
     "version": (str, "8.0.29", False),
@@ -124,16 +145,20 @@ class SessionVariables(Variables):
         return self.global_variables.schema
 
 
-RE_TIMEZONE = re.compile(r"^(?P<sign>[+-])(?P<hours>\d\d):(?P<minutes>\d\d)")
+RE_TIMEZONE = re.compile(
+    r"(?P<sign>[+-])(?P<hours>[01]\d|2[0-3]):(?P<minutes>[0-5]\d)"
+)
 
 
 @lru_cache(maxsize=48)
 def parse_timezone(tz: str) -> timezone:
     if tz.lower() == "utc":
         return timezone.utc
-    match = RE_TIMEZONE.match(tz)
+    match = RE_TIMEZONE.fullmatch(tz)
     if not match:
-        raise MysqlError(msg=f"Invalid timezone: {tz}")
+        raise MysqlError(
+            msg=f"Invalid timezone: {tz}", code=ErrorCode.WRONG_VALUE_FOR_VAR
+        )
     offset = timedelta(
         hours=int(match.group("hours")), minutes=int(match.group("minutes"))
     )
-- 
2.43.0


From 596fab6c4bce87bac48f50dd779ec43ca5eb6865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 26/41] fix: apply time_zone from the statement that sets it

NOW(), CURDATE() and CURTIME() used the time zone from before the query, so
SET time_zone = ...; SELECT NOW() and SET_VAR(time_zone = ...) had no effect.
---
 mysql_mimic/session.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 79523c1..9096e13 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -191,9 +191,9 @@ class Session(BaseSession):
             "CURRENT_USER": lambda: self.username,
             "VERSION": lambda: self.variables.get("version"),
             "DATABASE": lambda: self.database,
-            "NOW": lambda: self.timestamp.strftime("%Y-%m-%d %H:%M:%S"),
-            "CURDATE": lambda: self.timestamp.strftime("%Y-%m-%d"),
-            "CURTIME": lambda: self.timestamp.strftime("%H:%M:%S"),
+            "NOW": lambda: self._now().strftime("%Y-%m-%d %H:%M:%S"),
+            "CURDATE": lambda: self._now().strftime("%Y-%m-%d"),
+            "CURTIME": lambda: self._now().strftime("%H:%M:%S"),
         }
         # Synonyms
         self._functions.update(
@@ -596,6 +596,10 @@ class Session(BaseSession):
     def _show_errors(self, show: exp.Show) -> AllowedResult:
         return [], ["Level", "Code", "Message"]
 
+    def _now(self) -> datetime:
+        """Time when the query started, in the current time zone of the session"""
+        return self.timestamp.astimezone(self.timezone())
+
     def timezone(self) -> timezone_:
         tz = self.variables.get("time_zone")
         return parse_timezone(tz)
-- 
2.43.0


From a4794d127e38908b5a87f029e2d3fbf1da3be7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 27/41] fix: understand ON, OFF and DEFAULT however they're
 spelled

SET autocommit = 'OFF' turned it on, SET event_scheduler = ON stored True, and
lower case keywords and upper case character set names were rejected.
---
 mysql_mimic/intercept.py |  7 ++++---
 mysql_mimic/session.py   |  6 +++---
 mysql_mimic/variables.py | 29 ++++++++++++++++++++++++-----
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/mysql_mimic/intercept.py b/mysql_mimic/intercept.py
index 26e77c0..c3ff68a 100644
--- a/mysql_mimic/intercept.py
+++ b/mysql_mimic/intercept.py
@@ -56,11 +56,12 @@ def expression_to_value(expression: exp.Expression) -> Any:
             return float(expression.this)
     if isinstance(expression, exp.Literal):
         return expression.name
-    if expression.name == "DEFAULT":
+    name = expression.name.upper()
+    if name == "DEFAULT":
         return DEFAULT
-    if expression.name == "ON":
+    if name == "ON":
         return True
-    if expression.name == "OFF":
+    if name == "OFF":
         return False
     raise MysqlError(
         "Complex expressions in variables not supported yet",
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 9096e13..579b77f 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -547,7 +547,7 @@ class Session(BaseSession):
     def _set_charset(self, item: exp.SetItem) -> None:
         charset_name: Any
         charset_conn: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             charset_conn = DEFAULT
         else:
@@ -560,14 +560,14 @@ class Session(BaseSession):
     def _set_names(self, item: exp.SetItem) -> None:
         charset_name: Any
         collation_name: Any
-        if item.name == "DEFAULT":
+        if item.name.upper() == "DEFAULT":
             charset_name = DEFAULT
             collation_name = DEFAULT
         else:
             charset_name = item.name
             collation_name = (
                 item.text("collate")
-                or CharacterSet[charset_name].default_collation.name
+                or CharacterSet[charset_name.lower()].default_collation.name
             )
         self.variables.set("character_set_client", charset_name)
         self.variables.set("character_set_connection", charset_name)
diff --git a/mysql_mimic/variables.py b/mysql_mimic/variables.py
index 4b0acff..c4ea2fe 100644
--- a/mysql_mimic/variables.py
+++ b/mysql_mimic/variables.py
@@ -34,6 +34,25 @@ def charset_name(value: Any) -> str:
     return name
 
 
+def boolean(value: Any) -> bool:
+    """Boolean, which may also be spelled as one of the strings ON and OFF"""
+    if isinstance(value, str):
+        try:
+            return {"on": True, "off": False}[value.lower()]
+        except KeyError as e:
+            raise MysqlError(
+                f"Not a boolean: {value}", code=ErrorCode.WRONG_VALUE_FOR_VAR
+            ) from e
+    return bool(value)
+
+
+def switch(value: Any) -> str:
+    """String such as ON and OFF, which may also be spelled as a boolean"""
+    if isinstance(value, str):
+        return value.upper()
+    return "ON" if value else "OFF"
+
+
 def timezone_name(value: Any) -> str:
     """Name of a time zone that's understood by `parse_timezone`"""
     parse_timezone(str(value))
@@ -43,7 +62,7 @@ def timezone_name(value: Any) -> str:
 SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     # name: (type, default, dynamic)
     "auto_increment_increment": (int, 1, True),
-    "autocommit": (bool, True, True),
+    "autocommit": (boolean, True, True),
     "character_set_client": (charset_name, CharacterSet.utf8mb4.name, True),
     "character_set_connection": (str, CharacterSet.utf8mb4.name, True),
     "character_set_database": (str, CharacterSet.utf8mb4.name, True),
@@ -61,18 +80,18 @@ SYSTEM_VARIABLES: dict[str, VariableSchema] = {
     "max_execution_time": (int, 0, True),
     "net_buffer_length": (int, 16384, True),
     "net_write_timeout": (int, 28800, True),
-    "performance_schema": (bool, False, False),
-    "sql_auto_is_null": (bool, False, True),
+    "performance_schema": (boolean, False, False),
+    "sql_auto_is_null": (boolean, False, True),
     "sql_mode": (str, "ANSI", True),
     "sql_select_limit": (int, None, True),
     "system_time_zone": (str, "UTC", False),
     "time_zone": (timezone_name, "UTC", True),
-    "transaction_read_only": (bool, False, True),
+    "transaction_read_only": (boolean, False, True),
     "transaction_isolation": (str, "READ-COMMITTED", True),
     "version": (str, "8.0.29", False),
     "version_comment": (str, "mysql-mimic", False),
     "wait_timeout": (int, 28800, True),
-    "event_scheduler": (str, "OFF", True),
+    "event_scheduler": (switch, "OFF", True),
     "default_storage_engine": (str, "mysql-mimic", True),
     "default_tmp_storage_engine": (str, "mysql-mimic", True),
 }
-- 
2.43.0


From 8ec67ccc01eb20221b7b7cea26ea5fe8abbe9edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 28/41] fix: encode utf16 and utf32 the way MySQL does

Python's codecs of that name prepend a BOM and use the native byte order.
---
 mysql_mimic/charset.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mysql_mimic/charset.py b/mysql_mimic/charset.py
index 5e971a8..06b2176 100644
--- a/mysql_mimic/charset.py
+++ b/mysql_mimic/charset.py
@@ -1,6 +1,14 @@
 from __future__ import annotations
 from enum import IntEnum
 
+# Python codecs of the character sets where the names differ.
+# MySQL's utf16 and utf32 are big-endian and don't have a BOM.
+CODECS = {
+    "utf16": "utf_16_be",
+    "utf32": "utf_32_be",
+    "utf8mb4": "utf8",
+}
+
 
 class CharacterSet(IntEnum):
     big5 = 1
@@ -47,9 +55,7 @@ class CharacterSet(IntEnum):
 
     @property
     def codec(self) -> str:
-        if self.name == "utf8mb4":
-            return "utf8"
-        return self.name
+        return CODECS.get(self.name, self.name)
 
     @property
     def default_collation(self) -> Collation:
-- 
2.43.0


From 8e7c126658be637756fb44244712b12195a5589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 29/41] fix: always answer with an error packet

An error message with characters outside of character_set_results couldn't be
encoded, which closed the connection without an answer.
---
 mysql_mimic/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index caad957..52c2207 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -165,7 +165,7 @@ def make_error(
         parts.append(str_fixed(1, b"#"))
         parts.append(str_fixed(5, get_sqlstate(code)))
 
-    parts.append(str_rest(server_charset.encode(str(msg))))
+    parts.append(str_rest(str(msg).encode(server_charset.codec, errors="replace")))
 
     return _concat(*parts)
 
-- 
2.43.0


From e40af84e3d3e0b037c282dd4d4cfab65c32b2a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 30/41] fix: match whole strings with LIKE

LIKE patterns matched prefixes, and their other characters were interpreted as
a regex.
---
 mysql_mimic/schema.py  | 23 ++++++++++++++++++++---
 mysql_mimic/session.py |  5 +++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 5d7f587..1e8ac6a 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -7,6 +7,7 @@ from dataclasses import dataclass
 from typing import Any, Optional, List, Dict, Iterable
 
 from sqlglot.executor import Table, execute
+from sqlglot.executor.env import ENV, null_if_any
 from sqlglot import expressions as exp
 
 from mysql_mimic.constants import INFO_SCHEMA
@@ -265,9 +266,25 @@ def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
 
 
 def like_to_regex(like: str) -> re.Pattern:
-    like = like.replace("%", ".*?")
-    like = like.replace("_", ".")
-    return re.compile(like)
+    """
+    Convert a LIKE pattern to a regex.
+
+    LIKE matches whole strings, so this should only be used with `re.fullmatch`.
+    """
+    wildcards = {"%": ".*", "_": "."}
+    return re.compile(
+        "".join(
+            wildcards.get(token) or re.escape(token[-1])
+            for token in re.findall(r"\\.|.", like, flags=re.DOTALL)
+        ),
+        flags=re.DOTALL,
+    )
+
+
+# SQLGlot's LIKE only matches a prefix, and treats the rest of the pattern as a regex
+ENV["LIKE"] = null_if_any(
+    lambda this, pattern: bool(like_to_regex(pattern).fullmatch(this))
+)
 
 
 class BaseInfoSchema:
diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index 579b77f..e8d0c1d 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -582,9 +582,10 @@ class Session(BaseSession):
 
     def _show_variables(self, show: exp.Show) -> AllowedResult:
         rows = [(k, None if v is None else str(v)) for k, v in self.variables.list()]
-        like = show.text("like")
+        like = show.args.get("like")
         if like:
-            rows = [(k, v) for k, v in rows if like_to_regex(like).match(k)]
+            regex = like_to_regex(like.name)
+            rows = [(k, v) for k, v in rows if regex.fullmatch(k)]
         return rows, ["Variable_name", "Value"]
 
     def _show_status(self, show: exp.Show) -> AllowedResult:
-- 
2.43.0


From 196e8039f621237f3a0ee5fcaba0b10d67405b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 31/41] fix: treat names and patterns in SHOW statements as
 data

---
 mysql_mimic/schema.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 1e8ac6a..715d130 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -187,14 +187,14 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.columns")
-            .where(f"table_name = '{table}'")
+            .where(exp.column("table_name").eq(table))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
+            select = select.where(exp.column("table_schema").eq(db))
+        like = show.args.get("like")
         if like:
-            select = select.where(f"column_name LIKE '{like}'")
+            select = select.where(exp.column("column_name").like(like.copy()))
     elif kind == "TABLES":
         outputs = ['table_name AS "Table_name"']
         if show.args.get("full"):
@@ -204,17 +204,17 @@ def show_statement_to_info_schema_query(
         db = show.text("db") or database
         if not db:
             raise MysqlError("No database selected.", code=ErrorCode.NO_DB_ERROR)
-        select = select.where(f"table_schema = '{db}'")
-        like = show.text("like")
+        select = select.where(exp.column("table_schema").eq(db))
+        like = show.args.get("like")
         if like:
-            select = select.where(f"table_name LIKE '{like}'")
+            select = select.where(exp.column("table_name").like(like.copy()))
     elif kind == "DATABASES":
         select = exp.select('schema_name AS "Database"').from_(
             "information_schema.schemata"
         )
-        like = show.text("like")
+        like = show.args.get("like")
         if like:
-            select = select.where(f"schema_name LIKE '{like}'")
+            select = select.where(exp.column("schema_name").like(like.copy()))
     elif kind == "INDEX":
         outputs = [
             '"table_name" AS Table',
@@ -242,11 +242,11 @@ def show_statement_to_info_schema_query(
         select = (
             exp.select(*outputs)
             .from_("information_schema.statistics")
-            .where(f"table_name = '{table}'")
+            .where(exp.column("table_name").eq(table))
         )
         db = show.text("db") or database
         if db:
-            select = select.where(f"table_schema = '{db}'")
+            select = select.where(exp.column("table_schema").eq(db))
     else:
         raise MysqlError(
             f"Unsupported SHOW command: {kind}", code=ErrorCode.NOT_SUPPORTED_YET
@@ -258,7 +258,7 @@ def show_statement_to_info_schema_query(
 def com_field_list_to_show_statement(com_field_list: ComFieldList) -> str:
     show = exp.Show(
         this="COLUMNS",
-        target=exp.to_identifier(com_field_list.table),
+        target=exp.to_identifier(com_field_list.table, quoted=True),
     )
     if com_field_list.wildcard:
         show.set("like", exp.Literal.string(com_field_list.wildcard))
-- 
2.43.0


From 64ed233397be4a348cd25ef3b97f3192c2f94e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 32/41] fix: measure the depth of a schema by its deepest entry

A schema that starts with an empty database or table was misinterpreted.
---
 mysql_mimic/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mysql_mimic/utils.py b/mysql_mimic/utils.py
index 676f045..28f9c80 100644
--- a/mysql_mimic/utils.py
+++ b/mysql_mimic/utils.py
@@ -91,13 +91,10 @@ def dict_depth(d: dict) -> int:
         int: depth
     """
     try:
-        return 1 + dict_depth(next(iter(d.values())))
+        return 1 + max((dict_depth(v) for v in d.values()), default=0)
     except AttributeError:
         # d doesn't have attribute "values"
         return 0
-    except StopIteration:
-        # d.values() returns an empty sequence
-        return 1
 
 
 async def aiterate(iterable: AsyncIterable[T] | Iterable[T]) -> AsyncIterator[T]:
-- 
2.43.0


From c9bba93cc194248d3cc3f07b3e308b5fd5e44415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 33/41] fix: list databases without tables and tables without
 columns

---
 mysql_mimic/schema.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 715d130..3f97bd8 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -29,11 +29,11 @@ class Column:
     catalog: Optional[str] = "def"
 
 
-def mapping_to_columns(schema: dict) -> List[Column]:
-    """Convert a schema mapping into a list of Column instances"""
+def normalize_mapping(schema: dict) -> dict:
+    """Convert a schema mapping into {catalog: {db: {table: {col: type}}}}"""
     depth = dict_depth(schema)
     if depth < 2:
-        return []
+        return {}
     if depth == 2:
         # {table: {col: type}}
         schema = {"": schema}
@@ -44,9 +44,13 @@ def mapping_to_columns(schema: dict) -> List[Column]:
         depth += 1
     if depth != 4:
         raise MysqlError("Invalid schema mapping")
+    return schema
 
+
+def mapping_to_columns(schema: dict) -> List[Column]:
+    """Convert a schema mapping into a list of Column instances"""
     result = []
-    for catalog, dbs in schema.items():
+    for catalog, dbs in normalize_mapping(schema).items():
         for db, tables in dbs.items():
             for table, cols in tables.items():
                 for column, coltype in cols.items():
@@ -63,11 +67,17 @@ def mapping_to_columns(schema: dict) -> List[Column]:
     return result
 
 
-def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]:
+def info_schema_tables(
+    columns: Iterable[Column], mapping: Optional[dict] = None
+) -> Dict[str, Dict[str, Table]]:
     """
     Convert a list of Column instances into a mapping of SQLGlot Tables.
 
     These Tables are used by SQLGlot to execute INFORMATION_SCHEMA queries.
+
+    Args:
+        columns: all columns
+        mapping: schema mapping, for the databases and tables without any columns
     """
     ordinal_positions: dict[Any, int] = defaultdict(lambda: 0)
 
@@ -80,6 +90,11 @@ def info_schema_tables(columns: Iterable[Column]) -> Dict[str, Dict[str, Table]]
     dbs = set()
     catalogs = set()
 
+    for catalog, catalog_dbs in normalize_mapping(mapping or {}).items():
+        for db, db_tables in catalog_dbs.items():
+            dbs.add((catalog, db))
+            tables.update((catalog, db, table) for table in db_tables)
+
     info_schema_cols = mapping_to_columns(INFO_SCHEMA)
 
     for column in chain(columns, info_schema_cols):
@@ -311,7 +326,7 @@ class InfoSchema(BaseInfoSchema):
     @classmethod
     def from_mapping(cls, mapping: dict) -> InfoSchema:
         columns = mapping_to_columns(mapping)
-        return cls(info_schema_tables(columns))
+        return cls(info_schema_tables(columns, mapping))
 
     def _preprocess(self, expression: exp.Expression) -> exp.Expression:
         return expression.transform(_remove_collate)
-- 
2.43.0


From 6476f0bd1bb1ddca82344cff75babd2f99148ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 34/41] fix: don't send the length of COM_FIELD_LIST defaults
 twice

---
 mysql_mimic/packets.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index 52c2207..c5bc468 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -377,8 +377,7 @@ def make_column_definition_41(
         if default is None:
             parts.append(uint_len(0))
         else:
-            default_values = server_charset.encode(default)
-            parts.extend([uint_len(len(default_values)), str_len(default_values)])
+            parts.append(str_len(server_charset.encode(default)))
     return _concat(*parts)
 
 
-- 
2.43.0


From 4c32e888b0e75d6c17b15bf7f4877f1b5f5c7e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 35/41] fix: accept 0 as server id

---
 mysql_mimic/control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/control.py b/mysql_mimic/control.py
index 8ef037c..81527bb 100644
--- a/mysql_mimic/control.py
+++ b/mysql_mimic/control.py
@@ -59,7 +59,9 @@ class LocalControl(Control):
     def __init__(self, server_id: Optional[int] = None):
         self._connection_seq = seq(self._MAX_CONNECTION_SEQ)
         self._connections: Dict[int, Connection] = {}
-        self.server_id = server_id or random.randint(0, self._MAX_SERVER_ID - 1)
+        if server_id is None:
+            server_id = random.randint(0, self._MAX_SERVER_ID - 1)
+        self.server_id = server_id
 
     async def add(self, connection: Connection) -> int:
         connection_id = self._new_connection_id()
-- 
2.43.0


From 109e741e587fd6868284a2dab7de4e2d4c5362f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 36/41] fix: match LIKE patterns without backtracking

---
 mysql_mimic/schema.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mysql_mimic/schema.py b/mysql_mimic/schema.py
index 3f97bd8..fcc9f3b 100644
--- a/mysql_mimic/schema.py
+++ b/mysql_mimic/schema.py
@@ -286,14 +286,22 @@ def like_to_regex(like: str) -> re.Pattern:
 
     LIKE matches whole strings, so this should only be used with `re.fullmatch`.
     """
-    wildcards = {"%": ".*", "_": "."}
-    return re.compile(
-        "".join(
-            wildcards.get(token) or re.escape(token[-1])
-            for token in re.findall(r"\\.|.", like, flags=re.DOTALL)
-        ),
-        flags=re.DOTALL,
-    )
+    segments = [""]
+    for token in re.findall(r"\\.|.", like, flags=re.DOTALL):
+        if token == "%":
+            segments.append("")
+        else:
+            segments[-1] += "." if token == "_" else re.escape(token[-1])
+
+    first, *rest = segments
+    regex = first
+    if rest:
+        *middle, last = rest
+        for i, segment in enumerate(filter(None, middle)):
+            # The first match will do. Without a way back, matching can't take exponential time
+            regex += f"(?=(?P<s{i}>.*?{segment}))(?P=s{i})"
+        regex += f".*{last}"
+    return re.compile(regex, flags=re.DOTALL)
 
 
 # SQLGlot's LIKE only matches a prefix, and treats the rest of the pattern as a regex
-- 
2.43.0


From 35eac6d2d0af571b0f325054480bc556a3d61931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 37/41] fix: don't pass trailing comments to the application

---
 mysql_mimic/session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index e8d0c1d..aed1576 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -305,7 +305,8 @@ class Session(BaseSession):
         self.database = database
 
     def _parse(self, sql: str) -> List[exp.Expression]:
-        return [e for e in self.dialect().parse(sql) if e]
+        # SQLGlot parses comments after the last semicolon as an expression of their own
+        return [e for e in self.dialect().parse(sql) if e and e.key != "semicolon"]
 
     async def _query_info_schema(self, expression: exp.Expression) -> AllowedResult:
         return await ensure_info_schema(await self.schema()).query(expression)
-- 
2.43.0


From 8c1c79877f6b5599eb1a7421d18bd458bfe33273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 38/41] fix: SET GLOBAL TRANSACTION changed the variables of
 the session

---
 mysql_mimic/session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mysql_mimic/session.py b/mysql_mimic/session.py
index aed1576..c787f25 100644
--- a/mysql_mimic/session.py
+++ b/mysql_mimic/session.py
@@ -576,6 +576,11 @@ class Session(BaseSession):
         self.variables.set("collation_connection", collation_name)
 
     def _set_transaction(self, item: exp.SetItem) -> None:
+        if item.args.get("global"):
+            raise MysqlError(
+                "Cannot SET TRANSACTION with scope GLOBAL",
+                code=ErrorCode.NOT_SUPPORTED_YET,
+            )
         characteristics = [e.name.upper() for e in item.expressions]
         for characteristic in characteristics:
             variable, value = TRANSACTION_CHARACTERISTICS[characteristic]
-- 
2.43.0


From ef08ad19b3b151778f6a0e860e1a8f2312f048bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 39/41] fix: send booleans in numeric columns as numbers

---
 mysql_mimic/results.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/mysql_mimic/results.py b/mysql_mimic/results.py
index a941ed7..b668235 100644
--- a/mysql_mimic/results.py
+++ b/mysql_mimic/results.py
@@ -310,6 +310,13 @@ def _text_encode_tiny(col: ResultColumn, val: Any) -> bytes:
     return _text_encode_str(col, int(val))
 
 
+def _text_encode_number(col: ResultColumn, val: Any) -> bytes:
+    if isinstance(val, bool):
+        val = int(val)
+
+    return _text_encode_str(col, val)
+
+
 def _text_encode_time(col: ResultColumn, val: Any) -> bytes:
     if isinstance(val, timedelta):
         sign = "-" if val.total_seconds() < 0 else ""
@@ -349,18 +356,18 @@ _PY_TO_MYSQL_TYPE = {
 _TEXT_ENCODERS: Dict[ColumnType, Encoder] = {
     ColumnType.DECIMAL: _text_encode_str,
     ColumnType.TINY: _text_encode_tiny,
-    ColumnType.SHORT: _text_encode_str,
-    ColumnType.LONG: _text_encode_str,
-    ColumnType.FLOAT: _text_encode_str,
-    ColumnType.DOUBLE: _text_encode_str,
+    ColumnType.SHORT: _text_encode_number,
+    ColumnType.LONG: _text_encode_number,
+    ColumnType.FLOAT: _text_encode_number,
+    ColumnType.DOUBLE: _text_encode_number,
     ColumnType.NULL: _unsupported,
     ColumnType.TIMESTAMP: _text_encode_str,
-    ColumnType.LONGLONG: _text_encode_str,
-    ColumnType.INT24: _text_encode_str,
+    ColumnType.LONGLONG: _text_encode_number,
+    ColumnType.INT24: _text_encode_number,
     ColumnType.DATE: _text_encode_str,
     ColumnType.TIME: _text_encode_time,
     ColumnType.DATETIME: _text_encode_str,
-    ColumnType.YEAR: _text_encode_str,
+    ColumnType.YEAR: _text_encode_number,
     ColumnType.NEWDATE: _text_encode_str,
     ColumnType.VARCHAR: _text_encode_str,
     ColumnType.BIT: _text_encode_str,
-- 
2.43.0


From c04d87e9bc8eb593543462c05bc0dd2ed0803360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 40/41] fix: names of authentication plugins are UTF-8 in any
 character set

---
 mysql_mimic/packets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mysql_mimic/packets.py b/mysql_mimic/packets.py
index c5bc468..55a8c18 100644
--- a/mysql_mimic/packets.py
+++ b/mysql_mimic/packets.py
@@ -241,7 +241,7 @@ def parse_handshake_response(
         response.database = client_charset.decode(read_str_null(r))
 
     if Capabilities.CLIENT_PLUGIN_AUTH in capabilities:
-        response.client_plugin = client_charset.decode(read_str_null(r))
+        response.client_plugin = read_str_null(r).decode()
 
     if Capabilities.CLIENT_CONNECT_ATTRS in capabilities:
         response.connect_attrs = _read_connect_attrs(r, client_charset)
@@ -295,7 +295,7 @@ def parse_com_change_user(
             client_charset = Collation(read_uint_2(r)).charset
             response.client_charset = client_charset
         if Capabilities.CLIENT_PLUGIN_AUTH in capabilities:
-            response.client_plugin = client_charset.decode(read_str_null(r))
+            response.client_plugin = read_str_null(r).decode()
         if Capabilities.CLIENT_CONNECT_ATTRS in capabilities:
             response.connect_attrs = _read_connect_attrs(r, client_charset)
 
-- 
2.43.0


From 506efd9dcb6e7353aa014b784b1b83aa82350830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 41/41] fix: let other connections run while a field list is
 sent

---
 mysql_mimic/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysql_mimic/connection.py b/mysql_mimic/connection.py
index d2443a1..474ae17 100644
--- a/mysql_mimic/connection.py
+++ b/mysql_mimic/connection.py
@@ -433,7 +433,7 @@ class Connection:
         com_field_list = parse_com_field_list(self.client_charset, data)
         sql = com_field_list_to_show_statement(com_field_list)
         result = await self.query(sql=sql, query_attrs={})
-        async for row in aiterate(result.rows):
+        async for row in cooperative_iterate(aiterate(result.rows)):
             await self.stream.write(
                 make_column_definition_41(
                     server_charset=self.server_charset,
-- 
2.43.0

