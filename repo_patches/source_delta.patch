From 081f335c5210d22896537f671fe73261aa6a9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 01/46] fix: ignore data after the end-of-stream message no
 matter how it is chunked

---
 src/connectrpc/_envelope.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index 5ee8a35..faf0984 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -38,13 +38,15 @@ class EnvelopeReader(Generic[_RES]):
         self._read_max_bytes = read_max_bytes
 
         self._next_message_length = None
+        self._ended = False
 
     def feed(self, data: bytes | memoryview | bytearray) -> Iterator[_RES]:
         self._buffer.extend(data)
         return self._read_messages()
 
     def _read_messages(self) -> Iterator[_RES]:
-        while self._buffer:
+        # Nothing is read past the end message, regardless of how data is chunked.
+        while self._buffer and not self._ended:
             if self._next_message_length is not None:
                 if len(self._buffer) < self._next_message_length + 5:
                     return
@@ -73,6 +75,7 @@ class EnvelopeReader(Generic[_RES]):
                     )
 
                 if self.handle_end_message(prefix_byte, message_data):
+                    self._ended = True
                     return
 
                 res = self._codec.decode(message_data, self._message_class)
-- 
2.43.0


From db650eca64bb76ccde07364c692891924ebc26b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 02/46] fix: report a stream that ends in the middle of a
 message instead of treating it as complete

---
 src/connectrpc/_client_async.py | 1 +
 src/connectrpc/_client_sync.py  | 1 +
 src/connectrpc/_envelope.py     | 7 +++++++
 src/connectrpc/_server_async.py | 1 +
 src/connectrpc/_server_sync.py  | 1 +
 5 files changed, 11 insertions(+)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 9de08d9..6162606 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -400,6 +400,7 @@ class ConnectClient:
                             # conformance tests require it.
                             await sleep(0)
                     reader.handle_response_complete(resp)
+                    reader.finish()
                 else:
                     content = bytearray()
                     async for chunk in resp.content:
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index abdfe88..ffd0ce5 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -404,6 +404,7 @@ class ConnectClientSync:
                         raise TimeoutError
 
                     reader.handle_response_complete(resp)
+                    reader.finish()
                 else:
                     content = bytearray()
                     for chunk in resp.content:
diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index faf0984..d41775d 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -86,6 +86,13 @@ class EnvelopeReader(Generic[_RES]):
 
             self._next_message_length = int.from_bytes(self._buffer[1:5], "big")
 
+    def finish(self) -> None:
+        """Verifies, when there is no more data, that it did not stop in the middle of a message."""
+        if self._buffer and not self._ended:
+            raise ConnectError(
+                Code.INVALID_ARGUMENT, "protocol error: incomplete envelope"
+            )
+
     def handle_end_message(
         self, prefix_byte: int, message_data: bytes | bytearray
     ) -> bool:
diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index c7ed9e4..bb5e13a 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -573,6 +573,7 @@ async def _request_stream(
                 # Check for cancellation each message. While this seems heavyweight,
                 # conformance tests require it.
                 await sleep(0)
+        reader.finish()
     except CancelledError as e:
         raise ConnectError(Code.CANCELED, "Request was cancelled") from e
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 4a19b83..27dcda8 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -575,6 +575,7 @@ def _request_stream(
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     for chunk in _read_body(environ):
         yield from reader.feed(chunk)
+    reader.finish()
 
 
 def _response_stream(
-- 
2.43.0


From 4a19d452f202e24b9c4f4395b2c0eb0df250f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 03/46] fix: fail a Connect stream that ends without its
 end-of-stream message

---
 src/connectrpc/_protocol_connect.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 4997daf..e8a92b8 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -25,6 +25,7 @@ if TYPE_CHECKING:
     from collections.abc import Mapping
 
     import pyqwest
+    from pyqwest import Response, SyncResponse
 
     from ._codec import Codec
     from ._compression import Compression
@@ -330,3 +331,9 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
             # and streaming.
             raise ConnectWireError.from_dict(error, 500, Code.UNKNOWN).to_exception()
         return True
+
+    def handle_response_complete(
+        self, response: Response | SyncResponse, e: ConnectError | None = None
+    ) -> None:
+        if not self._ended:
+            raise e or ConnectError(Code.INTERNAL, "missing end-of-stream message")
-- 
2.43.0


From 99812501dd435c386ea303d1f2a1cc9ff19685fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 04/46] fix: treat an empty error object in a Connect
 end-of-stream message as an error

---
 src/connectrpc/_protocol_connect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index e8a92b8..5950b2e 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -326,7 +326,7 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
         if metadata:
             handle_response_trailers(metadata)
         error = end_stream_message.get("error")
-        if error:
+        if error is not None:
             # Most likely a bug in the protocol, handling of unknown code is different for unary
             # and streaming.
             raise ConnectWireError.from_dict(error, 500, Code.UNKNOWN).to_exception()
-- 
2.43.0


From cd08a83abb8180cbdf8e81631b3ee35a86153f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 05/46] fix: do not end a cancelled ASGI stream with a success
 status

---
 src/connectrpc/_server_async.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index bb5e13a..9937b29 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -455,7 +455,8 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 if aclose is not None:
                     await aclose()
         except CancelledError as e:
-            raise ConnectError(Code.CANCELED, "Request was cancelled") from e
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise error from e
         except Exception as e:
             error = e
         finally:
-- 
2.43.0


From cc5fa3e078a37d8fe420b5fbe101dd720e868b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 06/46] fix: apply read_max_bytes to messages sent with GET

---
 src/connectrpc/_server_async.py | 6 ++++++
 src/connectrpc/_server_sync.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 9937b29..7e48868 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -329,6 +329,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         if message:  # Don't decompress empty messages
             message = compression.decompress(message)
 
+        if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+            raise ConnectError(
+                Code.RESOURCE_EXHAUSTED,
+                f"message is larger than configured max {self._read_max_bytes}",
+            )
+
         # Get the appropriate decoder for the endpoint
         return codec.decode(message, endpoint.method.input)
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 27dcda8..f190c4f 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -387,6 +387,12 @@ class ConnectWSGIApplication(ABC):
                     )
                 message = compression.decompress(message)
 
+            if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+                raise ConnectError(
+                    Code.RESOURCE_EXHAUSTED,
+                    f"message is larger than configured max {self._read_max_bytes}",
+                )
+
             codec_name = params.get("encoding", ("",))[0]
             codec = self._codecs.get(codec_name)
             if not codec:
-- 
2.43.0


From f3b7a5df249ac419021fc1c547ea40c5d9e3f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 07/46] fix: apply interceptors given as a one-shot iterable to
 every ASGI endpoint

---
 src/connectrpc/_server_async.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 7e48868..f527d8b 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -110,7 +110,8 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         super().__init__()
         self._service = service
         self._endpoints = endpoints
-        self._interceptors = interceptors
+        # Resolve once, interceptors may be an iterable that can only be iterated once.
+        self._interceptors = resolve_interceptors(interceptors)
         self._resolved_endpoints = None
         self._read_max_bytes = read_max_bytes
         self._compressions = resolve_compressions(compressions)
@@ -533,9 +534,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         resolved_endpoints = self._endpoints(service)
         if self._interceptors:
             resolved_endpoints = {
-                path: _apply_interceptors(
-                    endpoint, resolve_interceptors(self._interceptors)
-                )
+                path: _apply_interceptors(endpoint, self._interceptors)
                 for path, endpoint in resolved_endpoints.items()
             }
         return resolved_endpoints
-- 
2.43.0


From 45df3adc3cf33ab2e6383041e401de0699013ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 08/46] fix: reject truncated zstd messages

---
 src/connectrpc/compression/zstd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/compression/zstd.py b/src/connectrpc/compression/zstd.py
index 3923ebb..a5ddf73 100644
--- a/src/connectrpc/compression/zstd.py
+++ b/src/connectrpc/compression/zstd.py
@@ -27,5 +27,13 @@ class ZstdCompression(Compression):
     def decompress(self, data: bytes | bytearray | memoryview) -> bytes:
         # Support clients sending frames without length by using
         # stream API.
-        with zstandard.ZstdDecompressor().stream_reader(data) as reader:
-            return reader.read()
+        data = bytes(data)
+        res = bytearray()
+        while data:
+            decompressor = zstandard.ZstdDecompressor().decompressobj()
+            res.extend(decompressor.decompress(data))
+            if not decompressor.eof:
+                msg = "compressed data ended before the end of the zstd frame"
+                raise zstandard.ZstdError(msg)
+            data = decompressor.unused_data
+        return bytes(res)
-- 
2.43.0


From 109d15f2febc0edd9dd2b9c4816b55b0f08fb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 09/46] fix: send a lowercase accept-post header name as ASGI
 requires

---
 src/connectrpc/_server_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index f527d8b..b8c1b01 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -218,7 +218,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             if not codec:
                 raise HTTPException(
                     HTTPStatus.UNSUPPORTED_MEDIA_TYPE,
-                    [("Accept-Post", "application/json, application/proto")],
+                    [("accept-post", "application/json, application/proto")],
                 )
 
             if is_unary and isinstance(protocol, ConnectServerProtocol):
-- 
2.43.0


From b938f228f9737d7cdc8b861dc48aac9b0b25f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 10/46] fix: serve requests whose ASGI scope or WSGI environ
 omits optional keys

---
 src/connectrpc/_server_async.py | 6 +++---
 src/connectrpc/_server_sync.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index b8c1b01..99e262a 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -179,9 +179,9 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         try:
             path = scope["path"]
             endpoint = endpoints.get(path)
-            if not endpoint and scope["root_path"]:
+            if not endpoint and (root_path := scope.get("root_path")):
                 # The application was mounted at some root so try stripping the prefix.
-                path = path.removeprefix(scope["root_path"])
+                path = path.removeprefix(root_path)
                 endpoint = endpoints.get(path)
             if not endpoint:
                 raise HTTPException(HTTPStatus.NOT_FOUND, [])
@@ -194,7 +194,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             content_type = headers.get("content-type", "")
             protocol = negotiate_server_protocol(content_type)
             if protocol.uses_trailers() and "http.response.trailers" not in cast(
-                "dict", scope.get("extensions", {})
+                "dict", scope.get("extensions") or {}
             ):
                 msg = f"ASGI server does not support ASGI trailers extension but protocol for content-type '{content_type}' requires trailers"
                 raise RuntimeError(msg)
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index f190c4f..fc6723d 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -194,11 +194,11 @@ class ConnectWSGIApplication(ABC):
     ) -> Iterable[bytes]:
         ctx: RequestContext | None = None
         try:
-            path = environ["PATH_INFO"]
+            path = environ.get("PATH_INFO")
             if not path:
                 path = "/"
             endpoint = self._endpoints.get(path)
-            if not endpoint and environ["SCRIPT_NAME"] == self.path:
+            if not endpoint and environ.get("SCRIPT_NAME") == self.path:
                 # The application was mounted at the service's path so we reconstruct
                 # the full URL.
                 endpoint = self._endpoints.get(self.path + path)
-- 
2.43.0


From c55a646f64aed08bb6585c9c4e126d066b5f0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 11/46] fix: report a malformed grpc-timeout as
 invalid_argument

---
 src/connectrpc/_protocol_grpc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index a781f17..527b43b 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -61,7 +61,10 @@ class GRPCServerProtocol:
             raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
 
         timeout_header = headers.get(GRPC_HEADER_TIMEOUT)
-        timeout_ms = _parse_timeout(timeout_header) if timeout_header else None
+        try:
+            timeout_ms = _parse_timeout(timeout_header) if timeout_header else None
+        except ValueError as e:
+            raise ConnectError(Code.INVALID_ARGUMENT, str(e)) from e
 
         server_address = host_to_server_address(headers.get("host"), http_scheme)
 
-- 
2.43.0


From 5bb7bf6e74db3c7612e85d1269562c6107440196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 12/46] fix: report a malformed unary request body as
 invalid_argument on ASGI and for GET

---
 src/connectrpc/_server_async.py | 26 ++++++++++++++++++++++----
 src/connectrpc/_server_sync.py  |  7 ++++++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 99e262a..d94d9d0 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -328,7 +328,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
         # Decompress and decode message
         if message:  # Don't decompress empty messages
-            message = compression.decompress(message)
+            message = _decompress(compression, message)
 
         if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
             raise ConnectError(
@@ -337,7 +337,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             )
 
         # Get the appropriate decoder for the endpoint
-        return codec.decode(message, endpoint.method.input)
+        return _decode(codec, message, endpoint.method.input)
 
     async def _read_post_request(
         self,
@@ -362,7 +362,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             )
 
         if req_body:  # Don't decompress empty body
-            req_body = compression.decompress(req_body)
+            req_body = _decompress(compression, req_body)
 
         if self._read_max_bytes is not None and len(req_body) > self._read_max_bytes:
             raise ConnectError(
@@ -370,7 +370,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 f"message is larger than configured max {self._read_max_bytes}",
             )
 
-        return codec.decode(req_body, endpoint.method.input)
+        return _decode(codec, req_body, endpoint.method.input)
 
     async def _handle_stream(
         self,
@@ -540,6 +540,24 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         return resolved_endpoints
 
 
+def _decompress(compression: Compression, data: bytes) -> bytes:
+    try:
+        return compression.decompress(data)
+    except Exception as e:
+        raise ConnectError(
+            Code.INVALID_ARGUMENT, f"Failed to decompress request body: {e!s}"
+        ) from e
+
+
+def _decode(codec: Codec, data: bytes, message_class: type[_REQ]) -> _REQ:
+    try:
+        return codec.decode(data, message_class)
+    except Exception as e:
+        raise ConnectError(
+            Code.INVALID_ARGUMENT, f"Failed to decode request body: {e!s}"
+        ) from e
+
+
 async def _send_stream_response_headers(
     send: ASGISendCallable,
     protocol: ServerProtocol,
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index fc6723d..347c100 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -385,7 +385,12 @@ class ConnectWSGIApplication(ABC):
                         Code.UNIMPLEMENTED,
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
-                message = compression.decompress(message)
+                try:
+                    message = compression.decompress(message)
+                except Exception as e:
+                    raise ConnectError(
+                        Code.INVALID_ARGUMENT, f"Failed to decompress message: {e!s}"
+                    ) from e
 
             if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
                 raise ConnectError(
-- 
2.43.0


From 09be6ac6d056d46859a66da239abbc2e711f806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 13/46] fix: report a malformed message in a stream as
 invalid_argument

---
 src/connectrpc/_envelope.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index d41775d..63e0c82 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -63,7 +63,12 @@ class EnvelopeReader(Generic[_RES]):
                             Code.INTERNAL,
                             "protocol error: sent compressed message without compression support",
                         )
-                    message_data = self._compression.decompress(message_data)
+                    try:
+                        message_data = self._compression.decompress(message_data)
+                    except Exception as e:
+                        raise ConnectError(
+                            Code.INVALID_ARGUMENT, f"failed to decompress message: {e}"
+                        ) from e
 
                 if (
                     self._read_max_bytes is not None
@@ -78,7 +83,12 @@ class EnvelopeReader(Generic[_RES]):
                     self._ended = True
                     return
 
-                res = self._codec.decode(message_data, self._message_class)
+                try:
+                    res = self._codec.decode(message_data, self._message_class)
+                except Exception as e:
+                    raise ConnectError(
+                        Code.INVALID_ARGUMENT, f"failed to decode message: {e}"
+                    ) from e
                 yield res
 
             if len(self._buffer) < 5:
-- 
2.43.0


From 28a868321b1b334772f990fa7da16a6701c22e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 14/46] fix: answer ASGI requests whose headers or query string
 are not UTF-8

---
 src/connectrpc/_server_async.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index d94d9d0..61ba92f 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -206,7 +206,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             is_unary = isinstance(endpoint, EndpointUnary)
 
             if http_method == "GET":
-                query_string = scope.get("query_string", b"").decode("utf-8")
+                try:
+                    query_string = scope.get("query_string", b"").decode("utf-8")
+                except UnicodeDecodeError as e:
+                    raise ConnectError(
+                        Code.INVALID_ARGUMENT, "query string is not valid UTF-8"
+                    ) from e
                 query_params = parse_qs(query_string, keep_blank_values=True)
                 codec_name = query_params.get("encoding", ("",))[0]
             else:
@@ -640,10 +645,18 @@ async def _yield_single_response(response: _RES) -> AsyncIterator[_RES]:
 def _process_headers(iterable: Iterable[tuple[bytes, bytes]]) -> Headers:
     result = Headers()
     for key, value in iterable:
-        result.add(key.decode(), value.decode())
+        result.add(_decode_header(key), _decode_header(value))
     return result
 
 
+def _decode_header(data: bytes) -> str:
+    try:
+        return data.decode()
+    except UnicodeDecodeError:
+        # HTTP allows arbitrary bytes in headers, accept what is not UTF-8 too.
+        return data.decode("latin-1")
+
+
 def _add_context_headers(
     headers: list[tuple[bytes, bytes]], ctx: RequestContext
 ) -> None:
-- 
2.43.0


From 2d0fcd2686c4029a7ed6057168650b57d66daafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 15/46] fix: reject an unknown request compression in Connect
 streams as unimplemented

---
 src/connectrpc/_protocol_connect.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 5950b2e..27ce74f 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -146,13 +146,11 @@ class ConnectServerProtocol:
 
     def negotiate_stream_compression(
         self, headers: Headers, compressions: dict[str, Compression]
-    ) -> tuple[Compression, Compression]:
+    ) -> tuple[Compression | None, Compression]:
         req_compression_name = headers.get(
             CONNECT_STREAMING_HEADER_COMPRESSION, "identity"
         )
-        req_compression = (
-            compressions.get(req_compression_name) or IdentityCompression()
-        )
+        req_compression = compressions.get(req_compression_name)
         accept_compression = headers.get(
             CONNECT_STREAMING_HEADER_ACCEPT_COMPRESSION, ""
         )
-- 
2.43.0


From ac914e999a57ed1ce562f1ece3115f0212b85b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 16/46] fix: keep connect-timeout-ms within the ten digits the
 protocol allows

---
 src/connectrpc/_protocol_connect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 27ce74f..2c418d6 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -222,7 +222,8 @@ class ConnectClientProtocol:
             f"{CONNECT_STREAMING_CONTENT_TYPE_PREFIX if stream else CONNECT_UNARY_CONTENT_TYPE_PREFIX}{codec.name()}"
         )
         if timeout_ms is not None:
-            headers["connect-timeout-ms"] = str(timeout_ms)
+            # The Connect protocol limits timeouts to 10 digits.
+            headers["connect-timeout-ms"] = str(min(timeout_ms, 9999999999))
 
         server_address = url_to_server_address(url)
 
-- 
2.43.0


From a4867dd0234c256039cf17e049ea41c06141b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 17/46] fix: compute the server address of URLs with a path and
 of IPv6 hosts

---
 src/connectrpc/_protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index f261c4f..5f3ac24 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -284,7 +284,8 @@ class HTTPException(Exception):
 def host_to_server_address(host: str | None, http_scheme: str) -> str | None:
     if host is None:
         return None
-    if ":" not in host:
+    # Colons within the brackets of an IPv6 address do not separate a port.
+    if ":" not in host.rpartition("]")[2]:
         match http_scheme:
             case "https":
                 host += ":443"
@@ -301,4 +302,7 @@ def url_to_server_address(address: str) -> str | None:
         scheme = "http"
         address = address[len("http://") :]
 
+    # The URL may have a path after the host and port.
+    address = address.partition("/")[0]
+
     return host_to_server_address(address, scheme)
-- 
2.43.0


From 21b4fded2bdfcc89c5adbd0321f4788c000a099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 18/46] fix: do not fail an RPC when an address has no numeric
 port to record

---
 connectrpc-otel/connectrpc_otel/_interceptor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index d4908f4..6e2c5ff 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -109,9 +109,11 @@ class OpenTelemetryInterceptor:
         }
 
         if sa := ctx.server_address:
-            addr, port = sa.rsplit(":", 1)
+            addr, _, port = sa.rpartition(":")
             shared_attrs[SERVER_ADDRESS] = addr
-            shared_attrs[SERVER_PORT] = int(port)
+            # The address can come from a Host header, i.e. have an arbitrary value.
+            if len(port) <= 5 and port.isascii() and port.isdigit():
+                shared_attrs[SERVER_PORT] = int(port)
 
         cm = self._start_span(ctx, rpc_method, shared_attrs)
         span = cm.__enter__()
@@ -162,9 +164,10 @@ class OpenTelemetryInterceptor:
         attrs: dict[str, AttributeValue] = shared_attrs.copy()
 
         if ca := ctx.client_address:
-            addr, port = ca.rsplit(":", 1)
+            addr, _, port = ca.rpartition(":")
             attrs[CLIENT_ADDRESS] = addr
-            attrs[CLIENT_PORT] = int(port)
+            if len(port) <= 5 and port.isascii() and port.isdigit():
+                attrs[CLIENT_PORT] = int(port)
 
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
-- 
2.43.0


From a5c0cd04803681458e2cb2ed387d45020c2f2d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 19/46] fix: propagate the client span to the server instead of
 its parent

---
 connectrpc-otel/connectrpc_otel/_interceptor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index 6e2c5ff..7ea11fc 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -152,8 +152,6 @@ class OpenTelemetryInterceptor:
         parent_otel_ctx = None
         if self._client:
             span_kind = SpanKind.CLIENT
-            carrier = ctx.request_headers
-            self._propagator.inject(carrier, setter=_DEFAULT_TEXTMAP_SETTER)
         else:
             span_kind = SpanKind.SERVER
             parent_span = get_current_span()
@@ -172,6 +170,11 @@ class OpenTelemetryInterceptor:
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
         ) as span:
+            if self._client:
+                # Inject within the span so that it is the parent of the server's.
+                self._propagator.inject(
+                    ctx.request_headers, setter=_DEFAULT_TEXTMAP_SETTER
+                )
             yield span
 
     def _get_error_attributes(
-- 
2.43.0


From a39fb38fc05277d56dd0c8a30ad1f6bed70b719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 20/46] fix: close the wrapped stream before a metadata
 interceptor sees the RPC end

---
 src/connectrpc/_interceptor_async.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_interceptor_async.py b/src/connectrpc/_interceptor_async.py
index 34c8f61..8577e82 100644
--- a/src/connectrpc/_interceptor_async.py
+++ b/src/connectrpc/_interceptor_async.py
@@ -200,8 +200,15 @@ class MetadataInterceptorInvoker(Generic[T]):
         token = await self._delegate.on_start(ctx)
         error: Exception | None = None
         try:
-            async for response in call_next(request, ctx):
-                yield response
+            responses = call_next(request, ctx)
+            try:
+                async for response in responses:
+                    yield response
+            finally:
+                # If not fully consumed, close what we wrap before reporting the end.
+                aclose = getattr(responses, "aclose", None)
+                if aclose is not None:
+                    await aclose()
         except Exception as e:
             error = e
             raise
@@ -217,8 +224,15 @@ class MetadataInterceptorInvoker(Generic[T]):
         token = await self._delegate.on_start(ctx)
         error: Exception | None = None
         try:
-            async for response in call_next(request, ctx):
-                yield response
+            responses = call_next(request, ctx)
+            try:
+                async for response in responses:
+                    yield response
+            finally:
+                # If not fully consumed, close what we wrap before reporting the end.
+                aclose = getattr(responses, "aclose", None)
+                if aclose is not None:
+                    await aclose()
         except Exception as e:
             error = e
             raise
-- 
2.43.0


From 4536bbc22405c1eaf299e54f77a0e663f9a1356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 21/46] fix: do not cancel the consumer of an async stream when
 the RPC deadline passes

---
 src/connectrpc/_client_async.py | 37 ++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 6162606..488f637 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -4,6 +4,7 @@ import asyncio
 import functools
 import sys
 from asyncio import CancelledError, sleep, wait_for
+from contextlib import AsyncExitStack
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -373,12 +374,15 @@ class ConnectClient:
                 request, self._codec, self._send_compression
             )
 
-            async with (
-                asyncio_timeout(timeout_s),
-                self._http_client.stream(
-                    "POST", url, headers=request_headers, content=request_data
-                ) as resp,
-            ):
+            # A timeout must only be active while we wait ourselves. If it were active
+            # while yielding, it would cancel the code consuming the stream.
+            async with AsyncExitStack() as stack:
+                async with asyncio_timeout(timeout_s):
+                    resp = await stack.enter_async_context(
+                        self._http_client.stream(
+                            "POST", url, headers=request_headers, content=request_data
+                        )
+                    )
                 handle_response_headers(resp.headers)
                 if resp.status == 200:
                     self._protocol.validate_stream_response(
@@ -393,7 +397,8 @@ class ConnectClient:
                         compression,
                         self._read_max_bytes,
                     )
-                    async for chunk in resp.content:
+                    response_data = aiter(resp.content)
+                    while (chunk := await _next_chunk(response_data, ctx)) is not None:
                         for message in reader.feed(bytes(chunk)):
                             yield message
                             # Check for cancellation each message. While this seems heavyweight,
@@ -403,7 +408,8 @@ class ConnectClient:
                     reader.finish()
                 else:
                     content = bytearray()
-                    async for chunk in resp.content:
+                    response_data = aiter(resp.content)
+                    while (chunk := await _next_chunk(response_data, ctx)) is not None:
                         content.extend(chunk)
                     fres = FullResponse(
                         status=resp.status,
@@ -428,6 +434,21 @@ class ConnectClient:
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
 
+async def _next_chunk(
+    response_data: AsyncIterator[bytes], ctx: RequestContext
+) -> bytes | None:
+    timeout_s = None
+    if (timeout_ms := ctx.timeout_ms) is not None:
+        if timeout_ms <= 0:
+            raise TimeoutError
+        timeout_s = timeout_ms / 1000.0
+    async with asyncio_timeout(timeout_s):
+        try:
+            return await anext(response_data)
+        except StopAsyncIteration:
+            return None
+
+
 async def _streaming_request_content(
     msgs: AsyncIterator[Any], codec: Codec, compression: Compression | None
 ) -> AsyncIterator[bytes]:
-- 
2.43.0


From 5e457f76aed0c770b67d0a327ca752cfafa3e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 22/46] fix: keep interceptors given as a one-shot iterable
 when instrumented

---
 connectrpc-otel/connectrpc_otel/_instrumentor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connectrpc-otel/connectrpc_otel/_instrumentor.py b/connectrpc-otel/connectrpc_otel/_instrumentor.py
index 7aa7a75..d1c9726 100644
--- a/connectrpc-otel/connectrpc_otel/_instrumentor.py
+++ b/connectrpc-otel/connectrpc_otel/_instrumentor.py
@@ -85,10 +85,10 @@ class ConnectInstrumentor(BaseInstrumentor):
             "interceptors"
         )
         interceptors = [] if interceptors is None else [*interceptors]
+        kwargs["interceptors"] = interceptors
         if any(isinstance(i, OpenTelemetryInterceptor) for i in interceptors):
             return wrapped(*args, **kwargs)
 
-        kwargs["interceptors"] = interceptors
         # OpenTelemetry interceptor should be first so i.e. logging interceptors
         # have trace IDs.
         interceptors.insert(
-- 
2.43.0


From 105fa06329054f4b10c7b6e1c5847693e3135172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 23/46] fix: always report a string as the message of an error
 received from a server

---
 src/connectrpc/_protocol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index 5f3ac24..3466304 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -120,7 +120,9 @@ class ConnectWireError:
                 code = unexpected_code
         else:
             code = _http_status_code_to_error.get(http_status, Code.UNKNOWN)
-        message = data.get("message", "")
+        message = data.get("message")
+        if not isinstance(message, str):
+            message = ""
         details: Sequence[ErrorDetail] = ()
         details_json = cast("list[dict[str, str]] | None", data.get("details"))
         if details_json:
-- 
2.43.0


From b4739a6ff5c60f15878e0ab09e67fa75999436bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 24/46] fix: report the reset of a stream that comes with
 malformed trailers

---
 src/connectrpc/_client_async.py | 8 +++++++-
 src/connectrpc/_client_sync.py  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 488f637..99c7b50 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -429,7 +429,13 @@ class ConnectClient:
                 # It is possible for a reset to come with trailers which should
                 # be used.
                 if reader and resp:
-                    reader.handle_response_complete(resp, rst_err)
+                    try:
+                        reader.handle_response_complete(resp, rst_err)
+                    except ConnectError:
+                        raise
+                    except Exception:  # noqa: S110
+                        # Malformed trailers, only the reset is known.
+                        pass
                 raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index ffd0ce5..90cfe6d 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -432,7 +432,13 @@ class ConnectClientSync:
                 # It is possible for a reset to come with trailers which should
                 # be used.
                 if reader and resp:
-                    reader.handle_response_complete(resp, rst_err)
+                    try:
+                        reader.handle_response_complete(resp, rst_err)
+                    except ConnectError:
+                        raise
+                    except Exception:  # noqa: S110
+                        # Malformed trailers, only the reset is known.
+                        pass
                 raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
-- 
2.43.0


From b0b5b3ca2a43b8a013f6a01360988c1e8a98a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 25/46] fix: don't accept GET for streaming methods

---
 src/connectrpc/_server_async.py | 6 ++++--
 src/connectrpc/_server_sync.py  | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 61ba92f..7250a20 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -193,6 +193,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
             content_type = headers.get("content-type", "")
             protocol = negotiate_server_protocol(content_type)
+            is_unary = isinstance(endpoint, EndpointUnary)
+            if not is_unary and http_method != "POST":
+                # Only unary methods can be called with GET, if at all.
+                raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
             if protocol.uses_trailers() and "http.response.trailers" not in cast(
                 "dict", scope.get("extensions") or {}
             ):
@@ -203,8 +207,6 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 endpoint.method, http_method, http_scheme, headers, client_address
             )
 
-            is_unary = isinstance(endpoint, EndpointUnary)
-
             if http_method == "GET":
                 try:
                     query_string = scope.get("query_string", b"").decode("utf-8")
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 347c100..19f24a7 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -217,6 +217,9 @@ class ConnectWSGIApplication(ABC):
 
             content_type = headers.get("content-type", "")
             protocol = negotiate_server_protocol(content_type)
+            if http_method != "POST" and not isinstance(endpoint, EndpointUnarySync):
+                # Only unary methods can be called with GET, if at all.
+                raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
             send_trailers: Callable[[list[tuple[str, str]]], None] | None = None
 
             if protocol.uses_trailers():
-- 
2.43.0


From 98f49635449d117147a6f3b7e0eec88069a27e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 26/46] fix: decompress unary responses compressed with a
 custom encoding

---
 src/connectrpc/_client_async.py  | 13 ++++++++-----
 src/connectrpc/_client_shared.py | 18 ++++++++++++++++++
 src/connectrpc/_client_sync.py   | 13 ++++++++-----
 3 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 99c7b50..4d4f91a 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -317,24 +317,27 @@ class ConnectClient:
             self._protocol.validate_response(
                 self._codec.name(), resp.status, resp.headers.get("content-type", "")
             )
-            # Decompression itself is handled by pyqwest, but we validate it
-            # by resolving it.
-            self._protocol.handle_response_compression(
+            # Decompression of standard encodings is handled by pyqwest, but we
+            # validate it by resolving it.
+            compression = self._protocol.handle_response_compression(
                 resp.headers, self._response_compressions, stream=False
             )
             handle_response_headers(resp.headers)
 
             if resp.status == 200:
+                content = _client_shared.decompress_unary_response(
+                    compression, resp.content
+                )
                 if (
                     self._read_max_bytes is not None
-                    and len(resp.content) > self._read_max_bytes
+                    and len(content) > self._read_max_bytes
                 ):
                     raise ConnectError(
                         Code.RESOURCE_EXHAUSTED,
                         f"message is larger than configured max {self._read_max_bytes}",
                     )
 
-                return self._codec.decode(resp.content, ctx.method.output)
+                return self._codec.decode(content, ctx.method.output)
             raise ConnectWireError.from_response(resp).to_exception()
         except (TimeoutError, asyncio.TimeoutError) as e:
             raise ConnectError(Code.DEADLINE_EXCEEDED, "Request timed out") from e
diff --git a/src/connectrpc/_client_shared.py b/src/connectrpc/_client_shared.py
index 4ff0778..e3d710e 100644
--- a/src/connectrpc/_client_shared.py
+++ b/src/connectrpc/_client_shared.py
@@ -12,6 +12,7 @@ from .errors import ConnectError
 
 if TYPE_CHECKING:
     from ._codec import Codec
+    from .compression import Compression
     from .request import RequestContext
 
 
@@ -31,6 +32,23 @@ def prepare_get_params(
     return params
 
 
+# Content encodings that the HTTP client decompresses itself.
+_HTTP_CLIENT_ENCODINGS = frozenset(("br", "gzip", "identity", "zstd"))
+
+
+def decompress_unary_response(compression: Compression, content: bytes) -> bytes:
+    """Decompresses the content of a response unless the HTTP client already did."""
+    # Don't decompress empty content
+    if not content or compression.name() in _HTTP_CLIENT_ENCODINGS:
+        return content
+    try:
+        return compression.decompress(content)
+    except Exception as e:
+        raise ConnectError(
+            Code.INVALID_ARGUMENT, f"failed to decompress message: {e}"
+        ) from e
+
+
 # https://github.com/connectrpc/connect-go/blob/59cc6973156cd9164d6bea493b1d106ed894f2df/error.go#L393
 def maybe_map_stream_reset(
     e: Exception, ctx: RequestContext[REQ, RES]
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 90cfe6d..14a82d1 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -313,24 +313,27 @@ class ConnectClientSync:
             self._protocol.validate_response(
                 self._codec.name(), resp.status, resp.headers.get("content-type", "")
             )
-            # Decompression itself is handled by pyqwest, but we validate it
-            # by resolving it.
-            self._protocol.handle_response_compression(
+            # Decompression of standard encodings is handled by pyqwest, but we
+            # validate it by resolving it.
+            compression = self._protocol.handle_response_compression(
                 resp.headers, self._response_compressions, stream=False
             )
             handle_response_headers(resp.headers)
 
             if resp.status == 200:
+                content = _client_shared.decompress_unary_response(
+                    compression, resp.content
+                )
                 if (
                     self._read_max_bytes is not None
-                    and len(resp.content) > self._read_max_bytes
+                    and len(content) > self._read_max_bytes
                 ):
                     raise ConnectError(
                         Code.RESOURCE_EXHAUSTED,
                         f"message is larger than configured max {self._read_max_bytes}",
                     )
 
-                return self._codec.decode(resp.content, ctx.method.output)
+                return self._codec.decode(content, ctx.method.output)
             raise ConnectWireError.from_response(resp).to_exception()
         except TimeoutError as e:
             raise ConnectError(Code.DEADLINE_EXCEEDED, "Request timed out") from e
-- 
2.43.0


From ecbf4b16e56e7572a6c5a4ab19a7b2fe0f5ffcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 27/46] fix: membership in views of headers with repeated names

---
 src/connectrpc/_headers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_headers.py b/src/connectrpc/_headers.py
index 092d8d7..2277653 100644
--- a/src/connectrpc/_headers.py
+++ b/src/connectrpc/_headers.py
@@ -98,7 +98,7 @@ class Headers(MutableMapping[str, str]):
         """Return an iterable view of all header items, including duplicates."""
         if self._extra is None:
             return self._store.items()
-        return _AllItemsView(self._store, self._extra)
+        return _AllItemsView(self, self._store, self._extra)
 
     # Commonly used functions that delegate to _store for performance vs the base class
     # implementations that rely on dunder methods.
@@ -129,11 +129,18 @@ class _AllItemsView(ItemsView[str, str]):
     _extra: dict[str, list[str]] | None
 
     def __init__(
-        self, store: dict[str, str], extra: dict[str, list[str]] | None
+        self,
+        headers: Headers,
+        store: dict[str, str],
+        extra: dict[str, list[str]] | None,
     ) -> None:
+        super().__init__(headers)
         self._store = store
         self._extra = extra
 
+    def __contains__(self, item: object) -> bool:
+        return any(item == i for i in self)
+
     def __iter__(self) -> Iterator[tuple[str, str]]:
         for key, v in self._store.items():
             yield (key, v)
-- 
2.43.0


From 68e268af5c0b811b5f01d6cd165890d749964129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 28/46] fix: don't instrument modules imported after
 uninstrumenting

---
 .../connectrpc_otel/_instrumentor.py          | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_instrumentor.py b/connectrpc-otel/connectrpc_otel/_instrumentor.py
index d1c9726..5765038 100644
--- a/connectrpc-otel/connectrpc_otel/_instrumentor.py
+++ b/connectrpc-otel/connectrpc_otel/_instrumentor.py
@@ -34,10 +34,18 @@ class ConnectInstrumentor(BaseInstrumentor):
             "TracerProvider | None", kwargs.get("tracer_provider")
         )
 
-        register_post_import_hook(self._patch_client, "connectrpc.client")
-        register_post_import_hook(self._patch_server, "connectrpc.server")
+        # Import hooks can't be removed so make sure they only have an effect while
+        # the instrumentation they were registered for is in place.
+        self._instrumentation = instrumentation = object()
+        register_post_import_hook(
+            partial(self._patch_client, instrumentation), "connectrpc.client"
+        )
+        register_post_import_hook(
+            partial(self._patch_server, instrumentation), "connectrpc.server"
+        )
 
     def _uninstrument(self, **kwargs: object) -> None:
+        self._instrumentation = None
         # TODO: Remove sys.modules check after
         # https://github.com/open-telemetry/opentelemetry-python-contrib/pull/4321
         if "connectrpc.client" in sys.modules:
@@ -47,7 +55,9 @@ class ConnectInstrumentor(BaseInstrumentor):
             unwrap("connectrpc.server.ConnectASGIApplication", "__init__")
             unwrap("connectrpc.server.ConnectWSGIApplication", "__init__")
 
-    def _patch_client(self, module: ModuleType) -> None:
+    def _patch_client(self, instrumentation: object, module: ModuleType) -> None:
+        if instrumentation is not self._instrumentation:
+            return
         wrap_function_wrapper(
             module, "ConnectClient.__init__", partial(self._init_wrapper, client=True)
         )
@@ -57,7 +67,9 @@ class ConnectInstrumentor(BaseInstrumentor):
             partial(self._init_wrapper, client=True),
         )
 
-    def _patch_server(self, module: ModuleType) -> None:
+    def _patch_server(self, instrumentation: object, module: ModuleType) -> None:
+        if instrumentation is not self._instrumentation:
+            return
         wrap_function_wrapper(
             module,
             "ConnectASGIApplication.__init__",
-- 
2.43.0


From 2e5d18f82a03f29ddc41bb2df6aca587382385da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 29/46] fix: close the stream of a unary response with more
 than one message

---
 src/connectrpc/_client_async.py | 22 ++++++++++++----------
 src/connectrpc/_client_sync.py  | 21 ++++++++++++---------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 4d4f91a..8b9d6c5 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -4,7 +4,7 @@ import asyncio
 import functools
 import sys
 from asyncio import CancelledError, sleep, wait_for
-from contextlib import AsyncExitStack
+from contextlib import AsyncExitStack, aclosing
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -37,7 +37,7 @@ else:
     from ._asyncio_timeout import timeout as asyncio_timeout
 
 if TYPE_CHECKING:
-    from collections.abc import AsyncIterator, Iterable, Mapping
+    from collections.abc import AsyncGenerator, AsyncIterator, Iterable, Mapping
     from types import TracebackType
 
     from ._envelope import EnvelopeReader
@@ -362,7 +362,7 @@ class ConnectClient:
 
     async def _send_request_bidi_stream(
         self, request: AsyncIterator[REQ], ctx: RequestContext[REQ, RES]
-    ) -> AsyncIterator[RES]:
+    ) -> AsyncGenerator[RES, None]:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
@@ -470,14 +470,16 @@ async def _yield_single_message(message: REQ) -> AsyncIterator[REQ]:
     yield message
 
 
-async def _consume_single_response(stream: AsyncIterator[RES]) -> RES:
+async def _consume_single_response(stream: AsyncGenerator[RES, None]) -> RES:
     res = None
-    async for message in stream:
-        if res is not None:
-            raise ConnectError(
-                Code.UNIMPLEMENTED, "unary response has multiple messages"
-            )
-        res = message
+    # Close the stream if we don't read it to its end.
+    async with aclosing(stream):
+        async for message in stream:
+            if res is not None:
+                raise ConnectError(
+                    Code.UNIMPLEMENTED, "unary response has multiple messages"
+                )
+            res = message
     if res is None:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 14a82d1..8dc302b 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import functools
+from contextlib import closing
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -29,7 +30,7 @@ from .protocol import ProtocolType
 
 if TYPE_CHECKING:
     import sys
-    from collections.abc import Iterable, Iterator, Mapping
+    from collections.abc import Generator, Iterable, Iterator, Mapping
     from types import TracebackType
 
     from ._envelope import EnvelopeReader
@@ -354,7 +355,7 @@ class ConnectClientSync:
 
     def _send_request_bidi_stream(
         self, request: Iterator[REQ], ctx: RequestContext[REQ, RES]
-    ) -> Iterator[RES]:
+    ) -> Generator[RES, None, None]:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
@@ -454,14 +455,16 @@ def _streaming_request_content(
         yield writer.write(msg)
 
 
-def _consume_single_response(stream: Iterator[RES]) -> RES:
+def _consume_single_response(stream: Generator[RES, None, None]) -> RES:
     res = None
-    for message in stream:
-        if res is not None:
-            raise ConnectError(
-                Code.UNIMPLEMENTED, "unary response has multiple messages"
-            )
-        res = message
+    # Close the stream if we don't read it to its end.
+    with closing(stream):
+        for message in stream:
+            if res is not None:
+                raise ConnectError(
+                    Code.UNIMPLEMENTED, "unary response has multiple messages"
+                )
+            res = message
     if res is None:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
-- 
2.43.0


From 243994aff428e3cdf787b738c72e7a0c8a70e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 30/46] fix: generated classes take precedence over imports of
 the same name

---
 .../protoc_gen_connectrpc/__init__.py         | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 5b76df1..afb4cb5 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -112,7 +112,10 @@ def _generate_file(f: File, desc: DescFile, options: Options) -> None:
 
 
 def _generate_async_stubs(f: File, service: DescService, options: Options) -> None:
-    service_name = escape_identifier(service.name)
+    # Names defined in the file are identifiers so imports don't conflict with them.
+    service_name = f.ident(escape_identifier(service.name))
+    application_name = f.ident(f"{service_name.name}ASGIApplication")
+    client_name = f.ident(f"{service_name.name}Client")
     default_server_codecs = (
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
@@ -146,8 +149,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
     f.print()
     with f.scope(
         "class ",
-        escape_identifier(service.name),
-        "ASGIApplication(",
+        application_name,
+        "(",
         _CONNECT_ASGI_APPLICATION,
         "[",
         service_name,
@@ -228,7 +231,7 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
             f.print(f'return "/{service.type_name}"')
     f.print()
     f.print()
-    with f.scope("class ", service_name, "Client(", _CONNECT_CLIENT, "):"):
+    with f.scope("class ", client_name, "(", _CONNECT_CLIENT, "):"):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR, _PYQWEST_CLIENT)
 
@@ -292,11 +295,15 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
 
 
 def _generate_sync_stubs(f: File, service: DescService, options: Options) -> None:
-    service_name = f"{escape_identifier(service.name)}"
+    # Names defined in the file are identifiers so imports don't conflict with them.
+    base_name = escape_identifier(service.name)
+    service_name = f.ident(f"{base_name}Sync")
+    application_name = f.ident(f"{base_name}WSGIApplication")
+    client_name = f.ident(f"{base_name}ClientSync")
     default_codecs = (
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
-    with f.scope("class ", service_name, "Sync(", _PROTOCOL, "):"):
+    with f.scope("class ", service_name, "(", _PROTOCOL, "):"):
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
             with f.scope(
@@ -325,14 +332,14 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
     f.print()
     with f.scope(
         "class ",
-        escape_identifier(service.name),
-        "WSGIApplication(",
+        application_name,
+        "(",
         _CONNECT_WSGI_APPLICATION,
         "):",
     ):
         with f.scope("def __init__("):
             f.print("self,")
-            f.print("service: ", service_name, "Sync,")
+            f.print("service: ", service_name, ",")
             f.print("interceptors: ", _ITERABLE, "[", _INTERCEPTOR_SYNC, "] = (),")
             f.print("read_max_bytes: int | None = None,")
             f.print("compressions: ", _ITERABLE, "[", _COMPRESSION, "] | None = None,")
@@ -391,7 +398,7 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
             f.print(f'return "/{service.type_name}"')
     f.print()
     f.print()
-    with f.scope("class ", service_name, "ClientSync(", _CONNECT_CLIENT_SYNC, "):"):
+    with f.scope("class ", client_name, "(", _CONNECT_CLIENT_SYNC, "):"):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR_SYNC, _PYQWEST_SYNC_CLIENT)
 
-- 
2.43.0


From 5775fe9f67f780283d3a7524f138a0de7639b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 31/46] fix: import google.protobuf messages of the generated
 file itself from its own directory

---
 protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index afb4cb5..d659246 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -512,7 +512,8 @@ def _message_ident(method: DescMethod, message: DescMessage, options: Options) -
     if message.file != method.parent.file:
         mod = Module(_module_name(message.file.name))
     else:
-        mod = Module(f".{_module_name(message.file.name.split('/')[-1])}")
+        # A leading dot is the generation root, the import is printed relative to f.
+        mod = Module(f".{_module_name(message.file.name)}")
     return mod.ident(name)
 
 
-- 
2.43.0


From 804fd3e73fd0395708bd12b47a2457312d545b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 32/46] fix: generate valid classes for services without
 methods

---
 .../protoc_gen_connectrpc/__init__.py            | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index d659246..5e0609c 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -120,6 +120,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
     with f.scope("class ", service_name, "(", _PROTOCOL, "):"):
+        if not service.methods:
+            f.print("pass")
         for method in service.methods:
             def_prefix, request_type, response_type = _async_signature(method, options)
             with f.scope(
@@ -234,6 +236,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
     with f.scope("class ", client_name, "(", _CONNECT_CLIENT, "):"):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR, _PYQWEST_CLIENT)
+        elif not service.methods:
+            f.print("pass")
 
         for method in service.methods:
             def_prefix, request_type, response_type = _async_signature(method, options)
@@ -304,6 +308,8 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
     with f.scope("class ", service_name, "(", _PROTOCOL, "):"):
+        if not service.methods:
+            f.print("pass")
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
             with f.scope(
@@ -330,13 +336,7 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
                 )
                 f.print()
     f.print()
-    with f.scope(
-        "class ",
-        application_name,
-        "(",
-        _CONNECT_WSGI_APPLICATION,
-        "):",
-    ):
+    with f.scope("class ", application_name, "(", _CONNECT_WSGI_APPLICATION, "):"):
         with f.scope("def __init__("):
             f.print("self,")
             f.print("service: ", service_name, ",")
@@ -401,6 +401,8 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
     with f.scope("class ", client_name, "(", _CONNECT_CLIENT_SYNC, "):"):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR_SYNC, _PYQWEST_SYNC_CLIENT)
+        elif not service.methods:
+            f.print("pass")
 
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
-- 
2.43.0


From 68dbbef52f5205a995b32d74b0fb6795544a5636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 33/46] fix: report POST as the HTTP method of gRPC client
 calls

---
 src/connectrpc/_protocol_grpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 527b43b..7857565 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -239,7 +239,8 @@ class GRPCClientProtocol:
 
         return RequestContext(
             method=method,
-            http_method=http_method,
+            # gRPC always uses POST, also when GET was asked for.
+            http_method="POST",
             request_headers=headers,
             timeout_ms=timeout_ms,
             server_address=server_address,
-- 
2.43.0


From e3a02ac5bf16ad4aa5a2da3ccf0c1802e6f2d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 34/46] fix: derive the server address of URLs with credentials
 or an upper-case scheme, and of no host, correctly

---
 src/connectrpc/_protocol.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index 3466304..9b6a76d 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -284,7 +284,7 @@ class HTTPException(Exception):
 
 
 def host_to_server_address(host: str | None, http_scheme: str) -> str | None:
-    if host is None:
+    if not host:
         return None
     # Colons within the brackets of an IPv6 address do not separate a port.
     if ":" not in host.rpartition("]")[2]:
@@ -297,14 +297,9 @@ def host_to_server_address(host: str | None, http_scheme: str) -> str | None:
 
 
 def url_to_server_address(address: str) -> str | None:
-    if address.startswith("https://"):
-        scheme = "https"
-        address = address[len("https://") :]
-    else:
-        scheme = "http"
-        address = address[len("http://") :]
+    scheme, _, address = address.partition("://")
 
-    # The URL may have a path after the host and port.
-    address = address.partition("/")[0]
+    # The URL may have a path after the host and port, and credentials before them.
+    address = address.partition("/")[0].rpartition("@")[2]
 
-    return host_to_server_address(address, scheme)
+    return host_to_server_address(address, scheme.lower())
-- 
2.43.0


From a20c84e7fe64538023ce31eab40de3d2b44f1704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 35/46] fix: ErrorDetail.value returns None for details that
 cannot be decoded

As documented. The bytes come from the other side, which should not be able
to make the code that looks at an error raise something else.
---
 src/connectrpc/errors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/errors.py b/src/connectrpc/errors.py
index 1407d4d..621dcac 100644
--- a/src/connectrpc/errors.py
+++ b/src/connectrpc/errors.py
@@ -71,7 +71,11 @@ class ErrorDetail:
                 return None
         else:
             desc = desc_or_registry
-        return self._any.unpack(desc)
+        try:
+            return self._any.unpack(desc)
+        except Exception:
+            # The sender determines the bytes, they may not be a valid message.
+            return None
 
 
 class ConnectError(Exception):
-- 
2.43.0


From f046fafb36572286fa8329219b5f273055b505cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 36/46] fix: report errors whose message has unpaired
 surrogates over gRPC

Exceptions about files whose names are not UTF-8 have such messages. Encoding
them failed after the call had ended, so no status was sent at all.
---
 src/connectrpc/_protocol_grpc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 7857565..c6133cf 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -168,12 +168,13 @@ class GRPCEnvelopeWriter(EnvelopeWriter):
             trailers["grpc-status"] = status
             message = error.message
             if message:
-                message = urllib.parse.quote(message, safe="")
+                # Unpaired surrogates, as in names of files, cannot be encoded.
+                message = urllib.parse.quote(message, safe="", errors="replace")
                 trailers["grpc-message"] = message
             if error.details:
                 grpc_status = Status(
                     code=int(status),
-                    message=error.message,
+                    message=error.message.encode(errors="replace").decode(),
                     details=[d._any for d in error.details],  # noqa: SLF001
                 )
                 grpc_status_bin = (
-- 
2.43.0


From 4096d1ea88bdb97909a703041e94588dd21054a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 37/46] fix: keep the octets of a GET request's message that is
 not base64-encoded

---
 src/connectrpc/_server_async.py | 14 ++++++--------
 src/connectrpc/_server_sync.py  |  5 +++--
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 7250a20..b981449 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -208,13 +208,11 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             )
 
             if http_method == "GET":
-                try:
-                    query_string = scope.get("query_string", b"").decode("utf-8")
-                except UnicodeDecodeError as e:
-                    raise ConnectError(
-                        Code.INVALID_ARGUMENT, "query string is not valid UTF-8"
-                    ) from e
-                query_params = parse_qs(query_string, keep_blank_values=True)
+                # The message can be binary, so keep each octet as a character.
+                query_string = scope.get("query_string", b"").decode("latin-1")
+                query_params = parse_qs(
+                    query_string, keep_blank_values=True, encoding="latin-1"
+                )
                 codec_name = query_params.get("encoding", ("",))[0]
             else:
                 query_params = _UNSET_QUERY_PARAMS
@@ -322,7 +320,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                     Code.INVALID_ARGUMENT, "Invalid base64 encoding"
                 ) from e
         else:
-            message = message.encode("utf-8")
+            message = message.encode("latin-1")
 
         # Handle compression
         compression_name = params.get("compression", ["identity"])[0]
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 19f24a7..90cb30e 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -359,7 +359,8 @@ class ConnectWSGIApplication(ABC):
         """Handle GET request with query parameters."""
         try:
             query_string = environ.get("QUERY_STRING", "")
-            params = parse_qs(query_string, keep_blank_values=True)
+            # The message can be binary, so keep each octet as a character.
+            params = parse_qs(query_string, keep_blank_values=True, encoding="latin-1")
 
             if "message" not in params:
                 raise ConnectError(
@@ -377,7 +378,7 @@ class ConnectWSGIApplication(ABC):
                         Code.INVALID_ARGUMENT, f"Invalid base64 encoding: {e!s}"
                     ) from e
             else:
-                message = message.encode("utf-8")
+                message = message.encode("latin-1")
 
             # Handle compression if specified
             if "compression" in params:
-- 
2.43.0


From 5b659669846a07c73a00c39ed35fadc0885c025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 38/46] fix: report a WSGI request stream shorter than its
 content-length as truncated

---
 src/connectrpc/_server_sync.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 90cb30e..23cba08 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -588,9 +588,17 @@ def _request_stream(
     read_max_bytes: int | None = None,
 ) -> Iterator[_REQ]:
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
+    bytes_read = 0
     for chunk in _read_body(environ):
+        bytes_read += len(chunk)
         yield from reader.feed(chunk)
     reader.finish()
+    content_length = int(environ.get("CONTENT_LENGTH") or 0)
+    if bytes_read < content_length:
+        raise ConnectError(
+            Code.INVALID_ARGUMENT,
+            f"request truncated, expected {content_length} bytes but only received {bytes_read} bytes",
+        )
 
 
 def _response_stream(
-- 
2.43.0


From 445dd39225371991f636fc1542103e501f633f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 39/46] fix: never read past the content-length of a WSGI
 request

---
 src/connectrpc/_server_sync.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 23cba08..025e9a9 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -143,6 +143,26 @@ def _read_body(environ: WSGIEnvironment) -> Iterator[bytes]:
         yield chunk
 
 
+class _LimitedInput:
+    """Stops at the end of the request body.
+
+    WSGI servers are not required to simulate the end of the input, reading past
+    the content length can block forever.
+    """
+
+    def __init__(self, input_stream: BytesIO, content_length: int) -> None:
+        self._input_stream = input_stream
+        self._remaining = content_length
+
+    def read(self, size: int) -> bytes:
+        size = min(size, self._remaining)
+        if size <= 0:
+            return b""
+        chunk = self._input_stream.read(size)
+        self._remaining -= len(chunk)
+        return chunk
+
+
 class ConnectWSGIApplication(ABC):
     """A WSGI application for the Connect protocol."""
 
@@ -194,6 +214,11 @@ class ConnectWSGIApplication(ABC):
     ) -> Iterable[bytes]:
         ctx: RequestContext | None = None
         try:
+            if content_length := environ.get("CONTENT_LENGTH"):
+                environ["wsgi.input"] = _LimitedInput(
+                    environ["wsgi.input"], int(content_length)
+                )
+
             path = environ.get("PATH_INFO")
             if not path:
                 path = "/"
@@ -677,7 +702,9 @@ def _apply_interceptors(
 
 
 def _drain_request_body(environ: WSGIEnvironment) -> None:
-    if environ.get("SERVER_PROTOCOL", "").startswith("HTTP/1"):
+    if environ.get("SERVER_PROTOCOL", "").startswith("HTTP/1") and (
+        environ.get("CONTENT_LENGTH") or environ.get("HTTP_TRANSFER_ENCODING")
+    ):
         # In HTTP/1, the request body should be drained before returning. Generally it's
         # best for the application server to handle this, but gunicorn is a famous
         # server that doesn't do so, so we go ahead and do it ourselves.
-- 
2.43.0


From f2aa390b09d53bae9bc8a760d85cfef7091a685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 40/46] fix: refuse timeouts that are not ASCII digits

---
 src/connectrpc/_protocol_connect.py | 5 +++++
 src/connectrpc/_protocol_grpc.py    | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 2c418d6..1409ded 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -107,6 +107,11 @@ class ConnectServerProtocol:
                     Code.INVALID_ARGUMENT,
                     f"Invalid timeout header: '{timeout_header} has >10 digits",
                 )
+            if not (timeout_header.isascii() and timeout_header.isdigit()):
+                # int() also accepts signs, underscores and spaces.
+                raise ConnectError(
+                    Code.INVALID_ARGUMENT, f"Invalid timeout header: '{timeout_header}'"
+                )
             try:
                 timeout_ms = int(timeout_header)
             except ValueError as e:
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index c6133cf..73aa9b7 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -127,6 +127,10 @@ class GRPCWebServerProtocol(GRPCServerProtocol):
 def _parse_timeout(timeout: str) -> int:
     # We normalize to int milliseconds matching connect's timeout header.
     value_to_ms = _lookup_timeout_unit(timeout[-1])
+    if not (timeout.isascii() and timeout[:-1].isdigit()):
+        # int() also accepts signs, underscores and spaces.
+        msg = f"protocol error: invalid timeout '{timeout}'"
+        raise ValueError(msg)
     try:
         value = int(timeout[:-1])
     except ValueError as e:
-- 
2.43.0


From 195df1f81d00955411a2ddfeeb5929c69efd0023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 41/46] fix: refuse base64 with characters that decoding would
 skip in GET requests

---
 src/connectrpc/_server_async.py  |  2 ++
 src/connectrpc/_server_shared.py | 12 ++++++++++++
 src/connectrpc/_server_sync.py   |  1 +
 3 files changed, 15 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index b981449..4c3c837 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -30,6 +30,7 @@ from ._server_shared import (
     EndpointClientStream,
     EndpointServerStream,
     EndpointUnary,
+    check_base64,
 )
 from .code import Code
 from .errors import ConnectError
@@ -313,6 +314,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         is_base64 = "base64" in params and params["base64"][0] == "1"
 
         if is_base64:
+            check_base64(message)
             try:
                 message = base64.urlsafe_b64decode(message + "===")
             except Exception as e:
diff --git a/src/connectrpc/_server_shared.py b/src/connectrpc/_server_shared.py
index 512c2a2..2fdb889 100644
--- a/src/connectrpc/_server_shared.py
+++ b/src/connectrpc/_server_shared.py
@@ -1,8 +1,12 @@
 from __future__ import annotations
 
+import re
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, Generic, TypeVar
 
+from .code import Code
+from .errors import ConnectError
+
 if TYPE_CHECKING:
     from collections.abc import AsyncIterator, Awaitable, Callable, Iterator
 
@@ -14,6 +18,14 @@ RES = TypeVar("RES")
 T = TypeVar("T")
 U = TypeVar("U")
 
+_BASE64 = re.compile(r"[A-Za-z0-9+/_-]*={0,2}")
+
+
+def check_base64(message: str) -> None:
+    """Raises a ConnectError for characters that base64 decoding would skip."""
+    if not _BASE64.fullmatch(message):
+        raise ConnectError(Code.INVALID_ARGUMENT, "Invalid base64 encoding")
+
 
 @dataclass(kw_only=True, frozen=True, slots=True)
 class Endpoint(Generic[REQ, RES]):
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 025e9a9..16d2c58 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -396,6 +396,7 @@ class ConnectWSGIApplication(ABC):
             message = params["message"][0]
 
             if "base64" in params and params["base64"][0] == "1":
+                _server_shared.check_base64(message)
                 try:
                     message = base64.urlsafe_b64decode(message + "===")
                 except Exception as e:
-- 
2.43.0


From e78ec35b7102e49e4206a8dc81ee334b25d84616 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:46:17 +0000
Subject: [PATCH 42/46] fix: don't treat headers of streaming responses as
 trailers

---
 src/connectrpc/_client_async.py      | 4 ++--
 src/connectrpc/_client_sync.py       | 4 ++--
 src/connectrpc/_response_metadata.py | 5 +++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 8b9d6c5..9593b7b 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -322,7 +322,7 @@ class ConnectClient:
             compression = self._protocol.handle_response_compression(
                 resp.headers, self._response_compressions, stream=False
             )
-            handle_response_headers(resp.headers)
+            handle_response_headers(resp.headers, stream=False)
 
             if resp.status == 200:
                 content = _client_shared.decompress_unary_response(
@@ -386,7 +386,7 @@ class ConnectClient:
                             "POST", url, headers=request_headers, content=request_data
                         )
                     )
-                handle_response_headers(resp.headers)
+                handle_response_headers(resp.headers, stream=True)
                 if resp.status == 200:
                     self._protocol.validate_stream_response(
                         self._codec.name(), resp.headers.get("content-type", "")
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 8dc302b..a3e6ec5 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -319,7 +319,7 @@ class ConnectClientSync:
             compression = self._protocol.handle_response_compression(
                 resp.headers, self._response_compressions, stream=False
             )
-            handle_response_headers(resp.headers)
+            handle_response_headers(resp.headers, stream=False)
 
             if resp.status == 200:
                 content = _client_shared.decompress_unary_response(
@@ -378,7 +378,7 @@ class ConnectClientSync:
                 content=request_data,
                 timeout=timeout_s,
             ) as resp:
-                handle_response_headers(resp.headers)
+                handle_response_headers(resp.headers, stream=True)
 
                 if resp.status == 200:
                     self._protocol.validate_stream_response(
diff --git a/src/connectrpc/_response_metadata.py b/src/connectrpc/_response_metadata.py
index 56fc099..1d9fe8a 100644
--- a/src/connectrpc/_response_metadata.py
+++ b/src/connectrpc/_response_metadata.py
@@ -16,7 +16,7 @@ if TYPE_CHECKING:
 _current_response = ContextVar["ResponseMetadata"]("connectrpc_current_response")
 
 
-def handle_response_headers(headers: HTTPHeaders) -> None:
+def handle_response_headers(headers: HTTPHeaders, *, stream: bool) -> None:
     response = _current_response.get(None)
     if not response:
         return
@@ -24,7 +24,8 @@ def handle_response_headers(headers: HTTPHeaders) -> None:
     response_headers: Headers = Headers()
     response_trailers: Headers = Headers()
     for key, value in headers.items():
-        if key.startswith("trailer-"):
+        # Only unary Connect responses have their trailers within headers.
+        if not stream and key.startswith("trailer-"):
             normalized_key = key[len("trailer-") :]
             obj = response_trailers
         else:
-- 
2.43.0


From 65847d6ac5cec0e6d858732cb9163da25a150797 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 43/46] fix: decompress errors of unary responses with
 compressions the HTTP client doesn't know

---
 src/connectrpc/_client_async.py  |  2 +-
 src/connectrpc/_client_shared.py | 19 +++++++++++++++++++
 src/connectrpc/_client_sync.py   |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 9593b7b..a9983da 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -338,7 +338,7 @@ class ConnectClient:
                     )
 
                 return self._codec.decode(content, ctx.method.output)
-            raise ConnectWireError.from_response(resp).to_exception()
+            raise _client_shared.unary_response_error(compression, resp)
         except (TimeoutError, asyncio.TimeoutError) as e:
             raise ConnectError(Code.DEADLINE_EXCEEDED, "Request timed out") from e
         except ConnectError:
diff --git a/src/connectrpc/_client_shared.py b/src/connectrpc/_client_shared.py
index e3d710e..25a80d8 100644
--- a/src/connectrpc/_client_shared.py
+++ b/src/connectrpc/_client_shared.py
@@ -3,9 +3,11 @@ from __future__ import annotations
 import base64
 from typing import TYPE_CHECKING, TypeVar
 
+from pyqwest import FullResponse
 from pyqwest import Headers as HTTPHeaders
 from pyqwest import StreamError, StreamErrorCode
 
+from ._protocol import ConnectWireError
 from ._protocol_connect import CONNECT_PROTOCOL_VERSION
 from .code import Code
 from .errors import ConnectError
@@ -49,6 +51,23 @@ def decompress_unary_response(compression: Compression, content: bytes) -> bytes
         ) from e
 
 
+def unary_response_error(
+    compression: Compression, response: FullResponse
+) -> ConnectError:
+    """Returns the error of a unary response, which can be compressed like a message."""
+    try:
+        content = decompress_unary_response(compression, response.content)
+    except ConnectError:
+        return ConnectWireError.from_http_status(response.status).to_exception()
+    decompressed = FullResponse(
+        status=response.status,
+        headers=response.headers,
+        content=content,
+        trailers=response.trailers,
+    )
+    return ConnectWireError.from_response(decompressed).to_exception()
+
+
 # https://github.com/connectrpc/connect-go/blob/59cc6973156cd9164d6bea493b1d106ed894f2df/error.go#L393
 def maybe_map_stream_reset(
     e: Exception, ctx: RequestContext[REQ, RES]
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index a3e6ec5..874784a 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -335,7 +335,7 @@ class ConnectClientSync:
                     )
 
                 return self._codec.decode(content, ctx.method.output)
-            raise ConnectWireError.from_response(resp).to_exception()
+            raise _client_shared.unary_response_error(compression, resp)
         except TimeoutError as e:
             raise ConnectError(Code.DEADLINE_EXCEEDED, "Request timed out") from e
         except ConnectError:
-- 
2.43.0


From f59ade5d8a1f1d0e0f5a5d34391223468590029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 44/46] fix: send the content length of empty unary requests

---
 src/connectrpc/_client_async.py | 4 ++++
 src/connectrpc/_client_sync.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index a9983da..d5ef8b8 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -307,6 +307,10 @@ class ConnectClient:
                     self._http_client.get(url=url, headers=request_headers), timeout_s
                 )
             else:
+                if not request_data:
+                    # The HTTP client doesn't send the length of empty content
+                    # itself and some servers would wait for the content to end.
+                    request_headers["content-length"] = "0"
                 resp = await wait_for(
                     self._http_client.post(
                         url=url, headers=request_headers, content=request_data
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 874784a..24e8bd6 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -304,6 +304,10 @@ class ConnectClientSync:
                     url=url, headers=request_headers, timeout=timeout_s
                 )
             else:
+                if not request_data:
+                    # The HTTP client doesn't send the length of empty content
+                    # itself and some servers would wait for the content to end.
+                    request_headers["content-length"] = "0"
                 resp = self._http_client.post(
                     url=url,
                     headers=request_headers,
-- 
2.43.0


From c518e855c0ffc1debebfca294d4f61b762736553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:56 +0000
Subject: [PATCH 45/46] fix: serve 404 for services without methods provided by
 an async generator

---
 src/connectrpc/_server_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 4c3c837..2649d0a 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -166,7 +166,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                         await send({"type": "lifespan.shutdown.complete"})
                         return None
 
-        if not self._resolved_endpoints:
+        if self._resolved_endpoints is None:
             if inspect.isasyncgen(self._service):
                 msg = "ASGI server does not support lifespan but async generator passed for service. Enable lifespan support."
                 raise RuntimeError(msg)
-- 
2.43.0


From cdf8a18d0b239c5e2f2bd2541e7790681a928837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:28 +0000
Subject: [PATCH 46/46] fix: know Any itself in the default registry of the
 JSON codec

---
 src/connectrpc/_codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connectrpc/_codec.py b/src/connectrpc/_codec.py
index 9556643..9502fe5 100644
--- a/src/connectrpc/_codec.py
+++ b/src/connectrpc/_codec.py
@@ -4,6 +4,7 @@ from typing import Protocol, TypeVar
 
 from protobuf import Message, Registry
 from protobuf.wkt import (
+    any_pb,
     api_pb,
     cpp_features_pb,
     descriptor_pb,
@@ -24,6 +25,7 @@ CODEC_NAME_JSON = "json"
 
 
 DEFAULT_REGISTRY = Registry(
+    any_pb.desc(),
     api_pb.desc(),
     cpp_features_pb.desc(),
     descriptor_pb.desc(),
-- 
2.43.0

