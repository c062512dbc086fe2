From 4b8b19a828afb2fec54b34068cc48ff3101ad4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 01/26] fix: a connect or accept completion no longer
 overwrites the CLOSED state of a stream

---
 src/sofa/pbrpc/rpc_byte_stream.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_byte_stream.h b/src/sofa/pbrpc/rpc_byte_stream.h
index a3b6dd7..ab7c5e3 100644
--- a/src/sofa/pbrpc/rpc_byte_stream.h
+++ b/src/sofa/pbrpc/rpc_byte_stream.h
@@ -135,7 +135,10 @@ public:
 
         _last_rw_ticks = _ticks;
 
-        _status = STATUS_CONNECTING;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTING, (int)STATUS_INIT) != STATUS_INIT)
+        {
+            return; // already closed, CLOSED is final
+        }
         _socket.async_connect(_remote_endpoint,
                 boost::bind(&RpcByteStream::on_connect, shared_from_this(), _1));
         if (_connect_timeout > 0) 
@@ -218,7 +221,10 @@ public:
             return;
         }
 
-        _status = STATUS_CONNECTED;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTED, (int)STATUS_INIT) != STATUS_INIT)
+        {
+            return; // closed meanwhile, CLOSED is final
+        }
         trigger_receive();
         trigger_send();
     }
@@ -407,7 +413,10 @@ private:
                 RpcEndpointToString(_remote_endpoint).c_str());
 #endif
 
-        _status = STATUS_CONNECTED;
+        if (atomic_comp_swap(&_status, (int)STATUS_CONNECTED, (int)STATUS_CONNECTING) != STATUS_CONNECTING)
+        {
+            return; // closed meanwhile, CLOSED is final
+        }
         _timer.cancel();
 
         trigger_receive();
-- 
2.43.0


From 9d6cb33cbacc3e4eb98d20cc639e3a79739b916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 02/26] fix: changed throughput limits take effect on the
 client and never strand streams waiting for quota

The client never passed changed limits on to its flow controller: removing a
limit stopped the recharging and left every stream waiting for quota stalled.
On both sides streams waiting for quota are now woken up when the limit is
removed, and changing the options of a server that is not started does not use
the missing flow controller.
---
 src/sofa/pbrpc/rpc_client_impl.cc | 30 +++++++++++++++++++++++++++++-
 src/sofa/pbrpc/rpc_server_impl.cc | 22 ++++++++++++++++++++--
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index ae08b10..a1428d9 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -161,6 +161,34 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
         }
     }
 
+    if (_slice_quota_in != old_slice_quota_in && _flow_controller)
+    {
+        _flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
+    }
+
+    if (_slice_quota_out != old_slice_quota_out && _flow_controller)
+    {
+        _flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
+    }
+
+    // An unlimited direction is not recharged by the timer any more, so wake up
+    // the streams which are waiting for quota here.
+    bool wake_up_in = _slice_quota_in == -1 && old_slice_quota_in != -1;
+    bool wake_up_out = _slice_quota_out == -1 && old_slice_quota_out != -1;
+    if (wake_up_in || wake_up_out)
+    {
+        StreamMap streams;
+        {
+            ScopedLocker<FastLock> _(_stream_map_lock);
+            streams = _stream_map;
+        }
+        for (StreamMap::iterator it = streams.begin(); it != streams.end(); ++it)
+        {
+            if (wake_up_in) it->second->trigger_receive();
+            if (wake_up_out) it->second->trigger_send();
+        }
+    }
+
 #if defined( LOG )
     LOG(INFO) << "ResetOptions(): quota_in="
               << (_slice_quota_in == -1 ? -1 : _slice_quota_in * _slice_count / (1024L * 1024L))
@@ -182,7 +210,7 @@ void RpcClientImpl::ResetOptions(const RpcClientOptions& options)
 #else
     SLOG(INFO, "ResetOptions(): quota_in=%lldMB/s(old %lldMB/s)"
             ", quota_out=%lldMB/s(old %lldMB/s)"
-            ", max_pending_buffer_size=%lldMB(old %lldMB)",
+            ", max_pending_buffer_size=%lldMB(old %lldMB)"
             ", keep_alive_time=%lldseconds(old %lldseconds)",
             _slice_quota_in == -1 ? -1 : _slice_quota_in * _slice_count / (1024L * 1024L),
             old_slice_quota_in == -1 ? -1 : old_slice_quota_in * _slice_count / (1024L * 1024L),
diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 16455fb..4e500f5 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -246,16 +246,34 @@ void RpcServerImpl::ResetOptions(const RpcServerOptions& options)
         }
     }
 
-    if (_slice_quota_in != old_slice_quota_in)
+    if (_slice_quota_in != old_slice_quota_in && _flow_controller)
     {
         _flow_controller->reset_read_quota(_slice_quota_in == -1, _slice_quota_in);
     }
 
-    if (_slice_quota_out != old_slice_quota_out)
+    if (_slice_quota_out != old_slice_quota_out && _flow_controller)
     {
         _flow_controller->reset_write_quota(_slice_quota_out == -1, _slice_quota_out);
     }
 
+    // An unlimited direction is not recharged by the timer any more, so wake up
+    // the streams which are waiting for quota here.
+    bool wake_up_in = _slice_quota_in == -1 && old_slice_quota_in != -1;
+    bool wake_up_out = _slice_quota_out == -1 && old_slice_quota_out != -1;
+    if (wake_up_in || wake_up_out)
+    {
+        StreamSet streams;
+        {
+            ScopedLocker<FastLock> _(_stream_set_lock);
+            streams = _stream_set;
+        }
+        for (StreamSet::iterator it = streams.begin(); it != streams.end(); ++it)
+        {
+            if (wake_up_in) (*it)->trigger_receive();
+            if (wake_up_out) (*it)->trigger_send();
+        }
+    }
+
 #if defined( LOG )
     LOG(INFO) << "ResetOptions(): quota_in="
               << (_slice_quota_in == -1 ? -1 : _slice_quota_in * _slice_count / (1024L * 1024L))
-- 
2.43.0


From 223be787dc44498161218529de15424272993bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 03/26] fix: a failed response without an error code no longer
 completes the call as successful

---
 src/sofa/pbrpc/rpc_client_stream.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_client_stream.h b/src/sofa/pbrpc/rpc_client_stream.h
index 4a80904..7d8a417 100644
--- a/src/sofa/pbrpc/rpc_client_stream.h
+++ b/src/sofa/pbrpc/rpc_client_stream.h
@@ -259,6 +259,18 @@ private:
 #endif
                 cntl->Done(RPC_ERROR_PARSE_RESPONSE_MESSAGE, "rpc meta: \"error_code\" field not set");
             }
+            else if (meta.error_code() == RPC_SUCCESS)
+            {
+#if defined( LOG )
+                LOG(ERROR) << "on_received(): " << RpcEndpointToString(_remote_endpoint)
+                           << " {" << meta.sequence_id() << "}"
+                           << ": bad rpc meta: failed without an error code";
+#else
+                SLOG(ERROR,  "on_received(): %s {%lu}: bad rpc meta: failed without an error code",
+                        RpcEndpointToString(_remote_endpoint).c_str(), meta.sequence_id());
+#endif
+                cntl->Done(RPC_ERROR_PARSE_RESPONSE_MESSAGE, "rpc meta: failed without an error code");
+            }
             else if (!meta.has_reason())
             {
 #if defined( LOG )
-- 
2.43.0


From 8a217422839a174a98c46e60d7265888d3afdf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 04/26] fix: the client rejects message headers with negative
 sizes

---
 src/sofa/pbrpc/rpc_message_stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/rpc_message_stream.h b/src/sofa/pbrpc/rpc_message_stream.h
index 4e5ccb4..f139a6a 100644
--- a/src/sofa/pbrpc/rpc_message_stream.h
+++ b/src/sofa/pbrpc/rpc_message_stream.h
@@ -687,7 +687,9 @@ private:
 #endif
                 return -1;
             }
-            if (_receiving_header.meta_size + _receiving_header.data_size != _receiving_header.message_size)
+            if (_receiving_header.meta_size < 0 || _receiving_header.data_size < 0
+                    || _receiving_header.message_size < 0
+                    || _receiving_header.message_size - _receiving_header.meta_size != _receiving_header.data_size)
             {
 #if defined( LOG )
                 LOG(ERROR) << "identify_message_header(): " << RpcEndpointToString(_remote_endpoint)
-- 
2.43.0


From aeaa5d5314932d6c6a4a2c34b234c9a7017c769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 05/26] fix: HTTP content lengths beyond 31 bits are not
 truncated

---
 src/sofa/pbrpc/http_rpc_request_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/http_rpc_request_parser.cc b/src/sofa/pbrpc/http_rpc_request_parser.cc
index b2fdf5a..75bee0d 100644
--- a/src/sofa/pbrpc/http_rpc_request_parser.cc
+++ b/src/sofa/pbrpc/http_rpc_request_parser.cc
@@ -91,7 +91,7 @@ int HTTPRpcRequestParser::Parse(const char* buf,
     }
     if (_state == PS_BODY)
     {
-        int bytes_remain = _content_length - _req->_req_body->TotalCount();
+        int64 bytes_remain = _content_length - _req->_req_body->TotalCount();
         if (bytes_remain == 0)
         {
             return 1;
@@ -100,7 +100,7 @@ int HTTPRpcRequestParser::Parse(const char* buf,
         {
             return 0;
         }
-        int consume = std::min(data_size, bytes_remain);
+        int consume = static_cast<int>(std::min(static_cast<int64>(data_size), bytes_remain));
         _req->_req_body->Append(BufHandle(const_cast<char*>(buf), consume, offset));
         *bytes_consumed += consume;
         if (_content_length == _req->_req_body->TotalCount())
-- 
2.43.0


From edf13ae92a075b88a80941ca07cb901cd040dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 06/26] fix: Start() fails when the maintain thread group
 cannot be started

---
 src/sofa/pbrpc/rpc_server_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 4e500f5..ecc1940 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -96,6 +96,7 @@ bool RpcServerImpl::Start(const std::string& server_address)
 #endif
         _maintain_thread_group.reset();
         _flow_controller.reset();
+        return false;
     }
 
     _io_service_pool.reset(new IOServicePool(
-- 
2.43.0


From c36aaf5dd54531277a26dac7245efd92b64b03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 07/26] fix: Health() does not use a server that is gone

---
 src/sofa/pbrpc/builtin_service_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/builtin_service_impl.cc b/src/sofa/pbrpc/builtin_service_impl.cc
index 7e8904d..350edf5 100644
--- a/src/sofa/pbrpc/builtin_service_impl.cc
+++ b/src/sofa/pbrpc/builtin_service_impl.cc
@@ -51,7 +51,9 @@ void BuiltinServiceImpl::Health(::google::protobuf::RpcController* /* controller
         response->set_health("NotOK");
     }
     response->set_version(SOFA_PBRPC_VERSION);
-    response->set_start_time(ptime_to_string(server->GetStartTime()));
+    if (server) {
+        response->set_start_time(ptime_to_string(server->GetStartTime()));
+    }
     done->Run();
 }
 
-- 
2.43.0


From 38c9148e2204085f3472fdd5c6dadfee2883d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 08/26] fix: JSON numbers out of range and broken base64 are
 errors instead of ending the process

---
 src/sofa/pbrpc/pbjson.cc | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/pbjson.cc b/src/sofa/pbrpc/pbjson.cc
index 341a907..1030524 100644
--- a/src/sofa/pbrpc/pbjson.cc
+++ b/src/sofa/pbrpc/pbjson.cc
@@ -287,6 +287,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsInt())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Not an int32");
+                }
                 if (repeated)
                 {
                     ref->AddInt32(msg, field, (int32_t) json->GetInt());
@@ -303,6 +307,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsUint())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Not a uint32");
+                }
                 if (repeated)
                 {
                     ref->AddUInt32(msg, field, json->GetUint());
@@ -319,6 +327,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsInt64())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Not an int64");
+                }
                 if (repeated)
                 {
                     ref->AddInt64(msg, field, json->GetInt64());
@@ -335,6 +347,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 {
                     RETURN_ERR(ERR_INVALID_JSON, "Not a number");
                 }
+                if (!json->IsUint64())
+                {
+                    RETURN_ERR(ERR_INVALID_JSON, "Not a uint64");
+                }
                 if (repeated)
                 {
                     ref->AddUInt64(msg, field, json->GetUint64());
@@ -405,13 +421,22 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 std::string str_value(value, str_size);
                 if (field->type() == FieldDescriptor::TYPE_BYTES)
                 {
+                    std::string bytes;
+                    try
+                    {
+                        bytes = b64_decode(str_value);
+                    }
+                    catch (const std::exception& e)
+                    {
+                        RETURN_ERR(ERR_INVALID_JSON, e.what());
+                    }
                     if (repeated)
                     {
-                        ref->AddString(msg, field, b64_decode(str_value));
+                        ref->AddString(msg, field, bytes);
                     }
                     else
                     {
-                        ref->SetString(msg, field, b64_decode(str_value));
+                        ref->SetString(msg, field, bytes);
                     }
                 }
                 else
@@ -438,6 +463,10 @@ static int json2field(const rapidjson::Value* json, Message* msg, const FieldDes
                 const EnumValueDescriptor *ev = 0;
                 if (json->GetType() == rapidjson::kNumberType)
                 {
+                    if (!json->IsInt())
+                    {
+                        RETURN_ERR(ERR_INVALID_JSON, "Not an int32");
+                    }
                     ev = ed->FindValueByNumber(json->GetInt());
                 }
                 else if (json->GetType() == rapidjson::kStringType)
-- 
2.43.0


From c89b39a8ee47de5b2d92806abede1a3c79ccbf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 09/26] fix: a response that cannot be assembled is answered
 with an error

---
 src/sofa/pbrpc/http_rpc_request.cc | 1 +
 src/sofa/pbrpc/rpc_request.cc      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sofa/pbrpc/http_rpc_request.cc b/src/sofa/pbrpc/http_rpc_request.cc
index 6286734..52dc08e 100644
--- a/src/sofa/pbrpc/http_rpc_request.cc
+++ b/src/sofa/pbrpc/http_rpc_request.cc
@@ -285,6 +285,7 @@ void HTTPRpcRequest::SendResponse(
         SLOG(ERROR, "SendResponse(): %s: {%lu}: render response failed",
                 RpcEndpointToString(_remote_endpoint).c_str(), SequenceId());
 #endif
+        SendFailedResponse(server_stream, RPC_ERROR_SERIALIZE_RESPONSE, "render response failed");
         return;
     }
 
diff --git a/src/sofa/pbrpc/rpc_request.cc b/src/sofa/pbrpc/rpc_request.cc
index a08e369..2a9a34e 100644
--- a/src/sofa/pbrpc/rpc_request.cc
+++ b/src/sofa/pbrpc/rpc_request.cc
@@ -175,6 +175,7 @@ void RpcRequest::SendSucceedResponse(
         SLOG(ERROR, "SendSucceedResponse(): %s {%lu}: assemble response buffer failed: %s",
                 RpcEndpointToString(_remote_endpoint).c_str(), SequenceId(), err.c_str());
 #endif
+        SendFailedResponse(cntl->RpcServerStream(), RPC_ERROR_SERIALIZE_RESPONSE, err);
         return;
     }
 
-- 
2.43.0


From 676d63bd67ea340ac4f486027a9a10aee659a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:27 +0000
Subject: [PATCH 10/26] fix: a JSON request with missing required fields is
 refused

---
 src/sofa/pbrpc/http_rpc_request.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sofa/pbrpc/http_rpc_request.cc b/src/sofa/pbrpc/http_rpc_request.cc
index 52dc08e..f6a96d0 100644
--- a/src/sofa/pbrpc/http_rpc_request.cc
+++ b/src/sofa/pbrpc/http_rpc_request.cc
@@ -122,6 +122,21 @@ void HTTPRpcRequest::ProcessRequest(
 #else
             SLOG(ERROR, "ProcessRequest(): %s: {%lu}: parse json failed: %s",
                     RpcEndpointToString(_remote_endpoint).c_str(), SequenceId(), err.c_str());
+#endif
+            SendFailedResponse(server_stream,
+                    RPC_ERROR_PARSE_REQUEST_MESSAGE, "parse json failed: " + err);
+            delete request;
+            return;
+        }
+        if (!request->IsInitialized())
+        {
+            err = "missing required fields: " + request->InitializationErrorString();
+#if defined( LOG )
+            LOG(ERROR) << "ProcessRequest(): " << RpcEndpointToString(_remote_endpoint)
+                       << ": {" << SequenceId() << "}: parse json failed: " << err;
+#else
+            SLOG(ERROR, "ProcessRequest(): %s: {%lu}: parse json failed: %s",
+                    RpcEndpointToString(_remote_endpoint).c_str(), SequenceId(), err.c_str());
 #endif
             SendFailedResponse(server_stream,
                     RPC_ERROR_PARSE_REQUEST_MESSAGE, "parse json failed: " + err);
-- 
2.43.0


From 34a6962890714a31963d4983b4c2a1fd87f36ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 11/26] fix: broken compressed data from a peer is a parse
 error instead of ending the process

---
 src/sofa/pbrpc/block_wrappers.cc | 27 +++++++++++++++++++--------
 src/sofa/pbrpc/block_wrappers.h  |  6 +++---
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/sofa/pbrpc/block_wrappers.cc b/src/sofa/pbrpc/block_wrappers.cc
index 465a78b..b9b0de0 100644
--- a/src/sofa/pbrpc/block_wrappers.cc
+++ b/src/sofa/pbrpc/block_wrappers.cc
@@ -78,8 +78,12 @@ bool BlockCompressionInputStream::Next(const void** data, int* size) {
         return false;
     }
 
-    RawUncompress(tempbuffer, compressed_size);
+    bool success = RawUncompress(tempbuffer, compressed_size);
     delete[] tempbuffer;
+    if (!success) {
+        _output_buffer_size = 0;
+        return false;
+    }
 
     // TODO: probably call this only every Limit/BLOCKSIZE
     if (_sub_stream->BytesUntilLimit() < 1024*1024) reset_input_stream();
@@ -162,21 +166,23 @@ bool BlockCompressionOutputStream::Next(void** data, int* size) {
 
 /// Snappy implementation
 
-void SnappyInputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
+bool SnappyInputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
     size_t uncompressed_size;
     bool success = ::snappy::GetUncompressedLength(
         input_buffer, compressed_size, &uncompressed_size);
-    SCHECK(success);
-    
+    // no element of the format expands to more than 64 bytes per byte
+    if (!success || uncompressed_size / 64 > compressed_size) {
+        return false;
+    }
+
     if (uncompressed_size > _output_buffer_capacity) {
         delete[] _output_buffer;
         _output_buffer = new char[uncompressed_size];
         _output_buffer_capacity = uncompressed_size;
     }
     _output_buffer_size = uncompressed_size;
-    success = ::snappy::RawUncompress(input_buffer, compressed_size,
+    return ::snappy::RawUncompress(input_buffer, compressed_size,
         _output_buffer);
-    SCHECK(success);    
 }
 
 
@@ -199,13 +205,18 @@ uint32_t SnappyOutputStream::RawCompress(char* input_buffer, size_t input_size,
 
 /// LZ4 implementation
 
-void LZ4InputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
+bool LZ4InputStream::RawUncompress(char* input_buffer, uint32_t compressed_size) {
     if (!_output_buffer) {
         _output_buffer = new char[BLOCKSIZE];
         _output_buffer_capacity = BLOCKSIZE;
     }
-    _output_buffer_size = LZ4_uncompress_unknownOutputSize(input_buffer,
+    int uncompressed_size = LZ4_uncompress_unknownOutputSize(input_buffer,
         _output_buffer, compressed_size, BLOCKSIZE);
+    if (uncompressed_size < 0) {
+        return false;
+    }
+    _output_buffer_size = uncompressed_size;
+    return true;
 }
 
 uint32_t LZ4OutputStream::MaxCompressedLength(size_t input_size)
diff --git a/src/sofa/pbrpc/block_wrappers.h b/src/sofa/pbrpc/block_wrappers.h
index 34637f5..2612a61 100644
--- a/src/sofa/pbrpc/block_wrappers.h
+++ b/src/sofa/pbrpc/block_wrappers.h
@@ -36,7 +36,7 @@ class BlockCompressionInputStream : public AbstractCompressedInputStream {
   bool ExpectAtEnd() { return true; }
 
  protected:
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size) = 0;
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size) = 0;
   
   char* _output_buffer;
   size_t _output_buffer_size;
@@ -88,7 +88,7 @@ class SnappyInputStream : public BlockCompressionInputStream {
  public:
   explicit SnappyInputStream(ZeroCopyInputStream* sub_stream) : BlockCompressionInputStream(sub_stream) {};
 
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size);
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size);
   
   GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(SnappyInputStream);
 };
@@ -110,7 +110,7 @@ class LZ4InputStream : public BlockCompressionInputStream {
 
   explicit LZ4InputStream(ZeroCopyInputStream* sub_stream) : BlockCompressionInputStream(sub_stream) {};
   
-  virtual void RawUncompress(char* input_buffer, uint32_t compressed_size);
+  virtual bool RawUncompress(char* input_buffer, uint32_t compressed_size);
   
   GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(LZ4InputStream);
 };
-- 
2.43.0


From c3a8b33e84a334c8d4d6894bc73d1be1b7ecfc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 12/26] fix: statistics over a period beyond 31 bits no longer
 end the process

---
 src/sofa/pbrpc/service_pool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/service_pool.h b/src/sofa/pbrpc/service_pool.h
index 66a1aa1..0980c1d 100644
--- a/src/sofa/pbrpc/service_pool.h
+++ b/src/sofa/pbrpc/service_pool.h
@@ -257,13 +257,13 @@ public:
 private:
     void GetRealPeriod(int64 expect_period, int64* real_period, int* slot_count)
     {
-        int sc = 1;
+        int64 sc = 1;
         if (expect_period > 1) {
             sc = (expect_period - 1) / STAT_SLOT_SECONDS + 1;
         }
-        sc = std::min(sc, STAT_SLOT_COUNT - 2);
+        sc = std::min(sc, static_cast<int64>(STAT_SLOT_COUNT - 2));
         *real_period = sc * STAT_SLOT_SECONDS;
-        *slot_count = sc;
+        *slot_count = static_cast<int>(sc);
     }
 
 private:
-- 
2.43.0


From 1dc5699131d056de0777f00578d1745eca4349d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:35 +0000
Subject: [PATCH 13/26] fix: profiling file names of a request no longer reach
 the shell unchecked

---
 src/sofa/pbrpc/profiling.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sofa/pbrpc/profiling.cc b/src/sofa/pbrpc/profiling.cc
index 3cbbbc5..9ced5be 100644
--- a/src/sofa/pbrpc/profiling.cc
+++ b/src/sofa/pbrpc/profiling.cc
@@ -138,6 +138,15 @@ static std::string Exec(const std::string& cmd)
     return result;
 }
 
+// The names come from the request and go into a shell command and a path,
+// so only the plain names of profiling files are accepted.
+static bool IsValidProfName(const std::string& name)
+{
+    return name.find_first_not_of(
+            "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-") == std::string::npos
+        && name != "." && name != "..";
+}
+
 static std::string Readlink(const char* symbol_link)
 {
     char buf[PATH_MAX + 1];
@@ -218,6 +227,11 @@ std::string Profiling::ProfilingPage(ProfilingType profiling_type,
 {
     std::ostringstream oss;
     oss << "<html><h1>Sofa-pbrpc Profiling</h1>";
+    if (!IsValidProfName(view_prof) || !IsValidProfName(base_prof))
+    {
+        oss << "<h2>invalid profiling file name</h2></html>";
+        return oss.str();
+    }
     if (!_is_initialized)
     {
         int ret = Init();
-- 
2.43.0


From fcc3e503e38ff372072f0d1241a44d980c866c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 14/26] fix: deeply nested JSON is a parse error instead of
 overflowing the stack

---
 src/sofa/pbrpc/http_rpc_request.cc |  5 ++++
 src/sofa/pbrpc/pbjson.cc           | 42 ++++++++++++++++++++++++++++++
 src/sofa/pbrpc/pbjson.h            |  4 +++
 3 files changed, 51 insertions(+)

diff --git a/src/sofa/pbrpc/http_rpc_request.cc b/src/sofa/pbrpc/http_rpc_request.cc
index f6a96d0..fc1574c 100644
--- a/src/sofa/pbrpc/http_rpc_request.cc
+++ b/src/sofa/pbrpc/http_rpc_request.cc
@@ -360,6 +360,11 @@ rapidjson::Document* HTTPRpcRequest::ParseJson(
         const char* str,
         std::string& err)
 {
+    if (json_nested_too_deep(str))
+    {
+        err = "Nested too deep";
+        return NULL;
+    }
     rapidjson::Document* d = new rapidjson::Document();
     d->Parse<0>(str);
     if (d->HasParseError())
diff --git a/src/sofa/pbrpc/pbjson.cc b/src/sofa/pbrpc/pbjson.cc
index 1030524..d6290a8 100644
--- a/src/sofa/pbrpc/pbjson.cc
+++ b/src/sofa/pbrpc/pbjson.cc
@@ -565,8 +565,50 @@ rapidjson::Value* pb2jsonobject(const google::protobuf::Message* msg, rapidjson:
     return parse_msg(msg, allocator);
 }
 
+bool json_nested_too_deep(const char* json)
+{
+    static const int MAX_DEPTH = 1000;
+    int depth = 0;
+    bool in_string = false;
+    for (const char* p = json; *p != '\0'; ++p)
+    {
+        if (in_string)
+        {
+            if (*p == '\\' && *(p + 1) != '\0')
+            {
+                ++p;
+            }
+            else if (*p == '"')
+            {
+                in_string = false;
+            }
+        }
+        else if (*p == '"')
+        {
+            in_string = true;
+        }
+        else if (*p == '[' || *p == '{')
+        {
+            if (++depth > MAX_DEPTH)
+            {
+                return true;
+            }
+        }
+        else if (*p == ']' || *p == '}')
+        {
+            --depth;
+        }
+    }
+    return false;
+}
+
 int json2pb(const std::string& json, google::protobuf::Message* msg, std::string& err)
 {
+    if (json_nested_too_deep(json.c_str()))
+    {
+        err = "Nested too deep";
+        return ERR_INVALID_JSON;
+    }
     rapidjson::Document d;
     d.Parse<0>(json.c_str());
     if (d.HasParseError())
diff --git a/src/sofa/pbrpc/pbjson.h b/src/sofa/pbrpc/pbjson.h
index cdd3d40..1067d66 100644
--- a/src/sofa/pbrpc/pbjson.h
+++ b/src/sofa/pbrpc/pbjson.h
@@ -52,6 +52,10 @@ rapidjson::Value* pb2jsonobject(const google::protobuf::Message* msg,
         rapidjson::Value::AllocatorType& allocator);
 void json2string(const rapidjson::Value* json, std::string& str);
 
+// If the document nests objects and arrays deeper than can be parsed, which
+// takes stack for every level.
+bool json_nested_too_deep(const char* json);
+
 int json2pb(const std::string& json, google::protobuf::Message* msg, std::string& err);
 int jsonobject2pb(const rapidjson::Value* json, google::protobuf::Message* msg, std::string& err);
 
-- 
2.43.0


From a0cafc1b13f7d080b3778f9e22269ca520f14cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 15/26] fix: stopping a server no longer deadlocks with
 requests or maintenance that ask for the listener

---
 src/sofa/pbrpc/rpc_server_impl.cc | 23 ++++++++++++++++++-----
 src/sofa/pbrpc/rpc_server_impl.h  |  1 +
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index ecc1940..59c28d4 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -169,7 +169,10 @@ bool RpcServerImpl::Start(const std::string& server_address)
                     shared_from_this(), _service_pool, _options.disable_list_service));
     }
 
-    _is_running = true;
+    {
+        ScopedLocker<MutexLock> _(_listener_lock);
+        _is_running = true;
+    }
 #if defined( LOG )
     LOG(INFO) << "Start(): rpc server started";
 #else
@@ -182,7 +185,12 @@ void RpcServerImpl::Stop()
 {
     ScopedLocker<MutexLock> _(_start_stop_lock);
     if (!_is_running) return;
-    _is_running = false;
+    {
+        // The threads joined below may ask for the listener, so they must not
+        // wait for "_start_stop_lock", nor see the listener after this point.
+        ScopedLocker<MutexLock> _(_listener_lock);
+        _is_running = false;
+    }
 
     _timer_worker->stop();
     _listener->close();
@@ -353,13 +361,13 @@ void RpcServerImpl::GetPendingStat(int64* pending_message_count,
 
 bool RpcServerImpl::IsListening()
 {
-    ScopedLocker<MutexLock> _(_start_stop_lock);
+    ScopedLocker<MutexLock> _(_listener_lock);
     return _is_running && !_listener->is_closed();
 }
 
 bool RpcServerImpl::RestartListen()
 {
-    ScopedLocker<MutexLock> _(_start_stop_lock);
+    ScopedLocker<MutexLock> _(_listener_lock);
     if (!_is_running)
     {
 #if defined( LOG )
@@ -501,7 +509,12 @@ void RpcServerImpl::TimerMaintain(const PTime& now)
     int64 now_ticks = (now - _start_time).ticks();
 
     // check listener, if closed, then try to restart it every interval.
-    if (_listener->is_closed()
+    bool is_listener_closed;
+    {
+        ScopedLocker<MutexLock> _(_listener_lock);
+        is_listener_closed = _is_running && _listener->is_closed();
+    }
+    if (is_listener_closed
             && now_ticks - _last_restart_listen_ticks >= _restart_listen_interval_ticks)
     {
         _last_restart_listen_ticks = now_ticks;
diff --git a/src/sofa/pbrpc/rpc_server_impl.h b/src/sofa/pbrpc/rpc_server_impl.h
index 006d76b..b6fa0d7 100644
--- a/src/sofa/pbrpc/rpc_server_impl.h
+++ b/src/sofa/pbrpc/rpc_server_impl.h
@@ -123,6 +123,7 @@ private:
     std::string _server_address;
     RpcEndpoint _listen_endpoint;
     RpcListenerPtr _listener;
+    MutexLock _listener_lock; // for "_listener" while "_is_running" is true
 
     TimerWorkerPtr _timer_worker;
 
-- 
2.43.0


From 86249418e690041c8e44fa59f96a5f1a9e08ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 16/26] fix: a repeating timeout erased by another callback or
 thread no longer runs or frees its callback early

A repeating event that expired was re-inserted in a second locked section and
its callback run without the lock, so erase() or clear() in between missed it
(it repeated on) or deleted the closure that was about to run.
---
 src/sofa/pbrpc/timeout_manager_impl.cc | 42 +++++++++++---------------
 src/sofa/pbrpc/timeout_manager_impl.h  |  8 ++++-
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/sofa/pbrpc/timeout_manager_impl.cc b/src/sofa/pbrpc/timeout_manager_impl.cc
index 0a37d40..872d886 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.cc
+++ b/src/sofa/pbrpc/timeout_manager_impl.cc
@@ -70,10 +70,7 @@ void TimeoutManagerImpl::clear()
         }
     }
     for (EventVec::iterator it = cleared.begin(); it != cleared.end(); ++it) {
-        Callback* callback = it->callback;
-        bool should_delete = !callback->IsSelfDelete();
-        callback->Run(it->id, TimeoutManager::CLEARED);
-        if (should_delete) delete callback;
+        it->callback->Run(it->id, TimeoutManager::CLEARED);
     }
 }
 
@@ -99,18 +96,16 @@ TimeoutManagerImpl::Id TimeoutManagerImpl::add_repeating(int64 interval, Callbac
 
 bool TimeoutManagerImpl::erase(Id id)
 {
-    Callback* callback = NULL;
+    EventVec erased;
     {
         ScopedLocker<MutexLock> _(_timeouts_lock);
         IdIndex& by_id = _timeouts.get<BY_ID>();
         IdIndex::iterator find = by_id.find(id);
         if (find == by_id.end()) return false;
-        callback = find->callback;
+        erased.push_back(*find);
         by_id.erase(find);
     }
-    bool should_delete = !callback->IsSelfDelete();
-    callback->Run(id, TimeoutManager::ERASED);
-    if (should_delete) delete callback;
+    erased[0].callback->Run(id, TimeoutManager::ERASED);
     return true;
 }
 
@@ -128,27 +123,26 @@ void TimeoutManagerImpl::timer_run(const PTime& now)
             ExpirationIndex::iterator exp_end = by_expiration.upper_bound(now_ticks);
             expired.insert(expired.end(), by_expiration.begin(), exp_end);
             by_expiration.erase(by_expiration.begin(), exp_end);
+            // Reinsert if repeating, do this in the same locked section and before
+            // executing callbacks, so erase() and clear() will always find them.
+            for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
+                if (it->repeat_interval >= 0) {
+                    Event repeated = *it;
+                    repeated.expiration = calc_expiration(it->repeat_interval);
+                    _timeouts.insert(repeated);
+                }
+            }
         }
     }
 
-    if (expired.empty()) return;
-
-    // Reinsert if repeating, do this before executing callbacks
-    // so the callbacks have a chance to call erase
-    EventVec repeated;
+    // Execute callbacks
     for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
         if (it->repeat_interval >= 0) {
-            repeated.push_back(Event(it->id, calc_expiration(it->repeat_interval),
-                        it->repeat_interval, it->callback));
+            // Maybe erased or cleared after expired.
+            ScopedLocker<MutexLock> _(_timeouts_lock);
+            IdIndex& by_id = _timeouts.get<BY_ID>();
+            if (by_id.find(it->id) == by_id.end()) continue;
         }
-    }
-    if (!repeated.empty()) {
-        ScopedLocker<MutexLock> _(_timeouts_lock);
-        _timeouts.insert(repeated.begin(), repeated.end());
-    }
-
-    // Execute callbacks
-    for (EventVec::iterator it = expired.begin(); it != expired.end(); ++it) {
         it->callback->Run(it->id, TimeoutManager::TIMEOUTED);
     }
 }
diff --git a/src/sofa/pbrpc/timeout_manager_impl.h b/src/sofa/pbrpc/timeout_manager_impl.h
index af729dc..346c2a9 100644
--- a/src/sofa/pbrpc/timeout_manager_impl.h
+++ b/src/sofa/pbrpc/timeout_manager_impl.h
@@ -68,8 +68,14 @@ private:
         int64 expiration;
         int64 repeat_interval;
         Callback* callback;
+        // Owns the callback if it is not self deleted.  Shared by the copies of the
+        // event, so the callback will not be deleted while it is still to be run.
+        sofa::pbrpc::shared_ptr<Callback> owner;
         Event(Id i, int64 e, int64 r, Callback* c)
-            : id(i), expiration(e), repeat_interval(r), callback(c) {}
+            : id(i), expiration(e), repeat_interval(r), callback(c)
+        {
+            if (!c->IsSelfDelete()) owner.reset(c);
+        }
     };
 
     typedef boost::multi_index_container<
-- 
2.43.0


From f86fa5ac1badf0ca27b3165059ead9d8d9b0ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 17/26] fix: removing an address of a stopped channel no longer
 ends the process

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 87be808..1815f55 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -115,6 +115,7 @@ void DynamicRpcChannelImpl::Stop()
         }
         _live_map.clear();
         _unlive_map.clear();
+        _added_set.clear();
     }
 
 #if defined( LOG )
-- 
2.43.0


From 0f60c6f376b69d1449c911c205bddfe9fef62fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 18/26] fix: an asynchronous call on a stopped client fails
 through its callback instead of ending the process

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc |  2 +-
 src/sofa/pbrpc/rpc_client_impl.cc          | 20 ++++++++++++++++----
 src/sofa/pbrpc/rpc_client_impl.h           |  4 +++-
 src/sofa/pbrpc/simple_rpc_channel_impl.cc  |  2 +-
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 1815f55..7a7747c 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -187,7 +187,7 @@ void DynamicRpcChannelImpl::CallMethod(
         cntl->SetFailed(choose_ret, "choose server failed in dynamic channel");
         CallDone(server, cntl);
         if (done != NULL) {
-            _client_impl->GetCallbackThreadGroup()->post(done);
+            _client_impl->PostCallback(done);
         }
         return;
     }
diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index a1428d9..6f5c3b1 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -111,11 +111,15 @@ void RpcClientImpl::Stop()
     _timeout_manager.reset();
     _timer_worker.reset();
     ClearStreams();
-    _callback_thread_group->stop();
+    ThreadGroupImplPtr callback_thread_group;
+    {
+        ScopedLocker<FastLock> _(_callback_thread_group_lock);
+        callback_thread_group.swap(_callback_thread_group);
+    }
+    callback_thread_group->stop();
     _maintain_thread_group->stop();
 
     _work_thread_group.reset();
-    _callback_thread_group.reset();
     _maintain_thread_group.reset();
     _flow_controller.reset();
 
@@ -379,9 +383,17 @@ void RpcClientImpl::CallMethod(const google::protobuf::Message* request,
     stream->call_method(cntl);
 }
 
-const ThreadGroupImplPtr& RpcClientImpl::GetCallbackThreadGroup() const
+void RpcClientImpl::PostCallback(google::protobuf::Closure* done)
 {
-    return _callback_thread_group;
+    {
+        ScopedLocker<FastLock> _(_callback_thread_group_lock);
+        if (_callback_thread_group)
+        {
+            _callback_thread_group->post(done);
+            return;
+        }
+    }
+    done->Run();
 }
 
 bool RpcClientImpl::ResolveAddress(const std::string& address,
diff --git a/src/sofa/pbrpc/rpc_client_impl.h b/src/sofa/pbrpc/rpc_client_impl.h
index b3307d5..62f5f04 100644
--- a/src/sofa/pbrpc/rpc_client_impl.h
+++ b/src/sofa/pbrpc/rpc_client_impl.h
@@ -49,7 +49,8 @@ public:
             google::protobuf::Message* response,
             const RpcControllerImplPtr& cntl);
 
-    const ThreadGroupImplPtr& GetCallbackThreadGroup() const;
+    // Run "done" on a callback thread, or at once if the client has been stopped.
+    void PostCallback(google::protobuf::Closure* done);
 
     bool ResolveAddress(const std::string& address,
             RpcEndpoint* endpoint);
@@ -109,6 +110,7 @@ private:
 
     ThreadGroupImplPtr _maintain_thread_group;
     ThreadGroupImplPtr _callback_thread_group;
+    FastLock _callback_thread_group_lock;
     ThreadGroupImplPtr _work_thread_group;
 
     TimerWorkerPtr _timer_worker;
diff --git a/src/sofa/pbrpc/simple_rpc_channel_impl.cc b/src/sofa/pbrpc/simple_rpc_channel_impl.cc
index 4d672ed..88211dd 100644
--- a/src/sofa/pbrpc/simple_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/simple_rpc_channel_impl.cc
@@ -175,7 +175,7 @@ void SimpleRpcChannelImpl::DoneCallback(google::protobuf::Closure* done,
     else
     {
         SCHECK(done != NULL);
-        _client_impl->GetCallbackThreadGroup()->post(done);
+        _client_impl->PostCallback(done);
     }
 }
 
-- 
2.43.0


From b692d838b5fb42a1e8bc51c6530f9acf31437376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 19/26] fix: resolving an address with a stopped client no
 longer ends the process

---
 src/sofa/pbrpc/rpc_client_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 6f5c3b1..24d188b 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -399,7 +399,9 @@ void RpcClientImpl::PostCallback(google::protobuf::Closure* done)
 bool RpcClientImpl::ResolveAddress(const std::string& address,
         RpcEndpoint* endpoint)
 {
-    return sofa::pbrpc::ResolveAddress(_work_thread_group->io_service(), address, endpoint);
+    // The client may be stopped, so do not use the service of its threads.
+    IOService io_service;
+    return sofa::pbrpc::ResolveAddress(io_service, address, endpoint);
 }
 
 RpcClientStreamPtr RpcClientImpl::FindOrCreateStream(const RpcEndpoint& remote_endpoint)
-- 
2.43.0


From 60f7a67a215358a34623c9f6bbc9115e78ce7b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 20/26] fix: destroying a dynamic channel that was never
 initialised no longer ends the process

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index 7a7747c..b79f76b 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -88,7 +88,9 @@ bool DynamicRpcChannelImpl::Init()
 void DynamicRpcChannelImpl::Stop()
 {
     // remove TimerDetect
-    _timeout_manager->erase(_timer_id);
+    if (_timeout_manager) {
+        _timeout_manager->erase(_timer_id);
+    }
     {
         ScopedLocker<LockType> _(_detect_lock);
         _is_detect_disabled = true;
-- 
2.43.0


From 1f1a1d239e5223d6441181ebf6797fff71a9c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 21/26] fix: calls racing the shutdown of their client no
 longer use objects that the shutdown destroys

---
 src/sofa/pbrpc/rpc_client_impl.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index 24d188b..a580822 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -108,7 +108,8 @@ void RpcClientImpl::Stop()
     StopStreams();
     _work_thread_group->stop();
 
-    _timeout_manager.reset();
+    // Calls that began before may still use "_timeout_manager", "_work_thread_group"
+    // and "_flow_controller", so keep them.
     _timer_worker.reset();
     ClearStreams();
     ThreadGroupImplPtr callback_thread_group;
@@ -119,9 +120,7 @@ void RpcClientImpl::Stop()
     callback_thread_group->stop();
     _maintain_thread_group->stop();
 
-    _work_thread_group.reset();
     _maintain_thread_group.reset();
-    _flow_controller.reset();
 
 #if defined( LOG )
     LOG(INFO) << "Stop(): rpc client stopped";
@@ -410,6 +409,11 @@ RpcClientStreamPtr RpcClientImpl::FindOrCreateStream(const RpcEndpoint& remote_e
     bool create = false;
     {
         ScopedLocker<FastLock> _(_stream_map_lock);
+        if (!_is_running)
+        {
+            // Streams made after StopStreams() would never be closed.
+            return stream;
+        }
         StreamMap::iterator find = _stream_map.find(remote_endpoint);
         if (find != _stream_map.end() && !find->second->is_closed())
         {
-- 
2.43.0


From 23c090ab0cdeca4a765e512f4416fb085fa538fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:47 +0000
Subject: [PATCH 22/26] fix: a stopping client ends its timer threads before
 its callback threads

---
 src/sofa/pbrpc/rpc_client_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/rpc_client_impl.cc b/src/sofa/pbrpc/rpc_client_impl.cc
index a580822..53ad5cc 100644
--- a/src/sofa/pbrpc/rpc_client_impl.cc
+++ b/src/sofa/pbrpc/rpc_client_impl.cc
@@ -112,13 +112,15 @@ void RpcClientImpl::Stop()
     // and "_flow_controller", so keep them.
     _timer_worker.reset();
     ClearStreams();
+    // Timeouts complete calls with a lock held, so their thread has to end before
+    // callbacks are run at once.
+    _maintain_thread_group->stop();
     ThreadGroupImplPtr callback_thread_group;
     {
         ScopedLocker<FastLock> _(_callback_thread_group_lock);
         callback_thread_group.swap(_callback_thread_group);
     }
     callback_thread_group->stop();
-    _maintain_thread_group->stop();
 
     _maintain_thread_group.reset();
 
-- 
2.43.0


From 9c03803cf957d5ebb8267123511e6e774d1f384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:24 +0000
Subject: [PATCH 23/26] fix: resetting the options of a server being stopped no
 longer uses a destroyed flow controller

---
 src/sofa/pbrpc/rpc_server_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 59c28d4..2d27573 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -204,7 +204,7 @@ void RpcServerImpl::Stop()
 
     _io_service_pool.reset();
     _maintain_thread_group.reset();
-    _flow_controller.reset();
+    // ResetOptions() may still use "_flow_controller", so keep it.
 
 #if defined( LOG )
     LOG(INFO) << "Stop(): rpc server stopped";
-- 
2.43.0


From 949337be17e92b0f19b0da702b6e262b9f8771ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 24/26] fix: a connection accepted while its server stops is
 closed instead of outliving the server's threads

---
 src/sofa/pbrpc/rpc_server_impl.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sofa/pbrpc/rpc_server_impl.cc b/src/sofa/pbrpc/rpc_server_impl.cc
index 2d27573..55d0ba7 100644
--- a/src/sofa/pbrpc/rpc_server_impl.cc
+++ b/src/sofa/pbrpc/rpc_server_impl.cc
@@ -445,6 +445,12 @@ void RpcServerImpl::OnAccepted(const RpcServerStreamPtr& stream)
     stream->reset_ticks((ptime_now() - _start_time).ticks(), true);
 
     ScopedLocker<FastLock> _(_stream_set_lock);
+    if (!_is_running)
+    {
+        // The streams may have been closed and cleared already.
+        stream->close("server not running");
+        return;
+    }
     _stream_set.insert(stream);
 }
 
-- 
2.43.0


From 9f3102da7393fdb9d2098775e5954be2f89751ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 25/26] fix: probe a server again whose channel could not be
 set up at first

---
 src/sofa/pbrpc/dynamic_rpc_channel_impl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
index b79f76b..e11e01a 100644
--- a/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
+++ b/src/sofa/pbrpc/dynamic_rpc_channel_impl.cc
@@ -557,8 +557,9 @@ void DynamicRpcChannelImpl::TimerDetect(
             // ignore
             continue;
         }
-        // init builtin service.
-        if (!server->InitBuiltinService(_options)) {
+        // init channel (the last try may have failed) and builtin service.
+        if (!server->InitChannel(_client_impl, _options)
+                || !server->InitBuiltinService(_options)) {
             // init failed
 #if defined( LOG )
             LOG(WARNING) << "TimerDetect(): init builtin service failed: ["
-- 
2.43.0


From 6548431d6937ac25f222b15be4fecce843cccc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:06 +0000
Subject: [PATCH 26/26] fix: serializing a message without any bytes ended the
 process

---
 src/sofa/pbrpc/buffer.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sofa/pbrpc/buffer.cc b/src/sofa/pbrpc/buffer.cc
index 825aaae..e7f7979 100644
--- a/src/sofa/pbrpc/buffer.cc
+++ b/src/sofa/pbrpc/buffer.cc
@@ -279,14 +279,17 @@ bool WriteBuffer::Next(void** data, int* size)
     return true;
 }
 
-// BackUp() can only be called after a successful Next().
+// BackUp() can only be called after a successful Next(), unless "count" is 0:
+// protobuf backs up 0 bytes without any Next() when it serializes an empty message.
 // "count" should be greater than or equal to 0.
 void WriteBuffer::BackUp(int count)
 {
-    SCHECK_GT(_last_bytes, 0);
     SCHECK_GE(count, 0);
     SCHECK_LE(count, _last_bytes);
-    _buf_list.back().size -= count;
+    if (count > 0)
+    {
+        _buf_list.back().size -= count;
+    }
     _last_bytes = 0;
     _write_bytes -= count;
 }
-- 
2.43.0

