CI, CS, TM, RC, RQ, BR, HR, RL, SI, SP = "rpc_client_impl.cc", "rpc_client_stream.h", "rpc_timeout_manager.h", "rpc_controller_impl.h", "rpc_request.cc", "binary_rpc_request.cc", "http_rpc_request.cc", "rpc_listener.h", "rpc_server_impl.cc", "service_pool.h"
SERVER = r'''
struct Server { int port; RpcServer* s; EchoImpl* e;
    Server(RpcServerOptions o = RpcServerOptions()) { port = free_port(); s = new RpcServer(o); e = new EchoImpl; s->RegisterService(e); }
    void start() { char a[64]; sprintf(a, "127.0.0.1:%d", port); EXPECT(s->Start(a), "start"); } };
'''
SEEDS = [
dict(id="c01-done-test-then-set", property="C01",
 needs="two outcomes of one call (for example its timeout and its response) arriving at the same moment on two threads",
 breaks="the completion of a call is gated by a test and a separate store instead of one atomic step, so both outcomes run the completion callbacks",
 edits=[(RC, "        if (atomic_comp_swap(&_is_done, DONE, NOT_DONE) == NOT_DONE)\n        {", "        if (_is_done == NOT_DONE)\n        {\n            _is_done = DONE;")],
 demo=r'''
#include <sofa/pbrpc/rpc_controller_impl.h>
int main() {
    const int N = 60000; std::vector<RpcControllerImplPtr> v(N); std::vector<std::atomic<int> > n(N);
    for (int i = 0; i < N; ++i) { v[i].reset(new RpcControllerImpl()); n[i] = 0; std::atomic<int>* c = &n[i];
        for (int k = 0; k < 1; ++k) v[i]->PushDoneCallback([c](const RpcControllerImplPtr&) { ++*c; }); }
    // two threads complete every call, in step
    std::atomic<int> at[2]; at[0] = at[1] = -1; std::vector<std::thread> ts;
    for (int t = 0; t < 2; ++t) ts.push_back(std::thread([&, t] {
        for (int i = 0; i < N; ++i) { at[t] = i; while (at[1 - t] < i) {} 
            if (v[i]->_is_done == 0) { try { v[i]->Done(t, "x"); } catch (...) { EXPECT(false, "both threads ran the callbacks"); } } } }));
    for (auto& t : ts) t.join();
    for (int i = 0; i < N; ++i) EXPECT(n[i] == 1, "call %d completed %d times", i, (int)n[i]);
    pass();
}
'''),
dict(id="c02-default-compress", property="C02",
 needs="a server that answers without a compression type in the meta data (uncompressed) to a client that asked for a compressed response",
 breaks="a response that names no compression is decompressed with the type the request asked for, and a good response is reported as unparsable",
 edits=[(CS, "            cntl->SetResponseCompressType(meta.has_compress_type() ?\n                    meta.compress_type() : CompressTypeNone);", "            if (meta.has_compress_type())\n                cntl->SetResponseCompressType(meta.compress_type());")],
 demo=r'''
int main() {
    signal(SIGPIPE, SIG_IGN); int port = 0, ls = tcp_listen(&port);
    std::thread srv([&] { int fd = ::accept(ls, 0, 0); RpcMeta m; std::string d;
        while (read_frame(fd, &m, &d, 10000) == 1) send_all(fd, response_frame(m.sequence_id(), "hello")); });
    srv.detach();
    RpcClient client; char a[64]; sprintf(a, "127.0.0.1:%d", port); RpcChannel ch(&client, a); sofa::pbrpc::test::EchoServer_Stub stub(&ch);
    for (int i = 0; i < 2; ++i) {
        RpcController c; c.SetTimeout(5000); if (i) c.SetResponseCompressType(CompressTypeGzip);
        EchoReq q; EchoRes r; q.set_message("x"); stub.Echo(&c, &q, &r, NULL);
        EXPECT(!c.Failed() && r.message() == "hello", "round %d: %s", i, c.ErrorText().c_str());
    }
    pass();
}
'''),
dict(id="c04-add-skipped-by-erase", property="C04",
 needs="a call that is issued in the same 100 ms tick in which an earlier call (issued in a previous tick) completes",
 breaks="when the timer works off a finished call it also steps over the new call next in line, whose time limit is then never enforced: the caller waits for ever",
 edits=[(TM, "                _events.get<INDEX_BY_ID>().erase(*erase_it);\n                ++erase_it;\n            }\n            else // add_it->id == *erase_it", "                if (_events.get<INDEX_BY_ID>().erase(*erase_it) != 0)\n                    ++add_it;\n                ++erase_it;\n            }\n            else // add_it->id == *erase_it")],
 demo=r'''
int main() {
    signal(SIGPIPE, SIG_IGN); int port = 0, ls = tcp_listen(&port);
    std::thread srv([&] { int fd = ::accept(ls, 0, 0); RpcMeta m; std::string d;
        while (read_frame(fd, &m, &d, 60000) == 1) { EchoReq q; q.ParseFromString(d); if (q.message() == "slow") { msleep(350); send_all(fd, response_frame(m.sequence_id(), "ok")); } } });
    srv.detach();
    RpcClient client; char a[64]; sprintf(a, "127.0.0.1:%d", port); RpcChannel ch(&client, a); sofa::pbrpc::test::EchoServer_Stub stub(&ch);
    for (int i = 0; i < 4; ++i) {
        { RpcController c; c.SetTimeout(20000); EchoReq q; EchoRes r; q.set_message("slow"); stub.Echo(&c, &q, &r, NULL); EXPECT(!c.Failed(), "%s", c.ErrorText().c_str()); }
        std::atomic<bool> over(false); auto t0 = std::chrono::steady_clock::now();
        std::thread t([&] { RpcController c; c.SetTimeout(500); EchoReq q; EchoRes r; q.set_message("never"); stub.Echo(&c, &q, &r, NULL); over = true; });
        EXPECT(wait_for([&] { return (bool)over; }, 6000), "a call with a limit of 500 ms is still waiting after 6 s"); t.join();
    }
    pass();
}
'''),
dict(id="s01-shed-errors", property="S01",
 needs="a client that sends many invalid requests without reading, so that the answers fill the pending buffer of the connection",
 breaks="an error answer is dropped when the connection has more pending data than its limit: those requests are never answered",
 edits=[(RQ, "    std::string err;\n    ReadBufferPtr read_buffer = AssembleFailedResponse(error_code, reason, err);\n", "    if (real_stream->pending_buffer_size() > real_stream->max_pending_buffer_size())\n    {\n        return;\n    }\n\n    std::string err;\n    ReadBufferPtr read_buffer = AssembleFailedResponse(error_code, reason, err);\n")],
 demo=SERVER + r'''
int main() {
    signal(SIGPIPE, SIG_IGN); RpcServerOptions o; o.max_pending_buffer_size = 0; Server v(o); v.start();
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    int s = tcp_connect(v.port, 4096); const int N = 40000; std::string all;
    RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_method("no.such.service.Method");
    for (int i = 1; i <= N; ++i) { m.set_sequence_id(i); all += frame(m, ""); }
    std::thread w([&] { send_all(s, all); }); w.detach(); msleep(1000);
    int n = 0; RpcMeta r; std::string d;
    while (n < N) { int k = read_frame(s, &r, &d, 5000); EXPECT(k == 1, "only %d of %d requests answered", n, N); EXPECT(r.failed(), "not failed"); ++n; }
    pass();
}
'''),
dict(id="s02-partial-pb", property="S02",
 needs="an HTTP request with a protobuf body that lacks a required field",
 breaks="the body is parsed without checking required fields, and the method runs on an incomplete message",
 edits=[(HR, "request->ParseFromZeroCopyStream(_req_body.get())", "request->ParsePartialFromZeroCopyStream(_req_body.get())")],
 demo=SERVER + r'''
int main() {
    signal(SIGPIPE, SIG_IGN); Server v; v.start(); std::atomic<int> bad(0);
    v.e->fn = [&](const EchoReq* q, EchoRes* r, RpcController*, google::protobuf::Closure* d) { if (!q->has_message()) ++bad; r->set_message("x" + q->message()); d->Run(); };
    EchoReq ok; ok.set_message("hi");
    for (std::string body : { ok.SerializeAsString(), std::string() , std::string("\x10\x05", 2) }) {
        int s = tcp_connect(v.port); char h[200];
        sprintf(h, "POST /sofa.pbrpc.test.EchoServer.Echo HTTP/1.1\r\nAccept: application/protobuf\r\nContent-Length: %d\r\n\r\n", (int)body.size());
        send_all(s, h + body); std::string b; recv_n(s, 12, &b, 3000); ::close(s);
    }
    msleep(300);
    EXPECT(bad == 0, "the method ran on %d incomplete messages", (int)bad);
    EXPECT(v.e->calls >= 1, "the complete request did not run");
    pass();
}
'''),
dict(id="s03-parse-failure-leak", property="S03",
 needs="requests whose body does not parse",
 breaks="the request message of a request that cannot be parsed is never released: every such request leaks what was parsed so far",
 edits=[(BR, '''        SendFailedResponse(stream,
                RPC_ERROR_PARSE_REQUEST_MESSAGE, "method full name: " + _req_meta.method());
        delete request;
        return;''', '''        SendFailedResponse(stream,
                RPC_ERROR_PARSE_REQUEST_MESSAGE, "method full name: " + _req_meta.method());
        return;''')],
 demo=SERVER + r'''
static long rss() { long a = 0, b = 0; FILE* f = fopen("/proc/self/statm", "r"); if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); return b * 4096; }
int main() {
    signal(SIGPIPE, SIG_IGN); Server v; v.start(); SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    int s = tcp_connect(v.port); EchoReq q; q.set_message(std::string(200000, 'x')); std::string body = q.SerializeAsString() + std::string("\x0a\xff", 2);
    RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_method("sofa.pbrpc.test.EchoServer.Echo"); long base = 0;
    for (int i = 1; i <= 1600; ++i) {
        m.set_sequence_id(i); EXPECT(send_all(s, frame(m, body)), "send"); RpcMeta r; std::string d;
        EXPECT(read_frame(s, &r, &d, 5000) == 1 && r.failed(), "no error answer");
        if (i == 100) base = rss();
    }
    EXPECT(rss() - base < 100000000L, "%ld bytes more in use after 1500 refused requests", rss() - base);
    pass();
}
'''),
dict(id="s04-narrow-sequence", property="S04",
 needs="a sequence number above 2^32 (a client that has made four billion calls, or numbers its calls differently) on a failing request",
 breaks="error answers carry only the low 32 bits of the sequence number, so the client cannot match them",
 edits=[(BR, "    meta.set_sequence_id(_req_meta.sequence_id());\n    meta.set_failed(true);", "    meta.set_sequence_id(static_cast<uint32>(_req_meta.sequence_id()));\n    meta.set_failed(true);")],
 demo=SERVER + r'''
int main() {
    signal(SIGPIPE, SIG_IGN); Server v; v.start(); int s = tcp_connect(v.port);
    for (uint64_t id : { 7ull, (1ull << 33) + 5 }) {
        RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(id); m.set_method("no.such.Method"); send_all(s, frame(m, ""));
        RpcMeta r; std::string d; EXPECT(read_frame(s, &r, &d, 5000) == 1, "no answer");
        EXPECT(r.sequence_id() == id && r.failed(), "answer to %llu carries %llu", (unsigned long long)id, (unsigned long long)r.sequence_id());
    }
    pass();
}
'''),
dict(id="s05-receipt-time", property="S05",
 needs="a request that waits behind a slow one that arrived with it",
 breaks="the time limit of a request counts from when its processing starts, so a request that waited longer than its limit still runs",
 edits=[(BR, "    cntl->SetRequestReceivedTime(_received_time);", "    cntl->SetRequestReceivedTime(ptime_now());")],
 demo=SERVER + r'''
int main() {
    signal(SIGPIPE, SIG_IGN); RpcServerOptions o; o.work_thread_num = 1; Server v(o); v.start(); std::atomic<int> late(0), slow(0);
    v.e->fn = [&](const EchoReq* q, EchoRes* r, RpcController*, google::protobuf::Closure* d) {
        if (q->message() == "slow") { ++slow; msleep(800); } else ++late; r->set_message("ok"); d->Run(); };
    int s = tcp_connect(v.port); RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_method("sofa.pbrpc.test.EchoServer.Echo"); m.set_sequence_id(2); m.set_server_timeout(200);
    EchoReq q; q.set_message("late"); send_all(s, echo_frame(1, "slow") + frame(m, q.SerializeAsString()));
    RpcMeta r; std::string d; EXPECT(read_frame(s, &r, &d, 5000) == 1 && r.sequence_id() == 1, "no answer"); msleep(500);
    EXPECT(slow == 1 && late == 0, "a request ran %d times after its limit had passed", (int)late);
    pass();
}
'''),
dict(id="s06-accept-stops", property="S06",
 needs="a connection that is refused because the limit of connections is reached",
 breaks="after refusing one connection the listener does not accept any further one, while it still listens",
 edits=[(RL, "            if (!stream->is_closed())\n            {\n                stream->set_socket_connected();\n            }\n", "            if (stream->is_closed())\n            {\n                return;\n            }\n            stream->set_socket_connected();\n")],
 demo=SERVER + r'''
int main() {
    signal(SIGPIPE, SIG_IGN); RpcServerOptions o; o.max_connection_count = 1; Server v(o); v.start();
    int a = tcp_connect(v.port); RpcMeta r; std::string d; send_all(a, echo_frame(1, "a")); EXPECT(read_frame(a, &r, &d, 5000) == 1, "first connection");
    int b = tcp_connect(v.port); send_all(b, echo_frame(2, "b")); EXPECT(read_frame(b, &r, &d, 5000) == 0, "the second connection is not refused");
    ::close(a); ::close(b); EXPECT(wait_for([&] { return v.s->ConnectionCount() == 0; }, 5000), "connection not forgotten");
    int c = tcp_connect(v.port); send_all(c, echo_frame(3, "c")); EXPECT(read_frame(c, &r, &d, 5000) == 1, "no connection is accepted any more");
    pass();
}
'''),
dict(id="s07-cache-refused", property="S07",
 needs="a second registration under a registered name, followed by a call",
 breaks="a refused service replaces the registered one in the lookup cache, so calls reach the refused service",
 edits=[(SP, '''        // register
        ServiceBoard* svc_board = new ServiceBoard(_head, service, take_ownership);
''', '''        // register
''') if False else (SP, "        if (_service_map.find(svc_name) != _service_map.end()) {", "        if (_service_map.find(svc_name) != _service_map.end()) {\n            _cache[CacheIndex(svc_name)] = new ServiceBoard(NULL, service, false);")],
 demo=r'''
int main() {
    signal(SIGPIPE, SIG_IGN); int port = free_port(); RpcServer s; EchoImpl *a = new EchoImpl, *b = new EchoImpl;
    EXPECT(s.RegisterService(a), "first"); EXPECT(!s.RegisterService(b, false), "second registration accepted");
    char ad[64]; sprintf(ad, "127.0.0.1:%d", port); EXPECT(s.Start(ad), "start");
    int c = tcp_connect(port); RpcMeta r; std::string d; send_all(c, echo_frame(1, "x")); EXPECT(read_frame(c, &r, &d, 5000) == 1, "no answer");
    EXPECT(a->calls == 1 && b->calls == 0, "first service ran %d times, refused one %d times", (int)a->calls, (int)b->calls);
    pass();
}
'''),
dict(id="s08-stale-keep-alive", property="S08",
 needs="the idle time changed at run time",
 breaks="the idle limit in effect is computed before the new option is stored, so a change takes effect only with the next one",
 edits=[(SI, '''    _options.max_throughput_in = options.max_throughput_in;
    _options.max_throughput_out''', '''    _keep_alive_ticks = _options.keep_alive_time == -1 ?
        -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;
    _options.max_throughput_in = options.max_throughput_in;
    _options.max_throughput_out'''), (SI, '''        std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
    _keep_alive_ticks = _options.keep_alive_time == -1 ?
        -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;

    #if''', '''        std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);

    #if''') if False else (SI, '''    _max_pending_buffer_size = 
        std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
    _keep_alive_ticks = _options.keep_alive_time == -1 ?
        -1 : std::max(1, _options.keep_alive_time) * _ticks_per_second;
''', '''    _max_pending_buffer_size = 
        std::max(0L, _options.max_pending_buffer_size * 1024L * 1024L);
''')],
 demo=SERVER + r'''
#include <sofa/pbrpc/builtin_service.pb.h>
int main() {
    signal(SIGPIPE, SIG_IGN); Server v; v.start(); int idle = tcp_connect(v.port);
    RpcMeta r; std::string d; send_all(idle, echo_frame(1, "x")); EXPECT(read_frame(idle, &r, &d, 5000) == 1, "no answer");
    RpcClient client; char a[64]; sprintf(a, "127.0.0.1:%d", v.port); RpcChannel ch(&client, a);
    sofa::pbrpc::builtin::BuiltinService_Stub stub(&ch); RpcController c; c.SetTimeout(5000);
    sofa::pbrpc::builtin::UpdateOptionsRequest q; sofa::pbrpc::builtin::UpdateOptionsResponse p; q.mutable_options()->set_keep_alive_time(1);
    stub.UpdateOptions(&c, &q, &p, NULL); EXPECT(!c.Failed() && p.options().keep_alive_time() == 1, "%s", c.ErrorText().c_str());
    std::string b; EXPECT(recv_n(idle, 1, &b, 8000) == 0, "an idle connection is still open 8 s after the limit was set to 1 s");
    pass();
}
'''),
dict(id="w02-compressor-outlives-count", property="W02",
 needs="a response compressed with snappy or LZ4",
 breaks="the compressor is still alive when the size of the body is taken, and it holds a block it has not used up yet: the header announces more bytes than the body has",
 edits=[(BR, '''    bool ser_ret = false;
    if (meta.compress_type() == CompressTypeNone)
    {
        ser_ret = response->Ser''', '''    bool ser_ret = false;
    sofa::pbrpc::scoped_ptr<AbstractCompressedOutputStream> os;
    if (meta.compress_type() == CompressTypeNone)
    {
        ser_ret = response->Ser'''), (BR, '''        sofa::pbrpc::scoped_ptr<AbstractCompressedOutputStream> os(
                get_compressed_output_stream(&write_buffer, meta.compress_type()));
        ser_ret =''', '''        os.reset(get_compressed_output_stream(&write_buffer, meta.compress_type()));
        ser_ret =''')],
 demo=SERVER + r'''
#include <sofa/pbrpc/compressed_stream.h>
int main() {
    signal(SIGPIPE, SIG_IGN); Server v; v.start();
    for (int t = 0; t <= 4; ++t) {
        int s = tcp_connect(v.port); RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_method("sofa.pbrpc.test.EchoServer.Echo"); m.set_expected_response_compress_type((CompressType)t);
        std::string text = "hello hello hello hello"; EchoReq q; q.set_message(text);
        for (int i = 1; i <= 2; ++i) { m.set_sequence_id(i); send_all(s, frame(m, q.SerializeAsString())); }
        EchoRes res; res.set_message(text); WriteBuffer w;
        if (t) { AbstractCompressedOutputStream* o = get_compressed_output_stream(&w, (CompressType)t); res.SerializeToZeroCopyStream(o); o->Flush(); delete o; } else res.SerializeToZeroCopyStream(&w);
        for (int i = 1; i <= 2; ++i) { RpcMeta r; std::string d; EXPECT(read_frame(s, &r, &d, 3000) == 1, "type %d: answer %d incomplete", t, i);
            EXPECT((int64)d.size() == w.ByteCount(), "type %d: body of %d bytes instead of %d", t, (int)d.size(), (int)w.ByteCount()); }
        ::close(s);
    }
    pass();
}
'''),
]
