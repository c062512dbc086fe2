MS, SS, BS = "rpc_message_stream.h", "rpc_server_message_stream.h", "rpc_byte_stream.h"
PAIR = r'''
// a bare stream connected to an accepted raw socket
struct Pair { Io io; int ls, port, fd; sofa::pbrpc::shared_ptr<Bare> s;
    Pair() : port(0) { ls = tcp_listen(&port); s.reset(new Bare(io.io, RpcEndpoint(boost::asio::ip::address_v4::loopback(), port))); }
    void connect() { s->async_connect(); fd = ::accept(ls, 0, 0); EXPECT(wait_for([this]{ return s->is_connected(); }, 5000), "no connection"); } };
'''
SEEDS = [
dict(id="t03-queued-while-sent", property="T03",
 needs="a message queued while the completion of the previous one is being reported",
 breaks="the completion decides before reporting the sent message whether there is more to send; a message queued from the report (or at the same moment by another thread) finds the send token taken and is never sent",
 edits=[(MS, "                on_sent(_sending_message, _sending_cookie);\n", "                bool more = pending_message_count() > 0;\n                on_sent(_sending_message, _sending_cookie);\n"),
        (MS, "                // trigger next send\n                try_start_send();\n", "                // trigger next send\n                if (more)\n                    try_start_send();\n")],
 demo=PAIR + r'''
int main() {
    Pair p; p.connect();
    p.s->on_sent_ = [&](int c) { if (c < 3) p.s->async_send_message(message_of("again"), c + 1); };
    p.s->async_send_message(message_of("first"), 0);
    EXPECT(wait_for([&]{ return p.s->sent == 4; }, 5000), "only %d of 4 messages sent, %d pending", (int)p.s->sent, (int)p.s->pending_message_count());
    pass();
}
'''),
dict(id="t06-resume-hysteresis", property="T06",
 needs="a server whose pending-buffer limit is zero, so that every pending response suspends reading",
 breaks="reading is resumed only when the pending bytes have fallen below half of the limit, which never happens for a limit of zero: the connection stops reading for ever",
 edits=[(SS, "                if (_role_type == ROLE_TYPE_SERVER)\n                    try_start_receive();", "                if (_role_type == ROLE_TYPE_SERVER\n                        && pending_buffer_size() < max_pending_buffer_size() / 2)\n                    try_start_receive();")],
 demo=r'''
int main() {
    signal(SIGPIPE, SIG_IGN);
    int port = free_port();
    RpcServerOptions o; o.work_thread_num = 2; o.max_pending_buffer_size = 0;
    RpcServer server(o); EchoImpl* e = new EchoImpl; server.RegisterService(e);
    char a[64]; sprintf(a, "127.0.0.1:%d", port); EXPECT(server.Start(a), "start");
    int s = tcp_connect(port, 4096);
    std::string big(400000, 'x');
    const int N = 40;
    std::thread w([&] { for (int i = 1; i <= N; ++i) if (!send_all(s, echo_frame(i, big))) return; });
    msleep(1500);
    int n = 0; RpcMeta m; std::string d;
    while (n < N) { int r = read_frame(s, &m, &d, 15000); EXPECT(r == 1, "only %d of %d responses", n, N); ++n; }
    pass();
}
'''),
dict(id="t04-second-short-write", property="T04",
 needs="at least two short writes of the same block",
 breaks="after a short write the response stream resumes at the total number of bytes sent instead of the bytes just written, so the second short write skips bytes",
 edits=[(SS, "            _sending_data += bytes_transferred;\n", "            _sending_data += _sent_size;\n")],
 demo=r'''
class Bare2 : public RpcServerMessageStream<int> {
public:
    std::atomic<int> sent; Bare2(boost::asio::io_service& io) : RpcServerMessageStream<int>(ROLE_TYPE_SERVER, io, RpcEndpoint()), sent(0) {
        set_flow_controller(FlowControllerPtr(new FlowController(true, 0, true, 0))); set_max_pending_buffer_size(1 << 30); }
    virtual void on_closed() {}
    virtual bool on_sending(const ReadBufferPtr&, const int&) { return true; }
    virtual void on_sent(const ReadBufferPtr&, const int&) { ++sent; }
    virtual void on_send_failed(RpcErrorCode, const ReadBufferPtr&, const int&) {}
    virtual void on_received(const RpcRequestPtr&) {}
};
int main() {
    Io io; int port = 0, ls = tcp_listen(&port, 2048);
    int c = -1; std::thread t([&] { c = tcp_connect(port, 2048); });
    sofa::pbrpc::shared_ptr<Bare2> s(new Bare2(io.io));
    int f = ::accept(ls, 0, 0); t.join(); int small = 2048; setsockopt(f, SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
    s->socket().assign(boost::asio::ip::tcp::v4(), f); s->socket().non_blocking(true);
    // one block of about 1 MB
    std::string data; for (int i = 0; data.size() < 900000; ++i) { char b[16]; sprintf(b, "%08d", i); data += b; }
    s->update_remote_endpoint(); s->set_socket_connected();
    WriteBuffer w; w._base_block_factor = 9; w.Append(data); ReadBufferPtr r(new ReadBuffer()); w.SwapOut(r.get());
    s->async_send_message(r, 1);
    std::string got; int rc = 1;
    while (got.size() < data.size()) { std::string b; msleep(1); rc = recv_n(c, std::min((size_t)1500, data.size() - got.size()), &b, 5000); if (rc != 1) break; got += b; }
    EXPECT(rc == 1 && got == data, "bytes differ: got %zu of %zu", got.size(), data.size());
    pass();
}
'''),
dict(id="t07-requeue-bytes", property="T07",
 needs="a message that is returned to the queue because the write quota is used up",
 breaks="a message put back at the head of the queue is counted with the bytes already consumed instead of its total size, so the pending byte count drifts below the truth",
 edits=[(MS, "        _swapped_data_size += message->TotalCount();", "        _swapped_data_size += message->ByteCount();")],
 demo=PAIR + r'''
int main() {
    Pair p; p.connect();
    p.s->set_flow_controller(FlowControllerPtr(new FlowController(true, 0, false, 1)));
    p.s->async_send_message(message_of(std::string(1000, 'a')), 1);
    EXPECT(wait_for([&]{ return p.s->sent == 1; }, 5000), "first message not sent");
    p.s->async_send_message(message_of(std::string(1000, 'b')), 2); // no quota left: back to the queue
    EXPECT(wait_for([&]{ return p.s->pending_message_count() == 1; }, 5000), "not pending");
    EXPECT(p.s->pending_data_size() == 1024, "pending bytes %lld", (long long)p.s->pending_data_size());
    pass();
}
'''),
dict(id="t02-late-connect-timer", property="T02",
 needs="the connect timer expires at the moment the connection is established, so that its handler is already queued",
 breaks="a connect timer that fires late closes a connection that has been established in time",
 edits=[(BS, "        if (_status != STATUS_CONNECTING) \n        {\n            return;\n        }\n        if (error == boost::asio::error::operation_aborted) ", "        if (_status == STATUS_INIT || _status == STATUS_CLOSED) \n        {\n            return;\n        }\n        if (error == boost::asio::error::operation_aborted) ")],
 demo=PAIR + r'''
int main() {
    Pair p; p.s->set_connect_timeout(5000); p.connect();
    p.s->on_connect_timeout(boost::system::error_code()); // the expired handler runs after on_connect
    EXPECT(!p.s->is_closed(), "established connection closed by the connect timer");
    pass();
}
'''),
dict(id="t01-close-test-then-swap", property="T01",
 needs="two threads close the same connection at the same moment",
 breaks="the status is tested before it is swapped, so that two closers both tear down and both report",
 edits=[(BS, "        if (atomic_swap(&_status, (int)STATUS_CLOSED) != STATUS_CLOSED)\n", "        int old_status = _status;\n        if (old_status != STATUS_CLOSED)\n            atomic_swap(&_status, (int)STATUS_CLOSED);\n        if (old_status != STATUS_CLOSED)\n")],
 demo=r'''
int main() {
    Io io; RpcEndpoint e; const int T = 4;
    std::atomic<int> round(0), ready(0); sofa::pbrpc::shared_ptr<Bare> cur; std::vector<std::thread> ts; const int N = 60000;
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    for (int t = 0; t < T; ++t) ts.emplace_back([&] {
        for (int i = 1; i <= N; ++i) { while (round < i) ; cur->close("x"); ++ready; } });
    for (int i = 1; i <= N; ++i) {
        cur.reset(new Bare(io.io, e)); ready = 0; round = i; while (ready < T) ;
        EXPECT(cur->closed == 1, "closed callback ran %d times", (int)cur->closed);
    }
    pass();
}
'''),
]
