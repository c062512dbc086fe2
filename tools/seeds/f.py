P, G, C, H = "io_service_pool.cc", "thread_group_impl.h", "rpc_client_impl.cc", "rpc_server_impl.cc"
SEEDS = [
dict(id="f02-last-group-decides", property="F02",
 needs="a server with several io services whose thread init function fails in one of the groups but the last",
 breaks="only the result of the last thread group is reported, so Start() succeeds although the threads of an earlier group refused to work",
 edits=[(P, """    size_t pool_size = _pool.size();
    for (size_t i = 0; i < pool_size; ++i)
    {
        _pool[i]->set_init_func(""", """    size_t pool_size = _pool.size();
    bool started = true;
    for (size_t i = 0; i < pool_size; ++i)
    {
        _pool[i]->set_init_func("""),
        (P, "        if (!_pool[i]->start())\n", "        started = _pool[i]->start();\n        if (!started)\n"),
        (P, "#endif\n            return false;\n        }\n    }\n    return true;\n", "#endif\n        }\n    }\n    return started;\n")],
 demo=r'''
static std::atomic<int> inits(0);
static bool init() { return ++inits != 1; }
static void end() {}
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    RpcServerOptions o; o.work_thread_num = 3; o.io_service_pool_size = 3;
    o.work_thread_init_func = sofa::pbrpc::NewPermanentExtClosure(&init);
    o.work_thread_dest_func = sofa::pbrpc::NewPermanentExtClosure(&end);
    RpcServer server(o);
    char a[64]; sprintf(a, "127.0.0.1:%d", free_port());
    bool ok = server.Start(a);
    EXPECT(!ok, "Start() succeeded although a work thread could not be initialised (%d initialised)", inits.load());
    pass();
}
'''),
dict(id="f02-count-carried", property="F02",
 needs="a thread group whose threads take different times for their init functions, the slowest of them failing",
 breaks="threads found ready are counted again on every pass over the group, so Start() succeeds while a thread is still initialising and its failure goes unnoticed",
 edits=[(G, "        while (true)\n        {\n            int done_num = 0;\n            for", "        int done_num = 0;\n        while (true)\n        {\n            for"),
        (G, "done_num == _thread_num)", "done_num >= _thread_num)")],
 demo=r'''
static std::atomic<int> inits(0);
static bool init() { int n = ++inits; if (n == 3) { msleep(1500); return false; } return true; }
static void end() {}
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    RpcServerOptions o; o.work_thread_num = 3;
    o.work_thread_init_func = sofa::pbrpc::NewPermanentExtClosure(&init);
    o.work_thread_dest_func = sofa::pbrpc::NewPermanentExtClosure(&end);
    RpcServer server(o);
    char a[64]; sprintf(a, "127.0.0.1:%d", free_port());
    bool ok = server.Start(a);
    EXPECT(!ok, "Start() succeeded although a work thread failed its init function");
    pass();
}
'''),
dict(id="f01-connecting-left-open", property="F01",
 needs="a client stopped while one of its connections is still being established",
 breaks="streams that are still connecting are not closed, so Shutdown() waits for the connect attempt to end, for minutes",
 edits=[(C, "        it->second->close(\"client stopped\");\n", "        if (it->second->is_connected())\n        {\n            it->second->close(\"client stopped\");\n        }\n")],
 demo=r'''
#include <fcntl.h>
static void ignore(std::atomic<int>* n) { ++*n; }
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    int port = 0, ls = tcp_listen(&port); ::listen(ls, 0);
    // fill the queue, so that further connections hang
    std::vector<int> fill; bool full = false;
    for (int i = 0; i < 16 && !full; ++i) {
        int s = socket(AF_INET, SOCK_STREAM, 0); fcntl(s, F_SETFL, O_NONBLOCK); fill.push_back(s);
        sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
        connect(s, (sockaddr*)&a, sizeof a);
        pollfd p = { s, POLLOUT, 0 }; full = poll(&p, 1, 300) <= 0;
    }
    EXPECT(full, "the queue of the listener does not fill");
    char a[64]; sprintf(a, "127.0.0.1:%d", port);
    RpcClient client; RpcChannel ch(&client, a);
    sofa::pbrpc::test::EchoServer_Stub stub(&ch);
    RpcController* c = new RpcController; c->SetTimeout(60000); EchoReq q; q.set_message("x"); EchoRes r; std::atomic<int> n(0);
    stub.Echo(c, &q, &r, sofa::pbrpc::NewClosure(&ignore, &n));
    msleep(200);
    std::atomic<bool> ended(false);
    std::thread t([&] { client.Shutdown(); ended = true; });
    EXPECT(wait_for([&] { return ended.load(); }, 10000), "Shutdown() does not end while a connection is being established");
    t.join();
    EXPECT(n == 1, "the call was completed %d times", n.load());
    pass();
}
'''),
]
