F = "dynamic_rpc_channel_impl.cc"
PRE = r'''
struct Srv {
    RpcServer* s; EchoImpl* e; std::string a;
    Srv(int port = 0) : s(NULL), e(NULL) { char b[64]; sprintf(b, "127.0.0.1:%d", port ? port : free_port()); a = b; }
    void up() { s = new RpcServer(RpcServerOptions()); e = new EchoImpl; s->RegisterService(e); EXPECT(s->Start(a), "start %s", a.c_str()); }
    void down() { s->Stop(); delete s; s = NULL; }
};
static bool call(RpcChannel* ch, int ms = 3000, int* code = NULL) {
    sofa::pbrpc::test::EchoServer_Stub stub(ch);
    EchoReq q; EchoRes r; RpcController k; q.set_message("x"); k.SetTimeout(ms); stub.Echo(&k, &q, &r, NULL);
    if (code) *code = k.ErrorCode();
    return !k.Failed();
}
'''
SEEDS = [
dict(id="d01-capacity-late", property="D01",
 needs="a channel to several servers with a load capacity, and as many calls outstanding on the least loaded server as it may take",
 breaks="one call more than the capacity is made on a server",
 edits=[(F, "                && min_wait_count >= _options.server_load_capacity) {", "                && min_wait_count > _options.server_load_capacity) {")],
 demo=PRE + r'''
static std::atomic<int> now(0), most(0);
static void slow(const EchoReq* q, EchoRes* r, RpcController*, google::protobuf::Closure* d) { int n = ++now; if (n > most) most = n; msleep(6000); --now; r->set_message(q->message()); d->Run(); }
static void ignore(RpcController* k, EchoReq* q, EchoRes* r, std::atomic<int>* n) { ++*n; }
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    Srv a; a.up(); a.e->fn = slow;
    std::vector<std::string> l; l.push_back(a.a);
    RpcClient c; RpcChannelOptions o; o.server_load_capacity = 1; RpcChannel ch(&c, l, o);
    sofa::pbrpc::test::EchoServer_Stub stub(&ch);
    EchoReq q; EchoRes r; RpcController k; std::atomic<int> n(0); q.set_message("1"); k.SetTimeout(20000);
    stub.Echo(&k, &q, &r, sofa::pbrpc::NewClosure(&ignore, &k, &q, &r, &n));
    msleep(500);
    int code = 0; bool ok = call(&ch, 20000, &code);
    EXPECT(!ok && code == sofa::pbrpc::RPC_ERROR_SERVER_BUSY, "a second call was made on a server that may take one (ok %d, code %d, at once %d)", ok, code, most.load());
    wait_for([&]() { return n.load() == 1; }, 20000);
    EXPECT(most == 1, "%d calls at once", most.load());
    pass();
}
'''),
dict(id="d01-unlive-still-marked", property="D01",
 needs="one of several servers going away for a while: a call on it fails, and it comes back",
 breaks="a server taken out of the live ones keeps its mark, so it is never probed and never used again while others are live",
 edits=[(F, "            _live_map.erase(find);\n            server->is_in_live_map = false;\n            _unlive_map[server_address] = server;", "            _live_map.erase(find);\n            _unlive_map[server_address] = server;")],
 demo=PRE + r'''
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    Srv a, b; a.up(); b.up();
    std::vector<std::string> l; l.push_back(a.a); l.push_back(b.a);
    RpcClient c; RpcChannel ch(&c, l);
    for (int i = 0; i < 4; ++i) call(&ch);
    b.down(); msleep(300);
    for (int i = 0; i < 4; ++i) call(&ch);
    b.up();
    bool used = wait_for([&]() { call(&ch); msleep(200); return b.e->calls.load() > 0; }, 25000);
    EXPECT(used, "a server that came back is not used again");
    pass();
}
'''),
dict(id="d01-removed-while-down", property="D01",
 needs="an address removed while its server is not live, and added again later",
 breaks="the address stays entered when its server was not live, so adding it again is refused and no call reaches the server any more",
 edits=[(F, "                    find->second->is_removed = true;\n                    _live_map.erase(find);\n", "                    find->second->is_removed = true;\n                    _live_map.erase(find);\n                    _added_set.erase(server_address);\n"),
        (F, "                SCHECK_EQ(1u, _added_set.erase(server_address));\n", "")],
 demo=PRE + r'''
struct Prov : RpcChannel::AddressProvider {
    std::vector<std::string> l; RpcChannel::EventHandler* h;
    void GetInitAddress(std::vector<std::string>* v) { *v = l; }
    bool RegisterEventHandler(RpcChannel::EventHandler* x) { h = x; return true; }
};
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    Srv a, b; a.up(); b.up();
    Prov p; p.l.push_back(a.a); p.l.push_back(b.a);
    RpcClient c; RpcChannel* ch = new RpcChannel(&c, &p);
    for (int i = 0; i < 4; ++i) call(ch);
    b.down(); msleep(300);
    for (int i = 0; i < 4; ++i) call(ch);
    std::vector<std::string> v(1, b.a);
    p.h->OnAddressRemoved(v);
    b.up();
    p.h->OnAddressAdded(v);
    bool used = wait_for([&]() { call(ch); msleep(100); return b.e->calls.load() > 0; }, 8000);
    EXPECT(used, "an address added again is not used");
    pass();
}
'''),
dict(id="d01-unavailable-no-callback", property="D01",
 needs="an asynchronous call on a channel none of whose servers can be connected to, made when its last attempt found no server at all",
 breaks="the callback of an asynchronous call that found no server never runs",
 edits=[(F, "        if (done != NULL) {\n            _client_impl->PostCallback(done);\n        }\n        return;", "        if (done != NULL && choose_ret == RPC_ERROR_SERVER_BUSY) {\n            _client_impl->PostCallback(done);\n        }\n        return;")],
 demo=PRE + r'''
static void ended(RpcController* k, std::atomic<int>* n) { ++*n; }
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    std::vector<std::string> l;
    RpcClient c; RpcChannel ch(&c, l);
    sofa::pbrpc::test::EchoServer_Stub stub(&ch);
    EchoReq q; EchoRes r; RpcController k; std::atomic<int> n(0); q.set_message("1"); k.SetTimeout(2000);
    stub.Echo(&k, &q, &r, sofa::pbrpc::NewClosure(&ended, &k, &n));
    EXPECT(wait_for([&]() { return n.load() == 1; }, 6000), "the callback of a call without a server did not run");
    EXPECT(k.Failed(), "the call succeeded");
    pass();
}
'''),
]
