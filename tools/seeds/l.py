TM, C, D = "timeout_manager_impl.cc", "rpc_client_impl.cc", "dynamic_rpc_channel_impl.cc"
SEEDS = [
dict(id="l01-timeout-id-race", property="L01",
 needs="two threads adding timeouts at the same moment",
 breaks="the next identifier is drawn before the lock is taken, so two concurrent add() calls get the same identifier and the second timeout is silently lost",
 edits=[(TM, "    SCHECK(callback->IsSelfDelete());\n    ScopedLocker<MutexLock> _(_timeouts_lock);\n    Id id = _next_id++;\n    _timeouts.insert(Event(id, calc_expiration(interval), -1, callback));\n",
             "    SCHECK(callback->IsSelfDelete());\n    const Id id = _next_id++;\n    const int64 expiration = calc_expiration(interval);\n    ScopedLocker<MutexLock> _(_timeouts_lock);\n    _timeouts.insert(Event(id, expiration, -1, callback));\n")],
 demo=r'''
#include <set>
static void never(TimeoutManager::Id, TimeoutManager::Type) {}
int main() {
    TimeoutManager& m = *new TimeoutManager;
    const int T = 8, N = 60000;
    std::vector<std::vector<TimeoutManager::Id> > ids(T);
    std::atomic<int> ready(0); std::vector<std::thread> ts;
    for (int t = 0; t < T; ++t) ts.emplace_back([&, t] {
        ids[t].reserve(N); ++ready; while (ready < T) {}
        for (int i = 0; i < N; ++i) ids[t].push_back(m.add(3600 * 1000, sofa::pbrpc::NewExtClosure(&never)));
    });
    for (auto& t : ts) t.join();
    std::set<TimeoutManager::Id> all;
    for (auto& v : ids) for (auto i : v) EXPECT(all.insert(i).second, "identifier %llu handed out twice", (unsigned long long)i);
    pass();
}
'''),
dict(id="l01-request-number-twice", property="L01",
 needs="two threads making calls with one client at the same moment",
 breaks="a step of a shared counter reads the counter again after its atomic step and tells what another thread made of it, so two calls get one number and one of them loses its response",
 edits=[("counter.h", "        return atomic_inc_ret_old64(&_counter) + 1LU;", "        atomic_inc_ret_old64(&_counter);\n        return _counter;")],
 demo=r'''
#include <set>
#include <sofa/pbrpc/counter.h>
int main() {
    sofa::pbrpc::AtomicCounter64 c;
    const int T = 6, N = 200000;
    std::vector<std::vector<uint64_t> > ids(T);
    std::atomic<int> ready(0); std::vector<std::thread> ts;
    for (int t = 0; t < T; ++t) ts.emplace_back([&, t] {
        ids[t].reserve(N); ++ready; while (ready < T) {}
        for (int i = 0; i < N; ++i) ids[t].push_back(++c);
    });
    for (auto& t : ts) t.join();
    std::set<uint64_t> all;
    for (auto& v : ids) for (auto i : v) EXPECT(all.insert(i).second, "number %llu handed out twice", (unsigned long long)i);
    EXPECT((uint64_t)c == (uint64_t)T * N, "counted to %llu", (unsigned long long)(uint64_t)c);
    pass();
}
'''),
dict(id="l01-find-then-insert", property="L01",
 needs="two threads making the first calls to one address at the same moment",
 breaks="the stream of an address is looked up in one critical section and inserted in another, so concurrent first calls each create a connection and the map forgets all but the last",
 edits=[(C, """        if (find != _stream_map.end() && !find->second->is_closed())
        {
            stream = find->second;
        }
        else
        {
            stream.reset(new RpcClientStream(""", """        if (find != _stream_map.end() && !find->second->is_closed())
        {
            stream = find->second;
        }
    }
    if (!stream)
    {
        {
            stream.reset(new RpcClientStream("""),
        (C, "            _stream_map[remote_endpoint] = stream;\n            create = true;\n", "            create = true;\n            ScopedLocker<FastLock> _(_stream_map_lock);\n            _stream_map[remote_endpoint] = stream;\n")],
 demo=r'''
static void ignore(RpcController* c, EchoReq* q, EchoRes* r) { delete c; delete q; delete r; }
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    RpcClient client;
    const int T = 8;
    for (int round = 0; round < 150; ++round) {
        int port = 0, ls = tcp_listen(&port);
        char a[64]; sprintf(a, "127.0.0.1:%d", port);
        RpcChannel ch(&client, a);
        std::atomic<int> ready(0); std::vector<std::thread> ts;
        for (int t = 0; t < T; ++t) ts.emplace_back([&] {
            sofa::pbrpc::test::EchoServer_Stub stub(&ch);
            RpcController* c = new RpcController; c->SetTimeout(200); EchoReq* q = new EchoReq; q->set_message("x"); EchoRes* r = new EchoRes;
            google::protobuf::Closure* done = sofa::pbrpc::NewClosure(&ignore, c, q, r);
            ++ready; while (ready < T) {}
            stub.Echo(c, q, r, done);
        });
        for (auto& t : ts) t.join();
        int n = 0;
        for (;;) { pollfd p = { ls, POLLIN, 0 }; if (poll(&p, 1, 30) <= 0) break; ::accept(ls, 0, 0); ++n; }
        EXPECT(n == 1, "%d connections to one address", n);
        ::close(ls);
    }
    pass();
}
'''),
dict(id="l02-cleared-under-lock", property="L02",
 needs="a callback of a cleared timeout that uses the manager again",
 breaks="clear() runs the callbacks of the cleared timeouts with the lock of the manager held, so a callback that adds or erases a timeout waits for ever",
 edits=[(TM, """    EventVec cleared;
    {
        ScopedLocker<MutexLock> _(_timeouts_lock);
        if (!_timeouts.empty()) {
            IdIndex& by_id = _timeouts.get<BY_ID>();
            cleared.insert(cleared.end(), by_id.begin(), by_id.end());
            _timeouts.clear();
        }
    }
""", """    EventVec cleared;
    ScopedLocker<MutexLock> _(_timeouts_lock);
    if (!_timeouts.empty()) {
        IdIndex& by_id = _timeouts.get<BY_ID>();
        cleared.insert(cleared.end(), by_id.begin(), by_id.end());
        _timeouts.clear();
    }
""")],
 demo=r'''
static TimeoutManager* m; static std::atomic<int> cleared(0), again(0);
static void second(TimeoutManager::Id, TimeoutManager::Type t) { if (t == TimeoutManager::CLEARED) ++again; }
static void first(TimeoutManager::Id, TimeoutManager::Type t) {
    if (t != TimeoutManager::CLEARED) return;
    m->add(3600 * 1000, sofa::pbrpc::NewExtClosure(&second)); ++cleared;
}
int main() {
    m = new TimeoutManager;
    for (int i = 0; i < 3; ++i) m->add(3600 * 1000, sofa::pbrpc::NewExtClosure(&first));
    std::atomic<bool> over(false);
    std::thread t([&] { m->clear(); m->clear(); over = true; });
    EXPECT(wait_for([&] { return (bool)over; }, 8000), "clear() does not return");
    t.join();
    EXPECT(cleared == 3 && again == 3, "%d and %d cleared", (int)cleared, (int)again);
    pass();
}
'''),
dict(id="l02-channel-stop-order", property="L02",
 needs="the address provider of a channel removing or adding an address while the channel is being destroyed",
 breaks="Stop() of a channel with several servers takes its two locks in the opposite order of OnAddressAdded() and OnAddressRemoved(), so destroying the channel during an address change deadlocks",
 edits=[(D, "        ScopedLocker<LockType> _1(_add_remove_lock);\n        ScopedLocker<LockType> _2(_map_lock);\n        for (ServerContextMap::const_iterator it = _live_map.begin();\n                it != _live_map.end(); ++it) {\n            const ServerContextPtr& server = it->second;\n            if (server->is_channel_inited) {\n                server->channel->Stop();",
            "        ScopedLocker<LockType> _1(_map_lock);\n        ScopedLocker<LockType> _2(_add_remove_lock);\n        for (ServerContextMap::const_iterator it = _live_map.begin();\n                it != _live_map.end(); ++it) {\n            const ServerContextPtr& server = it->second;\n            if (server->is_channel_inited) {\n                server->channel->Stop();")],
 demo=r'''
struct Provider : RpcChannel::AddressProvider {
    std::mutex l; RpcChannel::EventHandler* h; Provider() : h(0) {}
    virtual void GetInitAddress(std::vector<std::string>* a) { a->push_back("127.0.0.1:1"); }
    virtual bool RegisterEventHandler(RpcChannel::EventHandler* e) { h = e; return true; }
};
int main() {
    SOFA_PBRPC_SET_LOG_LEVEL(FATAL);
    RpcClient client;
    std::atomic<int> rounds(0);
    std::thread worker([&] {
        for (int i = 0; i < 40; ++i) {
            Provider p; RpcChannel* ch = new RpcChannel(&client, &p); ch->Init();
            std::atomic<bool> stop(false), up(false);
            std::thread t([&] {
                std::vector<std::string> a; for (int k = 0; k < 50; ++k) { char b[64]; sprintf(b, "127.0.0.1:%d", 2 + k); a.push_back(b); }
                while (!stop) { p.h->OnAddressAdded(a); p.h->OnAddressRemoved(a); up = true; }
            });
            while (!up) usleep(100);
            delete ch;
            stop = true; t.join(); delete p.h; ++rounds;
        }
        rounds = 1000;
    });
    int last = -1;
    while (rounds < 1000) { EXPECT(wait_for([&] { return rounds != last; }, 15000), "destroying a channel does not end (after %d)", (int)rounds); last = rounds; }
    worker.join();
    pass();
}
'''),
]
