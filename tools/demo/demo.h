// shared by the demonstrations: an echo service, raw sockets, a bare stream on a loopback connection
#include <sofa/pbrpc/pbrpc.h>
#include <sofa/pbrpc/rpc_message_stream.h>
#include <sofa/pbrpc/rpc_server_message_stream.h>
#include <sofa/pbrpc/rpc_message_header.h>
#include <sofa/pbrpc/rpc_meta.pb.h>
#include <sofa/pbrpc/buffer.h>
#include "echo_service.pb.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <unistd.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <functional>
#include <thread>
#include <atomic>
#include <mutex>
#include <chrono>
namespace sp = sofa::pbrpc; using namespace sofa::pbrpc;
typedef sofa::pbrpc::test::EchoRequest EchoReq;
typedef sofa::pbrpc::test::EchoResponse EchoRes;

#define EXPECT(c, ...) do { if (!(c)) { fprintf(stderr, "FAILED: %s: ", #c); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); fflush(stderr); _exit(1); } } while (0)
static inline void pass() { fprintf(stderr, "PASSED\n"); fflush(stderr); _exit(0); }
static inline void msleep(int ms) { usleep(ms * 1000); }
static inline bool wait_for(std::function<bool()> f, int ms) {
    for (int i = 0; i < ms / 5; ++i) { if (f()) return true; usleep(5000); }
    return f();
}
static inline int free_port() {
    int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a);
    a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bind(s, (sockaddr*)&a, sizeof a);
    socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); ::close(s); return ntohs(a.sin_port);
}
static inline int tcp_listen(int* port, int rcvbuf = 0) {
    int s = socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    if (rcvbuf) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(*port); if (bind(s, (sockaddr*)&a, sizeof a)) { perror("bind"); _exit(2); }
    ::listen(s, 64); socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); *port = ntohs(a.sin_port); return s;
}
static inline int tcp_connect(int port, int rcvbuf = 0) {
    for (int i = 0; i < 200; ++i) {
        int s = socket(AF_INET, SOCK_STREAM, 0);
        if (rcvbuf) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
        sockaddr_in a; memset(&a, 0, sizeof a);
        a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
        if (connect(s, (sockaddr*)&a, sizeof a) == 0) return s;
        ::close(s); usleep(20000);
    }
    return -1;
}
static inline bool send_all(int s, const std::string& d) {
    size_t o = 0; while (o < d.size()) { ssize_t n = ::send(s, d.data() + o, d.size() - o, MSG_NOSIGNAL); if (n <= 0) return false; o += n; } return true;
}
// 1: n bytes read, 0: end or error, -1: nothing more within ms
static inline int recv_n(int s, size_t n, std::string* out, int ms) {
    out->clear();
    while (out->size() < n) {
        pollfd p = { s, POLLIN, 0 }; if (poll(&p, 1, ms) <= 0) return -1;
        char b[65536]; ssize_t r = ::recv(s, b, std::min(sizeof b, n - out->size()), 0); if (r <= 0) return 0;
        out->append(b, r);
    }
    return 1;
}
static inline std::string frame(const RpcMeta& m, const std::string& data) {
    std::string meta = m.SerializeAsString(); RpcMessageHeader h;
    h.meta_size = meta.size(); h.data_size = data.size(); h.message_size = meta.size() + data.size();
    return std::string((const char*)&h, sizeof h) + meta + data;
}
static inline std::string echo_frame(uint64_t id, const std::string& text) {
    RpcMeta m; m.set_type(RpcMeta::REQUEST); m.set_sequence_id(id); m.set_method("sofa.pbrpc.test.EchoServer.Echo");
    EchoReq r; r.set_message(text); return frame(m, r.SerializeAsString());
}
static inline std::string response_frame(uint64_t id, const std::string& text) {
    RpcMeta m; m.set_type(RpcMeta::RESPONSE); m.set_sequence_id(id); m.set_failed(false);
    EchoRes r; r.set_message(text); return frame(m, r.SerializeAsString());
}
// reads one frame; 1 ok, 0 end, -1 timeout
static inline int read_frame(int s, RpcMeta* m, std::string* data, int ms) {
    std::string b; int r = recv_n(s, sizeof(RpcMessageHeader), &b, ms); if (r != 1) return r;
    RpcMessageHeader h; memcpy(&h, b.data(), sizeof h);
    EXPECT(h.CheckMagicString(), "frame without magic string");
    EXPECT(h.meta_size >= 0 && h.data_size >= 0 && h.meta_size + h.data_size == h.message_size, "frame sizes disagree");
    r = recv_n(s, h.meta_size, &b, ms); if (r != 1 && h.meta_size) return r;
    EXPECT(m->ParseFromString(b), "meta does not parse");
    if (h.data_size == 0) { data->clear(); return 1; }
    return recv_n(s, h.data_size, data, ms);
}
class EchoImpl : public sofa::pbrpc::test::EchoServer {
public:
    std::atomic<int> calls; std::function<void(const EchoReq*, EchoRes*, RpcController*, google::protobuf::Closure*)> fn;
    EchoImpl() : calls(0) {}
    virtual void Echo(google::protobuf::RpcController* c, const EchoReq* q, EchoRes* r, google::protobuf::Closure* d) {
        ++calls; if (fn) { fn(q, r, static_cast<RpcController*>(c), d); return; }
        r->set_message(q->message()); d->Run();
    }
};
// io_service with one thread
struct Io {
    boost::asio::io_service io; boost::asio::io_service::work work; std::thread t;
    Io() : work(io), t([this] { io.run(); }) {}
};
// a bare message stream of int cookies
typedef RpcMessageStream<int> BareBase;
class Bare : public BareBase {
public:
    std::atomic<int> sent, failed, received, closed; std::function<bool(int)> sending; std::function<void(int)> on_sent_; std::function<void(int, int)> on_failed_;
    std::mutex mu; std::vector<std::string> got;
    Bare(boost::asio::io_service& io, const RpcEndpoint& e) : BareBase(ROLE_TYPE_CLIENT, io, e), sent(0), failed(0), received(0), closed(0) {
        set_flow_controller(FlowControllerPtr(new FlowController(true, 0, true, 0)));
        set_max_pending_buffer_size(1 << 30);
    }
    virtual void on_closed() { ++closed; }
    virtual bool on_sending(const ReadBufferPtr&, const int& c) { return sending ? sending(c) : true; }
    virtual void on_sent(const ReadBufferPtr&, const int& c) { ++sent; if (on_sent_) on_sent_(c); }
    virtual void on_send_failed(RpcErrorCode e, const ReadBufferPtr&, const int& c) { ++failed; if (on_failed_) on_failed_(e, c); }
    virtual void on_received(const ReadBufferPtr& m, int, int64) {
        std::string s; const void* d; int n; while (m->Next(&d, &n)) s.append((const char*)d, n);
        { std::lock_guard<std::mutex> g(mu); got.push_back(s); } ++received;
    }
};
static inline RpcEndpoint loopback(int port) { RpcEndpoint e; ResolveAddress(*new boost::asio::io_service, "127.0.0.1", &e); e = RpcEndpoint(boost::asio::ip::address_v4::loopback(), port); return e; }
static inline ReadBufferPtr buffer_of(const std::string& s) {
    WriteBuffer w; w.Append(s); ReadBufferPtr r(new ReadBuffer()); w.SwapOut(r.get()); return r;
}
static inline ReadBufferPtr message_of(const std::string& payload) {
    RpcMessageHeader h; h.meta_size = 0; h.data_size = payload.size(); h.message_size = payload.size();
    return buffer_of(std::string((const char*)&h, sizeof h) + payload);
}
