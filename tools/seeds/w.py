MS, HP, J, K, BU, TB, BS, G = "rpc_message_stream.h", "http_rpc_request_parser.cc", "pbjson.cc", "block_wrappers.cc", "buffer.cc", "tran_buf_pool.h", "rpc_byte_stream.h", "gzip_stream.cc"
SERVER = r'''
struct Server { int port; RpcServer* s; EchoImpl* e;
    Server(RpcServerOptions o = RpcServerOptions()) { port = free_port(); s = new RpcServer(o); e = new EchoImpl; s->RegisterService(e); }
    void start() { char a[64]; sprintf(a, "127.0.0.1:%d", port); EXPECT(s->Start(a), "start"); } };
'''
DYN = r'''
#include <sofa/pbrpc/pbjson.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/text_format.h>
using namespace google::protobuf;
static Message* make(const char* fields) {
    FileDescriptorProto* f = new FileDescriptorProto; std::string t = std::string("name: 'x.proto' package: 'x' message_type { name: 'M' ") + fields + " }";
    EXPECT(TextFormat::ParseFromString(t, f), "descriptor"); DescriptorPool* p = new DescriptorPool; const FileDescriptor* d = p->BuildFile(*f);
    return (new DynamicMessageFactory)->GetPrototype(d->message_type(0))->New(); }
'''
SEEDS = [
dict(id="w01-header-restarts", property="W01",
 needs="a response whose 24 byte header arrives in more than one piece",
 breaks="every piece of a header is copied to its start, so a header that is split between two reads is garbage and the connection is given up",
 edits=[(MS, "memcpy(reinterpret_cast<char*>(&_receiving_header) + _received_header_size,\n                data, copy_size);", "memcpy(reinterpret_cast<char*>(&_receiving_header),\n                data, copy_size);")],
 demo=r'''
int main() {
    signal(SIGPIPE, SIG_IGN); int port = 0, ls = tcp_listen(&port);
    std::thread srv([&] { int fd = ::accept(ls, 0, 0), one = 1; setsockopt(fd, IPPROTO_TCP, 1, &one, sizeof one); RpcMeta m; std::string d; int cut = 1;
        while (read_frame(fd, &m, &d, 10000) == 1) { std::string f = response_frame(m.sequence_id(), "hello");
            send_all(fd, f.substr(0, cut)); msleep(60); send_all(fd, f.substr(cut)); cut += 6; } });
    srv.detach();
    RpcClient client; char a[64]; sprintf(a, "127.0.0.1:%d", port); RpcChannel ch(&client, a); sofa::pbrpc::test::EchoServer_Stub stub(&ch);
    for (int i = 0; i < 7; ++i) { RpcController c; c.SetTimeout(4000); EchoReq q; EchoRes r; q.set_message("x"); stub.Echo(&c, &q, &r, NULL);
        EXPECT(!c.Failed() && r.message() == "hello", "round %d: %s", i, c.ErrorText().c_str()); }
    pass();
}
'''),
dict(id="w01-length-with-rest", property="W01",
 needs="an HTTP request whose Content-Length is a number followed by something else, such as two lengths in one header line",
 breaks="a content length with anything behind the number is taken as that number, so the reader and whoever sits in front of it disagree where the request ends",
 edits=[(HP, "|| *endptr != '\\0' || _content_length < 0)", "|| _content_length < 0)")],
 demo=SERVER + r'''
int main() {
    signal(SIGPIPE, SIG_IGN); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); Server v; v.start(); std::string b;
    const char* bad[] = { "15, 2", "15x", "1 5", "15;" };
    for (int i = 0; i < 4; ++i) {
        int s = tcp_connect(v.port);
        send_all(s, std::string("POST /sofa.pbrpc.test.EchoServer.Echo HTTP/1.1\r\nContent-Length: ") + bad[i] + "\r\n\r\n{\"message\":\"x\"}");
        EXPECT(recv_n(s, 1, &b, 3000) != 1 && v.e->calls == 0, "a request of length '%s' was processed", bad[i]); ::close(s);
    }
    int s = tcp_connect(v.port); send_all(s, "POST /sofa.pbrpc.test.EchoServer.Echo HTTP/1.1\r\nContent-Length: 15\r\n\r\n{\"message\":\"x\"}");
    EXPECT(recv_n(s, 12, &b, 3000) == 1 && v.e->calls == 1, "good request"); pass();
}
'''),
dict(id="w03-string-to-nul", property="W03",
 needs="a JSON string with an escaped NUL in it",
 breaks="a string value is taken up to its first NUL only",
 edits=[(J, "std::string str_value(value, str_size);", "std::string str_value(value);")],
 demo=DYN + r'''
int main() {
    Message* m = make("field { name: 's' number: 1 type: TYPE_STRING label: LABEL_OPTIONAL } field { name: 'r' number: 2 type: TYPE_STRING label: LABEL_REPEATED }"); std::string err;
    EXPECT(sofa::pbrpc::json2pb("{\"s\":\"a\\u0000b\",\"r\":[\"\\u0000\",\"c\"]}", m, err) == 0, "%s", err.c_str());
    const Reflection* r = m->GetReflection(); const Descriptor* d = m->GetDescriptor();
    EXPECT(r->GetString(*m, d->field(0)) == std::string("a\0b", 3), "value cut"); EXPECT(r->GetRepeatedString(*m, d->field(1), 0) == std::string("\0", 1), "element cut");
    pass();
}
'''),
dict(id="w03-repeated-uint64", property="W03",
 needs="a repeated 64 bit field with an element beyond 32 bits",
 breaks="the elements of a repeated uint64 field pass a 32 bit variable on their way into the JSON text",
 edits=[(J, "uint64_t value = ref->GetRepeatedUInt64(*msg, field, i);", "uint32_t value = ref->GetRepeatedUInt64(*msg, field, i);")],
 demo=DYN + r'''
int main() {
    Message* m = make("field { name: 'r' number: 1 type: TYPE_UINT64 label: LABEL_REPEATED } field { name: 'i' number: 2 type: TYPE_INT64 label: LABEL_REPEATED }");
    const Reflection* r = m->GetReflection(); const Descriptor* d = m->GetDescriptor();
    for (int i = 0; i < 64; ++i) { r->AddUInt64(m, d->field(0), 1ULL << i); r->AddInt64(m, d->field(1), -(1LL << i / 2)); }
    std::string text, err; sofa::pbrpc::pb2json(m, text); Message* n = m->New();
    EXPECT(sofa::pbrpc::json2pb(text, n, err) == 0, "%s", err.c_str());
    EXPECT(n->SerializeAsString() == m->SerializeAsString(), "another message came back"); pass();
}
'''),
dict(id="w04-skip-of-capacity", property="W04",
 needs="a reader that gives part of a block back, in a block smaller than an earlier one",
 breaks="what is read again after bytes were given back is found by the capacity of the buffer instead of the size of the block: with a block that does not fill the buffer the reader gets bytes that are no part of the message",
 edits=[(K, "        size_t skip = _output_buffer_size - _backed_up_bytes;", "        size_t skip = _output_buffer_capacity - _backed_up_bytes;")],
 demo=r'''
#include <sofa/pbrpc/compressed_stream.h>
int main() {
    for (int t = 1; t <= 4; ++t) for (int step = 1; step < 5000; step += 777) {
        std::string text; unsigned x = 1; for (int i = 0; i < 150000; ++i) { x = x * 1103515245u + 12345u; text += (char)('a' + (x >> 16) % 13); }
        WriteBuffer w; AbstractCompressedOutputStream* o = get_compressed_output_stream(&w, (CompressType)t); size_t at = 0; void* p; int n;
        while (at < text.size()) { EXPECT(o->Next(&p, &n), "next"); int k = std::min<size_t>(n, text.size() - at); memcpy(p, text.data() + at, k); at += k; if (k < n) o->BackUp(n - k); }
        o->Flush(); delete o; ReadBuffer r; w.SwapOut(&r);
        AbstractCompressedInputStream* in = get_compressed_input_stream(&r, (CompressType)t); std::string got; const void* q;
        while (in->Next(&q, &n)) { if (n > step) { got.append((const char*)q, n - step); in->BackUp(step); EXPECT(in->Next(&q, &n), "next after back up"); } got.append((const char*)q, n); }
        EXPECT(got == text, "type %d step %d: other data came back", t, step); delete in;
    }
    pass();
}
'''),
dict(id="w04-finish-keeps-block", property="W04",
 needs="a message compressed with gzip or zlib that is followed by anything else in the same buffer, or whose length is taken from the buffer",
 breaks="the last block is not given back to the buffer when the compressed data ends: the rest of the block counts as data",
 edits=[(G, "  if ((flush == Z_FULL_FLUSH) || (flush == Z_FINISH)) {\n    // Notify lower layer of data.\n    sub_stream_->BackUp(zcontext_.avail_out);", "  if (flush == Z_FULL_FLUSH) {\n    // Notify lower layer of data.\n    sub_stream_->BackUp(zcontext_.avail_out);")],
 demo=r'''
#include <sofa/pbrpc/compressed_stream.h>
#include <zlib.h>
int main() {
    for (int t = 1; t <= 2; ++t) for (int len = 0; len < 200000; len = len * 3 + 1) {
        std::string text(len, 'x'); WriteBuffer w; AbstractCompressedOutputStream* o = get_compressed_output_stream(&w, (CompressType)t); EchoReq q; q.set_message(text);
        EXPECT(q.SerializeToZeroCopyStream(o), "serialize"); o->Flush(); delete o; ReadBuffer r; w.SwapOut(&r); std::string all = r.ToString();
        z_stream z; memset(&z, 0, sizeof z); inflateInit2(&z, 15 + 32); z.next_in = (Bytef*)all.data(); z.avail_in = all.size(); std::string out(len + 100, 0); z.next_out = (Bytef*)out.data(); z.avail_out = out.size();
        EXPECT(inflate(&z, Z_FINISH) == Z_STREAM_END, "type %d: not a complete stream", t); EXPECT(z.avail_in == 0, "type %d, length %d: %d bytes follow the compressed data", t, len, (int)z.avail_in);
    }
    pass();
}
'''),
dict(id="w05-peer-gone-at-accept", property="W05",
 needs="a peer that resets its connection between the handshake and the moment the server accepts it",
 breaks="the address of the peer is asked for in the form that throws, and the exception leaves an io thread: the server process ends",
 edits=[(BS, "_remote_endpoint = _socket.remote_endpoint(ec);", "_remote_endpoint = _socket.remote_endpoint();")],
 demo=SERVER + r'''
int main() {
    signal(SIGPIPE, SIG_IGN); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); RpcServerOptions o; o.work_thread_num = 1; Server v(o); v.start();
    sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(v.port);
    std::vector<std::thread> ts; for (int k = 0; k < 6; ++k) ts.push_back(std::thread([&] { for (int i = 0; i < 3000; ++i) {
        int s = socket(AF_INET, SOCK_STREAM, 0); linger l = { 1, 0 }; connect(s, (sockaddr*)&a, sizeof a); setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(s); } }));
    for (auto& t : ts) t.join();
    int s = tcp_connect(v.port); send_all(s, echo_frame(1, "x")); RpcMeta r; std::string d; EXPECT(read_frame(s, &r, &d, 10000) == 1, "no answer"); pass();
}
'''),
dict(id="w05-peer-gone-at-close", property="W05",
 needs="a peer that resets its connection, which the server then closes",
 breaks="the socket is shut down in the form that throws when the peer is gone already: the exception leaves an io thread and the process ends",
 edits=[(BS, "_socket.shutdown(tcp::socket::shutdown_both, ec)", "_socket.shutdown(tcp::socket::shutdown_both)")],
 demo=SERVER + r'''
int main() {
    signal(SIGPIPE, SIG_IGN); SOFA_PBRPC_SET_LOG_LEVEL(FATAL); Server v; v.start(); RpcMeta r; std::string d;
    for (int i = 0; i < 50; ++i) { int s = tcp_connect(v.port); send_all(s, echo_frame(1, "x")); EXPECT(read_frame(s, &r, &d, 5000) == 1, "no answer");
        linger l = { 1, 0 }; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(s); }
    msleep(300); int s = tcp_connect(v.port); send_all(s, echo_frame(1, "x")); EXPECT(read_frame(s, &r, &d, 5000) == 1, "no answer"); pass();
}
'''),
dict(id="w06-count-of-partly-read", property="W06",
 needs="a received buffer that has been read in part when it is appended to another one",
 breaks="the number of bytes of the result leaves out what had been read, although the result holds all of it",
 edits=[(BU, "    _total_bytes += read_buffer->_total_bytes;\n", "    _total_bytes += read_buffer->_total_bytes - read_buffer->_read_bytes;\n")],
 demo=r"""
int main() {
    WriteBuffer w; w.Append(std::string(5000, 'a')); ReadBuffer r; w.SwapOut(&r); const void* p; int n; EXPECT(r.Next(&p, &n), "next"); r.BackUp(n / 2);
    ReadBuffer all; all.Append(&r); int64 sum = 0; while (all.Next(&p, &n)) sum += n;
    EXPECT(sum == 5000 && all.TotalCount() == sum, "%d bytes counted, %d there", (int)all.TotalCount(), (int)sum); pass();
}
"""),
dict(id="w06-plain-add-ref", property="W06",
 needs="one block of received data that holds parts of several messages, which different threads process and drop while the reading thread goes on sharing the block",
 breaks="a reference to a block is added with a plain increment while others drop theirs atomically: a lost update frees the block while a message still uses it, or never",
 edits=[(TB, "        sofa::pbrpc::atomic_inc(reinterpret_cast<int*>(p) - 1);", "        ++*(reinterpret_cast<int*>(p) - 1);")],
 demo=r"""
#include <sofa/pbrpc/tran_buf_pool.h>
int main() {
    char* b = (char*)TranBufPool::malloc(1); EXPECT(b, "malloc"); for (int i = 0; i < 4; ++i) TranBufPool::add_ref(b);
    int start = *((int*)b - 1); std::vector<std::thread> ts; std::atomic<int> go(0);
    for (int t = 0; t < 4; ++t) ts.push_back(std::thread([&] { ++go; while (go < 4) {} for (int i = 0; i < 2000000; ++i) { 
        TranBufPool::add_ref(b); TranBufPool::free(b); int n = *(volatile int*)((int*)b - 1); if (n > 1000 || n < 3) break; } }));
    for (auto& t : ts) t.join();
    EXPECT(*((int*)b - 1) == start, "%d references instead of %d", *((int*)b - 1), start); pass();
}
"""),
]
