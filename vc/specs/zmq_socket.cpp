//@ opt send cut=1
//@ opt receive cut=1
//@ opt send_parts cut=1 cut_outer=1
//@ opt receive_parts cut=1 cut_outer=1
//@ bound send_parts at most 3 parts per message
//@ bound receive_parts at most 3 parts per message (and at most one part already in the container)
//@ assume C15 libzmq behaves as the ghost contracts in zmqworld.h; in particular multi-part messages are accepted and delivered as a whole
// C15: transfers over a zeromq socket: what is handed over, what it returns, who owns the buffer afterwards.
#include <vcstd.h>
#include <zmqworld.h>
#include <fairmq/Transports.h>
#include <fairmq/zeromq/Context.h>
#include <fairmq/zeromq/UnmanagedRegion.h>
#include <fairmq/zeromq/Message.h>
#include <fairmq/zeromq/Socket.h>
using fair::mq::Alignment; using namespace fair::mq::zmq; using fair::mq::TransferCode; using fair::mq::MessagePtr; using fair::mq::Parts;
namespace {
int nextSock = 1; int sndto = 0, rcvto = 0, subscribed = 0, closed = 0; void* lastClosed[4];
Context* gCtx;
}
extern "C" {
void* zmq_ctx_new() { return vc_malloc(8); } int zmq_ctx_set(void*, int, int) { return 0; } int zmq_ctx_term(void*) { return 0; }
void* zmq_socket(void*, int) { return reinterpret_cast<void*>(uintptr_t(0x1000 + nextSock++)); }
int zmq_close(void* s) { lastClosed[closed++ & 3] = s; return 0; }
int zmq_setsockopt(void*, int o, const void* v, size_t n) { if (n == sizeof(int) && o == ZMQ_SNDTIMEO) sndto = *static_cast<const int*>(v); if (n == sizeof(int) && o == ZMQ_RCVTIMEO) rcvto = *static_cast<const int*>(v); if (o == ZMQ_SUBSCRIBE) subscribed += (n == 0 ? 1 : 100); return 0; }
int zmq_getsockopt(void* s, int o, void* v, size_t* n)
{
    if (o == ZMQ_RCVMORE) { vc_assert(s == zw::lastSocket && *n == sizeof(int), "asked on the receiving socket"); *static_cast<int*>(v) = zw::posIn < zw::nIn; }
    return 0;
}
int zmq_socket_monitor(void*, const char*, int) { return 0; }
int zmq_connect(void*, const char*) { return 0; }
int zmq_bind(void*, const char*) { return 0; }
}
static Socket* mkSocket(const char* type = "push")
{
    zw::reset();
    gCtx = new Context(1);
    Socket* s = new Socket(*gCtx, type, "data", "dev");
    vc_assert(sndto == 100 && rcvto == 100 && s->fTimeout == 100, "libzmq returns from an attempt after 100 ms");
    s->fBytesTx = vc_in("bytes_tx", 0, uint64_t(1) << 50); s->fBytesRx = vc_in("bytes_rx", 0, uint64_t(1) << 50);
    s->fMessagesTx = vc_in("msgs_tx", 0, uint64_t(1) << 50); s->fMessagesRx = vc_in("msgs_rx", 0, uint64_t(1) << 50);
    return s;
}
static long gTimeout; static unsigned long lim() { return static_cast<unsigned long>(gTimeout); } static int gMode; static int waitFlags;
static void failStep()
{
    if (vc_bool("interrupt")) gCtx->Interrupt();
    waitFlags = zw::lastFlags;
    zw::mustStop = gCtx->Interrupted() || (zw::failErr != EAGAIN && zw::failErr != EINTR) || gMode == 0 || (gMode == 1 && zw::waited >= lim());
}
static bool budgetInv() { return gMode != 1 || zw::waited < lim(); }
static bool goInv() { return !zw::mustStop; }
static int arbitraryTimeout()
{
    gMode = vc_choice("timeout_kind", 3);
    gTimeout = gMode == 0 ? 0 : gMode == 1 ? long(vc_in("timeout", 1, 1 << 30)) : -long(vc_in("negative_timeout", 1, 1 << 30));
    zw::onFail = failStep;
    if (vc_bool("interrupted_before")) gCtx->Interrupt();
    vc_inv(budgetInv, "time budget left"); vc_inv(goInv, "transfer may go on");
    return int(gTimeout);
}
static void failedTransfer(int64_t r)
{
    vc_assert(zw::failed, "a transfer fails only if libzmq failed");
    vc_assert((waitFlags & ZMQ_DONTWAIT) == (gMode == 0 ? ZMQ_DONTWAIT : 0), "only a transfer with timeout 0 is non-blocking");
    bool retryable = zw::failErr == EAGAIN || zw::failErr == EINTR;
    if (!retryable) vc_assert(r == int64_t(TransferCode::error), "other failures are reported as error");
    else if (gCtx->Interrupted()) vc_assert(r == int64_t(TransferCode::interrupted), "an interrupted transfer reports interrupted");
    else {
        vc_assert(r == int64_t(TransferCode::timeout), "a transfer that ran out of time reports timeout");
        vc_assert(gMode != 2, "a transfer without time limit never times out");
        if (gMode == 0) vc_assert(zw::attempts == 1, "timeout 0 tries once");
        else vc_assert(zw::waited >= lim() && zw::waited - 100 < lim(), "the time limit is used up, and not exceeded by a socket timeout");
    }
}
struct Snap { size_t bt, br, mt, mr; explicit Snap(Socket& s) : bt(s.GetBytesTx()), br(s.GetBytesRx()), mt(s.GetMessagesTx()), mr(s.GetMessagesRx()) {}
    bool same(Socket& s, size_t dbt, size_t dmt, size_t dbr, size_t dmr) { return s.GetBytesTx() == bt + dbt && s.GetMessagesTx() == mt + dmt && s.GetBytesRx() == br + dbr && s.GetMessagesRx() == mr + dmr; } };
static size_t anySize(const char* n) { return vc_bool("empty") ? 0 : vc_in(n, 1, size_t(1) << 40); }
static zw::Buf* bufOf(MessagePtr& m) { return zw::M(static_cast<Message*>(m.get())->fMsg.get())->b; }
VC_PROOF(C15, send)
{
    Socket* s = mkSocket(); Snap c(*s);
    size_t n = anySize("size"); Message* m = new Message(n); MessagePtr p(m); zw::Buf* b = bufOf(p);
    int t = arbitraryTimeout();
    int64_t r = s->Send(p, t);
    vc_assert(p.get() == m, "same message object");
    if (r >= 0) {
        vc_cover("send:ok");
        vc_assert(r == int64_t(n), "send returns the size of the message");
        vc_assert(zw::nWire == 1 && zw::lastSocket == s->fSocket && !(zw::wireFlags[0] & ZMQ_SNDMORE), "exactly one complete message is handed over");
        vc_assert(zw::wire[0] == b, "the buffer of the message is handed over");
        vc_assert(c.same(*s, n, 1, 0, 0), "counters account for the message");
        vc_assert(m->GetSize() == 0, "the sender keeps an empty message");
    } else {
        vc_cover("send:failed"); failedTransfer(r);
        vc_assert(zw::nWire == 0 && bufOf(p) == b && m->GetSize() == n, "an unsent message still belongs to the sender");
        vc_assert(c.same(*s, 0, 0, 0, 0), "failures are not counted");
    }
    vc_exit_path();
}
VC_PROOF(C15, receive)
{
    Socket* s = mkSocket("pull"); Snap c(*s);
    size_t old = anySize("old_size"); size_t al = vc_choice("alignment", 3); al = al == 0 ? 0 : al == 1 ? 64 : 4096;
    Message* m = new Message(old, Alignment{al}); MessagePtr p(m);
    size_t n = anySize("size"); char* d = static_cast<char*>(vc_malloc(n ? n : 1)); size_t i = 0; char v = 0; if (n) { i = vc_in("i", 0, n - 1); d[i] = v = vc_u8("byte"); }
    zw::in[0] = {d, n}; zw::nIn = 1;
    int t = arbitraryTimeout();
    int64_t r = s->Receive(p, t);
    vc_assert(p.get() == m, "same message object");
    if (r >= 0) {
        vc_cover("receive:ok");
        vc_assert(r == int64_t(n) && m->GetSize() == n, "receive returns the size of the message");
        if (n) { vc_assert(static_cast<char*>(m->GetData())[i] == v, "the bytes that were sent arrive"); if (al) vc_assert(reinterpret_cast<uintptr_t>(m->GetData()) % al == 0, "the message has the alignment it was created with"); }
        vc_assert(c.same(*s, 0, 0, n, 1), "counters account for the message");
        vc_assert(zw::liveMsgs == 1 && zw::liveBufs == (n ? 1 : 0), "the old buffer is released");
    } else {
        vc_cover("receive:failed"); failedTransfer(r);
        vc_assert(m->GetSize() == old && c.same(*s, 0, 0, 0, 0), "a failed receive changes nothing");
    }
    vc_exit_path();
}
VC_PROOF(C15, send_parts)
{
    Socket* s = mkSocket(); Snap c(*s);
    uint32_t n = vc_choice("n", 4); Parts::container v; v.reserve(3); size_t total = 0; zw::Buf* b[3]; size_t size[3]; fair::mq::Message* m[3];
    for (uint32_t i = 0; i < n; ++i) { size[i] = anySize("size"); total += size[i]; m[i] = new Message(size[i]); v.push_back(MessagePtr(m[i])); b[i] = bufOf(v[i]); }
    int t = arbitraryTimeout();
    int64_t r = s->Send(v, t);
    vc_assert(v.size() == n, "the container keeps its parts");
    for (uint32_t i = 0; i < n; ++i) vc_assert(v[i].get() == m[i], "same message objects");
    if (n == 0) { vc_assert(r == int64_t(TransferCode::error) && zw::attempts == 0, "sending no parts is an error"); vc_cover("send_parts:none"); }
    if (r >= 0) {
        vc_cover("send_parts:ok");
        vc_assert(r == int64_t(total), "send returns the sum of the part sizes");
        vc_assert(uint32_t(zw::nWire) == n && zw::lastSocket == s->fSocket, "all parts are handed over once");
        for (uint32_t i = 0; i < n; ++i) {
            vc_assert(zw::wire[i] == b[i], "the parts are handed over in order");
            vc_assert(((zw::wireFlags[i] & ZMQ_SNDMORE) != 0) == (i + 1 < n), "the parts travel as one message");
            vc_assert(((zw::wireFlags[i] & ZMQ_DONTWAIT) != 0) == (gMode == 0), "only a transfer with timeout 0 is non-blocking");
        }
        vc_assert(c.same(*s, total, 1, 0, 0), "a multi-part message counts once, with all its bytes");
    } else {
        if (n) { failedTransfer(r); vc_cover("send_parts:failed"); }
        vc_assert(zw::nWire == 0, "nothing of a failed message is handed over");
        for (uint32_t i = 0; i < n; ++i) vc_assert(bufOf(v[i]) == b[i] && v[i]->GetSize() == size[i], "unsent parts still belong to the sender");
        vc_assert(c.same(*s, 0, 0, 0, 0), "failures are not counted");
    }
    vc_exit_path();
}
VC_PROOF(C15, receive_parts)
{
    Socket* s = mkSocket("pull"); Snap c(*s);
    uint32_t n = 1 + vc_choice("n", 3), old = vc_choice("parts_before", 2); size_t total = 0; Parts::container v; Message* o = nullptr;
    if (old) { o = new Message(7); v.push_back(MessagePtr(o)); }
    char* d[3]; size_t size[3];
    for (uint32_t i = 0; i < n; ++i) { size[i] = anySize("size"); total += size[i]; d[i] = static_cast<char*>(vc_malloc(size[i] ? size[i] : 1)); zw::in[i] = {d[i], size[i]}; }
    zw::nIn = int(n);
    int t = arbitraryTimeout();
    int64_t r = s->Receive(v, t);
    if (old) vc_assert(v[0].get() == o && o->GetSize() == 7, "parts already in the container stay");
    if (r >= 0) {
        vc_cover("receive_parts:ok");
        vc_assert(v.size() == old + n && zw::posIn == int(n), "as many parts as were sent");
        for (uint32_t i = 0; i < n; ++i) {
            vc_assert(v[old + i]->GetSize() == size[i] && (size[i] == 0 || v[old + i]->GetData() == d[i]), "the parts arrive complete and in order");
            vc_assert(v[old + i]->GetTransport() == s->GetTransport(), "the parts belong to the transport of the socket");
        }
        vc_assert(r == int64_t(total), "receive returns the sum of the part sizes");
        vc_assert(c.same(*s, 0, 0, total, 1), "a multi-part message counts once, with all its bytes");
        vc_assert(zw::liveMsgs == int(n + old), "transport resources released");
    } else {
        vc_cover("receive_parts:failed"); failedTransfer(r);
        vc_assert(v.size() == old && c.same(*s, 0, 0, 0, 0) && zw::posIn == 0, "a failed receive adds nothing");
        vc_assert(zw::liveMsgs == int(old), "transport resources released");
    }
    vc_exit_path();
}
// a socket owns its two libzmq sockets and closes each once
VC_PROOF(C15, lifetime)
{
    bool sub = vc_bool("sub"); subscribed = 0; Socket* s = mkSocket(sub ? "sub" : "pub");
    vc_assert(subscribed == (sub ? 1 : 0), "a subscriber receives everything");
    void *a = s->fSocket, *b = s->fMonitorSocket; vc_assert(a && b && a != b && closed == 0, "open");
    if (vc_bool("close")) { s->Close(); vc_assert(closed == 2, "closed"); }
    if (vc_bool("close_again")) { s->Close(); vc_assert(closed == 2, "closed once"); }
    delete s;
    vc_assert(closed == 2 && ((lastClosed[0] == a && lastClosed[1] == b) || (lastClosed[0] == b && lastClosed[1] == a)), "both sockets are closed exactly once"); vc_cover("lifetime:done");
    vc_exit_path();
}
