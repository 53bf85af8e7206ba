//@ cxxflags -I/verif/vc/stubs_shm
//@ opt send cut=1
//@ opt receive cut=1
//@ assume C06 libzmq behaves as the ghost contracts in zmqworld.h; Boost.Interprocess as stubs_shm/vcboost.h
// C06: transfers over a shmem socket: what is handed over, what it returns, who owns the buffer afterwards.
#include <shmmsgs.h>
#include <zmqworld.h>
#define private public
#include <fairmq/shmem/Socket.h>
#undef private
using fair::mq::SocketError; using fair::mq::TransferCode; using fair::mq::MessagePtr; using fair::mq::Parts;
namespace {
int nextSock = 1; void *ctxObj = &nextSock; int closed = 0; int linger = 0, sndto = 0, rcvto = 0;
Manager* gMgr; bool gFlag = false;
}
extern "C" {
void* zmq_socket(void* c, int) { vc_assert(c == ctxObj, "socket created in the given context"); return reinterpret_cast<void*>(uintptr_t(0x1000 + nextSock++)); }
int zmq_close(void*) { ++closed; return 0; }
int zmq_setsockopt(void*, int o, const void* v, size_t n) { if (n == sizeof(int) && o == ZMQ_LINGER) linger = *static_cast<const int*>(v); if (o == ZMQ_SNDTIMEO) sndto = *static_cast<const int*>(v); if (o == ZMQ_RCVTIMEO) rcvto = *static_cast<const int*>(v); return 0; }
int zmq_getsockopt(void*, int, void*, size_t*) { return 0; }
int zmq_socket_monitor(void*, const char*, int) { return 0; }
int zmq_connect(void*, const char*) { return 0; }
int zmq_bind(void*, const char*) { return 0; }
}
static Socket* mkSocket(ShmW& w)
{
    zw::reset(); gMgr = &w.mgr; gFlag = false;
    Socket* s = new Socket(w.mgr, "push", "data", "dev", ctxObj);
    vc_assert(sndto == 100 && rcvto == 100 && s->fTimeout == 100, "libzmq returns from an attempt after 100 ms");
    s->fBytesTx = vc_in("bytes_tx", 0, uint64_t(1) << 50); s->fBytesRx = vc_in("bytes_rx", 0, uint64_t(1) << 50);
    s->fMessagesTx = vc_in("msgs_tx", 0, uint64_t(1) << 50); s->fMessagesRx = vc_in("msgs_rx", 0, uint64_t(1) << 50);
    s->fMetadataMsgSize = vc_in("metadata_msg_size", 0, 4096);
    return s;
}
// ---- the way every transfer may end
static long gTimeout; static unsigned long lim() { return static_cast<unsigned long>(gTimeout); } static int gMode;
static void failStep()
{
    if (vc_bool("interrupt")) gMgr->fInterrupted.store(true);
    bool i = gMgr->fInterrupted.load();
    zw::mustStop = i || (zw::failErr != EAGAIN && zw::failErr != EINTR) || gMode == 0 || (gMode == 1 && zw::waited >= lim());
}
static bool budgetInv() { return gMode != 1 || zw::waited < lim(); }
static bool goInv() { return !zw::mustStop; }
static int arbitraryTimeout()
{
    gMode = vc_choice("timeout_kind", 3);
    gTimeout = gMode == 0 ? 0 : gMode == 1 ? long(vc_in("timeout", 1, 1 << 30)) : -long(vc_in("negative_timeout", 1, 1 << 30));
    zw::onFail = failStep;
    gMgr->fInterrupted.store(vc_bool("interrupted_before"));
    vc_inv(budgetInv, "time budget left"); vc_inv(goInv, "transfer may go on");
    return int(gTimeout);
}
static void failedTransfer(int64_t r)
{
    vc_assert(zw::failed, "a transfer fails only if libzmq failed");
    vc_assert(zw::lastFlags == (gMode == 0 ? ZMQ_DONTWAIT : 0), "only a transfer with timeout 0 is non-blocking");
    bool retryable = zw::failErr == EAGAIN || zw::failErr == EINTR;
    if (!retryable) vc_assert(r == int64_t(TransferCode::error), "other failures are reported as error");
    else if (gMgr->fInterrupted.load()) vc_assert(r == int64_t(TransferCode::interrupted), "an interrupted transfer reports interrupted");
    else {
        vc_assert(r == int64_t(TransferCode::timeout), "a transfer that ran out of time reports timeout");
        vc_assert(gMode != 2, "a transfer without time limit never times out");
        if (gMode == 0) vc_assert(zw::attempts == 1, "timeout 0 tries once");
        else vc_assert(zw::waited >= lim() && zw::waited - 100 < lim(), "the time limit is used up, and not exceeded by a socket timeout");
    }
}
struct Snap { size_t bt, br, mt, mr; explicit Snap(Socket& s) : bt(s.GetBytesTx()), br(s.GetBytesRx()), mt(s.GetMessagesTx()), mr(s.GetMessagesRx()) {} 
    bool same(Socket& s, size_t dbt, size_t dmt, size_t dbr, size_t dmr) { return s.GetBytesTx() == bt + dbt && s.GetMessagesTx() == mt + dmt && s.GetBytesRx() == br + dbr && s.GetMessagesRx() == mr + dmr; } };
static MetaHeader metaOf(const Message& m) { return MetaHeader{m.fSize, m.fHint, m.fHandle, m.fShared, m.fRegionId, m.fSegmentId, m.fManaged}; }
static bool eq(const MetaHeader& a, const MetaHeader& b) { return a.fSize == b.fSize && a.fHint == b.fHint && a.fHandle == b.fHandle && a.fShared == b.fShared && a.fRegionId == b.fRegionId && a.fSegmentId == b.fSegmentId && a.fManaged == b.fManaged; }
static void anyMeta(Message& m)
{
    m.fSize = vc_in("m_size", 0, size_t(1) << 50); m.fHint = vc_u64("m_hint"); m.fHandle = vc_i64("m_handle"); m.fShared = vc_i64("m_shared");
    m.fRegionId = vc_u16("m_region"); m.fSegmentId = vc_u16("m_segment"); m.fManaged = vc_bool("m_managed");
}
static MetaHeader anyHdr()
{
    MetaHeader h;
    h.fSize = vc_in("h_size", 0, size_t(1) << 50); h.fHint = vc_u64("h_hint"); h.fHandle = vc_i64("h_handle"); h.fShared = vc_i64("h_shared");
    h.fRegionId = vc_u16("h_region"); h.fSegmentId = vc_u16("h_segment"); h.fManaged = vc_bool("h_managed");
    return h;
}
VC_PROOF(C06, send)
{
    ShmW w; Socket* s = mkSocket(w); Snap c(*s);
    Message* m = new Message(w.mgr); MessagePtr p(m); anyMeta(*m); MetaHeader h = metaOf(*m);
    int t = arbitraryTimeout();
    int64_t r = s->Send(p, t);
    vc_assert(p.get() == m && eq(metaOf(*m), h), "sending leaves the message object as it was");
    if (r >= 0) {
        vc_cover("send:ok");
        vc_assert(r == int64_t(h.fSize), "send returns the size of the message");
        vc_assert(zw::nWire == 1 && zw::lastSocket == s->fSocket, "exactly one message is handed over");
        size_t need = sizeof(MetaHeader);
        vc_assert(zw::wire[0]->n == std::max(need, s->fMetadataMsgSize), "metadata is padded to the configured size");
        MetaHeader x; std::memcpy(&x, zw::wire[0]->d, sizeof(x));
        vc_assert(eq(x, h), "the metadata handed over describes the message");
        vc_assert(m->fQueued, "the buffer now belongs to the receiver");
        vc_assert(c.same(*s, h.fSize, 1, 0, 0), "counters account for the message");
        vc_assert(zw::liveMsgs == 0, "transport resources released");
    } else {
        vc_cover("send:failed");
        failedTransfer(r);
        vc_assert(zw::nWire == 0 && !m->fQueued, "an unsent message still belongs to the sender");
        vc_assert(c.same(*s, 0, 0, 0, 0), "failures are not counted");
        vc_assert(zw::liveMsgs == 0 && zw::liveBufs == 0, "transport resources released");
    }
    vc_exit_path();
}
VC_PROOF(C06, send_null)
{
    ShmW w; Socket* s = mkSocket(w); Snap c(*s); MessagePtr p;
    int t = arbitraryTimeout();
    vc_assert(s->Send(p, t) == int64_t(TransferCode::error) && zw::attempts == 0 && c.same(*s, 0, 0, 0, 0), "sending nothing is an error");
    vc_cover("send_null:done");
}
VC_PROOF(C06, receive)
{
    ShmW w; Socket* s = mkSocket(w); Snap c(*s);
    Message* m = new Message(w.mgr); MessagePtr p(m); MetaHeader before = metaOf(*m);
    MetaHeader h = anyHdr();
    size_t n = vc_in("frame_size", 1, 8192);
    char* frame = static_cast<char*>(vc_malloc(8192)); std::memcpy(frame, &h, sizeof(h));
    zw::in[0] = {frame, n}; zw::nIn = 1;
    int t = arbitraryTimeout();
    int64_t r; bool thrown = false;
    try { r = s->Receive(p, t); } catch (SocketError&) { thrown = true; }
    vc_assert(p.get() == m, "same message object");
    if (thrown) {
        vc_cover("receive:invalid");
        vc_assert(n < sizeof(h), "a complete metadata message is accepted");
        vc_assert(eq(metaOf(*m), before) && c.same(*s, 0, 0, 0, 0), "an invalid message changes nothing");
    } else if (r >= 0) {
        vc_cover("receive:ok");
        vc_assert(n >= sizeof(h), "a truncated metadata message is refused");
        vc_assert(eq(metaOf(*m), h), "the message is the one that was sent");
        vc_assert(r == int64_t(h.fSize) && m->GetSize() == h.fSize, "receive returns the size of the message");
        vc_assert(c.same(*s, 0, 0, h.fSize, 1), "counters account for the message");
    } else {
        vc_cover("receive:failed");
        failedTransfer(r);
        vc_assert(eq(metaOf(*m), before) && c.same(*s, 0, 0, 0, 0), "a failed receive changes nothing");
    }
    vc_exit_path();
}
// receiving into a message that already holds something
VC_PROOF(C06, receive_used)
{
    ShmW w; w.addRemote(); Socket* s = mkSocket(w);
    AnyMsg* a = new AnyMsg(w); bool q = a->m.fQueued;
    MessagePtr p(&a->m);
    MetaHeader before = metaOf(a->m);
    MetaHeader h = anyHdr();
    char* frame = static_cast<char*>(vc_malloc(8192)); std::memcpy(frame, &h, sizeof(h));
    zw::in[0] = {frame, sizeof(h)}; zw::nIn = 1;
    bool fails = vc_bool("timeout");
    if (fails) zw::onFail = [] { zw::mustStop = true; }; else zw::mayFail = false;
    if (fails) { int64_t r = s->Receive(p, 0); vc_assume(r < 0); } else vc_assert(s->Receive(p, -1) == int64_t(h.fSize), "received");
    if (!fails) {
        vc_cover("receive_used:ok");
        vc_assert(eq(metaOf(a->m), h), "the message is the one that was sent");
        vc_assert(!a->m.fQueued && a->m.fLocalPtr == nullptr && a->m.fRegionPtr == nullptr, "the receiver owns the buffer, nothing cached of the old one");
        released(a->b, a->count, q, "");
    } else {
        vc_cover("receive_used:failed");
        vc_assert(eq(metaOf(a->m), before) && a->m.fQueued == q, "a failed receive changes nothing");
        if (a->b) vc_assert(a->b->live && ShmHeader::RefCount(a->b->p) == a->count, "a failed receive keeps the buffer");
    }
    vc_assert(w.frame(), "other buffers untouched");
    vc_exit_path();
}
// one managed buffer travels: same bytes on the other side, freed exactly once, by the receiver
VC_PROOF(C06, round_trip)
{
    ShmW w; Socket* s = mkSocket(w); zw::mayFail = false;
    size_t size = vc_in("size", 0, size_t(1) << 40); uint64_t hint = vc_u64("hint");
    Message* m = new Message(w.mgr); MessagePtr p(m); m->fHint = hint;
    vcshm::Block* b = nullptr; size_t i = 0; char v = 0;
    if (size) {
        b = ShmW::block(w.own, size, 1); m->fHandle = b->handle; m->fSize = size; m->fLocalPtr = ShmHeader::UserPtr(b->p);
        i = vc_in("i", 0, size - 1); v = vc_u8("byte"); static_cast<char*>(m->GetData())[i] = v;
    }
    vc_assert(s->Send(p, -1) == int64_t(size), "sent");
    p.reset();
    if (b) vc_assert(b->live && ShmHeader::RefCount(b->p) == 1, "the sender's message object does not free the buffer");
    zw::in[0] = {zw::wire[0]->d, zw::wire[0]->n}; zw::nIn = 1; zw::posIn = 0;
    Message* r = new Message(w.mgr); MessagePtr rp(r);
    vc_assert(s->Receive(rp, -1) == int64_t(size), "received");
    vc_assert(r->GetSize() == size && r->fHint == hint, "same size");
    if (b) {
        vc_assert(r->GetData() == ShmHeader::UserPtr(b->p) && static_cast<char*>(r->GetData())[i] == v, "the receiver sees the sender's bytes");
        vc_assert(r->GetRefCount() == 1, "the receiver is the only owner");
    } else vc_assert(r->GetData() == nullptr, "an empty message stays empty");
    rp.reset();
    if (b) vc_assert(!b->live, "the receiver frees the buffer");
    vc_assert(w.frame(), "other buffers untouched");
    vc_cover("round_trip:done");
    vc_exit_path();
}

// ---- C07: multi-part messages
//@ assume C07 libzmq behaves as the ghost contracts in zmqworld.h; Boost.Interprocess as stubs_shm/vcboost.h
//@ bound send_parts at most 3 parts per message
//@ bound receive_parts at most 3 parts per message (and at most one part already in the container)
//@ bound round_trip_parts at most 3 parts per message
//@ opt send_parts cut=1
//@ opt receive_parts cut=1
VC_PROOF(C07, send_parts)
{
    ShmW w; Socket* s = mkSocket(w); Snap c(*s);
    uint32_t n = vc_choice("n", 4), nul = vc_choice("null_part", 4);
    Message* m[3] = {}; MetaHeader h[3]; size_t total = 0; Parts::container v;
    v.reserve(3);
    for (uint32_t i = 0; i < n; ++i) {
        if (i + 1 == nul) { v.push_back(nullptr); continue; }
        m[i] = new Message(w.mgr); anyMeta(*m[i]); h[i] = metaOf(*m[i]); total += h[i].fSize; v.push_back(MessagePtr(m[i]));
    }
    int t = arbitraryTimeout();
    int64_t r = s->Send(v, t);
    vc_assert(v.size() == n, "the container keeps its parts");
    for (uint32_t i = 0; i < n; ++i) { vc_assert(v[i].get() == m[i], "same message objects"); if (m[i]) vc_assert(eq(metaOf(*m[i]), h[i]), "sending leaves the message objects as they were"); }
    if (nul >= 1 && nul <= n) {
        vc_cover("send_parts:null");
        vc_assert(r == int64_t(TransferCode::error) && zw::attempts == 0, "a missing part is an error, nothing is sent");
    }
    if (r >= 0) {
        vc_cover("send_parts:ok");
        vc_assert(r == int64_t(total), "send returns the sum of the part sizes");
        vc_assert(zw::nWire == 1 && zw::lastSocket == s->fSocket, "all parts travel in one message");
        size_t need = sizeof(size_t) + n * sizeof(MetaHeader);
        vc_assert(zw::wire[0]->n == std::max(need, s->fMetadataMsgSize), "metadata is padded to the configured size");
        size_t cnt; std::memcpy(&cnt, zw::wire[0]->d, sizeof(cnt));
        vc_assert(cnt == n, "the number of parts is announced");
        for (uint32_t i = 0; i < n; ++i) {
            MetaHeader x; std::memcpy(&x, zw::wire[0]->d + sizeof(size_t) + i * sizeof(MetaHeader), sizeof(x));
            vc_assert(eq(x, h[i]), "the parts are described in order");
            vc_assert(m[i]->fQueued, "the buffers now belong to the receiver");
        }
        vc_assert(c.same(*s, total, 1, 0, 0), "a multi-part message counts once, with all its bytes");
        vc_assert(zw::liveMsgs == 0, "transport resources released");
    } else {
        if (zw::attempts) { failedTransfer(r); vc_cover("send_parts:failed"); }
        for (uint32_t i = 0; i < n; ++i) if (m[i]) vc_assert(!m[i]->fQueued, "unsent parts still belong to the sender");
        vc_assert(zw::nWire == 0 && c.same(*s, 0, 0, 0, 0), "failures are not counted");
        vc_assert(zw::liveMsgs == 0 && zw::liveBufs == 0, "transport resources released");
    }
    vc_exit_path();
}
VC_PROOF(C07, receive_parts)
{
    ShmW w; Socket* s = mkSocket(w); Snap c(*s);
    uint32_t n = vc_choice("n", 4), old = vc_choice("parts_before", 2); size_t total = 0;
    Parts::container v; Message* o = nullptr; if (old) { o = new Message(w.mgr); v.push_back(MessagePtr(o)); }
    MetaHeader h[3];
    char* frame = static_cast<char*>(vc_malloc(8192)); size_t cnt = n; std::memcpy(frame, &cnt, sizeof(cnt));
    for (uint32_t i = 0; i < n; ++i) { h[i] = anyHdr(); total += h[i].fSize; std::memcpy(frame + sizeof(size_t) + i * sizeof(MetaHeader), &h[i], sizeof(MetaHeader)); }
    zw::in[0] = {frame, vc_in("frame_size", sizeof(size_t) + n * sizeof(MetaHeader), 8192)}; zw::nIn = 1;
    int t = arbitraryTimeout();
    int64_t r = s->Receive(v, t);
    if (old) vc_assert(v[0].get() == o && o->fHandle == -1, "parts already in the container stay");
    if (r >= 0) {
        vc_cover("receive_parts:ok");
        vc_assert(v.size() == old + n, "as many parts as were sent");
        for (uint32_t i = 0; i < n; ++i) {
            Message& m = static_cast<Message&>(*v[old + i]);
            vc_assert(eq(metaOf(m), h[i]) && !m.fQueued, "the parts arrive in order, owned by the receiver");
            vc_assert(m.GetTransport() == s->GetTransport(), "the parts belong to the transport of the socket");
        }
        vc_assert(r == int64_t(total), "receive returns the sum of the part sizes");
        vc_assert(c.same(*s, 0, 0, total, 1), "a multi-part message counts once, with all its bytes");
    } else {
        vc_cover("receive_parts:failed");
        failedTransfer(r);
        vc_assert(v.size() == old && c.same(*s, 0, 0, 0, 0), "a failed receive adds nothing");
        vc_assert(zw::liveMsgs == 0, "transport resources released");
    }
    vc_exit_path();
}
VC_PROOF(C07, round_trip_parts)
{
    ShmW w; Socket* s = mkSocket(w); zw::mayFail = false;
    uint32_t n = vc_choice("n", 4);
    vcshm::Block* b[3] = {}; size_t size[3]; size_t total = 0; Parts::container v; char* data[3] = {};
    for (uint32_t i = 0; i < n; ++i) {
        size[i] = vc_bool("empty_part") ? 0 : vc_in("size", 1, size_t(1) << 40); total += size[i];
        Message* m = new Message(w.mgr);
        if (size[i]) { b[i] = ShmW::block(w.own, size[i], 1); m->fHandle = b[i]->handle; m->fSize = size[i]; m->fLocalPtr = data[i] = ShmHeader::UserPtr(b[i]->p); }
        v.push_back(MessagePtr(m));
    }
    vc_assert(s->Send(v, -1) == int64_t(total), "sent");
    v.clear();
    for (uint32_t i = 0; i < n; ++i) if (b[i]) vc_assert(b[i]->live, "the sender's message objects do not free the buffers");
    zw::in[0] = {zw::wire[0]->d, zw::wire[0]->n}; zw::nIn = 1; zw::posIn = 0;
    Parts::container g;
    vc_assert(s->Receive(g, -1) == int64_t(total), "received");
    vc_assert(g.size() == n, "same number of parts");
    for (uint32_t i = 0; i < n; ++i) vc_assert(g[i]->GetSize() == size[i] && g[i]->GetData() == data[i], "same parts in the same order");
    g.clear();
    for (uint32_t i = 0; i < n; ++i) if (b[i]) vc_assert(!b[i]->live, "the receiver frees the buffers");
    vc_assert(w.frame(), "other buffers untouched");
    vc_cover("round_trip_parts:done");
    vc_exit_path();
}
