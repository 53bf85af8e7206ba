// Ghost contracts of the libzmq functions FairMQ calls (assumed contract of the dependency; see DESIGN.md).
// Outcomes libzmq may choose are vc_* nondeterministic values; what was handed over / delivered is recorded in ghost state.
#ifndef ZMQWORLD_H
#define ZMQWORLD_H
#include <vc.h>
#include <zmq.h>
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
namespace zw {
struct Buf { char* d; size_t n; zmq_free_fn* f; void* hint; int refs; };
static const uint64_t kMagic = 0x7a6d7121;
struct Msg { Buf* b; uint64_t magic; bool more; };
inline Msg* M(zmq_msg_t* m) { return reinterpret_cast<Msg*>(m); }
inline int err = 0;
// what the harness observes
inline int liveMsgs = 0, liveBufs = 0;
inline unsigned long attempts = 0;                 // transfer attempts
inline unsigned long waited = 0;                  // number of unsuccessful attempts times the socket timeout
inline int lastFlags = 0; inline void* lastSocket = nullptr;
inline bool mustStop = false;            // the transfer may not go on after the last failure
inline void (*onFail)() = nullptr;       // environment step (other threads) while an attempt fails
inline Buf* wire[8]; inline int wireFlags[8]; inline int nWire = 0;   // parts handed over to libzmq
// what libzmq delivers
struct In { char* d; size_t n; };
inline In in[8]; inline int nIn = 0, posIn = 0;
inline bool mayFail = true;
inline bool failed = false; inline int failErr = 0;
inline bool fail()
{
    ++attempts;
    if (!mayFail) return false;
    vc_assert(!mustStop, "a transfer that has to give up does not go on");
    uint32_t k = vc_choice("zmq_outcome", 5);
    if (k == 0) return false;
    err = k == 1 ? EAGAIN : k == 2 ? EINTR : k == 3 ? ETERM : EFSM;
    failErr = err; failed = true;
    waited += 100;
    if (onFail) onFail();
    return true;
}
inline void unref(Buf* b)
{
    if (!b) return;
    if (--b->refs == 0) { --liveBufs; if (b->f) b->f(b->d, b->hint); else if (b->d && b->hint == b) free(b->d); delete b; }
}
inline int clampSize(size_t n) { return n < size_t(INT_MAX) ? int(n) : INT_MAX; }
inline Buf* mk(size_t n) { Buf* b = new Buf{nullptr, n, nullptr, nullptr, 1}; b->d = static_cast<char*>(vc_malloc(n ? n : 1)); b->hint = b; ++liveBufs; return b; }
inline void reset() { err = 0; attempts = 0; waited = 0; lastFlags = 0; mustStop = false; onFail = nullptr; nWire = 0; nIn = posIn = 0; mayFail = true; failed = false; liveMsgs = liveBufs = 0; }
}
extern "C" {
int zmq_errno() { return zw::err; }
const char* zmq_strerror(int) { return "zmq error"; }
int zmq_msg_init(zmq_msg_t* m) { zw::M(m)->b = nullptr; zw::M(m)->magic = zw::kMagic; zw::M(m)->more = false; ++zw::liveMsgs; return 0; }
int zmq_msg_init_size(zmq_msg_t* m, size_t n)
{
    zmq_msg_init(m);
    if (n) zw::M(m)->b = zw::mk(n);
    return 0;
}
int zmq_msg_init_data(zmq_msg_t* m, void* d, size_t n, zmq_free_fn* f, void* hint)
{
    zmq_msg_init(m);
    zw::M(m)->b = new zw::Buf{static_cast<char*>(d), n, f, hint, 1}; ++zw::liveBufs;
    return 0;
}
int zmq_msg_close(zmq_msg_t* m)
{
    if (zw::M(m)->magic != zw::kMagic) { zw::err = EFAULT; return -1; }
    zw::Buf* b = zw::M(m)->b;
    zw::M(m)->b = nullptr; zw::M(m)->magic = 0; --zw::liveMsgs;
    zw::unref(b);
    return 0;
}
int zmq_msg_move(zmq_msg_t* d, zmq_msg_t* s)
{
    vc_assert(d != s, "a message is not moved to itself (libzmq closes the target first)");
    vc_assert(zw::M(d)->magic == zw::kMagic && zw::M(s)->magic == zw::kMagic, "moving between initialized messages");
    zw::unref(zw::M(d)->b); zw::M(d)->b = zw::M(s)->b; zw::M(s)->b = nullptr;
    return 0;
}
int zmq_msg_copy(zmq_msg_t* d, zmq_msg_t* s)
{
    vc_assert(d != s, "a message is not copied to itself (libzmq closes the target first)");
    vc_assert(zw::M(d)->magic == zw::kMagic && zw::M(s)->magic == zw::kMagic, "copying between initialized messages");
    if (zw::M(s)->b) ++zw::M(s)->b->refs;
    zw::unref(zw::M(d)->b); zw::M(d)->b = zw::M(s)->b;
    return 0;
}
void* zmq_msg_data(zmq_msg_t* m) { vc_assert(zw::M(m)->magic == zw::kMagic, "data of an initialized message"); return zw::M(m)->b ? static_cast<void*>(zw::M(m)->b->d) : static_cast<void*>(m); }
size_t zmq_msg_size(const zmq_msg_t* m) { zw::Msg* x = zw::M(const_cast<zmq_msg_t*>(m)); vc_assert(x->magic == zw::kMagic, "size of an initialized message"); return x->b ? x->b->n : 0; }
int zmq_msg_more(const zmq_msg_t* m) { return zw::M(const_cast<zmq_msg_t*>(m))->more; }
int zmq_msg_send(zmq_msg_t* m, void* s, int flags)
{
    vc_assert(zw::M(m)->magic == zw::kMagic, "an initialized message is sent");
    zw::lastFlags = flags; zw::lastSocket = s;
    // once a part was accepted with ZMQ_SNDMORE the rest of the message is accepted (libzmq: multi-part messages are atomic)
    bool inside = zw::nWire > 0 && (zw::wireFlags[zw::nWire - 1] & ZMQ_SNDMORE);
    if (!inside && zw::fail()) return -1;
    if (inside) ++zw::attempts;
    zw::Buf* b = zw::M(m)->b;
    size_t n = b ? b->n : 0;
    zw::wire[zw::nWire] = b; zw::wireFlags[zw::nWire++] = flags;
    zw::M(m)->b = nullptr;
    return zw::clampSize(n);
}
int zmq_msg_recv(zmq_msg_t* m, void* s, int flags)
{
    vc_assert(zw::M(m)->magic == zw::kMagic, "received into an initialized message");
    zw::lastFlags = flags; zw::lastSocket = s;
    if (zw::posIn == 0 && zw::fail()) return -1;
    vc_assert(zw::posIn < zw::nIn, "no receive beyond the parts of the message");
    zw::In& i = zw::in[zw::posIn++];
    zw::unref(zw::M(m)->b);
    zw::Buf* b = nullptr;
    if (i.n) { b = new zw::Buf{i.d, i.n, nullptr, nullptr, 1}; ++zw::liveBufs; }
    zw::M(m)->b = b; zw::M(m)->more = zw::posIn < zw::nIn;
    return zw::clampSize(i.n);
}
int zmq_recv(void* s, void* buf, size_t len, int flags)
{
    zw::lastFlags = flags; zw::lastSocket = s;
    if (zw::fail()) return -1;
    zw::In& i = zw::in[zw::posIn++];
    std::memcpy(buf, i.d, i.n < len ? i.n : len);
    return zw::clampSize(i.n);
}
}
#endif
