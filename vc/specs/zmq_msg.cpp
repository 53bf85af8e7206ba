//@ assume C04 libzmq messages behave as the ghost contracts in zmqworld.h (reference-counted buffers, free function called when the last reference is closed)
// C04: buffers of zeromq messages: what a message refers to after each operation, who else does, and when memory is handed back.
#include <vcstd.h>
#include <zmqworld.h>
#include <algorithm>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <queue>
#include <thread>
#include <vector>
#include <fairmq/Transports.h>
#include <fairmq/zeromq/Context.h>
#include <fairmq/zeromq/UnmanagedRegion.h>
#include <fairmq/zeromq/Message.h>
#include <fairmq/zeromq/UnmanagedRegion.h>
using fair::mq::Alignment; using fair::mq::zmq::Message; using fair::mq::TransportError; using fair::mq::MessagePtr;
extern "C" {
void* zmq_ctx_new() { return vc_malloc(8); } int zmq_ctx_set(void*, int, int) { return 0; } int zmq_ctx_term(void*) { return 0; }
}
namespace {
int freed = 0; void *fData = nullptr, *fHint = nullptr;
int& nextFreed() { static int n = 0; return n; }
void freeFn(void* d, void* h) { ++freed; fData = d; fHint = h; }
// an arbitrary message: empty, a plain buffer, an aligned one or user data; possibly shared with another message, possibly shortened
struct AnyMsg
{
    Message* m = nullptr; Message* other = nullptr; uint32_t kind; size_t cap = 0, size = 0; char* d = nullptr; size_t i = 0; char v = 0; char* user = nullptr; uint64_t heap0 = 0;
    AnyMsg()
    {
        zw::reset(); freed = 0; heap0 = vc_heap_live();
        kind = vc_choice("kind", 4);
        if (kind) cap = size = vc_in("size", 1, size_t(1) << 40);
        size_t al = vc_bool("coarse") ? 4096 : 64;
        if (kind == 0) m = vc_bool("with_alignment") ? new Message(Alignment{al}) : new Message();
        if (kind == 1) m = new Message(size);
        if (kind == 2) m = new Message(size, Alignment{al});
        if (kind == 3) { user = static_cast<char*>(vc_malloc(size)); m = new Message(user, size, freeFn, vc_opaque("user_hint")); }
        d = static_cast<char*>(m->GetData());
        if (kind == 2) vc_assert(reinterpret_cast<uintptr_t>(d) % al == 0, "an aligned message is aligned");
        if (kind == 3) vc_assert(d == user && freed == 0, "user data is used in place");
        vc_assert((kind == 0) == (d == nullptr) && m->GetSize() == size, "a message has the requested size");
        if (d) { i = vc_in("i", 0, size - 1); d[i] = v = vc_u8("byte"); }
        if (d && vc_bool("shortened")) { size_t s = vc_in("used_size", 1, size); vc_assert(m->SetUsedSize(s), "shortening works"); size = s; intact(m); }
        if (d && vc_bool("shared")) { other = new Message(); other->Copy(*m); }
    }
    void intact(Message* x)
    {
        vc_assert(x->GetSize() == size && x->GetData() == d, "the message refers to its buffer");
        if (d && i < size) vc_assert(static_cast<char*>(x->GetData())[i] == v, "the bytes of the message are unchanged");
    }
    // after m let go of its buffer
    void letGo()
    {
        if (other) { intact(other); vc_assert(freed == 0, "memory in use elsewhere is kept"); delete other; other = nullptr; }
        if (kind == 3) vc_assert(freed == 1 && fData == user, "user memory is handed back exactly once, after its last use"); else vc_assert(freed == 0, "memory handed back belongs to the user");
    }
    void end(int msgs, int bufs) { vc_assert(zw::liveMsgs == msgs && zw::liveBufs == bufs, "no message or buffer is leaked"); vc_exit_path(); }
};
}
VC_PROOF(C04, destroy)
{
    AnyMsg a; a.intact(a.m); delete a.m; a.letGo(); vc_cover("destroy:done");
    if (a.kind == 3) free(a.user);
    vc_assert(vc_heap_live() == a.heap0, "everything is freed"); a.end(0, 0);
}
VC_PROOF(C04, rebuild)
{
    AnyMsg a; uint32_t k = vc_choice("how", 6); size_t n = k >= 2 ? vc_in("new_size", 1, size_t(1) << 40) : 0; size_t al = vc_bool("coarse2") ? 4096 : 64; char* mine = nullptr;
    if (k == 0) a.m->Rebuild();
    if (k == 1) a.m->Rebuild(Alignment{al});
    if (k == 2) a.m->Rebuild(n);
    if (k == 3) a.m->Rebuild(n, Alignment{al});
    if (k == 4) a.m->Rebuild(n, Alignment{0});
    if (k == 5) { mine = static_cast<char*>(vc_malloc(n)); a.m->Rebuild(mine, n, [](void*, void* p) { ++*static_cast<int*>(p); }, &nextFreed()); }
    a.letGo();
    vc_assert(a.m->GetSize() == n && (a.m->GetData() == nullptr) == (n == 0), "a rebuilt message has the requested size");
    if (k == 1 || k == 3) vc_assert(a.m->fAlignment == al, "the requested alignment applies");
    if (k != 1 && k != 3) vc_assert(a.m->fAlignment == 0, "no alignment is left over");
    if (k == 3) vc_assert(reinterpret_cast<uintptr_t>(a.m->GetData()) % al == 0, "an aligned message is aligned");
    if (k == 5) vc_assert(a.m->GetData() == mine && nextFreed() == 0, "user data is used in place");
    if (n) { size_t j = vc_in("j", 0, n - 1); static_cast<char*>(a.m->GetData())[j] = 1; }
    delete a.m; vc_assert(nextFreed() == (k == 5 ? 1 : 0), "the new user memory is handed back once"); vc_cover("rebuild:done");
    a.end(0, 0);
}
VC_PROOF(C04, resize)
{
    AnyMsg a; size_t n = vc_in("new_size", 0, size_t(1) << 41); size_t size0 = a.size; int f0 = freed;
    bool ok = a.m->SetUsedSize(n);
    vc_assert(ok == (n <= size0), "a message can be shortened, never extended");
    vc_assert(freed == f0, "shortening gives no memory back");
    if (a.other) { a.intact(a.other); }
    if (ok) a.size = n;
    if (a.size) a.intact(a.m); else vc_assert(a.m->GetSize() == 0 && a.m->GetData() == nullptr, "a message shortened to nothing is empty");
    if (ok && n < size0) vc_cover("resize:shortened"); if (!ok) vc_cover("resize:refused");
    delete a.m; a.size = size0; a.letGo();
    a.end(0, 0);
}
VC_PROOF(C04, copy)
{
    AnyMsg a; size_t al = vc_bool("target_aligned") ? 64 : 0; size_t n = vc_bool("target_filled") ? vc_in("old_size", 1, 1 << 20) : 0;
    int before = nextFreed(); char* mine = static_cast<char*>(vc_malloc(n + 1));
    Message t(mine, n, [](void*, void* p) { ++*static_cast<int*>(p); }, &nextFreed());
    t.Copy(*a.m);
    vc_assert(nextFreed() == before + 1, "the target's old memory is handed back");
    a.intact(&t); a.intact(a.m); if (a.other) a.intact(a.other);
    if (vc_bool("source_first")) { delete a.m; a.intact(&t); vc_assert(freed == 0, "memory in use elsewhere is kept"); t.Rebuild(); } else { t.Rebuild(); a.intact(a.m); vc_assert(freed == 0, "memory in use elsewhere is kept"); delete a.m; }
    a.letGo(); vc_cover("copy:done");
    a.end(1, 0);
}
VC_PROOF(C04, copy_self)
{
    AnyMsg a; a.m->Copy(*a.m);
    a.intact(a.m); if (a.other) a.intact(a.other);
    vc_assert(freed == 0, "a message copied to itself keeps its memory"); vc_cover("copy_self:done");
    delete a.m; a.letGo();
    a.end(0, 0);
}
// the alignment of a received message is restored by copying it to an aligned buffer, once
VC_PROOF(C04, realign)
{
    AnyMsg a; size_t al = vc_choice("alignment", 3); al = al == 0 ? 0 : al == 1 ? 64 : 4096;
    a.m->fAlignment = al;
    bool fits = a.d == nullptr || al == 0 || reinterpret_cast<uintptr_t>(a.d) % al == 0;
    a.m->Realign();
    vc_assert(a.m->fAlignment == al, "the requested alignment stays");
    if (fits) { a.intact(a.m); vc_cover("realign:nothing"); }
    else {
        char* d2 = static_cast<char*>(a.m->GetData());
        vc_assert(reinterpret_cast<uintptr_t>(d2) % al == 0 && a.m->GetSize() == a.size, "the message is aligned now, with its size");
        if (a.i < a.size) vc_assert(d2[a.i] == a.v, "the bytes of the message are unchanged");
        d2[a.size - 1] = 1;
        a.letGo(); vc_cover("realign:moved");
    }
    delete a.m; if (fits) a.letGo();
    a.end(0, 0);
}
// a message over a region copies the block and acknowledges it at once
VC_PROOF(C04, region)
{
    zw::reset(); fair::mq::zmq::Context ctx(1);
    static int acks = 0, bulk = 0; static void *aPtr, *aHint; static size_t aSize;
    size_t cap = vc_in("region_size", 1, size_t(1) << 30), off = vc_in("offset", 0, cap - 1), n = vc_in("size", 0, cap - off); void* hint = vc_opaque("hint");
    fair::mq::RegionCallback cb; fair::mq::RegionBulkCallback bcb; bool one = vc_bool("callback"), many = vc_bool("bulk_callback");
    if (one) cb = [](void* p, size_t s, void* h) { ++acks; aPtr = p; aSize = s; aHint = h; };
    if (many) bcb = [](const std::vector<fair::mq::RegionBlock>& v) { ++bulk; vc_assert(v.size() == 1, "one block"); aPtr = v[0].ptr; aSize = v[0].size; aHint = v[0].hint; };
    fair::mq::UnmanagedRegionPtr r(new fair::mq::zmq::UnmanagedRegion(ctx, cap, 0, cb, bcb, nullptr, fair::mq::RegionConfig()));
    vc_assert(r->GetSize() == cap && r->GetData() != nullptr, "the region has the requested size");
    char* d = static_cast<char*>(r->GetData()) + off; size_t i = n ? vc_in("i", 0, n - 1) : 0; char v = vc_u8("byte"); if (n) d[i] = v;
    { Message m(r, d, n, hint);
      vc_assert(acks == (one && !many ? 1 : 0) && bulk == (many ? 1 : 0), "the block is acknowledged exactly once");
      if (one || many) vc_assert(aPtr == d && aSize == n && aHint == hint, "the acknowledgement names the block");
      vc_assert(m.GetSize() == n, "the message has the size of the block");
      if (n) { d[i] = char(v + 1); vc_assert(static_cast<char*>(m.GetData())[i] == v, "the block may be reused once it is acknowledged"); vc_cover("region:copied"); } }
    vc_assert(zw::liveMsgs == 0 && zw::liveBufs == 0, "no message or buffer is leaked");
    vc_exit_path();
}
