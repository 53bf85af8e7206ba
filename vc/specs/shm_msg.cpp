//@ cxxflags -I/verif/vc/stubs_shm
//@ assume C02 Boost.Interprocess (segments, allocator, handles) behaves as the in-process model stubs_shm/vcboost.h
//@ assume C02 fewer than 65535 owners share one buffer
// C02: a managed buffer is freed exactly once, by its last owner.
#include <shmmsgs.h>
VC_PROOF(C02, destroy)
{
    ShmW w; w.addRemote();
    vcshm::Block* b; uint16_t c; bool q;
    {
        AnyMsg a(w); b = a.b; c = a.count; q = a.isQueued();
        vc_cover("destroy:go");
    }
    released(b, c, q, "");
    if (b && c == 1 && !q) vc_cover("destroy:last");
    if (b && c > 1 && !q) vc_cover("destroy:shared");
    if (b && q) vc_cover("destroy:queued");
    vc_assert(w.frame(), "other buffers untouched");
}
VC_PROOF(C02, rebuild_empty)
{
    ShmW w; w.addRemote();
    AnyMsg a(w); bool q = a.isQueued();
    if (vc_bool("aligned")) a.m.Rebuild(Alignment{64}); else a.m.Rebuild();
    released(a.b, a.count, q, "");
    vc_assert(emptyMsg(a.m), "rebuilt message is empty");
    vc_assert(!a.m.fQueued, "rebuilt message owns its future buffers");
    vc_assert(w.frame(), "other buffers untouched");
    vc_cover("rebuild_empty:done");
}
static vcshm::Block* fresh(ShmW& w, int n0, AnyMsg& a, size_t sz, size_t al)
{
    vc_assert(w.own->n == n0 + 1, "exactly one buffer allocated");
    vcshm::Block* b = &w.own->b[n0];
    vc_assert(b->live && ShmHeader::RefCount(b->p) == 1, "fresh buffer has one owner");
    vc_assert(a.m.fHandle == b->handle && a.m.fSegmentId == w.mgr.fSegmentId && a.m.fManaged, "message refers to the fresh buffer");
    vc_assert(a.m.GetSize() == sz, "message has the requested size");
    char* d = static_cast<char*>(a.m.GetData());
    vc_assert(d >= b->p + 8 && d + sz <= b->p + b->size, "user data inside the buffer");
    if (al) vc_assert(reinterpret_cast<uintptr_t>(d) % al == 0, "user data aligned as requested");
    vc_assert(!a.m.fQueued && a.m.GetRefCount() == 1, "fresh message is the only owner of its buffer");
    return b;
}
VC_PROOF(C02, rebuild_size)
{
    ShmW w; w.addRemote();
    AnyMsg a(w); bool q = a.isQueued();
    size_t sz = vc_in("size", 0, size_t(1) << 40);
    size_t al = vc_bool("aligned") ? 128 : 0;
    int n0 = w.own->n;
    try {
        if (al) a.m.Rebuild(sz, Alignment{al}); else a.m.Rebuild(sz);
    } catch (MessageBadAlloc&) {
        vc_cover("rebuild_size:noMem");
        released(a.b, a.count, q, "");
        vc_assert(emptyMsg(a.m) && !a.m.fQueued && w.own->n == n0, "failed rebuild leaves an empty message");
        return;
    }
    vc_cover("rebuild_size:ok");
    released(a.b, a.count, q, "");
    if (sz == 0) { vc_assert(emptyMsg(a.m) && w.own->n == n0, "size 0 allocates nothing"); }
    else fresh(w, n0, a, sz, al);
    vc_assert(w.frame(), "other buffers untouched");
}
static int ffnCalls = 0; static void *ffnData, *ffnHint;
static void ffn(void* d, void* h) { ++ffnCalls; ffnData = d; ffnHint = h; }
VC_PROOF(C02, rebuild_data)
{
    ShmW w; w.addRemote();
    AnyMsg a(w); bool q = a.isQueued();
    size_t sz = vc_in("size", 0, size_t(1) << 20);
    char* src = static_cast<char*>(vc_malloc(sz));
    size_t i = vc_in("i", 0, sz ? sz - 1 : 0);
    char v = vc_u8("byte"); if (sz) src[i] = v;
    void* hint = vc_opaque("user_hint");
    int n0 = w.own->n; ffnCalls = 0;
    bool useFree = vc_bool("no_callback");
    try {
        a.m.Rebuild(src, sz, useFree ? nullptr : ffn, hint);
    } catch (MessageBadAlloc&) {
        released(a.b, a.count, q, "");
        vc_assert(emptyMsg(a.m) && ffnCalls == 0, "failed rebuild leaves the user's buffer with the user");
        return;
    }
    vc_cover("rebuild_data:ok");
    released(a.b, a.count, q, "");
    if (!useFree) vc_assert(ffnCalls == 1 && ffnData == src && ffnHint == hint, "the user's callback runs exactly once with the user's data and hint");
    else vc_assert(vc_is_dead(src), "without a callback the user's buffer is freed");
    if (sz) {
        fresh(w, n0, a, sz, 0);
        vc_assert(static_cast<char*>(a.m.GetData())[i] == v, "the message carries the user's bytes");
    } else
        vc_assert(emptyMsg(a.m) && w.own->n == n0, "size 0 allocates nothing");
    vc_assert(w.frame(), "other buffers untouched");
}
VC_PROOF(C02, construct)
{
    ShmW w;
    size_t sz = vc_in("size", 0, size_t(1) << 40);
    int n0 = w.own->n, l0 = w.own->live();
    uint32_t k = vc_choice("ctor", 4);
    char* src = nullptr; ffnCalls = 0;
    if (k == 3) { vc_assume(sz < (1 << 20)); src = static_cast<char*>(vc_malloc(sz)); }
    try {
        if (k == 0) { Message m(w.mgr); vc_assert(emptyMsg(m), "default message is empty"); vc_assert(w.own->n == n0, "default message allocates nothing"); }
        else {
            std::unique_ptr<Message> m;
            if (k == 1) m = std::make_unique<Message>(w.mgr, sz);
            else if (k == 2) m = std::make_unique<Message>(w.mgr, sz, Alignment{256});
            else m = std::make_unique<Message>(w.mgr, src, sz, ffn, nullptr);
            vc_cover("construct:ok");
            vc_assert(m->GetSize() == sz, "message has the requested size");
            if (k == 3) vc_assert(ffnCalls == 1 && ffnData == src && ffnHint == nullptr, "the user's callback runs exactly once with the user's data and hint");
            if (sz) {
                vcshm::Block* b = &w.own->b[n0];
                vc_assert(w.own->n == n0 + 1 && b->live && m->fHandle == b->handle && ShmHeader::RefCount(b->p) == 1, "one fresh buffer with one owner");
                char* d = static_cast<char*>(m->GetData());
                vc_assert(d >= b->p + 8 && d + sz <= b->p + b->size, "user data inside the buffer");
                if (k == 2) vc_assert(reinterpret_cast<uintptr_t>(d) % 256 == 0, "user data aligned as requested");
            }
        }
    } catch (MessageBadAlloc&) { vc_cover("construct:noMem"); vc_assert(ffnCalls == 0, "failed construction leaves the user's buffer with the user"); }
    vc_assert(w.own->live() == l0, "every buffer is returned when its message is gone");
    vc_assert(w.frame(), "other buffers untouched");
}
VC_PROOF(C02, copy)
{
    ShmW w; w.addRemote();
    AnyMsg o(w, "src", false);
    bool same = o.b && vc_bool("already_share");
    std::unique_ptr<AnyMsg> t(same ? new AnyMsg(w, o) : new AnyMsg(w, "dst"));
    bool q = t->isQueued();
    uint64_t hint = o.m.fHint;
    t->m.Copy(o.m);
    vc_cover("copy:done");
    if (!same) released(t->b, t->count, q, "");
    if (!o.b) { vc_assert(emptyMsg(t->m) && emptyMsg(o.m), "copy of an empty message is empty"); }
    else {
        uint16_t c = same ? o.count : o.count + 1;
        vc_assert(o.b->live && ShmHeader::RefCount(o.b->p) == c, "copy adds exactly one owner");
        vc_assert(t->m.GetRefCount() == c && o.m.GetRefCount() == c, "both messages see the number of owners");
        vc_assert(t->m.GetData() == ShmHeader::UserPtr(o.b->p) && o.m.GetData() == t->m.GetData(), "copy shows the same data");
        vc_assert(t->m.GetSize() == o.size && o.m.GetSize() == o.size, "copy has the same size");
        vc_assert(t->m.fHint == hint, "copy carries the hint");
        vc_assert(!t->m.fQueued && !o.m.fQueued, "both messages own their share");
    }
    vc_assert(w.frame(), "other buffers untouched");
    // both owners gone
    t.reset();
    if (o.b) { vc_assert(o.b->live && ShmHeader::RefCount(o.b->p) == (same ? o.count - 1 : o.count), "dropping the copy restores the owner count"); vc_cover("copy:dropped"); }
}
// a message copied to itself stays as it is
VC_PROOF(C02, copy_self)
{
    ShmW w; w.addRemote();
    AnyMsg a(w, "");
    bool q = a.isQueued(); uint64_t hint = a.m.fHint; void* d = a.b ? a.m.GetData() : nullptr;
    a.m.Copy(a.m);
    vc_cover("copy_self:done");
    if (!a.b) vc_assert(emptyMsg(a.m), "an empty message stays empty");
    else {
        vc_assert(a.b->live && ShmHeader::RefCount(a.b->p) == a.count, "no owner is added or lost");
        vc_assert(a.m.GetData() == d && a.m.GetSize() == a.size && a.m.fHint == hint && a.m.fQueued == q, "the message stays as it was");
    }
    vc_assert(w.frame(), "other buffers untouched");
}
// other owners (threads, processes) take and drop their shares at any time
static int countAtFree = -1;
static void atFree(char* p) { vc_ghost_begin(); countAtFree = ShmHeader::RefCount(p); vc_ghost_end(); }
static bool othersKeepMine(uint64_t, uint64_t n) { return n >= 1; }
VC_PROOF(C02, concurrent_release)
{
    ShmW w;
    AnyMsg a(w, "", false);
    if (!a.b) return;
    vcshm::onFree = atFree;
    auto* cell = &ShmHeader::RefCountPtr(a.b->p);
    vc_shared_atomic(cell, 2, othersKeepMine, nullptr);
    a.m.Rebuild();
    vc_unshare(cell);
    if (a.b->live) { vc_cover("concurrent_release:kept"); vc_assert(ShmHeader::RefCount(a.b->p) != 0, "a buffer without owners is freed"); }
    else { vc_cover("concurrent_release:freed"); vc_assert(countAtFree == 0, "a buffer is freed only when it has no owner left"); }
}

// C03: size and contents of managed messages under SetUsedSize
//@ assume C03 Boost.Interprocess (segments, allocator, handles) behaves as the in-process model stubs_shm/vcboost.h
//@ replace set_used_size_own fair::mq::shmem::Manager::Allocate(unsigned long, unsigned long) => vcc_allocate
//@ replace set_used_size_own_aligned fair::mq::shmem::Manager::Allocate(unsigned long, unsigned long) => vcc_allocate
//@ replace set_used_size_remote fair::mq::shmem::Manager::Allocate(unsigned long, unsigned long) => vcc_allocate
//@ replace set_used_size_remote_aligned fair::mq::shmem::Manager::Allocate(unsigned long, unsigned long) => vcc_allocate
extern "C" char* vcc_allocate(Manager* m, size_t size, size_t al) { return allocContract(m, size, al); }
static void setUsedSize(bool remote, size_t al)
{
    ShmW w; if (remote) w.addRemote();
    AnyMsg a(w, "", false);
    if (remote) vc_assume(a.m.fSegmentId == 7);
    if (al == 0) vc_assume(a.m.fLocalPtr == nullptr);   // (both ways are covered by the variants with an alignment)
    size_t ns = vc_bool("near") ? vc_in("new_size", 0, a.size) : vc_u64("new_size");
    size_t i = 0;
    char v = 0;
    if (a.b) { i = vc_in("i", 0, a.size - 1); v = vc_u8("byte"); ShmHeader::UserPtr(a.b->p)[i] = v; }
    int n0 = w.own->n; bool r;
    try { r = a.m.SetUsedSize(ns, Alignment{al}); }
    catch (MessageBadAlloc&) {
        vc_cover("set_used_size_own:noMem");
        vc_assert(a.b && a.b->live && a.m.GetSize() == a.size && a.m.GetData() == ShmHeader::UserPtr(a.b->p), "a failed reallocation leaves the message as it was");
        a.m.fQueued = true;
        return;
    }
    vc_assert(w.frame(), "other buffers untouched");
    if (ns > a.size) { vc_assert(!r && a.m.GetSize() == a.size, "the used size cannot grow"); vc_cover("set_used_size_own:grow"); return; }
    vc_assert(r, "shrinking succeeds");
    vc_assert(a.m.GetSize() == ns, "the message reports the new size");
    if (!a.b) return;
    if (ns == 0) { released(a.b, a.count, false, ""); vc_assert(emptyMsg(a.m), "used size 0 empties the message"); vc_cover("set_used_size_own:zero"); return; }
    char* d = static_cast<char*>(a.m.GetData());
    vcshm::Seg* s = a.m.fSegmentId == 7 ? w.rem : w.own;
    vcshm::Block* b = s->byHandle(a.m.fHandle);
    vc_assert(b && b->live, "the message refers to a live buffer");
    vc_assert(d == ShmHeader::UserPtr(b->p) && d + ns <= b->p + b->size, "the used data lies inside the buffer");
    if (i < ns) vc_assert(d[i] == v, "the used data is preserved");
    vc_assert(ShmHeader::RefCount(b->p) == a.count, "owner count unchanged");
    if (a.count > 1) {
        vc_cover("set_used_size_own:shared");
        vc_assert(b == a.b && b->p + b->size >= ShmHeader::UserPtr(b->p) + a.size, "a buffer other messages use keeps its full size");
    }
    a.m.fQueued = true;   // (release is the subject of C02)
    if (b != a.b) { vc_cover("set_used_size_own:moved"); vc_assert(!a.b->live, "a replaced buffer is freed"); if (al) vc_assert(reinterpret_cast<uintptr_t>(d) % al == 0, "a replacement buffer has the requested alignment"); }
}
VC_PROOF(C03, set_used_size_own) { setUsedSize(false, 0); }
VC_PROOF(C03, set_used_size_own_aligned) { setUsedSize(false, 512); }
VC_PROOF(C03, set_used_size_remote) { setUsedSize(true, 0); }
VC_PROOF(C03, set_used_size_remote_aligned) { setUsedSize(true, 512); }
VC_PROOF(C03, get_data)
{
    ShmW w; w.addRemote();
    AnyMsg a(w);
    vc_assert(a.m.GetSize() == a.size, "size");
    void* d = a.m.GetData();
    vc_assert(a.b ? d == ShmHeader::UserPtr(a.b->p) : d == nullptr, "data is the user area of the buffer the message refers to");
    vc_assert(a.m.GetData() == d && a.m.GetSize() == a.size, "asking twice gives the same answer");
    if (a.b) vc_assert(a.m.GetRefCount() == a.count && a.b->live, "asking does not change ownership");
    vc_assert(a.m.GetType() == fair::mq::Transport::SHM, "transport");
    vc_cover("get_data:done");
}
