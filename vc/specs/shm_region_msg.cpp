//@ cxxflags -I/verif/vc/stubs_shm
//@ assume C05 Boost.Interprocess (segments, allocator, handles) behaves as the in-process model stubs_shm/vcboost.h
//@ assume C05 fewer than 65535 owners share one block; the region outlives the messages that refer to it
// C05: every block of an unmanaged region is acknowledged exactly once, after its last message is gone.
#include <shmmsgs.h>
using fair::mq::TransportError; using fair::mq::RefCountBadAlloc;
static const int64_t kNo = -1;
// a message of region 9: unshared, or one of `count` owners sharing a reference count
struct RMsg
{
    Message m; size_t size, off, hint; bool shared = false; uint16_t count = 1; vcshm::Block* rcb = nullptr; vcshm::Seg* rcSeg = nullptr;
    RMsg(ShmW& w, bool queuedOk = true) : m(w.mgr)
    {
        off = vc_in("offset", 0, vcshm::regionSize);
        size = vc_in("msg_size", 0, vcshm::regionSize - off);
        hint = vc_u64("hint");
        shared = vc_bool("shared");
        m.fManaged = false; m.fRegionId = 9; m.fSize = size; m.fHint = hint; m.fHandle = int64_t(off);
        if (vc_bool("data_resolved")) { m.fLocalPtr = vcshm::regionBase + off; if (vc_bool("region_resolved")) m.fRegionPtr = w.region; }
        if (queuedOk) m.fQueued = vc_bool("queued");
        if (shared) {
            count = vc_in("owners", 1, 65534);
            rcSeg = w.rc ? w.rc : (w.rem && vc_bool("count_in_remote_segment")) ? w.rem : w.own;
            if (w.rc) { rcb = rcSeg->add(sizeof(RefCount)); new (rcb->p) RefCount(count); }
            else rcb = ShmW::block(rcSeg, 2, count);
            m.fShared = rcb->handle;
            m.fSegmentId = rcSeg == w.rem ? 7 : w.mgr.fSegmentId;
        } else m.fSegmentId = vc_u16("unused_segment_id");
    }
};
static uint16_t countOf(ShmW& w, vcshm::Block* b) { return w.rc ? reinterpret_cast<RefCount*>(b->p)->Get() : ShmHeader::RefCount(b->p); }
static void oneAck(ShmW& w, size_t off, size_t size, size_t hint)
{
    vc_assert(w.acks() == 1, "the block is acknowledged exactly once");
    RegionBlock& b = w.region->fBlocksToFree.back();
    vc_assert(size_t(b.fHandle) == off && b.fSize == size && b.fHint == hint, "the acknowledgement names offset, size and hint of the block");
}
static void releasedR(ShmW& w, size_t off, size_t size, size_t hint, bool queued, bool shared, uint16_t count, vcshm::Block* rcb)
{
    if (queued) { vc_assert(w.acks() == 0, "a block handed to the transport is not acknowledged by the sender"); if (shared) vc_assert(rcb->live && countOf(w, rcb) == count, "handing over keeps the owner count"); }
    else if (!shared) oneAck(w, off, size, hint);
    else if (count == 1) { oneAck(w, off, size, hint); vc_assert(!rcb->live, "the reference count object goes with the last owner"); }
    else { vc_assert(w.acks() == 0, "no acknowledgement while other owners exist"); vc_assert(rcb->live && countOf(w, rcb) == count - 1, "releasing removes exactly one owner"); }
}
static bool emptyR(Message& m) { return m.GetSize() == 0 && m.GetData() == nullptr && m.fHandle == -1 && m.GetRefCount() == 1 && !m.fQueued; }
static void destroy(bool pool)
{
    ShmW w; if (!pool) w.addRemote(); w.addRegion(pool);
    size_t off, size, hint; bool q, sh; uint16_t c; vcshm::Block* b;
    { RMsg a(w); off = a.off; size = a.size; hint = a.hint; q = a.m.fQueued; sh = a.shared; c = a.count; b = a.rcb; vc_assert(a.m.GetRefCount() == c, "owner count reported"); vc_assert(a.m.GetData() == vcshm::regionBase + off, "message data is at its offset in the region"); }
    releasedR(w, off, size, hint, q, sh, c, b);
    vc_assert(w.frame(), "managed buffers untouched");
}
VC_PROOF(C05, destroy_pool) { destroy(true); vc_cover("destroy_pool:done"); }
VC_PROOF(C05, destroy_seg) { destroy(false); vc_cover("destroy_seg:done"); }
static void rebuild(bool pool)
{
    ShmW w; if (!pool) w.addRemote(); w.addRegion(pool);
    RMsg a(w); bool q = a.m.fQueued;
    uint32_t k = vc_choice("how", 4);
    int n0 = w.own->n;
    try {
        if (k == 0) a.m.Rebuild();
        else if (k == 1) a.m.Rebuild(Alignment{64});
        else if (k == 2) { vc_assume(a.size > 0); vc_assume(!q); vc_assert(a.m.SetUsedSize(0), "shrinking to zero succeeds"); }
        else a.m.Rebuild(100);
    } catch (MessageBadAlloc&) { releasedR(w, a.off, a.size, a.hint, q, a.shared, a.count, a.rcb); vc_assert(emptyR(a.m), "failed rebuild leaves an empty message"); return; }
    releasedR(w, a.off, a.size, a.hint, q, a.shared, a.count, a.rcb);
    if (k < 3) { vc_assert(emptyR(a.m), "the message is empty"); }
    else {
        vcshm::Block* b = &w.own->b[n0];
        vc_assert(w.own->n == n0 + 1 && b->live && a.m.fManaged && a.m.fHandle == b->handle && a.m.fSegmentId == w.mgr.fSegmentId, "the rebuilt message owns a fresh managed buffer");
        vc_assert(a.m.GetSize() == 100 && a.m.GetData() == ShmHeader::UserPtr(b->p) && a.m.GetRefCount() == 1, "the rebuilt message shows its fresh buffer");
        size_t before = w.acks();
        a.m.Rebuild();
        vc_assert(!b->live && w.acks() == before, "the fresh buffer is freed and not acknowledged to the region");
    }
    vc_assert(w.frame(), "managed buffers untouched");
}
VC_PROOF(C05, rebuild_pool) { rebuild(true); vc_cover("rebuild_pool:done"); }
VC_PROOF(C05, rebuild_seg) { rebuild(false); vc_cover("rebuild_seg:done"); }
static void copyR(bool pool, bool viaRegionTarget)
{
    ShmW w; if (!pool) w.addRemote(); w.addRegion(pool);
    RMsg o(w, false); vc_assume(o.count < 65534);
    std::unique_ptr<Message> t(new Message(w.mgr));
    t->fQueued = vc_bool("target_queued_before");
    vcshm::Block* tb = nullptr;
    if (viaRegionTarget) { t->fManaged = false; t->fRegionId = 9; t->fHandle = 5; t->fSize = 3; t->fHint = 11; t->fShared = -1; }
    bool tq = t->fQueued;
    int n0 = w.own->n, f0 = w.own->frees;
    try { t->Copy(o.m); }
    catch (RefCountBadAlloc&) { vc_assert(pool && !o.shared && o.m.GetRefCount() == 1, "no room for the reference count: source unchanged"); return; }
    catch (MessageBadAlloc&) { vc_assert(!pool && !o.shared && o.m.GetRefCount() == 1, "no room for the reference count: source unchanged"); return; }
    if (viaRegionTarget && !tq) oneAck(w, 5, 3, 11); else vc_assert(w.acks() == 0, "copying acknowledges nothing");
    size_t acks1 = w.acks();
    uint16_t c = o.shared ? o.count + 1 : 2;
    vc_assert(o.m.GetRefCount() == c && t->GetRefCount() == c, "copy adds exactly one owner");
    vc_assert(t->GetData() == vcshm::regionBase + o.off && o.m.GetData() == t->GetData(), "copy shows the same data");
    vc_assert(t->GetSize() == o.size && o.m.GetSize() == o.size && t->fHint == o.hint, "copy has the same size and hint");
    vc_assert(!t->fQueued && !o.m.fQueued, "both own their share");
    vc_assert(t->fShared == o.m.fShared && t->fSegmentId == o.m.fSegmentId && t->fRegionId == 9 && !t->fManaged, "both find the same reference count");
    bool first = vc_bool("source_goes_first");
    if (first) o.m.Rebuild(); else t.reset();
    vc_assert(w.acks() == acks1, "no acknowledgement while the other owner exists");
    if (c == 2) {
        if (first) t.reset(); else o.m.Rebuild();
        vc_assert(w.acks() == acks1 + 1, "the block is acknowledged exactly once");
        RegionBlock& b = w.region->fBlocksToFree.back();
        vc_assert(size_t(b.fHandle) == o.off && b.fSize == o.size && b.fHint == o.hint, "the acknowledgement names offset, size and hint of the block");
    } else if (first) { t->fQueued = true; } else o.m.fQueued = true;
    vc_assert(w.frame(), "managed buffers untouched");
}
VC_PROOF(C05, copy_pool) { copyR(true, false); vc_cover("copy_pool:done"); }
VC_PROOF(C05, copy_seg) { copyR(false, false); vc_cover("copy_seg:done"); }
VC_PROOF(C05, copy_over_pool) { copyR(true, true); vc_cover("copy_over_pool:done"); }
VC_PROOF(C05, copy_over_seg) { copyR(false, true); vc_cover("copy_over_seg:done"); }
static void selfCopy(bool pool)
{
    ShmW w; if (!pool) w.addRemote(); w.addRegion(pool);
    RMsg o(w, false); bool q = o.m.fQueued; int n0 = w.own->n;
    o.m.Copy(o.m);
    vc_assert(w.acks() == 0 && o.m.GetRefCount() == o.count, "no owner is added or lost, nothing is acknowledged");
    vc_assert(o.m.GetData() == vcshm::regionBase + o.off && o.m.GetSize() == o.size && o.m.fHint == o.hint && o.m.fQueued == q, "the message stays as it was");
    vc_assert(w.own->n == n0 && w.frame(), "managed buffers untouched");
}
VC_PROOF(C05, copy_self_pool) { selfCopy(true); vc_cover("copy_self_pool:done"); }
VC_PROOF(C05, copy_self_seg) { selfCopy(false); vc_cover("copy_self_seg:done"); }
// creation: only data inside the region, offset and hint recorded
VC_PROOF(C05, create)
{
    ShmW w; w.addRegion(true);
    fair::mq::RegionConfig cfg; cfg.id = 9;
    fair::mq::UnmanagedRegionPtr ur(new UnmanagedRegionImpl(w.mgr, vcshm::regionSize, nullptr, nullptr, cfg, nullptr));
    bool in = vc_bool("inside");
    size_t off = vc_u64("offset"), size = vc_u64("size"), hint = vc_u64("hint");
    if (in) vc_assume(off <= vcshm::regionSize && size <= vcshm::regionSize - off);
    else vc_assume(off > vcshm::regionSize);
    char* p = reinterpret_cast<char*>(reinterpret_cast<uintptr_t>(vcshm::regionBase) + off);
    bool made = false;
    try {
        Message m(w.mgr, ur, p, size, reinterpret_cast<void*>(hint)); made = true;
        vc_assert(m.GetData() == p && m.GetSize() == size && size_t(m.fHandle) == off && m.fHint == hint && m.fRegionId == 9 && !m.fManaged && m.fShared == -1 && !m.fQueued, "the message describes the block of the region");
        vc_assert(m.GetRefCount() == 1, "a fresh region message is the only owner");
    } catch (TransportError&) { vc_cover("create:refused"); }
    vc_assert(made == in, "exactly data inside the region is accepted");
    if (made) { oneAck(w, off, size, hint); vc_cover("create:made"); } else vc_assert(w.acks() == 0, "a refused message is not acknowledged");
    ur.release();
}
// SetUsedSize on a region message only changes this view; the ack still happens once
VC_PROOF(C05, set_used_size)
{
    ShmW w; w.addRegion(true);
    size_t ns; size_t off, hint; bool sh; uint16_t c; vcshm::Block* b;
    {
        RMsg a(w, false); off = a.off; hint = a.hint; sh = a.shared; c = a.count; b = a.rcb;
        ns = vc_in("new_size", 1, size_t(1) << 41);
        bool r = a.m.SetUsedSize(ns);
        vc_assert(r == (ns <= a.size), "a region message can shrink but not grow");
        if (!r) ns = a.size;
        vc_assert(a.m.GetSize() == ns && a.m.GetData() == vcshm::regionBase + off && a.m.GetRefCount() == c, "only the reported size changes");
    }
    releasedR(w, off, ns, hint, false, sh, c, b);
    vc_cover("set_used_size:done");
}
