// arbitrary valid states of shmem messages over the managed segments
#ifndef SHMMSGS_H
#define SHMMSGS_H
#include <shmworld.h>
using namespace fair::mq::shmem;
using fair::mq::Alignment; using fair::mq::MessageBadAlloc;
struct ShmW
{
    Manager mgr; vcshm::Seg* own; vcshm::Seg* rem = nullptr; vcshm::Block* decoy; uint16_t decoyCount;
    explicit ShmW(const fair::mq::ProgOptions* c = nullptr) : mgr("s", vc_in("segment_size", 1 << 20, size_t(1) << 40), c)
    {
        own = vcshm::segs.find(MakeShmName(mgr.fShmId, "m", mgr.fSegmentId));
        decoy = block(own, 100, vc_in("decoy_owners", 1, 1000));
        decoyCount = ShmHeader::RefCount(decoy->p);
    }
    void addRemote()
    {
        std::string n = MakeShmName(mgr.fShmId, "m", uint16_t(7));
        rem = vcshm::openSeg(n.c_str(), 1 << 20);
        mgr.fShmSegments->emplace(uint16_t(7), AllocationAlgorithm::simple_seq_fit);
        if (vc_bool("remote_segment_already_open")) mgr.GetSegment(7);
    }
    UnmanagedRegion* region = nullptr; vcshm::Seg* rc = nullptr; size_t acks0 = 0;
    // a session with unmanaged region 9, whose reference counts live in their own segment (pool) or in the managed segments
    void addRegion(bool pool)
    {
        vcshm::regionSize = vc_in("region_size", 1, size_t(1) << 40);
        vcshm::regionBase = static_cast<char*>(vc_alloc(vcshm::regionSize, 4096));
        vcshm::names.get(MakeShmName(mgr.fShmId, "rg", uint16_t(9)), vcshm::kObject)->exists = true;
        mgr.fShmRegions->emplace(uint16_t(9), RegionInfo("", 0, 0, vcshm::regionSize, pool ? 1 << 20 : 0, mgr.fShmVoidAlloc));
        region = vc_bool("region_cached") ? mgr.GetRegionFromCache(9) : mgr.GetRegion(9);
        vc_assert(region != nullptr && region->GetData() == vcshm::regionBase, "the region is found");
        if (pool) rc = vcshm::segs.find(MakeShmName(mgr.fShmId, "rrc", uint16_t(9)));
        if (vc_bool("earlier_acks")) region->fBlocksToFree.emplace_back(1234, 1, 2);
        acks0 = region->fBlocksToFree.size();
    }
    size_t acks() { return region->fBlocksToFree.size() - acks0; }
    // a live buffer of user size cap with count owners
    static vcshm::Block* block(vcshm::Seg* s, size_t cap, uint16_t count)
    {
        vcshm::Block* b = s->add(ShmHeader::FullSize(cap, 16));
        ShmHeader::Construct(b->p, 16);
        ShmHeader::RefCountPtr(b->p).store(count);
        return b;
    }
    bool frame() { return decoy->live && ShmHeader::RefCount(decoy->p) == decoyCount; }
};
// one message in an arbitrary valid state: empty, or owning one of `owners` shares of a buffer
struct AnyMsg
{
    Message m; vcshm::Block* b = nullptr; uint16_t count = 0; size_t size = 0; size_t cap = 0;
    AnyMsg(ShmW& w, const char* = "", bool queuedOk = true) : m(w.mgr)
    {
        uint32_t k = vc_choice("msg_kind", w.rem ? 3 : 2);
        m.fHint = vc_u64("hint");
        if (queuedOk) m.fQueued = vc_bool("queued");
        if (k == 0) return;
        cap = vc_in("capacity", 1, size_t(1) << 32);
        size = vc_in("msg_size", 1, cap);
        count = vc_in("owners", 1, 65534);
        b = ShmW::block(k == 1 ? w.own : w.rem, cap, count);
        own(w, k == 1 ? w.mgr.fSegmentId : 7);
    }
    AnyMsg(ShmW& w, AnyMsg& o) : m(w.mgr)   // another owner of the same buffer
    {
        b = o.b; size = o.size; cap = o.cap; count = o.count; vc_assume(count >= 2);
        own(w, o.m.fSegmentId);
    }
    void own(ShmW& w, uint16_t seg)
    {
        m.fHandle = b->handle; m.fSize = size; m.fSegmentId = seg; m.fManaged = true;
        if (vc_bool("data_resolved")) { w.mgr.GetSegment(seg); m.fLocalPtr = ShmHeader::UserPtr(b->p); }
    }
    bool isQueued() const { return m.fQueued; }
};
// contract of Manager::Allocate (proved against its body by the harnesses of C08): a fresh, exclusively owned block of this
// manager's segment with room for `size` bytes behind the aligned user offset, or MessageBadAlloc and nothing allocated
inline char* allocContract(Manager* m, size_t size, size_t al)
{
    al = std::max(al, alignof(std::max_align_t));
    vcshm::Seg* s = vcshm::segs.find(MakeShmName(m->fShmId, "m", m->fSegmentId));
    if (vc_bool("allocation_gives_up")) throw MessageBadAlloc("contract");
    vcshm::Block* b = s->add(ShmHeader::FullSize(size, al));
    ++s->allocs;
    ShmHeader::Construct(b->p, al);
    return b->p;
}
inline bool emptyMsg(const Message& m) { return m.GetSize() == 0 && m.GetData() == nullptr && m.fHandle == -1 && m.GetRefCount() == 1; }
// what has to be true of a buffer after one of its owners is gone
inline void released(vcshm::Block* b, uint16_t count, bool queued, const char* what)
{
    if (!b) return;
    if (queued) vc_assert(b->live && ShmHeader::RefCount(b->p) == count, "a buffer handed to the transport is not released by the sender");
    else if (count == 1) vc_assert(!b->live, "the last owner frees the buffer");
    else vc_assert(b->live && ShmHeader::RefCount(b->p) == count - 1, "releasing a shared buffer removes exactly one owner and keeps the memory");
}
#endif
