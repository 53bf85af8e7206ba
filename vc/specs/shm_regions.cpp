//@ cxxflags -I/verif/vc/stubs_shm
#include <shmmsgs.h>
using fair::mq::TransportError; using fair::mq::RegionConfig; using fair::mq::RegionEvent; using fair::mq::RegionCallback; using fair::mq::RegionBulkCallback;
static int mlocks = 0; extern "C" int mlock(const void*, size_t) { ++mlocks; return vc_bool("mlock_fails") ? -1 : 0; }
extern "C" char* strerror(int) noexcept { static char s[] = "error"; return s; }
//@ assume C10 Boost.Interprocess (named objects, session mutex, shared maps) behaves as the in-process model stubs_shm/vcboost.h
// a session with region A, known to this process as controller or view or not at all
struct RegW
{
    Manager mgr; uint16_t a; int known = 0; UnmanagedRegion* ra = nullptr; uint64_t rcA; char* base;
    RegW() : mgr("s", 1 << 20, nullptr)
    {
        vcshm::regionSize = vc_in("region_size", 1, size_t(1) << 40);
        vcshm::regionBase = base = static_cast<char*>(vc_alloc(vcshm::regionSize, 4096));
        a = vc_u16("id_a"); rcA = vc_bool("rc_pool_a") ? 1 << 20 : 0;
        known = vc_choice("region_a", 4);   // 0: no such region, 1: registered by another device, 2: viewed here, 3: controlled here
        if (known == 0) { ev0 = mgr.fEventCounter->fCount; gen0 = Manager::fRegionsGen; return; }
        vcshm::names.get(MakeShmName(mgr.fShmId, "rg", a), vcshm::kObject)->exists = true;
        mgr.fShmRegions->emplace(a, RegionInfo("", 0, 0, vcshm::regionSize, rcA, mgr.fShmVoidAlloc));
        ++mgr.fEventCounter->fCount;
        if (known >= 2) ra = mgr.GetRegion(a);
        if (known == 3) { ra->fControlling = true; }
        ev0 = mgr.fEventCounter->fCount; gen0 = Manager::fRegionsGen;
    }
    uint64_t ev0 = 0; unsigned long gen0 = 0;
    uint64_t events() { return mgr.fEventCounter->fCount - ev0; }
};
VC_PROOF(C10, create)
{
    RegW w;
    RegionConfig cfg; bool autoId = vc_bool("auto_id"); uint16_t want = 0;
    if (!autoId) { want = vc_bool("same_id") ? w.a : vc_u16("id"); cfg.id = want; }
    else {
        uint16_t last = 0; bool counter = vc_bool("regions_created_before");
        if (counter) { last = vc_u16("last_auto_id"); vc_assume(last >= 1024 && last < 65535); w.mgr.fManagementSegment.construct<RegionCounter>(boost::interprocess::unique_instance)(last); }
        want = counter ? last + 1 : 1024;
    }
    cfg.linger = vc_u32("linger"); cfg.removeOnDestruction = vc_bool("remove"); cfg.rcSegmentSize = vc_bool("rc_pool") ? 2 << 20 : 0; cfg.userFlags = vc_i64("flags");
    bool cb = vc_bool("callback");
    size_t size = vc_bool("right_size") ? vcshm::regionSize : vc_in("size", 1, size_t(1) << 40);
    vc_guarded_by(&w.mgr.fEventCounter->fCount, sizeof(uint64_t), &w.mgr.fShmMtx->m);
    bool same = w.known && want == w.a; bool ok = true;
    std::pair<UnmanagedRegion*, uint16_t> r;
    uint64_t th0 = vc_threads_started();
    try { r = w.mgr.CreateRegion(size, cb ? RegionCallback([](void*, size_t, void*) {}) : RegionCallback(), RegionBulkCallback(), cfg); }
    catch (TransportError&) { ok = false; }
    vc_unshare(&w.mgr.fEventCounter->fCount);
    if (!ok) {
        vc_assert((same && w.known == 3) || size != vcshm::regionSize, "creating a region fails only for an id that is in use here or a size that does not match");
        vc_assert(w.mgr.fRegions.size() == (w.known >= 2), "a failed creation changes nothing locally");
        vc_assert(w.events() == 0 && w.mgr.fShmRegions->size() == (w.known > 0), "a failed creation registers and announces nothing");
        if (w.ra) vc_assert(w.mgr.fRegions.at(w.a).get() == w.ra && w.ra->fControlling == (w.known == 3), "the existing region is untouched");
        if (same && w.known == 3) vc_cover("create:duplicate"); else vc_cover("create:bad_size");
        return vc_exit_path();
    }
    vc_assert(!(same && w.known == 3), "a region this process already controls cannot be created again");
    vc_assert(r.second == want, autoId ? "automatic ids continue the session's counter" : "the region gets the requested id");
    if (autoId) { auto* rc = w.mgr.fManagementSegment.find<RegionCounter>(boost::interprocess::unique_instance).first; vc_assert(rc && rc->fCount == want, "an automatic id is used once"); vc_cover("create:auto"); }
    vc_assert(w.mgr.fRegions.size() == (w.known >= 2 && !same ? 2u : 1u) && w.mgr.fRegions.at(want).get() == r.first, "the region is known under its id");
    vc_assert(r.first->fControlling && r.first->fLinger == cfg.linger && r.first->fRemoveOnDestruction == cfg.removeOnDestruction, "the creator controls the region with its own settings");
    vc_assert(r.first->GetData() == w.base && r.first->GetSize() == vcshm::regionSize, "the region refers to its memory");
    vc_assert(r.first->fRcSegmentSize == (same ? w.rcA : cfg.rcSegmentSize), "all users of a region agree on where its reference counts live");
    vc_assert(same ? w.events() == 0 : w.events() == 1, "a new region is announced exactly once, a known one not again");
    const RegionInfo& info = w.mgr.fShmRegions->at(want);
    vc_assert(w.mgr.fShmRegions->size() == (w.known > 0 && !same ? 2u : 1u) && !info.fDestroyed, "the region is registered once");
    if (!same) vc_assert(info.fUserFlags == cfg.userFlags && info.fRCSegmentSize == cfg.rcSegmentSize && info.fSize == size, "its registration carries its configuration");
    if (same && w.known == 2) { vc_assert(r.first == w.ra, "a view is promoted, not duplicated"); vc_cover("create:promote"); }
    if (same && w.known == 1) vc_cover("create:reopen");
    if (cb) vc_assert(r.first->fAcksReceiver.joinable() && r.first->fAcksSender.joinable() && r.first->fQueue && bool(r.first->fCallback), "with a callback acknowledgements are received");
    else if (!same) vc_assert(!r.first->fAcksReceiver.joinable(), "without callback nobody takes acknowledgements from the queue");
    vc_assert(Manager::fRegionsGen != w.gen0, "cached lookups are invalidated");
    vc_exit_path();
}
VC_PROOF(C10, lookup)
{
    RegW w; uint16_t id = vc_bool("same_id") ? w.a : vc_u16("id"); bool cached = vc_bool("via_cache"); bool twice = vc_bool("twice");
    UnmanagedRegion* r = cached ? w.mgr.GetRegionFromCache(id) : w.mgr.GetRegion(id);
    if (!w.known || id != w.a) { vc_assert(r == nullptr, "an unknown region is not found"); vc_cover("lookup:unknown"); return vc_exit_path(); }
    vc_assert(r != nullptr && r->GetData() == w.base && r->GetSize() == vcshm::regionSize && w.mgr.fRegions.at(id).get() == r, "a registered region is found with its memory");
    vc_assert(r->fRcSegmentSize == w.rcA, "all users of a region agree on where its reference counts live");
    if (w.ra) vc_assert(r == w.ra, "a known region is not opened twice");
    vc_assert(r->fControlling == (w.known == 3), "looking a region up does not take control of it");
    if (w.known == 1) vc_assert(r->fQueue && r->fAcksSender.joinable() && !r->fAcksReceiver.joinable(), "a view sends acknowledgements");
    if (twice) { UnmanagedRegion* r2 = cached ? w.mgr.GetRegionFromCache(id) : w.mgr.GetRegion(id); vc_assert(r2 == r && w.mgr.fRegions.size() == 1, "lookups agree"); vc_cover("lookup:twice"); }
    vc_exit_path();
}
VC_PROOF(C10, remove)
{
    RegW w; uint16_t id = vc_bool("same_id") ? w.a : vc_u16("id"); vc_assume(w.known >= 1); bool viaCache = vc_bool("cached");
    if (viaCache) { UnmanagedRegion* r = w.mgr.GetRegionFromCache(w.a); if (w.known == 1) w.ra = r; w.known = w.known == 1 ? 2 : w.known; }
    bool here = w.known >= 2 && id == w.a; bool rem = false;
    if (w.ra) { rem = vc_bool("remove_on_destruction"); w.ra->fRemoveOnDestruction = rem; }
    unsigned long gen = Manager::fRegionsGen;
    w.mgr.RemoveRegion(id);
    vc_assert(Manager::fRegionsGen != gen, "cached lookups are invalidated");
    if (!here) { vc_assert(w.mgr.fRegions.size() == (w.known >= 2) && w.events() == 0, "removing an unknown region changes nothing"); vc_cover("remove:unknown"); return vc_exit_path(); }
    vc_assert(w.mgr.fRegions.size() == 0, "the region is forgotten");
    vc_assert(w.mgr.fShmRegions->at(id).fDestroyed == rem && w.events() == (rem ? 1 : 0), "its destruction is announced exactly once, if it is removed with the object");
    bool ex = vcshm::names.exists(MakeShmName(w.mgr.fShmId, "rg", id), vcshm::kObject);
    vc_assert(ex == !(rem && w.known == 3), "only the controller removes the memory, and only if configured to");
    if (!ex) vc_cover("remove:gone"); else vc_cover("remove:stays");
    if (ex) {
        UnmanagedRegion* r = w.mgr.GetRegionFromCache(id);
        vc_assert(r != nullptr && w.mgr.fRegions.at(id).get() == r, "a lookup after removal never returns the dead region");
        vc_assert(r->GetData() == w.base, "a lookup after removal gives a usable region");
    }
    vc_exit_path();
}
VC_PROOF(C10, lifetime)
{
    bool ctrl = vc_bool("controlling"), exists = vc_bool("exists"), cb = vc_bool("acks");
    vcshm::regionSize = vc_in("mapped_size", 1, size_t(1) << 40); vcshm::regionBase = static_cast<char*>(vc_alloc(vcshm::regionSize, 4096));
    RegionConfig cfg; cfg.id = vc_u16("id"); cfg.removeOnDestruction = vc_bool("remove"); cfg.rcSegmentSize = vc_bool("rc_pool") ? 1 << 20 : 0; cfg.creationFlags = int(vc_u32("creation_flags"));
    cfg.lock = vc_bool("lock");
    std::string obj = MakeShmName("77", "rg", *cfg.id), q = MakeShmName("77", "rgq", *cfg.id), rrc = MakeShmName("77", "rrc", *cfg.id);
    vcshm::names.get("other", vcshm::kObject)->exists = true;
    vcshm::names.get(obj, vcshm::kObject)->exists = exists;
    size_t size = vc_bool("any_size") ? 0 : vc_bool("right_size") ? vcshm::regionSize : vc_in("size", 1, size_t(1) << 40);
    UnmanagedRegion* r = nullptr; uint64_t th0 = vc_threads_started(), tj0 = vc_threads_joined();
    try { r = new UnmanagedRegion("77", size, ctrl, cfg); }
    catch (TransportError&) {
        vc_assert((!ctrl && !exists) || (size != 0 && size != vcshm::regionSize) || (cfg.lock && mlocks), "opening fails only for a missing view, a wrong size, or if the memory cannot be locked as requested"); vc_cover("lifetime:failed");
        return vc_exit_path();
    }
    vc_assert(ctrl || exists, "a view needs an existing region"); vc_assert(size == 0 || size == vcshm::regionSize, "a size mismatch is refused");
    vc_assert(r->GetData() == vcshm::regionBase && r->GetSize() == vcshm::regionSize && vcshm::lastMapFlags == cfg.creationFlags, "the region is mapped as configured");
    vc_assert(mlocks == (cfg.lock ? 1 : 0), "memory is locked if and only if requested");
    vc_assert(vcshm::names.exists(obj, vcshm::kObject), "the memory exists while the region does");
    vc_assert((r->fRefCountPool != nullptr) == (cfg.rcSegmentSize > 0) && vcshm::names.exists(rrc, vcshm::kSegment) == (cfg.rcSegmentSize > 0), "reference counts have their own segment if configured");
    if (cb) { r->InitializeQueues(); r->StartAckSender(); if (ctrl) r->StartAckReceiver(); }
    delete r;
    vc_assert(vc_threads_joined() - tj0 == vc_threads_started() - th0, "no acknowledgement thread outlives its region");
    bool gone = ctrl && cfg.removeOnDestruction;
    vc_assert(vcshm::names.exists(obj, vcshm::kObject) == !gone, "only the controller removes the memory, and only if configured to");
    vc_assert(vcshm::names.exists(rrc, vcshm::kSegment) == (cfg.rcSegmentSize > 0 && !gone), "the reference counts go with the memory");
    vc_assert(vcshm::names.exists(q, vcshm::kQueue) == (cb && !ctrl), "the controller removes the acknowledgement queue");
    vc_assert(vcshm::names.exists("other", vcshm::kObject), "nothing else is removed");
    vc_cover("lifetime:ok");
    vc_exit_path();
}
