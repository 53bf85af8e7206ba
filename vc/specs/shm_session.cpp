//@ cxxflags -I/verif/vc/stubs_shm
#include <shmmsgs.h>
using fair::mq::ProgOptions; using fair::mq::TransportError; using fair::mq::RegionConfig; using fair::mq::RegionEvent; using fair::mq::UnmanagedRegionPtr;
static int mlocks = 0; static bool mlockMayFail = false;
extern "C" int mlock(const void*, size_t) { ++mlocks; return mlockMayFail && vc_bool("mlock_fails") ? -1 : 0; }
extern "C" char* strerror(int) noexcept { static char s[] = "error"; return s; }
// ---- C09: who removes the shared memory of a session
//@ assume C09 Boost.Interprocess (named segments, unique instances, the session mutex) behaves as the in-process model stubs_shm/vcboost.h
static void setSession(ProgOptions& c, bool noCleanup) { if (noCleanup) c.set("shm-no-cleanup", uint64_t(1)); }
VC_PROOF(C09, two_devices)
{
    ProgOptions a, b; bool na = vc_bool("no_cleanup_a"), nb = vc_bool("no_cleanup_b"); setSession(a, na); setSession(b, nb);
    if (vc_bool("second_segment")) b.set("shm-segment-id", uint64_t(1));
    Manager* m1 = new Manager("s", 1 << 20, &a);
    vc_assert(m1->fDeviceCounter->fCount == 1, "the first device counts itself");
    Manager* m2 = new Manager("s", 1 << 20, &b);
    vc_assert(m2->fDeviceCounter == m1->fDeviceCounter && m2->fDeviceCounter->fCount == 2, "every device of the session is counted once");
    vc_assert(m1->fShmMtx == m2->fShmMtx && m1->fShmRegions == m2->fShmRegions && m1->fShmSegments == m2->fShmSegments && m1->fEventCounter == m2->fEventCounter, "devices of a session share its records");
    bool first = vc_bool("first_leaves_first"); std::string id = m1->fShmId;
    delete (first ? m1 : m2);
    vc_assert(vcshm::cleanups == 0, "nothing is removed while a device uses the session");
    bool no = first ? nb : na;
    delete (first ? m2 : m1);
    vc_assert(vcshm::cleanups == (no ? 0 : 1), "the last device removes the session, unless told not to");
    if (!no) { vc_assert(vcshm::cleanupId == id, "only its own session is removed"); vc_cover("two_devices:removed"); } else vc_cover("two_devices:kept");
    vc_exit_path();
}
// any number of other devices, joining and leaving at any time
static Manager* gMgr; static unsigned int gOthers;
static void othersMove() { vc_ghost_begin(); gOthers = vc_u32("others"); vc_assume(gOthers < 1000000); gMgr->fDeviceCounter->fCount = gOthers + 1; vc_ghost_end(); }
VC_PROOF(C09, leave)
{
    ProgOptions a; bool na = vc_bool("no_cleanup"); setSession(a, na);
    gMgr = new Manager("s", 1 << 20, &a);
    DeviceCounter* dc = gMgr->fDeviceCounter;
    vc_on_lock(&gMgr->fShmMtx->m, othersMove);
    vc_guarded_by(&dc->fCount, sizeof(dc->fCount), &gMgr->fShmMtx->m);
    gOthers = 0;
    delete gMgr;
    vc_unshare(&dc->fCount);
    vc_assert(dc->fCount == gOthers, "a leaving device is subtracted exactly once");
    vc_assert(vcshm::cleanups == (gOthers == 0 && !na ? 1 : 0), "only the last device cleans up");
    if (vcshm::cleanups) vc_cover("leave:last"); else vc_cover("leave:others");
    vc_exit_path();
}
VC_PROOF(C09, join)
{
    // the session exists, with any number of devices; the new device may fail to start
    vcshm::mayFailOpen = false;
    Manager* m0 = new Manager("s", 1 << 20, nullptr);
    unsigned int others = vc_u32("others"); vc_assume(others < 1000000);
    m0->fDeviceCounter->fCount = others;
    ProgOptions a; mlockMayFail = true;
    bool na = vc_bool("no_cleanup"); setSession(a, na);
    if (vc_bool("mlock")) a.set("shm-mlock-segment", uint64_t(1));
    uint32_t seg = vc_choice("segment", 2); if (seg) a.set("shm-segment-id", uint64_t(seg));
    if (vc_bool("seq_fit")) a.set("shm-allocation", std::string("simple_seq_fit"));
    try { gMgr = new Manager("s", 1 << 20, &a); }
    catch (TransportError&) {
        vc_cover("join:failed");
        vc_assert(m0->fDeviceCounter->fCount == others, "a device that failed to start is not counted");
        vc_assert(vcshm::cleanups == (others == 0 && !na ? 1 : 0), "a failing device cleans up only if nobody else is there");
        return vc_exit_path();
    }
    vc_cover("join:ok");
    vc_assert(m0->fDeviceCounter->fCount == others + 1, "a joining device is counted exactly once");
    vc_assert(m0->fShmSegments->size() == 1 + (seg ? 1 : 0) && m0->fShmSegments->count(seg), "its segment is recorded once");
    vc_assert(m0->fEventCounter->fCount == 1 + (seg ? 1u : 0u), "a new segment is announced, a known one is not");
    vc_assert(vcshm::cleanups == 0, "joining removes nothing");
    vc_exit_path();
}
