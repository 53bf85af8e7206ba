//@ cxxflags -I/verif/vc/stubs_shm
#define VC_REAL_MONITOR
#include <shmmsgs.h>
#include <fairmq/shmem/Monitor.cxx>
namespace fair::mq::shmem {
std::string makeShmIdStr(const std::string& s) { return "id" + s; }
uint64_t makeShmIdUint64(const std::string&) { return 0x77; }
std::string makeShmIdStr(uint64_t) { return "77"; }
bool Manager::SpawnShmMonitor(const std::string&) { return false; }
}

using namespace boost::interprocess; using fair::mq::RegionConfig; using fair::mq::shmem::RegionInfo;
//@ assume C13 Boost.Interprocess (named objects, segments) behaves as the in-process model stubs_shm/vcboost.h
//@ bound cleanup at most two regions and two segments in the session
//@ bound reset at most two regions and two segments in the session
//@ bound reset_config at most two regions and two segments in the configuration
// ---- what a session leaves in the system, next to an unrelated session and the monitor's own marker
static const char* kId = "77";
struct Obj { std::string name; vcshm::Kind kind; bool was; };
struct Sess
{
    Obj o[16]; int n = 0; Obj other[8]; int no = 0; int regions = 0, segments = 0; vcshm::Seg* seg[2]; vcshm::Block* blk[2]; managed_shared_memory* mng = nullptr;
    Uint16RegionInfoHashMap* rm = nullptr; Uint16SegmentInfoHashMap* sm = nullptr;
    void add(const std::string& s, vcshm::Kind k, bool e) { vcshm::names.get(s, k)->exists = e; o[n++] = {s, k, e}; }
    void foreign(const std::string& s, vcshm::Kind k) { vcshm::names.get(s, k)->exists = true; other[no++] = {s, k, true}; }
    bool foreignIntact() { for (int i = 0; i < no; ++i) if (!vcshm::names.exists(other[i].name, other[i].kind)) return false; return true; }
    static uint16_t rid(int i) { return i == 0 ? 1024 : 5; }
    static uint16_t sid(int i) { return i == 0 ? 0 : 5; }
    Sess(bool records)
    {
        foreign(MakeShmName("78", "mng"), vcshm::kObject); foreign(MakeShmName("78", "rg", 1024), vcshm::kObject); foreign(MakeShmName("78", "m", 0), vcshm::kObject);
        foreign(MakeShmName("78", "rgq", 1024), vcshm::kQueue); foreign(MakeShmName(kId, "rg", 1025), vcshm::kObject); foreign("/tmp/x" + MakeShmName("78", "rg", 5), vcshm::kFile); foreign("unrelated", vcshm::kObject);
        if (!records) return;
        mng = new managed_shared_memory(open_or_create, MakeShmName(kId, "mng").c_str(), 1 << 20);
        VoidAlloc al(mng->get_segment_manager());
        add(MakeShmName(kId, "mng"), vcshm::kObject, true);
        if (vc_bool("regions_recorded")) rm = mng->construct<Uint16RegionInfoHashMap>(unique_instance)(al);
        if (vc_bool("segments_recorded")) sm = mng->construct<Uint16SegmentInfoHashMap>(unique_instance)(al);
        if (rm) regions = vc_choice("regions", 3);
        if (sm) segments = vc_choice("segments", 3);
        for (int i = 0; i < regions; ++i) {
            bool file = i == 1 && vc_bool("file_backed"), there = vc_bool("object_exists");
            rm->emplace(rid(i), RegionInfo(file ? "/tmp/x" : "", 0, 0, 4096, 1 << 20, al));
            rm->at(rid(i)).fDestroyed = vc_bool("destroyed");
            if (file) add("/tmp/x" + MakeShmName(kId, "rg", rid(i)), vcshm::kFile, there); else add(MakeShmName(kId, "rg", rid(i)), vcshm::kObject, there);
            add(MakeShmName(kId, "rgq", rid(i)), vcshm::kQueue, there); add(MakeShmName(kId, "rrc", rid(i)), vcshm::kObject, true);
        }
        for (int i = 0; i < segments; ++i) {
            bool rb = vc_bool("rbtree");
            sm->emplace(sid(i), rb ? AllocationAlgorithm::rbtree_best_fit : AllocationAlgorithm::simple_seq_fit);
            seg[i] = vcshm::openSeg(MakeShmName(kId, "m", sid(i)).c_str(), 1 << 20); blk[i] = seg[i]->add(128);
            add(MakeShmName(kId, "m", sid(i)), vcshm::kObject, true);
        }
    }
};
VC_PROOF(C13, cleanup)
{
    bool rec = vc_bool("session_exists"), full = vc_bool("full"), bySession = vc_bool("by_session_id"); kId = bySession ? "ids" : "77";
    std::string ms = MakeShmName(kId, "ms"); bool running = vc_bool("monitor_marker"); vcshm::names.get(ms, vcshm::kMutex)->exists = running;
    Sess s(rec); bool verbose = vc_bool("verbose");
    auto r = full ? (bySession ? Monitor::CleanupFull(SessionId{"s"}, verbose) : Monitor::CleanupFull(ShmId{"77"}, verbose)) : (bySession ? Monitor::Cleanup(SessionId{"s"}, verbose) : Monitor::Cleanup(ShmId{"77"}, verbose));
    vc_assert(s.foreignIntact(), "memory of other sessions is left alone");
    for (int i = 0; i < s.n; ++i) {
        vc_assert(!vcshm::names.exists(s.o[i].name, s.o[i].kind), "everything the session left behind is removed");
        bool listed = false; int times = 0;
        for (auto& x : r) if (x.first == s.o[i].name) { ++times; listed = x.second; }
        vc_assert(times == 1 && listed == s.o[i].was, "each object is reported once, with what happened to it");
    }
    vc_assert(vcshm::names.exists(ms, vcshm::kMutex) == (running && !full), "the monitor's marker is removed by a full cleanup only");
    vc_assert(r.size() == size_t(s.n) + (full ? 1 : 0), "nothing else is reported");
    if (rec) vc_cover("cleanup:session"); else vc_cover("cleanup:nothing");
    vc_exit_path();
}
VC_PROOF(C13, reset)
{
    bool rec = vc_bool("session_exists"); Sess s(rec);
    Monitor::ResetContent(ShmId{"77"}, vc_bool("verbose"));
    vc_assert(s.foreignIntact(), "memory of other sessions is left alone");
    for (int i = 0; i < s.n; ++i) {
        const std::string& nm = s.o[i].name;
        bool drop = nm.find("_rgq_") != std::string::npos || nm.find("_rrc_") != std::string::npos;
        vc_assert(vcshm::names.exists(nm, s.o[i].kind) == (s.o[i].was && !drop), "a reset keeps segments, regions and records, and drops queues and reference counts");
    }
    for (int i = 0; i < s.segments; ++i) vc_assert(s.seg[i]->resets == 1 && !s.blk[i]->live, "every segment is emptied");
    if (rec) { vc_assert((!s.rm || s.mng->find<Uint16RegionInfoHashMap>(unique_instance).first == s.rm) && (!s.sm || s.mng->find<Uint16SegmentInfoHashMap>(unique_instance).first == s.sm), "the records stay"); vc_cover("reset:session"); }
    vc_exit_path();
}
VC_PROOF(C13, reset_config)
{
    Sess s(vc_bool("session_exists"));
    uint32_t ns = vc_choice("configured_segments", 3), nr = vc_choice("configured_regions", 3); bool bad = ns && vc_bool("bad_algorithm");
    std::vector<SegmentConfig> sc; std::vector<RegionConfig> rc; bool rb0 = vc_bool("rbtree_cfg");
    for (uint32_t i = 0; i < ns; ++i) { SegmentConfig c; c.id = uint16_t(20 + i); c.size = 1 << 20; c.allocationAlgorithm = bad && i + 1 == ns ? "other" : (i == 0) == rb0 ? "rbtree_best_fit" : "simple_seq_fit"; sc.push_back(c); }
    uint64_t flags = vc_u64("flags"), size = vc_u64("size");
    for (uint32_t i = 0; i < nr; ++i) { RegionConfig c; c.id = uint16_t(30 + i); c.userFlags = int64_t(flags); c.size = size; c.rcSegmentSize = 4096 * (i + 1); rc.push_back(c); }
    // the recreated management segment starts empty
    if (auto* m = vcshm::segs.find(MakeShmName(kId, "mng"))) m->ni = 0;
    try { Monitor::ResetContent(ShmId{"77"}, sc, rc, vc_bool("verbose")); }
    catch (Monitor::MonitorError&) { vc_assert(bad, "only an unknown allocation algorithm is refused"); vc_cover("reset_config:bad"); return vc_exit_path(); }
    vc_assert(!bad, "an unknown allocation algorithm is refused");
    vc_assert(s.foreignIntact(), "memory of other sessions is left alone");
    managed_shared_memory m(open_only, MakeShmName(kId, "mng").c_str());
    auto* sm = m.find<Uint16SegmentInfoHashMap>(unique_instance).first; auto* rm = m.find<Uint16RegionInfoHashMap>(unique_instance).first; auto* ec = m.find<EventCounter>(unique_instance).first;
    vc_assert((sm ? sm->size() : 0) == ns && (rm ? rm->size() : 0) == nr && (ec ? ec->fCount.load() : 0) == ns + nr, "exactly the configured segments and regions are recorded and announced");
    for (uint32_t i = 0; i < ns; ++i) vc_assert((sm->at(uint16_t(20 + i)).fAllocationAlgorithm == AllocationAlgorithm::rbtree_best_fit) == ((i == 0) == rb0), "segments are recorded with their algorithm");
    for (uint32_t i = 0; i < nr; ++i) { const RegionInfo& x = rm->at(uint16_t(30 + i)); vc_assert(x.fUserFlags == flags && x.fSize == size && x.fRCSegmentSize == 4096 * (i + 1) && !x.fDestroyed, "regions are recorded with their configuration"); }
    vc_cover("reset_config:ok");
    vc_exit_path();
}
// ---- C14: the monitor removes the memory of a session only after its devices went silent
//@ assume C14 Boost.Interprocess (named objects, segments) behaves as the in-process model stubs_shm/vcboost.h; the clock does not jump backwards
//@ opt watch env_steps=3
//@ opt heartbeats env_steps=4
//@ bound heartbeats three passes of the listener
static Monitor* W; static bool clockOn = false, present; static void (*onSleep)() = nullptr;
// an arbitrary point in time (within 4 years), as milliseconds and nanoseconds
struct Instant
{
    int64_t ms = 0, ns = 0;
    int64_t count() const { return ms * 1000000 + ns; }
    bool operator>=(const Instant& o) const { return ms > o.ms || (ms == o.ms && ns >= o.ns); }
    bool longerThan(const Instant& from, int64_t m) const { return ms - from.ms > m || (ms - from.ms == m && ns > from.ns); }   // more than m milliseconds since from
    bool shorterThan(const Instant& from, int64_t m) const { return ms - from.ms < m || (ms - from.ms == m && ns < from.ns); }
};
static Instant instant(const char* n, const Instant& from) { Instant t{int64_t(vc_in(n, 0, uint64_t(1) << 37)), int64_t(vc_in("ns", 0, 999999))}; vc_assume(t >= from); return t; }
static Instant gNow, tRead, lastBeat;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{
    vc_ghost_begin();
    Instant t = instant("now", gNow); gNow = tRead = t;
    if (clockOn && present && vc_bool("heartbeat_arrives")) {   // the heartbeat thread may run at any time, e.g. right after the clock was read here
        lastBeat = gNow = instant("beat", t); W->fHeartbeatTriggered = true; W->fLastHeartbeat.store(system_clock::time_point(system_clock::duration(lastBeat.count())));
    }
    vc_ghost_end();
    return system_clock::time_point(system_clock::duration(t.count()));
}
} } }
extern "C" int nanosleep(const struct timespec*, struct timespec*) { if (onSleep) onSleep(); return 0; }
static bool triggered0, seen0, selfDestruct; static unsigned int timeoutMs;
static bool mngThere() { return vcshm::names.exists(MakeShmName("77", "mng"), vcshm::kObject); }
static void watched()
{
    vc_ghost_begin();
    const int64_t T = timeoutMs;
    if (present) {
        bool cleaned = !mngThere(), trig = triggered0 || lastBeat >= tRead;
        if (cleaned) { vc_assert(trig && tRead.longerThan(lastBeat, T), "a session is only cleaned up after it was seen alive and then silent for longer than the timeout"); vc_cover("watch:cleaned"); }
        else vc_assert(!trig || tRead.shorterThan(lastBeat, T + 1), "a session that went silent is cleaned up");
        vc_assert(W->fTerminating == (cleaned && selfDestruct), "the monitor ends on its own only after cleaning up, if told so");
        if (cleaned) vc_assert(!W->fHeartbeatTriggered, "a cleaned up session has to be seen again first");
        vc_assert(W->fSeenOnce, "the session was seen");
        if (!cleaned) vc_cover("watch:alive");
    } else {
        vc_assert(!W->fHeartbeatTriggered, "a vanished session has to be seen again first");
        if (!selfDestruct) vc_assert(!W->fTerminating, "the monitor waits for the next session");
        else if (seen0) vc_assert(W->fTerminating, "the monitor ends with the session it watched");
        else if (W->fTerminating) { vc_assert(tRead.longerThan(lastBeat, 2 * T), "without any session the monitor ends after twice the timeout"); vc_cover("watch:nothing"); }
        else vc_assert(tRead.shorterThan(lastBeat, 2 * T + 1), "without any session the monitor ends after twice the timeout");
    }
    vc_assert(vcshm::names.exists(MakeShmName("78", "mng"), vcshm::kObject), "other sessions are left alone");
    vc_exit_path();
}
VC_PROOF(C14, watch)
{
    selfDestruct = vc_bool("self_destruct"); timeoutMs = uint32_t(vc_in("timeout_ms", 0, 1u << 30));
    W = new Monitor("77", selfDestruct, false, vc_bool("view_only"), timeoutMs, 100, true, false);
    vcshm::names.get(MakeShmName("78", "mng"), vcshm::kObject)->exists = true;
    present = vc_bool("session_exists");
    if (present) managed_shared_memory mng(open_or_create, MakeShmName("77", "mng").c_str(), 1 << 20);
    W->fSeenOnce = seen0 = vc_bool("seen_once"); W->fHeartbeatTriggered = triggered0 = vc_bool("heartbeat_seen");
    lastBeat = instant("last_heartbeat", gNow); gNow = tRead = lastBeat;
    W->fLastHeartbeat.store(std::chrono::high_resolution_clock::time_point(std::chrono::nanoseconds(lastBeat.count())));
    clockOn = true; onSleep = watched;
    W->Watch();
    vc_unreachable("every pass ends with a pause");
}
static Heartbeat* hb; static int round_ = 0; static uint64_t seenCount = 0; static bool changed = false, hbThere = false;
static void listened()
{
    vc_ghost_begin();
    if (round_ > 0) {
        vc_assert(W->fHeartbeatTriggered == changed, "a heartbeat is noticed if and only if the counter moved");
        if (changed) { vc_assert(W->fLastHeartbeat.load().time_since_epoch().count() == tRead.count(), "the time of the last heartbeat is recorded"); vc_cover("heartbeats:noticed"); }
        else vc_assert(W->fLastHeartbeat.load().time_since_epoch().count() == 5, "silence is no heartbeat");
    }
    if (++round_ == 4) { W->fTerminating = true; }
    // what the session did in the meantime
    present = vc_bool("session_exists"); vcshm::names.get(MakeShmName("77", "mng"), vcshm::kObject)->exists = present;
    hbThere = vc_bool("counter_exists"); auto* s = vcshm::segs.find(MakeShmName("77", "mng")); s->ni = hbThere ? 1 : 0;
    uint64_t c = vc_u64("heartbeats"); hb->fCount = c;
    changed = present && hbThere && c != seenCount; if (changed) seenCount = c;
    W->fHeartbeatTriggered = false; W->fLastHeartbeat.store(std::chrono::high_resolution_clock::time_point(std::chrono::nanoseconds(5)));
    vc_ghost_end();
}
VC_PROOF(C14, heartbeats)
{
    W = new Monitor("77", false, false, false, 1000, 100, true, false);
    managed_shared_memory mng(open_or_create, MakeShmName("77", "mng").c_str(), 1 << 20); hb = mng.construct<Heartbeat>(unique_instance)(0);
    onSleep = listened;
    W->CheckHeartbeats();
    vc_assert(round_ == 4, "listening goes on until the monitor ends");
    vc_exit_path();
}
VC_PROOF(C14, lifetime)
{
    std::string ms = MakeShmName("77", "ms"); bool running = vc_bool("other_monitor_running"), view = vc_bool("view_only"), inter = vc_bool("interactive"), clean = vc_bool("clean_on_exit");
    vcshm::names.get(ms, vcshm::kMutex)->exists = running; vcshm::names.get(MakeShmName("78", "ms"), vcshm::kMutex)->exists = true;
    managed_shared_memory mng(open_or_create, MakeShmName("77", "mng").c_str(), 1 << 20);
    try { W = new Monitor("77", false, inter, view, 1000, 100, true, clean); }
    catch (Monitor::DaemonPresent&) { vc_assert(running && !view, "only a second monitor of the same session is refused"); vc_assert(vcshm::names.exists(ms, vcshm::kMutex) && mngThere(), "a refused monitor changes nothing"); vc_cover("lifetime:refused"); return vc_exit_path(); }
    vc_assert(!running || view, "a session is watched by one monitor"); vc_assert(vcshm::names.exists(ms, vcshm::kMutex) == (running || !view), "a running monitor is marked");
    delete W;
    vc_assert(mngThere() == !clean, "memory is removed at exit only if told so"); vc_assert(vcshm::names.exists(ms, vcshm::kMutex) == (running && view), "the mark goes with the monitor");
    vc_assert(vcshm::names.exists(MakeShmName("78", "ms"), vcshm::kMutex), "other monitors are left alone"); vc_cover("lifetime:ok");
    vc_exit_path();
}
