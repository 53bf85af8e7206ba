//@ cxxflags -I/verif/vc/stubs_shm
#include <shmmsgs.h>
using fair::mq::TransportError; using fair::mq::RegionConfig; using fair::mq::RegionEvent; using fair::mq::RegionEventCallback;
//@ assume C11 Boost.Interprocess (named objects, session mutex, shared maps) behaves as the in-process model stubs_shm/vcboost.h
//@ opt poll env_steps=3
//@ bound poll at most two segments and two regions in the session; any history of their creation, destruction and earlier reports
// One pass of the subscription thread, entered in an arbitrary reachable state: each entry of the session (segment or region) is absent, created or
// destroyed, and was reported (nothing / created / done) accordingly.
enum { ABSENT, CREATED, DESTROYED };
struct Entry { uint16_t id; bool managed; int actual, observed; int created = 0, destroyed = 0; uint64_t flags = 0; void* ptr = nullptr; size_t size = 0; };
static Entry e[4]; static Manager* M; static bool ran; static bool activeAtEntry; static int unexpected; static char* mem;
static uint64_t weight(int s) { return s == ABSENT ? 0 : s == CREATED ? 1 : 2; }
static void check()
{
    vc_ghost_begin();
    vc_assert(ran == activeAtEntry && unexpected == 0, "only events of the session are reported, and only while subscribed");
    if (ran) {
        uint64_t sum = 0;
        for (auto& x : e) {
            vc_assert(x.created == (x.observed == ABSENT && x.actual == CREATED ? 1 : 0), "a creation is reported exactly once");
            vc_assert(x.destroyed == (x.observed == CREATED && x.actual == DESTROYED ? 1 : 0), "a destruction is reported exactly once, after its creation was");
            auto it = M->fObservedRegionEvents.find({x.id, x.managed});
            vc_assert((it == M->fObservedRegionEvents.end()) == (x.actual == ABSENT), "everything seen is remembered");
            if (x.actual != ABSENT) vc_assert((it->second == RegionEvent::created) == (x.actual == CREATED), "the last state is remembered");
            sum += weight(x.actual);
        }
        vc_assert(M->fNumObservedEvents == sum, "the pass accounts for all events: nothing is missed or polled again");
        vc_cover("poll:pass");
    }
    vc_ghost_end();
}
static void onWait() { check(); if (vc_bool("unsubscribe")) M->fRegionEventsSubscriptionActive = false; else vc_exit_path(); }
static void onEvent(fair::mq::RegionInfo i)
{
    vc_ghost_begin();
    Entry* x = nullptr; for (auto& y : e) if (y.managed == i.managed && y.id == i.id) x = &y;
    if (!x) { ++unexpected; vc_ghost_end(); return; }
    if (i.event == RegionEvent::created) {
        ++x->created;
        vc_assert(i.ptr == x->ptr && i.size == x->size, "a created region is reported with its memory");
        vc_cover(x->managed ? "poll:segment" : "poll:region");
    } else { ++x->destroyed; vc_cover("poll:destroyed"); }
    if (!x->managed) vc_assert(i.flags == x->flags, "a region is reported with its user flags");
    vc_ghost_end();
}
// another device removes its region while this pass is running, before this process has opened it
static void othersRemove()
{
    vc_ghost_begin();
    Entry& x = e[2];
    if (x.actual == CREATED && x.observed == ABSENT && M->fRegions.find(x.id) == M->fRegions.end() && vc_bool("removed_meanwhile")) {
        x.actual = DESTROYED; M->fShmRegions->at(x.id).fDestroyed = true; ++M->fEventCounter->fCount;
        vcshm::names.remove(MakeShmName(M->fShmId, "rg", x.id), vcshm::kObject); vc_cover("poll:removed-meanwhile");
    }
    vc_ghost_end();
}
VC_PROOF(C11, poll)
{
    Manager* m = new Manager("s", 1 << 20, nullptr); M = m;
    vcshm::regionSize = 4096; vcshm::regionBase = mem = static_cast<char*>(vc_malloc(4096));
    vcshm::Seg* own = vcshm::segs.find(MakeShmName(m->fShmId, "m", m->fSegmentId)); own->base = static_cast<char*>(vc_opaque("segment_base"));
    e[0] = {m->fSegmentId, true, CREATED, 0}; e[0].ptr = own->base; e[0].size = own->size;
    e[1] = {7, true, 0, 0}; e[2] = {m->fSegmentId, false, 0, 0}; e[3] = {1024, false, 0, 0};   // a region may have the id of a segment
    uint64_t seen = 0, all = 0;
    m->fEventCounter->fCount = 0; m->fObservedRegionEvents.clear();
    for (int k = 0; k < 4; ++k) {
        Entry& x = e[k];
        if (k == 1) x.actual = vc_choice("second_segment", 2);
        if (k >= 2) x.actual = vc_choice("region_state", k == 2 ? 3 : 2);
        x.observed = k == 3 ? 0 : vc_choice("reported", x.actual + 1);
        if (x.observed != ABSENT) m->fObservedRegionEvents.emplace(std::make_pair(x.id, x.managed), x.observed == CREATED ? RegionEvent::created : RegionEvent::destroyed);
        seen += weight(x.observed); all += weight(x.actual);
        if (k == 1 && x.actual) {
            vcshm::Seg* s = vcshm::openSeg(MakeShmName(m->fShmId, "m", uint16_t(7)).c_str(), 2 << 20); s->base = static_cast<char*>(vc_opaque("segment_base_2"));
            m->fShmSegments->emplace(uint16_t(7), AllocationAlgorithm::simple_seq_fit); x.ptr = s->base; x.size = s->size;
        }
        if (k >= 2 && x.actual) {
            x.flags = vc_u64("flags"); x.ptr = mem; x.size = vcshm::regionSize;
            m->fShmRegions->emplace(x.id, RegionInfo("", 0, x.flags, vcshm::regionSize, 1 << 20, m->fShmVoidAlloc));
            m->fShmRegions->at(x.id).fDestroyed = x.actual == DESTROYED;
            vcshm::names.get(MakeShmName(m->fShmId, "rg", x.id), vcshm::kObject)->exists = x.actual != DESTROYED;
            if (x.actual == CREATED && k == 2 && vc_bool("known_here")) { m->GetRegion(x.id); }
        }
    }
    m->fNumObservedEvents = seen; m->fEventCounter->fCount = all;
    activeAtEntry = m->fRegionEventsSubscriptionActive = vc_bool("subscribed"); m->fRegionEventCallback = onEvent; ran = activeAtEntry;
    vc_on_wait(onWait); vc_on_lock(&m->fLocalRegionsMtx, othersRemove);
    m->RegionEventsSubscription();
    if (!activeAtEntry) check();
    vc_assert(!m->fRegionEventsSubscriptionActive, "the subscription ends when it is cancelled");
    vc_cover("poll:end");
    vc_exit_path();
}
VC_PROOF(C11, subscribe)
{
    uint64_t s0 = vc_threads_started(), j0 = vc_threads_joined();
    Manager* m = new Manager("s", 1 << 20, nullptr); static int which = 0;
    bool sub = false; int expect = 0;
    for (int step = 0; step < 3; ++step) {
        uint32_t a = vc_choice("action", 3);
        uint64_t sb = vc_threads_started(), jb = vc_threads_joined();
        if (a == 0) { m->SubscribeToRegionEvents([](fair::mq::RegionInfo) { which = 1; }); expect = 1; }
        if (a == 1) { m->SubscribeToRegionEvents([](fair::mq::RegionInfo) { which = 2; }); expect = 2; }
        if (a < 2) {
            vc_assert(vc_threads_started() == sb + 1 && vc_threads_joined() == jb + (sub ? 1 : 0), "a new subscription replaces the previous one");
            which = 0; m->fRegionEventCallback(fair::mq::RegionInfo()); vc_assert(which == expect, "events go to the latest subscriber");
            vc_assert(m->fRegionEventsSubscriptionActive, "subscribed"); sub = true; vc_cover("subscribe:on");
        } else {
            m->UnsubscribeFromRegionEvents();
            vc_assert(vc_threads_joined() == jb + (sub ? 1 : 0) && vc_threads_started() == sb, "unsubscribing ends the subscription");
            if (sub) { vc_assert(!m->fRegionEventCallback && !m->fRegionEventsSubscriptionActive, "nothing is reported after unsubscribing"); vc_cover("subscribe:off"); }
            sub = false;
        }
        vc_assert(m->SubscribedToRegionEvents() == sub, "the subscription state is reported");
        vc_assert(!vc_lock_held(&m->fRegionEventsMtx), "locks are released");
    }
    delete m;
    vc_assert(vc_threads_started() - s0 == vc_threads_joined() - j0, "no subscription survives its transport");
    vc_exit_path();
}
