//@ cxxflags -I/verif/vc/stubs_shm
#include <shmmsgs.h>
using fair::mq::ProgOptions; using fair::mq::TransportError;
// ---- C08: allocation of message buffers: how often it is tried, and how it fails
//@ opt allocate cut=1
//@ assume C08 Boost.Interprocess (segments, allocator, handles) behaves as the in-process model stubs_shm/vcboost.h; a failed attempt waits, it does not change the number of attempts
static long gMax; static Manager* gM; static bool gStop = false;
static bool budgetLeft() { return gMax < 0 || vcshm::failedAllocs < gMax; }
static bool gFits = true; static bool fitsInv() { return gFits || vcshm::failedAllocs == 0; }
static bool mayGoOn() { return !gStop; }
static void allocFailed()
{
    vc_assert(!gStop, "no further attempt after the last allowed one");
    if (vc_bool("interrupt")) gM->Interrupt();
    gStop = gM->Interrupted() || (gMax >= 0 && vcshm::failedAllocs >= gMax);
}
VC_PROOF(C08, allocate)
{
    ProgOptions c; gMax = 1;
    uint32_t k = vc_choice("config", 6); int max = 0;
    if (k == 1 || k == 3 || k == 5) { max = vc_i32("bad-alloc-max-attempts"); c.set("bad-alloc-max-attempts", uint64_t(int64_t(max))); gMax = max < 0 ? -1 : max == 0 ? 1 : max; }
    if (k == 2 || k == 3) { c.set("shm-throw-bad-alloc", uint64_t(0)); gMax = -1; }
    if (k == 4 || k == 5) c.set("shm-throw-bad-alloc", uint64_t(1));
    ShmW w(k ? &c : nullptr); gM = &w.mgr;
    vcshm::failedAllocs = 0; vcshm::onAllocFail = allocFailed;
    if (vc_bool("interrupted_before")) w.mgr.Interrupt();
    size_t size = vc_bool("near") ? vc_in("size", 0, w.own->size) : vc_in("size_any", 0, size_t(1) << 50);
    uint32_t ak = vc_choice("alignment", 3); size_t al = ak == 0 ? 0 : ak == 1 ? 64 : 4096;
    size_t need = ShmHeader::FullSize(size, std::max(al, alignof(std::max_align_t)));
    int n0 = w.own->n, a0 = w.own->allocs; char* p = nullptr;
    gFits = need <= w.own->size; vc_inv(fitsInv, "too large messages are not retried");
    vc_inv(budgetLeft, "attempts left"); vc_inv(mayGoOn, "allocation may go on");
    try { p = w.mgr.Allocate(size, al); }
    catch (MessageBadAlloc&) {
        vc_assert(w.own->n == n0, "a failed allocation keeps no memory");
        if (need > w.own->size) { vc_assert(vcshm::failedAllocs == 0, "a message larger than the segment fails at once"); vc_cover("allocate:too-large"); return; }
        vc_assert(vcshm::failedAllocs > 0 && gStop, "allocation gives up only after the configured number of attempts or when interrupted");
        vc_cover("allocate:gave-up");
        return;
    }
    vc_cover("allocate:ok");
    vc_assert(need <= w.own->size && !gStop, "a message larger than the segment is refused");
    vcshm::Block* b = w.own->byAddr(p);
    vc_assert(b && b->live && w.own->n == n0 + 1 && w.own->allocs == a0 + 1, "one block of the manager's own segment");
    vc_assert(ShmHeader::RefCount(p) == 1, "exclusively owned");
    char* u = ShmHeader::UserPtr(p);
    vc_assert(u + size <= p + b->size, "room for the requested size");
    vc_assert(reinterpret_cast<uintptr_t>(u) % std::max(al, alignof(std::max_align_t)) == 0, "aligned as requested");
    vc_assert(w.frame(), "other buffers untouched");
    vc_exit_path();
}
