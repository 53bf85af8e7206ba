//@ assume C19 at most 2^40 waits and notifications per call (ghost counters)
// C19: counting semaphores: every signal lets exactly one waiter through.
#include <vcstd.h>
#include <fairmq/tools/Semaphore.cxx>
using fair::mq::tools::Semaphore; using fair::mq::tools::SharedSemaphore;
namespace {
Semaphore* S; uint64_t seen, atLock, signalled, taken;
struct Ghost { Ghost() { vc_ghost_begin(); } ~Ghost() { vc_ghost_end(); } };
// other threads signal and wait any number of times
void env() { Ghost g; uint64_t s = vc_in("signals", 0, uint64_t(1) << 40), t = vc_in("waits", 0, uint64_t(1) << 40); vc_assume(S->fCount < uint64_t(1) << 60 && t <= S->fCount + s); S->fCount += s - t; signalled += s; taken += t; }
void onLock() { env(); seen = vc_notified(&S->fCv); Ghost g; atLock = S->fCount; }
bool inv() { Ghost g; return S->fCount < uint64_t(1) << 61; }
void setup() { signalled = taken = 0; vc_guarded_by(&S->fCount, sizeof(S->fCount), &S->fMutex); vc_on_lock(&S->fMutex, onLock); vc_on_wait(env); vc_inv(inv, "count"); }
// last count seen under the lock
uint64_t count() { Ghost g; return S->fCount; }
}
VC_PROOF(C19, create)
{
    size_t n = vc_in("n", 0, uint64_t(1) << 40); Semaphore a(n), b; SharedSemaphore c(n), d;
    vc_assert(a.GetCount() == n && c.GetCount() == n, "a semaphore starts with the given number of permits"); vc_assert(b.GetCount() == 0 && d.GetCount() == 0, "a semaphore starts without permits"); vc_cover("create:done");
}
static bool waiting; static uint64_t before;
static void waitEnv() { env(); Ghost g; before = S->fCount; }
VC_PROOF(C19, wait)
{
    S = new Semaphore(vc_in("n", 0, uint64_t(1) << 40)); setup(); vc_on_wait(waitEnv);
    vc_on_lock(&S->fMutex, [] { env(); Ghost g; before = S->fCount; });
    before = count();
    vc_inv([]() -> bool { Ghost g; return before == S->fCount; }, "nothing is taken while waiting");
    S->Wait();
    vc_assert(before > 0, "a waiter passes only if there is a permit"); vc_assert(count() == before - 1, "a waiter takes exactly one permit"); vc_assert(!vc_lock_held(&S->fMutex), "the lock is released");
    vc_cover("wait:passed"); if (vc_waits()) vc_cover("wait:waited");
}
VC_PROOF(C19, signal)
{
    S = new Semaphore(vc_in("n", 0, uint64_t(1) << 40)); setup();
    S->Signal();
    vc_assert(count() == atLock + 1, "a signal adds exactly one permit"); vc_assert(vc_notified(&S->fCv) - seen >= 1, "a waiter is woken after the permit was added"); vc_assert(!vc_lock_held(&S->fMutex), "the lock is released"); vc_cover("signal:done");
}
VC_PROOF(C19, count)
{
    S = new Semaphore(vc_in("n", 0, uint64_t(1) << 40)); setup();
    uint64_t r = S->GetCount(); vc_assert(r == atLock && count() == atLock, "the count is reported and not changed"); vc_assert(!vc_lock_held(&S->fMutex), "the lock is released");
}
VC_PROOF(C19, shared)
{
    size_t n = vc_in("n", 1, uint64_t(1) << 40); SharedSemaphore a(n); SharedSemaphore b = a; S = a.fSemaphore.get(); vc_guarded_by(&S->fCount, sizeof(S->fCount), &S->fMutex);
    uint32_t k = vc_choice("operation", 2);
    if (k == 0) { b.Signal(); vc_assert(a.GetCount() == n + 1 && b.GetCount() == n + 1, "copies share their permits"); }
    else { b.Wait(); vc_assert(a.GetCount() == n - 1 && b.GetCount() == n - 1, "copies share their permits"); }
    vc_cover("shared:done");
}
