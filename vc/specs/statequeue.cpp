//@ assume C18 std::queue behaves as the FIFO model in stubs_shm/vcqueue.h; other threads use the queue only through its own functions
//@ assume C18 at most 2^40 waits and notifications per call (ghost counters)
// C18: the queue of state changes a controller waits on: order, completeness, wake-ups and errors.
#include <vcstd.h>
#include <stubs_shm/vcqueue.h>
#define queue vc_queue
#define deque vc_deque
#include <fairmq/StateQueue.h>
#include <fairmq/States.cxx>
using fair::mq::State; using fair::mq::StateQueue; using fair::mq::DeviceErrorState;
using vcq = std::decay_t<decltype(std::declval<StateQueue>().fStates)>;
namespace {
StateQueue* Q; vcq* S; bool custom, envCustom; size_t seenNotify; size_t h0;
bool lockedInSignal; int signals;
struct Ghost { Ghost() { vc_ghost_begin(); } ~Ghost() { vc_ghost_end(); } };
State st(size_t i) { return S->b[i]; }
}
static bool queueInv() { Ghost g; return S->h <= S->t && S->t <= S->cap && S->h >= h0; }
static bool orderInv() { Ghost g; return S->h == h0; }
static void pushSome()     // other threads push any number of states (and change the custom condition) before this one gets the lock
{
    vc_ghost_begin();
    size_t n = vc_in("pushed_meanwhile", 0, S->cap); vc_assume(S->t + n <= S->cap);
    if (!vc_symbolic()) for (size_t i = 0; i < n; ++i) S->b[S->t + i] = State(vc_in("pushed_state", 1, 15));
    S->t += n;
    if (envCustom && vc_bool("custom_now")) custom = !custom;
    vc_ghost_end();
}
static void onWait() { pushSome(); }
static void onLock() { pushSome(); seenNotify = vc_notified(&Q->fCV); }
struct World {
    World() {
        Q = new StateQueue; S = &Q->fStates; S->b = static_cast<State*>(vc_malloc(S->cap * sizeof(State)));
        S->h = vc_in("first", 0, S->cap); S->t = vc_in("end", S->h, S->cap); h0 = S->h;
        if (!vc_symbolic()) { if (S->t - S->h > 40) { S->t = S->h + (S->t - S->h) % 40; } for (size_t i = S->h; i < S->t; ++i) S->b[i] = State(vc_in("state", 1, 15)); }
        custom = vc_bool("custom"); envCustom = false; signals = 0;
        vc_guarded_by(S, sizeof(*S), &Q->fMtx); vc_on_lock(&Q->fMtx, onLock); vc_on_wait(onWait);
        vc_inv(queueInv, "queue"); vc_inv(orderInv, "states stay queued while waiting");
    }
    void popped(State s, size_t t0) { vc_ghost_begin(); vc_assert(S->h == h0 + 1 && S->t >= t0, "exactly the oldest state is taken"); vc_assert(S->h <= S->t, "a state was there"); vc_assert(s == st(h0), "the oldest state is delivered"); vc_ghost_end(); }
    void kept(size_t t0) { vc_ghost_begin(); vc_assert(S->h == h0 && S->t >= t0, "nothing is taken"); vc_ghost_end(); }
    bool errorFront() { vc_ghost_begin(); bool r = S->h < S->t && st(S->h) == State::Error; vc_ghost_end(); return r; }
    ~World() { vc_assert(!vc_lock_held(&Q->fMtx), "the lock is released"); }
};
static size_t end0() { vc_ghost_begin(); size_t r = S->t; vc_ghost_end(); return r; }
VC_PROOF(C18, next)
{
    World w; size_t t0 = end0();
    try { State s = Q->WaitForNext(); vc_assert(s != State::Error, "an error is not delivered as a state"); w.popped(s, t0); vc_cover("next:got"); if (vc_waits()) vc_cover("next:waited"); }
    catch (DeviceErrorState&) { vc_assert(w.errorFront(), "an error is reported only if the device failed"); w.kept(t0); vc_cover("next:error"); }
}
VC_PROOF(C18, next_timed)
{
    World w; size_t t0 = end0(); long ms = long(vc_in("ms", 0, 1000000));
    try {
        auto r = Q->WaitForNext(std::chrono::milliseconds(ms));
        if (r.first) { vc_assert(r.second != State::Error, "an error is not delivered as a state"); w.popped(r.second, t0); vc_cover("next_timed:got"); }
        else { vc_assert(r.second == State::Ok, "no state"); w.kept(t0); vc_ghost_begin(); vc_assert(S->h == S->t, "nothing is reported only if nothing is queued"); vc_ghost_end(); vc_assert(vc_waits() > 0, "it waited for a state"); vc_cover("next_timed:timeout"); }
    } catch (DeviceErrorState&) { vc_assert(w.errorFront(), "an error is reported only if the device failed"); w.kept(t0); vc_cover("next_timed:error"); }
}
static bool customPred() { vc_assert(vc_lock_held(&Q->fMtx), "the condition is checked under the lock"); return custom; }
VC_PROOF(C18, next_or_custom)
{
    World w; size_t t0 = end0(); envCustom = true;
    try {
        auto r = Q->WaitForNextOrCustom(customPred);
        if (r.first) { vc_assert(r.second != State::Error, "an error is not delivered as a state"); w.popped(r.second, t0); vc_cover("next_or_custom:got"); }
        else { w.kept(t0); vc_ghost_begin(); vc_assert(S->h == S->t && custom, "waiting ends without a state only if the condition holds"); vc_ghost_end(); vc_cover("next_or_custom:custom"); }
    } catch (DeviceErrorState&) { vc_assert(w.errorFront(), "an error is reported only if the device failed"); w.kept(t0); }
}
VC_PROOF(C18, custom)
{
    World w; size_t t0 = end0(); envCustom = true;
    try {
        auto r = Q->WaitForCustom(customPred);
        vc_assert(custom, "waiting ends only if the condition holds");
        if (r.first) { vc_assert(r.second != State::Error, "an error is not delivered as a state"); w.popped(r.second, t0); vc_cover("custom:got"); }
        else { w.kept(t0); vc_ghost_begin(); vc_assert(S->h == S->t, "nothing queued"); vc_ghost_end(); }
    } catch (DeviceErrorState&) { vc_assert(w.errorFront() && custom, "an error is reported only if the device failed"); w.kept(t0); }
}
namespace { State wanted; size_t arb; }
// the states taken so far (an arbitrary one of them stands for all) are neither the wanted one nor an error
static bool notFound() { Ghost g; return !(h0 <= arb && arb < S->h) || (st(arb) != wanted && st(arb) != State::Error); }
VC_PROOF(C18, state)
{
    World w; wanted = State(vc_in("wanted", 1, 15)); arb = vc_in("arbitrary", 0, S->cap - 1);
    vc_inv_clear(); vc_inv(queueInv, "queue"); vc_inv(notFound, "only other states were skipped");
    try {
        Q->WaitForState(wanted);
        vc_ghost_begin(); vc_assert(S->h > h0 && S->h <= S->t && st(S->h - 1) == wanted, "waiting ends with the wanted state");
        if (h0 <= arb && arb + 1 < S->h) vc_assert(st(arb) != wanted, "waiting ends with the first wanted state"); vc_ghost_end(); vc_cover("state:reached");
    } catch (DeviceErrorState&) { vc_assert(w.errorFront(), "an error is reported only if the device failed"); vc_assert(notFound(), "the wanted state was not there before"); vc_cover("state:error"); }
}
// WaitForStateOrCustom is checked against the contract of WaitForNextOrCustom (proved in next_or_custom); the condition is one that stays once it holds
//@ replace state_or_custom std::pair<bool, fair::mq::State> fair::mq::StateQueue::WaitForNextOrCustom<bool (*&)()>(bool (*&)()) => vcc_next_or_custom
namespace { bool sticky; bool lastFirst; State lastState; size_t lastPos; bool stickyPred() { if (!sticky && vc_bool("custom_now")) sticky = true; return sticky; } }
extern "C" std::pair<bool, State> vcc_next_or_custom(StateQueue*, bool (*&)())
{
    Ghost g; pushSome(); if (!sticky && vc_bool("custom_meanwhile")) sticky = true;
    if (S->h == S->t) { vc_assume(sticky); lastFirst = false; lastState = State::Ok; }
    else if (st(S->h) == State::Error) throw DeviceErrorState("error");
    else { lastFirst = true; lastState = st(S->h); ++S->h; }
    return {lastFirst, lastState};
}
static bool lastInv() { Ghost g; return lastFirst ? S->h > h0 && lastState == st(S->h - 1) : sticky; }
VC_PROOF(C18, state_or_custom)
{
    World w; wanted = State(vc_in("wanted", 1, 15)); sticky = custom; arb = vc_in("arbitrary", 0, S->cap - 1);
    vc_inv_clear(); vc_inv(queueInv, "queue"); vc_inv(lastInv, "last result");
    try {
        Q->WaitForStateOrCustom(wanted, stickyPred);
        Ghost g; bool reached = S->h > h0 && S->h <= S->t && st(S->h - 1) == wanted;
        vc_assert(reached || sticky, "waiting ends with the wanted state or if the condition holds"); if (reached) vc_cover("state_or_custom:reached"); else vc_cover("state_or_custom:custom");
    } catch (DeviceErrorState&) { vc_assert(w.errorFront(), "an error is reported only if the device failed"); }
}
static void signalled() { ++signals; lockedInSignal = vc_lock_held(&Q->fMtx); }
VC_PROOF(C18, push)
{
    World w; uint32_t k = vc_choice("operation", 4); State s = State(vc_in("new_state", 0, 15));
    static size_t tLocked; vc_ghost_begin(); size_t j = vc_in("j", 0, S->cap - 1); bool in = j >= S->h && j < S->t; State sj = in ? S->b[j] : State::Ok; size_t t0 = S->t; vc_ghost_end();
    if (k == 0) Q->Push(s);
    if (k == 1) Q->Push(s, signalled);
    if (k == 2) Q->Notify(signalled);
    if (k == 3) Q->Locked(signalled);
    vc_ghost_begin();
    vc_assert(signals == (k == 0 ? 0 : 1) && (k == 0 || lockedInSignal), "the signal function runs once, under the lock");
    if (k < 3) vc_assert(vc_notified(&Q->fCV) - seenNotify >= 1000, "every waiting thread is woken after the change (they may wait for different things)");
    if (k < 2) vc_assert(S->t > t0 && S->b[S->t - 1] == s, "the state is appended"); else vc_assert(S->t >= t0, "the queue is unchanged");
    vc_assert(S->h == h0, "nothing is taken"); if (in) vc_assert(S->b[j] == sj, "queued states are unchanged");
    vc_ghost_end(); vc_cover("push:done");
}
VC_PROOF(C18, clear)
{
    World w; Q->Clear(); vc_ghost_begin(); vc_assert(S->h == S->t, "nothing is queued after clearing"); vc_ghost_end();
    State s = State(vc_in("new_state", 1, 15)); vc_assume(s != State::Error); vc_on_lock(&Q->fMtx, nullptr);
    Q->Push(s); vc_assert(Q->WaitForNext() == s, "the queue works after clearing"); vc_cover("clear:done");
}
