//@ cxxflags -I/verif/vc/stubs_sig
//@ opt work cut=1
//@ bound subscribers six sample keys, any three neighbours in either order
//@ assume C17 boost::signals2 behaves as the model in stubs_sig (slots called in order of connection, only while connected); callbacks do not throw
//@ assume C17 other threads act on the machine only through its own functions; at most 2^40 waits and notifications per call (ghost counters)
// C17: the worker takes every accepted state once, in order, and prepares, announces and handles it; errors end it.
#include <set>
#include <boost/any.hpp>
#include <boost/mpl/for_each.hpp>
#define FUSION_MAX_VECTOR_SIZE 20
#include <boost/msm/back/state_machine.hpp>
#include <boost/msm/back/tools.hpp>
#include <boost/msm/back/metafunctions.hpp>
#include <boost/msm/front/state_machine_def.hpp>
#include <boost/msm/front/functor_row.hpp>
#include <boost/core/demangle.hpp>
#include <boost/signals2.hpp>
#include <vcstd.h>
#include <fairmq/States.cxx>
#include <fairmq/StateMachine.cxx>
using fair::mq::State; using fair::mq::Transition; using fair::mq::StateMachine;
namespace {
StateMachine* SM; fair::mq::fsm::FairMQFSM* F;
bool open, custom; State acc, cur; int phase, ended; uint64_t taken; bool inError;
bool havePrep, haveHandler; int errorsAnnounced;
uint64_t sel(bool c, uint64_t x, uint64_t y) { uint64_t m = -uint64_t(c); return (x & m) | (y & ~m); }
void act()                 // other threads: request transitions; ChangeState (C16) accepts any while none is pending and errors always, nothing after an error
{
    vc_ghost_begin();
    bool go = vc_bool("transition_accepted"); uint64_t n = vc_in("new_state", 2, 15);
    vc_assume(!go | (!inError & (!open | (n == uint64_t(State::Error)))));
    uint64_t v = sel(go, n, uint64_t(acc)); acc = State(v);
    F->fNewState = State(v); open |= go; F->fNewStatePending = open; inError |= go & (n == uint64_t(State::Error));
    vc_ghost_end();
}
void step(int want, State s)
{
    vc_assert(!vc_lock_held(&F->fStateMtx), "callbacks may use the machine");
    vc_assert(phase == want, "a state is prepared, then announced, then handled, once each");
    if (want == 0) { vc_assert(open, "only an accepted state is taken, and only once"); vc_assert(s == acc, "the state taken is the one accepted last"); cur = acc; open = false; vc_ghost_begin(); bool free = !F->fNewStatePending; vc_ghost_end(); vc_assert(free, "the next transition can be requested"); }
    vc_assert((s == cur) & (F->fState == cur), "every callback sees the state just entered");
    vc_assert(ended == 0, "nothing is handled after the final state");
    phase = (want + 1) % 3; if (want == 2) ended = (cur == State::Exiting) | (cur == State::Error);
    act();
}
bool stateInv() { vc_ghost_begin(); bool r = (F->fNewStatePending == open) & (!open | (F->fNewState == acc)) & (phase == 0) & (ended == 0) & ((inError & open) == (open & (acc == State::Error))) & (!inError | open); vc_ghost_end(); return r; }
struct World {
    World()
    {
        SM = new StateMachine; F = static_cast<fair::mq::fsm::FairMQFSM*>(SM->fFsm.get());
        F->fState = State(vc_in("state", 1, 15)); open = vc_bool("pending"); acc = State(vc_in("accepted", 2, 15)); F->fNewState = acc; F->fNewStatePending = open; inError = open && acc == State::Error;
        phase = ended = 0; cur = F->fState;
    }
    void env() { vc_on_lock(&F->fStateMtx, act); vc_on_wait(act); vc_guarded_by(&F->fNewState, sizeof(F->fNewState), &F->fStateMtx); vc_inv(stateInv, "state machine"); }
};
}
VC_PROOF(C17, work)
{
    World w;
    SM->PrepareState([](const State s) { step(0, s); });
    SM->SubscribeToStateChange("1", [](const State s) { step(1, s); });
    SM->HandleStates([](const State s) { step(2, s); });
    w.env(); vc_guarded_by(&F->fNewStatePending, sizeof(F->fNewStatePending), &F->fStateMtx);
    bool thrown = false;
    try { F->ProcessWork(); } catch (StateMachine::ErrorStateException&) { thrown = true; }
    vc_assert(ended == 1 && phase == 0, "the worker ends after handling a final state");
    vc_assert(thrown == (cur == State::Error), "an error ends the worker with an exception"); vc_assert(cur == State::Error || cur == State::Exiting, "the worker ends only in EXITING or ERROR");
    vc_assert(!vc_lock_held(&F->fStateMtx), "the lock is released");
    if (thrown) vc_cover("work:error"); else vc_cover("work:exit");
}
// an exception thrown by a callback (user code), in whatever state: the machine ends in ERROR, everyone is told, nothing more is accepted
static int seen; static State seenState[6]; static int newT; static Transition lastT;
static void arm() { seen = newT = 0; SM->SubscribeToStateChange("s", [](const State s) { if (seen < 6) seenState[seen] = s; ++seen; }); SM->SubscribeToNewTransition("t", [](const Transition t) { ++newT; lastT = t; }); }
VC_PROOF(C17, failure)
{
    World w; SM->Start(); vc_assume(open); vc_assume(acc != State::Error);
    uint32_t k = vc_choice("who_throws", 3);
    if (k == 0) SM->PrepareState([](const State) { throw std::runtime_error("prepare"); });
    arm();
    if (k == 1) SM->SubscribeToStateChange("9", [](const State s) { if (seen == 2) throw std::runtime_error("change"); });
    if (k == 2) SM->HandleStates([](const State) { throw std::runtime_error("handle"); });
    bool thrown = false;
    try { SM->ProcessWork(); } catch (StateMachine::ErrorStateException&) { vc_assert(false, "the callback's own exception reaches the caller"); } catch (std::runtime_error&) { thrown = true; }
    vc_assert(thrown, "the callback's exception reaches the caller");
    vc_assert(SM->GetCurrentState() == State::Error, "the machine is in the error state");
    vc_assert(seen >= 2 && seenState[0] == State::Idle && seenState[seen - 1] == State::Error, "the subscribers learn about the error");
    vc_assert(k == 0 ? seen == 2 : (seen == 3 && seenState[1] == acc), "every state is announced once");
    vc_assert(newT == 1 && lastT == Transition::ErrorFound, "the error is requested");
    vc_assert(!vc_lock_held(&F->fStateMtx), "the lock is released");
    vc_assert(!SM->ChangeState(Transition::InitDevice) && !SM->ChangeState(Transition::End), "nothing else is accepted any more");
    vc_cover("failure:done");
}
// waiting for a pending state
VC_PROOF(C17, wait_pending)
{
    World w; w.env();
    SM->WaitForPendingState();
    vc_assert(open && SM->NewStatePending(), "waiting ends only when a state is pending"); vc_assert(!vc_lock_held(&F->fStateMtx), "the lock is released"); vc_cover("wait_pending:done");
}
VC_PROOF(C17, wait_pending_for)
{
    World w; w.env(); int ms = vc_i32("ms"); vc_assume((ms >= -1) & (ms < 100000000));
    bool r = SM->WaitForPendingStateFor(ms);
    vc_assert(r == open && SM->NewStatePending() == open, "the result says whether a state is pending"); vc_assert(r || vc_waits() > 0, "it waited"); vc_assert(!vc_lock_held(&F->fStateMtx), "the lock is released");
    if (r) vc_cover("wait_pending_for:pending"); else vc_cover("wait_pending_for:timeout");
}
// subscribers: every one present is called once per event, ordered by the number their key starts with; unsubscribing removes exactly its own
static const char* const keys[] = {"1", "2_plugin", "-3", "10", "device", "07x"}; static const int prio[] = {1, 2, -3, 10, 0, 7};
static int called[3], order[3], calls; static uint32_t key[3]; static Transition told;
static void sub(int i) { SM->SubscribeToStateChange(keys[key[i]], [i](const State s) { vc_assert(s == State::Bound, "the state is passed on"); called[i]++; if (calls < 3) order[calls] = i; calls++; }); }
VC_PROOF(C17, subscribers)
{
    World w; calls = 0; uint32_t r = vc_choice("keys", 6); bool back = vc_bool("backwards"); for (int i = 0; i < 3; ++i) { called[i] = 0; key[i] = (r + (back ? 6 - i : i)) % 6; }
    for (int i = 0; i < 3; ++i) { sub(i); }
    uint32_t gone = vc_choice("unsubscribe", 5);        // one of the three, an unknown key, or nothing
    if (gone < 3) SM->UnsubscribeFromStateChange(keys[key[gone]]); if (gone == 3) SM->UnsubscribeFromStateChange("unknown");
    if (gone < 3 && vc_bool("unsubscribe_twice")) SM->UnsubscribeFromStateChange(keys[key[gone]]);
    bool again = gone < 3 && vc_bool("subscribe_again"); if (again) { sub(gone); }
    F->CallStateChangeCallbacks(State::Bound);
    for (int i = 0; i < 3; ++i) { vc_assert(called[i] == (i != int(gone) || again), "exactly the current subscribers are told, once"); }
    for (int i = 1; i < calls; ++i) { vc_assert(prio[key[order[i - 1]]] <= prio[key[order[i]]], "subscribers are told in the order of the number their key starts with"); }
    vc_assert(!vc_lock_held(&F->fSubscriptionsMtx), "the lock is released"); vc_cover("subscribers:done");
}
static void subT(int i) { SM->SubscribeToNewTransition(keys[i], [i](const Transition t) { told = t; called[i]++; }); }
VC_PROOF(C17, transition_subscribers)
{
    World w; SM->Start(); for (int i = 0; i < 3; ++i) { called[i] = 0; subT(i); }
    uint32_t gone = vc_choice("unsubscribe", 5); if (gone < 3) SM->UnsubscribeFromNewTransition(keys[gone]); if (gone == 3) SM->UnsubscribeFromNewTransition("unknown");
    bool again = gone < 3 && vc_bool("subscribe_again"); if (again) { subT(gone); }
    Transition t = Transition(vc_in("transition", 0, 11)); told = Transition::Auto;
    F->CallNewTransitionCallbacks(t);
    for (int i = 0; i < 3; ++i) { vc_assert(called[i] == (i != int(gone) || again), "exactly the current subscribers are told, once"); }
    vc_assert(told == t, "the transition is passed on"); vc_cover("transition_subscribers:done");
}
// there is one preparation and one handler; a second one is refused, stopping removes both
static int prep[2], hand[2];
static void both(int i) { SM->PrepareState([i](const State) { prep[i]++; }); SM->HandleStates([i](const State) { hand[i]++; }); }
VC_PROOF(C17, handlers)
{
    World w; prep[0] = prep[1] = hand[0] = hand[1] = 0;
    both(0); both(1); F->CallStatePrep(State::Bound); F->CallStateHandler(State::Bound);
    vc_assert(prep[0] == 1 && hand[0] == 1 && prep[1] == 0 && hand[1] == 0, "the first handler stays");
    SM->StopHandlingStates(); F->CallStatePrep(State::Bound); F->CallStateHandler(State::Bound);
    vc_assert(prep[0] == 1 && hand[0] == 1 && prep[1] == 0 && hand[1] == 0, "nothing is handled after stopping");
    both(1); F->CallStatePrep(State::Bound); F->CallStateHandler(State::Bound);
    vc_assert(prep[0] == 1 && hand[0] == 1 && prep[1] == 1 && hand[1] == 1, "a new handler can be set after stopping"); vc_cover("handlers:done");
}
