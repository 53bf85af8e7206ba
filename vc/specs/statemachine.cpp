//@ cxxflags -I/verif/vc/stubs_sig
//@ assume C16 boost::signals2 behaves as the model in stubs_sig (slots called in order of connection, only while connected); callbacks do not throw
// C16/C17: the device state machine: which transitions are accepted when, and what the worker does with them.
#include <set>
#include <boost/any.hpp>
#include <boost/mpl/for_each.hpp>
#define FUSION_MAX_VECTOR_SIZE 20
#include <boost/msm/back/state_machine.hpp>
#include <boost/msm/back/tools.hpp>
#include <boost/msm/back/metafunctions.hpp>
#include <boost/msm/front/state_machine_def.hpp>
#include <boost/msm/front/functor_row.hpp>
#include <boost/core/demangle.hpp>
#include <boost/signals2.hpp>
#include <vcstd.h>
#include <fairmq/States.cxx>
#include <fairmq/StateMachine.cxx>
using fair::mq::State; using fair::mq::Transition; using fair::mq::StateMachine;
namespace {
StateMachine* SM; fair::mq::fsm::FairMQFSM* F;
constexpr int nStates = 16, nTrans = 12;
// the documented state diagram (docs/Device.md, fairmq/docs)
State target(State s, Transition t)
{
    switch (s) {
        case State::Idle: return t == Transition::InitDevice ? State::InitializingDevice : t == Transition::End ? State::Exiting : State::Undefined;
        case State::InitializingDevice: return t == Transition::CompleteInit ? State::Initialized : State::Undefined;
        case State::Initialized: return t == Transition::Bind ? State::Binding : t == Transition::ResetDevice ? State::ResettingDevice : State::Undefined;
        case State::Binding: return t == Transition::Auto ? State::Bound : State::Undefined;
        case State::Bound: return t == Transition::Connect ? State::Connecting : t == Transition::ResetDevice ? State::ResettingDevice : State::Undefined;
        case State::Connecting: return t == Transition::Auto ? State::DeviceReady : State::Undefined;
        case State::DeviceReady: return t == Transition::InitTask ? State::InitializingTask : t == Transition::ResetDevice ? State::ResettingDevice : State::Undefined;
        case State::InitializingTask: return t == Transition::Auto ? State::Ready : State::Undefined;
        case State::Ready: return t == Transition::Run ? State::Running : t == Transition::ResetTask ? State::ResettingTask : State::Undefined;
        case State::Running: return t == Transition::Stop ? State::Ready : State::Undefined;
        case State::ResettingTask: return t == Transition::Auto ? State::DeviceReady : State::Undefined;
        case State::ResettingDevice: return t == Transition::Auto ? State::Idle : State::Undefined;
        default: return State::Undefined;
    }
}
// the shortest way from IDLE to every state
void drive(State s)
{
    static const struct { State s; Transition t; } path[] = {
        {State::InitializingDevice, Transition::InitDevice}, {State::Initialized, Transition::CompleteInit}, {State::Binding, Transition::Bind}, {State::Bound, Transition::Auto},
        {State::Connecting, Transition::Connect}, {State::DeviceReady, Transition::Auto}, {State::InitializingTask, Transition::InitTask}, {State::Ready, Transition::Auto}, {State::Running, Transition::Run}};
    auto step = [](Transition t) { vc_assert(SM->ChangeState(t), "a transition of the diagram is accepted"); F->fState = static_cast<State>(F->fNewState); F->fNewStatePending = false; };
    if (s == State::Idle) return;
    if (s == State::Exiting) { step(Transition::End); return; }
    for (auto& p : path) {
        step(p.t);
        if (p.s == s) return;
        if (s == State::ResettingDevice && p.s == State::DeviceReady) { step(Transition::ResetDevice); return; }
        if (s == State::ResettingTask && p.s == State::Ready) { step(Transition::ResetTask); return; }
    }
}

int newTrans; Transition lastTrans; bool callbackLocked;
void fresh(State cur)
{
    SM = new StateMachine; F = static_cast<fair::mq::fsm::FairMQFSM*>(SM->fFsm.get()); SM->Start();
    vc_assert(SM->GetCurrentState() == State::Idle && !SM->NewStatePending(), "the machine starts idle");
    drive(cur);
    vc_assert(SM->GetCurrentState() == cur && !SM->NewStatePending(), "the machine is in the state it was brought to");
    newTrans = 0; callbackLocked = true;
    SM->SubscribeToNewTransition("x", [](const Transition t) { ++newTrans; lastTrans = t; callbackLocked = callbackLocked && vc_lock_held(&F->fStateMtx); });
    F->fLastTransitionResult = vc_bool("last_request_accepted");
}
State anyState() { State s = State(vc_choice("state", nStates)); vc_assume(s != State::Undefined && s != State::Ok && s != State::Error); return s; }
void accepted(Transition t, State cur, State next, uint64_t n0)
{
    vc_assert(SM->GetCurrentState() == cur, "the current state changes only when the worker takes the new one");
    vc_assert(SM->NewStatePending() && F->fNewState == next, "the new state of the diagram is pending");
    vc_assert(newTrans == 1 && lastTrans == t, "every new-transition subscriber is told once"); vc_assert(callbackLocked, "requests are handled one at a time");
    vc_assert(vc_notified(&F->fNewStatePendingCV) >= n0 + 1000, "everybody waiting for a pending state is woken up");
}
void refused(State cur, State next, bool pending)
{
    vc_assert(SM->GetCurrentState() == cur && SM->NewStatePending() == pending && F->fNewState == next, "a refused request changes nothing");
    vc_assert(newTrans == 0, "a refused request is announced to nobody");
}
}
// from every settled state: exactly the transitions of the diagram are accepted
VC_PROOF(C16, settled)
{
    State cur = anyState(); fresh(cur); State pend = F->fNewState; uint64_t n0 = vc_notified(&F->fNewStatePendingCV);
    Transition t = Transition(vc_choice("transition", nTrans));
    bool r = SM->ChangeState(t);
    State e = t == Transition::ErrorFound ? State::Error : target(cur, t);
    vc_assert(r == (e != State::Undefined), "exactly the transitions of the diagram are accepted");
    if (r) { accepted(t, cur, e, n0); vc_cover("settled:accepted"); } else { refused(cur, pend, false); vc_cover("settled:refused"); }
    vc_assert(!vc_lock_held(&F->fStateMtx), "the lock is released");
}
// a transition waits to be taken (also one requested by another thread just before): only an error is accepted
VC_PROOF(C16, pending)
{
    State cur = anyState(); fresh(cur);
    Transition first = Transition(vc_choice("first", nTrans)); vc_assume(first != Transition::ErrorFound && target(cur, first) != State::Undefined);
    vc_assert(SM->ChangeState(first), "a transition of the diagram is accepted"); newTrans = 0;
    F->fLastTransitionResult = vc_bool("last_request_accepted"); uint64_t n0 = vc_notified(&F->fNewStatePendingCV);
    Transition t = Transition(vc_choice("transition", nTrans));
    bool r = SM->ChangeState(t);
    vc_assert(r == (t == Transition::ErrorFound), "while a transition is pending only an error is accepted");
    if (r) { accepted(t, cur, State::Error, n0); vc_cover("pending:error"); } else { refused(cur, target(cur, first), true); vc_cover("pending:refused"); }
}
// after an error nothing is accepted any more
VC_PROOF(C16, error)
{
    State cur = anyState(); fresh(cur);
    vc_assert(SM->ChangeState(Transition::ErrorFound), "an error is accepted in every state"); newTrans = 0;
    bool taken = vc_bool("worker_took_it"); if (taken) { F->fState = State::Error; F->fNewStatePending = false; }
    F->fLastTransitionResult = vc_bool("last_request_accepted");
    Transition t = Transition(vc_choice("transition", nTrans));
    bool r = SM->ChangeState(t);
    vc_assert(r == (t == Transition::ErrorFound), "after an error no transition is accepted (reporting the error again is fine)"); refused(taken ? State::Error : cur, State::Error, !taken); vc_cover("error:done");
}
