prop = 'C16'
needs = 'a Stop requested while the transition into RUNNING has been accepted but not yet taken'
breaks = 'Stop is let through although another transition is pending: an accepted transition is overwritten, its state is never entered'
edits = [('fairmq/StateMachine.cxx', '    if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::ErrorFound) {', '    // stopping does not have to wait for an ongoing transition\n    if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::Stop || transition == Transition::ErrorFound) {')]
srcs = ['StateMachine', 'States']
cpp = r'''
#include <fairmq/StateMachine.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <vector>
using namespace fair::mq;
using namespace std::chrono_literals;

int main()
{
    StateMachine sm; std::vector<State> seen; std::atomic<int> n{0}; bool accepted = false;
    sm.SubscribeToStateChange("s", [&](const State s) { seen.push_back(s); ++n; });
    sm.HandleStates([&](const State s) {
        if (s == State::Idle) sm.ChangeState(Transition::InitDevice);
        if (s == State::InitializingDevice) sm.ChangeState(Transition::CompleteInit);
        if (s == State::Initialized) sm.ChangeState(Transition::Bind);
        if (s == State::Binding || s == State::Connecting || s == State::InitializingTask) sm.ChangeState(Transition::Auto);
        if (s == State::Bound) sm.ChangeState(Transition::Connect);
        if (s == State::DeviceReady) sm.ChangeState(Transition::InitTask);
        if (s == State::Ready) { sm.ChangeState(Transition::Run); accepted = sm.ChangeState(Transition::Stop); sm.ChangeState(Transition::ErrorFound); }
    });
    sm.Start(); sm.ChangeState(Transition::InitDevice); try { sm.ProcessWork(); } catch (StateMachine::ErrorStateException&) {}
    if (accepted) std::printf("a second transition was accepted while one was pending\n");
    return accepted;
}
'''
