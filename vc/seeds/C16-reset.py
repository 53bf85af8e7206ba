prop = 'C16'
needs = 'resetting a device from BOUND'
breaks = 'RESET DEVICE in BOUND skips RESETTING DEVICE: the device goes to IDLE without being reset'
edits = [('fairmq/StateMachine.cxx', '        Row<BOUND_S,               RESET_DEVICE_E,  RESETTING_DEVICE_S,    DefaultFct, none>,', '        Row<BOUND_S,               RESET_DEVICE_E,  IDLE_S,                DefaultFct, none>,')]
srcs = ['StateMachine', 'States']
cpp = r'''
#include <fairmq/StateMachine.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <vector>
using namespace fair::mq;
using namespace std::chrono_literals;

int main()
{
    StateMachine sm; bool reset = false, sawReset = false;
    sm.HandleStates([&](const State s) {
        if (s == State::Idle) sm.ChangeState(Transition::End);
        if (s == State::InitializingDevice) sm.ChangeState(Transition::CompleteInit);
        if (s == State::Initialized) sm.ChangeState(Transition::Bind);
        if (s == State::Binding) sm.ChangeState(Transition::Auto);
        if (s == State::Bound) { reset = true; sm.ChangeState(Transition::ResetDevice); }
        if (s == State::ResettingDevice) { sawReset = true; sm.ChangeState(Transition::Auto); }
    });
    sm.Start(); sm.ChangeState(Transition::InitDevice); sm.ProcessWork(); if (!sawReset) std::printf("the device was never reset\n"); return !sawReset;
}
'''
