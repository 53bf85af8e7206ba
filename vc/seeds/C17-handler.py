prop = 'C17'
needs = 'a state change callback (e.g. of a plugin) that requests the next transition'
breaks = 'the handler gets the state that is pending by then instead of the one just entered: a state is skipped and another one handled twice'
edits = [('fairmq/StateMachine.cxx', '            CallStateHandler(fState);\n        }\n', '            CallStateHandler(fNewState);\n        }\n')]
srcs = ['StateMachine', 'States']
cpp = r'''
#include <fairmq/StateMachine.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <vector>
using namespace fair::mq;
using namespace std::chrono_literals;

int main()
{
    StateMachine sm; std::vector<State> handled;
    sm.SubscribeToStateChange("plugin", [&](const State s) { if (s == State::Idle) sm.ChangeState(handled.empty() ? Transition::InitDevice : Transition::End); if (s == State::InitializingDevice) sm.ChangeState(Transition::CompleteInit);
        if (s == State::Initialized) sm.ChangeState(Transition::ResetDevice); if (s == State::ResettingDevice) sm.ChangeState(Transition::Auto); });
    sm.HandleStates([&](const State s) { handled.push_back(s); });
    sm.Start(); sm.ProcessWork();
    std::vector<State> want{State::InitializingDevice, State::Initialized, State::ResettingDevice, State::Idle, State::Exiting};
    for (State s : handled) std::printf("%d ", int(s)); std::printf("\n");
    return handled != want;
}
'''
