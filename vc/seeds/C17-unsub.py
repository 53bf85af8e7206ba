prop = 'C17'
needs = 'unsubscribing one of several new-transition subscribers'
breaks = 'unsubscribing only forgets the subscriber: it still gets called'
edits = [('fairmq/StateMachine.cxx', '        fsm->fNewTransitionSignalsMap.at(key).disconnect();\n', '        // erasing the entry drops the connection\n')]
srcs = ['StateMachine', 'States']
cpp = r'''
#include <fairmq/StateMachine.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <vector>
using namespace fair::mq;
using namespace std::chrono_literals;

int main()
{
    StateMachine sm; sm.Start(); int a = 0, b = 0;
    sm.SubscribeToNewTransition("a", [&](const Transition) { ++a; }); sm.SubscribeToNewTransition("b", [&](const Transition) { ++b; });
    sm.UnsubscribeFromNewTransition("a"); sm.ChangeState(Transition::ErrorFound);
    std::printf("a %d b %d\n", a, b); return a != 0 || b != 1;
}
'''
