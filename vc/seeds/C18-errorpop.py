prop = 'C18'
needs = 'an error state observed by two waits (e.g. a controller that catches the error and waits again)'
breaks = 'the error state is consumed by the first wait that reports it, later waits block or return as if nothing had happened'
edits = [('fairmq/StateQueue.h', '        fair::mq::State state = fStates.front();\n        if (state == fair::mq::State::Error) {\n            throw DeviceErrorState("Controlled device transitioned to error state.");\n        }\n        fStates.pop();\n        return state;\n', '        fair::mq::State state = fStates.front();\n        fStates.pop();\n        if (state == fair::mq::State::Error) {\n            throw DeviceErrorState("Controlled device transitioned to error state.");\n        }\n        return state;\n')]
srcs = ['States']
cpp = r'''
#include <fairmq/StateQueue.h>
#include <cstdio>
using namespace fair::mq;
int main()
{
    StateQueue q; q.Push(State::Running); q.Push(State::Error); int errors = 0;
    if (q.WaitForNext() != State::Running) return 1;
    for (int i = 0; i < 2; ++i) { try { q.WaitForNext(std::chrono::milliseconds(10)); } catch (DeviceErrorState&) { ++errors; } }
    if (errors != 2) std::printf("the error was reported %d times\n", errors);
    return errors != 2;
}
'''
