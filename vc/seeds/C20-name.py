prop = 'C20'
needs = 'looking up the transition RESET TASK by name'
breaks = 'the name of one transition is resolved to another one'
edits = [('fairmq/States.cxx', '    { "RESET TASK",    Transition::ResetTask },', '    { "RESET TASK",    Transition::ResetDevice },')]
srcs = ['States']
cpp = r'''
#include <fairmq/States.h>
#include <cstdio>
using namespace fair::mq;
int main() { int bad = 0; for (int i = 0; i < 12; ++i) { if (GetTransition(GetTransitionName(Transition(i))) != Transition(i)) { std::printf("transition %d\n", i); bad = 1; } } return bad; }
'''
