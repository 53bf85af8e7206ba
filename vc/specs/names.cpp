// C20: names of states, transitions and transports: every value has its own documented name, and the name leads back to the value.
#include <vcstd.h>
#include <fairmq/States.cxx>
#include <fairmq/Transports.h>
using namespace fair::mq;
VC_PROOF(C20, states)
{
    static const char* const names[] = {"UNDEFINED", "OK", "ERROR", "IDLE", "INITIALIZING DEVICE", "INITIALIZED", "BINDING", "BOUND", "CONNECTING", "DEVICE READY", "INITIALIZING TASK", "READY", "RUNNING", "RESETTING TASK", "RESETTING DEVICE", "EXITING"};
    static const State values[] = {State::Undefined, State::Ok, State::Error, State::Idle, State::InitializingDevice, State::Initialized, State::Binding, State::Bound, State::Connecting, State::DeviceReady, State::InitializingTask, State::Ready, State::Running, State::ResettingTask, State::ResettingDevice, State::Exiting};
    uint32_t i = vc_choice("state", 16);
    std::string n = GetStateName(values[i]);
    vc_assert(n == names[i], "a state has its documented name"); vc_assert(GetState(n) == values[i], "the name of a state leads back to it");
    vc_assert(int(values[i]) == int(i), "states keep their values"); vc_cover("states:done");
}
VC_PROOF(C20, transitions)
{
    static const char* const names[] = {"AUTO", "INIT DEVICE", "COMPLETE INIT", "BIND", "CONNECT", "INIT TASK", "RUN", "STOP", "RESET TASK", "RESET DEVICE", "END", "ERROR FOUND"};
    static const Transition values[] = {Transition::Auto, Transition::InitDevice, Transition::CompleteInit, Transition::Bind, Transition::Connect, Transition::InitTask, Transition::Run, Transition::Stop, Transition::ResetTask, Transition::ResetDevice, Transition::End, Transition::ErrorFound};
    uint32_t i = vc_choice("transition", 12);
    std::string n = GetTransitionName(values[i]);
    vc_assert(n == names[i], "a transition has its documented name"); vc_assert(GetTransition(n) == values[i], "the name of a transition leads back to it");
    vc_assert(int(values[i]) == int(i), "transitions keep their values"); vc_cover("transitions:done");
}
VC_PROOF(C20, transports)
{
    static const char* const names[] = {"default", "zeromq", "shmem"}; static const Transport values[] = {Transport::DEFAULT, Transport::ZMQ, Transport::SHM};
    uint32_t i = vc_choice("transport", 3);
    vc_assert(TransportName(values[i]) == names[i], "a transport has its documented name"); vc_assert(TransportType(TransportName(values[i])) == values[i], "the name of a transport leads back to it");
    auto e = GetEnabledTransports(); vc_assert(e.size() == 2 && e[0] == Transport::ZMQ && e[1] == Transport::SHM, "both transports are available"); vc_cover("transports:done");
}
// any other text is refused, and nothing else
VC_PROOF(C20, unknown)
{
    std::string s = vc_str("text"); uint32_t k = vc_choice("kind", 3); bool refused = false;
    if (k == 0) { try { State x = GetState(s); vc_assert(GetStateName(x) == s, "only the name of a state is accepted as one"); vc_cover("unknown:state"); } catch (std::out_of_range&) { refused = true; } if (refused) for (int i = 0; i < 16; ++i) vc_assert(GetStateName(State(i)) != s, "a state name is not refused"); }
    if (k == 1) { try { Transition x = GetTransition(s); vc_assert(GetTransitionName(x) == s, "only the name of a transition is accepted as one"); } catch (std::out_of_range&) { refused = true; } if (refused) for (int i = 0; i < 12; ++i) vc_assert(GetTransitionName(Transition(i)) != s, "a transition name is not refused"); }
    if (k == 2) { try { Transport x = TransportType(s); vc_assert(TransportName(x) == s, "only the name of a transport is accepted as one"); } catch (TransportError&) { refused = true; } if (refused) vc_assert(s != "default" && s != "zeromq" && s != "shmem", "a transport name is not refused"); }
    if (refused) vc_cover("unknown:refused");
}
VC_PROOF(C20, out_of_range)
{
    int v = vc_i32("value"); bool state = vc_bool("state"); vc_assume(v < 0 || v >= (state ? 16 : 12));
    try { if (state) GetStateName(State(v)); else GetTransitionName(Transition(v)); vc_unreachable("a value without a name is refused"); } catch (std::out_of_range&) { vc_cover("out_of_range:refused"); }
}
