//@ assume C28 other threads use the controller only through the functions of PluginServices; StateMachine::ChangeState as proved for C16
// C28: at most one plugin controls the device.
#include <vcstd.h>
#include <fairmq/PluginServices.cxx>
using namespace fair::mq;
namespace {
PluginServices* P; vc_storage<Device> dev; vc_storage<ProgOptions> cfg; std::string caller; uint64_t seen;
bool held0; std::string holder0;       // the controller when this thread got the lock
int changes; Transition changed; bool lockedThen, result, waitDone;
struct Ghost { Ghost() { vc_ghost_begin(); } ~Ghost() { vc_ghost_end(); } };
bool& held() { return P->fDeviceController.m_initialized; }
const std::string& holder() { return *reinterpret_cast<std::string*>(&P->fDeviceController.m_storage); }
// other plugins take, steal and release control (the name is arbitrary anyhow)
void env() { Ghost g; held() = vc_bool("controlled"); seen = vc_notified(&P->fReleaseDeviceControlCondition); held0 = held(); }
void setup()
{
    P = new PluginServices(*cfg.get(), *dev.get()); caller = vc_str("caller"); holder0 = vc_str("holder"); P->fDeviceController = holder0; changes = 0;
    vc_on_lock(&P->fDeviceControllerMutex, env); vc_on_wait(env); vc_guarded_by(&P->fDeviceController, sizeof(P->fDeviceController), &P->fDeviceControllerMutex);
}
void done() { vc_assert(!vc_lock_held(&P->fDeviceControllerMutex), "the lock is released"); }
bool mine() { Ghost g; return held() && holder() == caller; }
bool kept() { Ghost g; return held() == held0 && (!held0 || holder() == holder0); }
bool allowed() { return !held0 || holder0 == caller; }
}
// the contract of StateMachine::ChangeState (C16) as a caller sees it
bool StateMachine::ChangeState(Transition t) { StateMachine* m = this; vc_assert(m == &dev.get()->fStateMachine, "the device is asked"); ++changes; changed = t; lockedThen = vc_lock_held(&P->fDeviceControllerMutex); vc_assert(mine(), "the device is only changed by its controller"); return result = vc_bool("accepted"); }
VC_PROOF(C28, change)
{
    setup(); Transition t = Transition(vc_in("transition", 0, 11));
    try {
        bool r = P->ChangeDeviceState(caller, t);
        vc_assert(allowed(), "only the controller changes the state of the device"); vc_assert(changes == 1 && changed == t && r == result, "the requested transition is made and its result reported");
        vc_assert(lockedThen, "nobody else can take control in between"); vc_assert(mine(), "whoever changes the state is in control"); vc_cover("change:done");
    } catch (PluginServices::DeviceControlError&) { vc_assert(!allowed(), "only other plugins are refused"); vc_assert(changes == 0 && kept(), "a refused plugin changes nothing"); vc_cover("change:refused"); }
    done();
}
VC_PROOF(C28, take)
{
    setup();
    try { P->TakeDeviceControl(caller); vc_assert(allowed(), "control is not taken from another plugin"); vc_assert(mine(), "the plugin is in control"); vc_cover("take:done"); }
    catch (PluginServices::DeviceControlError&) { vc_assert(!allowed(), "only other plugins are refused"); vc_assert(kept(), "a refused plugin changes nothing"); vc_cover("take:refused"); }
    vc_assert(changes == 0, "the device is not touched"); done();
}
VC_PROOF(C28, steal) { setup(); P->StealDeviceControl(caller); vc_assert(mine(), "the plugin is in control"); vc_assert(changes == 0, "the device is not touched"); done(); vc_cover("steal:done"); }
VC_PROOF(C28, release)
{
    setup(); P->ReleaseDeviceControl(caller);
    vc_assert(allowed() ? (vc_ghost_begin(), !held()) : kept(), "only the controller can release control"); vc_ghost_end();
    if (held0 && allowed()) { vc_assert(vc_notified(&P->fReleaseDeviceControlCondition) - seen >= 1000, "everybody waiting for the release is woken"); vc_cover("release:done"); }
    vc_assert(changes == 0, "the device is not touched"); done();
}
VC_PROOF(C28, get)
{
    setup(); auto c = P->GetDeviceController(); vc_assert(bool(c) == held0 && (!held0 || *c == holder0), "the controller is reported"); vc_assert(kept(), "nothing is changed"); done(); vc_cover("get:done");
}
VC_PROOF(C28, wait)
{
    setup(); P->WaitForReleaseDeviceControl(); vc_assert(!held0, "waiting ends when nobody is in control"); vc_assert(kept(), "nothing is changed"); done(); if (vc_waits()) vc_cover("wait:waited"); else vc_cover("wait:passed");
}
