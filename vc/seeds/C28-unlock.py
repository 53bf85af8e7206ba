prop = 'C28'
needs = 'another plugin stealing control between the check and the state change'
breaks = 'a plugin that has just lost control still changes the state of the device'
edits = [('fairmq/PluginServices.cxx', 'const DeviceStateTransition next) -> bool\n{\n    lock_guard<mutex> lock{fDeviceControllerMutex};\n', 'const DeviceStateTransition next) -> bool\n{\n    unique_lock<mutex> lock{fDeviceControllerMutex};\n'),
         ('fairmq/PluginServices.cxx', '    if (fDeviceController == controller) {\n        return fDevice.ChangeState(next);\n', '    if (fDeviceController == controller) {\n        // subscribers may call back, do not hold the lock\n        lock.unlock();\n        return fDevice.ChangeState(next);\n')]
srcs = 'PluginServices Device StateMachine States Channel ProgOptions Properties SuboptParser JSONParser TransportFactory MemoryResources EventManager tools/Network tools/Process tools/Unique tools/Semaphore shmem/Common shmem/Monitor shmem/Manager'.split()
cpp = r'''
#include <fairmq/PluginServices.h>
#include <fairmq/Device.h>
#include <cstdio>
#include <thread>
using namespace fair::mq;
int main()
{
    ProgOptions c; c.SetProperty<std::string>("id", "d"); c.SetProperty<std::string>("session", "default"); Device d; d.SetConfig(c); PluginServices s(c, d);
    std::thread b; std::atomic<bool> stolen{false}; bool during = false;
    d.SubscribeToNewTransition("demo", [&](Transition) {
        b = std::thread([&] { s.StealDeviceControl("b"); stolen = true; });
        std::this_thread::sleep_for(std::chrono::milliseconds(300)); during = stolen; });
    s.TakeDeviceControl("a"); bool ok = s.ChangeDeviceState("a", PluginServices::DeviceStateTransition::InitDevice); b.join();
    if (during) std::printf("plugin a changed the state while plugin b was in control\n");
    return during || !ok;
}
'''
