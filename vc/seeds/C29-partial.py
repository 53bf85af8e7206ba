prop = 'C29'
needs = 'an update of several properties of which a later one (in key order) does not exist'
breaks = 'the refused update has already changed some of the properties'
edits = [('fairmq/ProgOptions.cxx', '''    for (const auto& m : input) {
        if (fVarMap.count(m.first) == 0) {
            LOG(debug) << "UpdateProperties failed, no property found with key '" << m.first << "'";
            return false;
        }
    }

    map<string, boost::program_options::variable_value>& vm = fVarMap;
    for (const auto& m : input) {
        vm[m.first].value() = m.second;
    }
''', '''    map<string, boost::program_options::variable_value>& vm = fVarMap;
    for (const auto& m : input) {
        auto it = vm.find(m.first);
        if (it == vm.end()) {
            LOG(debug) << "UpdateProperties failed, no property found with key '" << m.first << "'";
            return false;
        }
        it->second.value() = m.second;
    }
''')]
srcs = 'Channel ProgOptions Properties SuboptParser JSONParser TransportFactory MemoryResources EventManager tools/Network tools/Process tools/Unique tools/Semaphore shmem/Common shmem/Monitor shmem/Manager'.split()
cpp = r'''
#include <fairmq/ProgOptions.h>
#include <cstdio>
using namespace fair::mq;
int main()
{
    ProgOptions c; c.SetProperty<int>("a", 1);
    Properties p; p["a"] = 2; p["b"] = 3; bool r = c.UpdateProperties(p);
    int a = c.GetProperty<int>("a"); std::printf("update %s, a is %d\n", r ? "done" : "refused", a);
    return r || a != 1;
}
'''
