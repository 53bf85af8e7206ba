prop = 'C29'
needs = 'a channel whose two kernel buffer sizes differ, added to the configuration'
breaks = 'the channel read from the configuration has the send size as receive size'
edits = [('fairmq/ProgOptions.cxx', '''    SetVarMapValue<int>(string(prefix + "rcvKernelSize"), channel.GetRcvKernelSize());''', '''    SetVarMapValue<int>(string(prefix + "rcvKernelSize"), channel.GetSndKernelSize());''')]
srcs = 'Channel ProgOptions Properties SuboptParser JSONParser TransportFactory MemoryResources EventManager tools/Network tools/Process tools/Unique tools/Semaphore shmem/Common shmem/Monitor shmem/Manager'.split()
cpp = r'''
#include <fairmq/ProgOptions.h>
#include <cstdio>
using namespace fair::mq;
int main()
{
    ProgOptions c; Channel ch("data", "pull", "bind", "tcp://*:1", nullptr); ch.UpdateSndKernelSize(10); ch.UpdateRcvKernelSize(20); c.AddChannel("data", ch);
    int r = c.GetProperty<int>("chans.data.0.rcvKernelSize"); std::printf("rcvKernelSize is %d\n", r);
    return r != 20;
}
'''
