prop = 'C09'
needs = 'a second transport of the session failing to start (its own segment cannot be created), then the first one ending'
breaks = 'a transport that failed to start is counted as a user of the session for ever: the session is never cleaned up'
edits = [('fairmq/shmem/Manager.h', '            StopHeartbeats();\n            CleanupIfLast();\n            throw;\n', '            StopHeartbeats();\n            throw;\n')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <fairmq/Parts.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
using namespace fair::mq;
using namespace std::chrono_literals;
static std::string session = "fmqdemo" + tools::Uuid();
static std::shared_ptr<TransportFactory> mk(size_t size = 2000000, unsigned id = 0)
{
    ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", size); c.SetProperty<uint16_t>("shm-segment-id", id);
    return TransportFactory::CreateTransportFactory("shmem", "d" + std::to_string(id), &c);
}

#include <fairmq/shmem/Common.h>
#include <sys/stat.h>
int main()
{
    { auto f = mk(); bool failed = false; try { auto g = mk(size_t(1) << 60, 3); } catch (std::exception& e) { failed = true; } if (!failed) { std::printf("the huge segment was created\n"); return 3; } }
    std::string id = shmem::MakeShmName(shmem::makeShmIdStr(session), "mng"); struct stat st;
    bool left = stat(("/dev/shm/" + id).c_str(), &st) == 0; if (left) { std::printf("session left behind\n"); shmem::Monitor::Cleanup(shmem::SessionId{session}, false); }
    return left;
}
'''
