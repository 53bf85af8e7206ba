prop = 'C14'
needs = 'a session that is cleaned up by the monitor and starts again later, with a slow start before its first heartbeat'
breaks = 'after one cleanup the monitor regards the next session as timed out before its first heartbeat has been seen'
edits = [('fairmq/shmem/Monitor.cxx', '                Cleanup(ShmId{fShmId});\n                fHeartbeatTriggered = false;\n                if (fSelfDestruct) {', '                Cleanup(ShmId{fShmId});\n                if (fSelfDestruct) {')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <fairmq/Parts.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
using namespace fair::mq;
using namespace std::chrono_literals;
static std::string session = "fmqdemo" + tools::Uuid();
static std::shared_ptr<TransportFactory> mk(size_t size = 2000000, unsigned id = 0)
{
    ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", size); c.SetProperty<uint16_t>("shm-segment-id", id);
    return TransportFactory::CreateTransportFactory("shmem", "d" + std::to_string(id), &c);
}

#include <boost/interprocess/managed_shared_memory.hpp>
#include <fairmq/shmem/Common.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace boost::interprocess;
int main()
{
    std::string id = shmem::makeShmIdStr(session), mng = shmem::MakeShmName(id, "mng"); struct stat st; int bad = 0;
    auto there = [&] { return stat(("/dev/shm/" + mng).c_str(), &st) == 0; };
    { shmem::Monitor mon(id, false, false, false, 600, 100, true, false);
      auto* mp = &mon; std::thread t([mp] { mp->Run(); });
      { managed_shared_memory s(create_only, mng.c_str(), 100000); auto* hb = s.find_or_construct<shmem::Heartbeat>(unique_instance)(0); for (int i = 0; i < 8; ++i) { hb->fCount++; std::this_thread::sleep_for(100ms); } }
      for (int i = 0; i < 50 && there(); ++i) std::this_thread::sleep_for(100ms);
      if (there()) { std::printf("not cleaned up\n"); bad = 1; }
      managed_shared_memory s(create_only, mng.c_str(), 100000); // the next session, no heartbeat yet
      std::this_thread::sleep_for(1000ms); if (!there()) { std::printf("removed before its first heartbeat\n"); bad = 1; }
      shmem::Monitor::Cleanup(shmem::ShmId{id}, false); std::_Exit(bad); }
}
'''
