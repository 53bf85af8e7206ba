prop = 'C10'
needs = 'a region looked up in a thread, then removed, then looked up again in the same thread'
breaks = 'removing a region no longer invalidates the per-thread lookup cache: later lookups return the dead region'
edits = [('fairmq/shmem/Manager.h', '''            LOG(debug) << "RemoveRegion() could not locate region with id '" << id << "'";
        }
        fRegionsGen += 1; // signal TL cache invalidation
''', '''            LOG(debug) << "RemoveRegion() could not locate region with id '" << id << "'";
            fRegionsGen += 1; // signal TL cache invalidation
        }
''')]
srcs = ['ProgOptions', 'Properties', 'SuboptParser', 'EventManager', 'JSONParser', 'Channel', 'TransportFactory', 'MemoryResources', 'shmem/Common', 'shmem/Monitor', 'shmem/Manager', 'tools/Unique', 'tools/Network', 'tools/Process', 'tools/Semaphore']
flags = '-fno-access-control'
cpp = r'''
#include <fairmq/shmem/Manager.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <cstdio>
using namespace fair::mq;
int main()
{
    std::string session = "fmqdemo" + tools::Uuid(); int bad = 0;
    { ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", 2000000);
      shmem::Manager m(session, 2000000, &c);
      RegionConfig cfg; cfg.id = 7;
      auto r = m.CreateRegion(10000, nullptr, nullptr, cfg);
      if (m.GetRegionFromCache(7) != r.first || m.GetRegionFromCache(7) != r.first) bad = 2;
      m.RemoveRegion(7);
      shmem::UnmanagedRegion* again = nullptr;
      try { again = m.GetRegionFromCache(7); } catch (std::exception&) {}
      if (again) { std::printf("the removed region is still returned\n"); bad = 1; } }
    return bad;
}
'''
