prop = 'C11'
needs = 'an unmanaged region whose id equals the id of a managed segment'
breaks = 'the region and the segment with the same id are taken for one: the region is never reported'
edits = [('fairmq/shmem/Manager.h', '                    auto el = fObservedRegionEvents.find({i.id, i.managed});\n', '                    auto el = fObservedRegionEvents.find({i.id, true});\n'), ('fairmq/shmem/Manager.h', 'fObservedRegionEvents.emplace(std::make_pair(i.id, i.managed), i.event);', 'fObservedRegionEvents.emplace(std::make_pair(i.id, true), i.event);')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <fairmq/Parts.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
using namespace fair::mq;
using namespace std::chrono_literals;
static std::string session = "fmqdemo" + tools::Uuid();
static std::shared_ptr<TransportFactory> mk(size_t size = 2000000, unsigned id = 0)
{
    ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", size); c.SetProperty<uint16_t>("shm-segment-id", id);
    return TransportFactory::CreateTransportFactory("shmem", "d" + std::to_string(id), &c);
}

int main()
{
    int bad = 0;
    { auto f = mk(2000000, 5); RegionConfig cfg; cfg.id = 5; auto r = f->CreateUnmanagedRegion(10000, [](void*, size_t, void*) {}, cfg);
      std::atomic<int> regions{0}, segs{0}; f->SubscribeToRegionEvents([&](RegionInfo i) { if (i.managed) ++segs; else ++regions; });
      for (int i = 0; i < 30 && !(regions && segs); ++i) std::this_thread::sleep_for(50ms);
      f->UnsubscribeFromRegionEvents(); std::printf("%d %d\n", int(segs), int(regions)); bad = segs != 1 || regions != 1; }
    return bad;
}
'''
