prop = 'C12'
needs = 'more than 256 blocks released within one bunch interval'
breaks = 'the oldest blocks are sent but the newest are dropped from the list: with a backlog some blocks are acknowledged twice and others never'
edits = [('fairmq/shmem/UnmanagedRegion.h', 'copy_n(fBlocksToFree.end() - blocksToSend, blocksToSend, blocks.get());', 'copy_n(fBlocksToFree.begin(), blocksToSend, blocks.get());')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <fairmq/Parts.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
using namespace fair::mq;
using namespace std::chrono_literals;
static std::string session = "fmqdemo" + tools::Uuid();
static std::shared_ptr<TransportFactory> mk(size_t size = 2000000, unsigned id = 0)
{
    ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", size); c.SetProperty<uint16_t>("shm-segment-id", id);
    return TransportFactory::CreateTransportFactory("shmem", "d" + std::to_string(id), &c);
}

int main()
{
    int bad = 0; static std::atomic<int> hits[5000];
    { auto f = mk(); auto r = f->CreateUnmanagedRegion(1000000, [](void*, size_t, void* h) { ++hits[reinterpret_cast<size_t>(h)]; }); r->SetLinger(500);
      { Parts p; for (size_t i = 0; i < 5000; ++i) p.AddPart(f->CreateMessage(r, static_cast<char*>(r->GetData()) + i * 100, 100, reinterpret_cast<void*>(i))); }
      std::this_thread::sleep_for(1s); }
    for (int i = 0; i < 5000; ++i) { if (hits[i] != 1) { if (!bad) std::printf("block %d returned %d times\n", i, int(hits[i])); bad = 1; } }
    return bad;
}
'''
