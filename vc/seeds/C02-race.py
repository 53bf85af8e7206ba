prop = 'C02'
needs = 'two threads (or processes) dropping the last two copies of a message at the same time'
breaks = 'whether a reference is the last one is decided before the count is decremented: two concurrent drops both see another holder and the buffer is never freed'
edits = [('fairmq/shmem/Message.h', '                uint16_t refCount = ShmHeader::DecrementRefCount(fManager.GetAddressFromHandle(fHandle, fSegmentId));\n                if (refCount == 1) {\n                    fManager.Deallocate(fHandle, fSegmentId);\n                }\n            } else { // unmanaged region\n', '                if (ShmHeader::RefCount(fManager.GetAddressFromHandle(fHandle, fSegmentId)) > 1) {\n                    // somebody else still uses the buffer\n                    ShmHeader::DecrementRefCount(fManager.GetAddressFromHandle(fHandle, fSegmentId));\n                } else {\n                    fManager.Deallocate(fHandle, fSegmentId);\n                }\n            } else { // unmanaged region\n')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <fairmq/Parts.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
using namespace fair::mq;
using namespace std::chrono_literals;
static std::string session = "fmqdemo" + tools::Uuid();
static std::shared_ptr<TransportFactory> mk(size_t size = 2000000, unsigned id = 0)
{
    ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", size); c.SetProperty<uint16_t>("shm-segment-id", id);
    return TransportFactory::CreateTransportFactory("shmem", "d" + std::to_string(id), &c);
}

int main()
{
    auto f = mk(); int bad = 0; auto freeMem = [] { return shmem::Monitor::GetFreeMemory(shmem::SessionId{session}, 0); };
    { auto warm = f->CreateMessage(1000); } unsigned long before = freeMem();
    std::atomic<int> go{0}, done{0}; MessagePtr a, b; std::atomic<bool> quit{false};
    std::thread t([&] { int n = 0; while (true) { while (go.load() == n && !quit) {} if (quit) return; ++n; b.reset(); done.fetch_add(1); } });
    for (int i = 1; i <= 400000 && !bad; ++i) {
        a = f->CreateMessage(1000); b = f->CreateMessage(); b->Copy(*a);
        go.store(i); a.reset(); while (done.load() != i) {}
        if (i % 1000 == 0 && freeMem() != before) { std::printf("leaked %lu bytes\n", before - freeMem()); bad = 1; }
    }
    quit = true; t.join(); return bad;
}
'''
