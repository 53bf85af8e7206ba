prop = 'C05'
needs = 'copying between messages over blocks at the same offset of two different regions'
breaks = 'the copy is skipped because both messages have the same handle, although it belongs to another region: the target keeps its old block'
edits = [('fairmq/shmem/Message.h', '''        if (otherMsg.fHandle < 0) {
            CloseMessage();''', '''        if (otherMsg.fHandle == fHandle && otherMsg.fManaged == fManaged && otherMsg.fSegmentId == fSegmentId && otherMsg.fSize == fSize) {
            // both refer to the same buffer already
            return;
        }
        if (otherMsg.fHandle <= -1) {
            CloseMessage();''')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <cstdio>
#include <cstring>
using namespace fair::mq;
int main()
{
    std::string session = "fmqdemo" + tools::Uuid(); int bad = 0;
    { ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", 2000000);
      auto f = TransportFactory::CreateTransportFactory("shmem", "d", &c);
      auto r1 = f->CreateUnmanagedRegion(100000, [](void*, size_t, void*) {}), r2 = f->CreateUnmanagedRegion(100000, [](void*, size_t, void*) {});
      memset(r1->GetData(), 1, 1000); memset(r2->GetData(), 2, 1000);
      { auto a = f->CreateMessage(r1, r1->GetData(), 1000), b = f->CreateMessage(r2, r2->GetData(), 1000);
        b->Copy(*a);
        if (static_cast<char*>(b->GetData())[5] != 1) { std::printf("copy shows %d\n", static_cast<char*>(b->GetData())[5]); bad = 1; } }
    }
    return bad;
}
'''
