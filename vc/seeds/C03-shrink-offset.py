prop = 'C03'
needs = 'a message created with a large alignment, shrunk in place, and further allocations in the same segment afterwards'
breaks = 'the padding in front of the data is not counted when the buffer is shrunk: the end of the message overlaps the next buffer'
edits = [('fairmq/shmem/Message.h', '''uint16_t userOffset = ShmHeader::UserOffset(oldPtr);
                    char* ptr = fManager.ShrinkInPlace(userOffset + newSize, oldPtr, fSegmentId);''',
 '''char* ptr = fManager.ShrinkInPlace(ShmHeader::FullSize(newSize, alignment.alignment), oldPtr, fSegmentId);''')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace fair::mq;
int main()
{
    std::string session = "fmqdemo" + tools::Uuid(); int bad = 0;
    { ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", 20000000);
      auto f = TransportFactory::CreateTransportFactory("shmem", "d", &c);
      auto m = f->CreateMessage(1000000, Alignment{4096});
      size_t n = 300000; if (!m->SetUsedSize(n)) bad = 1;
      memset(m->GetData(), 0x5a, n);
      std::vector<MessagePtr> more; for (int i = 0; i < 200; ++i) { more.push_back(f->CreateMessage(3000)); memset(more.back()->GetData(), i, 3000); }
      for (size_t i = 0; i < n; ++i) if (static_cast<char*>(m->GetData())[i] != 0x5a) { std::printf("byte %zu of the shrunk message was overwritten\n", i); bad = 1; break; }
      if (bad) { shmem::Monitor::Cleanup(shmem::SessionId{session}, false); std::_Exit(1); }
    }
    return bad;
}
'''
