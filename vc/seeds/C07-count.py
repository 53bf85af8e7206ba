prop = 'C07'
needs = 'a configured minimum meta data size (shm-metadata-msg-size) larger than what the parts need'
breaks = 'the number of parts is derived from the (padded) size of the meta data message: the receiver gets more parts than were sent'
edits = [('fairmq/shmem/Socket.h', '''                auto const n = *meta_n;
''', '''                auto const n = (size - sizeof(std::size_t)) / sizeof(MetaHeader);
''')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <fairmq/Parts.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <cstdio>
#include <cstring>
using namespace fair::mq;
int main()
{
    std::string session = "fmqdemo" + tools::Uuid(); int bad = 0;
    for (size_t pad : {size_t(0), size_t(1024)}) {
        ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", 2000000); c.SetProperty<size_t>("shm-metadata-msg-size", pad);
        auto f = TransportFactory::CreateTransportFactory("shmem", "d", &c);
        Channel push("p", "push", f), pull("q", "pull", f);
        std::string addr = "inproc://" + session; pull.Bind(addr); push.Connect(addr);
        Parts out, in; out.AddPart(f->CreateMessage(10)); out.AddPart(f->CreateMessage(20));
        if (push.Send(out) != 30) bad = 1;
        if (pull.Receive(in) != 30 || in.Size() != 2) { std::printf("received %zu parts (pad %zu)\n", size_t(in.Size()), pad); bad = 1; }
        if (bad) { shmem::Monitor::Cleanup(shmem::SessionId{session}, false); std::_Exit(1); }
    }
    return bad;
}
'''
