prop = 'C06'
needs = 'a send that does not succeed (no peer yet, timeout 0)'
breaks = 'a message whose send timed out is treated as handed over: its buffer is never released'
edits = [('fairmq/shmem/Socket.h', '        std::memcpy(zmqMsg.Data(), &meta, sizeof(MetaHeader));\n\n        while (true) {\n            int nbytes = zmq_msg_send(zmqMsg.Msg(), fSocket, flags);\n            if (nbytes > 0) {\n                shmMsg->fQueued = true;\n', '        std::memcpy(zmqMsg.Data(), &meta, sizeof(MetaHeader));\n        // from here on the peer may already see the buffer\n        shmMsg->fQueued = true;\n\n        while (true) {\n            int nbytes = zmq_msg_send(zmqMsg.Msg(), fSocket, flags);\n            if (nbytes > 0) {\n')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <fairmq/Parts.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
using namespace fair::mq;
using namespace std::chrono_literals;
static std::string session = "fmqdemo" + tools::Uuid();
static std::shared_ptr<TransportFactory> mk(size_t size = 2000000, unsigned id = 0)
{
    ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", size); c.SetProperty<uint16_t>("shm-segment-id", id);
    return TransportFactory::CreateTransportFactory("shmem", "d" + std::to_string(id), &c);
}

int main()
{
    auto f = mk(); { auto warm = f->CreateMessage(1000); }
    unsigned long before = shmem::Monitor::GetFreeMemory(shmem::SessionId{session}, 0);
    Channel push("p", "push", f); push.Bind("inproc://" + session);
    for (int i = 0; i < 10; ++i) { auto m = f->CreateMessage(10000); if (push.Send(m, 0) != static_cast<int>(TransferCode::timeout)) return 1; }
    unsigned long after = shmem::Monitor::GetFreeMemory(shmem::SessionId{session}, 0);
    if (after != before) { std::printf("leaked %lu bytes\n", before - after); return 1; }
    return 0;
}
'''
