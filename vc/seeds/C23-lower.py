prop = 'C23'
needs = 'asking for the message of a pointer the resource does not own (e.g. into the middle of a buffer)'
breaks = 'an unknown pointer hands out the message of another allocation'
edits = [('fairmq/MemoryResources.h', '        auto mes = std::move(messageMap[p]);\n        messageMap.erase(p);\n        return mes;\n', '        auto it = messageMap.lower_bound(p);\n        if (it == messageMap.end()) {\n            return nullptr;\n        }\n        auto mes = std::move(it->second);\n        messageMap.erase(it);\n        return mes;\n')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <fairmq/Parts.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
using namespace fair::mq;
using namespace std::chrono_literals;
static std::string session = "fmqdemo" + tools::Uuid();
static std::shared_ptr<TransportFactory> mk(size_t size = 2000000, unsigned id = 0)
{
    ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", size); c.SetProperty<uint16_t>("shm-segment-id", id);
    return TransportFactory::CreateTransportFactory("shmem", "d" + std::to_string(id), &c);
}

int main() { auto f = TransportFactory::CreateTransportFactory("zeromq"); ChannelResource r(f.get()); void* p = r.allocate(64); void* q = r.allocate(64);
  char* low = static_cast<char*>(p < q ? p : q); auto m = r.getMessage(low + 8); if (m || r.getNumberOfMessages() != 2) { std::printf("got the message of another buffer\n"); return 1; }
  auto n = r.getMessage(low); return !n || n->GetData() != low || r.getNumberOfMessages() != 1; }
'''
