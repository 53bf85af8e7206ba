prop = 'C22'
needs = 'appending parts to parts that are not empty'
breaks = 'appended parts end up in front of the existing ones: the part order changes'
edits = [('fairmq/Parts.h', '            std::move(std::begin(parts), std::end(parts), std::back_inserter(fParts));', '            std::move(std::begin(parts), std::end(parts), std::inserter(fParts, std::begin(fParts)));')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <fairmq/Parts.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
using namespace fair::mq;
using namespace std::chrono_literals;
static std::string session = "fmqdemo" + tools::Uuid();
static std::shared_ptr<TransportFactory> mk(size_t size = 2000000, unsigned id = 0)
{
    ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", size); c.SetProperty<uint16_t>("shm-segment-id", id);
    return TransportFactory::CreateTransportFactory("shmem", "d" + std::to_string(id), &c);
}

int main() { auto f = TransportFactory::CreateTransportFactory("zeromq"); Parts a, b; a.AddPart(f->CreateMessage(1)); b.AddPart(f->CreateMessage(2)); b.AddPart(f->CreateMessage(3)); a.AddPart(std::move(b));
  std::printf("%zu %zu %zu\n", a[0].GetSize(), a[1].GetSize(), a[2].GetSize()); return a.Size() != 3 || a[0].GetSize() != 1 || a[1].GetSize() != 2 || a[2].GetSize() != 3; }
'''
