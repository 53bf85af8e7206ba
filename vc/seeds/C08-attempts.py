prop = 'C08'
needs = 'a full segment and bad-alloc-max-attempts set to 0 or a negative number'
breaks = 'with unlimited attempts the allocation gives up after the first failure (negative settings)'
edits = [('fairmq/shmem/Manager.h', 'if (fBadAllocMaxAttempts >= 0 && ++numAttempts >= fBadAllocMaxAttempts) {', 'if (++numAttempts >= fBadAllocMaxAttempts) {')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <chrono>
#include <cstdio>
#include <thread>
using namespace fair::mq;
int main()
{
    std::string session = "fmqdemo" + tools::Uuid(); int bad = 0;
    { ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", 2000000);
      c.SetProperty<int>("bad-alloc-max-attempts", -1); c.SetProperty<int>("bad-alloc-attempt-interval", 20);
      auto f = TransportFactory::CreateTransportFactory("shmem", "d", &c);
      auto a = f->CreateMessage(1500000);
      std::thread t([&] { std::this_thread::sleep_for(std::chrono::milliseconds(300)); a.reset(); });
      try { auto b = f->CreateMessage(1500000); } catch (std::exception& e) { std::printf("gave up: %s\n", e.what()); bad = 1; }
      t.join(); }
    return bad;
}
'''
