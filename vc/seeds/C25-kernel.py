prop = 'C25'
needs = 'a receive kernel buffer size of -1'
breaks = 'an invalid receive kernel size passes validation'
edits = [('fairmq/Channel.cxx', '    if (fRcvKernelSize < 0) {', '    if (fRcvKernelSize < -1) {')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <fairmq/Parts.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
using namespace fair::mq;
using namespace std::chrono_literals;
static std::string session = "fmqdemo" + tools::Uuid();
static std::shared_ptr<TransportFactory> mk(size_t size = 2000000, unsigned id = 0)
{
    ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", size); c.SetProperty<uint16_t>("shm-segment-id", id);
    return TransportFactory::CreateTransportFactory("shmem", "d" + std::to_string(id), &c);
}

int main() { Channel a("push", "bind", "tcp://*:1"); a.UpdateRcvKernelSize(-1); bool ok = false; try { ok = a.Validate(); } catch (Channel::ChannelConfigurationError&) {} if (ok) std::printf("accepted\n"); return ok; }
'''
