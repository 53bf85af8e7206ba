prop = 'C26'
needs = 'multi-part message whose parts come from different transports'
breaks = 'only the first part is checked: a foreign part goes to the socket unconverted'
edits = [('fairmq/Channel.h', '    void CheckSendCompatibility(Parts::container & msgVec)\n    {\n        for (auto& msg : msgVec) {\n            if (fTransportType != msg->GetType()) {', '    void CheckSendCompatibility(Parts::container & msgVec)\n    {\n        if (msgVec.empty() || fTransportType == msgVec.front()->GetType()) {\n            // the parts of a message belong to one transport\n            return;\n        }\n        for (auto& msg : msgVec) {\n            if (fTransportType != msg->GetType()) {')]
srcs = ALLSHM
cpp = r'''
#include <fairmq/TransportFactory.h>
#include <fairmq/Channel.h>
#include <fairmq/Parts.h>
#include <fairmq/ProgOptions.h>
#include <fairmq/tools/Unique.h>
#include <fairmq/shmem/Monitor.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <thread>
using namespace fair::mq;
using namespace std::chrono_literals;
static std::string session = "fmqdemo" + tools::Uuid();
static std::shared_ptr<TransportFactory> mk(size_t size = 2000000, unsigned id = 0)
{
    ProgOptions c; c.SetProperty<std::string>("session", session); c.SetProperty<size_t>("shm-segment-size", size); c.SetProperty<uint16_t>("shm-segment-id", id);
    return TransportFactory::CreateTransportFactory("shmem", "d" + std::to_string(id), &c);
}

int main() {
  auto z = TransportFactory::CreateTransportFactory("zeromq"); auto s = mk(); Channel push("p", "push", s), pull("q", "pull", s); std::string addr = "inproc://" + session; pull.Bind(addr); push.Connect(addr);
  Parts out, in; out.AddPart(s->CreateMessage(10)); out.AddPart(z->CreateMessage(20)); memset(out[1].GetData(), 7, 20);
  MessagePtr probe = push.NewMessage(1);
  try { if (push.Send(out) != 30) { std::printf("sent\n"); shmem::Monitor::Cleanup(shmem::SessionId{session}, false); std::_Exit(1); }
    if (out.At(1)->GetType() != Transport::SHM) { std::printf("not converted\n"); shmem::Monitor::Cleanup(shmem::SessionId{session}, false); std::_Exit(1); }
  } catch (...) { shmem::Monitor::Cleanup(shmem::SessionId{session}, false); std::_Exit(1); }
  return 0; }
'''
