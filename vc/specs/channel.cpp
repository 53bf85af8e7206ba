//@ cxxflags -I/verif/vc/stubs_ch
//@ assume C24 standard strings, regular expressions and random numbers behave as modelled
//@ assume C25 std::regex and boost::split behave as modelled (vcregex.h, stubs_ch)
//@ bound address one endpoint, of any protocol, with and without name and port
//@ bound addresses two endpoints, of any protocol, with and without name and port
//@ bound name names of three arbitrary characters
//@ opt autobind cut=1
// C24: channel attributes; C25: channel validation; C26: transfers through a channel
#include <vcstd.h>
#include <vcregex.h>
#include <vcrandom.h>
#include <fairmq/Tools.h>
#include <fairmq/Transports.h>
#include <ghosttransport.h>
#include <fairmq/MemoryResources.cxx>
#include <fairmq/Channel.cxx>
using namespace fair::mq;
namespace {
// the attributes of a channel
struct At { std::string name, type, method, address; int v[10]; bool autoBind; fair::mq::Transport tr; };
int* field(Channel& c, int i) { int* f[] = {&c.fSndBufSize, &c.fRcvBufSize, &c.fSndKernelSize, &c.fRcvKernelSize, &c.fSndTimeoutMs, &c.fRcvTimeoutMs, &c.fLinger, &c.fRateLogging, &c.fPortRangeMin, &c.fPortRangeMax}; return f[i]; }
int getter(const Channel& c, int i)
{
    switch (i) { case 0: return c.GetSndBufSize(); case 1: return c.GetRcvBufSize(); case 2: return c.GetSndKernelSize(); case 3: return c.GetRcvKernelSize(); case 4: return c.GetSndTimeout(); case 5: return c.GetRcvTimeout(); case 6: return c.GetLinger(); case 7: return c.GetRateLogging(); case 8: return c.GetPortRangeMin(); default: return c.GetPortRangeMax(); }
}
void update(Channel& c, int i, int v)
{
    switch (i) { case 0: return c.UpdateSndBufSize(v); case 1: return c.UpdateRcvBufSize(v); case 2: return c.UpdateSndKernelSize(v); case 3: return c.UpdateRcvKernelSize(v); case 4: return c.UpdateSndTimeout(v); case 5: return c.UpdateRcvTimeout(v); case 6: return c.UpdateLinger(v); case 7: return c.UpdateRateLogging(v); case 8: return c.UpdatePortRangeMin(v); default: return c.UpdatePortRangeMax(v); }
}
At anyAt() { At a; a.name = vc_str("name"); a.type = vc_str("type"); a.method = vc_str("method"); a.address = vc_str("address"); for (int& x : a.v) x = vc_i32("attr"); a.autoBind = vc_bool("auto_bind"); a.tr = vc_bool("shm") ? fair::mq::Transport::SHM : fair::mq::Transport::ZMQ; return a; }
void put(Channel& c, const At& a)
{
    c.fName = a.name; c.fType = a.type; c.fMethod = a.method; c.fAddress = a.address; for (int i = 0; i < 10; ++i) *field(c, i) = a.v[i]; c.fAutoBind = a.autoBind; c.fTransportType = a.tr;
}
void same(const Channel& c, const At& a)
{
    vc_assert(c.GetName() == a.name && c.GetType() == a.type && c.GetMethod() == a.method && c.GetAddress() == a.address, "the channel has the given name, type, method and address");
    for (int i = 0; i < 10; ++i) vc_assert(getter(c, i) == a.v[i], "the channel has the given settings");
    vc_assert(c.GetAutoBind() == a.autoBind && c.GetTransportType() == a.tr, "the channel has the given settings"); vc_assert(c.GetTransportName() == TransportName(a.tr), "the transport is named");
}
At defaults() { return At{"", "unspecified", "unspecified", "unspecified", {1000, 1000, 0, 0, -1, -1, 500, 1, 22000, 23000}, true, fair::mq::Transport::DEFAULT}; }
}
VC_PROOF(C24, construct)
{
    gt::Socket::clear(); At a = defaults(); uint32_t k = vc_choice("constructor", 6); a.name = vc_str("name"); a.type = vc_str("type"); a.method = vc_str("method"); a.address = vc_str("address");
    auto f = std::make_shared<gt::Factory>(); if (vc_bool("shm")) f->ty = fair::mq::Transport::SHM;
    At d = defaults();
    if (k == 0) { Channel c; same(c, d); vc_assert(!c.IsValid(), "a new channel is not valid yet"); }
    if (k == 1) { Channel c(a.name); d.name = a.name; same(c, d); vc_assert(!c.IsValid() && !c.fSocket, "a new channel is not valid yet"); }
    if (k == 2) { Channel c(a.type, a.method, a.address); d.type = a.type; d.method = a.method; d.address = a.address; same(c, d); vc_assert(!c.IsValid(), "a new channel is not valid yet"); }
    if (k == 3) { Channel c(a.name, a.type, f); d.name = a.name; d.type = a.type; d.tr = f->ty; same(c, d); vc_assert(gt::Socket::liveSockets == 1 && static_cast<gt::Socket&>(c.GetSocket()).type == a.type && static_cast<gt::Socket&>(c.GetSocket()).id == a.name && c.Transport() == f.get(), "the socket of a channel has its type and name"); vc_cover("construct:socket"); }
    if (k == 4) { a.tr = f->ty; Channel c(a.name, a.type, a.method, a.address, f); same(c, a); vc_assert(static_cast<gt::Socket&>(c.GetSocket()).type == a.type && static_cast<gt::Socket&>(c.GetSocket()).id == a.name && !c.IsValid(), "the socket of a channel has its type and name"); }
    if (k == 5) { Channel c(a.name, a.type, a.method, a.address, nullptr); same(c, a); vc_assert(!c.fSocket, "without transport there is no socket"); }
    vc_assert(gt::Socket::liveSockets == 0, "the socket goes with the channel");
}
// copies take all settings, but never the connection; they have to be validated again
VC_PROOF(C24, copy)
{
    gt::Socket::clear(); auto f = std::make_shared<gt::Factory>(); At a = anyAt(), b = anyAt(); bool multi = vc_bool("multipart"), valid = vc_bool("valid"); uint32_t k = vc_choice("how", 6);
    Channel c("old", "pair", f); put(c, a); c.fMultipart = multi; c.fValid = valid;
    if (k == 0) { Channel d(c); same(d, a); same(c, a); vc_assert(!d.IsValid() && !d.fSocket && !d.fTransportFactory && d.fMultipart == multi && c.IsValid() == valid && c.fSocket, "a copy has the settings, but not the connection"); }
    if (k == 1) { Channel d(c, b.name); a.name = b.name; same(d, a); vc_assert(!d.IsValid() && !d.fSocket && d.fMultipart == multi, "a copy has the settings, but not the connection"); }
    if (k == 2) { Channel d("target", "push", f); put(d, b); d.fValid = true; d = c; same(d, a); same(c, a); vc_assert(!d.IsValid() && !d.fSocket && !d.fTransportFactory && d.fMultipart == multi, "a copy has the settings, but not the connection"); vc_assert(gt::Socket::liveSockets == 1, "the target's connection is closed"); vc_cover("copy:assigned"); }
    if (k == 3) { Channel& r = c; c = r; same(c, a); vc_assert(c.IsValid() == valid && c.fSocket && c.fTransportFactory, "assigning a channel to itself changes nothing"); }
    if (k == 4) { Socket* s = c.fSocket.get(); Channel d(std::move(c)); same(d, a); vc_assert(d.fSocket.get() == s && d.IsValid() == valid && !c.fSocket && gt::Socket::liveSockets == 1, "moving a channel moves its connection"); }
    if (k == 5) { Socket* s = c.fSocket.get(); Channel d("target", "push", f); put(d, b); d = std::move(c); same(d, a); vc_assert(d.fSocket.get() == s && d.IsValid() == valid && gt::Socket::liveSockets == 1, "moving a channel moves its connection"); }
}
// every update changes its attribute, only that, and the channel has to be validated again
VC_PROOF(C24, update)
{
    gt::Socket::clear(); At a = anyAt(); Channel c; put(c, a); c.fValid = vc_bool("valid"); uint32_t k = vc_choice("attribute", 17); std::string s = vc_str("new_text"); int v = vc_i32("new_value"); bool b = vc_bool("new_flag");
    if (k < 10) { update(c, int(k), v); a.v[k] = v; }
    if (k == 10) { c.UpdateName(s); a.name = s; } if (k == 11) { c.UpdateType(s); a.type = s; } if (k == 12) { c.UpdateMethod(s); a.method = s; } if (k == 13) { c.UpdateAddress(s); a.address = s; } if (k == 14) { c.UpdateAutoBind(b); a.autoBind = b; }
    if (k == 15) { c.UpdateTransport("zeromq"); a.tr = fair::mq::Transport::ZMQ; } if (k == 16) { c.UpdateTransport("shmem"); a.tr = fair::mq::Transport::SHM; }
    same(c, a); vc_assert(!c.IsValid(), "a changed channel has to be validated again"); vc_cover("update:done");
}
VC_PROOF(C24, update_transport) { At a = anyAt(); Channel c; put(c, a); std::string s = vc_str("transport"); vc_assume(s != "default" && s != "zeromq" && s != "shmem"); try { c.UpdateTransport(s); vc_unreachable("an unknown transport is refused"); } catch (TransportError&) { same(c, a); vc_cover("update_transport:refused"); } }
// properties -> channel
VC_PROOF(C24, from_properties)
{
    static const char* const keys[] = {"sndBufSize", "rcvBufSize", "sndKernelSize", "rcvKernelSize", "sndTimeoutMs", "rcvTimeoutMs", "linger", "rateLogging", "portRangeMin", "portRangeMax"};
    At a = anyAt(), d = defaults(); int idx = int(vc_choice("index", 3)); std::string pre = "chans.data." + std::to_string(idx) + "."; Properties p; uint32_t k = vc_choice("given", 4);   // nothing, everything, everything of another channel, one setting
    std::string other = k == 2 ? "chans.data." + std::to_string(idx + 1) + "." : pre; uint32_t only = k == 3 ? vc_choice("only", 15) : 99;
    if (k != 0) {
        for (int i = 0; i < 10; ++i) if (only == 99 || only == uint32_t(i)) { p[other + keys[i]] = Property(a.v[i]); if (k != 2) d.v[i] = a.v[i]; }
        if (only == 99 || only == 10) { p[other + "type"] = Property(a.type); if (k != 2) d.type = a.type; } if (only == 99 || only == 11) { p[other + "method"] = Property(a.method); if (k != 2) d.method = a.method; } if (only == 99 || only == 12) { p[other + "address"] = Property(a.address); if (k != 2) d.address = a.address; }
        if (only == 99 || only == 13) { p[other + "transport"] = Property(std::string(a.tr == fair::mq::Transport::SHM ? "shmem" : "zeromq")); if (k != 2) d.tr = a.tr; } if (only == 99 || only == 14) { p[other + "autoBind"] = Property(a.autoBind); if (k != 2) d.autoBind = a.autoBind; }
    }
    d.name = "data[" + std::to_string(idx) + "]";
    Channel c("data", idx, p); same(c, d); vc_assert(!c.IsValid(), "a new channel is not valid yet"); vc_assert(c.GetPrefix() == "data" && c.GetIndex() == std::to_string(idx), "a channel knows its name and index"); vc_cover("from_properties:done");
}
// the socket of a channel gets its settings
VC_PROOF(C24, init)
{
    gt::Socket::clear(); At a = anyAt(); Channel c; put(c, a); auto f = std::make_shared<gt::Factory>(); c.InitTransport(f); c.Init();
    vc_assert(c.fSocket && static_cast<gt::Socket&>(c.GetSocket()).type == a.type && static_cast<gt::Socket&>(c.GetSocket()).id == a.name && c.GetSocket().GetTransport() == f.get(), "the socket of a channel has its type, name and transport");
    using S = gt::Socket; vc_assert(S::linger == a.v[6] && S::sndBuf == a.v[0] && S::rcvBuf == a.v[1], "the socket gets the channel's settings");
    vc_assert(a.v[2] == 0 ? S::sndKernel == -12345 : S::sndKernel == a.v[2], "the kernel buffer size is set unless it is the default"); vc_assert(a.v[3] == 0 ? S::rcvKernel == -12345 : S::rcvKernel == a.v[3], "the kernel buffer size is set unless it is the default");
    vc_assert(c.GetBytesTx() == 1 && c.GetBytesRx() == 2 && c.GetMessagesTx() == 3 && c.GetMessagesRx() == 4 && c.GetNumberOfConnectedPeers() == 5, "the counters are those of the socket"); vc_cover("init:done");
}
// binding: the address reported back is the one that was bound
namespace { int attempts; bool okNow; std::string pre; int lo, hi; bool autob; bool lastOk; std::string lastAddr;
bool bindStep(const std::string& a) { ++attempts; lastAddr = a; lastOk = vc_bool("bind_ok"); return lastOk; } }
VC_PROOF(C24, bind)
{
    gt::Socket::clear(); gt::Socket::bindResult = bindStep; attempts = 0; auto f = std::make_shared<gt::Factory>(); Channel c("data", "push", f); c.fAutoBind = false;
    std::string e = vc_bool("tcp") ? "tcp://" + vc_str("rest") : vc_str("address"); std::string e0 = e; uint32_t k = vc_choice("how", 3);
    if (k == 0) { bool ok = c.BindEndpoint(e); vc_assert(ok == lastOk && attempts == 1 && lastAddr == e0 && e == e0, "without auto bind exactly the given address is tried"); vc_cover("bind:endpoint"); }
    if (k == 1) { bool ok = c.Bind(e); vc_assert(ok == lastOk && attempts == 1 && lastAddr == e0 && c.GetMethod() == "bind" && c.GetAddress() == e0, "the bound address is remembered"); }
    if (k == 2) { gt::Socket::connectResult = vc_bool("connect_ok"); bool ep = vc_bool("endpoint"); bool ok = ep ? c.ConnectEndpoint(e) : c.Connect(e); vc_assert(ok == gt::Socket::connectResult && gt::Socket::connects == 1 && gt::Socket::last == e0 && attempts == 0, "connecting uses the given address"); if (!ep) vc_assert(c.GetMethod() == "connect" && c.GetAddress() == e0, "the address is remembered"); }
}
VC_PROOF(C24, autobind_other)
{
    gt::Socket::clear(); gt::Socket::bindResult = bindStep; attempts = 0; auto f = std::make_shared<gt::Factory>(); Channel c("data", "push", f); std::string e = "ipc://" + vc_str("rest"), e0 = e;
    bool ok = c.BindEndpoint(e); vc_assert(ok == lastOk && attempts == 1 && e == e0 && lastAddr == e0, "other ports are tried for tcp only"); vc_cover("autobind_other:done");
}
namespace { std::string base; Channel* ch; std::string* ep;
bool bindPort(const std::string& a)
{
    ++attempts;
    if (attempts > 1) { int p = int(vc_last_random); vc_assert(a == base + std::to_string(p), "only the port is changed"); vc_assert(p >= ch->fPortRangeMin && p <= ch->fPortRangeMax, "ports are tried in the configured range"); }
    lastOk = vc_bool("bind_ok"); lastAddr = a; return lastOk;
} }
VC_PROOF(C26, forward)
{
    gt::Socket::clear(); gt::live = gt::created = 0; auto f = std::make_shared<gt::Factory>(); f->ty = vc_bool("shm_channel") ? fair::mq::Transport::SHM : fair::mq::Transport::ZMQ;
    { Channel c("data", "push", f); vc_assert(c.GetTransportType() == f->ty, "transport"); c.fSndTimeoutMs = vc_i32("snd"); c.fRcvTimeoutMs = vc_i32("rcv"); gt::Socket::result = vc_i64("result");
    auto m = new gt::Msg(7); m->ty = vc_bool("shm_msg") ? fair::mq::Transport::SHM : fair::mq::Transport::ZMQ; bool other = m->ty != f->ty; bool empty = vc_bool("empty"); if (!empty) { m->n = vc_in("size", 1, vc_symbolic() ? uint64_t(1) << 40 : 1000); m->d = static_cast<char*>(vc_malloc(m->n)); m->own = true; } size_t n = m->n; char* d = m->d; size_t i = empty ? 0 : vc_in("i", 0, n - 1); if (!empty) d[i] = 42;
    MessagePtr p(m); bool send = vc_bool("send"), given = vc_bool("timeout_given"); int t = vc_i32("timeout"); int64_t r;
    if (send) r = given ? c.Send(p, t) : c.Send(p); else r = given ? c.Receive(p, t) : c.Receive(p);
    vc_assert(r == gt::Socket::result && gt::Socket::sends == (send ? 1 : 0) && gt::Socket::recvs == (send ? 0 : 1) && !gt::Socket::multi && gt::Socket::lastMsg == p.get(), "the message is passed to the socket once, and its result returned");
    vc_assert(gt::Socket::timeout == (given ? t : send ? c.fSndTimeoutMs : c.fRcvTimeoutMs), "the given timeout is used, else the channel's");
    vc_assert(p && p->GetType() == f->ty, "the message transferred is of the channel's transport");
    if (!other) { vc_assert(p.get() == m && gt::created == 0, "a message of the channel's transport is used as it is"); vc_cover("forward:same"); }
    else if (!send || empty) { vc_assert(p.get() != m && p->GetSize() == 0 && gt::live == 1, "a message of another transport is replaced by an empty one"); vc_cover("forward:replaced"); }
    else { vc_assert(p.get() != m && p->GetSize() == n && static_cast<char*>(p->GetData())[i] == 42 && gt::live == 2, "a message of another transport is sent with its bytes, which stay until it is sent"); p.reset(); vc_assert(gt::live == 0, "the wrapped message is freed with its wrapper"); vc_cover("forward:wrapped"); }
    } vc_assert(gt::live == 0, "nothing is leaked");
}
VC_PROOF(C26, forward_parts)
{
    gt::Socket::clear(); gt::live = gt::created = 0; auto f = std::make_shared<gt::Factory>(); f->ty = fair::mq::Transport::SHM;
    { Channel c("data", "push", f); c.fSndTimeoutMs = vc_i32("snd"); c.fRcvTimeoutMs = vc_i32("rcv"); gt::Socket::result = vc_i64("result"); uint32_t k = vc_choice("parts", 3) + 1; Parts parts; gt::Msg* m[3]; bool other[3], empty[3]; char* d[3]; size_t n[3];
    for (uint32_t i = 0; i < k; ++i) { m[i] = new gt::Msg(int(i)); other[i] = vc_bool("other_transport"); m[i]->ty = other[i] ? fair::mq::Transport::ZMQ : fair::mq::Transport::SHM; empty[i] = vc_bool("empty"); m[i]->n = empty[i] ? 0 : vc_in("size", 1, vc_symbolic() ? uint64_t(1) << 40 : 1000); n[i] = m[i]->n; d[i] = nullptr; if (!empty[i]) { d[i] = m[i]->d = static_cast<char*>(vc_malloc(n[i])); d[i][0] = char(i + 1); m[i]->own = true; } parts.AddPart(MessagePtr(m[i])); }
    bool send = vc_bool("send"), given = vc_bool("timeout_given"), raw = vc_bool("container"); int t = vc_i32("timeout"); int64_t r;
    if (raw) { if (send) r = given ? c.Send(parts.fParts, t) : c.Send(parts.fParts); else r = given ? c.Receive(parts.fParts, t) : c.Receive(parts.fParts); } else { if (send) r = given ? c.Send(parts, t) : c.Send(parts); else r = given ? c.Receive(parts, t) : c.Receive(parts); }
    vc_assert(r == gt::Socket::result && gt::Socket::sends == (send ? 1 : 0) && gt::Socket::recvs == (send ? 0 : 1) && gt::Socket::multi && gt::Socket::lastMsg == &parts.fParts && gt::Socket::lastCount == k, "the parts are passed to the socket once, and its result returned");
    vc_assert(gt::Socket::timeout == (given ? t : send ? c.fSndTimeoutMs : c.fRcvTimeoutMs), "the given timeout is used, else the channel's"); vc_assert(parts.Size() == k, "the number of parts is unchanged");
    for (uint32_t i = 0; i < k; ++i) { Message* p = parts.At(i).get(); vc_assert(p && p->GetType() == fair::mq::Transport::SHM, "the parts transferred are of the channel's transport");
        if (!other[i]) vc_assert(p == m[i] && p->GetSize() == n[i], "a part of the channel's transport is used as it is"); else if (!send || empty[i]) vc_assert(p->GetSize() == 0, "a part of another transport is replaced by an empty one"); else vc_assert(p->GetSize() == n[i] && static_cast<char*>(p->GetData())[0] == char(i + 1), "a part of another transport is sent with its bytes"); }
    vc_cover("forward_parts:done"); }
    vc_assert(gt::live == 0, "nothing is leaked");
}
// tcp endpoints that cannot be bound are retried on ports of the configured range until one works; the address then is the one that was bound
VC_PROOF(C24, autobind)
{
    gt::Socket::clear(); gt::Socket::bindResult = bindPort; attempts = 0; auto f = std::make_shared<gt::Factory>(); Channel c("data", "push", f); int lo = int(vc_in("min", 1, 65535)), hi = int(vc_in("max", uint64_t(lo), 65535)); c.UpdatePortRangeMin(lo); c.UpdatePortRangeMax(hi); c.UpdateAutoBind(true); ch = &c;
    base = "tcp://host:"; std::string e = base + "5555"; bool ok = c.BindEndpoint(e);
    vc_assert(ok == lastOk, "binding succeeds when an attempt succeeded, and stops there");
    if (ok) { vc_assert(e == lastAddr, "the endpoint is updated to the address that was bound"); vc_cover("autobind:bound"); } else { vc_assert(attempts == 1001, "it is given up after the configured port and a thousand others"); vc_cover("autobind:given_up"); }
}
// ---- C25
VC_PROOF(C25, name)
{
    Channel c; std::string n; bool good = true; for (int i = 0; i < 3; ++i) { unsigned char x = (unsigned char)vc_in("char", 1, 255); n += char(x); good = good & (((x >= 'a') & (x <= 'z')) | ((x >= 'A') & (x <= 'Z')) | ((x >= '0') & (x <= '9')) | (x == '-') | (x == '_') | (x == '[') | (x == ']') | (x == '#')); }
    c.UpdateName(n); c.UpdateType("push"); c.UpdateMethod("bind"); c.UpdateAddress("tcp://*:5555");
    bool ok = c.Validate(); vc_assert(ok == good && c.IsValid() == good, "a channel is valid only with a name of letters, digits, '-', '_', '#' and brackets"); if (ok) vc_cover("name:valid"); else vc_cover("name:refused");
}
VC_PROOF(C25, type)
{
    static const char* const types[] = {"sub", "pub", "pull", "push", "req", "rep", "xsub", "xpub", "dealer", "router", "pair"}; Channel c; uint32_t k = vc_choice("type", 12); std::string t;
    if (k < 11) t = types[k]; else { t = vc_str("type"); for (auto x : types) vc_assume(t != x); }
    c.UpdateName("data"); c.UpdateType(t); c.UpdateMethod("bind"); c.UpdateAddress("tcp://*:5555");
    try { bool ok = c.Validate(); vc_assert(ok && k < 11 && c.IsValid(), "channels of known types only are valid"); vc_cover("type:valid"); } catch (Channel::ChannelConfigurationError&) { vc_assert(k == 11 && !c.IsValid(), "an unknown type is an error"); vc_cover("type:refused"); }
}
namespace { void addresses(uint32_t n)
{
    static const char* const protos[] = {"tcp://", "ipc://", "inproc://", "verbs://", "zmq:", ""}; static const char* const rests[] = {"", "x", "x:1"}; static const char* const mods[] = {"", "@", "+", ">"};
    Channel c; std::string a; bool good = n > 0, unmethod = false, stop = false; if (n == 0 && vc_bool("unspecified")) a = "unspecified";
    uint32_t mk = vc_choice("method", n < 2 ? 3 : 2); if (n > 1 && mk) mk = 2; std::string m = "bind"; if (mk == 1) m = "connect"; if (mk == 2) { m = vc_str("method"); vc_assume(m != "bind" && m != "connect"); }
    for (uint32_t i = 0; i < n; ++i) { bool first = i + 1 < n; uint32_t p = first ? 0 : vc_choice("protocol", 6), r = first ? 1 + vc_choice("rest", 2) : vc_choice("rest", 3), mod = vc_choice("modifier", n == 1 ? 4 : 2); if (i) a += ";"; a += mods[mod]; a += protos[p]; a += rests[r];
        if (n == 1 && p == 5 && r == 0 && mod == 0) { good = false; continue; } if (stop) continue; if (mod == 0 && mk == 2) { unmethod = stop = true; continue; } bool g = p < 4 && (p == 0 ? r == 2 : r != 0); if (!g) { good = false; stop = true; } }
    c.UpdateName("data"); c.UpdateType("pull"); c.UpdateMethod(m); c.UpdateAddress(a);
    try { bool ok = c.Validate(); vc_assert(!unmethod && ok == good && c.IsValid() == good, "a channel is valid only if all its endpoints are: known protocol, tcp with port, others with a name"); if (ok) vc_cover("addresses:valid");; }
    catch (Channel::ChannelConfigurationError&) { vc_assert(unmethod && !c.IsValid(), "an endpoint without valid method is an error"); }
} }
VC_PROOF(C25, address) { addresses(vc_choice("endpoints", 2)); vc_cover("address:done"); }
VC_PROOF(C25, addresses) { addresses(2); }
VC_PROOF(C25, settings)
{
    At a = anyAt(); a.name = "data"; a.type = "pub"; a.method = "bind"; a.address = "tcp://*:5555"; Channel c; put(c, a); bool neg = (a.v[0] < 0) | (a.v[1] < 0) | (a.v[2] < 0) | (a.v[3] < 0) | (a.v[7] < 0);
    try { bool ok = c.Validate(); vc_assert(ok && !neg && c.IsValid(), "buffer sizes and logging interval of a valid channel are not negative"); vc_cover("settings:valid"); } catch (Channel::ChannelConfigurationError&) { vc_assert(neg && !c.IsValid(), "negative sizes are an error, other values are not"); vc_cover("settings:refused"); }
    same(c, a);
}
VC_PROOF(C25, again) { At a = anyAt(); Channel c; put(c, a); c.fValid = true; vc_assert(c.Validate() && c.IsValid(), "a validated channel stays valid"); same(c, a); vc_cover("again:valid"); }
