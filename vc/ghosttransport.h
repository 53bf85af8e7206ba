// A ghost transport: messages with counted lifetime, for contracts of code that only uses the abstract interface
#ifndef GHOSTTRANSPORT_H
#define GHOSTTRANSPORT_H
#include <fairmq/TransportFactory.h>
namespace gt {
inline long live = 0; inline long created = 0; inline size_t lastSize = 0, lastAlign = 0; inline int shrinks = 0; inline bool shrinkOk = true;
struct Msg : fair::mq::Message
{
    char* d = nullptr; size_t n = 0; int id = 0; bool own = false; fair::mq::FreeFn* ffn = nullptr; void* hint = nullptr;
    Msg(int i = 0, fair::mq::TransportFactory* f = nullptr) : Message(f), id(i) { ++live; }
    Msg(size_t s, size_t al, fair::mq::TransportFactory* f) : Message(f), n(s), own(true) { ++live; d = static_cast<char*>(vc_malloc(s)); (void)al; }
    ~Msg() override { --live; if (own) ::free(d); if (ffn) ffn(d, hint); }
    void Rebuild() override {} void Rebuild(fair::mq::Alignment) override {} void Rebuild(size_t) override {} void Rebuild(size_t, fair::mq::Alignment) override {} void Rebuild(void*, size_t, fair::mq::FreeFn*, void*) override {}
    void* GetData() const override { return d; } size_t GetSize() const override { return n; }
    bool SetUsedSize(size_t s, fair::mq::Alignment) override { ++shrinks; if (s > n) return false; n = s; return true; }
    fair::mq::Transport ty = fair::mq::Transport::ZMQ; fair::mq::Transport GetType() const override { return ty; }
    void Copy(const fair::mq::Message&) override {}
};
// a socket that records how it is used
struct Socket : fair::mq::Socket
{
    std::string id, type; static inline int binds, connects, sends, recvs, timeout, linger, sndBuf, rcvBuf, sndKernel, rcvKernel; static inline std::string last; static inline void* lastMsg; static inline bool multi; static inline int64_t result; static inline bool (*bindResult)(const std::string&); static inline bool connectResult; static inline size_t lastCount; static inline int liveSockets;
    static void clear() { binds = connects = sends = recvs = lastCount = liveSockets = 0; timeout = linger = sndBuf = rcvBuf = sndKernel = rcvKernel = -12345; bindResult = nullptr; lastMsg = nullptr; multi = false; }
    Socket(const std::string& t, const std::string& n, fair::mq::TransportFactory* f) : fair::mq::Socket(f), id(n), type(t) { ++liveSockets; } ~Socket() override { --liveSockets; }
    std::string GetId() const override { return id; }
    bool Bind(const std::string& a) override { ++binds; last = a; return bindResult ? bindResult(a) : true; } bool Connect(const std::string& a) override { ++connects; last = a; return connectResult; }
    int64_t Send(fair::mq::MessagePtr& m, int t) override { ++sends; timeout = t; lastMsg = m.get(); multi = false; return result; } int64_t Receive(fair::mq::MessagePtr& m, int t) override { ++recvs; timeout = t; lastMsg = m.get(); multi = false; return result; }
    int64_t Send(fair::mq::Parts::container& m, int t) override { ++sends; timeout = t; lastMsg = &m; lastCount = m.size(); multi = true; return result; } int64_t Receive(fair::mq::Parts::container& m, int t) override { ++recvs; timeout = t; lastMsg = &m; lastCount = m.size(); multi = true; return result; }
    void Close() override {} void SetOption(const std::string&, const void*, size_t) override {} void GetOption(const std::string&, void*, size_t*) override {} int Events(uint32_t*) override { return 0; }
    void SetLinger(int v) override { linger = v; } int GetLinger() const override { return linger; } void SetSndBufSize(int v) override { sndBuf = v; } int GetSndBufSize() const override { return sndBuf; } void SetRcvBufSize(int v) override { rcvBuf = v; } int GetRcvBufSize() const override { return rcvBuf; }
    void SetSndKernelSize(int v) override { sndKernel = v; } int GetSndKernelSize() const override { return sndKernel; } void SetRcvKernelSize(int v) override { rcvKernel = v; } int GetRcvKernelSize() const override { return rcvKernel; }
    unsigned long GetBytesTx() const override { return 1; } unsigned long GetBytesRx() const override { return 2; } unsigned long GetMessagesTx() const override { return 3; } unsigned long GetMessagesRx() const override { return 4; } unsigned long GetNumberOfConnectedPeers() const override { return 5; }
};
struct Factory : fair::mq::TransportFactory
{
    using M = fair::mq::MessagePtr;
    Factory() : TransportFactory("ghost") {}
    M make(size_t s, size_t al) { ++created; lastSize = s; lastAlign = al; auto m = new Msg(s, al, this); m->ty = ty; return M(m); }
    M CreateMessage() override { return make(0, 0); } M CreateMessage(fair::mq::Alignment a) override { return make(0, a.alignment); } M CreateMessage(size_t s) override { return make(s, 0); }
    M CreateMessage(size_t s, fair::mq::Alignment a) override { return make(s, a.alignment); } M CreateMessage(void* p, size_t s, fair::mq::FreeFn* f, void* h) override { ++created; auto m = new Msg(0, this); m->d = static_cast<char*>(p); m->n = s; m->ffn = f; m->hint = h; m->ty = ty; return M(m); }
    M CreateMessage(fair::mq::UnmanagedRegionPtr&, void*, size_t, void*) override { return nullptr; }
    fair::mq::SocketPtr CreateSocket(const std::string& t, const std::string& n) override { return fair::mq::SocketPtr(new Socket(t, n, this)); }
    fair::mq::PollerPtr CreatePoller(const std::vector<fair::mq::Channel>&) const override { return nullptr; } fair::mq::PollerPtr CreatePoller(const std::vector<fair::mq::Channel*>&) const override { return nullptr; }
    fair::mq::PollerPtr CreatePoller(const std::unordered_map<std::string, std::vector<fair::mq::Channel>>&, const std::vector<std::string>&) const override { return nullptr; }
    using U = fair::mq::UnmanagedRegionPtr; using RC = fair::mq::RegionCallback; using RB = fair::mq::RegionBulkCallback;
    U CreateUnmanagedRegion(size_t, RC, const std::string&, int, fair::mq::RegionConfig) override { return nullptr; } U CreateUnmanagedRegion(size_t, RB, const std::string&, int, fair::mq::RegionConfig) override { return nullptr; }
    U CreateUnmanagedRegion(size_t, int64_t, RC, const std::string&, int, fair::mq::RegionConfig) override { return nullptr; } U CreateUnmanagedRegion(size_t, int64_t, RB, const std::string&, int, fair::mq::RegionConfig) override { return nullptr; }
    U CreateUnmanagedRegion(size_t, RC, fair::mq::RegionConfig) override { return nullptr; } U CreateUnmanagedRegion(size_t, RB, fair::mq::RegionConfig) override { return nullptr; }
    void SubscribeToRegionEvents(fair::mq::RegionEventCallback) override {} bool SubscribedToRegionEvents() override { return false; } void UnsubscribeFromRegionEvents() override {} std::vector<fair::mq::RegionInfo> GetRegionInfo() override { return {}; }
    fair::mq::Transport ty = fair::mq::Transport::ZMQ; fair::mq::Transport GetType() const override { return ty; }
    void Interrupt() override {} void Resume() override {} void Reset() override {}
};
}
#endif
