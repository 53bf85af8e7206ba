// Model of boost::signals2 (assumed contract): slots are called in connection order (grouped slots by group, before ungrouped ones), only while connected;
// slots connected during a call are not called by it.
#ifndef VC_SIGNALS2
#define VC_SIGNALS2
#include <functional>
#include <memory>
#include <utility>
namespace boost { namespace signals2 {
struct vc_body_base { bool connected = true; bool grouped = false; int group = 0; unsigned long serial = 0; virtual ~vc_body_base() {} };
class connection
{
  public:
    std::weak_ptr<vc_body_base> b;
    connection() {} explicit connection(const std::weak_ptr<vc_body_base>& x) : b(x) {}
    void disconnect() const { if (auto p = b.lock()) p->connected = false; }
    bool connected() const { auto p = b.lock(); return p && p->connected; }
    bool operator==(const connection& o) const { return b.lock() == o.b.lock(); }
    void swap(connection& o) { b.swap(o.b); }
};
class scoped_connection : public connection
{
  public:
    scoped_connection() {} scoped_connection(const connection& c) : connection(c) {} ~scoped_connection() { disconnect(); } scoped_connection(scoped_connection&& o) : connection(o) { o.b.reset(); }
    scoped_connection& operator=(const connection& c) { disconnect(); b = c.b; return *this; } connection release() { connection c(*this); b.reset(); return c; }
};
enum connect_position { at_back, at_front };
template<typename S> class signal;
template<typename... A>
class signal<void(A...)>
{
    struct body : vc_body_base { std::function<void(A...)> f; std::shared_ptr<body> next; };
    std::shared_ptr<body> head; unsigned long serial = 0;
    connection add(std::shared_ptr<body> n)
    {
        n->serial = serial++; std::shared_ptr<body>* p = &head;
        while (*p && ((*p)->grouped ? (!n->grouped || (*p)->group <= n->group) : !n->grouped)) p = &(*p)->next;
        n->next = *p; *p = n; return connection(std::weak_ptr<vc_body_base>(n));
    }
  public:
    using slot_type = std::function<void(A...)>; using slot_function_type = slot_type;
    signal() {} signal(const signal&) = delete; signal& operator=(const signal&) = delete; signal(signal&&) = default; signal& operator=(signal&&) = default;
    ~signal() { for (body* p = head.get(); p; p = p->next.get()) p->connected = false; while (head) { auto n = std::move(head->next); head = std::move(n); } }
    template<typename F> connection connect(F&& f) { auto n = std::make_shared<body>(); n->f = std::forward<F>(f); return add(n); }
    template<typename F> connection connect(int group, F&& f) { auto n = std::make_shared<body>(); n->grouped = true; n->group = group; n->f = std::forward<F>(f); return add(n); }
    bool empty() const { for (body* p = head.get(); p; p = p->next.get()) if (p->connected) return false; return true; }
    std::size_t num_slots() const { std::size_t n = 0; for (body* p = head.get(); p; p = p->next.get()) n += p->connected; return n; }
    void disconnect_all_slots() { for (body* p = head.get(); p; p = p->next.get()) p->connected = false; }
    void disconnect(int g) { for (body* p = head.get(); p; p = p->next.get()) if (p->grouped && p->group == g) p->connected = false; }
    void operator()(A... a) const { unsigned long s = serial; for (std::shared_ptr<body> p = head; p; p = p->next) if (p->connected && p->serial < s) p->f(a...); }
};
} }
#endif
