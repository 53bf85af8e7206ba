//@ bound registry at most 3 messages registered at a time
//@ assume C23 transports allocate messages of the requested size (proved for the transports elsewhere); container sizes up to 2^30 elements
// C23: memory resources and message construction from containers and values.
#include <vcstd.h>
#include <ghosttransport.h>
#include <fairmq/MemoryResources.cxx>
#include <fairmq/MemoryResourceTools.h>
using namespace fair::mq;
namespace { void reset() { gt::live = gt::created = 0; gt::shrinks = 0; } }
// allocation through the resource is a message of that size and alignment, known under its address until it is taken or freed
VC_PROOF(C23, registry)
{
    reset(); gt::Factory f; { ChannelResource r(&f); pmr::memory_resource& mr = r; MemoryResource& m = r;
    vc_assert(m.getTransportFactory() == &f && m.getNumberOfMessages() == 0, "a new resource is empty");
    void* p[3]; gt::Msg* g[3] = {}; uint32_t k = vc_choice("messages", 4);
    for (uint32_t i = 0; i < k; ++i) { size_t s = vc_in("size", 1, vc_symbolic() ? 1 << 30 : 1 << 10), al = size_t(1) << vc_in("alignment", 0, 4); p[i] = mr.allocate(s, al);
        vc_assert(gt::created == long(i) + 1 && gt::lastSize == s && gt::lastAlign == al, "an allocation is one message of that size and alignment"); for (uint32_t j = 0; j < i; ++j) vc_assert(p[j] != p[i], "allocations are distinct"); }
    vc_assert(m.getNumberOfMessages() == k && gt::live == long(k), "every allocation is registered");
    uint32_t op = vc_choice("operation", 5); (void)g;
    if (op == 0 && k > 0) { uint32_t i = vc_choice("which", k); mr.deallocate(p[i], 1, 1); vc_assert(gt::live == long(k) - 1 && m.getNumberOfMessages() == k - 1, "freeing destroys exactly that message"); for (uint32_t j = 0; j < k; ++j) if (j != i) { MessagePtr q = m.getMessage(p[j]); vc_assert(q && q->GetData() == p[j], "other allocations stay"); } vc_cover("registry:freed"); }
    if (op == 1 && k > 0) { uint32_t i = vc_choice("which", k); MessagePtr q = m.getMessage(p[i]); vc_assert(q && q->GetData() == p[i] && q->GetSize() > 0, "the message of an allocation is handed out"); vc_assert(gt::live == long(k) && m.getNumberOfMessages() == k - 1, "a message handed out is no longer registered"); MessagePtr again = m.getMessage(p[i]); vc_assert(!again && m.getNumberOfMessages() == k - 1, "a message is handed out once"); mr.deallocate(p[i], 1, 1); vc_assert(gt::live == long(k), "the message survives the container's deallocation"); vc_cover("registry:taken"); }
    if (op == 2) { int x; MessagePtr q = m.getMessage(&x); vc_assert(!q && m.getNumberOfMessages() == k && gt::live == long(k), "an unknown address has no message"); }
    if (op == 3) { gt::Msg* n = new gt::Msg(5, 1, &f); void* a = m.setMessage(MessagePtr(n)); vc_assert(a == n->d && m.getNumberOfMessages() == k + 1, "a message is registered under its address"); MessagePtr q = m.getMessage(a); vc_assert(q.get() == n, "a registered message is handed out"); }
    if (op == 4) { ChannelResource o(&f); vc_assert(mr.is_equal(mr) && !mr.is_equal(o), "memory is interchangeable only within a resource"); }
    } vc_assert(gt::live == 0, "the resource destroys what is left");
    vc_cover("registry:done");
}
VC_PROOF(C23, no_factory) { try { ChannelResource r(nullptr); vc_unreachable("a resource needs a transport"); } catch (std::runtime_error&) { vc_cover("no_factory:refused"); } }
namespace {
// a container with any number of elements whose memory came from a resource
struct E { uint32_t v; };
struct Cont { using value_type = E; using allocator_type = pmr::polymorphic_allocator<E>; E* d = nullptr; size_t n = 0; pmr::memory_resource* r = nullptr; size_t cap = 0;
    Cont() {} Cont(Cont&& o) : d(o.d), n(o.n), r(o.r), cap(o.cap) { o.d = nullptr; o.n = o.cap = 0; } ~Cont() { if (d && r) r->deallocate(d, cap * sizeof(E), alignof(E)); }
    allocator_type get_allocator() const { return allocator_type(r); } size_t size() const { return n; } E* data() { return d; } };
struct Plain : pmr::memory_resource { int frees = 0; void* do_allocate(size_t n, size_t) override { return vc_malloc(n); } void do_deallocate(void* p, size_t, size_t) override { ++frees; ::free(p); } bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; } };
}
VC_PROOF(C23, from_container)
{
    reset(); gt::Factory f1, f2; {
    ChannelResource r1(&f1), r2(&f2); Plain plain; uint32_t src = vc_choice("container_memory", 2), dst = vc_choice("target", 3);
    Cont c; c.cap = vc_in("capacity", 1, vc_symbolic() ? 1 << 30 : 1 << 10); c.n = vc_in("size", 0, c.cap); c.r = src == 0 ? static_cast<pmr::memory_resource*>(&r1) : &plain; c.d = static_cast<E*>(c.r->allocate(c.cap * sizeof(E), alignof(E)));
    E* d0 = c.d; size_t n0 = c.n; size_t i = vc_in("i", 0, c.cap - 1); uint32_t v = 0; if (i < n0) { v = vc_u32("v"); c.d[i].v = v; }
    size_t bytes = n0 * sizeof(E);
    MemoryResource* target = dst == 0 ? nullptr : dst == 1 ? &r1 : &r2; long made = gt::created;
    try {
        MessagePtr m = getMessage(std::move(c), target);
        vc_assert(src == 0 || dst != 0, "without a transport there is no message");
        vc_assert(m && m->GetSize() == bytes, "the message has exactly the container's bytes");
        if (i < n0) vc_assert(static_cast<E*>(m->GetData())[i].v == v, "the message has exactly the container's bytes");
        if (src == 0 && dst != 2) { vc_assert(m->GetData() == d0 && gt::created == made, "memory of the same resource is not copied"); vc_cover("from_container:moved"); }
        else { vc_assert(gt::created == made + 1 && static_cast<gt::Msg*>(m.get())->GetTransport() == (dst == 2 ? &f2 : &f1), "the copy belongs to the target"); vc_assert(m->GetData() != d0, "a copy is made"); vc_cover("from_container:copied"); if (src == 1) vc_assert(plain.frees == 1, "the container's memory is freed once"); }
        vc_assert(gt::live == 1 && r1.getNumberOfMessages() == 0, "the container is used up");
    } catch (std::runtime_error&) { vc_assert(src == 1 && dst == 0, "a message can be made if there is a transport"); vc_cover("from_container:refused"); }
    } vc_assert(gt::live == 0, "nothing is leaked");
}
// a container may hold no memory of its own resource (small buffer): its bytes are copied
VC_PROOF(C23, small_buffer)
{
    reset(); gt::Factory f; { ChannelResource r(&f); Cont c; c.r = nullptr; static E e; e.v = vc_u32("v"); uint32_t v = e.v;
    struct Small { using value_type = E; using allocator_type = pmr::polymorphic_allocator<E>; E* d; pmr::memory_resource* r; allocator_type get_allocator() const { return allocator_type(r); } size_t size() const { return 1; } E* data() { return d; } } s{&e, &r};
    bool t = vc_bool("target_given"); MessagePtr m = getMessage(std::move(s), t ? &r : nullptr);
    vc_assert(m && m->GetSize() == sizeof(E) && m->GetData() != &e && static_cast<E*>(m->GetData())->v == v && r.getNumberOfMessages() == 0, "bytes outside the resource are copied"); vc_cover("small_buffer:done"); }
    vc_assert(gt::live == 0, "nothing is leaked");
}
// messages from values
VC_PROOF(C23, from_value)
{
    reset(); gt::Factory f; uint64_t h0 = vc_heap_live(); uint32_t k = vc_choice("kind", 4);
    if (k == 0) { struct T { uint32_t a; uint64_t b; } t{vc_u32("a"), vc_u64("b")}; uint32_t a = t.a; uint64_t b = t.b; MessagePtr m = f.NewSimpleMessage(t); t.a = t.b = 0; T* p = static_cast<T*>(m->GetData()); vc_assert(m->GetSize() == sizeof(T) && p->a == a && p->b == b, "a message made from a value is a copy of it"); }
    if (k == 1) { std::string s = vc_str("s"); MessagePtr m = f.NewSimpleMessage(s); vc_assert(m->GetSize() == s.size() && m->GetData() != s.data(), "a message made from a text has its length"); }
    if (k == 2) { MessagePtr m = f.NewSimpleMessage("hello"); vc_assert(m->GetSize() == 5 && static_cast<char*>(m->GetData())[0] == 'h' && static_cast<char*>(m->GetData())[4] == 'o', "a message made from a text has its characters"); }
    if (k == 3) { std::string s = "static"; MessagePtr m = f.NewStaticMessage(s); vc_assert(m->GetSize() == 6 && static_cast<char*>(m->GetData())[0] == 's', "a message over a static text uses it in place"); m.reset(); vc_assert(s == "static", "static data is not freed"); }
    vc_assert(gt::live == 0 && gt::created == 1 && vc_heap_live() == h0, "the copy is freed with the message"); vc_cover("from_value:done");
}
