// In-process model of the Boost.Interprocess API used by FairMQ's shmem transport (assumed contract of the dependency).
// Every outcome the OS / the allocator may choose is a vc_* nondeterministic value; everything else is deterministic.
#ifndef VCBOOST_H
#define VCBOOST_H
#include <vc.h>
#include <vcmap.h>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <exception>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>
namespace vcshm {
enum Kind { kSegment = 0, kObject = 0, kQueue = 0, kMutex = 1, kCondition = 2, kFile = 3 };   // segments and queues are shared memory objects
// ---- named system objects
struct Named { std::string name; Kind kind; bool exists; };
struct Names
{
    Named* v[24]; int n = 0; int removes = 0;
    Named* find(const std::string& s, Kind k) { for (int i = 0; i < n; ++i) if (v[i]->kind == k && v[i]->name == s) return v[i]; return nullptr; }
    Named* get(const std::string& s, Kind k) { Named* x = find(s, k); if (!x) { x = new Named{s, k, false}; v[n++] = x; } return x; }
    bool exists(const std::string& s, Kind k) { Named* x = find(s, k); return x && x->exists; }
    bool remove(const std::string& s, Kind k) { ++removes; Named* x = find(s, k); bool e = x && x->exists; if (x) x->exists = false; return e; }
    int alive() { int c = 0; for (int i = 0; i < n; ++i) c += v[i]->exists; return c; }
};
inline Names names;
// ---- memory of a managed segment
struct Block { char* p; size_t size; int64_t handle; bool live; };
inline void (*onFree)(char*) = nullptr;   // ghost observer of deallocations
struct Instance { const void* tid; void* obj; };
struct Seg
{
    std::string name; size_t size = 0; char* base = nullptr;
    Block b[12]; int n = 0; int allocs = 0, frees = 0, resets = 0;
    Instance inst[12]; int ni = 0;
    Block* byAddr(const void* p) { for (int i = 0; i < n; ++i) if (b[i].p == p) return &b[i]; return nullptr; }
    Block* byHandle(int64_t h) { for (int i = 0; i < n; ++i) if (b[i].handle == h) return &b[i]; return nullptr; }
    int live() { int c = 0; for (int i = 0; i < n; ++i) c += b[i].live; return c; }
    Block* add(size_t sz)
    {
        int64_t h = vc_in("handle", 0, INT64_MAX);
        for (int i = 0; i < n; ++i) vc_assume(b[i].handle != h);
        char* p = static_cast<char*>(vc_alloc(sz, 2));
        b[n] = Block{p, sz, h, true};
        return &b[n++];
    }
};
struct Segs { Seg* v[8]; int n = 0; Seg* find(const std::string& s) { for (int i = 0; i < n; ++i) if (v[i]->name == s) return v[i]; return nullptr; } };
inline Segs segs;
inline void (*onShmLock)() = nullptr;     // environment step when the session mutex is acquired
inline bool mayFailAlloc = true;          // whether allocation may run out of memory
inline void (*onAllocFail)() = nullptr;   // environment step (other threads, processes) after an allocation ran out of memory
inline int failedAllocs = 0, maxFails = 1 << 30;
template<typename T> struct TypeId { static inline char c = 0; };
inline bool mayFailOpen = false;          // whether opening a segment may fail
inline Seg* openSeg(const char* name, size_t size);
#define VCBOOST_OPENSEG
inline void openFails();
inline Seg* openSeg(const char* name, size_t size)
{
    openFails();
    std::string s(name);
    names.get(s, kSegment)->exists = true;
    Seg* x = segs.find(s);
    if (!x) { x = new Seg; x->name = s; x->size = size; segs.v[segs.n++] = x; }
    return x;
}
} // namespace vcshm
namespace boost { namespace interprocess {
struct interprocess_exception;
struct open_only_t {}; struct create_only_t {}; struct open_or_create_t {}; struct open_read_only_t {};
static const open_only_t open_only{}; static const create_only_t create_only{}; static const open_or_create_t open_or_create{}; static const open_read_only_t open_read_only{};
enum mode_t_ { read_only, read_write }; using mode_t = mode_t_;
struct unique_instance_t {}; static unique_instance_t* const unique_instance = nullptr; struct anonymous_instance_t {}; static anonymous_instance_t* const anonymous_instance = nullptr;
struct interprocess_exception : std::exception { interprocess_exception(const char* = "") {} interprocess_exception(int) {} const char* what() const noexcept override { return "interprocess_exception"; } int get_error_code() const { return 0; } };
struct bad_alloc : interprocess_exception { const char* what() const noexcept override { return "boost::interprocess::bad_alloc"; } };
struct lock_exception : interprocess_exception { const char* what() const noexcept override { return "boost::interprocess::lock_exception"; } };
} }
namespace vcshm { inline void openFails() { if (mayFailOpen && vc_bool("open_fails")) throw boost::interprocess::interprocess_exception("cannot open"); } }
namespace boost { namespace interprocess {
using allocation_type = int; enum { allocate_new = 1, expand_fwd = 2, expand_bwd = 4, shrink_in_place = 8, nothrow_allocation = 32 };
class interprocess_mutex { public: std::mutex m; void lock() { m.lock(); if (vcshm::onShmLock) vcshm::onShmLock(); } void unlock() { m.unlock(); } bool try_lock() { m.lock(); return true; } };
template<typename M> class scoped_lock { public: M* m; bool o = true; explicit scoped_lock(M& x) : m(&x) { m->lock(); } ~scoped_lock() { if (o) m->unlock(); } void unlock() { m->unlock(); o = false; } void lock() { m->lock(); o = true; } scoped_lock(const scoped_lock&) = delete; };
class interprocess_condition { public: void notify_all() {} void notify_one() {} template<typename L> void wait(L&) {} };
class mutex_family {}; template<typename T> class offset_ptr {}; template<typename A, typename B> class null_index_ {}; template<typename T> class null_index {}; template<typename T> class iset_index {};
template<typename A, typename B> class simple_seq_fit {}; template<typename A, typename B> class rbtree_best_fit {};
struct SegMgr { size_t get_size() const { return reinterpret_cast<const vcshm::Seg*>(this)->size; } };
// a segment manager constructed in place: everything allocated from the segment before is forgotten
template<typename C, typename Alg, template<typename> class Idx> struct segment_manager { segment_manager(size_t n) { auto* s = reinterpret_cast<vcshm::Seg*>(this); vc_assert(n == s->size, "a reset segment keeps its size"); for (int i = 0; i < s->n; ++i) s->b[i].live = false; s->ni = 0; ++s->resets; } };
template<typename C, typename Alg, template<typename> class Idx>
class basic_managed_shared_memory
{
  public:
    using segment_manager = SegMgr; using handle_t = ptrdiff_t; using size_type = size_t;
    vcshm::Seg* s = nullptr; SegMgr mgr;
    basic_managed_shared_memory() {}
    basic_managed_shared_memory(open_or_create_t, const char* n, size_t sz) { s = vcshm::openSeg(n, sz); }
    basic_managed_shared_memory(create_only_t, const char* n, size_t sz) { if (vcshm::names.exists(n, vcshm::kSegment)) throw interprocess_exception("exists"); s = vcshm::openSeg(n, sz); }
    basic_managed_shared_memory(open_only_t, const char* n) { if (!vcshm::names.exists(n, vcshm::kSegment)) throw interprocess_exception("no segment"); s = vcshm::openSeg(n, 0); }
    basic_managed_shared_memory(open_read_only_t, const char* n) { if (!vcshm::names.exists(n, vcshm::kSegment)) throw interprocess_exception("no segment"); s = vcshm::openSeg(n, 0); }
    basic_managed_shared_memory(basic_managed_shared_memory&& o) : s(o.s) { o.s = nullptr; }
    basic_managed_shared_memory& operator=(basic_managed_shared_memory&& o) { std::swap(s, o.s); return *this; }
    SegMgr* get_segment_manager() const { return reinterpret_cast<SegMgr*>(s); }
    size_t get_size() const { return s->size; } size_t get_free_memory() const { return vc_u64("free_memory"); } void* get_address() const { return s->base; }
    void zero_free_memory() {}
    bool all_memory_deallocated() { return s->live() == 0; } bool check_sanity() { return true; }
    size_t get_num_unique_objects() { return s->ni; } size_t get_num_named_objects() { return 0; }
    void* allocate(size_t n)
    {
        if (vcshm::mayFailAlloc && vc_bool("alloc_fails")) { vc_assume(vcshm::failedAllocs < vcshm::maxFails); ++vcshm::failedAllocs; if (vcshm::onAllocFail) vcshm::onAllocFail(); throw bad_alloc(); }
        ++s->allocs; return s->add(n)->p;
    }
    void deallocate(void* p)
    {
        auto* b = s->byAddr(p);
        vc_assert(b != nullptr && b->live, "shared memory block freed exactly once, in the segment it came from");
        if (vcshm::onFree) vcshm::onFree(static_cast<char*>(p));
        b->live = false; ++s->frees; vc_kill(p);
    }
    handle_t get_handle_from_address(const void* p) const { auto* b = s->byAddr(p); vc_assert(b != nullptr, "handle requested for an address of this segment"); return b->handle; }
    void* get_address_from_handle(handle_t h) const { auto* b = s->byHandle(h); vc_assert(b != nullptr, "handle belongs to the segment it is resolved in"); return b->p; }
    template<typename T> T* allocation_command(allocation_type, size_t limit, size_t& size, T*& reuse)
    {
        auto* b = s->byAddr(reuse);
        vc_assert(b != nullptr && b->live, "shrink of a live block");
        vc_assert(limit >= size, "shrink limit at least the preferred size");
        if (vc_bool("shrink_fails")) throw bad_alloc();
        size_t got = vc_u64("shrunk_to"); vc_assume(got >= size && got <= b->size && got <= limit);
        if (size <= b->size) {} else { throw bad_alloc(); }
        size = got; b->size = got; return reuse;
    }
    template<typename T> std::pair<T*, size_t> find(unique_instance_t*) { for (int i = 0; i < s->ni; ++i) if (s->inst[i].tid == &vcshm::TypeId<T>::c) return {static_cast<T*>(s->inst[i].obj), 1}; return {nullptr, 0}; }
    template<typename T> struct proxy { vcshm::Seg* s; bool search; template<typename... A> T* operator()(A&&... a) const {
        for (int i = 0; i < s->ni; ++i) if (s->inst[i].tid == &vcshm::TypeId<T>::c) { vc_assert(search, "named instance constructed once"); return static_cast<T*>(s->inst[i].obj); }
        T* o = new T(std::forward<A>(a)...); s->inst[s->ni++] = {&vcshm::TypeId<T>::c, o}; return o; } };
    template<typename T> proxy<T> find_or_construct(unique_instance_t*) { return {s, true}; }
    template<typename T> proxy<T> construct(unique_instance_t*) { return {s, false}; }
    template<typename T> bool destroy(unique_instance_t*) { for (int i = 0; i < s->ni; ++i) if (s->inst[i].tid == &vcshm::TypeId<T>::c) { s->inst[i].tid = nullptr; return true; } return false; }
    static bool remove(const char* n) { return vcshm::names.remove(n, vcshm::kSegment); }
};
using managed_shared_memory = basic_managed_shared_memory<char, rbtree_best_fit<mutex_family, offset_ptr<void>>, iset_index>;
template<typename T, typename S> class allocator { public: S* m = nullptr; allocator(S* x) : m(x) {} template<typename U> allocator(const allocator<U, S>& o) : m(o.m) {} using value_type = T; };
template<typename T> struct simple_ptr { T* p; T* get() const { return p; } T& operator*() const { return *p; } T* operator->() const { return p; } };
template<typename T, typename S, size_t N> class node_allocator
{
  public: vcshm::Seg* s; node_allocator(S* x) : s(reinterpret_cast<vcshm::Seg*>(x)) {}
    simple_ptr<T> allocate_one() { if (vcshm::mayFailAlloc && vc_bool("rc_alloc_fails")) throw bad_alloc(); ++s->allocs; return {reinterpret_cast<T*>(s->add(sizeof(T))->p)}; }
    void deallocate_one(T* p) { auto* b = s->byAddr(p); vc_assert(b && b->live, "reference count object freed exactly once"); b->live = false; ++s->frees; vc_kill(p); }
    void deallocate_one(const simple_ptr<T>& p) { deallocate_one(p.get()); }
};
template<typename C, typename T, typename A> class basic_string { public: std::string s; basic_string(const char* c, const A&) : s(c) {} basic_string(const A&) {} const char* c_str() const { return s.c_str(); } bool empty() const { return s.empty(); } operator std::string() const { return s; } friend bool operator==(const basic_string& a, const char* b) { return a.s == b; } };
template<typename C, typename T, typename A> std::ostream& operator<<(std::ostream& o, const basic_string<C, T, A>&) { return o; }
template<typename T, typename A> using vector = std::vector<T>;
template<typename K, typename V, typename L, typename A> using vc_map = vc::map_model<K, V, L>;
class named_mutex { public: named_mutex(create_only_t, const char* n) { if (vcshm::names.exists(n, vcshm::kMutex)) throw interprocess_exception("exists"); vcshm::names.get(n, vcshm::kMutex)->exists = true; }
    named_mutex(open_only_t, const char* n) { if (!vcshm::names.exists(n, vcshm::kMutex)) throw interprocess_exception("none"); }
    named_mutex(open_or_create_t, const char* n) { vcshm::names.get(n, vcshm::kMutex)->exists = true; }
    void lock() {} void unlock() {} static bool remove(const char* n) { return vcshm::names.remove(n, vcshm::kMutex); } };
class named_condition { public: named_condition(open_or_create_t, const char* n) { vcshm::names.get(n, vcshm::kCondition)->exists = true; } static bool remove(const char* n) { return vcshm::names.remove(n, vcshm::kCondition); } };
class shared_memory_object { public: std::string n; size_t sz = 0; bool open = false;
    shared_memory_object() {} shared_memory_object(open_only_t, const char* x, mode_t) { if (!vcshm::names.exists(x, vcshm::kObject)) throw interprocess_exception("none"); n = x; open = true; }
    shared_memory_object(create_only_t, const char* x, mode_t) { if (vcshm::names.exists(x, vcshm::kObject)) throw interprocess_exception("exists"); vcshm::names.get(x, vcshm::kObject)->exists = true; n = x; open = true; }
    shared_memory_object(shared_memory_object&& o) : n(o.n), sz(o.sz), open(o.open) {} shared_memory_object& operator=(shared_memory_object&& o) { n = o.n; sz = o.sz; open = o.open; return *this; }
    void truncate(int64_t s) { sz = s; } bool get_size(int64_t& s) const { s = sz; return true; }
    static bool remove(const char* x) { return vcshm::names.remove(x, vcshm::kObject); } };
class file_mapping { public: std::string n; file_mapping() {} file_mapping(const char* x, mode_t) : n(x) {} file_mapping(file_mapping&& o) : n(o.n) {} file_mapping& operator=(file_mapping&& o) { n = o.n; return *this; }
    static bool remove(const char* x) { return vcshm::names.remove(x, vcshm::kFile); } };
} } // namespace boost::interprocess
namespace vcshm { inline char* regionBase = nullptr; inline size_t regionSize = 0; inline int mapped = 0; inline int lastMapFlags = 0; }
namespace boost { namespace interprocess {
class mapped_region { public: char* a = nullptr; size_t sz = 0; mapped_region() {}
    template<typename M> mapped_region(const M&, mode_t, int64_t = 0, size_t s = 0, const void* = nullptr, int fl = 0) { a = vcshm::regionBase; sz = s ? s : vcshm::regionSize; ++vcshm::mapped; vcshm::lastMapFlags = fl; }
    mapped_region(mapped_region&& o) : a(o.a), sz(o.sz) {} mapped_region& operator=(mapped_region&& o) { a = o.a; sz = o.sz; return *this; }
    void* get_address() const { return a; } size_t get_size() const { return sz; } };
} }
namespace boost { namespace posix_time {
struct milliseconds { int64_t ms; explicit milliseconds(int64_t m) : ms(m) {} };
struct ptime { int64_t ms; friend ptime operator+(const ptime& a, const milliseconds& b) { return {a.ms + b.ms}; } };
struct microsec_clock { static ptime universal_time() { return {0}; } static ptime local_time() { return {0}; } };
} }
namespace vcshm {
// hooks for message queues: the harness decides what the queue does
inline bool (*queueSend)(const void*, size_t, unsigned) = nullptr;
inline bool (*queueRecv)(void*, size_t, size_t&, int64_t) = nullptr;
}
namespace boost { namespace interprocess {
class message_queue { public: using size_type = size_t; std::string n; size_t maxMsg, maxSize;
    message_queue(open_or_create_t, const char* x, size_t c, size_t m) : n(x), maxMsg(c), maxSize(m) { vcshm::names.get(x, vcshm::kQueue)->exists = true; }
    message_queue(open_only_t, const char* x) : n(x), maxMsg(0), maxSize(0) { if (!vcshm::names.exists(x, vcshm::kQueue)) throw interprocess_exception("none"); }
    bool try_send(const void* p, size_t s, unsigned pr) { vc_assert(s <= maxSize, "queue message fits"); return vcshm::queueSend ? vcshm::queueSend(p, s, pr) : true; }
    void send(const void* p, size_t s, unsigned pr) { if (vcshm::queueSend) vcshm::queueSend(p, s, pr); }
    bool timed_receive(void* p, size_t s, size_type& r, unsigned&, const posix_time::ptime& t) { return vcshm::queueRecv ? vcshm::queueRecv(p, s, r, t.ms) : false; }
    bool try_receive(void* p, size_t s, size_type& r, unsigned&) { return vcshm::queueRecv ? vcshm::queueRecv(p, s, r, 0) : false; }
    size_t get_num_msg() { return 0; } size_t get_max_msg() { return maxMsg; }
    static bool remove(const char* x) { return vcshm::names.remove(x, vcshm::kQueue); } };
} }
namespace boost {
template<typename T> struct hash { size_t operator()(const T&) const { return 0; } };
template<typename K, typename V, typename H = void, typename E = void, typename A = void> using vc_unordered_map = vc::map_model<K, V, vc::no_order>;
}
#endif
