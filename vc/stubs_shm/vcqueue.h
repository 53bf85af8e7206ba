// Model of FIFO containers (assumed contract of std::queue / std::deque): an unbounded sequence with a front and a back.
#ifndef VCQUEUE_H
#define VCQUEUE_H
#include <vc.h>
#include <new>
#include <utility>
#include <initializer_list>
template<typename T>
struct vc_deque
{
    static constexpr size_t cap = size_t(1) << 16;
    T* b = nullptr; size_t h = 0, t = 0;       // elements b[h..t)
    vc_deque() {}
    vc_deque(vc_deque&& o) : b(o.b), h(o.h), t(o.t) { o.b = nullptr; o.h = o.t = 0; }
    vc_deque(const vc_deque& o) : h(o.h), t(o.t) { vc_assert(o.h == o.t, "model: only empty queues are copied"); h = t = 0; }
    vc_deque& operator=(vc_deque&& o) { std::swap(b, o.b); std::swap(h, o.h); std::swap(t, o.t); o.h = o.t; return *this; }
    vc_deque& operator=(const vc_deque& o) { vc_assert(o.h == o.t, "model: only empty queues are copied"); h = t; return *this; }
    ~vc_deque() { ::free(b); }
    void alloc() { if (!b) { b = static_cast<T*>(vc_malloc(cap * sizeof(T))); } }
    bool empty() const { return h == t; } size_t size() const { return t - h; }
    void push(const T& v) { alloc(); vc_assume(t < cap); new (&b[t]) T(v); ++t; }
    void push_back(const T& v) { push(v); } template<typename... A> void emplace(A&&... a) { push(T(std::forward<A>(a)...)); } template<typename... A> void emplace_back(A&&... a) { push(T(std::forward<A>(a)...)); }
    void pop() { vc_assert(h < t, "no pop from an empty queue"); ++h; } void pop_front() { pop(); }
    T& front() { vc_assert(h < t, "no front of an empty queue"); return b[h]; } const T& front() const { vc_assert(h < t, "no front of an empty queue"); return b[h]; }
    T& back() { vc_assert(h < t, "no back of an empty queue"); return b[t - 1]; }
    void clear() { h = t; }
    T* begin() { return b + h; } T* end() { return b + t; } const T* begin() const { return b + h; } const T* end() const { return b + t; }
    T& operator[](size_t i) { vc_assert(i < size(), "index in range"); return b[h + i]; }
    void swap(vc_deque& o) { std::swap(b, o.b); std::swap(h, o.h); std::swap(t, o.t); }
};
template<typename T, typename C = vc_deque<T>> struct vc_queue : vc_deque<T> { using vc_deque<T>::vc_deque; };
namespace std { template<typename T> using vc_deque = ::vc_deque<T>; template<typename T, typename C = ::vc_deque<T>> using vc_queue = ::vc_queue<T, C>; }
#endif
