// Model of associative containers (assumed contract of libstdc++/boost maps): linked nodes with stable references.
#ifndef VCMAP_H
#define VCMAP_H
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
namespace vc {
struct no_order {};
template<typename K, typename V, typename Less>
class map_model
{
  public:
    using key_type = K; using mapped_type = V; using value_type = std::pair<const K, V>; using size_type = size_t; using difference_type = ptrdiff_t;
    using reference = value_type&; using const_reference = const value_type&;
    struct node { value_type kv; node* next = nullptr; node* prev = nullptr; template<typename... A> node(A&&... a) : kv(std::forward<A>(a)...) {} };
    template<bool C> struct iter
    {
        using value_type = typename map_model::value_type; using difference_type = ptrdiff_t; using iterator_category = std::bidirectional_iterator_tag;
        using reference = std::conditional_t<C, const value_type&, value_type&>; using pointer = std::conditional_t<C, const value_type*, value_type*>;
        node* n = nullptr; const map_model* m = nullptr;
        iter() {} iter(node* x, const map_model* y) : n(x), m(y) {}
        template<bool D, typename = std::enable_if_t<C && !D>> iter(const iter<D>& o) : n(o.n), m(o.m) {}
        reference operator*() const { return n->kv; } pointer operator->() const { return &n->kv; }
        iter& operator++() { n = n->next; return *this; } iter operator++(int) { iter r = *this; n = n->next; return r; }
        iter& operator--() { n = n ? n->prev : m->tail; return *this; }
        friend bool operator==(const iter& a, const iter& b) { return a.n == b.n; } friend bool operator!=(const iter& a, const iter& b) { return a.n != b.n; }
    };
    using iterator = iter<false>; using const_iterator = iter<true>;
    map_model() {}
    template<typename A, typename = std::enable_if_t<!std::is_base_of_v<map_model, std::decay_t<A>> && !std::is_same_v<std::decay_t<A>, std::initializer_list<value_type>>>> explicit map_model(const A&) {}
    map_model(std::initializer_list<value_type> l) { for (auto& x : l) insert(x); }
    map_model(const map_model& o) { for (node* n = o.head; n; n = n->next) append(new node(n->kv)); }
    map_model(map_model&& o) : head(o.head), tail(o.tail), cnt(o.cnt) { o.head = o.tail = nullptr; o.cnt = 0; }
    map_model& operator=(const map_model& o) { if (this != &o) { clear(); for (node* n = o.head; n; n = n->next) append(new node(n->kv)); } return *this; }
    map_model& operator=(map_model&& o) { if (this != &o) { clear(); head = o.head; tail = o.tail; cnt = o.cnt; o.head = o.tail = nullptr; o.cnt = 0; } return *this; }
    ~map_model() { clear(); }
    iterator begin() { return {head, this}; } iterator end() { return {nullptr, this}; }
    const_iterator begin() const { return {head, this}; } const_iterator end() const { return {nullptr, this}; }
    const_iterator cbegin() const { return {head, this}; } const_iterator cend() const { return {nullptr, this}; }
    size_t size() const { return cnt; } bool empty() const { return cnt == 0; }
    void reserve(size_t) {}
    template<typename Q> iterator find(const Q& k) { return {look(k), this}; }
    template<typename Q> const_iterator find(const Q& k) const { return {look(k), this}; }
    iterator find(const K& k) { return {look(k), this}; }
    const_iterator find(const K& k) const { return {look(k), this}; }
    size_t count(const K& k) const { return look(k) ? 1 : 0; } bool contains(const K& k) const { return look(k) != nullptr; }
    V& at(const K& k) { node* n = look(k); if (!n) throw std::out_of_range("at"); return n->kv.second; }
    const V& at(const K& k) const { node* n = look(k); if (!n) throw std::out_of_range("at"); return n->kv.second; }
    V& operator[](const K& k) { node* n = look(k); if (!n) { n = new node(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple()); link(n); } return n->kv.second; }
    V& operator[](K&& k) { node* n = look(k); if (!n) { n = new node(std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple()); link(n); } return n->kv.second; }
    template<typename... A> std::pair<iterator, bool> emplace(A&&... a)
    {
        node* n = new node(std::forward<A>(a)...);
        node* o = look(n->kv.first);
        if (o) { delete n; return {iterator{o, this}, false}; }
        link(n); return {iterator{n, this}, true};
    }
    template<typename... A> std::pair<iterator, bool> try_emplace(const K& k, A&&... a)
    {
        node* o = look(k);
        if (o) return {iterator{o, this}, false};
        node* n = new node(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<A>(a)...));
        link(n); return {iterator{n, this}, true};
    }
    template<typename P> std::pair<iterator, bool> insert(P&& v) { return emplace(std::forward<P>(v)); }
    std::pair<iterator, bool> insert(const value_type& v) { return emplace(v); }
    template<typename M> std::pair<iterator, bool> insert_or_assign(const K& k, M&& v) { node* o = look(k); if (o) { o->kv.second = std::forward<M>(v); return {iterator{o, this}, false}; } return emplace(k, std::forward<M>(v)); }
    size_t erase(const K& k) { node* n = look(k); if (!n) return 0; unlink(n); delete n; return 1; }
    iterator erase(const_iterator it) { node* x = it.n->next; unlink(it.n); delete it.n; return {x, this}; }
    iterator erase(iterator it) { node* x = it.n->next; unlink(it.n); delete it.n; return {x, this}; }
    void clear() { node* n = head; head = tail = nullptr; cnt = 0; while (n) { node* x = n->next; delete n; n = x; } }
    void swap(map_model& o) { std::swap(head, o.head); std::swap(tail, o.tail); std::swap(cnt, o.cnt); }
    iterator lower_bound(const K& k) { node* n = head; while (n && Less()(n->kv.first, k)) n = n->next; return {n, this}; }
    const_iterator lower_bound(const K& k) const { node* n = head; while (n && Less()(n->kv.first, k)) n = n->next; return {n, this}; }
    iterator upper_bound(const K& k) { node* n = head; while (n && !Less()(k, n->kv.first)) n = n->next; return {n, this}; }
    std::pair<iterator, iterator> equal_range(const K& k) { node* n = look(k); return {iterator{n, this}, iterator{n ? n->next : nullptr, this}}; }
    friend bool operator==(const map_model& a, const map_model& b)
    {
        if (a.cnt != b.cnt) return false;
        for (node* n = a.head; n; n = n->next) { node* o = b.look(n->kv.first); if (!o || !(o->kv.second == n->kv.second)) return false; }
        return true;
    }
  private:
    node* head = nullptr; node* tail = nullptr; size_t cnt = 0;
    template<typename Q> node* look(const Q& k) const { for (node* n = head; n; n = n->next) if (n->kv.first == k) return n; return nullptr; }
    void append(node* n) { n->prev = tail; n->next = nullptr; if (tail) tail->next = n; else head = n; tail = n; ++cnt; }
    void link(node* n)
    {
        if constexpr (std::is_same_v<Less, no_order>) append(n);
        else {
            node* x = head; while (x && Less()(x->kv.first, n->kv.first)) x = x->next;
            if (!x) { append(n); return; }
            n->next = x; n->prev = x->prev; if (x->prev) x->prev->next = n; else head = n; x->prev = n; ++cnt;
        }
    }
    void unlink(node* n) { if (n->prev) n->prev->next = n->next; else head = n->next; if (n->next) n->next->prev = n->prev; else tail = n->prev; --cnt; }
};
template<typename K, typename Less>
class set_model
{
    struct unit {}; using M = map_model<K, unit, Less>; M m;
  public:
    using key_type = K; using value_type = K; using size_type = size_t; using difference_type = ptrdiff_t; using reference = const K&; using const_reference = const K&;
    struct iterator
    {
        using value_type = K; using difference_type = ptrdiff_t; using iterator_category = std::bidirectional_iterator_tag; using reference = const K&; using pointer = const K*;
        typename M::const_iterator i;
        reference operator*() const { return i->first; } pointer operator->() const { return &i->first; }
        iterator& operator++() { ++i; return *this; } iterator operator++(int) { iterator r = *this; ++i; return r; } iterator& operator--() { --i; return *this; }
        friend bool operator==(const iterator& a, const iterator& b) { return a.i == b.i; } friend bool operator!=(const iterator& a, const iterator& b) { return a.i != b.i; }
    };
    using const_iterator = iterator;
    set_model() {} set_model(std::initializer_list<K> l) { for (auto& x : l) insert(x); } template<typename I> set_model(I b, I e) { for (; b != e; ++b) insert(*b); }
    iterator begin() const { return {m.begin()}; } iterator end() const { return {m.end()}; } iterator cbegin() const { return begin(); } iterator cend() const { return end(); }
    size_t size() const { return m.size(); } bool empty() const { return m.empty(); } void clear() { m.clear(); }
    iterator find(const K& k) const { return {m.find(k)}; } size_t count(const K& k) const { return m.count(k); } bool contains(const K& k) const { return m.contains(k); }
    std::pair<iterator, bool> insert(const K& k) { auto r = m.try_emplace(k); return {iterator{r.first}, r.second}; } template<typename... A> std::pair<iterator, bool> emplace(A&&... a) { return insert(K(std::forward<A>(a)...)); }
    size_t erase(const K& k) { return m.erase(k); } iterator erase(iterator it) { return {typename M::const_iterator(m.erase(it.i))}; }
};
} // namespace vc
namespace std {
template<typename K, typename L = std::less<K>, typename A = void> using vc_set = vc::set_model<K, L>;
template<typename K, typename H = void, typename E = void, typename A = void> using vc_unordered_set = vc::set_model<K, vc::no_order>;
template<typename K, typename V, typename L = std::less<K>, typename A = void> using vc_map = vc::map_model<K, V, L>;
template<typename K, typename V, typename L = void, typename A = void> using vc_umap = vc::map_model<K, V, vc::no_order>;
template<typename K, typename V, typename H = void, typename E = void, typename A = void> using vc_unordered_map = vc::map_model<K, V, vc::no_order>;
}
#endif
