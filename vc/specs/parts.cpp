//@ bound change at most 3 parts in a container (all operations, all positions)
//@ bound construct at most 3 parts
// C22: containers of message parts: order, completeness and ownership of the parts.
#include <vcstd.h>
#include <fairmq/Message.h>
#include <fairmq/Parts.h>
using fair::mq::Parts; using fair::mq::Message; using fair::mq::MessagePtr;
namespace {
int live, deaths[10];
struct Msg : Message
{
    int id; explicit Msg(int i) : id(i) { ++live; } ~Msg() override { --live; ++deaths[id]; }
    void Rebuild() override {} void Rebuild(fair::mq::Alignment) override {} void Rebuild(size_t) override {} void Rebuild(size_t, fair::mq::Alignment) override {} void Rebuild(void*, size_t, fair::mq::FreeFn*, void*) override {}
    void* GetData() const override { return nullptr; } size_t GetSize() const override { return 0; } bool SetUsedSize(size_t, fair::mq::Alignment) override { return true; }
    fair::mq::Transport GetType() const override { return fair::mq::Transport::ZMQ; } void Copy(const Message&) override {}
};
Msg* made[10]; int n;
MessagePtr mk() { made[n] = new Msg(n); return MessagePtr(made[n++]); }
void reset() { n = live = 0; for (int& d : deaths) d = 0; }
void holds(Parts& p, const int* ids, size_t k)
{
    const Parts& c = p;
    vc_assert(p.Size() == k && p.Empty() == (k == 0) && size_t(p.end() - p.begin()) == k && size_t(c.end() - c.begin()) == k && size_t(c.cend() - c.cbegin()) == k, "all parts are counted");
    for (size_t i = 0; i < k; ++i) vc_assert(p.At(i).get() == made[ids[i]] && &p[i] == made[ids[i]] && &c[i] == made[ids[i]] && c.At(i).get() == made[ids[i]] && p.begin()[i].get() == made[ids[i]] && c.cbegin()[i].get() == made[ids[i]], "parts keep their order");
    size_t out = vc_in("index", k, 1000000); try { p.At(out); vc_unreachable("an index out of range is refused"); } catch (std::out_of_range&) {} try { c.At(out); vc_unreachable("an index out of range is refused"); } catch (std::out_of_range&) {}
    for (size_t i = 0; i < k; ++i) vc_assert(deaths[ids[i]] == 0, "held parts are alive");
}
}
VC_PROOF(C22, change)
{
    reset(); int ids[10]; size_t k = 0; int gone[10]; size_t g = 0;
    {
        Parts p; uint32_t n0 = vc_choice("parts", 4); for (uint32_t i = 0; i < n0; ++i) { ids[k++] = n; p.AddPart(mk()); }
        uint32_t op = vc_choice("operation", 8);
        if (op == 0) { ids[k++] = n; p.AddPart(mk()); }
        if (op == 1) { ids[k++] = n; ids[k++] = n + 1; MessagePtr a = mk(), b = mk(); p.AddPart(std::move(a), std::move(b)); vc_assert(!a && !b, "added parts belong to the container"); }
        if (op == 2) { ids[k++] = n; ids[k++] = n + 1; ids[k++] = n + 2; MessagePtr a = mk(), b = mk(), c = mk(); p.AddPart(std::move(a), std::move(b), std::move(c)); vc_assert(!a && !b && !c, "added parts belong to the container"); }
        if (op == 3) { Parts q; uint32_t n1 = vc_choice("other_parts", 4); for (uint32_t i = 0; i < n1; ++i) { ids[k++] = n; q.AddPart(mk()); } p.AddPart(std::move(q)); vc_assert(q.Empty(), "added parts belong to the container"); vc_cover("change:joined"); }
        if (op == 4) { p.Clear(); for (size_t i = 0; i < k; ++i) gone[g++] = ids[i]; k = 0; }
        if (op == 5) { Parts q; uint32_t n1 = vc_choice("other_parts", 3); for (uint32_t i = 0; i < n1; ++i) q.AddPart(mk()); q = std::move(p); holds(q, ids, k); vc_assert(p.Empty() && live == int(k), "moving a container moves its parts and destroys the target's"); p = std::move(q); }
        if (op == 6) { Parts q(std::move(p)); holds(q, ids, k); vc_assert(p.Empty(), "moving a container moves its parts"); p = std::move(q); }
        if (op == 7 && k > 0) { MessagePtr m = std::move(p.At(k - 1)); vc_assert(m.get() == made[ids[k - 1]], "a part can be taken out"); p.At(k - 1) = std::move(m); }
        holds(p, ids, k); for (size_t i = 0; i < g; ++i) vc_assert(deaths[gone[i]] == 1, "removed parts are destroyed"); vc_assert(live == int(k), "no other part exists"); vc_cover("change:done");
    }
    vc_assert(live == 0, "parts go with their container"); for (int i = 0; i < n; ++i) vc_assert(deaths[i] == 1, "every part is destroyed once");
}
VC_PROOF(C22, construct)
{
    reset(); int ids[] = {0, 1, 2};
    { uint32_t k = vc_choice("parts", 4);
      if (k == 0) { Parts p; holds(p, ids, 0); }
      if (k == 1) { MessagePtr a = mk(); Parts p(std::move(a)); vc_assert(!a, "added parts belong to the container"); holds(p, ids, 1); }
      if (k == 2) { MessagePtr a = mk(), b = mk(); Parts p(std::move(a), std::move(b)); vc_assert(!a && !b, "added parts belong to the container"); holds(p, ids, 2); }
      if (k == 3) { MessagePtr a = mk(), b = mk(), c = mk(); Parts p(std::move(a), std::move(b), std::move(c)); holds(p, ids, 3); Message* raw = new Msg(n); made[n++] = static_cast<Msg*>(raw); p.AddPart(raw); int ids4[] = {0, 1, 2, 3}; holds(p, ids4, 4); vc_cover("construct:three"); } }
    vc_assert(live == 0, "parts go with their container"); for (int i = 0; i < n; ++i) vc_assert(deaths[i] == 1, "every part is destroyed once");
}
