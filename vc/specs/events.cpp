//@ cxxflags -I/verif/vc/stubs_sig
//@ assume C21 boost::signals2 behaves as the model in stubs_sig (slots called in order of connection, only while connected)
//@ bound step at most two subscribers and three kinds of events, each subscribed or not by earlier calls; one operation from any such state
// C21: events reach exactly the current subscribers of their kind.
#include <vcstd.h>
#include <boost/any.hpp>
#include <boost/functional/hash.hpp>
#include <boost/signals2.hpp>
#include <fairmq/EventManager.h>
using fair::mq::EventManager; using fair::mq::Event;
namespace {
struct A : Event<std::string> {}; struct B : Event<int> {};
using FA = std::function<void(std::string, int)>; using FS = std::function<void(std::string, std::string)>; using FB = std::function<void(int, int)>;
EventManager* M; std::string who[2]; std::string key; int value; std::string text; bool sub[2][3]; int calls[2][3], nextTag, tag[2][3]; bool guarded;
void called(int w, int k, bool ok, int t) { vc_assert(ok, "the event's key and values are delivered unchanged"); vc_assert(t == tag[w][k], "only the latest callback of a subscriber is called"); vc_assert(!guarded || !vc_lock_held(&M->fMutex), "callbacks are called without the lock"); ++calls[w][k]; }
void subscribe(int w, int k)
{
    int t = ++nextTag; tag[w][k] = t;
    if (k == 0) M->Subscribe<A, int>(who[w], FA([w, t](std::string s, int v) { called(w, 0, s == key && v == value, t); }));
    if (k == 1) M->Subscribe<A, std::string>(who[w], FS([w, t](std::string s, std::string v) { called(w, 1, s == key && v == text, t); }));
    if (k == 2) M->Subscribe<B, int>(who[w], FB([w, t](int s, int v) { called(w, 2, s == value && v == value + 1, t); }));
    sub[w][k] = true;
}
void unsubscribe(int w, int k)
{
    try {
        if (k == 0) M->Unsubscribe<A, int>(who[w]);
        if (k == 1) M->Unsubscribe<A, std::string>(who[w]);
        if (k == 2) M->Unsubscribe<B, int>(who[w]);
        sub[w][k] = false;
    } catch (std::exception&) { vc_assert(!sub[w][k], "a subscriber can unsubscribe"); }
}
void emit(int k) { if (k == 0) M->Emit<A, int>(key, value); if (k == 1) M->Emit<A, std::string>(key, text); if (k == 2) M->Emit<B, int>(value, value + 1); }
void setup()
{
    M = new EventManager; who[0] = vc_str("subscriber1"); who[1] = vc_str("subscriber2"); vc_assume(who[0] != who[1]); key = vc_str("key"); text = vc_str("text"); value = vc_i32("value"); vc_assume(value < 1000000000);
    nextTag = 0; guarded = true; for (auto& x : sub) for (auto& y : x) y = false; for (auto& x : calls) for (auto& y : x) y = 0;
    vc_guarded_by(&M->fSignals, sizeof(M->fSignals), &M->fMutex); vc_guarded_by(&M->fConnections, sizeof(M->fConnections), &M->fMutex);
}
void check()
{
    for (int k = 0; k < 3; ++k) { for (auto& x : calls) for (auto& y : x) y = 0;
        emit(k);
        for (int w = 0; w < 2; ++w) for (int j = 0; j < 3; ++j) vc_assert(calls[w][j] == (j == k && sub[w][j] ? 1 : 0), "an event reaches exactly the subscribers of its kind, once"); }
}
}
VC_PROOF(C21, step)
{
    setup();
    static const int slot[4][2] = {{0, 0}, {1, 0}, {0, 1}, {1, 2}};
    uint32_t state = vc_choice("state", 16);
    for (int i = 0; i < 4; ++i) if (state >> i & 1) subscribe(slot[i][0], slot[i][1]);
    uint32_t op = vc_choice("operation", 9);
    if (op < 4) { subscribe(slot[op][0], slot[op][1]); vc_cover("step:subscribed"); }
    else if (op < 8) { unsubscribe(slot[op - 4][0], slot[op - 4][1]); vc_cover("step:unsubscribed"); }
    else { unsubscribe(0, 0); subscribe(0, 0); vc_cover("step:again"); }
    vc_assert(!vc_lock_held(&M->fMutex), "the lock is released");
    check();
}
// callbacks may change subscriptions
VC_PROOF(C21, reentrant)
{
    setup(); static int n, m; n = m = 0; bool self = vc_bool("itself");
    M->Subscribe<A, int>(who[0], FA([self](std::string, int) { ++n; if (self) M->Unsubscribe<A, int>(who[0]); else if (n == 1) M->Subscribe<A, int>(who[1], FA([](std::string, int) { ++m; })); }));
    M->Emit<A, int>(key, value); vc_assert(n == 1, "the subscriber is called once");
    int m0 = m; M->Emit<A, int>(key, value); vc_assert(n == (self ? 1 : 2), "changes made by a callback take effect"); vc_assert(self ? m == 0 : m == m0 + 1, "changes made by a callback take effect"); vc_cover("reentrant:done");
}
VC_PROOF(C21, nobody)
{
    setup(); M->Emit<A, int>(key, value); M->Emit<B, int>(value, value); check(); subscribe(0, 0); check(); vc_cover("nobody:done");
}
