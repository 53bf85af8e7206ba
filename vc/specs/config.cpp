//@ cxxflags -I/verif/vc/stubs_sig -I/verif/vc/stubs_po -I/verif/vc/stubs_ch
//@ assume C29 boost::program_options and boost::signals2 behave as the models in stubs_po and stubs_sig; parsing the command line is not covered
//@ bound set one other property besides the one worked on; properties of types int and string
//@ bound update one other property besides the one worked on; properties of types int and string
//@ bound read two properties, of types int, string and bool
//@ bound remove one other property besides the one worked on; properties of types int and string
//@ bound set_many at most two properties changed together, three in the store; properties of types int and string
//@ bound update_many at most two properties changed together, three in the store; properties of types int and string
//@ bound select three properties, with sample keys
//@ bound channel_roundtrip at most two earlier channels of the same and one of another name
// C29: the property store
#define VC_UNORDERED
#include <vcstd.h>
#include <boost/functional/hash.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/signals2.hpp>
#include <boost/regex.hpp>
#include <vcregex.h>
#include <vcrandom.h>
#include <fairmq/Tools.h>
#include <fairmq/Transports.h>
#include <ghosttransport.h>
#include <fairmq/MemoryResources.cxx>
#include <fairmq/Channel.cxx>
#include <fairmq/Properties.cxx>
#include <fairmq/EventManager.cxx>
#include <fairmq/ProgOptions.cxx>
using namespace fair::mq;
namespace {
// kind: 0 absent, 1 int, 2 string, 3 bool
struct Val { int kind = 0; int i = 0; std::string s; bool b = false; };
ProgOptions* O; std::string key[3]; Val now[3]; int told[3], toldAs[3]; bool subscribed, interfere; int entered, N;
std::map<std::string, boost::program_options::variable_value>& store() { return O->fVarMap; }
Property prop(const Val& v) { return v.kind == 1 ? Property(v.i) : v.kind == 2 ? Property(v.s) : Property(v.b); }
std::string text(const Val& v) { return v.kind == 1 ? std::to_string(v.i) : v.kind == 2 ? v.s : std::string(v.b ? "true" : "false"); }
Val anyVal(int lo, int hi) { Val v; v.kind = lo + int(vc_choice("kind", uint32_t(hi - lo + 1))); if (v.kind == 1) v.i = vc_i32("int"); if (v.kind == 2) v.s = vc_str("string"); if (v.kind == 3) v.b = vc_bool("bool"); return v; }
// another thread changes or deletes the property that was just set
void env() { ++entered; if (!interfere || entered < 2) return; vc_ghost_begin(); if (vc_bool("other_deletes")) store().erase(key[0]); else store()[key[0]].value() = boost::any(vc_i32("other_value")); vc_ghost_end(); }
void open() { vc_assert(!vc_lock_held(&O->fMtx), "subscribers are called without the lock"); }
void setup(int maxKind, int n = 2)
{
    N = n;
    O = new ProgOptions; for (int i = 0; i < 3; ++i) { key[i] = vc_str("key"); told[i] = toldAs[i] = 0; } vc_assume(key[0] != key[1] && key[0] != key[2] && key[1] != key[2]);
    for (int i = 0; i < N; ++i) { now[i] = anyVal(0, i == 2 ? 1 : maxKind); if (now[i].kind) store()[key[i]].value() = prop(now[i]); }
    subscribed = vc_bool("subscribed"); interfere = false; entered = 0;
    if (subscribed) {
        O->Subscribe<int>("a", [](const std::string& k, int v) { open(); int n = 0; for (int i = 0; i < 3; ++i) if (k == key[i]) { vc_assert(now[i].kind == 1 && now[i].i == v, "a change is announced with its value, to those interested in its type"); ++told[i]; ++n; } vc_assert(n == 1, "a change is announced with its key"); });
        O->Subscribe<std::string>("a", [](const std::string& k, std::string v) { open(); int n = 0; for (int i = 0; i < 3; ++i) if (k == key[i]) { vc_assert(now[i].kind == 2 && now[i].s == v, "a change is announced with its value, to those interested in its type"); ++told[i]; ++n; } vc_assert(n == 1, "a change is announced with its key"); });
        O->SubscribeAsString("a", [](const std::string& k, std::string v) { open(); int n = 0; for (int i = 0; i < 3; ++i) if (k == key[i]) { vc_assert(v == text(now[i]), "a change is announced with its value as text"); ++toldAs[i]; ++n; } vc_assert(n == 1, "a change is announced with its key"); });
    }
    vc_on_lock(&O->fMtx, env); vc_guarded_by(&O->fVarMap, sizeof(O->fVarMap), &O->fMtx);
}
// the properties read as they should
void has(int k)
{
    const Val& v = now[k]; vc_assert(O->Count(key[k]) == (v.kind ? 1 : 0), "a property exists exactly if it was set");
    if (v.kind == 1) vc_assert(O->GetProperty<int>(key[k]) == v.i, "the value set last is returned"); if (v.kind == 2) vc_assert(O->GetProperty<std::string>(key[k]) == v.s, "the value set last is returned");
}
void is(int k)
{
    const Val& v = now[k]; bool thrown = false;
    vc_assert(O->Count(key[k]) == (v.kind ? 1 : 0), "a property exists exactly if it was set");
    if (v.kind == 0) {
        try { O->GetProperty<int>(key[k]); } catch (PropertyNotFoundError&) { thrown = true; } vc_assert(thrown, "a property that does not exist is reported"); thrown = false;
        try { O->GetPropertyAsString(key[k]); } catch (PropertyNotFoundError&) { thrown = true; } vc_assert(thrown, "a property that does not exist is reported");
        vc_assert(O->GetProperty<int>(key[k], 17) == 17 && O->GetPropertyAsString(key[k], "none") == "none" && O->GetValue<int>(key[k]) == 0 && O->GetStringValue(key[k]).empty(), "the given default is returned for a missing property"); return;
    }
    if (v.kind == 1) vc_assert(O->GetProperty<int>(key[k]) == v.i && O->GetProperty<int>(key[k], 17) == v.i && O->GetValue<int>(key[k]) == v.i, "the value set last is returned");
    if (v.kind == 2) vc_assert(O->GetProperty<std::string>(key[k]) == v.s && O->GetProperty<std::string>(key[k], std::string("none")) == v.s && O->GetValue<std::string>(key[k]) == v.s, "the value set last is returned");
    if (v.kind == 3) vc_assert(O->GetProperty<bool>(key[k]) == v.b && O->GetProperty<bool>(key[k], !v.b) == v.b, "the value set last is returned");
    vc_assert(O->GetPropertyAsString(key[k]) == text(v) && O->GetPropertyAsString(key[k], "none") == text(v) && O->GetStringValue(key[k]) == text(v), "the value is converted to text");
    try { O->GetProperty<long>(key[k]); } catch (boost::bad_any_cast&) { thrown = true; } vc_assert(thrown, "a property is not returned as another type");
}
void closed() { vc_assert(!vc_lock_held(&O->fMtx), "the lock is released"); }
void all() { for (int i = 0; i < N; ++i) has(i); closed(); }
void announced(int k, int n) { int m = subscribed ? n : 0; vc_assert(told[k] == m && toldAs[k] == m, "every change is announced exactly once, nothing else is"); }
}
VC_PROOF(C29, set)
{
    setup(2); interfere = vc_bool("other_thread"); Val v = anyVal(1, 2); now[0] = v; if (v.kind == 1) O->SetProperty(key[0], v.i); else O->SetProperty(key[0], v.s);
    if (!interfere) all(); else vc_cover("set:interference"); for (int i = 0; i < 3; ++i) announced(i, i == 0); closed(); vc_cover("set:done");
}
VC_PROOF(C29, update)
{
    setup(2); interfere = vc_bool("other_thread"); Val v = anyVal(1, 2); bool there = now[0].kind; if (there) now[0] = v; bool r = v.kind == 1 ? O->UpdateProperty(key[0], v.i) : O->UpdateProperty(key[0], v.s);
    vc_assert(r == there, "only existing properties can be updated"); if (!interfere) all(); for (int i = 0; i < 3; ++i) announced(i, i == 0 && there); closed(); if (r) vc_cover("update:done"); else vc_cover("update:refused");
}
VC_PROOF(C29, read)
{
    setup(3); is(0); is(1); closed(); size_t n = 0; for (auto& v : now) n += v.kind ? 1 : 0; auto ks = O->GetPropertyKeys(); vc_assert(ks.size() == n, "all keys are listed"); for (auto& k : ks) vc_assert((k == key[0] && now[0].kind) || (k == key[1] && now[1].kind), "only existing keys are listed");
    for (int i = 0; i < 3; ++i) announced(i, 0); vc_cover("read:done");
}
VC_PROOF(C29, remove) { setup(2); O->DeleteProperty(key[0]); now[0].kind = 0; all(); for (int i = 0; i < 3; ++i) announced(i, 0); vc_cover("remove:done"); }
VC_PROOF(C29, set_many)
{
    setup(2, 3); Properties p; uint32_t n = vc_choice("count", 3); for (uint32_t i = 0; i < n; ++i) { now[i] = anyVal(1, 2); p[key[i]] = prop(now[i]); } O->SetProperties(p);
    all(); for (int i = 0; i < 3; ++i) announced(i, uint32_t(i) < n); vc_cover("set_many:done");
}
VC_PROOF(C29, update_many)
{
    setup(2, 3); Properties p; uint32_t n = vc_choice("count", 3); Val v[2]; bool there = true; for (uint32_t i = 0; i < n; ++i) { v[i] = anyVal(1, 2); p[key[i]] = prop(v[i]); there = there && now[i].kind; } if (there) for (uint32_t i = 0; i < n; ++i) now[i] = v[i];
    bool r = O->UpdateProperties(p); vc_assert(r == there, "only existing properties can be updated, all or none"); all(); for (int i = 0; i < 3; ++i) announced(i, there && uint32_t(i) < n); if (r) vc_cover("update_many:done"); else vc_cover("update_many:refused");
}
// properties selected by prefix or regular expression
VC_PROOF(C29, select)
{
    static const char* const keys[] = {"id", "chans.a.0.type", "chans.a.10.type", "chans.ab.0.type", "chans.a.0.x"}; static const char* const pre[] = {"", "chans.a", "chans.a.0.", "chans.a.1", "id2"};
    O = new ProgOptions; bool in[5]; int v[5]; for (int i = 0; i < 5; ++i) { in[i] = vc_bool("exists"); v[i] = vc_i32("value"); if (in[i]) store()[keys[i]].value() = boost::any(v[i]); }
    vc_guarded_by(&O->fVarMap, sizeof(O->fVarMap), &O->fMtx); uint32_t k = vc_choice("prefix", 5); bool re = vc_bool("regex"); std::string q = pre[k]; Properties p; std::map<std::string, std::string> s;
    if (re) { p = O->GetProperties(q + ".*"); s = O->GetPropertiesAsString(q + ".*"); } else { p = O->GetPropertiesStartingWith(q); s = O->GetPropertiesAsStringStartingWith(q); }
    size_t n = 0; for (int i = 0; i < 5; ++i) { std::string x = keys[i]; bool want = in[i] && x.substr(0, q.size()) == q; n += want; vc_assert(p.count(x) == (want ? 1u : 0u) && s.count(x) == (want ? 1u : 0u), "exactly the matching properties are returned"); if (want) { vc_assert(boost::any_cast<int>(p.at(x)) == v[i], "properties are returned with their values"); vc_assert(s.at(x) == std::to_string(v[i]), "properties are returned with their values"); } }
    vc_assert(p.size() == n && s.size() == n, "exactly the matching properties are returned"); closed(); vc_cover("select:done");
}
// a channel added to the configuration is found there with all its settings
VC_PROOF(C29, channel_roundtrip)
{
    O = new ProgOptions; vc_guarded_by(&O->fVarMap, sizeof(O->fVarMap), &O->fMtx); uint32_t before = vc_choice("earlier", 3); bool other = vc_bool("other_name"); Channel e;
    for (uint32_t i = 0; i < before; ++i) O->AddChannel("data", e); if (other) O->AddChannel("dat", e);
    Channel c; c.UpdateType(vc_str("type")); c.UpdateMethod(vc_str("method")); c.UpdateAddress(vc_str("address")); c.UpdateTransport(vc_bool("shm") ? "shmem" : "zeromq"); int v[10]; for (int& x : v) x = vc_i32("setting"); bool ab = vc_bool("auto_bind");
    c.UpdateSndBufSize(v[0]); c.UpdateRcvBufSize(v[1]); c.UpdateSndKernelSize(v[2]); c.UpdateRcvKernelSize(v[3]); c.UpdateLinger(v[4]); c.UpdateRateLogging(v[5]); c.UpdatePortRangeMin(v[6]); c.UpdatePortRangeMax(v[7]); c.UpdateSndTimeout(v[8]); c.UpdateRcvTimeout(v[9]); c.UpdateAutoBind(ab);
    O->AddChannel("data", c);
    auto info = O->GetChannelInfo(); vc_assert(info.size() == (other ? 2u : 1u) && info.count("data") == 1 && info.at("data") == int(before) + 1 && (!other || info.at("dat") == 1), "channels are counted by name");
    Channel d("data", int(before), O->GetPropertiesStartingWith("chans.data." + std::to_string(before) + "."));
    vc_assert(d.GetType() == c.GetType() && d.GetMethod() == c.GetMethod() && d.GetAddress() == c.GetAddress() && d.GetTransportType() == c.GetTransportType(), "a channel is configured as it was added");
    vc_assert(d.GetSndBufSize() == v[0] && d.GetRcvBufSize() == v[1] && d.GetSndKernelSize() == v[2] && d.GetRcvKernelSize() == v[3] && d.GetLinger() == v[4] && d.GetRateLogging() == v[5] && d.GetPortRangeMin() == v[6] && d.GetPortRangeMax() == v[7] && d.GetAutoBind() == ab, "a channel is configured as it was added");
    vc_assert(d.GetSndTimeout() == v[8] && d.GetRcvTimeout() == v[9], "a channel keeps its timeouts"); closed(); vc_cover("channel_roundtrip:done");
}
