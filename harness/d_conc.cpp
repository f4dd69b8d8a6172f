// Registry and logging: custom simulation and element types that act from within their constructors and
// during propagation, sinks that act while they receive a message, and threads.
#include "driver.h"
#include <flame/base.h>
#include <flame/config.h>
#include <thread>
#include <atomic>
#include <mutex>
#include <dlfcn.h>
#include <unistd.h>
#include <sched.h>
#include <pthread.h>
#include <cstdlib>
#include <new>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
std::string state_fp(StateBase& S);

// --- perturbation: threads are delayed where they allocate memory and where they lock -----------------------
namespace {
std::atomic<int> perturb(0);
thread_local uint64_t rng = 0;
uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
void disturb(int w) {
    int p = perturb.load(std::memory_order_relaxed);
    if (!p || !rng) return;
    uint64_t r = rnd() % 1000;
    if (r >= (uint64_t)(p * w)) return;
    switch (r % 4) { case 0: sched_yield(); break; case 1: for (volatile int i = 0; i < 2000; i = i + 1) {} break; case 2: usleep(20 + rnd() % 100); break; default: sched_yield(); sched_yield(); }
}
}
void* operator new(size_t n) { disturb(1); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    disturb(3); int r = real(m); disturb(3); return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m); disturb(3); return r;
}

namespace {
// --- events ----------------------------------------------------------------------------------------------------
std::atomic<long> now(0);
struct Ctx {                 // of a thread
    int t = 0; json ev = json::array(); std::vector<int> cur; int insink = 0;
    std::map<int, boost::shared_ptr<Machine> > M;
    long nested = 0;
};
thread_local Ctx* ctx = 0;
json act(const json& a);
void run(const json& l) { for (auto& a : l) act(a); }

// --- custom types ---------------------------------------------------------------------------------------------
template<int V> struct CState : public StateBase {
    std::string seen;
    CState(const Config& c) : StateBase(c) {}
    CState(const CState& o) : StateBase(o, clone_tag()), seen(o.seen) {}
    virtual StateBase* clone() const { return new CState(*this); }
    virtual void assign(const StateBase& o) { StateBase::assign(o); seen = dynamic_cast<const CState&>(o).seen; }
    virtual void show(std::ostream& s, int) const { s << "CState" << V; }
};
struct CBase { virtual ~CBase() {} virtual int ver() const = 0; };
template<int V> struct CElem : public ElementVoid, public CBase {
    std::string typ, later;
    CElem(const Config& c) : ElementVoid(c), typ(c.get<std::string>("type")), later(c.get<std::string>("later", "[]")) {
        run(json::parse(c.get<std::string>("do", "[]")));
        if (c.get<double>("boom", 0)) throw std::runtime_error("boom");
    }
    virtual const char* type_name() const { return typ.c_str(); }
    virtual int ver() const { return V; }
    virtual void advance(StateBase&) { run(json::parse(later)); }
    virtual void assign(const ElementVoid* o) { ElementVoid::assign(o); later = dynamic_cast<const CElem*>(o)->later; }
};
int sver(StateBase* s) { return dynamic_cast<CState<1>*>(s) ? 1 : dynamic_cast<CState<2>*>(s) ? 2 : dynamic_cast<CState<3>*>(s) ? 3 : -1; }

// --- sinks ----------------------------------------------------------------------------------------------------------
std::map<int, json> sinkdef;
std::atomic<long> alive(0), misused(0);
struct Sink : public Machine::Logger {
    int k; std::atomic<long> magic; json on;
    Sink(int k, const json& on) : k(k), magic(0x51ce51ce), on(on) { alive++; }
    virtual ~Sink() { magic = 0; alive--; }
    virtual void log(const Machine::LogRecord& r) {
        if (magic != 0x51ce51ce) misused++;
        if (ctx) {
            ctx->ev.push_back({{"d", k}, {"l", r.level}, {"t", r.strm.str()}, {"f", r.fname ? r.fname : ""}, {"n", r.lnum}, {"at", now++}, {"by", ctx->cur.empty() ? -1 : ctx->cur.back()}});
            if (!ctx->insink) { ctx->insink++; try { run(on); } catch (...) { ctx->insink--; throw; } ctx->insink--; }
        }
        disturb(100);
        if (magic != 0x51ce51ce) misused++;
    }
};
boost::shared_ptr<Machine::Logger> mksink(int k) {
    if (!k) return boost::shared_ptr<Machine::Logger>();
    return boost::shared_ptr<Machine::Logger>(new Sink(k, sinkdef.count(k) ? sinkdef[k] : json::array()));
}

// --- actions ---------------------------------------------------------------------------------------------------------
template<int V> void regS(const char* n) { Machine::registerState<CState<V> >(n); }
template<int V> void regE(const char* n, const char* e) { Machine::registerElement<CElem<V> >(n, e); }
const int LINE0 = __LINE__;
void emit(int l, const std::string& t) {
    switch (l) {
    case 0: FLAME_LOG(FINE) << t; break;
    case 10: FLAME_LOG(DEBUG) << t; break;
    case 20: FLAME_LOG(INFO) << t; break;
    case 30: FLAME_LOG(WARN) << t; break;
    case 40: FLAME_LOG(ERROR) << t; break;
    }
}
const int LINE1 = __LINE__;
json versions(Machine& m) {
    json v = json::array();
    for (size_t i = 0; i < m.size(); i++) { CBase* b = dynamic_cast<CBase*>(m[i]); v.push_back(b ? b->ver() : -1); }
    return v;
}
json act1(const json& a) {
    std::string k = a.at("a");
    if (k == "regS") { std::string n = a.at("n"); int v = a.at("v"); v == 1 ? regS<1>(n.c_str()) : v == 2 ? regS<2>(n.c_str()) : regS<3>(n.c_str()); return "ok"; }
    if (k == "regE") { std::string n = a.at("n"), e = a.at("e"); int v = a.at("v"); v == 1 ? regE<1>(n.c_str(), e.c_str()) : v == 2 ? regE<2>(n.c_str(), e.c_str()) : regE<3>(n.c_str(), e.c_str()); return "ok"; }
    if (k == "clear") { Machine::registeryCleanup(); return "ok"; }
    if (k == "build") {
        Config c; c.set<std::string>("sim_type", a.at("n"));
        std::vector<Config> es;
        for (auto& e : a.at("els")) {
            Config x(c.new_scope()); x.set<std::string>("name", e.value("name", std::string("x"))); x.set<std::string>("type", e.at("e"));
            if (e.count("do")) x.set<std::string>("do", e["do"].dump());
            if (e.count("later")) x.set<std::string>("later", e["later"].dump());
            if (e.count("boom")) x.set<double>("boom", 1);
            es.push_back(x);
        }
        c.set<std::vector<Config> >("elements", es);
        boost::shared_ptr<Machine> m(new Machine(c));
        boost::shared_ptr<StateBase> s(m->allocState());
        if (a.count("m")) ctx->M[a.at("m")] = m;
        return json{{"s", sver(s.get())}, {"e", versions(*m)}};
    }
    if (k == "use") {      // of a kept machine: new state, reconfigure every element, propagate
        boost::shared_ptr<Machine> m = ctx->M[a.at("m")]; if (!m) return "none";
        boost::shared_ptr<StateBase> s(m->allocState());
        if (!a.value("noreconf", false)) for (size_t i = 0; i < m->size(); i++) { Config c((*m)[i]->conf()); c.set<std::string>("name", "y"); c.set<std::string>("do", "[]"); m->reconfigure(i, c); }
        m->propagate(s.get());
        return json{{"s", sver(s.get())}, {"e", versions(*m)}};
    }
    if (k == "drop") { ctx->M.erase(a.at("m").get<int>()); return "ok"; }
    if (k == "log") { emit(a.at("l"), a.at("t").is_string() ? a.at("t").get<std::string>() : std::string((size_t)a.at("t").get<int>(), 'z')); return "ok"; }
    if (k == "sink") { Machine::set_logger(mksink(a.at("k"))); return "ok"; }
    if (k == "level") { Machine::log_detail = a.at("l"); return "ok"; }
    if (k == "spin") { for (int i = a.at("n"); i > 0; i--) { emit(30, "spin"); } return "ok"; }
    if (k == "real") {     // a machine of the library: build and propagate
        Machine m(json2config(a.at("conf")));
        boost::shared_ptr<StateBase> s(m.allocState(m.conf()));
        m.propagate(s.get(), a.value("start", 0), a.value("max", 1000));
        return state_fp(*s);
    }
    if (k == "linear") { registerLinear(); return "ok"; }
    if (k == "moment") { registerMoment(); return "ok"; }
    throw std::invalid_argument("unknown action " + k);
}
json act(const json& a) {
    json r; long inv = now++;
    ctx->cur.push_back(a.value("id", -1));
    try { r = act1(a); }
    catch (key_error& e) { r = "key_error"; }
    catch (std::logic_error& e) { r = "logic_error"; }
    catch (std::exception& e) { r = "error"; }
    ctx->cur.pop_back();
    ctx->ev.push_back({{"id", a.value("id", -1)}, {"a", a}, {"r", r}, {"inv", inv}, {"res", now++}, {"th", ctx->t}, {"ns", ctx->insink}});
    return r;
}
Ctx main_ctx;
}

OP(c_reset) {
    perturb = 0; ctx = &main_ctx; ctx->ev = json::array(); ctx->M.clear(); ctx->cur.clear(); ctx->insink = 0; now = 0;
    if (!c.value("keep", 0)) Machine::registeryCleanup();
    Machine::log_detail = c.value("level", 60);
    sinkdef.clear();
    if (c.count("sinks")) for (auto& s : c["sinks"]) sinkdef[s.at("k")] = s.at("on");
    Machine::set_logger(mksink(c.value("sink", 0)));
    long m = misused; misused = 0;
    return json{{"line", {LINE0, LINE1}}, {"alive", alive.load()}, {"misused", m}};
}
OP(c_seq) {     // a sequence of actions by this thread; answers the events of all
    ctx = &main_ctx; ctx->ev = json::array();
    run(c.at("acts"));
    return json{{"ev", ctx->ev}, {"alive", alive.load()}, {"misused", misused.load()}};
}
OP(c_run) {     // threads: lists of actions, all started together
    const json& T = c.at("threads");
    std::vector<Ctx> X(T.size()); std::vector<std::thread> th;
    std::atomic<int> go(0); uint64_t seed = c.value("seed", 1);
    perturb = c.value("perturb", 0);
    for (size_t i = 0; i < T.size(); i++) {
        X[i].t = (int)i;
        th.emplace_back([&, i] {
            ctx = &X[i]; rng = (seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull) | 1; for (int k = 0; k < 8; k++) rnd();
            go++; while (go.load() < (int)T.size()) {}
            for (int k = rnd() % 200; k > 0; k--) sched_yield(), k -= 20;
            try { run(T[i]); } catch (...) { misused += 1000; }
            ctx = 0; rng = 0;
        });
    }
    for (auto& t : th) t.join();
    perturb = 0;
    json ev = json::array();
    for (auto& x : X) { for (auto& e : x.ev) ev.push_back(e); }
    for (auto& x : X) x.M.clear();
    return json{{"ev", ev}, {"alive", alive.load()}, {"misused", misused.load()}};
}
