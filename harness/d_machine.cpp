// Machines, states, observers: executes the steps of spec/Machine.tla on the real code.
#include "driver.h"
#include <sstream>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <iostream>
#include <boost/shared_ptr.hpp>
#include <flame/base.h>
#include <flame/linear.h>
#include <flame/moment.h>
#include <flame/state/vector.h>
#include <flame/state/matrix.h>

static bool regd = false;
void ensure_registered() { if (!regd) { registerLinear(); registerMoment(); regd = true; } }

typedef boost::shared_ptr<Machine> MP;
typedef boost::shared_ptr<StateBase> SP;
static std::map<std::string, MP> machines;
static std::map<std::string, SP> states;

struct FNV {
    uint64_t a, b; FNV() : a(1469598103934665603ull), b(88172645463325252ull) {}
    void put(const void* p, size_t n) {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; i++) { a = (a ^ c[i]) * 1099511628211ull; b = (b + c[i]) * 6364136223846793005ull; b ^= b >> 29; }
    }
    std::string str() const { char s[40]; snprintf(s, sizeof s, "%016llx%016llx", (unsigned long long)a, (unsigned long long)b); return s; }
};
static double canon(double d) { return std::isnan(d) ? std::numeric_limits<double>::quiet_NaN() : d; }

// every exported array, element by element, through the public description
template<typename F> static void each_array(StateBase& S, F f) {
    for (unsigned k = 0; ; k++) {
        StateBase::ArrayInfo I;
        if (!S.getArray(k, I)) break;
        std::vector<size_t> dims(I.dim, I.dim + I.ndim);
        size_t n = 1; for (size_t d : dims) n *= d;
        json a = json::array();
        std::vector<double> v; v.reserve(n);
        size_t ix[3] = {0, 0, 0};
        for (size_t c = 0; c < n; c++) {
            size_t r = c;
            for (int d = (int)I.ndim - 1; d >= 0; d--) { ix[d] = r % I.dim[d]; r /= I.dim[d]; }
            if (I.type == StateBase::ArrayInfo::Double) v.push_back(canon(*I.get<double>(ix)));
            else v.push_back((double)*I.get<size_t>(ix));
        }
        f(std::string(I.name), I, dims, v);
    }
}
std::string state_fp(StateBase& S) {
    FNV h;
    each_array(S, [&](const std::string& n, StateBase::ArrayInfo&, const std::vector<size_t>& d, const std::vector<double>& v) {
        if (n == "next_elem") return;
        h.put(n.c_str(), n.size() + 1); if (!d.empty()) h.put(&d[0], d.size() * sizeof(size_t));
        if (!v.empty()) h.put(&v[0], v.size() * sizeof(double));
    });
    return h.str();
}
json state_json(StateBase& S, bool full) {
    json r = {{"fp", state_fp(S)}, {"pos", S.pos}, {"retreat", S.retreat}};
    if (S.next_elem == (size_t)-1) r["next"] = -1; else r["next"] = S.next_elem;
    bool fin = true;    // energies and phases are numbers (a beam decelerated to a halt has none)
    each_array(S, [&](const std::string& n, StateBase::ArrayInfo&, const std::vector<size_t>&, const std::vector<double>& v) {
        if (n != "IonW" && n != "ref_IonW" && n != "IonEk" && n != "ref_IonEk" && n != "phis" && n != "ref_phis" && n != "bg") return;
        for (double x : v) if (!std::isfinite(x)) fin = false;
    });
    if (!fin) r["fin"] = false;
    if (full) {
        json A = json::object();
        each_array(S, [&](const std::string& n, StateBase::ArrayInfo& I, const std::vector<size_t>& d, const std::vector<double>& v) {
            json vv = json::array(); for (double x : v) vv.push_back(dhex(x));
            A[n] = {{"dim", d}, {"v", vv}, {"t", I.type == StateBase::ArrayInfo::Double ? "d" : "z"}};
        });
        r["arr"] = A;
    }
    return r;
}
StateBase& vdrv_state(const std::string& n) { auto it = states.find(n); if (it == states.end()) throw std::runtime_error("driver: no state"); return *it->second; }
static Machine& M(const json& c, const char* k = "m") { auto it = machines.find(c.at(k)); if (it == machines.end()) throw std::runtime_error("driver: no machine"); return *it->second; }
static StateBase& S(const json& c, const char* k = "s") { auto it = states.find(c.at(k)); if (it == states.end()) throw std::runtime_error("driver: no state"); return *it->second; }
#define TRY(body) try { body } catch (std::exception& e) { return json{{"ok", false}, {"exc", exname(e)}, {"msg", e.what()}}; }

struct Obs : public Observer {
    static std::vector<std::pair<size_t, boost::shared_ptr<StateBase> > > log;
    virtual ~Obs() {}
    virtual void view(const ElementVoid* e, const StateBase* s) { log.push_back(std::make_pair(e->index, boost::shared_ptr<StateBase>(s->clone()))); }
};
std::vector<std::pair<size_t, boost::shared_ptr<StateBase> > > Obs::log;
static std::vector<std::pair<boost::shared_ptr<StateBase>, std::string> > snaps;

static Config mk(const json& c) { return json2config(c); }

OP(reset) {
    machines.clear(); states.clear(); snaps.clear(); Obs::log.clear();
    return json::object();
}
OP(m_new) {
    ensure_registered();
    TRY( MP p(new Machine(mk(c.at("conf")))); machines[c.at("m")] = p; )
    return json{{"ok", true}, {"n", M(c).size()}};
}
OP(m_del) { machines.erase(c.at("m").get<std::string>()); return json{{"ok", true}}; }
OP(s_alloc) {
    TRY( SP p(M(c).allocState(mk(c.at("conf")))); states[c.at("s")] = p; )
    return json{{"ok", true}, {"st", state_json(S(c), c.value("full", false))}};
}
OP(s_clone) {
    TRY( SP p(S(c, "from").clone()); states[c.at("s")] = p; )
    return json{{"ok", true}, {"st", state_json(S(c), c.value("full", false))}};
}
OP(s_assign) {
    TRY( S(c).assign(S(c, "from")); )
    return json{{"ok", true}, {"st", state_json(S(c), c.value("full", false))}};
}
OP(s_del) { states.erase(c.at("s").get<std::string>()); return json{{"ok", true}}; }
OP(s_get) { return state_json(S(c), c.value("full", false)); }
OP(s_set) {     // name, flat list of indices, value
    StateBase& s = S(c);
    for (unsigned k = 0; ; k++) {
        StateBase::ArrayInfo I;
        if (!s.getArray(k, I)) break;
        if (c.at("name") != I.name) continue;
        size_t ix[3] = {0, 0, 0}; int j = 0;
        for (auto& x : c.at("idx")) ix[j++] = x;
        if (I.type == StateBase::ArrayInfo::Double) *I.get<double>(ix) = num(c.at("val")); else *I.get<size_t>(ix) = c.at("val").get<size_t>();
        return json{{"ok", true}, {"st", state_json(s, false)}};
    }
    return json{{"ok", false}};
}
OP(s_show) { std::ostringstream o; S(c).show(o, c.value("level", 0)); return json{{"text", o.str()}}; }
OP(observe) { M(c).at(c.at("i"))->set_observer(c.at("on") ? new Obs : 0); return json{{"ok", true}}; }
OP(prop) {
    Machine& m = M(c); StateBase& s = S(c);
    std::ostringstream tr;
    bool trace = c.value("trace", false), full = c.value("full", false);
    if (trace) m.set_trace(&tr);
    Obs::log.clear();
    json r = {{"ok", true}};
    size_t start = c.at("start").is_string() ? (size_t)-1 : c.at("start").get<size_t>();
    try { m.propagate(&s, start, c.at("max").get<int>()); }
    catch (std::exception& e) { r = json{{"ok", false}, {"exc", exname(e)}, {"msg", e.what()}}; }
    m.set_trace(0);
    r["st"] = state_json(s, full);
    json o = json::array();
    for (auto& x : Obs::log) {
        json j = state_json(*x.second, full); j["i"] = x.first; o.push_back(j);
        if (snaps.size() < 64) snaps.push_back(std::make_pair(x.second, j["fp"].get<std::string>()));
    }
    r["obs"] = o;
    if (trace) {    // [n] name and the printed state
        json L = json::array(); std::string t = tr.str();
        size_t p = 0;
        while ((p = t.find("After [", p)) != t.npos) {
            size_t q = t.find("After [", p + 1);
            L.push_back(t.substr(p, q == t.npos ? q : q - p)); if (q == t.npos) break; p = q;
        }
        r["trace"] = L;
    }
    return r;
}
OP(snaps) {     // are the snapshots taken by observers still what they were?
    int bad = 0; for (auto& x : snaps) if (state_fp(*x.first) != x.second) bad++;
    json r = {{"bad", bad}, {"n", snaps.size()}}; if (c.value("clear", true)) snaps.clear(); return r;
}
OP(reconf) {
    TRY( M(c).reconfigure(c.at("i").get<size_t>(), mk(c.at("conf"))); )
    return json{{"ok", true}};
}
static json elem_json(const ElementVoid* e, bool conf) {
    json r = {{"index", e->index}, {"name", e->name}, {"type", e->type_name()}, {"length", e->length}, {"obs", e->observer() != 0}};
    if (conf) {
        r["conf"] = config2json(e->conf(), true);
        std::ostringstream o; e->show(o, 0); r["show"] = o.str();
    }
    return r;
}
OP(elems) {
    Machine& m = M(c); json r = json::array(); bool conf = c.value("conf", false);
    for (auto it = m.begin(); it != m.end(); ++it) r.push_back(elem_json(*it, conf));
    json o = {{"elems", r}, {"simtype", m.simtype()}, {"size", m.size()}};
    if (conf) { std::ostringstream s; s << m; o["show"] = s.str(); }
    return o;
}
OP(lookup) {    // names, types -> indices
    Machine& m = M(c); json r;
    json N = json::object(), T = json::object(), F = json::object(), A = json::array();
    for (auto& n : c.at("names")) {
        std::string s = n; json L = json::array();
        auto p = m.equal_range(s); for (; p.first != p.second; ++p.first) L.push_back((*p.first)->index);
        N[s] = L;
        json Q = json::array();
        for (size_t k = 0; k < m.size() + 1; k++) { ElementVoid* e = m.find(s, k); if (e) Q.push_back(e->index); else { Q.push_back(-1); break; } }
        F[s] = Q;
    }
    for (auto& n : c.at("types")) {
        std::string s = n; json L = json::array();
        auto p = m.equal_range_type(s); for (; p.first != p.second; ++p.first) L.push_back((*p.first)->index);
        T[s] = L;
    }
    auto p = m.all_range(); for (; p.first != p.second; ++p.first) A.push_back((*p.first)->index);
    return json{{"name", N}, {"find", F}, {"type", T}, {"all", A}};
}
// One element applied by a machine that has never done anything else (except, for a backward pass of
// an accelerating element, the forward pass of 'prev').  Results are memoised: a fresh machine is a
// function of its configuration and input.
static std::map<std::string, std::pair<SP, std::string> > memo;
OP(oracle) {
    ensure_registered();
    StateBase& s = S(c);
    bool back = c.at("dir") == "b";
    FNV k; std::string cs = c.at("conf").dump() + "|" + c.at("sim").get<std::string>() + (back ? "b" : "f"); k.put(cs.c_str(), cs.size());
    std::string key = k.str() + state_fp(s);
    StateBase* prev = 0;
    if (c.count("prev")) { prev = &S(c, "prev"); key += state_fp(*prev); }
    auto it = memo.find(key);
    if (it == memo.end() || c.value("nomemo", false)) {
        json mc = {{"sim_type", c.at("sim")}, {"elements", {{"c", json::array({c.at("conf")})}}}};
        SP w(s.clone()); std::string err;
        try {
            Machine m(mk(mc));
            if (prev) { SP p(prev->clone()); m.propagate(p.get(), 0, 1); }
            m.propagate(w.get(), 0, back ? -1 : 1);
        } catch (std::exception& e) { err = std::string("!") + e.what(); }
        if (memo.size() > 400000) memo.clear();
        memo[key] = std::make_pair(w, err); it = memo.find(key);
    }
    if (!it->second.second.empty()) return json{{"ok", false}, {"msg", it->second.second}};
    s.assign(*it->second.first);
    return json{{"ok", true}, {"st", state_json(s, c.value("full", false))}};
}
