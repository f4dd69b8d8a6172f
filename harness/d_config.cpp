// Config handles: steps of spec/Config.tla on the real Config class (C06, C07)
#include "driver.h"
#include <flame/config.h>
#include <sstream>
#include <cmath>

static std::map<int, Config> slots;
static std::vector<std::string> keys;

static Config::value_t mk(const std::string& t, int x) {
    if (t == "n") return Config::value_t(x * 1.5);
    if (t == "s") { std::ostringstream s; s << "s" << x; return Config::value_t(s.str()); }
    std::vector<double> v; v.push_back(x); v.push_back(x + 0.5); return Config::value_t(v);
}
static std::string cfgcode(const Config& c);
struct code_v : boost::static_visitor<std::string> {
    std::string operator()(double d) const { std::ostringstream s; double x = d / 1.5; s << "n" << x; return s.str(); }
    std::string operator()(const std::string& v) const { return v; }
    std::string operator()(const std::vector<double>& v) const {
        std::ostringstream s;
        if (v.size() == 2 && v[1] == v[0] + 0.5) s << "v" << v[0]; else s << "v?";
        return s.str();
    }
    std::string operator()(const std::vector<Config>& v) const { return v.size() == 1 ? "c(" + cfgcode(v[0]) + ")" : "c?"; }
};
static std::string code(const Config::value_t& v) { return boost::apply_visitor(code_v(), v); }
static std::string owncode(const Config& c, const std::string& k) {
    for (Config::const_iterator it = c.begin(); it != c.end(); ++it) if (it->first == k) return code(it->second);
    return "-";
}
static std::string viscode(const Config& c, const std::string& k) {
    Config::value_t v; std::string a = "-", b = "-";
    if (c.tryGetAny(k, v)) a = code(v);
    try { b = code(c.getAny(k)); } catch (key_error&) {}
    return a == b ? a : "disagree(" + a + "/" + b + ")";
}
static std::string cfgcode(const Config& c) {
    std::string r;
    for (auto& k : keys) r += owncode(c, k) + ",";
    r += "|";
    for (auto& k : keys) r += viscode(c, k) + ",";
    return r;
}
// the three typed access forms must agree; the answer is the value's code or "err"
template<typename T>
static std::string rd(const Config& c, const std::string& k, const T& def, const T& def2) {
    std::string g = "err", d = "err", d2 = "err", t = "err";
    try { T x = c.get<T>(k); g = code(Config::value_t(x)); } catch (key_error&) {}
    { T x = c.get<T>(k, def); if (code(Config::value_t(x)) != code(Config::value_t(def))) d = code(Config::value_t(x)); }
    { T x = c.get<T>(k, def2); if (code(Config::value_t(x)) != code(Config::value_t(def2))) d2 = code(Config::value_t(x)); }
    { T x(def); if (c.tryGet<T>(k, x)) t = code(Config::value_t(x));
      else if (code(Config::value_t(x)) != code(Config::value_t(def))) t = "touched"; }
    return (g == d && g == t && d == d2) ? g : "disagree(" + g + "/" + d + "/" + d2 + "/" + t + ")";
}
static json obs() {
    json r = json::array();
    for (auto& p : slots) {
        const Config& c = p.second;
        json own = json::array(), vis = json::array(), rds = json::array(), shown = json::array();
        size_t n = 0;
        for (auto& k : keys) {
            own.push_back(owncode(c, k));
            if (owncode(c, k) != "-") n++;
            vis.push_back(viscode(c, k));
            std::vector<double> dv(1, -77.0), dv2(1, -78.0);
            std::vector<Config> dc(3), dc2;
            json q = json::array();
            q.push_back(rd<double>(c, k, -999, -998)); q.push_back(rd<std::string>(c, k, "zz", "yy"));
            q.push_back(rd<std::vector<double> >(c, k, dv, std::vector<double>()));
            q.push_back(rd<std::vector<Config> >(c, k, dc, std::vector<Config>()));
            rds.push_back(q);
        }
        size_t it = 0; for (Config::const_iterator i = c.begin(); i != c.end(); ++i) it++;
        std::ostringstream s; c.show(s);
        std::istringstream is(s.str()); std::string ln, sh;
        std::vector<std::string> shk;
        while (std::getline(is, ln)) if (!ln.empty() && ln[0] != ' ' && ln[0] != ']' && ln.find(" = ") != std::string::npos) shk.push_back(ln.substr(0, ln.find(' ')));
        std::vector<std::string> ownk;
        for (auto& k : keys) if (owncode(c, k) != "-") ownk.push_back(k);
        bool ok = it == n && shk == ownk;
        std::string lines = "\n" + s.str();
        for (auto& k : keys) {
            std::string w = owncode(c, k); std::ostringstream e;
            if (w == "-" || w[0] == 'c') continue;
            double x = atof(w.c_str() + 1);
            if (w[0] == 'n') e << x * 1.5; else if (w[0] == 's') e << '"' << w << '"'; else e << "[" << x << ", " << x + 0.5 << "]";
            if (lines.find("\n" + k + " = " + e.str() + "\n") == std::string::npos) ok = false;
        }
        r.push_back(json{{"own", own}, {"vis", vis}, {"rd", rds}, {"list", ok ? "ok" : "wrong:" + s.str()}});
    }
    return r;
}

OP(cfg_reset) {
    slots.clear(); keys = c["keys"].get<std::vector<std::string> >();
    for (int i = 1; i <= c["slots"].get<int>(); i++) slots[i] = Config();
    return obs();
}
OP(cfg) {
    std::string a = c["a"]; int s = c["s"], d = c.value("d", 0);
    std::string k = c.value("k", ""), ret = "";
    if (a == "set") {
        Config::value_t v(mk(c["t"], c["x"]));
        // exercise the typed and the untyped form alike
        if (c["t"] == "n" && c.value("typed", false)) slots[s].set<double>(k, boost::get<double>(v));
        else if (c["t"] == "s" && c.value("typed", false)) slots[s].set<std::string>(k, boost::get<std::string>(v));
        else if (c["t"] == "v" && c.value("typed", false)) slots[s].set<std::vector<double> >(k, boost::get<std::vector<double> >(v));
        else if (c["t"] == "s" && c.value("sw", false)) slots[s].swap<std::string>(k, boost::get<std::string>(v));
        else if (c["t"] == "v" && c.value("sw", false)) slots[s].swap<std::vector<double> >(k, boost::get<std::vector<double> >(v));
        else slots[s].setAny(k, v);
    } else if (a == "exch") { Config::value_t v(mk(c["t"], c["x"])); slots[s].swapAny(k, v); ret = code(v); }
    else if (a == "copy") slots[d] = slots[s];
    else if (a == "copyctor") { Config t(slots[s]); slots[d].swap(t); }
    else if (a == "swap") slots[s].swap(slots[d]);
    else if (a == "new") slots[d] = slots[s].new_scope();
    else if (a == "push") slots[s].push_scope();
    else if (a == "flatten") slots[s].flatten();
    else if (a == "fresh") slots[s] = Config();
    else if (a == "nest") { std::vector<Config> v(1, slots[d]); slots[s].set<std::vector<Config> >(k, v); }
    else if (a == "unnest") { Config t(slots[s].get<std::vector<Config> >(k).at(0)); slots[d] = t; }
    else throw std::logic_error("bad action " + a);
    return json{{"obs", obs()}, {"ret", ret}};
}
