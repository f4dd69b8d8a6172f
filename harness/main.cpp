#include "driver.h"
#include <iostream>
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <unistd.h>
#include <fcntl.h>
#include <typeinfo>
#include <flame/config.h>
#include <flame/base.h>

static std::map<std::string, handler_t>& handlers() { static std::map<std::string, handler_t> h; return h; }
void add_handler(const std::string& op, handler_t h) { handlers()[op] = h; }

std::string dhex(double d) {
    uint64_t u; memcpy(&u, &d, 8); char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)u); return b;
}
double hexd(const std::string& s) { uint64_t u = strtoull(s.c_str(), 0, 16); double d; memcpy(&d, &u, 8); return d; }
double num(const json& j) { return j.is_string() ? hexd(j.get<std::string>()) : j.get<double>(); }

// Config <-> JSON:  number | {"s":string} | {"v":[numbers]} | {"c":[configs]}; config = {"own":{...}, "out":{...}}
static Config::value_t json2value(const json& j) {
    if (j.is_number()) return Config::value_t(j.get<double>());
    if (j.is_string()) return Config::value_t(j.get<std::string>());
    if (j.is_array()) { std::vector<double> v; for (auto& x : j) v.push_back(num(x)); return Config::value_t(v); }
    if (j.count("x")) return Config::value_t(hexd(j["x"].get<std::string>()));
    std::vector<Config> v; for (auto& x : j.at("c")) v.push_back(json2config(x));
    return Config::value_t(v);
}
Config json2config(const json& j) {
    Config c;
    if (j.count("scoped")) {          // {"scoped": {globals}, "own": {...}}
        Config g(json2config(j["scoped"]));
        c = g.new_scope();
        for (auto it = j["own"].begin(); it != j["own"].end(); ++it) c.setAny(it.key(), json2value(it.value()));
        return c;
    }
    for (auto it = j.begin(); it != j.end(); ++it) c.setAny(it.key(), json2value(it.value()));
    return c;
}
struct v2j : boost::static_visitor<json> {
    bool flat; v2j(bool f) : flat(f) {}
    json operator()(double d) const { return json{{"x", dhex(d)}}; }
    json operator()(const std::string& s) const { return s; }
    json operator()(const std::vector<double>& v) const { json a = json::array(); for (double d : v) a.push_back(dhex(d)); return a; }
    json operator()(const std::vector<Config>& v) const { json a = json::array(); for (auto& c : v) a.push_back(config2json(c, flat)); return json{{"c", a}}; }
};
json config2json(const Config& c0, bool flat) {
    json r = json::object();
    Config c(c0);
    if (flat) {     // visible values, without touching c0: use new_scope()+flatten on a private copy
        Config d(c0.new_scope());
        d.flatten();
        for (auto it = d.begin(); it != d.end(); ++it) r[it->first] = boost::apply_visitor(v2j(flat), it->second);
        return r;
    }
    for (auto it = c0.begin(); it != c0.end(); ++it) r[it->first] = boost::apply_visitor(v2j(flat), it->second);
    return r;
}
std::string exname(const std::exception& e) {
    if (dynamic_cast<const key_error*>(&e)) return "key_error";
    if (dynamic_cast<const std::invalid_argument*>(&e)) return "invalid_argument";
    if (dynamic_cast<const std::logic_error*>(&e)) return "logic_error";
    if (dynamic_cast<const std::runtime_error*>(&e)) return "runtime_error";
    return "exception";
}

int main(int, char**) {
    // answers go to a private copy of stdout: the library may print there
    FILE* out = fdopen(dup(1), "w");
    int null = open("/dev/null", O_WRONLY); dup2(null, 1);
    std::string line;
    bool reg = false;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        json c = json::parse(line), r;
        std::string op = c["op"];
        if (op == "_sync") { fputs("{}\n", out); fflush(out); continue; }
        auto it = handlers().find(op);
        if (it == handlers().end()) { std::cerr << "unknown op " << op << "\n"; return 3; }
        try { r = it->second(c); }
        catch (std::exception& e) { r = json{{"exc", exname(e)}, {"msg", e.what()}}; }
        std::string o = r.dump(-1, ' ', false, json::error_handler_t::replace);
        fputs(o.c_str(), out); fputc('\n', out);
    }
    fflush(out);
    _exit(0);
}
