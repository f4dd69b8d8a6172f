// Lattice texts: parse, print, print-and-parse-again (C08, C09, C10, C21)
#include "driver.h"
#include <flame/config.h>
#include <sstream>
#include <memory>
#include <cstdio>
#include <unistd.h>

static std::map<int, std::shared_ptr<GLPSParser> > parsers;

static json dump(const Config& C) {
    json r;
    r["own"] = json::object();
    for (Config::const_iterator it = C.begin(); it != C.end(); ++it)
        if (it->first != "elements") { json one = json::object(); Config t; t.setAny(it->first, it->second); r["own"].update(config2json(t, false)); }
    json es = json::array();
    Config::value_t v;
    if (C.tryGetAny("elements", v)) {
        const std::vector<Config>* E = boost::get<std::vector<Config> >(&v);
        if (E) for (auto& e : *E) es.push_back(json{{"own", config2json(e, false)}, {"vis", config2json(e, true)}});
    }
    r["elements"] = es;
    return r;
}

static Config* doparse(GLPSParser& P, const std::string& text, const std::string& how, const char* path, const std::string& tmp, bool lattice) {
    if (how == "string") return P.parse_byte(text, path);
    if (how == "bytes") {      // the buffer is exactly len bytes, not NUL terminated
        std::vector<char> b(text.begin(), text.end());
        return P.parse_byte(b.empty() ? "" : &b[0], b.size(), path);
    }
    FILE* f = fopen(tmp.c_str(), "w");
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
    if (how == "file") return P.parse_file(tmp.c_str(), lattice);
    f = fopen(tmp.c_str(), "r");
    try { Config* c = P.parse_file(lattice, f, path); fclose(f); return c; } catch (...) { fclose(f); throw; }
}

// byte strings travel as texts whose characters are the bytes
static std::string to_bytes(const std::string& u) {
    std::string r;
    for (size_t i = 0; i < u.size(); i++) {
        unsigned char a = u[i];
        if (a < 0x80) r += (char)a; else { r += (char)(((a & 3) << 6) | (u.at(i + 1) & 0x3f)); i++; }
    }
    return r;
}
static std::string of_bytes(const std::string& b) {
    std::string r;
    for (size_t i = 0; i < b.size(); i++) {
        unsigned char a = b[i];
        if (a < 0x80) r += (char)a; else { r += (char)(0xc0 | (a >> 6)); r += (char)(0x80 | (a & 0x3f)); }
    }
    return r;
}
static json of_bytes(const json& j) {
    if (j.is_string()) return of_bytes(j.get<std::string>());
    if (j.is_array()) { json r = json::array(); for (auto& x : j) r.push_back(of_bytes(x)); return r; }
    if (j.is_object()) { json r = json::object(); for (auto it = j.begin(); it != j.end(); ++it) r[of_bytes(it.key())] = of_bytes(it.value()); return r; }
    return j;
}

OP(parse) {
    bool bytes = c.value("raw", false);
    std::string text = c["text"];
    if (bytes) text = to_bytes(text);
    int pid = c.value("parser", 0);
    std::shared_ptr<GLPSParser>& P = parsers[pid];
    if (!P || c.value("fresh", true)) P.reset(new GLPSParser());
    std::ostringstream prn;
    P->setPrinter(&prn);
    if (c.count("vars")) {
        Config v(json2config(c["vars"]));
        for (Config::const_iterator it = v.begin(); it != v.end(); ++it) P->setVar(it->first, it->second);
    }
    std::string path = c.value("path", "");
    std::string link = c.value("link", ""), tmp = c.value("tmp", "");
    struct Back { char d[4096]; bool on; Back() : on(false) {} ~Back() { if (on && chdir(d)) abort(); } } back;
    if (c.count("chdir")) {
        if (!getcwd(back.d, sizeof back.d) || chdir(c["chdir"].get<std::string>().c_str())) throw std::runtime_error("chdir");
        back.on = true;
    }
    if (!link.empty()) { unlink(tmp.c_str()); if (symlink(link.c_str(), tmp.c_str())) throw std::runtime_error("symlink"); }
    json r;
    try {
        std::unique_ptr<Config> C(doparse(*P, text, c.value("how", "string"), path.empty() ? NULL : path.c_str(), c.value("tmp", ""), c.value("lattice", true)));
        if (!C) { r["null"] = true; }
        else {
            r = dump(*C);
            if (c.value("print", false)) {
                std::ostringstream s1, s2; GLPSPrint(s1, *C);
                r["text1"] = s1.str();
                GLPSParser Q; std::ostringstream q; Q.setPrinter(&q);
                try {
                    std::unique_ptr<Config> D(Q.parse_byte(s1.str()));
                    r["again"] = dump(*D);
                    GLPSPrint(s2, *D);
                    r["text2"] = s2.str();
                } catch (std::exception& e) { r["again_exc"] = e.what(); }
                r["after"] = dump(*C);      // printing must not change it
            }
        }
    } catch (std::exception& e) { r = json{{"exc", exname(e)}, {"msg", e.what()}}; }
    P->setPrinter(NULL);
    r["prints"] = prn.str();
    return bytes ? of_bytes(r) : r;
}
