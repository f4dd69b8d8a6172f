// Data files: writes them (inside the scratch directory given by VF_SCRATCH only) and reads them through FLAME's caches.
#include "driver.h"
#include <fstream>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <map>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <utime.h>
#include <flame/base.h>
#include <flame/util.h>

static std::string inside(const std::string& p) {
    const char* s = getenv("VF_SCRATCH");
    if (!s || p.compare(0, strlen(s), s) != 0 || p.find("..") != p.npos) throw std::runtime_error("driver: path outside scratch directory");
    return p;
}
static void settime(const std::string& p, long t) { struct utimbuf u; u.actime = u.modtime = t; if (utime(p.c_str(), &u)) throw std::runtime_error("driver: utime"); }
static void gone(const std::string& p) { unlink(p.c_str()); rmdir(p.c_str()); }
OP(f_put) {      // path, text | dir, t, how: "rewrite" | "replace"
    std::string p = inside(c.at("path"));
    if (c.value("dir", false)) { gone(p); mkdir(p.c_str(), 0755); settime(p, c.at("t")); return json{{"ok", true}}; }
    struct stat st; if (stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmdir(p.c_str());
    std::string q = c.value("how", "rewrite") == "replace" ? p + ".new" : p;
    { std::ofstream f(q.c_str(), std::ios::binary | std::ios::trunc); const std::string& s = c.at("text").get_ref<const std::string&>(); f.write(s.data(), s.size()); if (!f.flush()) throw std::runtime_error("driver: write"); }
    settime(q, c.at("t"));
    if (q != p) rename(q.c_str(), p.c_str());
    return json{{"ok", true}};
}
OP(f_copy) { std::ifstream i(c.at("from").get<std::string>().c_str(), std::ios::binary); std::ofstream o(inside(c.at("path")).c_str(), std::ios::binary); o << i.rdbuf(); return json{{"ok", true}}; }
OP(f_rm) { gone(inside(c.at("path"))); return json{{"ok", true}}; }
OP(f_mkdir) {
    std::string p = inside(c.at("path"));
    for (size_t k = 1; k <= p.size(); k++) if (k == p.size() || p[k] == '/') mkdir(p.substr(0, k).c_str(), 0755);
    return json{{"ok", true}};
}

static std::map<std::string, numeric_table_cache::table_pointer> tabs;
static json dump(const numeric_table& t) {
    json rows = json::array(), cols = json::object();
    for (size_t i = 0; i < t.table.size1(); i++) { json r = json::array(); for (size_t j = 0; j < t.table.size2(); j++) r.push_back(dhex(t.table(i, j))); rows.push_back(r); }
    for (auto& kv : t.colnames) cols[kv.first] = kv.second;
    return json{{"rows", rows}, {"cols", cols}};
}
OP(tab_fetch) {
    try { tabs[c.at("u")] = numeric_table_cache::get()->fetch(c.at("path")); }
    catch (std::exception& e) { return json{{"ok", false}, {"msg", e.what()}}; }
    return json{{"ok", true}, {"tab", dump(*tabs[c.at("u")])}};
}
OP(tab_get) { auto it = tabs.find(c.at("u")); if (it == tabs.end()) return json{{"ok", false}}; return json{{"ok", true}, {"tab", dump(*it->second)}}; }
OP(tab_clear) { numeric_table_cache::get()->clear(); return json{{"ok", true}}; }
OP(tab_reset) { tabs.clear(); return json{{"ok", true}}; }
OP(tab_read) {   // the reader alone
    numeric_table t; std::istringstream s(c.at("text").get<std::string>());
    try { t.read(s); } catch (std::exception& e) { return json{{"ok", false}, {"msg", e.what()}}; }
    return json{{"ok", true}, {"tab", dump(t)}};
}
OP(noop) { return json::object(); }
