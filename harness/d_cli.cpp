// Reference for the command line tool: the library applied to the elements the specification says are visited.
#include "driver.h"
#include <sstream>
#include <memory>
#include <flame/base.h>
#include <flame/config.h>
void ensure_registered();
json state_json(StateBase& S, bool full);
OP(cli_ref) {   // path, defs: [[name, type, value]], visit: [index...], back, level
    ensure_registered();
    GLPSParser P;
    for (auto& d : c.at("defs")) {
        if (d[1] == "D") P.setVar(d[0].get<std::string>(), Config::value_t(d[2].get<double>()));
        else P.setVar(d[0].get<std::string>(), Config::value_t(d[2].get<std::string>()));
    }
    try {
        std::unique_ptr<Config> C(P.parse_file(c.at("path").get<std::string>().c_str()));
        Machine M(*C);
        std::unique_ptr<StateBase> S(M.allocState());
        json el = json::array(), out = json::array();
        for (size_t i = 0; i < M.size(); i++) el.push_back({M[i]->name, M[i]->type_name()});
        for (auto& v : c.at("visit")) {
            size_t i = v;
            M.propagate(S.get(), i, c.value("back", false) ? -1 : 1);
            std::ostringstream o; S->show(o, c.value("level", 1));
            json s = state_json(*S, true);
            out.push_back({{"i", i}, {"name", M[i]->name}, {"type", M[i]->type_name()}, {"text", o.str()}, {"arr", s["arr"]}});
        }
        std::ostringstream f; f << *S;
        return json{{"ok", true}, {"elements", el}, {"out", out}, {"final", f.str()}, {"sim", M.simtype()}};
    } catch (std::exception& e) { return json{{"ok", false}, {"msg", e.what()}}; }
}
