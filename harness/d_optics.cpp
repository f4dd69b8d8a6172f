// Lattices of guiding elements, run element by element (spec/Optics.tla): what a beam is after each.
#include "driver.h"
#include <memory>
#include <flame/base.h>
#include <flame/moment.h>
void ensure_registered();
static json arrays(StateBase& S) {
    json A = json::object();
    for (unsigned k = 0; ; k++) {
        StateBase::ArrayInfo I;
        if (!S.getArray(k, I)) break;
        size_t n = 1; for (unsigned d = 0; d < I.ndim; d++) n *= I.dim[d];
        json v = json::array(); size_t ix[3] = {0, 0, 0};
        for (size_t c = 0; c < n; c++) {
            size_t r = c;
            for (int d = (int)I.ndim - 1; d >= 0; d--) { ix[d] = r % I.dim[d]; r /= I.dim[d]; }
            v.push_back(dhex(I.type == StateBase::ArrayInfo::Double ? *I.get<double>(ix) : (double)*I.get<size_t>(ix)));
        }
        A[I.name] = v;
    }
    return A;
}
OP(optics) {    // conf: machine, beam: configuration of the state; steps: the beam after every element too
    ensure_registered();
    bool steps = c.value("steps", false);
    try {
        Machine m(json2config(c.at("conf")));
        std::unique_ptr<StateBase> s(m.allocState(json2config(c.at("beam"))));
        json r = {{"ok", true}}, L = json::array();
        if (steps) { L.push_back(arrays(*s)); for (size_t i = 0; i < m.size(); i++) { m.propagate(s.get(), i, 1); L.push_back(arrays(*s)); } r["steps"] = L; }
        else { m.propagate(s.get()); r["end"] = arrays(*s); }
        return r;
    } catch (std::exception& e) { return json{{"ok", false}, {"exc", exname(e)}, {"msg", e.what()}}; }
}
