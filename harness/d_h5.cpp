// State recorder: writers driven by spec/H5Rec.tla; files read back with the plain HDF5 C library.
#include "driver.h"
#include <map>
#include <cstdlib>
#include <cstring>
#include <boost/shared_ptr.hpp>
#include <hdf5.h>
#include <flame/base.h>
#include <flame/h5writer.h>
#include <flame/h5loader.h>

StateBase& vdrv_state(const std::string&);
typedef boost::shared_ptr<H5StateWriter> WP;
static std::map<std::string, WP> W;
static std::string scratch(const std::string& p) {
    const char* s = getenv("VF_SCRATCH");
    if (!s || p.find("..") != p.npos) throw std::logic_error("driver: path outside scratch directory");
    if (p[0] == '/' && p.compare(0, strlen(s), s) != 0) throw std::logic_error("driver: path outside scratch directory");
    return p;   // relative paths: the driver is started inside the scratch directory
}
static H5StateWriter& w(const json& c) { auto it = W.find(c.at("w")); if (it == W.end()) throw std::logic_error("driver: no writer"); return *it->second; }
#define TRY(body) try { body; return json{{"ok", true}}; } catch (std::exception& e) { return json{{"ok", false}, {"exc", exname(e)}, {"msg", e.what()}}; }
OP(h5_quiet) { H5StateWriter::dontPrint(); H5Eset_auto2(H5E_DEFAULT, 0, 0); return json{{"ok", true}}; }
OP(h5_new) { TRY( if (c.count("spec")) W[c.at("w")] = WP(new H5StateWriter(scratch(c.at("spec").get<std::string>()))); else W[c.at("w")] = WP(new H5StateWriter) ) }
OP(h5_del) { TRY( W.erase(c.at("w").get<std::string>()) ) }
OP(h5_open) { TRY( w(c).open(scratch(c.at("spec").get<std::string>())) ) }
OP(h5_close) { TRY( w(c).close() ) }
OP(h5_append) { TRY( w(c).append(&vdrv_state(c.at("s"))) ) }
OP(h5_attr) { TRY( w(c).setAttr(c.at("name").get<std::string>().c_str(), c.at("val").get<std::string>()) ) }
OP(h5_reset) { W.clear(); return json{{"ok", true}}; }

struct Ids { std::vector<std::pair<hid_t, herr_t(*)(hid_t)> > v; ~Ids() { while (!v.empty()) { v.back().second(v.back().first); v.pop_back(); } }
    hid_t operator()(hid_t h, herr_t (*f)(hid_t)) { if (h < 0) throw std::runtime_error("reader: HDF5 call failed"); v.push_back(std::make_pair(h, f)); return h; } };
static herr_t addname(hid_t, const char* n, const H5L_info_t*, void* p) { ((std::vector<std::string>*)p)->push_back(n); return 0; }
static herr_t addattr(hid_t, const char* n, const H5A_info_t*, void* p) { ((std::vector<std::string>*)p)->push_back(n); return 0; }
OP(h5_read) {   // file, group; rows: [lo, hi) (default all)
    Ids id;
    try {
        hid_t f = id(H5Fopen(c.at("file").get<std::string>().c_str(), c.value("rw", false) ? H5F_ACC_RDWR : H5F_ACC_RDONLY, H5P_DEFAULT), H5Fclose);
        std::string gn = c.at("group");
        if (gn.empty()) gn = "/";
        hid_t g = id(H5Gopen2(f, gn.c_str(), H5P_DEFAULT), H5Gclose);
        std::vector<std::string> names, an; hsize_t ix = 0;
        if (H5Literate(g, H5_INDEX_NAME, H5_ITER_INC, &ix, addname, &names) < 0) throw std::runtime_error("reader: iterate");
        ix = 0; H5Aiterate2(g, H5_INDEX_NAME, H5_ITER_INC, &ix, addattr, &an);
        json D = json::object(), A = json::object(), G = json::array();
        for (auto& n : an) {
            Ids i2; hid_t a = i2(H5Aopen(g, n.c_str(), H5P_DEFAULT), H5Aclose), t = i2(H5Aget_type(a), H5Tclose);
            size_t sz = H5Tget_size(t); std::string b(sz + 1, 0);
            if (H5Aread(a, t, &b[0]) < 0) throw std::runtime_error("reader: attribute");
            A[n] = b.c_str();
        }
        for (auto& n : names) {
            Ids i2; hid_t o = i2(H5Oopen(g, n.c_str(), H5P_DEFAULT), H5Oclose);
            if (H5Iget_type(o) == H5I_GROUP) { G.push_back(n); continue; }
            if (H5Iget_type(o) != H5I_DATASET) { G.push_back("?" + n); continue; }
            hid_t sp = i2(H5Dget_space(o), H5Sclose), ty = i2(H5Dget_type(o), H5Tclose);
            int nd = H5Sget_simple_extent_ndims(sp);
            std::vector<hsize_t> dim(nd); H5Sget_simple_extent_dims(sp, dim.data(), 0);
            hsize_t lo = 0, hi = dim[0];
            if (c.count("rows")) { lo = std::min<hsize_t>(dim[0], c["rows"][0].get<size_t>()); hi = std::min<hsize_t>(dim[0], c["rows"][1].get<size_t>()); }
            std::vector<hsize_t> st(nd, 0), ct(dim); st[0] = lo; ct[0] = hi - lo;
            size_t tot = 1; for (hsize_t x : ct) tot *= x;
            bool fl = H5Tget_class(ty) == H5T_FLOAT;
            std::vector<double> vd(fl ? tot : 0); std::vector<unsigned long long> vu(fl ? 0 : tot);
            if (tot) {
                hid_t ms = i2(H5Screate_simple(nd, ct.data(), 0), H5Sclose);
                if (H5Sselect_hyperslab(sp, H5S_SELECT_SET, st.data(), 0, ct.data(), 0) < 0) throw std::runtime_error("reader: select");
                if (H5Dread(o, fl ? H5T_NATIVE_DOUBLE : H5T_NATIVE_ULLONG, ms, sp, H5P_DEFAULT, fl ? (void*)vd.data() : (void*)vu.data()) < 0) throw std::runtime_error("reader: read");
            }
            json v = json::array();
            for (size_t k = 0; k < tot; k++) v.push_back(fl ? dhex(vd[k]) : dhex((double)vu[k]));
            D[n] = {{"dim", dim}, {"v", v}, {"t", fl ? "d" : "z"}};
        }
        return json{{"ok", true}, {"data", D}, {"attrs", A}, {"groups", G}};
    } catch (std::exception& e) { return json{{"ok", false}, {"msg", e.what()}}; }
}
OP(h5_load) {   // H5Loader: spec, dset
    try {
        H5Loader L; L.open(scratch(c.at("spec").get<std::string>()));
        H5Loader::matrix_t m = L.load(c.at("dset").get<std::string>());
        json v = json::array();
        for (size_t i = 0; i < m.size1(); i++) for (size_t j = 0; j < m.size2(); j++) v.push_back(dhex(m(i, j)));
        return json{{"ok", true}, {"dim", {m.size1(), m.size2()}}, {"v", v}};
    } catch (std::exception& e) { return json{{"ok", false}, {"exc", exname(e)}, {"msg", e.what()}}; }
}
