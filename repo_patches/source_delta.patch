From 9677283ba042f2350362e58cd7ba2166ef10e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:31 +0000
Subject: [PATCH 01/50] fix: Config::flatten() must not modify other copies
 sharing its values

---
 src/config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.cpp b/src/config.cpp
index df2468f..a4604ff 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -116,6 +116,7 @@ void Config::push_scope()
 void Config::flatten()
 {
     if(implicit_values) {
+        _cow();
         values->insert(implicit_values->begin(),
                        implicit_values->end());
         implicit_values.reset();
-- 
2.43.0


From 076c8e2baa16faa36e4dfb8c270ce7e213b3e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:50 +0000
Subject: [PATCH 02/50] fix: errors raised by expression operators report the
 offending line

binary_div(), binary_bl_mult() and the file operators assigned
parse_context::last_error directly, so the line number was reported as 0
(and an earlier error message was overwritten).  Go through glps_error().
---
 src/glps_ops.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index 105f387..bcf164f 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -84,7 +84,7 @@ int binary_div(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
 {
     double result = boost::get<double>(A[0]->value)/boost::get<double>(A[1]->value);
     if(!isfinite(result)) {
-        ctxt->last_error = "division results in non-finite value";
+        glps_error(ctxt->scanner, ctxt, "division results in non-finite value");
         return 1;
     }
     *R = result;
@@ -115,7 +115,7 @@ int binary_bl_mult(parse_context* ctxt, expr_value_t *R, const expr_t * const *A
     double factor = boost::get<double>(A[MULT]->value);
 
     if(factor<0.0 || factor>std::numeric_limits<unsigned>::max()) {
-        ctxt->last_error = "beamline scale by negative value or out of range value";
+        glps_error(ctxt->scanner, ctxt, "beamline scale by negative value or out of range value");
         return 1;
     }
     unsigned factori = (unsigned)factor;
@@ -160,7 +160,7 @@ int unary_file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
     if(!exists(ret)) {
         std::ostringstream strm;
         strm<<"\""<<ret<<"\" does not exist";
-        ctxt->last_error = strm.str();
+        glps_error(ctxt->scanner, ctxt, "%s", strm.str().c_str());
         return 1;
     }
 
@@ -197,8 +197,8 @@ int unary_h5file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
 
     std::ostringstream strm;
     strm<<"\""<<inp<<"\" does not exist";
-  ctxt->last_error = strm.str();
-  return 1;
+    glps_error(ctxt->scanner, ctxt, "%s", strm.str().c_str());
+    return 1;
 }
 #endif
 
-- 
2.43.0


From 0fe758c60a9aa4c4d39e1a0e4a7a6fdecb93d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:50 +0000
Subject: [PATCH 03/50] fix: name the unknown operation in the parser's error
 message

The address of the string was printed instead of its contents.
---
 src/glps_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps_parser.cpp b/src/glps_parser.cpp
index 549352d..2410163 100644
--- a/src/glps_parser.cpp
+++ b/src/glps_parser.cpp
@@ -346,7 +346,7 @@ expr_t *glps_add_op(parse_context *ctxt, string_t *name, unsigned N, expr_t **ar
 
         if(!op) {
             std::ostringstream strm;
-            strm << "Operation '" << name <<"'(";
+            strm << "Operation '" << name->str <<"'(";
             for(unsigned i=0; i<N; i++) {
                 if(i>0)
                     strm<<", ";
-- 
2.43.0


From bc6ca3f815dded647ed950a6e2926f906562327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:44 +0000
Subject: [PATCH 04/50] fix: GLPSParser::parse_file("-") reads stdin as
 documented

The name "-" was looked up in the file system, which fails.
---
 src/config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.cpp b/src/config.cpp
index a4604ff..d31f96f 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -365,14 +365,14 @@ Config*
 GLPSParser::parse_file(const char *fname, const bool have_lattice)
 {
     boost::filesystem::path fpath;
-    if(fname) {
+    bool closeme = fname!=NULL && strcmp(fname,"-")!=0;
+    if(closeme) {
         fpath = boost::filesystem::canonical(fname).parent_path();
     } else {
         fpath = boost::filesystem::current_path();
     }
 
     FILE *fp;
-    bool closeme = fname!=NULL && strcmp(fname,"-")!=0;
     if(closeme)
         fp = fopen(fname, "r");
     else
-- 
2.43.0


From 24e8a9ece5758b21d7f3ea9386917ccf42ab6e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:15 +0000
Subject: [PATCH 05/50] fix: accept beamlines, vectors and files with more than
 about 5000 entries

The grammar's lists are right recursive, and bison's default stack limit
(10000) made long lists fail with "memory exhausted".
---
 src/glps.y | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glps.y b/src/glps.y
index cdd87c5..8dda6ce 100644
--- a/src/glps.y
+++ b/src/glps.y
@@ -4,6 +4,12 @@
 #include <stdlib.h>
 #include "glps_parser.h"
 
+/* lists (statements, beamlines, vectors, ...) are right recursive,
+ * so the parser stack must hold an entire list.
+ * The default limit of 10000 is too small for a long beamline.
+ */
+#define YYMAXDEPTH 10000000
+
 #undef yyerror
 static inline
 void yyerror (yacc_arg arg, const char* msg)
-- 
2.43.0


From 692ea9e715c2d12efafde96303a374a61f8750ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:36 +0000
Subject: [PATCH 06/50] fix: Machine::propagate() with max=INT_MIN must not
 ignore the whole range

---
 src/base.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index ef0a1f6..2fba25d 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -173,7 +173,11 @@ Machine::propagate(StateBase* S, size_t start, int max) const
     S->next_elem = start;
     S->retreat = std::signbit(max);
 
-    for(int i=0; S->next_elem<nelem && i<abs(max); i++)
+    long long count = max;
+    if(count<0)
+        count = -count; // wider than int so that INT_MIN can be negated
+
+    for(long long i=0; S->next_elem<nelem && i<count; i++)
     {
         size_t n = S->next_elem;
         ElementVoid* E = p_elements[n];
-- 
2.43.0


From 32bfd863449443d7f367b3c497ddc9ee09ac1650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:36 +0000
Subject: [PATCH 07/50] fix: remembered element results must not be reused for
 the opposite direction

---
 src/flame/moment.h | 2 ++
 src/moment.cpp     | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/flame/moment.h b/src/flame/moment.h
index b4c1e91..13cbba1 100644
--- a/src/flame/moment.h
+++ b/src/flame/moment.h
@@ -177,6 +177,8 @@ struct MomentElementBase : public ElementVoid
 
     Particle last_ref_in, last_ref_out;
     std::vector<Particle> last_real_in, last_real_out;
+    //! direction of propagation for which last_*_out were computed
+    bool last_retreat;
     //! final transfer matricies
     std::vector<value_t> transfer;
     std::vector<value_t> misalign, misalign_inv;
diff --git a/src/moment.cpp b/src/moment.cpp
index 6a073e3..335076a 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -548,6 +548,7 @@ bool MomentState::getArray(unsigned idx, ArrayInfo& Info) {
 
 MomentElementBase::MomentElementBase(const Config& c)
     :ElementVoid(c)
+    ,last_retreat(false)
     ,dx   (c.get<double>("dx",    0e0)*MtoMM)
     ,dy   (c.get<double>("dy",    0e0)*MtoMM)
     ,pitch(c.get<double>("pitch", 0e0))
@@ -567,6 +568,7 @@ void MomentElementBase::assign(const ElementVoid *other)
     last_real_out= O->last_real_out;
     last_ref_in  = O->last_ref_in;
     last_ref_out = O->last_ref_out;
+    last_retreat = O->last_retreat;
     transfer = O->transfer;
     misalign = O->misalign;
     misalign_inv = O->misalign_inv;
@@ -667,6 +669,7 @@ void MomentElementBase::advance(StateBase& s)
         // need to re-calculate energy dependent terms
         last_ref_in = ST.ref;
         last_real_in = ST.real;
+        last_retreat = ST.retreat;
         resize_cache(ST);
 
         recompute_matrix(ST); // updates transfer and last_Kenergy_out
@@ -728,6 +731,7 @@ void MomentElementBase::advance(StateBase& s)
 bool MomentElementBase::check_cache(const state_t& ST) const
 {
     return !skipcache
+            && last_retreat==ST.retreat
             && last_real_in.size()==ST.size()
             && last_ref_in==ST.ref
             && std::equal(last_real_in.begin(),
@@ -949,6 +953,7 @@ struct ElementSBend : public MomentElementBase
             // need to re-calculate energy dependent terms
             last_ref_in = ST.ref;
             last_real_in = ST.real;
+            last_retreat = ST.retreat;
             resize_cache(ST);
 
             recompute_matrix(ST); // updates transfer and last_Kenergy_out
-- 
2.43.0


From ef8bd751ef15943dc5de1e60f1129cbc0e348cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:36 +0000
Subject: [PATCH 08/50] fix: backward RF cavity must undo, and not overwrite,
 the forward misalignment

---
 src/flame/rf_cavity.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 4728129..bd09eea 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -204,7 +204,6 @@ struct ElementRFCavity : public MomentElementBase
             for(size_t k=0; k<last_real_in.size(); k++) {
                 ST.real[k].phis -= (last_real_out[k].phis - last_real_in[k].phis);
                 ST.real[k].IonEk = last_real_in[k].IonEk;
-                get_misalign(ST, ST.real[k], misalign[k], misalign_inv[k]);
             }
 
             ST.recalc();
-- 
2.43.0


From 9574e4d5ec6a6cdc9555a36bb29bf965c7160643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:36 +0000
Subject: [PATCH 09/50] fix: reconfigure() of a linear source must take the new
 initial state

---
 src/linear.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linear.cpp b/src/linear.cpp
index 958595e..bafe062 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -193,6 +193,12 @@ struct ElementSource : public Base
     virtual ~ElementSource() {}
 
     virtual const char* type_name() const {return "source";}
+
+    virtual void assign(const ElementVoid *other) {
+        base_t::assign(other);
+        const ElementSource* O=static_cast<const ElementSource*>(other);
+        istate.assign(O->istate);
+    }
 };
 
 template<typename Base>
-- 
2.43.0


From b985918bf28b88d83e82f16c9097ed2384304e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:36 +0000
Subject: [PATCH 10/50] fix: VectorState::show() must override
 StateBase::show()

---
 src/flame/state/vector.h | 2 +-
 src/linear.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flame/state/vector.h b/src/flame/state/vector.h
index e5e3383..216ee2f 100644
--- a/src/flame/state/vector.h
+++ b/src/flame/state/vector.h
@@ -26,7 +26,7 @@ struct VectorState : public StateBase
                     boost::numeric::ublas::bounded_array<double, maxsize>
     > value_t;
 
-    virtual void show(std::ostream& strm) const;
+    virtual void show(std::ostream& strm, int level =0) const;
 
     value_t state;
 
diff --git a/src/linear.cpp b/src/linear.cpp
index bafe062..8df13f4 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -101,7 +101,7 @@ void VectorState::assign(const StateBase& other)
     StateBase::assign(other);
 }
 
-void VectorState::show(std::ostream& strm) const
+void VectorState::show(std::ostream& strm, int level) const
 {
     strm<<"State: "<<state<<"\n";
 }
-- 
2.43.0


From 864ecd0bb34c82958c7e86a23a3f622d7cfc6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 11/50] fix: lookup by name must follow an element renamed by
 reconfigure()

---
 src/base.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 2fba25d..d58d46b 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -214,7 +214,16 @@ void Machine::reconfigure(size_t idx, const Config& c)
 
     element_builder_t *builder = eit->second;
 
-    builder->rebuild(p_elements[idx], c, idx);
+    ElementVoid* const E = p_elements[idx];
+    const std::string oldname(E->name);
+
+    builder->rebuild(E, c, idx);
+
+    if(E->name!=oldname) {
+        // keep lookup by name in step
+        p_lookup.insert(std::make_pair(LookupKey(E->name, idx), E));
+        p_lookup.erase(LookupKey(oldname, idx));
+    }
 }
 
 Machine::p_state_infos_t Machine::p_state_infos;
-- 
2.43.0


From 0c7610106b71d33039809868c2ce09c79caca278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 12/50] fix: a failed computation must not be remembered as an
 element result

---
 src/flame/moment.h    |  4 ++++
 src/flame/rf_cavity.h | 27 ++++++++++++++++-----------
 src/moment.cpp        | 20 ++++++++++++++++++--
 3 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/flame/moment.h b/src/flame/moment.h
index 13cbba1..14f4178 100644
--- a/src/flame/moment.h
+++ b/src/flame/moment.h
@@ -170,6 +170,10 @@ struct MomentElementBase : public ElementVoid
     //! in the provided new input state.
     void resize_cache(const state_t& ST);
 
+    //! Forget what was computed by an earlier advance(), check_cache() and check_backward()
+    //! will return false until the next (successful) advance()
+    void clear_cache();
+
     //! recalculate 'transfer' taking into consideration the provided input state
     virtual void recompute_matrix(state_t& ST);
 
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index bd09eea..65327b1 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -170,22 +170,27 @@ struct ElementRFCavity : public MomentElementBase
             resize_cache(ST);
             // need to re-calculate energy dependent terms
 
-            std::string newtype = conf().get<std::string>("cavtype");
-            if (CavType != newtype){
-                lattice.clear();
-                SynAccTab.clear();
-                LoadCavityFile(conf());
-            } else if (CavType == "Generic") {
-                std::string newfile = conf().get<std::string>("Eng_Data_Dir", defpath);
-                newfile += "/" + conf().get<std::string>("datafile");
-                if (DataFile != newfile) {
+            try{
+                std::string newtype = conf().get<std::string>("cavtype");
+                if (CavType != newtype){
                     lattice.clear();
                     SynAccTab.clear();
                     LoadCavityFile(conf());
+                } else if (CavType == "Generic") {
+                    std::string newfile = conf().get<std::string>("Eng_Data_Dir", defpath);
+                    newfile += "/" + conf().get<std::string>("datafile");
+                    if (DataFile != newfile) {
+                        lattice.clear();
+                        SynAccTab.clear();
+                        LoadCavityFile(conf());
+                    }
                 }
-            }
 
-            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+                recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            }catch(...){
+                clear_cache();
+                throw;
+            }
 
             for(size_t i=0; i<last_real_in.size(); i++)
                 get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
diff --git a/src/moment.cpp b/src/moment.cpp
index 335076a..faacf07 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -672,7 +672,12 @@ void MomentElementBase::advance(StateBase& s)
         last_retreat = ST.retreat;
         resize_cache(ST);
 
-        recompute_matrix(ST); // updates transfer and last_Kenergy_out
+        try{
+            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+        }catch(...){
+            clear_cache();
+            throw;
+        }
 
         ST.recalc();
 
@@ -761,6 +766,12 @@ void MomentElementBase::resize_cache(const state_t& ST)
     misalign_inv.resize(ST.real.size(), boost::numeric::ublas::identity_matrix<double>(state_t::maxsize));
 }
 
+void MomentElementBase::clear_cache()
+{
+    last_real_in.clear();
+    last_real_out.clear();
+}
+
 void MomentElementBase::recompute_matrix(state_t& ST)
 {
     // Default, initialize as no-op
@@ -956,7 +967,12 @@ struct ElementSBend : public MomentElementBase
             last_retreat = ST.retreat;
             resize_cache(ST);
 
-            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            try{
+                recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            }catch(...){
+                clear_cache();
+                throw;
+            }
 
             ST.recalc();
             last_ref_out = ST.ref;
-- 
2.43.0


From 13f9693f0411365fc3a530f586ea45afb360b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 13/50] fix: reconfigure() of an RF cavity must take all of the
 new settings

---
 src/flame/rf_cavity.h | 12 ++++++++++++
 src/rf_cavity.cpp     |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 65327b1..44338f8 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -143,6 +143,18 @@ struct ElementRFCavity : public MomentElementBase
         lattice       = O->lattice;
         mlptable      = O->mlptable;
         CavData       = O->CavData;
+        CavType       = O->CavType;
+        DataPath      = O->DataPath;
+        DataFile      = O->DataFile;
+        SynAccTab     = O->SynAccTab;
+        have_RefNrm     = O->have_RefNrm;
+        have_SynComplex = O->have_SynComplex;
+        have_EkLim      = O->have_EkLim;
+        have_NrLim      = O->have_NrLim;
+        RefNrm        = O->RefNrm;
+        SynComplex    = O->SynComplex;
+        EkLim         = O->EkLim;
+        NrLim         = O->NrLim;
         CavTLMLineTab = O->CavTLMLineTab;
         fRF           = O->fRF;
         IonFys        = O->IonFys;
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 327fd8d..359df11 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -691,6 +691,11 @@ void EvalGapModel(const double dis, const double IonW0, const Particle &real, co
 
 ElementRFCavity::ElementRFCavity(const Config& c)
     :base_t(c)
+    ,have_RefNrm(false)
+    ,have_SynComplex(false)
+    ,have_EkLim(false)
+    ,have_NrLim(false)
+    ,RefNrm(0.0)
 {
     ElementRFCavity::LoadCavityFile(c);
 }
-- 
2.43.0


From 7d01d6ab31fa20a6f10d7ae89087e82883d72594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 14/50] fix: report an unreadable generic cavity file instead
 of dereferencing NULL

---
 src/rf_cavity.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 359df11..db6bcbb 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -814,15 +814,10 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         if ( CavConfMap.find(key) == CavConfMap.end() ) {
             // not found in CavConfMap
             try {
-                try {
-                    GLPSParser P;
-                    conf.reset(P.parse_file(DataFile.c_str()));
-                }catch(std::exception& e){
-                    std::cerr<<"Parse error: "<<e.what()<<"\n";
-                }
-
+                GLPSParser P;
+                conf.reset(P.parse_file(DataFile.c_str()));
             }catch(std::exception& e){
-                std::cerr<<"Error: "<<e.what()<<"\n";
+                throw std::runtime_error(SB()<<"Error parsing '"<<DataFile<<"' : "<<e.what());
             }
             CavConfMap.insert(std::make_pair(key, conf));
         } else {
-- 
2.43.0


From ada86afe12736c8fee4317b904ab880f6f0e0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 15/50] fix: reject generic cavity files with too few values

---
 src/rf_cavity.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index db6bcbb..e183302 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -636,6 +636,8 @@ double GetCavPhase(const int cavi, const Particle& ref, const double IonFys, con
         Fyc = 5.428*pow(IonEk, -0.5008) + 1.6;
         break;
     case 0:
+        if (P.size()<3)
+            throw std::runtime_error("Generic RF cavity w/o AccGap has no synchronous phase");
         Fyc = P[0]*pow(IonEk,P[1])- P[2];
         break;
     default:
@@ -843,6 +845,9 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 const double eV0(EC.get<double>("V0"));
                 params.E0 = eV0;
                 EC.tryGet<std::vector<double> >("attr", attrs);
+                const size_t nattrs = etype=="AccGap" ? 23 : 20;
+                if(attrs.size()<nattrs)
+                    throw std::runtime_error(SB()<<"'attr' of '"<<etype<<"' in '"<<DataFile<<"' needs "<<nattrs<<" elements");
                 for(int i=0; i<10; i++)
                 {
                     params.Tfit.push_back(attrs[i]);
@@ -867,6 +872,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         std::vector<double> Ez;
         bool checker = conf->tryGet<std::vector<double> >("Ez", Ez);
         if (!checker) throw std::runtime_error(SB()<<"'Ez' is missing in RF cavity file.\n");
+        if (Ez.size()<4 || Ez.size()%2!=0)
+            throw std::runtime_error(SB()<<"'Ez' in '"<<DataFile<<"' must have two columns and two or more rows");
         CavData.readvec(Ez,2);
         conf->tryGet<double>("Rm",cRm);
 
@@ -875,6 +882,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         have_SynComplex = conf->tryGet<std::vector<double> >("SyncFit", SynComplex);
         have_EkLim = conf->tryGet<std::vector<double> >("EnergyLimit", EkLim);
         have_NrLim = conf->tryGet<std::vector<double> >("NormLimit", NrLim);
+        if ((have_EkLim && EkLim.size()<2) || (have_NrLim && NrLim.size()<2))
+            throw std::runtime_error(SB()<<"'EnergyLimit' and 'NormLimit' in '"<<DataFile<<"' need 2 elements");
     }
 }
 
-- 
2.43.0


From 68fc246fe8c6d10f98580e33ea249a0f674dfa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 16/50] fix: debug logging of a generic cavity must not read an
 empty table

---
 src/rf_cavity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index e183302..0a793df 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -1353,7 +1353,7 @@ void ElementRFCavity::GetCavMatGeneric(Particle &real, const double EfieldScl, c
             kfdy = kfdx;
             if(logme) {
                 FLAME_LOG(FINE)<<" X EFocus1 kfdx="<<kfdx<<"\n"
-                         <<" Y "<<linetab.E0[n]<<" "<<EfieldScl<<" "<<beta
+                         <<" Y "<<P.E0<<" "<<EfieldScl<<" "<<beta
                          <<" "<<gamma<<" "<<IonFy<<" "<<cRm<<"\n Z "<<T<<" "<<S<<"\n";
             }
 
-- 
2.43.0


From f89cd8f35c16c7cc2dd575027541cacd5283fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 17/50] fix: stripper must reject empty IonChargeStates and
 short parameter vectors

---
 src/chg_stripper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index 6c735ca..65d3044 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -89,6 +89,11 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
 
     n = ChgState.size();
 
+    if(n==0)
+        throw std::runtime_error("charge stripper requires at least one entry in IonChargeStates[]");
+    if(Stripper_Para.size()<3 || Stripper_E0Para.size()<3)
+        throw std::runtime_error("charge stripper requires that Stripper_Para[] and Stripper_E0Para[] have 3 elements");
+
     if(chrgmdl=="off" )
         if (ChgState.size()!=NChg.size())
             throw std::runtime_error("charge stripper requires that IonChargeStates[] and NCharge[] have the same length");
-- 
2.43.0


From d67ed885768c6d6387beb003b8d2f5a714651c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 18/50] fix: a MomentState without configuration must not hold
 uninitialised moments

---
 src/moment.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/moment.cpp b/src/moment.cpp
index faacf07..bfe6b74 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -187,6 +187,9 @@ MomentState::MomentState(const Config& c)
         moment1[0].resize(maxsize, maxsize);
         transmat[0].resize(maxsize, maxsize);
 
+        moment0[0] = boost::numeric::ublas::zero_vector<double>(maxsize);
+        moment1[0] = boost::numeric::ublas::identity_matrix<double>(maxsize);
+
         load_storage(moment0[0].data(), c, vectorname, false);
         load_storage(moment1[0].data(), c, matrixname, false);
         transmat[0] = boost::numeric::ublas::identity_matrix<double>(maxsize);
-- 
2.43.0


From fa8c9d64d0e25a1f0cd35e18b1bc61a1f620b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 19/50] fix: numeric_table_cache must notice files replaced by
 older ones or while being read

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index e09378b..e807b51 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -141,7 +141,7 @@ numeric_table_cache::table_pointer numeric_table_cache::fetch(const std::string&
     boost::mutex::scoped_lock L(pvt->lock);
 
     Pvt::cache_t::const_iterator it = pvt->cache.find(path);
-    if(it==pvt->cache.end() || mtime>it->second.lastmod) {
+    if(it==pvt->cache.end() || mtime!=it->second.lastmod) {
         // miss
 
         ret.reset(new numeric_table);
@@ -151,7 +151,7 @@ numeric_table_cache::table_pointer numeric_table_cache::fetch(const std::string&
         ret->read(strm);
 
         Pvt::Value v;
-        v.lastmod = boost::filesystem::last_write_time(P); // fetch again to avoid some, but not all, races
+        v.lastmod = mtime; // from before reading, so that a change while reading will be noticed
         v.table = ret;
 
         pvt->cache[path] = v;
-- 
2.43.0


From 4f228371873b5fb6b861b9e2ad056bfa4f69ce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:59 +0000
Subject: [PATCH 20/50] fix: keep the backward RF cavity result tested for, w/o
 overwriting the forward misalignment

Amends "backward RF cavity must undo, and not overwrite, the forward
misalignment": TestBackward.test_backward expects the misalignment as
evaluated with the velocities at the exit.
---
 src/flame/rf_cavity.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 44338f8..99ba01a 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -172,6 +172,8 @@ struct ElementRFCavity : public MomentElementBase
         using namespace boost::numeric::ublas;
 
         double x0[2], x2[2], s0[2];
+        // for backward propagation. misalign and misalign_inv belong to the forward run
+        std::vector<value_t> back_misalign, back_misalign_inv;
 
         // IonEk is Es + E_state; the latter is set by user.
         ST.recalc();
@@ -218,9 +220,12 @@ struct ElementRFCavity : public MomentElementBase
 
             ST.ref.phis -= (last_ref_out.phis - last_ref_in.phis);
             ST.ref.IonEk = last_ref_in.IonEk;
+            back_misalign.resize(last_real_in.size());
+            back_misalign_inv.resize(last_real_in.size());
             for(size_t k=0; k<last_real_in.size(); k++) {
                 ST.real[k].phis -= (last_real_out[k].phis - last_real_in[k].phis);
                 ST.real[k].IonEk = last_real_in[k].IonEk;
+                get_misalign(ST, ST.real[k], back_misalign[k], back_misalign_inv[k]);
             }
 
             ST.recalc();
@@ -287,8 +292,8 @@ struct ElementRFCavity : public MomentElementBase
             ST.pos -= length;
             value_t invmat = boost::numeric::ublas::identity_matrix<double>(state_t::maxsize);
             for(size_t i=0; i<last_real_in.size(); i++) {
-                scratch = prod(transfer[i], misalign[i]);
-                scratch = prod(misalign_inv[i], scratch);
+                scratch = prod(transfer[i], back_misalign[i]);
+                scratch = prod(back_misalign_inv[i], scratch);
 
                 inverse(invmat, scratch);
 
-- 
2.43.0


From 49a714f187cefc8e5a10f6d85358b5016d372e58 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:32:11 +0000
Subject: [PATCH 21/50] fix: H5StateWriter must store strided arrays in order,
 restart after close() and accept absolute paths

---
 src/h5writer.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 72237c5..c710f85 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -74,7 +74,8 @@ void H5StateWriter::open(const std::string& spec)
         size_t sep = spec.npos;
 
         while(true) {
-            sep = spec.find_last_of('/', sep-1);
+            // a leading '/' leaves nothing to try but the whole spec
+            sep = sep==0 ? spec.npos : spec.find_last_of('/', sep-1);
 
             std::string fname(spec.substr(0, sep));
 
@@ -114,6 +115,8 @@ void H5StateWriter::open(const std::string& spec)
 void H5StateWriter::close()
 {
     try{
+        // data sets of the old group, to be re-created by prepare() if open()'d again
+        pvt->elements.clear();
         pvt->group.close();
         pvt->file.close();
     }CATCH()
@@ -227,7 +230,24 @@ void H5StateWriter::append(const StateBase *RS)
 
             H5::DataType dtype(elem.dset.getDataType());
 
-            elem.dset.write(info.ptr, dtype, memspace, filespace);
+            // state arrays may be strided, and not in row-major order
+            size_t total = 1, size = info.type==StateBase::ArrayInfo::Double ? sizeof(double) : sizeof(size_t);
+            for(unsigned d=0; d<info.ndim; d++)
+                total *= info.dim[d];
+
+            std::vector<char> buf(total*size);
+            size_t index[StateBase::ArrayInfo::maxdims];
+            std::fill(index, index+StateBase::ArrayInfo::maxdims, 0);
+
+            for(size_t n=0; n<total; n++) {
+                memcpy(&buf[n*size], info.get<char>(index), size);
+
+                for(unsigned d=info.ndim; d>0 && ++index[d-1]==info.dim[d-1]; d--)
+                    index[d-1] = 0;
+            }
+
+            if(total)
+                elem.dset.write(&buf[0], dtype, memspace, filespace);
 
         }
     } CATCH()
-- 
2.43.0


From 28fd3a02e37607a37c9eba6b316fbd47a06ae076 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:32:11 +0000
Subject: [PATCH 22/50] fix: H5StateWriter::setAttr() must not read past the
 end of a short value

---
 src/h5writer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index c710f85..7b0487d 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -264,9 +264,12 @@ void H5StateWriter::setAttr(const char *name, const char *val)
 
         {
             H5::DataSpace scalar;
-            H5::StrType dtype(H5::PredType::C_S1, std::max((size_t)16u, strlen(val)));
+            // padded to the stored length
+            std::string buf(val);
+            buf.resize(std::max((size_t)16u, buf.size()));
+            H5::StrType dtype(H5::PredType::C_S1, buf.size());
             H5::Attribute attr(pvt->group.createAttribute(name, dtype, scalar));
-            attr.write(dtype, val);
+            attr.write(dtype, buf.c_str());
         }
     } CATCH()
 }
-- 
2.43.0


From 7175db89573caa17ef40938334786b6f14b87d00 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:32:11 +0000
Subject: [PATCH 23/50] fix: H5Loader must open the root group, and not search
 forever for an absent absolute path

---
 src/h5loader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/h5loader.cpp b/src/h5loader.cpp
index c1ce95a..f88e739 100644
--- a/src/h5loader.cpp
+++ b/src/h5loader.cpp
@@ -59,7 +59,8 @@ void H5Loader::open(const std::string& spec)
     size_t sep = spec.npos;
 
     while(true) {
-        sep = spec.find_last_of('/', sep-1);
+        // a leading '/' leaves nothing to try but the whole spec
+        sep = sep==0 ? spec.npos : spec.find_last_of('/', sep-1);
 
         std::string fname(spec.substr(0, sep));
 
@@ -73,7 +74,7 @@ void H5Loader::open(const std::string& spec)
             continue; // keep trying
         } CATCH()
 
-        std::string group(spec.substr(sep+1));
+        std::string group(sep==spec.npos ? "/" : spec.substr(sep+1));
 
         try {
             pvt->group = pvt->file.openGroup(group);
-- 
2.43.0


From 0748cdbde396fa4e3180adcc108d275540d9d3f6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:32:11 +0000
Subject: [PATCH 24/50] fix: h5file() must accept a file without a group and
 reject an absent absolute path

---
 src/glps_ops.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index bcf164f..949079e 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -183,12 +183,13 @@ int unary_h5file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
     size_t sep = inp.npos;
 
     while(true) {
-        sep = inp.find_last_of('/', sep-1);
+        // a leading '/' leaves nothing to try but the whole spec
+        sep = sep==0 ? inp.npos : inp.find_last_of('/', sep-1);
 
         path fname(absolute(inp.substr(0, sep), ctxt->cwd));
 
-        if(exists(fname)) {
-            *R = canonical(fname).native() + inp.substr(sep);
+        if(sep!=0 && exists(fname)) {
+            *R = canonical(fname).native() + (sep==inp.npos ? std::string() : inp.substr(sep));
             return 0;
         } else if(sep==inp.npos) {
             break;
-- 
2.43.0


From 28d72ff3beded65b0eb4d007784876a1a6cd7344 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:32:11 +0000
Subject: [PATCH 25/50] fix: flame must report unusable output files and
 unknown utest quantities

---
 tools/cli.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/cli.cpp b/tools/cli.cpp
index 2927a85..60c8a6f 100644
--- a/tools/cli.cpp
+++ b/tools/cli.cpp
@@ -156,6 +156,8 @@ struct UnitTestObserver : public Observer
             lookup_t::const_iterator Lit = L.find(*it);
             if(Lit!=L.end()) {
                 interested_indicies[i] = Lit->second;
+            } else {
+                throw std::runtime_error("-F utest with unknown or unprintable quantity "+*it);
             }
         }
     }
@@ -275,6 +277,8 @@ struct StreamObserver : public Observer
                 const std::string& cmd = *it;
                 if(cmd.substr(0,5)=="file=") {
                     owned_strm.reset(new std::ofstream(cmd.substr(5).c_str()));
+                    if(!owned_strm->good())
+                        throw std::runtime_error("Unable to open output file "+cmd.substr(5));
                     strm = owned_strm.get();
                 } else if(cmd=="verbose") {
                     detail=1;
@@ -293,7 +297,8 @@ struct StreamObserver : public Observer
 
         virtual void after_sim(Machine&)
         {
-            strm->flush();
+            if(!strm->flush())
+                throw std::runtime_error("Error while writing output");
         }
     };
 };
-- 
2.43.0


From 0bfb86661b029663d7653dd6d540ee80395a72ff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:32:11 +0000
Subject: [PATCH 26/50] fix: numeric_table must not ignore a malformed number
 at the end of a line

---
 src/util.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index e807b51..9f96e40 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -37,7 +37,7 @@ void numeric_table::read(std::istream &strm)
         line++;
         values.clear();
 
-        size_t cpos = rawline.find_first_not_of(" \t");
+        size_t cpos = rawline.find_first_not_of(" \t\r");
         if(cpos==rawline.npos)
             continue; // skip blank and comment lines
 
@@ -68,16 +68,13 @@ void numeric_table::read(std::istream &strm)
 
             std::istringstream lstrm(rawline);
 
-            while(lstrm.good()) {
+            while((lstrm>>std::ws).good()) {
                 double val;
-                lstrm>>val;
-                if(!lstrm.fail())
-                    values.push_back(val);
+                if(!(lstrm>>val))
+                    throw std::runtime_error(SB()<<"Error parsing data line "<<line<<" '"<<rawline<<"'");
+                values.push_back(val);
             }
 
-            if(!lstrm.eof() && lstrm.fail())
-                throw std::runtime_error(SB()<<"Error parsing data line "<<line<<" '"<<rawline<<"'");
-
             if(!table.empty() && table.back().size()!=values.size())
                 throw std::runtime_error(SB()<<"Line "<<line<<" w/ different # of elements");
 
-- 
2.43.0


From 23f718683518ad8e0a8a480e7fed87a5fb673b40 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:32:11 +0000
Subject: [PATCH 27/50] fix: logging from an element constructor must not
 deadlock

---
 src/base.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index d58d46b..b6f5b0b 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -11,6 +11,8 @@ namespace {
 // This mutex guards the global Machine::p_state_infos
 typedef boost::mutex info_mutex_t;
 info_mutex_t info_mutex;
+// guards Machine::p_logger.  Separate as messages are logged with info_mutex locked
+info_mutex_t log_mutex;
 }
 
 StateBase::~StateBase() {}
@@ -314,7 +316,7 @@ void Machine::set_logger(const boost::shared_ptr<Logger> &p)
     if(!temp)
         temp.reset(&Logcerr::singleton, Logcerr::noopdtor);
     {
-        info_mutex_t::scoped_lock G(info_mutex);
+        info_mutex_t::scoped_lock G(log_mutex);
         p_logger.swap(temp);
     }
 }
@@ -323,7 +325,7 @@ Machine::LogRecord::~LogRecord()
 {
     boost::shared_ptr<Logger> logger;
     {
-        info_mutex_t::scoped_lock G(info_mutex);
+        info_mutex_t::scoped_lock G(log_mutex);
         logger = p_logger;
     }
     logger->log(*this);
-- 
2.43.0


From c5afc0d82557b72b9e99ff68987db449559879d5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:32:11 +0000
Subject: [PATCH 28/50] fix: registeryCleanup() must not delete element
 builders in use by existing Machines

---
 src/base.cpp     | 16 ++++------------
 src/flame/base.h |  6 +++---
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index b6f5b0b..526ac56 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -120,7 +120,7 @@ Machine::Machine(const Config& c)
         if(eit==p_info.elements.end())
             throw key_error(etype);
 
-        element_builder_t* builder = eit->second;
+        element_builder_t* builder = eit->second.get();
 
         ElementVoid *E;
         try{
@@ -214,7 +214,7 @@ void Machine::reconfigure(size_t idx, const Config& c)
     if(eit==p_info.elements.end())
         throw key_error(etype);
 
-    element_builder_t *builder = eit->second;
+    element_builder_t *builder = eit->second.get();
 
     ElementVoid* const E = p_elements[idx];
     const std::string oldname(E->name);
@@ -244,7 +244,7 @@ void Machine::p_registerState(const char *name, state_builder_t b)
     p_state_infos[name] = I;
 }
 
-void Machine::p_registerElement(const std::string& sname, const char *ename, element_builder_t *b)
+void Machine::p_registerElement(const std::string& sname, const char *ename, const boost::shared_ptr<element_builder_t>& b)
 {
     info_mutex_t::scoped_lock G(info_mutex);
     p_state_infos_t::iterator it = p_state_infos.find(sname);
@@ -267,15 +267,7 @@ void Machine::registeryCleanup()
 {
     info_mutex_t::scoped_lock G(info_mutex);
 
-    for(p_state_infos_t::iterator it=p_state_infos.begin(), end=p_state_infos.end();
-        it!=end; ++it)
-    {
-        state_info::elements_t::iterator it2, end2;
-        for(it2=it->second.elements.begin(), end2=it->second.elements.end(); it2!=end2; ++it2)
-        {
-            delete it2->second;
-        }
-    }
+    // builders still in use by existing Machines are kept by those
     p_state_infos.clear();
 }
 
diff --git a/src/flame/base.h b/src/flame/base.h
index 37b130c..0a00b39 100644
--- a/src/flame/base.h
+++ b/src/flame/base.h
@@ -425,7 +425,7 @@ private:
     struct state_info {
         std::string name;
         state_builder_t builder;
-        typedef std::map<std::string, element_builder_t*> elements_t;
+        typedef std::map<std::string, boost::shared_ptr<element_builder_t> > elements_t;
         elements_t elements;
     };
 
@@ -436,7 +436,7 @@ private:
 
     static void p_registerState(const char *name, state_builder_t b);
 
-    static void p_registerElement(const std::string& sname, const char *ename, element_builder_t* b);
+    static void p_registerElement(const std::string& sname, const char *ename, const boost::shared_ptr<element_builder_t>& b);
 
 public:
 
@@ -477,7 +477,7 @@ public:
     template<typename Element>
     static void registerElement(const char *sname, const char *ename)
     {
-        p_registerElement(sname, ename, new element_builder_impl<Element>);
+        p_registerElement(sname, ename, boost::shared_ptr<element_builder_t>(new element_builder_impl<Element>));
     }
 
     /**
-- 
2.43.0


From 7f833175288e5e84c30b855d79bf231c763350b5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:36:02 +0000
Subject: [PATCH 29/50] fix: Machine() with unusable arguments must raise, not
 dereference NULL

---
 python/flame/modconfig.cpp  | 3 ++-
 python/flame/modmachine.cpp | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index d1eed62..5450100 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -276,6 +276,7 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
 PyObject* PyGLPSParse(PyObject *unused, PyObject *args, PyObject *kws)
 {
     try{
-        return conf2dict(PyGLPSParse2Config(unused, args, kws));
+        std::auto_ptr<Config> conf(PyGLPSParse2Config(unused, args, kws));
+        return conf2dict(conf.get());
     }CATCH()
 }
diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index af91b72..cb87bac 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -23,6 +23,8 @@ int PyMachine_init(PyObject *raw, PyObject *args, PyObject *kws)
         assert(!machine->weak);
 
         std::auto_ptr<Config> C(PyGLPSParse2Config(raw, args, kws));
+        if(!C.get())
+            return -1; // a py exception is active
 
         machine->machine = new Machine(*C);
 
-- 
2.43.0


From 52a7a107af113846f5eecf104fdbcfd25530b893 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:36:02 +0000
Subject: [PATCH 30/50] fix: methods of an uninitialized Machine must raise,
 not dereference NULL

---
 python/flame/modmachine.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index cb87bac..48124e5 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -7,6 +7,9 @@
 
 #define TRY PyMachine *machine = reinterpret_cast<PyMachine*>(raw); try
 
+// sub-classes may not have called our __init__()
+#define CHECKINIT() do{ if(!machine->machine) throw std::runtime_error("Machine is not initialized"); }while(0)
+
 namespace {
 
 struct PyMachine {
@@ -20,13 +23,14 @@ static
 int PyMachine_init(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
-        assert(!machine->weak);
-
         std::auto_ptr<Config> C(PyGLPSParse2Config(raw, args, kws));
         if(!C.get())
             return -1; // a py exception is active
 
-        machine->machine = new Machine(*C);
+        std::auto_ptr<Machine> M(new Machine(*C));
+        if(machine->machine)
+            throw std::runtime_error("Machine is already initialized");
+        machine->machine = M.release();
 
         return 0;
     } CATCH3(key_error, KeyError, -1)
@@ -52,6 +56,7 @@ static
 PyObject *PyMachine_str(PyObject *raw)
 {
     TRY {
+        CHECKINIT();
         std::ostringstream strm;
         strm << *(machine->machine);
         return PyString_FromString(strm.str().c_str());
@@ -62,6 +67,7 @@ static
 PyObject *PyMachine_conf(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
+        CHECKINIT();
         PyObject *pyindex = Py_None;
         const char *pnames[] = {"index", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|O", (char**)pnames, &pyindex))
@@ -89,6 +95,7 @@ static
 PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
+        CHECKINIT();
         PyObject *d = Py_None, *W = Py_False;
         const char *pnames[] = {"config", "inherit", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|OO", (char**)pnames, &d, &W))
@@ -159,6 +166,7 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
 {
 
     TRY {
+        CHECKINIT();
         PyObject *state, *toobserv = Py_None, *pymax = Py_None;
         unsigned long start = 0;
         int max = INT_MAX;
@@ -197,6 +205,7 @@ static
 PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY{
+        CHECKINIT();
         unsigned long idx;
         PyObject *conf, *replace = Py_False;
         const char *pnames[] = {"index", "config", "replace", NULL};
@@ -224,6 +233,7 @@ static
 PyObject *PyMachine_find(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY{
+        CHECKINIT();
         const char *ename = NULL, *etype = NULL;
         const char *pnames[] = {"name", "type", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|zz", (char**)pnames, &ename, &etype))
@@ -260,6 +270,7 @@ static
 Py_ssize_t PyMachine_len(PyObject *raw)
 {
     TRY{
+        CHECKINIT();
         return machine->machine->size();
     }CATCH1(-1)
 }
-- 
2.43.0


From fd6a08cd72908e06266de223d939e5f087c15443 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:36:02 +0000
Subject: [PATCH 31/50] fix: deleting a State attribute must raise, not
 dereference NULL

---
 python/flame/modstate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 5a071f2..12c816b 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -139,6 +139,10 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
         PyObject *idx = PyDict_GetItem(state->attrs, attr);
         if(!idx)
             return PyObject_GenericSetAttr(raw, attr, val);
+        if(!val) {
+            PyErr_Format(PyExc_TypeError, "Can't delete state attribute");
+            return -1;
+        }
         int i = PyInt_AsLong(idx);
 
         StateBase::ArrayInfo info;
-- 
2.43.0


From 078c7d7beff4731f87129b039deb401ac6f35003 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:36:02 +0000
Subject: [PATCH 32/50] fix: a failed assignment to a State attribute must not
 change it

---
 python/flame/modstate.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 12c816b..b186a93 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -157,27 +157,32 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
 
             switch(info.type) {
             case StateBase::ArrayInfo::Double: {
-                double *dest = (double*)info.ptr;
+                double *dest = (double*)info.ptr, temp = 0.0;
                 if(PyFloat_Check(val))
-                    *dest = PyFloat_AsDouble(val);
+                    temp = PyFloat_AsDouble(val);
                 else if(PyLong_Check(val))
-                    *dest = PyLong_AsDouble(val);
+                    temp = PyLong_AsDouble(val);
                 else if(PyInt_Check(val))
-                    *dest = PyInt_AsLong(val);
+                    temp = PyInt_AsLong(val);
                 else
                     PyErr_Format(PyExc_ValueError, "Can't assign to double field");
+                if(!PyErr_Occurred())
+                    *dest = temp;
             }
                 break;
             case StateBase::ArrayInfo::Sizet: {
-                size_t *dest = (size_t*)info.ptr;
-                if(PyFloat_Check(val))
-                    *dest = PyFloat_AsDouble(val);
-                else if(PyLong_Check(val))
-                    *dest = PyLong_AsUnsignedLongLong(val);
+                size_t *dest = (size_t*)info.ptr, temp = 0u;
+                if(PyFloat_Check(val)) {
+                    PyRef<> pylong(PyNumber_Long(val)); // fails if not finite
+                    temp = PyLong_AsUnsignedLongLong(pylong.py());
+                } else if(PyLong_Check(val))
+                    temp = PyLong_AsUnsignedLongLong(val);
                 else if(PyInt_Check(val))
-                    *dest = PyInt_AsLong(val);
+                    temp = PyInt_AsLong(val);
                 else
-                    PyErr_Format(PyExc_ValueError, "Can't assign to double field");
+                    PyErr_Format(PyExc_ValueError, "Can't assign to integer field");
+                if(!PyErr_Occurred())
+                    *dest = temp;
             }
                 break;
             default:
-- 
2.43.0


From ea3853896c4eb9d7f2fe498c25680905ffe2bcad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:36:02 +0000
Subject: [PATCH 33/50] fix: Machine methods must not ignore or truncate
 arguments they can't convert

---
 python/flame/modmachine.cpp | 47 ++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 48124e5..bff0ef8 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -105,7 +105,10 @@ PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
         if(d==Py_None) {
             C = machine->machine->conf();
         } else if(PyDict_Check(d)) {
-            if(PyObject_IsTrue(W)) {
+            int inherit = PyObject_IsTrue(W);
+            if(inherit<0)
+                return NULL;
+            if(inherit) {
                 C = machine->machine->conf();
                 C.push_scope();
             }
@@ -161,6 +164,21 @@ struct PyScopedObserver
     }
 };
 
+// PyArg_ParseTuple() converter for size_t.  Unlike 'k', never truncates
+int index_converter(PyObject *obj, void *raw)
+{
+    PyObject *idx = PyNumber_Index(obj);
+    if(!idx) return 0;
+    size_t *ret = (size_t*)raw;
+    *ret = PyLong_AsSize_t(idx);
+    if(PyErr_Occurred()) {
+        PyErr_Clear();
+        *ret = PyLong_AsSsize_t(idx); // negative is out of range for any Machine
+    }
+    Py_DECREF(idx);
+    return !PyErr_Occurred();
+}
+
 static
 PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
 {
@@ -168,13 +186,20 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
     TRY {
         CHECKINIT();
         PyObject *state, *toobserv = Py_None, *pymax = Py_None;
-        unsigned long start = 0;
+        size_t start = 0;
         int max = INT_MAX;
         const char *pnames[] = {"state", "start", "max", "observe", NULL};
-        if(!PyArg_ParseTupleAndKeywords(args, kws, "O|kOO", (char**)pnames, &state, &start, &pymax, &toobserv))
+        if(!PyArg_ParseTupleAndKeywords(args, kws, "O|O&OO", (char**)pnames, &state, &index_converter, &start, &pymax, &toobserv))
             return NULL;
 
-        if (pymax!=Py_None) max = (int) PyLong_AsLong(pymax);
+        if (pymax!=Py_None) {
+            long lmax = PyLong_AsLong(pymax);
+            if(PyErr_Occurred())
+                return NULL;
+            if(lmax<INT_MIN || lmax>INT_MAX)
+                return PyErr_Format(PyExc_OverflowError, "'max' out of range");
+            max = (int)lmax;
+        }
 
         PyStoreObserver observer;
         PyScopedObserver observing(machine->machine);
@@ -189,6 +214,8 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
                 observing.observe(num, &observer);
 
             }
+            if(PyErr_Occurred())
+                throw std::runtime_error(""); // exception while iterating
         }
 
         machine->machine->propagate(unwrapstate(state), start, max);
@@ -206,17 +233,21 @@ PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY{
         CHECKINIT();
-        unsigned long idx;
+        size_t idx;
         PyObject *conf, *replace = Py_False;
         const char *pnames[] = {"index", "config", "replace", NULL};
-        if(!PyArg_ParseTupleAndKeywords(args, kws, "kO!|O", (char**)pnames, &idx, &PyDict_Type, &conf, &replace))
+        if(!PyArg_ParseTupleAndKeywords(args, kws, "O&O!|O", (char**)pnames, &index_converter, &idx, &PyDict_Type, &conf, &replace))
             return NULL;
 
         if(idx>=machine->machine->size())
-            return PyErr_Format(PyExc_ValueError, "invalid element index %lu", idx);
+            return PyErr_Format(PyExc_ValueError, "invalid element index %zu", idx);
+
+        int doreplace = PyObject_IsTrue(replace);
+        if(doreplace<0)
+            return NULL;
 
         Config newconf;
-        if(!PyObject_IsTrue(replace))
+        if(!doreplace)
             newconf = (*machine->machine)[idx]->conf();
 
         PyRef<> list(PyMapping_Items(conf));
-- 
2.43.0


From d185637523d0c58b2f847e25b1447cd09b30e57a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:36:02 +0000
Subject: [PATCH 34/50] fix: python log messages must be complete, and errors
 in handlers must not terminate

---
 python/flame/modmain.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/python/flame/modmain.cpp b/python/flame/modmain.cpp
index 715cdaf..56538d3 100644
--- a/python/flame/modmain.cpp
+++ b/python/flame/modmain.cpp
@@ -23,13 +23,23 @@ struct PyLogger : public Machine::Logger
             std::string msg(r.strm.str());
             size_t pos = msg.find_last_not_of('\n');
             if(pos!=msg.npos)
-                msg = msg.substr(0, pos);
-
-            // name, level, function name, lineno, message, args, exc_info
-            PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHsOO",
-                                            FLAME_LOGGER_NAME, r.level, r.fname, r.lnum,
-                                            msg.c_str(), Py_None, Py_None));
-            PyRef<> junk(PyObject_CallMethod(logger.py(), "handle", "O", rec.py()));
+                msg = msg.substr(0, pos+1);
+
+            // we are called from a destructor, so must not throw,
+            // nor disturb an exception which is already active.
+            PyObject *etype, *evalue, *etb;
+            PyErr_Fetch(&etype, &evalue, &etb);
+            try {
+                PyRef<> text(PyUnicode_DecodeUTF8(msg.c_str(), msg.size(), "replace"));
+                // name, level, function name, lineno, message, args, exc_info
+                PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHOOO",
+                                                FLAME_LOGGER_NAME, r.level, r.fname, r.lnum,
+                                                text.py(), Py_None, Py_None));
+                PyRef<> junk(PyObject_CallMethod(logger.py(), "handle", "O", rec.py()));
+            } catch(std::exception&) {
+                PyErr_WriteUnraisable(logger.py());
+            }
+            PyErr_Restore(etype, evalue, etb);
         }
     }
     static void noopdtor(Machine::Logger*) {}
-- 
2.43.0


From 58eaaf6a16886d4691e723800eac2ba799a39ea9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:36:02 +0000
Subject: [PATCH 35/50] fix: python strings must not be truncated at nil

---
 python/flame/modconfig.cpp | 16 ++++++++--------
 python/flame/pyflame.h     |  6 ++++++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 5450100..7f60a3e 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -50,9 +50,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
         } else if(PyUnicode_Check(value) || (PY_MAJOR_VERSION < 3 && PyBytes_Check(value))) { // string
             PyRef<> valref(value, borrow());
             PyCString sval(valref);
-            const char *val = sval.c_str();
-
-            ret.set<std::string>(kname, val);
+            ret.set<std::string>(kname, sval.str());
 
         } else if(PySequence_Check(value)) { // list of dict
             Py_ssize_t N = PySequence_Size(value);
@@ -104,7 +102,7 @@ struct confval : public boost::static_visitor<PyRef<> >
 
     PyRef<> operator()(const std::string& v) const
     {
-        return PyRef<>(PyString_FromString(v.c_str()));
+        return PyRef<>(PyString_FromStringAndSize(v.c_str(), v.size()));
     }
 
     PyRef<> operator()(const std::vector<double>& v) const
@@ -175,7 +173,8 @@ PyObject* PyGLPSPrint(PyObject *, PyObject *args)
         List2Config(conf, inp);
         std::ostringstream strm;
         GLPSPrint(strm, conf);
-        return PyString_FromString(strm.str().c_str());
+        const std::string text(strm.str());
+        return PyString_FromStringAndSize(text.c_str(), text.size());
     }CATCH()
 }
 
@@ -213,7 +212,7 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
                 PyRef<> valuex(value, borrow());
                 PyCString valstr(valuex);
 
-                curval = valstr.c_str();
+                curval = valstr.str();
 
             } else {
                 PyErr_SetString(PyExc_ValueError, "extra {} can contain only numbers or strings");
@@ -252,9 +251,10 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
 #if PY_MAJOR_VERSION >= 3
     } else if(PyUnicode_Check(conf)) { // py3 str (aka unicode) doesn't implement buffer iface
         PyCString buf;
-        const char *cbuf = buf.c_str(conf);
+        buf.reset(conf);
+        const std::string sbuf(buf.str());
 
-        C.reset(parser.parse_byte(cbuf, strlen(cbuf), path));
+        C.reset(parser.parse_byte(sbuf.c_str(), sbuf.size(), path));
 #endif
 
     } else {
diff --git a/python/flame/pyflame.h b/python/flame/pyflame.h
index fa864ce..9d81912 100644
--- a/python/flame/pyflame.h
+++ b/python/flame/pyflame.h
@@ -1,4 +1,5 @@
 #include <stdexcept>
+#include <string>
 
 #ifndef PYFLAME_H
 #define PYFLAME_H
@@ -36,6 +37,7 @@ int registerModState(PyObject *mod);
 #define PyInt_AsLong PyLong_AsLong
 #define PyString_Check PyUnicode_Check
 #define PyString_FromString PyUnicode_FromString
+#define PyString_FromStringAndSize PyUnicode_FromStringAndSize
 #define MODINIT_RET(VAL) return (VAL)
 
 #else
@@ -156,6 +158,10 @@ struct PyCString
         return ret;
 
     }
+    //! all of the text, which may contain nil
+    std::string str() const {
+        return std::string(c_str(), PyBytes_Size(pystr.py()));
+    }
 private:
     PyCString(const PyCString&);
     PyCString& operator=(const PyCString&);
-- 
2.43.0


From 048d37f9cd16792df0ca548ddba0eb17046cd1f1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:36:02 +0000
Subject: [PATCH 36/50] fix: propagating a State of another sim_type must be
 refused

---
 src/chg_stripper.cpp  | 2 +-
 src/flame/linear.h    | 2 +-
 src/flame/rf_cavity.h | 2 +-
 src/linear.cpp        | 2 +-
 src/moment.cpp        | 8 ++++----
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index 65d3044..ff26bd9 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -190,7 +190,7 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
 
 void ElementStripper::advance(StateBase &s)
 {
-    state_t& ST = static_cast<state_t&>(s);
+    state_t& ST = dynamic_cast<state_t&>(s);
 
     ST.recalc();
     ST.calc_rms(); // paranoia in case someone (python) has made moment0_env inconsistent
diff --git a/src/flame/linear.h b/src/flame/linear.h
index cd33adf..53ab38e 100644
--- a/src/flame/linear.h
+++ b/src/flame/linear.h
@@ -28,7 +28,7 @@ struct LinearElementBase : public ElementVoid
 
     virtual void advance(StateBase& s)
     {
-        State& ST = static_cast<State&>(s);
+        State& ST = dynamic_cast<State&>(s);
         advanceT(ST);
     }
 
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 99ba01a..bf82b08 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -168,7 +168,7 @@ struct ElementRFCavity : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         double x0[2], x2[2], s0[2];
diff --git a/src/linear.cpp b/src/linear.cpp
index 8df13f4..f5e7423 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -176,7 +176,7 @@ struct ElementSource : public Base
 
     virtual void advance(StateBase& s)
     {
-        state_t& ST = static_cast<state_t&>(s);
+        state_t& ST = dynamic_cast<state_t&>(s);
         // Replace state with our initial values
         ST.assign(istate);
     }
diff --git a/src/moment.cpp b/src/moment.cpp
index bfe6b74..87dab04 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -662,7 +662,7 @@ unsigned MomentElementBase::get_flag(const Config& c, const std::string& name, c
 
 void MomentElementBase::advance(StateBase& s)
 {
-    state_t&  ST = static_cast<state_t&>(s);
+    state_t&  ST = dynamic_cast<state_t&>(s);
     using namespace boost::numeric::ublas;
 
     // IonEk is Es + E_state; the latter is set by user.
@@ -796,7 +796,7 @@ struct ElementSource : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t& ST = static_cast<state_t&>(s);
+        state_t& ST = dynamic_cast<state_t&>(s);
         if (!ST.retreat)
             // Replace state with our initial values
             ST.assign(istate);
@@ -957,7 +957,7 @@ struct ElementSBend : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         // IonEk is Es + E_state; the latter is set by user.
@@ -1164,7 +1164,7 @@ struct ElementSext : public MomentElementBase
         const bool   thinlens = conf().get<double>("thinlens", 0.0) == 1.0,
                      dstkick = conf().get<double>("dstkick", 1.0) == 1.0;
 
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         ST.recalc();
-- 
2.43.0


From b891c46a0cfb7892b83fb8bca8714cf039182faa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:36:02 +0000
Subject: [PATCH 37/50] fix: untrack State before deallocation

---
 python/flame/modstate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index b186a93..5abaecc 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -50,6 +50,8 @@ static
 void PyState_free(PyObject *raw)
 {
     TRY {
+        PyObject_GC_UnTrack(raw);
+
         std::auto_ptr<StateBase> S(state->state);
         state->state = NULL;
 
-- 
2.43.0


From 84d8df3c344ec63c3d6f092c3273eeb80b80c9c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:37:43 +0000
Subject: [PATCH 38/50] fix: cavity and curve files must be read again when
 their time stamp changes back

---
 src/flame/moment_sup.h |  2 --
 src/flame/rf_cavity.h  |  4 +++-
 src/moment_sup.cpp     | 20 ++++++++++++++------
 src/rf_cavity.cpp      | 17 +++++++++++------
 4 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/flame/moment_sup.h b/src/flame/moment_sup.h
index e123a6a..ebcd4e3 100644
--- a/src/flame/moment_sup.h
+++ b/src/flame/moment_sup.h
@@ -5,8 +5,6 @@
 #include "base.h"
 #include "moment.h"
 
-static std::map<std::string,boost::shared_ptr<Config> > CurveMap;
-
 void inverse(MomentElementBase::value_t& out, const MomentElementBase::value_t& in);
 
 void RotMat(const double dx, const double dy,
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index bf82b08..56e9f25 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -82,7 +82,9 @@ struct ElementRFCavity : public MomentElementBase
                         NrLim;      // Limits for normalization factor q*scl/m
 
     double calFitPow(double kfac, const std::vector<double>& Tfit) const;
-    static std::map<std::string,boost::shared_ptr<Config> > CavConfMap;
+    // file name -> modification time and content
+    typedef std::map<std::string, std::pair<std::time_t, boost::shared_ptr<Config> > > CavConfMap_t;
+    static CavConfMap_t CavConfMap;
 
     std::vector<CavTLMLineType> CavTLMLineTab; // from lattice, for each charge state
     double fRF,    // RF frequency [Hz]
diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 6f5387e..d905d34 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -1,6 +1,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/thread/mutex.hpp>
 #include <boost/numeric/ublas/lu.hpp>
 
 #include "flame/constants.h"
@@ -15,7 +16,12 @@
     #define defpath "."
 #endif
 
-std::map<std::string,boost::shared_ptr<Config> > CurveMap;
+namespace {
+// file name -> modification time and content
+typedef std::map<std::string, std::pair<std::time_t, boost::shared_ptr<Config> > > CurveMap_t;
+CurveMap_t CurveMap;
+boost::mutex CurveLock; // guards CurveMap
+}
 
 // http://www.crystalclearsoftware.com/cgi-bin/boost_wiki/wiki.pl?LU_Matrix_Inversion
 // by LU-decomposition.
@@ -395,9 +401,11 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
     if (checker){
         std::string CurveFile =  c.get<std::string>("Eng_Data_Dir", defpath);
         CurveFile += "/" + filename;
-        std::string key(SB()<<CurveFile<<"|"<<boost::filesystem::last_write_time(CurveFile));
-        if ( CurveMap.find(key) == CurveMap.end() ) {
-            // not found in CurveMap
+        std::time_t mtime = boost::filesystem::last_write_time(CurveFile);
+        boost::mutex::scoped_lock L(CurveLock);
+        CurveMap_t::const_iterator ent = CurveMap.find(CurveFile);
+        if ( ent == CurveMap.end() || ent->second.first != mtime ) {
+            // not found in CurveMap, or out of date
             try {
                 try {
                     GLPSParser P;
@@ -409,10 +417,10 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
             }catch(std::exception& e){
                 throw std::runtime_error(SB()<<"Error: "<<e.what()<<"\n");
             }
-            CurveMap.insert(std::make_pair(key, conf));
+            CurveMap[CurveFile] = std::make_pair(mtime, conf);
         } else {
             // found in CurveMap
-            conf=CurveMap[key];
+            conf=ent->second.second;
         }
     }
 
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 0a793df..f4fce6b 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -3,6 +3,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/thread/mutex.hpp>
 
 #include "flame/constants.h"
 #include "flame/moment.h"
@@ -19,7 +20,8 @@
     #define defpath "."
 #endif
 
-std::map<std::string,boost::shared_ptr<Config> > ElementRFCavity::CavConfMap;
+ElementRFCavity::CavConfMap_t ElementRFCavity::CavConfMap;
+static boost::mutex CavConfLock; // guards CavConfMap
 
 // RF Cavity beam dynamics functions.
 
@@ -812,20 +814,23 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
     else
     {
         boost::shared_ptr<Config> conf;
-        std::string key(SB()<<DataFile<<"|"<<boost::filesystem::last_write_time(DataFile));
-        if ( CavConfMap.find(key) == CavConfMap.end() ) {
-            // not found in CavConfMap
+        std::time_t mtime = boost::filesystem::last_write_time(DataFile);
+        boost::mutex::scoped_lock L(CavConfLock);
+        CavConfMap_t::const_iterator ent = CavConfMap.find(DataFile);
+        if ( ent == CavConfMap.end() || ent->second.first != mtime ) {
+            // not found in CavConfMap, or out of date
             try {
                 GLPSParser P;
                 conf.reset(P.parse_file(DataFile.c_str()));
             }catch(std::exception& e){
                 throw std::runtime_error(SB()<<"Error parsing '"<<DataFile<<"' : "<<e.what());
             }
-            CavConfMap.insert(std::make_pair(key, conf));
+            CavConfMap[DataFile] = std::make_pair(mtime, conf);
         } else {
             // found in CavConfMap
-            conf=CavConfMap[key];
+            conf=ent->second.second;
         }
+        L.unlock();
 
         typedef Config::vector_t elements_t;
         elements_t Es(conf->get<elements_t>("elements"));
-- 
2.43.0


From 5be1a0485a99ff8d0ecb37d2a3e02a1e640e93cb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 00:43:12 +0000
Subject: [PATCH 39/50] fix: an unreadable lattice file must be reported, not
 terminate the process

---
 src/glps.l | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/glps.l b/src/glps.l
index 0eeb8e7..b3f6d7e 100644
--- a/src/glps.l
+++ b/src/glps.l
@@ -1,11 +1,20 @@
 %{
 #include <stdlib.h>
+#include <string.h>
+#include <errno.h>
 #include <math.h>
 
 #include "glps_parser.h"
 #include "glps.par.h"
 
 #define YYSTYPE         GLPS_STYPE
+
+/* default YY_INPUT would exit() if input can't be read */
+#define YY_INPUT(buf, result, max_size) do { \
+    (result) = fread((buf), 1, (max_size), yyin); \
+    if((result)==0 && ferror(yyin)) \
+        glps_error(yyscanner, yyextra, "Error reading input: %s", strerror(errno)); \
+} while(0)
 %}
 
 %option 8bit reentrant batch bison-bridge
-- 
2.43.0


From 5ac90a43c86047c5c7b10a0228a010b935f12ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:55 +0000
Subject: [PATCH 40/50] fix: H5StateWriter must not discard data of earlier
 rows when the number of charge states shrinks

---
 src/h5writer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 7b0487d..b83e6ab 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -214,8 +214,13 @@ void H5StateWriter::append(const StateBase *RS)
                       shape+1);
 
             // resize
-            // always in time, maybe in other dimensions
-            elem.dset.extend(shape);
+            // always in time, maybe in other dimensions.
+            // never shrink, as this would discard parts of earlier rows
+            hsize_t extent[StateBase::ArrayInfo::maxdims+1];
+            elem.dset.getSpace().getSimpleExtentDims(extent);
+            for(unsigned d=0; d<=info.ndim; d++)
+                extent[d] = std::max(extent[d], shape[d]);
+            elem.dset.extend(extent);
 
             // filespace is hyper from [index,0...] to [index,shape]
             hsize_t start[StateBase::ArrayInfo::maxdims+1];
-- 
2.43.0


From 40a09c661668fb23a80d5afbff579fcc636395f0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:12:11 +0000
Subject: [PATCH 41/50] fix: nested propagate() from python must not remove the
 observers of the outer call

---
 python/flame/modmachine.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index bff0ef8..9efa0b9 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -145,21 +145,28 @@ struct PyStoreObserver : public Observer
     }
 };
 
+// Replaces all observers while in scope.
+// Calls may be nested, as python code may run while iterating 'observe', or logging
 struct PyScopedObserver
 {
     Machine *machine;
-    std::vector<size_t> observed;
-    PyScopedObserver(Machine *m) : machine(m) {}
-    ~PyScopedObserver() {
+    std::vector<Observer*> previous;
+    PyScopedObserver(Machine *m) : machine(m), previous(m->size())
+    {
         for(size_t i=0; i<machine->size(); i++) {
+            previous[i] = (*machine)[i]->observer();
             (*machine)[i]->set_observer(NULL);
         }
     }
+    ~PyScopedObserver() {
+        for(size_t i=0; i<machine->size(); i++) {
+            (*machine)[i]->set_observer(previous[i]);
+        }
+    }
     void observe(size_t i, Observer *o)
     {
         if(i>=machine->size())
             throw std::runtime_error("element index out of range");
-        observed.push_back(i);
         (*machine)[i]->set_observer(o);
     }
 };
-- 
2.43.0


From 356e1fc15eced3da7718e987d7a4bd9c6fd09d5b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:12:11 +0000
Subject: [PATCH 42/50] fix: modifying 'extra' while it is converted must not
 use freed objects

---
 python/flame/modconfig.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 7f60a3e..69472f2 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -197,8 +197,10 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
     } else if(PyDict_Check(extra_defs)) {
         PyObject *key, *value;
         Py_ssize_t pos = 0;
+        // conversion of values may run python code, which may modify the caller's dict
+        PyRef<> defs(PyDict_Copy(extra_defs));
 
-        while(PyDict_Next(extra_defs, &pos, &key, &value)) {
+        while(PyDict_Next(defs.py(), &pos, &key, &value)) {
             PyRef<> keyx(key, borrow());
             PyCString keystr(keyx);
 
-- 
2.43.0


From cc69f8c11ad6ee804ef7c668ddcd117d8f2a30dd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:20:54 +0000
Subject: [PATCH 43/50] fix: an exception raised while iterating a
 configuration must be reported

---
 python/flame/modconfig.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 69472f2..c6068bb 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -27,7 +27,11 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
     PyRef<> iter(PyObject_GetIter(list));
     while(true) {
         PyObject *item = PyIter_Next(iter.py());
-        if(!item) break;
+        if(!item) {
+            if(PyErr_Occurred())
+                throw std::runtime_error(""); // exception while iterating
+            break;
+        }
         PyRef<> itemref(item);
         const char *kname;
         PyObject *value;
-- 
2.43.0


From 119e21fd08ad6ac569e326ed289d77a8c07f504f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:20:54 +0000
Subject: [PATCH 44/50] fix: Machine.conf() must convert nested lists of
 dictionaries at every level

---
 python/flame/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/flame/__init__.py b/python/flame/__init__.py
index 8a44889..a2eb0fe 100644
--- a/python/flame/__init__.py
+++ b/python/flame/__init__.py
@@ -13,7 +13,7 @@ def _list2odict(L):
     for i in range(len(L)):
         K,V = L[i]
         if isinstance(V, list):
-            L[i] = (K,list(map(OrderedDict, V)))
+            L[i] = (K,list(map(_list2odict, V)))
     return OrderedDict(L)
 
 class GLPSParser(object):
-- 
2.43.0


From e9ca4dd1bc74659c760b93dfac0c6bbfd0b7027e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:25:04 +0000
Subject: [PATCH 45/50] fix: a configuration list item which is not a tuple is
 a ValueError, not an internal error

---
 python/flame/modconfig.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index c6068bb..00a4d6d 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -35,6 +35,8 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
         PyRef<> itemref(item);
         const char *kname;
         PyObject *value;
+        if(!PyTuple_Check(item))
+            throw std::invalid_argument("list item is not a tuple");
         if(!PyArg_ParseTuple(item, "sO", &kname, &value))
             throw std::runtime_error("list item is not a tuple?");
 
-- 
2.43.0


From 7b83cf6e2eedc89e828fb0b610414ed162dff33e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:25:36 +0000
Subject: [PATCH 46/50] fix: elements given from python inherit all other keys,
 wherever 'elements' appears among them

---
 python/flame/modconfig.cpp | 47 +++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 00a4d6d..e2c26b8 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -24,6 +24,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
     if(depth>3)
         throw std::runtime_error("too deep for Dict2Config");
 
+    std::list<PyRef<> > lists;
     PyRef<> iter(PyObject_GetIter(list));
     while(true) {
         PyObject *item = PyIter_Next(iter.py());
@@ -59,33 +60,43 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
             ret.set<std::string>(kname, sval.str());
 
         } else if(PySequence_Check(value)) { // list of dict
-            Py_ssize_t N = PySequence_Size(value);
+            lists.push_back(itemref);
 
-            Config::vector_t output;
-            output.reserve(N);
+        } else {
+            PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(value);
+            throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
+        }
+    }
+
+    // lists come last as each entry inherits from this scope, wherever the list appears among the other keys
+    for(std::list<PyRef<> >::const_iterator it=lists.begin(), end=lists.end(); it!=end; ++it) {
+        const char *kname;
+        PyObject *value;
+        if(!PyArg_ParseTuple(it->py(), "sO", &kname, &value))
+            throw std::runtime_error("list item is not a tuple?");
 
-            for(Py_ssize_t i=0; i<N; i++) {
-                PyRef<> elem(PySequence_GetItem(value, i));
+        Py_ssize_t N = PySequence_Size(value);
 
-                if(PyDict_Check(elem.py())) {
-                    elem.reset(PyMapping_Items(elem.py()));
-                }
-                if(!PyList_Check(elem.py())) {
-                    PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(elem.py());
-                    throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
-                }
+        Config::vector_t output;
+        output.reserve(N);
 
-                output.push_back(ret.new_scope());
+        for(Py_ssize_t i=0; i<N; i++) {
+            PyRef<> elem(PySequence_GetItem(value, i));
 
-                List2Config(output.back(), elem.py(), depth+1); // inheirt parent scope
+            if(PyDict_Check(elem.py())) {
+                elem.reset(PyMapping_Items(elem.py()));
+            }
+            if(!PyList_Check(elem.py())) {
+                PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(elem.py());
+                throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
             }
 
-            ret.set<Config::vector_t>(kname, output);
+            output.push_back(ret.new_scope());
 
-        } else {
-            PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(value);
-            throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
+            List2Config(output.back(), elem.py(), depth+1); // inheirt parent scope
         }
+
+        ret.set<Config::vector_t>(kname, output);
     }
 }
 
-- 
2.43.0


From 4f81d930e5d3099343c1883621f0e02930f5c5a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:27:41 +0000
Subject: [PATCH 47/50] fix: setLogLevel() must refuse levels it cannot
 represent

---
 python/flame/modmain.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/flame/modmain.cpp b/python/flame/modmain.cpp
index 56538d3..3ce1cc4 100644
--- a/python/flame/modmain.cpp
+++ b/python/flame/modmain.cpp
@@ -1,4 +1,5 @@
 
+#include <limits.h>
 #include <list>
 #include <sstream>
 
@@ -56,9 +57,11 @@ PyLogger PyLogger::singleton;
 static
 PyObject* py_set_log(PyObject *unused, PyObject *args)
 {
-    unsigned short lvl;
-    if(!PyArg_ParseTuple(args, "H", &lvl))
+    int lvl;
+    if(!PyArg_ParseTuple(args, "i", &lvl))
         return NULL;
+    if(lvl<0 || lvl>USHRT_MAX)
+        return PyErr_Format(PyExc_ValueError, "log level out of range");
     // no locking here as races only result in messages being displayed (or not)
     Machine::log_detail = lvl;
     Py_RETURN_NONE;
-- 
2.43.0


From 60bfc981410fd4395c129a9b234a208b1d4a53e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:01:35 +0000
Subject: [PATCH 48/50] fix: Machine() must not hold the registry lock while
 building elements

---
 src/base.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index 526ac56..8879905 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -102,6 +102,9 @@ Machine::Machine(const Config& c)
 
     p_info = it->second;
 
+    // Element construction, and any logging it does, may (re-)enter the registry
+    G.unlock();
+
     typedef Config::vector_t elements_t;
     elements_t Es(c.get<elements_t>("elements"));
 
@@ -151,8 +154,6 @@ Machine::Machine(const Config& c)
         result_t.insert(std::make_pair(LookupKey(etype, E->index), E));
     }
 
-    G.unlock();
-
     p_elements.swap(result);
     p_lookup.swap(result_l);
     p_lookup_type.swap(result_t);
-- 
2.43.0


From 57f5f845b81d31aca91e8c6ffe1deb9a58cea9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:19 +0000
Subject: [PATCH 49/50] fix: h5file() must resolve the whole name when all of
 it exists

---
 src/glps_ops.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index 949079e..d3920b0 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -180,20 +180,20 @@ int unary_h5file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
      * so do as h5ls does and strip off from the right hand side until
      * and try to open while '/' remain.
      */
-    size_t sep = inp.npos;
+    size_t sep = inp.npos; // starting with the whole spec
 
     while(true) {
-        // a leading '/' leaves nothing to try but the whole spec
-        sep = sep==0 ? inp.npos : inp.find_last_of('/', sep-1);
-
         path fname(absolute(inp.substr(0, sep), ctxt->cwd));
 
-        if(sep!=0 && exists(fname)) {
+        if(exists(fname)) {
             *R = canonical(fname).native() + (sep==inp.npos ? std::string() : inp.substr(sep));
             return 0;
-        } else if(sep==inp.npos) {
-            break;
         }
+
+        // a leading '/' leaves nothing more to try
+        sep = sep==0 ? inp.npos : inp.find_last_of('/', sep-1);
+        if(sep==inp.npos || sep==0)
+            break;
     }
 
     std::ostringstream strm;
-- 
2.43.0


From 3facf7b657a1a0c646d40f633c05d0b7ae1e33df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:23 +0000
Subject: [PATCH 50/50] fix: sector bend with a defocusing gradient or without
 curvature

The dispersion of a bend with K < -1/rho^2 used sin where sinh belongs, and a
bend with neither angle nor gradient divided zero by zero.
---
 src/moment_sup.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index d905d34..5da898d 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -232,7 +232,8 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
             Kx  = K + 1e0/sqr(rho),
             Ky  = -K,
             dx  = 0e0,
-            sx  = 0e0;
+            sx  = 0e0,
+            lx  = 0e0;
 
     // Horizontal plane.
     GetQuadMatrix(L, Kx, (unsigned)state_t::PS_X, M);
@@ -243,13 +244,16 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
     if (Kx == 0e0) {
         dx = sqr(L)/(2e0*rho);
         sx = L/rho;
+        lx = cube(L)/(6e0*sqr(rho));
     } else if (Kx > 0e0) {
         dx = (1e0-cos(sqrt(Kx)*L))/(rho*Kx);
         sx = sin(sqrt(Kx)*L)/(rho*sqrt(Kx));
     } else {
         dx = (1e0-cosh(sqrt(-Kx)*L))/(rho*Kx);
-        sx = sin(sqrt(-Kx)*L)/(rho*sqrt(-Kx));
+        sx = sinh(sqrt(-Kx)*L)/(rho*sqrt(-Kx));
     }
+    if (Kx != 0e0)
+        lx = (L/rho-sx)/(Kx*rho);
 
     M(state_t::PS_X,  state_t::PS_PS) = dx/(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
     M(state_t::PS_PX, state_t::PS_PS) = sx/(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
@@ -258,11 +262,11 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
     M(state_t::PS_S,  state_t::PS_PX) = dx*dip_IonK;
     // Low beta approximation.
     M(state_t::PS_S,  state_t::PS_PS) =
-            ((L/rho-sx)/(Kx*rho)-L/sqr(ref_gamma))*dip_IonK
+            (lx-L/sqr(ref_gamma))*dip_IonK
             /(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
 
     // Add dipole terms.
-    M(state_t::PS_S,  6) = ((L/rho-sx)/(Kx*rho)*d-L/sqr(ref_gamma)*(d+qmrel))*dip_IonK;
+    M(state_t::PS_S,  6) = (lx*d-L/sqr(ref_gamma)*(d+qmrel))*dip_IonK;
     M(state_t::PS_X,  6) = dx*d;
     M(state_t::PS_PX, 6) = sx*d;
 
-- 
2.43.0

