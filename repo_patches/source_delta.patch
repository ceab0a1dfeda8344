From 9f321aab99f15efdfae375a6a56101cfee3a35cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:15 +0000
Subject: [PATCH 01/14] sim hook: observer of the solution at synchronization
 points (PP_SIM_HOOKS)

---
 src/main.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 0cc6e6f..26e18d0 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -71,6 +71,23 @@ INITIALIZE_EASYLOGGINGPP
 #error implementation not supported
 #endif
 
+#ifdef PP_SIM_HOOKS
+// observer of the solution at synchronization points; provided by the simulator
+extern "C" void edge_sim_sync( double              i_time,
+                               unsigned int        i_step,
+                               std::size_t         i_nEls,
+                               std::size_t         i_nBytesEl,
+                               void        const * i_dofs,
+                               unsigned int        i_nElVes,
+                               std::size_t const * i_elVe,
+                               double      const * i_veCrds );
+#define PP_SIM_SYNC(time,step) edge_sim_sync( time, step, l_edgeV.nEls(), sizeof( l_internal.m_elementModePrivate1[0] ), \
+                                              l_internal.m_elementModePrivate1, C_ENT[T_SDISC.ELEMENT].N_VERTICES, \
+                                              l_edgeV.getElVe(), l_edgeV.getVeCrds()[0] );
+#else
+#define PP_SIM_SYNC(time,step)
+#endif
+
 int main( int i_argc, char *i_argv[] ) {
   PP_INSTR_FUN("main")
 
@@ -329,6 +346,8 @@ l_edgeV.setSpTypes( l_internal.m_vertexChars,
                                 l_internal.m_elementModePrivate1,
                                 l_config.m_waveFieldSpType );
 
+  PP_SIM_SYNC( l_simTime, 0 )
+
   // write setup
   EDGE_LOG_INFO << "reached synchronization point #0";
   EDGE_LOG_INFO << "  simulation time: " << l_simTime;
@@ -373,6 +392,8 @@ l_edgeV.setSpTypes( l_internal.m_vertexChars,
     // update simulation time
     l_simTime += l_stepTime;
 
+    PP_SIM_SYNC( l_simTime, l_step+1 )
+
     EDGE_LOG_INFO << "reached synchronization point #" << l_step+1;
     EDGE_LOG_INFO << "  simulation time: " << l_simTime;
     l_timer.end();
-- 
2.43.0


From 90d2da4d5cfc1265c2a86647cc3a944758cdc0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:48 +0000
Subject: [PATCH 02/14] fix: advection: use the send and receive pointers of
 the message buffers

The casted pointers were never assigned; any build with message passing
dereferenced a null pointer in the local step and ignored remote
neighbours.
---
 src/impl/advection/inc/time/tgs_steps.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impl/advection/inc/time/tgs_steps.inc b/src/impl/advection/inc/time/tgs_steps.inc
index 5c3d9b7..712b979 100644
--- a/src/impl/advection/inc/time/tgs_steps.inc
+++ b/src/impl/advection/inc/time/tgs_steps.inc
@@ -24,7 +24,7 @@
 if( i_step == 0 ) {
   real_base (** l_sendPtrs)[N_ELEMENT_MODES][N_CRUNS] = nullptr;
   if( m_nCommBuffers > 0 ) {
-    (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_sendPtrs[getUpdatesSync()%m_nCommBuffers];
+    l_sendPtrs = (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_sendPtrs[getUpdatesSync()%m_nCommBuffers];
   }
   m_internal.m_globalShared4[0]->local(  i_first,
                                          i_size,
@@ -40,7 +40,7 @@ if( i_step == 0 ) {
 else if( i_step == 1 ) {
   real_base (** l_recvPtrs)[N_ELEMENT_MODES][N_CRUNS] = nullptr;
   if( m_nCommBuffers > 0 ) {
-    (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_recvPtrs[(getUpdatesSync()/m_nCommBuffers)%m_nCommBuffers];
+    l_recvPtrs = (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_recvPtrs[(getUpdatesSync()/m_nCommBuffers)%m_nCommBuffers];
   }
   m_internal.m_globalShared4[0]->neigh( i_first,
                                         i_size,
-- 
2.43.0


From 0be727a068b7ac3f88a6a01c4538b8adfe697356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:02 +0000
Subject: [PATCH 03/14] fix: series: integrate intervals which do not cover a
 sample

When both limits lie between the same two samples the contributions before and
after the (empty) set of covered samples overlapped, and the last sample clamped
the first one: the interval was counted once too often. Point sources sampled
coarser than the time step injected a wrong moment.
---
 src/linalg/Series.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/linalg/Series.hpp b/src/linalg/Series.hpp
index 0fdbd77..24948de 100644
--- a/src/linalg/Series.hpp
+++ b/src/linalg/Series.hpp
@@ -74,8 +74,14 @@ class edge::linalg::Series {
       std::size_t l_first = std::max( (i_x1 - i_xStart + i_dx)/i_dx, (TL_T_REAL) 0 );
       std::size_t l_last  = std::max( (i_x2 - i_xStart       )/i_dx, (TL_T_REAL) 0 );
                   l_last  = std::min( l_last,  i_nPts-1 );
-                  l_first = std::min( l_first, l_last );
+                  l_first = std::min( l_first, i_nPts-1 );
 
+      // no points are covered if x1 and x2 are in the same interval:
+      // the contributions before and after overlap, and count this interval once too often
+      if( l_first > l_last ) {
+        for( unsigned short l_se = 0; l_se < TL_N_SERIES; l_se++ )
+          o_int[l_se] -= l_dxH*( i_vals[l_first][l_se] + i_vals[l_last][l_se] );
+      }
 
       // add contribution of the covered intervals
       for( std::size_t l_pt = l_first+1; l_pt < l_last+1; l_pt++ ) {
-- 
2.43.0


From 524abab3e866080fdb2ba6d00e46ba6a024d2bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:02 +0000
Subject: [PATCH 04/14] fix: geom: project points which are slightly outside of
 a tet

The tolerance of inside is absolute in the determinants of the faces. In small
elements a point outside by more than TOL.MESH in reference coordinates still
counted as on the face, was not projected, and a point source at such a
location terminated the run.
---
 src/linalg/Geom.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/linalg/Geom.hpp b/src/linalg/Geom.hpp
index dd902f4..6e1ecce 100644
--- a/src/linalg/Geom.hpp
+++ b/src/linalg/Geom.hpp
@@ -768,8 +768,22 @@ class edge::linalg::Geom {
           io_pt[l_di] = l_pt[l_di];
       }
       else if( i_enType == TET4 ) {
-        // query faces if the point is not inside
-        if( inside( i_enType, i_veCrds, io_pt ) == 0 ) {
+        // check if the point is outside of at least one of the faces,
+        // without tolerance: function inside is absolute in the determinants, i.e., not in the distance
+        bool l_outside = false;
+        for( unsigned short l_fa = 0; l_fa < 4; l_fa++ ) {
+          TL_T_REAL l_directed[3][3];
+          for( unsigned short l_ve = 0; l_ve < 3; l_ve++ ) {
+            unsigned short l_veId = C_REF_ELEMENT.FA_VE_CC.TET[l_fa][l_ve];
+
+            for( unsigned short l_di = 0; l_di < 3; l_di++ )
+              l_directed[l_di][l_ve] = i_veCrds[l_di*l_nVes+l_veId] - io_pt[l_di];
+          }
+          l_outside = l_outside || Matrix::det( l_directed ) < 0;
+        }
+
+        // query faces if the point is outside
+        if( l_outside ) {
           // minimum distance to point
           TL_T_REAL l_distMin = std::numeric_limits< TL_T_REAL >::max();
 
-- 
2.43.0


From b525bc4f62ec9da331bf281167f2d77b0631fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:49 +0000
Subject: [PATCH 05/14] fix: receivers: flush only the receivers of the
 scheduled time group

---
 src/impl/seismic/inc/time/man_sched.inc | 4 ++--
 src/io/Receivers.cpp                    | 6 +++++-
 src/io/Receivers.h                      | 7 +++++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/impl/seismic/inc/time/man_sched.inc b/src/impl/seismic/inc/time/man_sched.inc
index b9169a8..dc2bb75 100644
--- a/src/impl/seismic/inc/time/man_sched.inc
+++ b/src/impl/seismic/inc/time/man_sched.inc
@@ -161,8 +161,8 @@ for( unsigned short l_tg = 0; l_tg < m_timeGroups.size(); l_tg++ ) {
     m_cflow[l_tg][2] = 3;
     m_cflow[l_tg][4] = 1;
 
-    // flush receivers if buffer size gets low
-    m_recvs.flushIf();
+    // flush receivers of this time group if buffer size gets low
+    m_recvs.flushIf( l_tg );
   }
 
   // issue recvs
diff --git a/src/io/Receivers.cpp b/src/io/Receivers.cpp
index 5670676..53ce725 100644
--- a/src/io/Receivers.cpp
+++ b/src/io/Receivers.cpp
@@ -322,8 +322,12 @@ void edge::io::Receivers::flushAll() {
   for( std::size_t l_re = 0; l_re < m_recvs.size(); l_re++ ) flush( l_re );
 }
 
-void edge::io::Receivers::flushIf( unsigned int i_tresh ) {
+void edge::io::Receivers::flushIf( int_tg       i_tg,
+                                   unsigned int i_tresh ) {
   for( std::size_t l_re = 0; l_re < m_recvs.size(); l_re++ ) {
+    // workers might add samples to the receivers of the other time groups
+    if( m_recvs[l_re].tg != i_tg ) continue;
+
     if( m_buffSize - m_recvs[l_re].nBuff < i_tresh ) flush( l_re );
   }
 }
diff --git a/src/io/Receivers.h b/src/io/Receivers.h
index 89ea06f..8947f24 100644
--- a/src/io/Receivers.h
+++ b/src/io/Receivers.h
@@ -166,11 +166,14 @@ class edge::io::Receivers {
                        const real_base i_dofs[N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS] );
 
     /**
-     * Flushes receiver's buffers to disk if the remaining size in the buffer if below the treshold.
+     * Flushes the buffers of a time group's receivers to disk if the remaining size in the buffer if below the treshold.
+     * The receivers of the time group may not be written concurrently.
      *
+     * @param i_tg time group.
      * @param i_treshold, which triggers writers if the buffers remaining entries is below. 
      **/
-    virtual void flushIf( unsigned int i_tresh=50 );
+    virtual void flushIf( int_tg       i_tg,
+                          unsigned int i_tresh=50 );
 };
 
 #endif
-- 
2.43.0


From d972e12d77e1452182f1819b26b862f2a4bc4da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:08 +0000
Subject: [PATCH 06/14] fix: error norms: fail if the norms could not be
 written

---
 src/io/ErrorNorms.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/ErrorNorms.cpp b/src/io/ErrorNorms.cpp
index 0f8afce..9ba94b1 100644
--- a/src/io/ErrorNorms.cpp
+++ b/src/io/ErrorNorms.cpp
@@ -23,6 +23,7 @@
 
 #include "io/logging.h"
 #include "submodules/pugixml/src/pugixml.hpp"
+#include <fstream>
 
 #include "ErrorNorms.h"
 
@@ -82,7 +83,11 @@ void edge::io::ErrorNorms::writeXml( const double i_errorNorms[3][N_QUANTITIES][
       }
     }
 
-    if( !l_doc.save_file(m_file.c_str()) ) EDGE_LOG_ERROR << "failed to write error norms to xml: " << m_file;
+    // the errors of buffered writes show up in the close at latest
+    std::ofstream l_file( m_file.c_str() );
+    l_doc.save( l_file );
+    l_file.close();
+    if( !l_file ) EDGE_LOG_FATAL << "failed to write error norms to xml: " << m_file;
   }
 }
 
-- 
2.43.0


From 36ae3d1113859ed1eb110306564df777cdc070c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:08 +0000
Subject: [PATCH 07/14] fix: receivers: fail if the samples could not be
 written

---
 src/io/Receivers.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io/Receivers.cpp b/src/io/Receivers.cpp
index 53ce725..455e293 100644
--- a/src/io/Receivers.cpp
+++ b/src/io/Receivers.cpp
@@ -216,6 +216,10 @@ void edge::io::Receivers::touchOutput( std::string const (*i_recvNames),
       }
 
       l_file << l_colNames;
+
+      // the errors of buffered writes show up in the close at latest
+      l_file.close();
+      if( !l_file ) EDGE_LOG_FATAL << "could not write the recv-file: " << m_recvs[l_re].path;
     }
     else EDGE_LOG_FATAL;
   }
@@ -311,6 +315,10 @@ void edge::io::Receivers::flush( unsigned int i_re ) {
 
       // write stream to file
       l_file << l_stream.str();
+
+      // the errors of buffered writes show up in the close at latest
+      l_file.close();
+      if( !l_file ) EDGE_LOG_FATAL << "could not write the recv-file: " << m_recvs[i_re].path;
     }
     else EDGE_LOG_FATAL << "could not open the recv-file: " << m_recvs[i_re].path;
   }
-- 
2.43.0


From cfe2cbaf5abf3d76ded9b526095ba99157572b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:08 +0000
Subject: [PATCH 08/14] fix: vtk: fail if the wave field or internal boundary
 could not be written

---
 src/io/InternalBoundary.hpp              | 21 +++++++++++----------
 src/io/Vtk.cpp                           | 21 +++++++++++----------
 submodules/visit_writer/visit_writer.cpp | 21 +++++++++++++++------
 submodules/visit_writer/visit_writer.h   |  8 +++++---
 4 files changed, 42 insertions(+), 29 deletions(-)

diff --git a/src/io/InternalBoundary.hpp b/src/io/InternalBoundary.hpp
index 310b296..337410a 100644
--- a/src/io/InternalBoundary.hpp
+++ b/src/io/InternalBoundary.hpp
@@ -341,16 +341,17 @@ class edge::io::InternalBoundary {
       int l_nPts = i_size * TL_N_FA_SVS;
       int l_nCells = i_size * TL_N_SFS;
 
-      edge_write_unstructured_mesh( l_file.c_str(),
-                                    m_binary,
-                                    l_nPts,
-                                    m_svCrds[i_first][0],
-                                    i_nQts,
-                                    l_nCells,
-                                    m_visitElType,
-                                    m_bfSfSv[i_first][0],
-                                    i_namesQts,
-                                    m_bPtrs );
+      int l_error = edge_write_unstructured_mesh( l_file.c_str(),
+                                                  m_binary,
+                                                  l_nPts,
+                                                  m_svCrds[i_first][0],
+                                                  i_nQts,
+                                                  l_nCells,
+                                                  m_visitElType,
+                                                  m_bfSfSv[i_first][0],
+                                                  i_namesQts,
+                                                  m_bPtrs );
+      if( l_error != 0 ) EDGE_LOG_FATAL << "could not write the internal boundary: " << l_file;
 
       // increase write counter
       m_writeStep++;
diff --git a/src/io/Vtk.cpp b/src/io/Vtk.cpp
index 1a095ce..4e21a38 100644
--- a/src/io/Vtk.cpp
+++ b/src/io/Vtk.cpp
@@ -108,14 +108,15 @@ void edge::io::Vtk::write( const std::string           &i_outFile,
   }
 
   // write the data, now..
-  edge_write_unstructured_mesh( i_outFile.c_str(),
-                                i_binary,
-                                i_nVe,
-                                m_coordsVe,
-                                N_CRUNS*N_QUANTITIES,
-                                i_elPrint.size(),
-                                m_visitElType,
-                                m_connElVe,
-                                m_varNamesC,
-                                m_ptrs );
+  int l_error = edge_write_unstructured_mesh( i_outFile.c_str(),
+                                              i_binary,
+                                              i_nVe,
+                                              m_coordsVe,
+                                              N_CRUNS*N_QUANTITIES,
+                                              i_elPrint.size(),
+                                              m_visitElType,
+                                              m_connElVe,
+                                              m_varNamesC,
+                                              m_ptrs );
+  if( l_error != 0 ) EDGE_LOG_FATAL << "could not write the wave field: " << i_outFile;
 }
diff --git a/submodules/visit_writer/visit_writer.cpp b/submodules/visit_writer/visit_writer.cpp
index ddc7ee8..e79ebf0 100644
--- a/submodules/visit_writer/visit_writer.cpp
+++ b/submodules/visit_writer/visit_writer.cpp
@@ -152,17 +152,23 @@ static void open_file(const char *filename)
  *
  *  Purpose:
  *      Closes the file with handle "fp" (a global variable).
+ *      Returns 0 if all writes to the file succeeded, -1 otherwise.
  *
  *  Programmer: Hank Childs
  *  Creation:   September 3, 2004
  *
  * ************************************************************************* */
  
-static void close_file(void)
+static int close_file(void)
 {
+    int error;
+
     end_line();
-    fclose(fp);
+    error = ferror(fp);
+    if (fclose(fp) != 0) error = 1;
     fp = NULL;
+
+    return (error == 0) ? 0 : -1;
 }
  
  
@@ -1145,10 +1151,12 @@ void write_unstructured_mesh(const char *filename, int ub, int npts,
 
 /**
  * EDGE version of write_unstructured removing overhead by fixed input.
+ *
+ * @return 0 if the file was written successfully, -1 otherwise.
  **/
-void edge_write_unstructured_mesh( const char *filename, int ub, int npts,
-                                   float *pts, int nvars, int ncells, int celltype, int *conn,
-                                   const char * const *varnames, float **vars)
+int edge_write_unstructured_mesh( const char *filename, int ub, int npts,
+                                  float *pts, int nvars, int ncells, int celltype, int *conn,
+                                  const char * const *varnames, float **vars)
 {
     int   i, j;
     char  str[128];
@@ -1157,6 +1165,7 @@ void edge_write_unstructured_mesh( const char *filename, int ub, int npts,
  
     useBinary = ub;
     open_file(filename);
+    if (fp == NULL) return -1;
     write_header();
  
     write_string("DATASET UNSTRUCTURED_GRID\n");
@@ -1196,7 +1205,7 @@ void edge_write_unstructured_mesh( const char *filename, int ub, int npts,
 
     edge_write_variables(nvars, 1, 0, varnames, vars, npts, ncells);
  
-    close_file();
+    return close_file();
 }
  
  
diff --git a/submodules/visit_writer/visit_writer.h b/submodules/visit_writer/visit_writer.h
index 1974160..9f5be50 100644
--- a/submodules/visit_writer/visit_writer.h
+++ b/submodules/visit_writer/visit_writer.h
@@ -183,10 +183,12 @@ void write_unstructured_mesh(const char *filename, int useBinary, int npts,
 
 /**
  * EDGE version of write_unstructured removing overhead by fixed input.
+ *
+ * @return 0 if the file was written successfully, -1 otherwise.
  **/
-void edge_write_unstructured_mesh( const char *filename, int useBinary, int npts,
-                                   float *pts, int nvars, int ncells, int celltype, int *conn,
-                                   const char * const *varnames, float **vars );
+int edge_write_unstructured_mesh( const char *filename, int useBinary, int npts,
+                                  float *pts, int nvars, int ncells, int celltype, int *conn,
+                                  const char * const *varnames, float **vars );
  
  
  
-- 
2.43.0


From 47bf17511f75aef434b711b9507dafa98ca86add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 09/14] fix: edge_v: initialize the centroid before summing up
 the vertices

---
 tools/edge_v/src/geom/Generic.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/edge_v/src/geom/Generic.cpp b/tools/edge_v/src/geom/Generic.cpp
index cf0fff0..8e0cf11 100644
--- a/tools/edge_v/src/geom/Generic.cpp
+++ b/tools/edge_v/src/geom/Generic.cpp
@@ -29,6 +29,8 @@ void edge_v::geom::Generic::centroid( t_entityType         i_enTy,
                                       double               o_cen[3] ) {
   unsigned short l_nEnVes = CE_N_VES( i_enTy );
 
+  for( unsigned short l_di = 0; l_di < 3; l_di++ ) o_cen[l_di] = 0;
+
   for( unsigned short l_ve = 0; l_ve < l_nEnVes; l_ve++ ) {
     for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
       o_cen[l_di] += i_veCrds[l_ve][l_di];
-- 
2.43.0


From d57661c9639f15a49dd6b0a322769a0d29ff2d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 10/14] fix: edge_v: fail if the time steps or the refinement
 could not be written

---
 tools/edge_v/src/io/Csv.cpp | 5 +++++
 tools/edge_v/src/main.cpp   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/tools/edge_v/src/io/Csv.cpp b/tools/edge_v/src/io/Csv.cpp
index 75752eb..ca6c8b7 100644
--- a/tools/edge_v/src/io/Csv.cpp
+++ b/tools/edge_v/src/io/Csv.cpp
@@ -24,6 +24,7 @@
 
 #include <fstream>
 #include <iomanip> 
+#include "logging.h"
 
 void edge_v::io::Csv::write( std::string    const         & i_csv,
                              unsigned short                 i_nCols,
@@ -59,4 +60,8 @@ void edge_v::io::Csv::write( std::string    const         & i_csv,
       l_csv << "\n";
     }
   }
+
+  // make sure that everything made it to the file
+  l_csv.close();
+  EDGE_V_CHECK( l_csv.good() ) << "failed writing " << i_csv;
 }
\ No newline at end of file
diff --git a/tools/edge_v/src/main.cpp b/tools/edge_v/src/main.cpp
index 4ef81ae..c263baf 100644
--- a/tools/edge_v/src/main.cpp
+++ b/tools/edge_v/src/main.cpp
@@ -242,6 +242,7 @@ int main( int   i_argc,
                                    l_ref.getTargetLengthsVe(),
                                    l_stream );
     l_stream.close();
+    EDGE_V_CHECK( l_stream.good() ) << "failed writing " << l_config.getRefOut();
 
     if( l_config.getWriteElAn() && l_config.getMeshOutBase() != "" ) {
       EDGE_V_LOG_INFO << "storing elements' target lengths";
-- 
2.43.0


From a0077e36015666c8bc0a9b12df46189d95cbc0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 11/14] fix: edge_v: close HDF5 groups and fail if HDF5 objects
 could not be created

---
 tools/edge_v/src/io/Hdf5.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tools/edge_v/src/io/Hdf5.cpp b/tools/edge_v/src/io/Hdf5.cpp
index b8a1e2c..b94df81 100644
--- a/tools/edge_v/src/io/Hdf5.cpp
+++ b/tools/edge_v/src/io/Hdf5.cpp
@@ -47,6 +47,7 @@ edge_v::io::Hdf5::Hdf5( std::string const & i_path,
                           H5P_DEFAULT,
                           H5P_DEFAULT );
   }
+  EDGE_V_CHECK_GE( m_fileId, 0 );
 }
 
 edge_v::io::Hdf5::~Hdf5() {
@@ -84,11 +85,16 @@ edge_v::t_idx edge_v::io::Hdf5::nVas( std::string const & i_name ) const {
 }
 
 void edge_v::io::Hdf5::createGroup( std::string const & i_group ) const {
-  H5Gcreate( m_fileId,
-             i_group.c_str(),
-             H5P_DEFAULT,
-             H5P_DEFAULT,
-             H5P_DEFAULT );
+  hid_t l_group = H5Gcreate( m_fileId,
+                             i_group.c_str(),
+                             H5P_DEFAULT,
+                             H5P_DEFAULT,
+                             H5P_DEFAULT );
+  EDGE_V_CHECK_GE( l_group, 0 );
+
+  // close group, an open one would defer closing the file
+  herr_t l_err = H5Gclose( l_group );
+  EDGE_V_CHECK_GE( l_err, 0 );
 }
 
 bool edge_v::io::Hdf5::exists( std::string const & i_path ) const {
@@ -133,6 +139,7 @@ void edge_v::io::Hdf5::set( std::string const & i_name,
   hid_t l_dspace = H5Screate_simple( 1,
                                      &l_nVas,
                                      NULL );
+  EDGE_V_CHECK_GE( l_dspace, 0 );
 
   // create dataset
   hid_t l_dset = H5Dcreate( m_fileId,
@@ -142,6 +149,7 @@ void edge_v::io::Hdf5::set( std::string const & i_name,
                             H5P_DEFAULT,
                             H5P_DEFAULT,
                             H5P_DEFAULT );
+  EDGE_V_CHECK_GE( l_dset, 0 );
 
   // write data
   herr_t l_err = H5Dwrite( l_dset,
-- 
2.43.0


From be2701db102814cdece047a7b69d71102ec28dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 12/14] fix: edge_v: sample the bathymetry at the centroids for
 centroid-based time steps

---
 tools/edge_v/src/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/edge_v/src/main.cpp b/tools/edge_v/src/main.cpp
index c263baf..f8e5bbd 100644
--- a/tools/edge_v/src/main.cpp
+++ b/tools/edge_v/src/main.cpp
@@ -263,6 +263,10 @@ int main( int   i_argc,
 
   if( l_config.getCenCfl() ) {
     EDGE_V_LOG_INFO << "re-initializing velocity model at elements' centroids";
+    if( l_tsunamiGridBath != nullptr ) {
+      l_tsunamiGridBath->init( l_mesh->nEls(),
+                               l_mesh->getCentroidsEl() );
+    }
     l_velMod->init( l_mesh->nEls(),
                     l_mesh->getCentroidsEl() );
   }
@@ -523,6 +527,10 @@ int main( int   i_argc,
 
   if( l_config.getCenCfl() ) {
     EDGE_V_LOG_INFO << "re-initializing velocity model at elements' centroids";
+    if( l_tsunamiGridBath != nullptr ) {
+      l_tsunamiGridBath->init( l_mesh->nEls(),
+                               l_mesh->getCentroidsEl() );
+    }
     l_velMod->init( l_mesh->nEls(),
                     l_mesh->getCentroidsEl() );
   }
-- 
2.43.0


From 94e28777f8eba0dca99be3a5653756776b979968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:22 +0000
Subject: [PATCH 13/14] fix: edge_v: order reordered single-partition meshes by
 time group

---
 tools/edge_v/src/main.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tools/edge_v/src/main.cpp b/tools/edge_v/src/main.cpp
index f8e5bbd..949532f 100644
--- a/tools/edge_v/src/main.cpp
+++ b/tools/edge_v/src/main.cpp
@@ -23,6 +23,8 @@
  * @section DESCRIPTION
  * Entry point of standalone EDGE-V.
  **/
+#include <algorithm>
+#include <vector>
 #include "io/Config.h"
 #include "io/Csv.h"
 #include "io/Hdf5.h"
@@ -360,7 +362,16 @@ int main( int   i_argc,
   }
 
   EDGE_V_LOG_INFO << "reordering by rank and time group";
-  l_gmsh.reorder( l_part->getElPr() );
+  std::vector< edge_v::t_idx > l_elPr( l_part->getElPr(),
+                                       l_part->getElPr() + l_mesh->nEls() );
+  // a single partition has to be ordered by time group first
+  if( l_config.getReorderOnly() ) {
+    edge_v::t_idx l_nPr = *std::max_element( l_elPr.begin(), l_elPr.end() ) + 1;
+    for( edge_v::t_idx l_el = 0; l_el < l_mesh->nEls(); l_el++ ) {
+      l_elPr[l_el] += l_tsGroups->getElTg()[l_el] * l_nPr;
+    }
+  }
+  l_gmsh.reorder( l_elPr.data() );
 
   // clear partitioning if only a reordering was requested
   if( l_config.getReorderOnly() ) {
-- 
2.43.0


From 9d358780334c76b9c07dccf8e7795fc85a5eb67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 14/14] fix: seismic: use the elastic Lame parameters of
 receive elements in viscoelastic runs

---
 src/impl/seismic/solvers/AderDg.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/impl/seismic/solvers/AderDg.hpp b/src/impl/seismic/solvers/AderDg.hpp
index b91fa2d..92e7001 100644
--- a/src/impl/seismic/solvers/AderDg.hpp
+++ b/src/impl/seismic/solvers/AderDg.hpp
@@ -215,7 +215,7 @@ class edge::seismic::solvers::AderDg {
      * @param i_faChars face characteristics.
      * @param i_elChars elements characteristics.
      * @param io_bgPars background parameters (phase lambda and mu will be replaced with elastic lambda an mu if TL_N_RMS>0).
-     * @param i_bgParsRe background parameters of the receive elements.
+     * @param io_bgParsRe background parameters of the receive elements (lambda and mu will be replaced as for io_bgPars).
      * @param i_freqCen central frequency for attenuation.
      * @param i_freqRat frequency ratio between upper and lower frequencies for attenuation.
      * @param io_dynMem dynamic memory management.
@@ -236,7 +236,7 @@ class edge::seismic::solvers::AderDg {
             t_faceChars    const  * i_faChars,
             t_elementChars const  * i_elChars,
             t_bgPars              * io_bgPars,
-            t_bgPars       const  * i_bgParsRe,
+            t_bgPars              * io_bgParsRe,
             double                  i_freqCen,
             double                  i_freqRat,
             data::Dynamic         & io_dynMem ) {
@@ -280,6 +280,17 @@ class edge::seismic::solvers::AderDg {
                                             i_freqRat,
                                             io_bgPars,
                                             m_srcA );
+
+        // the flux solvers require the elastic Lame parameters of the receive elements as well
+        TL_T_REAL (*l_srcRe)[TL_N_ENS_SRC_A] = new TL_T_REAL[ i_nCommElFa*std::size_t(TL_N_RMS) ][TL_N_ENS_SRC_A];
+        AderDgInit< TL_T_EL,
+                    TL_MATS_SP >::initSrcA( i_nCommElFa,
+                                            TL_N_RMS,
+                                            i_freqCen,
+                                            i_freqRat,
+                                            io_bgParsRe,
+                                            l_srcRe );
+        delete[] l_srcRe;
       }
 
       // init star matrices
@@ -306,7 +317,7 @@ class edge::seismic::solvers::AderDg {
                                         i_faChars,
                                         i_elChars,
                                         io_bgPars,
-                                        i_bgParsRe,
+                                        io_bgParsRe,
                                         m_fsE,
                                         m_fsA );
     }
-- 
2.43.0

