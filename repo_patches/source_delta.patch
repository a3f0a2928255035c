From 5fd8f24006728ab725e583a0fa806c66c05a03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:30 +0000
Subject: [PATCH 01/73] hooks: compile-time limits for a deterministic
 simulation (EXSEISDAT_SIMULATION, off by default)

---
 include/ExSeisDat/utils/simulation.hh | 29 +++++++++++++++++++++++++++
 src/DataMPIIO.cc                      |  4 +++-
 src/Flow/Set.cc                       |  4 +++-
 util/4dio.cc                          |  8 +++++---
 util/makerep.cc                       |  9 +++++----
 5 files changed, 45 insertions(+), 9 deletions(-)
 create mode 100644 include/ExSeisDat/utils/simulation.hh

diff --git a/include/ExSeisDat/utils/simulation.hh b/include/ExSeisDat/utils/simulation.hh
new file mode 100644
index 0000000..8fe49c1
--- /dev/null
+++ b/include/ExSeisDat/utils/simulation.hh
@@ -0,0 +1,29 @@
+////////////////////////////////////////////////////////////////////////////////
+/// @file
+/// @brief Compile-time hook used by a deterministic simulation of ExSeisDat.
+/// @details With EXSEISDAT_SIMULATION undefined (the default) the macro below
+///          is exactly its second argument.
+////////////////////////////////////////////////////////////////////////////////
+#ifndef EXSEISDAT_UTILS_SIMULATION_HH
+#define EXSEISDAT_UTILS_SIMULATION_HH
+
+#ifdef EXSEISDAT_SIMULATION
+
+#include <cstddef>
+
+/// @brief Supplied by the simulator: the limit to use in place of @p value.
+/// @param[in] name  The name of the limit
+/// @param[in] value The limit used outside of simulation
+extern "C" std::size_t exseisdat_simulation_limit(
+  const char* name, std::size_t value);
+
+#define EXSEISDAT_SIM_LIMIT(name, value)                                       \
+    (exseisdat_simulation_limit((name), (value)))
+
+#else
+
+#define EXSEISDAT_SIM_LIMIT(name, value) (value)
+
+#endif  // EXSEISDAT_SIMULATION
+
+#endif  // EXSEISDAT_UTILS_SIMULATION_HH
diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 1730e95..09c1bab 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -9,6 +9,7 @@
 #include "ExSeisDat/utils/mpi/MPI_error_to_string.hh"
 #include "ExSeisDat/utils/mpi/MPI_max_array_length.hh"
 #include "ExSeisDat/utils/mpi/MPI_type.hh"
+#include "ExSeisDat/utils/simulation.hh"
 
 #include <algorithm>
 #include <assert.h>
@@ -204,7 +205,8 @@ DataMPIIO::Opt::Opt(void)
 
     //    // ROMIO has this on by default. Annoying.
     //    MPI_Info_set(info, "panfs_concurrent_write", "false");
-    maxSize = exseis::utils::MPI_max_array_length<int32_t>();
+    maxSize = EXSEISDAT_SIM_LIMIT(
+      "mpiio", exseis::utils::MPI_max_array_length<int32_t>());
 }
 
 DataMPIIO::Opt::~Opt(void)
diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 3681fb3..84734fd 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -9,6 +9,7 @@
 #include "ExSeisDat/PIOL/operations/gather.hh"
 #include "ExSeisDat/PIOL/param_utils.hh"
 #include "ExSeisDat/utils/signal_processing/AGC.h"
+#include "ExSeisDat/utils/simulation.hh"
 
 #include <glob.h>
 #include <numeric>
@@ -200,7 +201,8 @@ std::vector<std::string> Set::startSingle(
         out->writeInc(inc);
         out->writeText(outmsg);
 
-        const size_t memlim = 1024LU * 1024LU * 1024LU;
+        const size_t memlim =
+          EXSEISDAT_SIM_LIMIT("flow", 1024LU * 1024LU * 1024LU);
         size_t max =
           memlim
           / (5LU * sizeof(size_t) + SEGY_utils::getDOSz(ns)
diff --git a/util/4dio.cc b/util/4dio.cc
index 75e4610..06c1331 100644
--- a/util/4dio.cc
+++ b/util/4dio.cc
@@ -15,6 +15,7 @@
 #include "ExSeisDat/PIOL/WriteDirect.hh"
 #include "ExSeisDat/PIOL/param_utils.hh"
 #include "ExSeisDat/PIOL/segy_utils.hh"
+#include "ExSeisDat/utils/simulation.hh"
 
 #include "ExSeisDat/PIOL/operations/sort.hh"
 
@@ -53,8 +54,9 @@ std::unique_ptr<Coords> getCoords(
      * the trace parameters in batches because of this memory limit.
      */
     size_t biggest = piol->comm->max(lnt);
-    size_t memlim  = 2LU * 1024LU * 1024LU * 1024LU
-                    - 4LU * biggest * sizeof(exseis::utils::Floating_point);
+    size_t memlim  = EXSEISDAT_SIM_LIMIT(
+      "4d", 2LU * 1024LU * 1024LU * 1024LU
+              - 4LU * biggest * sizeof(exseis::utils::Floating_point));
     size_t max = memlim / (rule->paramMem() + SEGY_utils::getMDSz());
 
     // Collective I/O requries an equal number of MPI-IO calls on every process
@@ -213,7 +215,7 @@ void outputNonMono(
         }
     }
 
-    size_t memlim = 1024LU * 1024LU * 1024LU;
+    size_t memlim = EXSEISDAT_SIM_LIMIT("4d", 1024LU * 1024LU * 1024LU);
     size_t max =
       memlim / (4LU * SEGY_utils::getDOSz(ns) + 4LU * rule->extent());
     size_t extra = biggest / max + (biggest % max > 0 ? 1 : 0)
diff --git a/util/makerep.cc b/util/makerep.cc
index ec43e22..2ac9c5f 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -4,6 +4,7 @@
 #include "ExSeisDat/PIOL/ExSeis.hh"
 #include "ExSeisDat/PIOL/segy_utils.hh"
 #include "ExSeisDat/utils/mpi/MPI_type.hh"
+#include "ExSeisDat/utils/simulation.hh"
 
 #include <assert.h>
 #include <iostream>
@@ -177,9 +178,9 @@ void mpiMakeSEGYCopy(
     const size_t fsz = in->getFileSz();
     piol.isErr();
 
-    const size_t bsz  = 2097152LU;
+    const size_t bsz  = EXSEISDAT_SIM_LIMIT("makerep", 2097152LU);
     const size_t hosz = SEGY_utils::getHOSz();
-    size_t memlim     = 512U * bsz;
+    size_t memlim = EXSEISDAT_SIM_LIMIT("makerep_blocks", 512U) * bsz;
     size_t step       = numRank * memlim;
 
     for (size_t i = 0; i < fsz; i += step) {
@@ -220,9 +221,9 @@ void mpiMakeSEGYCopyNaive(
 {
     size_t numRank    = piol.getNumRank();
     const size_t fsz  = in->getFileSz();
-    const size_t bsz  = 2097152LU;
+    const size_t bsz  = EXSEISDAT_SIM_LIMIT("makerep", 2097152LU);
     const size_t hosz = SEGY_utils::getHOSz();
-    size_t memlim     = 512U * bsz;
+    size_t memlim = EXSEISDAT_SIM_LIMIT("makerep_blocks", 512U) * bsz;
     size_t step       = numRank * memlim;
 
     for (size_t i = 0; i < fsz; i += step) {
-- 
2.43.0


From adf5ec5bca6052101e220e11446bb801c51003bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 02/73] fix: list and strided file access report every failure
 and keep taking part in collective calls

---
 src/DataMPIIO.cc | 75 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 09c1bab..5690a26 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -155,24 +155,31 @@ int iol(
   MPI_Status* stat)
 {
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype type;
-    int err = randBlockView(file, info, chunk, bsz, offset, &type);
-    if (err != MPI_SUCCESS) {
-        return err;
-    }
+    MPI_Datatype type  = MPI_DATATYPE_NULL;
+    const int view_err = randBlockView(file, info, chunk, bsz, offset, &type);
 
-    fn(file, 0, d, chunk * bsz, MPI_CHAR, stat);
-    if (err != MPI_SUCCESS) {
-        return err;
-    }
+    // The I/O and the view reset are collective: they are performed even after
+    // a local failure, so the other processes are never left waiting. Nothing
+    // is transferred if the view is not the requested one.
+    const int io_err = fn(
+      file, 0, d, (view_err == MPI_SUCCESS ? chunk * bsz : 0), MPI_CHAR, stat);
 
     // Reset the view.
-    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    if (err != MPI_SUCCESS) {
-        return err;
+    const int reset_err =
+      MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+
+    int free_err = MPI_SUCCESS;
+    if (type != MPI_DATATYPE_NULL) {
+        free_err = MPI_Type_free(&type);
     }
 
-    return MPI_Type_free(&type);
+    // Return the first error.
+    for (int err : {view_err, io_err, reset_err}) {
+        if (err != MPI_SUCCESS) {
+            return err;
+        }
+    }
+    return free_err;
 }
 
 /////////////////////////////    Class functions    ////////////////////////////
@@ -399,7 +406,7 @@ void DataMPIIO::readv(
     }
 
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype view;
+    MPI_Datatype view = MPI_DATATYPE_NULL;
     int err = strideView(file, info, offset, bsz, osz, nb, &view);
     if (err != MPI_SUCCESS) {
         log_->record(
@@ -409,11 +416,22 @@ void DataMPIIO::readv(
           PIOL_VERBOSITY_NONE);
     }
 
-    read(0LU, nb * bsz, d);
+    // Nothing is transferred if the view is not the requested one.
+    read(0LU, (err == MPI_SUCCESS ? nb * bsz : 0LU), d);
 
     // Reset the view.
-    MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    MPI_Type_free(&view);
+    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err != MPI_SUCCESS) {
+        log_->record(
+          name_, Logger::Layer::Data, Logger::Status::Error,
+          "Failed to reset the view: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
+
+    if (view != MPI_DATATYPE_NULL) {
+        MPI_Type_free(&view);
+    }
 }
 
 void DataMPIIO::read(
@@ -509,14 +527,12 @@ void DataMPIIO::listIO(
           fn, file, info, bsz, chunk,
           reinterpret_cast<const MPI_Aint*>(&offset[i]), &d[i * bsz], &stat);
 
-        // Log and break on failure
+        // Log the failure but keep taking part in the collective calls
         if (err != MPI_SUCCESS) {
             log_->record(
               name_, Logger::Layer::Data, Logger::Status::Error,
               msg + exseis::utils::MPI_error_to_string(err, &stat),
               PIOL_VERBOSITY_NONE);
-
-            break;
         }
     }
 
@@ -567,7 +583,7 @@ void DataMPIIO::writev(
     }
 
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype view;
+    MPI_Datatype view = MPI_DATATYPE_NULL;
     int err = strideView(file, info, offset, bsz, osz, nb, &view);
 
     if (err != MPI_SUCCESS) {
@@ -578,11 +594,22 @@ void DataMPIIO::writev(
           PIOL_VERBOSITY_NONE);
     }
 
-    write(0LU, nb * bsz, d);
+    // Nothing is transferred if the view is not the requested one.
+    write(0LU, (err == MPI_SUCCESS ? nb * bsz : 0LU), d);
 
     // Reset the view.
-    MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    MPI_Type_free(&view);
+    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err != MPI_SUCCESS) {
+        log_->record(
+          name_, Logger::Layer::Data, Logger::Status::Error,
+          "Failed to reset the view: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
+
+    if (view != MPI_DATATYPE_NULL) {
+        MPI_Type_free(&view);
+    }
 }
 
 void DataMPIIO::write(size_t offset, size_t sz, const unsigned char* d) const
-- 
2.43.0


From a1e166a40a02ac817bd04bf688a17af20df8cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 03/73] fix: an explicit number of traces resizes the file on
 every process

---
 src/WriteSEGY.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 4852eb7..d049fa3 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -163,10 +163,9 @@ void WriteSEGY::writeNs(const size_t ns_)
 
 void WriteSEGY::writeNt(const size_t nt_)
 {
-    if (nt != nt_) {
-        nt           = nt_;
-        state.resize = true;
-    }
+    // The resize is collective, but nt may only be stale on some processes.
+    nt            = nt_;
+    state.resize  = true;
     state.stalent = false;
 }
 
-- 
2.43.0


From a8ddc0d87ccea9dcba9a81d5215a31e143801a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 04/73] fix: closing a written file after an error on one
 process no longer hangs the others

---
 src/WriteSEGY.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index d049fa3..3556132 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -52,8 +52,10 @@ WriteSEGY::WriteSEGY(
 
 WriteSEGY::~WriteSEGY(void)
 {
-    // TODO: On error this can be a source of a deadlock
-    if (!piol->log->isErr()) {
+    // The calls below are collective: the processes agree on whether to make
+    // them, as a process which met an error alone would leave the others
+    // waiting.
+    if (piol->comm->max(piol->log->isErr() ? 1LU : 0LU) == 0LU) {
         calcNt();
 
         if (state.resize) {
-- 
2.43.0


From 4d3bbefdc7957b823566a2b7ce4f160cc74c886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 05/73] fix: a contiguous read starting past the last trace
 reads nothing

---
 src/ReadSEGY.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 4a76b1d..08a1c69 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -216,7 +216,8 @@ void ReadSEGY::readTrace(
   Param* prm,
   const size_t skip) const
 {
-    size_t ntz = ((sz == 0) ? sz : (offset + sz > nt ? nt - offset : sz));
+    // Only the traces which exist are read.
+    const size_t ntz = (offset >= nt ? 0LU : std::min(sz, nt - offset));
     if (offset >= nt && sz != 0) {
         // Nothing to be read.
         piol->log->record(
-- 
2.43.0


From c20343e6ea6abbd34bc93c56be9fde123e321b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 06/73] fix: unordered reads accept an empty list and no
 parameter structure

---
 src/ReadSEGY.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 08a1c69..778302d 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -251,14 +251,14 @@ void ReadSEGY::readTraceNonMonotonic(
     // Sort the initial offset and make a new offset without duplicates
     auto idx = getSortIndex(sz, offset);
     std::vector<size_t> nodups;
-    nodups.push_back(offset[idx[0]]);
-    for (size_t j = 1; j < sz; j++) {
-        if (offset[idx[j - 1]] != offset[idx[j]]) {
+    for (size_t j = 0; j < sz; j++) {
+        if (j == 0 || offset[idx[j - 1]] != offset[idx[j]]) {
             nodups.push_back(offset[idx[j]]);
         }
     }
 
-    Param sprm(prm->r, (prm != PIOL_PARAM_NULL ? nodups.size() : 0LU));
+    Param sprm =
+      (prm != PIOL_PARAM_NULL ? Param(prm->r, nodups.size()) : Param(0LU));
     std::vector<exseis::utils::Trace_value> strc(
       ns * (trc != TRACE_NULL ? nodups.size() : 0LU));
 
-- 
2.43.0


From e418f3c2da63a00b3ac58746823a644d030c388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 07/73] fix: IBM samples are converted from the bytes of the
 file

---
 src/ReadSEGY.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 778302d..1af8069 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -185,10 +185,9 @@ void readTraceT(
         // Convert trace values from SEGY floating point format to host format
         if (number_format == SEGYNumberFormat::IBM) {
             for (size_t i = 0; i < ns * sz; i++) {
-                const exseis::utils::Floating_point be_trc_i = trc[i];
-
+                // The bytes as they are stored in the file.
                 const unsigned char* be_trc_i_bytes =
-                  reinterpret_cast<const unsigned char*>(&be_trc_i);
+                  &tbuf[i * sizeof(exseis::utils::Trace_value)];
 
                 std::array<unsigned char, 4> be_bytes_array = {
                   {be_trc_i_bytes[0], be_trc_i_bytes[1], be_trc_i_bytes[2],
-- 
2.43.0


From 21fb722c4cde791d7a0ab514478ee1b596a9b7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 08/73] fix: opening a file for reading does not hang if one
 process cannot get its size

---
 src/ReadSEGY.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 1af8069..e2903a1 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -42,7 +42,10 @@ ReadSEGY::ReadSEGY(
     using namespace SEGY_utils;
 
     size_t hoSz = SEGY_utils::getHOSz();
-    size_t fsz  = obj->getFileSz();
+
+    // All processes take the same decision, as reading the header is
+    // collective, even if one of them could not get the file size.
+    const size_t fsz = piol->comm->max(obj->getFileSz());
 
     // Read the global header data, if there is any.
     if (fsz >= hoSz) {
-- 
2.43.0


From fb0740e41c28e5e07a02cd08985462be1f476cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 09/73] fix: CommunicatorMPI::offset uses the communicator of
 the object

---
 src/CommunicatorMPI.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/CommunicatorMPI.cc b/src/CommunicatorMPI.cc
index 6427fd7..0be63b6 100644
--- a/src/CommunicatorMPI.cc
+++ b/src/CommunicatorMPI.cc
@@ -226,8 +226,7 @@ size_t CommunicatorMPI::offset(size_t val)
 {
     size_t offset = 0LU;
     MPI_Exscan(
-      &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM,
-      MPI_COMM_WORLD);
+      &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM, comm);
     return (rank == 0 ? 0LU : offset);
 }
 
-- 
2.43.0


From 49c90457c85278c454de0ce455f66ea59189c422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 10/73] fix: files are opened by default on the communicator of
 the ExSeisPIOL object

---
 src/DataMPIIO.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 5690a26..b78d9c8 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -259,7 +259,8 @@ DataMPIIO::DataMPIIO(
   std::shared_ptr<ExSeisPIOL> piol, std::string name, FileMode mode) :
     PIOL::DataInterface(piol, name)
 {
-    const DataMPIIO::Opt opt;
+    DataMPIIO::Opt opt;
+    opt.fcomm = piol->comm->getComm();
     Init(opt, mode);
 }
 
-- 
2.43.0


From 3578f9f6084a4427fbd6e6b4eaa47469c0489b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 11/73] fix: an IBM zero converts to zero

---
 src/utils/encoding/number_encoding.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index 0eaee29..1cd29eb 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -169,6 +169,11 @@ float to_float(Float_components components)
     int32_t exp   = components.exponent;
     uint32_t frac = components.significand;
 
+    // Zero has no leading 1 to drop, so it needs a zero exponent too.
+    if (frac == 0) {
+        exp = -126;
+    }
+
 
     // An IEEE number is of the form
     // SCCC CCCC CQQQ QQQQ QQQQ QQQQ QQQQ QQQQ
-- 
2.43.0


From 5978972c83e83d7560df801d81f47d57092fffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 12/73] fix: a negative number of samples in a file header is
 an error, not a huge size

---
 src/ReadSEGY.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index e2903a1..0657552 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -56,10 +56,19 @@ ReadSEGY::ReadSEGY(
 
         // Parse the number of samples, traces, the increment and the format
         // from header_buffer.
-        ns = from_big_endian<int16_t>(
+        const auto header_ns = from_big_endian<int16_t>(
           header_buffer[SEGYFileHeaderByte::NumSample + 0],
           header_buffer[SEGYFileHeaderByte::NumSample + 1]);
 
+        // A header which could not be read can contain anything.
+        if (header_ns < 0) {
+            piol->log->record(
+              name, Logger::Layer::File, Logger::Status::Error,
+              "The number of samples per trace in the file header is negative.",
+              PIOL_VERBOSITY_NONE);
+        }
+        ns = std::max<int16_t>(header_ns, 0);
+
         nt = SEGY_utils::getNt(fsz, ns);
 
         inc = incFactor
-- 
2.43.0


From a36d7dd603c818c3a2fc095d0638785caf648985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 13/73] fix: a process which cannot read the file header makes
 the same collective calls as the others

---
 src/ReadSEGY.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 0657552..ae0df42 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -67,7 +67,10 @@ ReadSEGY::ReadSEGY(
               "The number of samples per trace in the file header is negative.",
               PIOL_VERBOSITY_NONE);
         }
-        ns = std::max<int16_t>(header_ns, 0);
+
+        // The calls made to access traces depend on ns: a process which could
+        // not read the header follows the others.
+        ns = piol->comm->max(std::max<int16_t>(header_ns, 0));
 
         nt = SEGY_utils::getNt(fsz, ns);
 
-- 
2.43.0


From b7ee5c712d24178855441711c62b3ecdc73b1ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 14/73] fix: the sort uses the communicator of the ExSeisPIOL
 object

---
 src/sort.cc | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index c9a3a02..13cdb9b 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -485,7 +485,7 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     // TODO: Move to the communication layer?
     if (rank) {
         int err = MPI_Irecv(
-          dat.data(), cnt, MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rrcv[0]);
+          dat.data(), cnt, MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -499,7 +499,7 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     if (rank != piol->comm->getNumRank() - 1) {
         int err = MPI_Isend(
           &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rsnd[0]);
+          piol->comm->getComm(), &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -532,7 +532,7 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
 
     if (rank) {
         int err = MPI_Isend(
-          dat.data(), cnt, MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rsnd[0]);
+          dat.data(), cnt, MPI_CHAR, rank - 1, 0, piol->comm->getComm(), &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -546,7 +546,7 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     if (rank != piol->comm->getNumRank() - 1) {
         int err = MPI_Irecv(
           &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rrcv[0]);
+          piol->comm->getComm(), &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -627,7 +627,7 @@ void sort(
         int greduced = 1;
 
         int err = MPI_Allreduce(
-          &reduced, &greduced, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -730,19 +730,19 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Irecv, "Sort right exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, rank - 1, 0, piol->comm->getComm(), &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort right exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, rank - 1, 0, piol->comm->getComm(), &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort right short MPI_Irecv")(
           rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 0,
-          MPI_COMM_WORLD, &rrcv[2]);
+          piol->comm->getComm(), &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort right size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 0,
-          MPI_COMM_WORLD, &rrcv[3]);
+          piol->comm->getComm(), &rrcv[3]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
@@ -755,19 +755,19 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Isend, "Sort right exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, rank + 1, 0, piol->comm->getComm(), &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort right exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, rank + 1, 0, piol->comm->getComm(), &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort right short MPI_Isend")(
           sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rsnd[2]);
+          piol->comm->getComm(), &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort right size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rsnd[3]);
+          piol->comm->getComm(), &rsnd[3]);
     }
 
     Wait(piol, rsnd, rrcv);
@@ -818,38 +818,38 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Isend, "Sort left exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort left exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort left short MPI_Isend")(
           sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 1,
-          MPI_COMM_WORLD, &rsnd[2]);
+          piol->comm->getComm(), &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort left size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 1,
-          MPI_COMM_WORLD, &rsnd[3]);
+          piol->comm->getComm(), &rsnd[3]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
         log_on_error(
           MPI_Irecv, "Sort left exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, rank + 1, 1, piol->comm->getComm(), &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort left exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, rank + 1, 1, piol->comm->getComm(), &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort left short MPI_Irecv")(
           rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rrcv[2]);
+          piol->comm->getComm(), &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort left size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rrcv[3]);
+          piol->comm->getComm(), &rrcv[3]);
     }
 
     Wait(piol, rrcv, rsnd);
@@ -946,7 +946,7 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         int greduced = 1;
 
         int err = MPI_Allreduce(
-          &reduced, &greduced, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
-- 
2.43.0


From 6a0e9515cb4a02649e14409d14b9ad3ffe83f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 15/73] fix: the trace sort ends when traces compare equal

---
 src/sort.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index 13cdb9b..46a5646 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -876,7 +876,7 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
 
     std::vector<size_t> t1(lnt);
     std::iota(t1.begin(), t1.end(), 0LU);
-    std::sort(t1.begin(), t1.end(), [prm, comp](size_t& a, size_t& b) -> bool {
+    std::stable_sort(t1.begin(), t1.end(), [prm, comp](const size_t& a, const size_t& b) -> bool {
         return comp(prm, a, b);
     });
 
@@ -896,9 +896,9 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         {
             std::vector<size_t> t1(temp1.size() - edge1);
             std::iota(t1.begin(), t1.end(), edge1);
-            std::sort(
+            std::stable_sort(
               t1.begin(), t1.end(),
-              [&temp1, comp](size_t& a, size_t& b) -> bool {
+              [&temp1, comp](const size_t& a, const size_t& b) -> bool {
                   return comp(&temp1, a, b);
               });
 
@@ -916,9 +916,9 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         {
             std::vector<size_t> t1(temp1.size() - edge2);
             std::iota(t1.begin(), t1.end(), 0);
-            std::sort(
+            std::stable_sort(
               t1.begin(), t1.end(),
-              [&temp1, comp](size_t& a, size_t& b) -> bool {
+              [&temp1, comp](const size_t& a, const size_t& b) -> bool {
                   return comp(&temp1, a, b);
               });
 
-- 
2.43.0


From 2017cf20a44f59710cf7af8fd61cccb5e3063805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 16/73] fix: the trace sort moves the header copies along with
 the other parameters

---
 src/sort.cc | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index 46a5646..5fdd985 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -706,8 +706,8 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
     Param rprm(prm->r, regionSz);
 
     size_t rank = piol->comm->getRank();
-    std::vector<MPI_Request> rsnd(4);
-    std::vector<MPI_Request> rrcv(4);
+    std::vector<MPI_Request> rsnd(5);
+    std::vector<MPI_Request> rrcv(5);
 
     // Lambda for wrapping an MPI call with logging.
     auto log_on_error = [&piol](auto mpi_function, std::string function_name) {
@@ -743,6 +743,10 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Irecv, "Sort right size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 0,
           piol->comm->getComm(), &rrcv[3]);
+
+        log_on_error(MPI_Irecv, "Sort right copy MPI_Irecv")(
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank - 1, 0,
+          piol->comm->getComm(), &rrcv[4]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
@@ -768,6 +772,10 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Isend, "Sort right size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 0,
           piol->comm->getComm(), &rsnd[3]);
+
+        log_on_error(MPI_Isend, "Sort right copy MPI_Isend")(
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank + 1, 0,
+          piol->comm->getComm(), &rsnd[4]);
     }
 
     Wait(piol, rsnd, rrcv);
@@ -792,8 +800,8 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
     Param rprm(prm->r, regionSz);
 
     size_t rank = piol->comm->getRank();
-    std::vector<MPI_Request> rsnd(4);
-    std::vector<MPI_Request> rrcv(4);
+    std::vector<MPI_Request> rsnd(5);
+    std::vector<MPI_Request> rrcv(5);
 
     // Lambda for wrapping an MPI call with logging.
     auto log_on_error = [&piol](auto mpi_function, std::string function_name) {
@@ -831,6 +839,10 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Isend, "Sort left size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 1,
           piol->comm->getComm(), &rsnd[3]);
+
+        log_on_error(MPI_Isend, "Sort left copy MPI_Isend")(
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank - 1, 1,
+          piol->comm->getComm(), &rsnd[4]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
@@ -850,6 +862,10 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(MPI_Irecv, "Sort left size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 1,
           piol->comm->getComm(), &rrcv[3]);
+
+        log_on_error(MPI_Irecv, "Sort left copy MPI_Irecv")(
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank + 1, 1,
+          piol->comm->getComm(), &rrcv[4]);
     }
 
     Wait(piol, rrcv, rsnd);
-- 
2.43.0


From 72eada50115b1988ad38345708bb30f22c73a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 17/73] fix: the sort handles processes with fewer than four
 traces

---
 src/sort.cc | 81 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 78 insertions(+), 3 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index 5fdd985..4360ee6 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -560,6 +560,50 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     Wait(piol, rrcv, rsnd);
 }
 
+/*! Get the number of entries shared by neighbouring processes in a sort.
+ *  @param[in] min_lnt The smallest number of local entries of any process.
+ *  @return Return the number of entries, or zero if the processes with too few
+ *          entries rule out the nearest neighbour approach.
+ */
+static size_t getRegionSz(const size_t min_lnt)
+{
+    // A process must keep an entry to compare with those of its neighbour.
+    return (min_lnt < 2LU ? 0LU : std::max<size_t>(min_lnt / 4LU, 1LU));
+}
+
+/*! Gather lists with different lengths on every process.
+ *  @tparam T Type of the entries
+ *  @param[in] piol The PIOL object.
+ *  @param[in] list The local list
+ *  @return Return the lists of all processes, in rank order
+ */
+template<class T>
+static std::vector<T> gatherLists(ExSeisPIOL* piol, const std::vector<T>& list)
+{
+    const auto sizes =
+      piol->comm->gather<size_t>(list.size() * sizeof(T));
+
+    const std::vector<int> counts(sizes.begin(), sizes.end());
+    std::vector<int> offsets(counts.size(), 0);
+    std::partial_sum(counts.begin(), counts.end() - 1, offsets.begin() + 1);
+
+    std::vector<T> all((offsets.back() + counts.back()) / sizeof(T));
+
+    int err = MPI_Allgatherv(
+      list.data(), list.size() * sizeof(T), MPI_CHAR, all.data(), counts.data(),
+      offsets.data(), MPI_CHAR, piol->comm->getComm());
+
+    if (err != MPI_SUCCESS) {
+        piol->log->record(
+          "", Logger::Layer::Ops, Logger::Status::Error,
+          "Sort MPI_Allgatherv error: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
+
+    return all;
+}
+
 /*! Function to sort a given vector by a nearest neighbour approach.
  *  @tparam T Type of vector
  *  @param[in] piol The PIOL object.
@@ -655,7 +699,7 @@ void sort(
 std::vector<size_t> sort(ExSeisPIOL* piol, std::vector<size_t> list)
 {
     const size_t lnt      = list.size();
-    const size_t regionSz = piol->comm->min(lnt) / 4LU;
+    const size_t regionSz = getRegionSz(piol->comm->min(lnt));
     const size_t edge2 =
       (piol->comm->getRank() != piol->comm->getNumRank() - 1 ? regionSz : 0LU);
     const size_t offset = piol->comm->offset(lnt);
@@ -666,7 +710,13 @@ std::vector<size_t> sort(ExSeisPIOL* piol, std::vector<size_t> list)
         plist[i].second = offset + i;
     }
 
-    {
+    if (regionSz == 0LU) {
+        // Too few entries on a process: sort the whole list on every process.
+        auto all = gatherLists(piol, plist);
+        std::sort(all.begin(), all.end());
+        std::copy_n(all.begin() + offset, lnt, plist.begin());
+    }
+    else {
         std::vector<std::pair<size_t, size_t>> temp1(lnt + edge2);
 
 // Work-around for bug in the intel compiler (intel/2016-u3) on Fionn with
@@ -886,10 +936,35 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
     size_t lnt      = prm->size();
     size_t numRank  = piol->comm->getNumRank();
     size_t rank     = piol->comm->getRank();
-    size_t regionSz = piol->comm->min(lnt) / 4LU;
+    size_t regionSz = getRegionSz(piol->comm->min(lnt));
     size_t edge1    = (rank != 0 ? regionSz : 0LU);
     size_t edge2    = (rank != numRank - 1 ? regionSz : 0LU);
 
+    if (regionSz == 0LU) {
+        // Too few traces on a process: sort all of them on every process.
+        const size_t offset = piol->comm->offset(lnt);
+
+        Param all(prm->r, piol->comm->sum(lnt));
+        all.f = gatherLists(piol, prm->f);
+        all.i = gatherLists(piol, prm->i);
+        all.s = gatherLists(piol, prm->s);
+        all.t = gatherLists(piol, prm->t);
+        all.c = gatherLists(piol, prm->c);
+
+        std::vector<size_t> order(all.size());
+        std::iota(order.begin(), order.end(), 0LU);
+        std::stable_sort(
+          order.begin(), order.end(),
+          [&all, comp](const size_t& a, const size_t& b) -> bool {
+              return comp(&all, a, b);
+          });
+
+        for (size_t i = 0; i < lnt; i++) {
+            param_utils::cpyPrm(order[offset + i], &all, i, prm);
+        }
+        return;
+    }
+
     std::vector<size_t> t1(lnt);
     std::iota(t1.begin(), t1.end(), 0LU);
     std::stable_sort(t1.begin(), t1.end(), [prm, comp](const size_t& a, const size_t& b) -> bool {
-- 
2.43.0


From 14a0c67db40c2cfb8ce95ead5c1ce32d62eeae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 18/73] fix: the gather search handles gathers and processes of
 any size

---
 src/gather.cc | 67 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/gather.cc b/src/gather.cc
index 291a75c..5841818 100644
--- a/src/gather.cc
+++ b/src/gather.cc
@@ -31,49 +31,57 @@ static utils::Distributed_vector<Gather_info> getGathers(
     size_t numRank = piol->comm->getNumRank();
     std::vector<Gather_info> lline;
 
-    exseis::utils::Integer ill =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_il, prm);
-    exseis::utils::Integer xll =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_xl, prm);
-    lline.push_back({1LU, ill, xll});
-
-    for (size_t i = 1; i < prm->size(); i++) {
+    for (size_t i = 0; i < prm->size(); i++) {
         exseis::utils::Integer il =
           param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, prm);
         exseis::utils::Integer xl =
           param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_xl, prm);
 
-        if (il != ill || xl != xll) {
+        if (
+          lline.empty() || il != lline.back().inline_
+          || xl != lline.back().crossline) {
             lline.push_back({0LU, il, xl});
-            ill = il;
-            xll = xl;
         }
         lline.back().num_traces += 1;
     }
 
-    auto trcnum = piol->comm->gather<size_t>(lline.front().num_traces);
-    auto ilb    = piol->comm->gather<size_t>(lline.back().inline_);
-    auto xlb    = piol->comm->gather<size_t>(lline.back().crossline);
-    auto ilf    = piol->comm->gather<size_t>(lline.front().inline_);
-    auto xlf    = piol->comm->gather<size_t>(lline.front().crossline);
+    // The number of traces of each process and its first and last gather.
+    const Gather_info none = {0LU, 0, 0};
+    const auto front       = (lline.empty() ? none : lline.front());
+    const auto back        = (lline.empty() ? none : lline.back());
 
-    size_t start = 0;
-    if (
-      rank != 0 && ilb[rank - 1LU] == ilf[rank]
-      && xlb[rank - 1LU] == xlf[rank]) {
+    auto nums   = piol->comm->gather<size_t>(prm->size());
+    auto trcnum = piol->comm->gather<size_t>(front.num_traces);
+    auto ilb    = piol->comm->gather<size_t>(back.inline_);
+    auto xlb    = piol->comm->gather<size_t>(back.crossline);
+    auto ilf    = piol->comm->gather<size_t>(front.inline_);
+    auto xlf    = piol->comm->gather<size_t>(front.crossline);
 
-        start = 1;
+    // The first gather belongs to a lower rank if it continues the last gather
+    // of the closest lower rank with traces.
+    size_t start = 0;
+    for (size_t i = rank; i-- > 0 && !lline.empty();) {
+        if (nums[i] != 0) {
+            if (ilb[i] == ilf[rank] && xlb[i] == xlf[rank]) {
+                start = 1;
+            }
+            break;
+        }
     }
 
+    // The last gather includes the traces which continue it on higher ranks.
     if (start < lline.size()) {
-        if (ilf[rank + 1LU] == ilb[rank] && xlf[rank + 1LU] == xlb[rank]) {
-            for (size_t i = rank + 1LU; i < numRank; i++) {
-                if (ilb[rank] == ilf[i] && xlb[rank] == xlf[i]) {
-                    lline.back().num_traces += trcnum[i];
-                }
-                else {
-                    break;
-                }
+        for (size_t i = rank + 1LU; i < numRank; i++) {
+            if (nums[i] == 0) {
+                continue;
+            }
+            if (ilb[rank] != ilf[i] || xlb[rank] != xlf[i]) {
+                break;
+            }
+            lline.back().num_traces += trcnum[i];
+
+            if (trcnum[i] != nums[i]) {
+                break;
             }
         }
     }
@@ -88,6 +96,9 @@ static utils::Distributed_vector<Gather_info> getGathers(
         line.set(i + offset, lline[i + start]);
     }
 
+    // The list is complete once every process has stored its part.
+    piol->comm->barrier();
+
     return std::move(line);
 }
 
-- 
2.43.0


From 901579a1441bc98d5b0556a8130bc7e9a5249c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:36 +0000
Subject: [PATCH 19/73] fix: the distributed vector allocates, bounds and locks
 its elements correctly

---
 .../utils/mpi/MPI_Distributed_vector.hh       | 43 ++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index f9b88c3..b6725c2 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -88,7 +88,9 @@ MPI_Distributed_vector<T>::Model::Model(MPI_Aint global_size, MPI_Comm comm) :
       block_decomposition(global_size, num_ranks, rank);
     const size_t local_size = decomposition.local_size;
 
-    MPI_Win_allocate(local_size, sizeof(T), MPI_INFO_NULL, comm, &data, &win);
+    // Displacements are in units of T.
+    MPI_Win_allocate(
+      local_size * sizeof(T), sizeof(T), MPI_INFO_NULL, comm, &data, &win);
 }
 
 template<typename T>
@@ -101,7 +103,7 @@ MPI_Distributed_vector<T>::Model::~Model()
 template<typename T>
 void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return;
     }
 
@@ -114,28 +116,28 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
     const auto location =
       block_decomposition_location(global_size, num_ranks, i);
 
-    // Set the value locally or remotely.
-    assert(rank > 0);
+    // Lock the window (other processes can be accessing it, even if it's the
+    // local one), set the value locally or remotely, and unlock.
+    assert(rank >= 0);
+    MPI_Win_lock(MPI_LOCK_EXCLUSIVE, location.rank, 0, win);
+
     if (location.rank == static_cast<size_t>(rank)) {
         data[location.local_index] = val;
     }
     else {
-        // Lock the window, set the remote data, and unlock.
-        MPI_Win_lock(MPI_LOCK_EXCLUSIVE, location.rank, MPI_MODE_NOCHECK, win);
-
         const size_t T_size = sizeof(T);
         MPI_Put(
           &val, T_size, MPI_BYTE, location.rank, location.local_index, T_size,
           MPI_BYTE, win);
-
-        MPI_Win_unlock(location.rank, win);
     }
+
+    MPI_Win_unlock(location.rank, win);
 }
 
 template<typename T>
 T MPI_Distributed_vector<T>::Model::get(size_t i) const
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return T();
     }
 
@@ -147,25 +149,26 @@ T MPI_Distributed_vector<T>::Model::get(size_t i) const
     // Get the rank and local index of the global index `i`.
     auto location = block_decomposition_location(global_size, num_ranks, i);
 
-    // Get the value locally or remotely.
-    assert(rank > 0);
+    // Lock the window (other processes can be accessing it, even if it's the
+    // local one), get the value locally or remotely, and unlock.
+    assert(rank >= 0);
+    T val;
+
+    MPI_Win_lock(MPI_LOCK_SHARED, location.rank, 0, win);
+
     if (location.rank == static_cast<size_t>(rank)) {
-        return data[location.local_index];
+        val = data[location.local_index];
     }
     else {
-        T val;
-
-        MPI_Win_lock(MPI_LOCK_SHARED, location.rank, MPI_MODE_NOCHECK, win);
-
         const size_t T_size = sizeof(T);
         MPI_Get(
           &val, T_size, MPI_BYTE, location.rank, location.local_index, T_size,
           MPI_BYTE, win);
+    }
 
-        MPI_Win_unlock(location.rank, win);
+    MPI_Win_unlock(location.rank, win);
 
-        return val;
-    }
+    return val;
 }
 
 
-- 
2.43.0


From e17bc07569829b62354b4442fe3b8a296eb1368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 20/73] fix: a flow returns the names of its output files
 whatever its first operation

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 84734fd..13c91b2 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -495,7 +495,7 @@ std::vector<std::string> Set::calcFunc(
             ++fCurr;
         }
 
-        calcFunc(fCurr, fEnd);
+        return calcFunc(fCurr, fEnd);
     }
 
     return std::vector<std::string>{};
-- 
2.43.0


From 2f5047094218325d0dc017e92632c4e4edbe7fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 21/73] fix: a set which has been written is not written again,
 unprocessed, by its destructor

---
 src/Flow/Set.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 13c91b2..1dd5ba0 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -513,6 +513,10 @@ std::vector<std::string> Set::output(std::string oname)
     std::vector<std::string> out = calcFunc(func.begin(), func.end());
     func.clear();
 
+    // The set has been written: the destructor must not write it again without
+    // the operations.
+    outfix.clear();
+
     return out;
 }
 
-- 
2.43.0


From 14d5858090875fb451d5de170b2fcb3bb017235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 22/73] fix: small sets of files are sorted

---
 src/Flow/Set.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 1dd5ba0..c078b9f 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -595,17 +595,7 @@ void Set::sort(std::shared_ptr<Rule> r, CompareP sortFunc)
 
     func.push_back(std::make_shared<Op<InPlaceMod>>(
       opt, r, nullptr, [this, sortFunc](TraceBlock* in) -> std::vector<size_t> {
-          // TODO: It will eventually be necessary to support this use case.
-          if (piol->comm->min(in->prm->size()) < 3LU) {
-              piol->log->record(
-                "", Logger::Layer::Set, Logger::Status::Error,
-                "Email cathal@ichec.ie if you want to sort -very- small sets of files with multiple processes.",
-                PIOL_VERBOSITY_NONE);
-              return std::vector<size_t>{};
-          }
-          else {
-              return PIOL::sort(piol.get(), in->prm.get(), sortFunc);
-          }
+          return PIOL::sort(piol.get(), in->prm.get(), sortFunc);
       }));
 }
 
-- 
2.43.0


From 88ff47db256a993983317ec07c39affdbd8cf78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 23/73] fix: the traces of a set are numbered by their place
 for the sort

---
 src/Flow/Cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 7ea3d87..2897789 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -44,7 +44,7 @@ std::shared_ptr<TraceBlock> Cache::getCache(
               f->ilst.size(), f->ilst.data(), prm.get(), loff);
             for (size_t i = 0LU; i < f->ilst.size(); i++) {
                 param_utils::setPrm(
-                  loff + i, PIOL_META_gtn, off + loff + f->ilst[i], prm.get());
+                  loff + i, PIOL_META_gtn, off + loff + i, prm.get());
                 param_utils::setPrm(
                   loff + i, PIOL_META_ltn, f->ilst[i] * desc.size() + c,
                   prm.get());
-- 
2.43.0


From d2a13aae53e32e896b0c1d70455af146a504d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 24/73] fix: adding files to a set keeps the output text

---
 include/ExSeisDat/Flow/Set.hh | 2 +-
 src/Flow/Set.cc               | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ExSeisDat/Flow/Set.hh b/include/ExSeisDat/Flow/Set.hh
index 8054b3f..89b09a7 100644
--- a/include/ExSeisDat/Flow/Set.hh
+++ b/include/ExSeisDat/Flow/Set.hh
@@ -45,7 +45,7 @@ class Set {
     std::string outfix;
 
     /// The output text-header message
-    std::string outmsg;
+    std::string outmsg = "ExSeisPIOL: Set layer output\n";
 
     /// A deque of unique pointers to file descriptors
     FileDeque file;
diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index c078b9f..38b0309 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -87,7 +87,6 @@ void Set::add(std::unique_ptr<ReadInterface> in)
 
 void Set::add(std::string pattern)
 {
-    outmsg = "ExSeisPIOL: Set layer output\n";
     glob_t globs;
     int err = glob(pattern.c_str(), GLOB_TILDE | GLOB_MARK, NULL, &globs);
     if (err != 0) {
-- 
2.43.0


From 6bd60e6d5ee5bc48b41ce6a9a832a904a6ca6ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 25/73] fix: the files of a set with different sampling are not
 written over each other

---
 src/Flow/Set.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 38b0309..9aedaec 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -183,8 +183,13 @@ std::vector<std::string> Set::startSingle(
         size_t ns                         = fQue[0]->ifc->readNs();
         exseis::utils::Floating_point inc = fQue[0]->ifc->readInc();
 
-        if (fQue.size() == 1) {
-            name = outfix + ".segy";
+        // The short name can only be used once.
+        const std::string short_name = outfix + ".segy";
+        const bool short_name_free =
+          std::find(names.begin(), names.end(), short_name) == names.end();
+
+        if (fQue.size() == 1 && short_name_free) {
+            name = short_name;
         }
         else {
             name =
-- 
2.43.0


From fd208114e519a9149daaedd612eaad536758e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 26/73] fix: a sort which follows a single-trace operation is
 not dropped

---
 src/Flow/Set.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 9aedaec..11b0816 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -11,6 +11,7 @@
 #include "ExSeisDat/utils/signal_processing/AGC.h"
 #include "ExSeisDat/utils/simulation.hh"
 
+#include <algorithm>
 #include <glob.h>
 #include <numeric>
 #include <regex>
@@ -507,6 +508,21 @@ std::vector<std::string> Set::calcFunc(
 
 std::vector<std::string> Set::output(std::string oname)
 {
+    // Operations on whole subsets (e.g. sort) only depend on the trace headers,
+    // which single-trace operations keep, so they go first: the output is
+    // written in the same pass as the single-trace operations are applied.
+    auto is_gather = [](const std::shared_ptr<OpParent>& op) -> bool {
+        return op->opt.check(FuncOpt::Gather);
+    };
+    for (auto it = func.begin(); it != func.end();) {
+        auto next = std::find_if(it, func.end(), is_gather);
+        std::stable_partition(
+          it, next, [](const std::shared_ptr<OpParent>& op) -> bool {
+              return op->opt.check(FuncOpt::SubSetOnly);
+          });
+        it = std::find_if_not(next, func.end(), is_gather);
+    }
+
     OpOpt opt = {FuncOpt::NeedMeta, FuncOpt::NeedTrcVal, FuncOpt::SingleTrace};
     func.emplace_back(std::make_shared<Op<InPlaceMod>>(
       opt, nullptr, nullptr, [](TraceBlock*) -> std::vector<size_t> {
-- 
2.43.0


From f3d1d3a8cfee8d33fcd3bfd0426dffa56f3c5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 27/73] fix: a set without files can be output

---
 src/Flow/Set.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 11b0816..058db0d 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -445,6 +445,11 @@ Set::FuncLst::iterator Set::startSubset(
 {
     std::vector<FuncLst::iterator> flist;
 
+    // Nothing to be done without files
+    if (fmap.empty()) {
+        return fEnd;
+    }
+
     // TODO: Parallelisable
     for (auto& o : fmap) {
         // Iterate across the full function list
-- 
2.43.0


From 2e5af7a726ae6d200275d3057bfc60c48a6f3acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 28/73] fix: operations which follow a gather operation are
 applied once

---
 src/Flow/Set.cc | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 058db0d..a046456 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -149,20 +149,17 @@ std::unique_ptr<TraceBlock> Set::calcFunc(
     }
 
     switch (type) {
-        case FuncOpt::Gather:
-            if ((*fCurr)->opt.check(FuncOpt::Gather)) {
-                auto bOut = std::make_unique<TraceBlock>();
-                dynamic_cast<Op<Mod>*>(fCurr->get())
-                  ->func(bIn.get(), bOut.get());
-                bIn = std::move(bOut);
-            }
-            ++fCurr;
-            // fallthrough
+        case FuncOpt::Gather: {
+            auto bOut = std::make_unique<TraceBlock>();
+            dynamic_cast<Op<Mod>*>(fCurr->get())->func(bIn.get(), bOut.get());
+            bOut->nt   = bIn->nt;
+            bOut->gNum = bIn->gNum;
+            bOut->numG = bIn->numG;
+            bIn        = std::move(bOut);
+        } break;
         case FuncOpt::SingleTrace:
-            if ((*fCurr)->opt.check(FuncOpt::SingleTrace)) {
-                type = FuncOpt::SingleTrace;
-                dynamic_cast<Op<InPlaceMod>*>(fCurr->get())->func(bIn.get());
-            }
+            dynamic_cast<Op<InPlaceMod>*>(fCurr->get())->func(bIn.get());
+            break;
         default:
             break;
     }
-- 
2.43.0


From 06209435ed4a5c03352a9b2ef685e0d4935f3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:45 +0000
Subject: [PATCH 29/73] fix: gather flows handle several classes of files,
 earlier sorts and following operations

---
 include/ExSeisDat/Flow/Set.hh |  6 ++--
 src/Flow/Set.cc               | 68 ++++++++++++++++++++---------------
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/include/ExSeisDat/Flow/Set.hh b/include/ExSeisDat/Flow/Set.hh
index 89b09a7..b60aa89 100644
--- a/include/ExSeisDat/Flow/Set.hh
+++ b/include/ExSeisDat/Flow/Set.hh
@@ -95,9 +95,11 @@ class Set {
      *  @param[in] fCurr The iterator for the current function to process.
      *  @param[in] fEnd The iterator which indicates the end of the list has
      *             been reached.
-     *  @return Return a file name if fEnd is reached. Otherwise return "".
+     *  @return Return the file names if fEnd is reached. Otherwise return an
+     *          empty list.
      */
-    std::string startGather(FuncLst::iterator fCurr, FuncLst::iterator fEnd);
+    std::vector<std::string> startGather(
+      FuncLst::iterator fCurr, FuncLst::iterator fEnd);
 
     /*! Start unwinding the function list for single-trace operations on the
      *  given iterators.
diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index a046456..1f8e9c7 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -271,10 +271,19 @@ std::vector<std::string> Set::startSingle(
     return names;
 }
 
-std::string Set::startGather(
+std::vector<std::string> Set::startGather(
   FuncLst::iterator fCurr, const FuncLst::iterator fEnd)
 {
-    if (file.size() > 1LU) {
+    // The gathers are read in file order, so files which are to be joined or
+    // sorted are written first.
+    size_t sorted = 0LU;
+    for (auto& f : file) {
+        if (f->ilst != f->olst) {
+            sorted = 1LU;
+        }
+    }
+
+    if (file.size() > 1LU || piol->comm->max(sorted) != 0LU) {
         OpOpt opt = {FuncOpt::NeedMeta, FuncOpt::NeedTrcVal,
                      FuncOpt::SingleTrace};
         FuncLst tFunc;
@@ -293,7 +302,14 @@ std::string Set::startGather(
             add(n);
         }
     }
-    std::string gname;
+
+    // The end of the gather operations
+    auto gEnd = fCurr;
+    while (gEnd != fEnd && (*gEnd)->opt.check(FuncOpt::Gather)) {
+        ++gEnd;
+    }
+
+    std::vector<std::string> gnames;
     for (auto& o : file) {
         // Locate gather boundaries.
         auto gather = getIlXlGathers(piol.get(), o->ifc.get());
@@ -302,14 +318,13 @@ std::string Set::startGather(
         size_t numGather = gdec.local_size;
 
         std::vector<size_t> gNums;
-        for (auto fTemp = fCurr;
-             fTemp != fEnd && (*fTemp)->opt.check(FuncOpt::Gather); fTemp++) {
+        for (size_t i = 0; i < numGather; i++) {
+            gNums.push_back(i * numRank + rank);
+        }
+
+        for (auto fTemp = fCurr; fTemp != gEnd; fTemp++) {
             auto* p = dynamic_cast<Op<Mod>*>(fTemp->get());
             assert(p);
-            for (size_t i = 0; i < numGather; i++) {
-                gNums.push_back(i * numRank + rank);
-            }
-
             p->state->makeState(gNums, gather);
         }
 
@@ -319,11 +334,10 @@ std::string Set::startGather(
         auto rule = std::make_shared<Rule>(
           std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xl});
 
-        auto fTemp = fCurr;
-        while (++fTemp != fEnd && (*fTemp)->opt.check(FuncOpt::Gather)) {
-        }
-
-        gname = (fTemp != fEnd ? "gtemp.segy" : outfix + ".segy");
+        const std::string gname =
+          (gEnd != fEnd ? "gtemp" : outfix)
+          + (gnames.empty() ? "" : std::to_string(gnames.size())) + ".segy";
+        gnames.push_back(gname);
 
         // Use inputs as default values. These can be changed later
         std::unique_ptr<WriteInterface> out = makeFile<WriteSEGY>(piol, gname);
@@ -352,7 +366,7 @@ std::string Set::startGather(
               bIn->prm.get());
             iOffset += piol->comm->sum(iGSz);
 
-            auto bOut = calcFunc(fCurr, fEnd, FuncOpt::Gather, std::move(bIn));
+            auto bOut = calcFunc(fCurr, gEnd, FuncOpt::Gather, std::move(bIn));
 
             size_t woff = piol->comm->offset(bOut->prm->size());
             // For simplicity, the output is now
@@ -378,7 +392,7 @@ std::string Set::startGather(
             bIn->nt  = o->ifc->readNt();
             bIn->inc = o->ifc->readInc();
 
-            auto bOut = calcFunc(fCurr, fEnd, FuncOpt::Gather, std::move(bIn));
+            auto bOut = calcFunc(fCurr, gEnd, FuncOpt::Gather, std::move(bIn));
             out->writeNs(bOut->ns);
             out->writeInc(bOut->inc);
 
@@ -388,16 +402,15 @@ std::string Set::startGather(
         }
     }
 
-    while (++fCurr != fEnd && (*fCurr)->opt.check(FuncOpt::Gather)) {
-    }
-
-    if (fCurr != fEnd) {
+    if (gEnd != fEnd) {
         drop();
-        add(gname);
-        return "";
+        for (std::string n : gnames) {
+            add(n);
+        }
+        return std::vector<std::string>{};
     }
     else {
-        return gname;
+        return gnames;
     }
 }
 
@@ -466,12 +479,11 @@ std::vector<std::string> Set::calcFunc(
             fCurr = startSubset(fCurr, fEnd);
         }
         else if ((*fCurr)->opt.check(FuncOpt::Gather)) {
-            std::string gname = startGather(fCurr, fEnd);
+            std::vector<std::string> gnames = startGather(fCurr, fEnd);
 
-            // If startGather returned an empty string, then fCurr == fEnd was
-            // reached.
-            if (!gname.empty()) {
-                return std::vector<std::string>{gname};
+            // If startGather returned names, then fCurr == fEnd was reached.
+            if (!gnames.empty()) {
+                return gnames;
             }
 
             /// @todo Later this will need to be changed when the gather also
-- 
2.43.0


From 50cbb9ab6821b7412f09cb4bcb95c0e9cd7bc2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 30/73] fix: the grid of a velocity model and its traces are
 found for every layout

---
 src/ReadSEGYModel.cc | 63 +++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/ReadSEGYModel.cc b/src/ReadSEGYModel.cc
index 8d25f9e..47e8e85 100644
--- a/src/ReadSEGYModel.cc
+++ b/src/ReadSEGYModel.cc
@@ -7,6 +7,8 @@
 #include "ExSeisDat/PIOL/ReadSEGYModel.hh"
 #include "ExSeisDat/PIOL/param_utils.hh"
 
+#include <algorithm>
+
 namespace exseis {
 namespace PIOL {
 
@@ -25,33 +27,44 @@ ReadSEGYModel::ReadSEGYModel(
   std::shared_ptr<ObjectInterface> obj_) :
     ReadSEGY(piol_, name_, opt, obj_)
 {
-    std::vector<size_t> vlist = {0LU, 1LU, ReadSEGY::readNt() - 1LU};
+    const size_t nt = ReadSEGY::readNt();
+    if (nt == 0LU) {
+        return;
+    }
+
+    // The traces are a grid of inlines by crosslines, with the crossline
+    // varying fastest.
+    std::vector<size_t> vlist = {0LU, std::min<size_t>(1LU, nt - 1LU),
+                                 nt - 1LU};
     Param prm(vlist.size());
-    readParamNonContiguous(vlist.size(), vlist.data(), &prm);
+    readTraceNonMonotonic(
+      vlist.size(), vlist.data(),
+      const_cast<exseis::utils::Trace_value*>(TRACE_NULL), &prm, 0LU);
+
+    std::vector<exseis::utils::Integer> ils, xls;
+    for (size_t i = 0; i < vlist.size(); i++) {
+        ils.push_back(
+          param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, &prm));
+        xls.push_back(
+          param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_xl, &prm));
+    }
 
-    exseis::utils::Integer il_start =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_il, &prm);
-    exseis::utils::Integer xl_start =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_xl, &prm);
+    const exseis::utils::Integer il_start = ils[0];
+    const exseis::utils::Integer xl_start = xls[0];
 
-    exseis::utils::Integer il_increment =
-      param_utils::getPrm<exseis::utils::Integer>(1LU, PIOL_META_il, &prm)
-      - il_start;
-    exseis::utils::Integer il_count =
-      (il_increment != 0 ?
-         (param_utils::getPrm<exseis::utils::Integer>(2LU, PIOL_META_il, &prm)
-          - il_start)
-           / il_increment :
-         0LU);
+    // With one crossline per inline the second trace is on the next inline
+    exseis::utils::Integer xl_increment = (ils[1] == ils[0] ? xls[1] - xls[0] :
+                                                              0);
     exseis::utils::Integer xl_count =
-      (ReadSEGY::readNt() / (il_count != 0 ? il_count : 1LU));
-    exseis::utils::Integer xl_increment =
-      (param_utils::getPrm<exseis::utils::Integer>(2LU, PIOL_META_xl, &prm)
-       - xl_start)
-      / xl_count;
+      (xl_increment != 0 ? (xls[2] - xls[0]) / xl_increment + 1 : 1);
+    xl_count = (xl_count > 0 ? xl_count : 1);
+
+    exseis::utils::Integer il_count = nt / xl_count;
+    exseis::utils::Integer il_increment =
+      (il_count > 1 ? (ils[2] - ils[0]) / (il_count - 1) : 0);
 
-    il_increment = (il_increment != 0 ? il_increment : 1LU);
-    xl_increment = (xl_increment != 0 ? xl_increment : 1LU);
+    il_increment = (il_increment != 0 ? il_increment : 1);
+    xl_increment = (xl_increment != 0 ? xl_increment : 1);
 
     il = CoordinateParameters(il_start, il_count, il_increment);
     xl = CoordinateParameters(xl_start, xl_count, xl_increment);
@@ -74,7 +87,8 @@ std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
                      + ((val.crossline - xl.start) / xl.increment);
     }
 
-    readTraceNonContiguous(
+    // The gathers can be in any order and share locations
+    readTraceNonMonotonic(
       offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
 
     return trc;
@@ -93,7 +107,8 @@ std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
                      + ((val.crossline - xl.start) / xl.increment);
     }
 
-    readTraceNonContiguous(
+    // The gathers can be in any order and share locations
+    readTraceNonMonotonic(
       offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);
 
     return trc;
-- 
2.43.0


From e9470ed3b1f9baeff566ef3d46e95747f303d421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 31/73] fix: the last sample of the velocity model is the limit
 for deeper samples

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 1f8e9c7..522b1ed 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -668,7 +668,7 @@ void Set::toAngle(
                            size_t(
                              exseis::utils::Floating_point(z * in->inc)
                              / state->vInc),
-                           state->vNs)];
+                           state->vNs - 1LU)];
                   exseis::utils::Integer k =
                     llround(
                       vmModel
-- 
2.43.0


From c20462992ff7b093a3ff6d6a3568101a9995e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:57 +0000
Subject: [PATCH 32/73] fix: the extremes of a set are right for negative
 values and for files without traces

---
 src/Flow/Set.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 522b1ed..8e42efb 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -559,9 +559,9 @@ void Set::getMinMax(
 {
     // TODO: This needs to be changed to be compatible with ExSeisFlow
     minmax[0].val = std::numeric_limits<exseis::utils::Floating_point>::max();
-    minmax[1].val = std::numeric_limits<exseis::utils::Floating_point>::min();
+    minmax[1].val = std::numeric_limits<exseis::utils::Floating_point>::lowest();
     minmax[2].val = std::numeric_limits<exseis::utils::Floating_point>::max();
-    minmax[3].val = std::numeric_limits<exseis::utils::Floating_point>::min();
+    minmax[3].val = std::numeric_limits<exseis::utils::Floating_point>::lowest();
     for (size_t i = 0; i < 4; i++) {
         minmax[i].num = std::numeric_limits<size_t>::max();
     }
@@ -582,6 +582,12 @@ void Set::getMinMax(
         size_t offset = piol->comm->offset(f->ilst.size());
         PIOL::getMinMax(
           piol.get(), offset, f->ilst.size(), vprm.data(), xlam, ylam, tminmax);
+
+        // There are no extremes in a file without traces
+        if (f->ifc->readNt() == 0LU) {
+            continue;
+        }
+
         for (size_t i = 0LU; i < 2LU; i++) {
 
             {
-- 
2.43.0


From 3e1440246ff83f39d3a82f2dd381328c2af59f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:22 +0000
Subject: [PATCH 33/73] fix: parameters cached for one sort are not used for a
 sort by other parameters

---
 include/ExSeisDat/Flow/CacheElem.hh |  3 +++
 src/Flow/Cache.cc                   | 26 +++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/ExSeisDat/Flow/CacheElem.hh b/include/ExSeisDat/Flow/CacheElem.hh
index 20fa245..2d452d6 100644
--- a/include/ExSeisDat/Flow/CacheElem.hh
+++ b/include/ExSeisDat/Flow/CacheElem.hh
@@ -27,6 +27,9 @@ struct CacheElem {
     /// The cached data
     std::shared_ptr<TraceBlock> block;
 
+    /// The rule the cached parameters were read with
+    std::shared_ptr<exseis::PIOL::Rule> rule;
+
     /*! Construct the cache element with the given parameter structure.
      *  @param[in] desc_ A deque of unique pointers to file descriptors
      *  @param[inout] prm_ A unique_ptr to the parameter structure. The cache
diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 2897789..b16d2a0 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -11,6 +11,7 @@
 #include "ExSeisDat/PIOL/param_utils.hh"
 
 // TODO: Remove when all options implemented
+#include <algorithm>
 #include <iostream>
 
 using namespace exseis::PIOL;
@@ -18,6 +19,25 @@ using namespace exseis::PIOL;
 namespace exseis {
 namespace Flow {
 
+/*! Check if parameters read with one rule include those of another.
+ *  @param[in] have The rule of the parameters
+ *  @param[in] need The rule with the parameters which are needed.
+ *  @return Return true if every entry of \c need is in \c have.
+ */
+bool includesRule(const Rule* have, const Rule* need)
+{
+    return std::all_of(
+      need->translate.begin(), need->translate.end(),
+      [have](const Rule::RuleMap::value_type& entry) -> bool {
+          auto it = have->translate.find(entry.first);
+          return it != have->translate.end()
+                 && it->second->type() == entry.second->type()
+                 && it->second->loc == entry.second->loc
+                 && it->second->min() == entry.second->min()
+                 && it->second->max() == entry.second->max();
+      });
+}
+
 // TODO: Generalise this for parameters and traces
 std::shared_ptr<TraceBlock> Cache::getCache(
   std::shared_ptr<Rule> rule, FileDeque& desc, bool, bool)
@@ -25,7 +45,10 @@ std::shared_ptr<TraceBlock> Cache::getCache(
     auto it = std::find_if(
       cache.begin(), cache.end(),
       [desc](const CacheElem& elem) -> bool { return elem.desc == desc; });
-    if (it == cache.end() || !it->block || !it->block->prm) {
+    // The parameters of another rule can lack those which are asked for
+    if (
+      it == cache.end() || !it->block || !it->block->prm
+      || !includesRule(it->rule.get(), rule.get())) {
         size_t lnt = 0LU;
         size_t nt  = 0LU;
         for (auto& f : desc) {
@@ -63,6 +86,7 @@ std::shared_ptr<TraceBlock> Cache::getCache(
             }
             it->block->prm = std::move(prm);
         }
+        it->rule = rule;
 
         it->block->nt  = nt;
         it->block->ns  = desc[0]->ifc->readNs();
-- 
2.43.0


From c2b4bd76be4d2d644c305f00aa1dbf71986dac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 34/73] fix: the first trace a process filters in the frequency
 domain is not lost

---
 src/temporalfilter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index d9b75c9..622ddc3 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -336,13 +336,14 @@ void filterFreq(
   FltrPad)
 {
     // TODO: Generalize fftwf for other data types besides floats
+    // The planning must not measure: that overwrites the data to transform.
     // TODO: If creating + destroying plans becomes a bottleneck, re-use the
     //       plans
     std::vector<Complex_trace_value> frequency(nss);
     std::vector<Complex_trace_value> frequency1(nss);
     fftwf_plan planFFT = fftwf_plan_dft_r2c_1d(
       nss, trcX, reinterpret_cast<fftwf_complex*>(frequency.data()),
-      FFTW_MEASURE);
+      FFTW_ESTIMATE);
     fftwf_execute(planFFT);
     fftwf_destroy_plan(planFFT);
 
@@ -364,7 +365,7 @@ void filterFreq(
 
     fftwf_plan planIFFT = fftwf_plan_dft_c2r_1d(
       nss, reinterpret_cast<fftwf_complex*>(frequency.data()), trcX,
-      FFTW_MEASURE);
+      FFTW_ESTIMATE);
     fftwf_execute(planIFFT);
     fftwf_destroy_plan(planIFFT);
 
-- 
2.43.0


From b71512e35b71f5e3363c48ac23adfd21e49a41b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 35/73] fix: the median gain of an even window stays within the
 window

---
 src/utils/signal_processing/Gain_function.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/signal_processing/Gain_function.cc b/src/utils/signal_processing/Gain_function.cc
index 9093a86..8357d7d 100644
--- a/src/utils/signal_processing/Gain_function.cc
+++ b/src/utils/signal_processing/Gain_function.cc
@@ -176,8 +176,10 @@ Trace_value median_gain(
     std::sort(signalTmp.begin(), signalTmp.end());
 
     if (window_size % 2 == 0) {
+        // A window of two samples has none after its middle
+        const auto next = std::min(window_size / 2 + 1, window_size - 1);
         const auto amp =
-          ((signalTmp[window_size / 2] + signalTmp[window_size / 2 + 1]) / 2);
+          ((signalTmp[window_size / 2] + signalTmp[next]) / 2);
         assert(amp != 0);
 
         return target_amplitude / amp;
-- 
2.43.0


From 6e272fa1b78eaa9d3a071072518d7f5b8261a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:13 +0000
Subject: [PATCH 36/73] fix: a trace of zeros can be tapered

---
 src/utils/signal_processing/taper.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/signal_processing/taper.cc b/src/utils/signal_processing/taper.cc
index 72fd85c..94980b9 100644
--- a/src/utils/signal_processing/taper.cc
+++ b/src/utils/signal_processing/taper.cc
@@ -31,7 +31,11 @@ void taper(
 
         auto* truncated_signal =
           std::find_if(signal, signal + signal_size, non_zero);
-        assert(truncated_signal[0] != 0);
+
+        // There is nothing to taper in a dead trace
+        if (truncated_signal == signal + signal_size) {
+            return;
+        }
 
 
         // Find the new sizes
-- 
2.43.0


From 7d5e09d199499cb18841bbe71cc8d6b15e00903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:28 +0000
Subject: [PATCH 37/73] fix: the filter pads traces within their samples

---
 src/temporalfilter.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 622ddc3..31599f8 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -305,14 +305,14 @@ FltrPad getPad(PadType type)
             return [](
                      exseis::utils::Trace_value* trc, size_t N, size_t nw,
                      size_t j) {
-                return (j <= nw ? trc[N - j] : trc[2 * (nw + N) - j]);
+                return (j < N ? trc[N - j] : trc[2 * nw + N - j]);
             };
             break;
 
         case PadType::Replicate:
             return
-              [](exseis::utils::Trace_value* trc, size_t, size_t nw, size_t j) {
-                  return (j <= nw ? trc[0] : trc[nw]);
+              [](exseis::utils::Trace_value* trc, size_t N, size_t nw, size_t j) {
+                  return (j < N ? trc[0] : trc[nw]);
               };
             break;
 
@@ -320,7 +320,7 @@ FltrPad getPad(PadType type)
             return [](
                      exseis::utils::Trace_value* trc, size_t N, size_t nw,
                      size_t j) {
-                return (j <= nw ? trc[nw - (N - j)] : trc[j - nw - N]);
+                return (j < N ? trc[nw + 1 - (N - j)] : trc[j - (nw + 1) - N]);
             };
             break;
     }
@@ -421,9 +421,10 @@ void filterTime(
     std::vector<exseis::utils::Trace_value> trcX(nw + 6LU * (numTail + 1LU));
 
     for (size_t i = 0LU; i < 3LU * (numTail + 1LU); i++) {
-        trcX[i] = padding(trcOrgnl, 3LU * (numTail + 1LU), nw, i);
-        trcX[i + 3LU * numTail + nw] = padding(
-          trcOrgnl, 3LU * (numTail + 1LU), nw - 1LU, i + 3LU * numTail + nw);
+        trcX[i] = padding(trcOrgnl, 3LU * (numTail + 1LU), nw - 1LU, i);
+        trcX[i + 3LU * (numTail + 1LU) + nw] = padding(
+          trcOrgnl, 3LU * (numTail + 1LU), nw - 1LU,
+          i + 3LU * (numTail + 1LU) + nw);
     }
 
     for (size_t i = 0; i < nw; i++) {
-- 
2.43.0


From 711285129c16034039be3f17e5b6180fe614b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:16 +0000
Subject: [PATCH 38/73] fix: the fields of rules with a dynamic extent are read
 and written at their places

---
 src/segy_utils.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index a501e12..01a05b9 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -20,8 +20,7 @@ void insertParam(
         return;
     }
 
-    auto r       = prm->r;
-    size_t start = r->start;
+    auto r = prm->r;
 
     if (r->numCopy != 0) {
         if (stride == 0) {
@@ -40,7 +39,8 @@ void insertParam(
     }
 
     for (size_t i = 0; i < sz; i++) {
-        unsigned char* md = &buf[(r->extent() + stride) * i];
+        // The buffer holds whole headers whatever the extent of the rule
+        unsigned char* md = &buf[(SEGY_utils::getMDSz() + stride) * i];
 
 // Compiler defects
 #if defined(__INTEL_COMPILER) || __GNUC__ < 6
@@ -54,7 +54,7 @@ void insertParam(
         for (const auto v : r->translate) {
 
             const auto t     = v.second;
-            const size_t loc = t->loc - start - 1LU;
+            const size_t loc = t->loc - 1LU;
 
             switch (t->type()) {
 
@@ -108,7 +108,7 @@ void insertParam(
             const auto be = to_big_endian(s.second);
 
             std::copy(
-              std::begin(be), std::end(be), &md[size_t(s.first) - start - 1LU]);
+              std::begin(be), std::end(be), &md[size_t(s.first) - 1LU]);
         }
 
         for (size_t j = 0; j < rule.size(); j++) {
@@ -119,7 +119,7 @@ void insertParam(
               prm->f[(i + skip) * r->numFloat + rule[j]->num] / gscale)));
 
             std::copy(
-              std::begin(be), std::end(be), &md[rule[j]->loc - start - 1LU]);
+              std::begin(be), std::end(be), &md[rule[j]->loc - 1LU]);
         }
     }
 }
@@ -151,20 +151,20 @@ void extractParam(
 
     for (size_t i = 0; i < sz; i++) {
 
-        const unsigned char* md = &buf[(r->extent() + stride) * i];
+        // The buffer holds whole headers whatever the extent of the rule
+        const unsigned char* md = &buf[(SEGY_utils::getMDSz() + stride) * i];
 
         // Loop through each rule and extract data
         for (const auto v : r->translate) {
 
             const auto t = v.second;
-            size_t loc   = t->loc - r->start - 1LU;
+            size_t loc   = t->loc - 1LU;
 
             switch (t->type()) {
                 case RuleEntry::MdType::Float: {
 
                     const size_t scalar_offset =
-                      dynamic_cast<SEGYFloatRuleEntry*>(t)->scalLoc - r->start
-                      - 1LU;
+                      dynamic_cast<SEGYFloatRuleEntry*>(t)->scalLoc - 1LU;
 
                     const auto parsed_scalar =
                       parse_scalar(from_big_endian<int16_t>(
-- 
2.43.0


From abb6642bd7056682ac428953e97e8a6cdaeb73ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:00 +0000
Subject: [PATCH 39/73] fix: an output file without traces drops the contents
 it had

---
 src/WriteSEGY.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 3556132..c52ef3d 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -40,6 +40,8 @@ WriteSEGY::WriteSEGY(
 {
     memset(&state, 0, sizeof(Flags));
     state.writeHO = true;
+    // The file may have contents already, which a file without traces drops.
+    state.resize = true;
 }
 
 WriteSEGY::WriteSEGY(
-- 
2.43.0


From 1d89b626fc8e2efc722f6187e2ed9f36191c8867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:43 +0000
Subject: [PATCH 40/73] hooks: the block size of filemake can be set by a
 simulation

---
 util/filemake.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/filemake.cc b/util/filemake.cc
index 2e0dbdb..8a2fc06 100644
--- a/util/filemake.cc
+++ b/util/filemake.cc
@@ -4,6 +4,7 @@
 #include "ExSeisDat/PIOL/WriteDirect.hh"
 #include "ExSeisDat/PIOL/param_utils.hh"
 #include "ExSeisDat/PIOL/segy_utils.hh"
+#include "ExSeisDat/utils/simulation.hh"
 
 #include <assert.h>
 #include <cmath>
@@ -240,7 +241,7 @@ int main(int argc, char** argv)
     }
 
     assert(!name.empty() && max != 0 && inc != 0.0);
-    max *= 1024 * 1024;
+    max = EXSEISDAT_SIM_LIMIT("filemake", max * 1024LU * 1024LU);
     FileMake(lob, random, name, max, ns, nt, inc);
 
     return 0;
-- 
2.43.0


From f065d49a14d98a19176f22416fc4956f0a210626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:41 +0000
Subject: [PATCH 41/73] fix: the coordinate windows of 4D binning span all the
 coordinates

The size of a window is in bytes, not in elements: every access to the
second part of a window was outside of it.
---
 util/4dcore.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 290a2b8..5490d0e 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -103,24 +103,29 @@ std::vector<MPI_Win> createCoordsWin(const Coords* crd, const bool ixline)
 
     // Look at MPI_Info
     MPIErr(MPI_Win_create(
-      crd->xSrc, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[0]));
+      crd->xSrc, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[0]));
     MPIErr(MPI_Win_create(
-      crd->ySrc, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[1]));
+      crd->ySrc, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[1]));
     MPIErr(MPI_Win_create(
-      crd->xRcv, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[2]));
+      crd->xRcv, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[2]));
     MPIErr(MPI_Win_create(
-      crd->yRcv, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[3]));
+      crd->yRcv, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[3]));
     MPIErr(MPI_Win_create(
-      crd->tn, crd->sz, sizeof(size_t), info, MPI_COMM_WORLD, &win[4]));
+      crd->tn, crd->sz * sizeof(size_t), sizeof(size_t), info, MPI_COMM_WORLD,
+      &win[4]));
 
     if (ixline) {
         win.resize(7);
         MPIErr(MPI_Win_create(
-          crd->il, crd->sz, sizeof(exseis::utils::Integer), info,
-          MPI_COMM_WORLD, &win[5]));
+          crd->il, crd->sz * sizeof(exseis::utils::Integer),
+          sizeof(exseis::utils::Integer), info, MPI_COMM_WORLD, &win[5]));
         MPIErr(MPI_Win_create(
-          crd->xl, crd->sz, sizeof(exseis::utils::Integer), info,
-          MPI_COMM_WORLD, &win[6]));
+          crd->xl, crd->sz * sizeof(exseis::utils::Integer),
+          sizeof(exseis::utils::Integer), info, MPI_COMM_WORLD, &win[6]));
     }
 
     MPI_Info_free(&info);
-- 
2.43.0


From 1582d65e29189c4af07b5ca6e3936e77b2269003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:41 +0000
Subject: [PATCH 42/73] fix: 4D binning with processes without traces

A process without traces took its range of coordinates from outside of
its arrays and started from the first of no traces.
---
 util/4dcore.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 5490d0e..681cb6f 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -244,6 +244,14 @@ void initUpdate(
   std::vector<size_t>& min,
   std::vector<fourd_t>& minrs)
 {
+    // There may be no traces to start from
+    if (crd2->sz == 0) {
+        std::fill(min.begin(), min.end(), 0LU);
+        std::fill(
+          minrs.begin(), minrs.end(), std::numeric_limits<fourd_t>::max());
+        return;
+    }
+
     for (size_t i = 0; i < crd1->sz; i++) {
         minrs[i] =
           (!ixline
@@ -456,14 +464,19 @@ void calc4DBin(
     size_t numRank = piol->comm->getNumRank();
     auto szall     = piol->comm->gather(std::vector<size_t>{crd2->sz});
 
+    // The range of a process without traces is empty
+    const fourd_t highest = std::numeric_limits<fourd_t>::max();
+    const fourd_t lowest  = std::numeric_limits<fourd_t>::lowest();
+
     // The File2 min/max from every process
-    auto xsmin = piol->comm->gather(std::vector<fourd_t>{crd2->xSrc[0LU]});
-    auto xsmax =
-      piol->comm->gather(std::vector<fourd_t>{crd2->xSrc[crd2->sz - 1LU]});
+    auto xsmin = piol->comm->gather(
+      std::vector<fourd_t>{crd2->sz > 0 ? crd2->xSrc[0LU] : highest});
+    auto xsmax = piol->comm->gather(std::vector<fourd_t>{
+      crd2->sz > 0 ? crd2->xSrc[crd2->sz - 1LU] : lowest});
 
     // The File1 local min and local maximum for the particular process
-    auto xslmin = crd1->xSrc[0LU];
-    auto xslmax = crd1->xSrc[crd1->sz - 1LU];
+    auto xslmin = crd1->sz > 0 ? crd1->xSrc[0LU] : highest;
+    auto xslmax = crd1->sz > 0 ? crd1->xSrc[crd1->sz - 1LU] : lowest;
 
     // Perform a local initialisation update of min and minrs
     if (opt.ixline) {
-- 
2.43.0


From e95eca54fa1b1d166bf1d71a6f0b13cbbca46e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:41 +0000
Subject: [PATCH 43/73] fix: 4D binning compares the last trace of each process

The upper end of a range was tested with the entry after it, the padding,
which always took the last trace out of the range.
---
 util/4dcore.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 681cb6f..49367f4 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -299,15 +299,23 @@ size_t update(
     for (; rstart < rend && crd2->xSrc[rstart] < crd1->xSrc[lstart] - dsrmax;
          rstart++) {
     }
-    for (; rend >= rstart && crd2->xSrc[rend] > crd1->xSrc[lend - 1] + dsrmax;
+    for (;
+         rend > rstart && crd2->xSrc[rend - 1] > crd1->xSrc[lend - 1] + dsrmax;
          rend--) {
     }
+    if (rstart == rend) {
+        return 0LU;
+    }
     for (; lstart < lend && crd1->xSrc[lstart] < crd2->xSrc[rstart] - dsrmax;
          lstart++) {
     }
-    for (; lend >= lstart && crd1->xSrc[lend] > crd2->xSrc[rend - 1] + dsrmax;
+    for (;
+         lend > lstart && crd1->xSrc[lend - 1] > crd2->xSrc[rend - 1] + dsrmax;
          lend--) {
     }
+    if (lstart == lend) {
+        return 0LU;
+    }
 
     // TODO: Check if theoretical speedup is realisable for this alignment
     lstart     = size_t(lstart / ALIGN) * ALIGN;
-- 
2.43.0


From 4fa607ab8c305e2e5f2140808a4f15f413cf354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:56 +0000
Subject: [PATCH 44/73] fix: 4D binning finds the pairs of boats in opposite
 directions

Traces and whole processes were ruled out by the positions of their sources
only.  In the reverse-boat case it is the receiver of the second file which
lies near the source of the first one, so whether such a pair was found
depended on the distribution of the traces over the processes.
---
 util/4dcore.cc | 53 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 49367f4..61e82d6 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -264,6 +264,28 @@ void initUpdate(
     }
 }
 
+/*! Find the range of the x coordinates which a file1 source is compared with.
+ *  These are both the sources (forward-boat case) and the receivers
+ *  (reverse-boat case) of file2.
+ *  @param[in] crd The coordinates from file2
+ *  @param[in] start The first trace
+ *  @param[in] end The end of the traces
+ *  @return The min and the max. The range is empty (min > max) if there are no
+ *          traces.
+ */
+std::pair<fourd_t, fourd_t> xRange(
+  const Coords* crd, const size_t start, const size_t end)
+{
+    auto range = std::make_pair(
+      std::numeric_limits<fourd_t>::max(),
+      std::numeric_limits<fourd_t>::lowest());
+    for (size_t i = start; i < end; i++) {
+        range.first = std::min({range.first, crd->xSrc[i], crd->xRcv[i]});
+        range.second = std::max({range.second, crd->xSrc[i], crd->xRcv[i]});
+    }
+    return range;
+}
+
 /*! Perform a minimisation check with the current two vectors of parameters.
  *  @tparam Init If true, perform the initialisation sequence.
  *  @param[in] crd1 A vector containing the process's parameter data from the
@@ -294,23 +316,27 @@ size_t update(
     size_t rend   = crd2->sz;
 
     // Ignore all file2 traces that can not possibly match our criteria within
-    // the min/max
-    // of src x.
-    for (; rstart < rend && crd2->xSrc[rstart] < crd1->xSrc[lstart] - dsrmax;
-         rstart++) {
+    // the min/max of file1 src x, neither with their source nor, if the boat
+    // went in the opposite direction, with their receiver.
+    const fourd_t xlmin = crd1->xSrc[0] - dsrmax;
+    const fourd_t xlmax = crd1->xSrc[crd1->sz - 1] + dsrmax;
+    auto noMatch       = [crd2, xlmin, xlmax](size_t j) {
+        return (crd2->xSrc[j] < xlmin || crd2->xSrc[j] > xlmax)
+               && (crd2->xRcv[j] < xlmin || crd2->xRcv[j] > xlmax);
+    };
+    for (; rstart < rend && noMatch(rstart); rstart++) {
     }
-    for (;
-         rend > rstart && crd2->xSrc[rend - 1] > crd1->xSrc[lend - 1] + dsrmax;
-         rend--) {
+    for (; rend > rstart && noMatch(rend - 1); rend--) {
     }
     if (rstart == rend) {
         return 0LU;
     }
-    for (; lstart < lend && crd1->xSrc[lstart] < crd2->xSrc[rstart] - dsrmax;
+
+    auto rrange = xRange(crd2, rstart, rend);
+    for (; lstart < lend && crd1->xSrc[lstart] < rrange.first - dsrmax;
          lstart++) {
     }
-    for (;
-         lend > lstart && crd1->xSrc[lend - 1] > crd2->xSrc[rend - 1] + dsrmax;
+    for (; lend > lstart && crd1->xSrc[lend - 1] > rrange.second + dsrmax;
          lend--) {
     }
     if (lstart == lend) {
@@ -477,10 +503,9 @@ void calc4DBin(
     const fourd_t lowest  = std::numeric_limits<fourd_t>::lowest();
 
     // The File2 min/max from every process
-    auto xsmin = piol->comm->gather(
-      std::vector<fourd_t>{crd2->sz > 0 ? crd2->xSrc[0LU] : highest});
-    auto xsmax = piol->comm->gather(std::vector<fourd_t>{
-      crd2->sz > 0 ? crd2->xSrc[crd2->sz - 1LU] : lowest});
+    auto range = xRange(crd2, 0LU, crd2->sz);
+    auto xsmin = piol->comm->gather(std::vector<fourd_t>{range.first});
+    auto xsmax = piol->comm->gather(std::vector<fourd_t>{range.second});
 
     // The File1 local min and local maximum for the particular process
     auto xslmin = crd1->sz > 0 ? crd1->xSrc[0LU] : highest;
-- 
2.43.0


From 5fc1155966cc37c74dd71bcf0891f2c54caa43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:56 +0000
Subject: [PATCH 45/73] fix: 4D binning balances the second read of the
 coordinates

Its blocks are of another size than those of the first read, hence the
number of calls a process lacks is another one too.
---
 util/4dio.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/4dio.cc b/util/4dio.cc
index 06c1331..460cd5d 100644
--- a/util/4dio.cc
+++ b/util/4dio.cc
@@ -120,6 +120,8 @@ std::unique_ptr<Coords> getCoords(
 
     max = memlim
           / (crule->paramMem() + SEGY_utils::getMDSz() + 2LU * sizeof(size_t));
+    extra = biggest / max + (biggest % max > 0 ? 1 : 0)
+            - (lnt / max + (lnt % max > 0 ? 1 : 0));
 
     {
         Param prm2(crule, std::min(lnt, max));
-- 
2.43.0


From a8b85c62b26d26299e11f305d2eefd81c29c33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:56 +0000
Subject: [PATCH 46/73] fix: 4D binning frees the coordinates it has finished
 with

---
 util/fourdbin.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/fourdbin.cc b/util/fourdbin.cc
index 939c3e6..604ed27 100644
--- a/util/fourdbin.cc
+++ b/util/fourdbin.cc
@@ -126,7 +126,7 @@ int main(int argc, char** argv)
     std::vector<fourd_t> minrs(coords1->sz);
     calc4DBin(
       piol.get(), dsrmax, coords1.get(), coords2.get(), fopt, min, minrs);
-    coords2.release();
+    coords2.reset();
 
     cmsg(piol.get(), "Final list pass");
     // Now we weed out traces that have a match that is too far away
@@ -154,7 +154,7 @@ int main(int argc, char** argv)
     }
 
     // free up some memory
-    coords1.release();
+    coords1.reset();
 
     cmsg(piol.get(), "Output phase");
 
-- 
2.43.0


From eed67bd32ed50ee0cac6fe2f806344535ada6a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 47/73] fix: the decomposition along block boundaries of short
 ranges

The number of blocks underflowed if a range touched less than two blocks,
and a range which ended on a boundary was cut by a block.
---
 util/sglobal.cc | 42 +++++++++++++-----------------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/util/sglobal.cc b/util/sglobal.cc
index 07a1b69..b7785e4 100644
--- a/util/sglobal.cc
+++ b/util/sglobal.cc
@@ -34,42 +34,26 @@ std::vector<size_t> lobdecompose(
 exseis::utils::Contiguous_decomposition blockDecomp(
   size_t sz, size_t bsz, size_t numRank, size_t rank, size_t off)
 {
-    // Size of the first block
-    size_t rstart = bsz - off % bsz;
-    // Size of the last block
-    size_t rend = (off + sz) % bsz;
-    // The total number of blocks, +2 accounts for start+end
-    size_t bcnt = (sz - rstart - rend) / bsz + 2;
-
-    // Make sure there isn't any leftover, this shouldn't be possible
-    assert(!((sz - rstart - rend) % bsz));
+    // The blocks which the range touches. The first and the last one may be
+    // only partially within it.
+    size_t first = off / bsz;
+    size_t last  = (off + sz + bsz - 1) / bsz;
 
     // Do a regular decomposition of the blocks
-    auto newdec = exseis::utils::block_decomposition(bcnt, numRank, rank);
-
-    newdec.global_offset *= bsz;
-    newdec.local_size *= bsz;
+    auto newdec =
+      exseis::utils::block_decomposition(last - first, numRank, rank);
     if (newdec.local_size == 0) {
         return {sz, 0};
     }
 
-    // Now we compensate for the fact that the start and end block sizes can be
-    // different.
-    if (rank == 0) {
-        // If the rank is zero, we shrink the first block by the leftover
-        newdec.local_size -= bsz - rstart;
-    }
-    else {
-        // The subtraction above means every block is shifted
-        newdec.global_offset -= bsz - rstart;
-    }
+    // Cut off what lies outside of the range
+    size_t start = (first + newdec.global_offset) * bsz;
+    size_t end   = start + newdec.local_size * bsz;
+    start        = std::max(start, off);
+    end          = std::min(end, off + sz);
 
-    // The last rank with work must remove the leftover of its last block
-    if (
-      newdec.local_size != 0
-      && ((newdec.global_offset + newdec.local_size) > sz)) {
-        newdec.local_size -= bsz - rend;
-    }
+    newdec.global_offset = start - off;
+    newdec.local_size    = end - start;
 
     return newdec;
 }
-- 
2.43.0


From 748e2bd13a432d454791342d05192298d761c513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 48/73] fix: makerep repeats all parts of a file at their
 places

From the second part on, the header was counted twice.
---
 util/makerep.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/makerep.cc b/util/makerep.cc
index 2ac9c5f..2e2db47 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -209,8 +209,8 @@ void mpiMakeSEGYCopy(
         size_t numRank = piol.getNumRank();
         for (size_t j = 1; j < repRate; j++) {
             dec = writeArb(
-              rank, numRank, out, hosz + (fsz - hosz) * j + i, bsz, dec, rblock,
-              &buf);
+              rank, numRank, out,
+              (i == 0 ? hosz : i) + (fsz - hosz) * j, bsz, dec, rblock, &buf);
         }
     }
 }
@@ -250,8 +250,8 @@ void mpiMakeSEGYCopyNaive(
         }
         for (size_t j = 1; j < repRate; j++) {
             out->write(
-              hosz + (fsz - hosz) * j + i + dec.global_offset, dec.local_size,
-              buf.data());
+              (i == 0 ? hosz : i) + (fsz - hosz) * j + dec.global_offset,
+              dec.local_size, buf.data());
         }
     }
 }
-- 
2.43.0


From 538f2b34541824257987931cc3a23fea84907e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 49/73] fix: makerep sets the size of its output

The end of a longer file of the same name was left behind the copies.
---
 util/makerep.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/makerep.cc b/util/makerep.cc
index 2e2db47..ac22599 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -311,6 +311,11 @@ int main(int argc, char** argv)
 
     const size_t fsz = in.getFileSz();
     piol->isErr();
+
+    // The output file may have existed before
+    out.setFileSz(fsz + (rep - 1) * (fsz - SEGY_utils::getHOSz()));
+    piol->isErr();
+
     if (fsz / numRank < SEGY_utils::getHOSz()) {
         smallCopy(*piol, &in, &out, rep);
     }
-- 
2.43.0


From c5fd2dd941c26066e005ae05b5bfa6e3f014e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 50/73] fix: makerep exchanges data between any processes

Block boundaries can move beyond the neighbouring process, and a process
may have nothing to give to or to take from its neighbours.  The parts were
sent to the adjacent ranks only, whatever they had.
---
 util/makerep.cc | 120 +++++++++++++++++++-----------------------------
 1 file changed, 48 insertions(+), 72 deletions(-)

diff --git a/util/makerep.cc b/util/makerep.cc
index ac22599..afca351 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -46,71 +46,55 @@ void smallCopy(
     }
 }
 
+/*! Move the data from one contiguous decomposition to another one.
+ *  @param[in] piol The piol object
+ *  @param[in] old The decomposition the data has
+ *  @param[in] newd The decomposition the data should have
+ *  @param[in,out] vec The local data
+ */
 void distribToDistrib(
-  size_t rank,
+  const ExSeis& piol,
   exseis::utils::Contiguous_decomposition old,
   exseis::utils::Contiguous_decomposition newd,
   std::vector<unsigned char>* vec)
 {
+    auto oldOffset = piol.comm->gather<size_t>(old.global_offset);
+    auto oldSize   = piol.comm->gather<size_t>(old.local_size);
+    auto newOffset = piol.comm->gather<size_t>(newd.global_offset);
+    auto newSize   = piol.comm->gather<size_t>(newd.local_size);
+
+    // The part of one decomposition which is also in the other one
+    auto overlap = [](size_t offset1, size_t sz1, size_t offset2, size_t sz2) {
+        size_t start = std::max(offset1, offset2);
+        size_t end   = std::min(offset1 + sz1, offset2 + sz2);
+        return std::make_pair(start, end > start ? end - start : 0LU);
+    };
+
+    // The boundaries can move further than to the next process as some
+    // processes may have little or no data.
     std::vector<MPI_Request> msg;
-
-    // if the old offset is less than the new offset
-    // Then the local process must give the data over to the
-    //-1 lower ranked process
-
-    // Cases 2, 3, 8
-    if (old.global_offset > newd.global_offset) {
-        size_t incStart = old.global_offset - newd.global_offset;
-        vec->resize(vec->size() + incStart);
-        // Making space for the move
-        std::move_backward(vec->begin(), vec->end() - incStart, vec->end());
-    }
-
-    if (
-      (old.global_offset + old.local_size)
-      < (newd.global_offset + newd.local_size)) {
-
-        vec->resize(
-          vec->size() + newd.global_offset + newd.local_size
-          - (old.global_offset + old.local_size));
-    }
-
-    if (old.global_offset < newd.global_offset) {
-        size_t sz = newd.global_offset - old.global_offset;
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Isend(
-          vec->data(), sz, exseis::utils::MPI_type<unsigned char>(), rank - 1,
-          1, MPI_COMM_WORLD, &msg.back());
-    }
-    else if (old.global_offset > newd.global_offset) {
-        size_t sz = old.global_offset - newd.global_offset;
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Irecv(
-          vec->data(), sz, exseis::utils::MPI_type<unsigned char>(), rank - 1,
-          0, MPI_COMM_WORLD, &msg.back());
-    }
-
-    if (
-      old.global_offset + old.local_size
-      > newd.global_offset + newd.local_size) {
-        size_t sz = old.global_offset + old.local_size
-                    - (newd.global_offset + newd.local_size);
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Isend(
-          vec->data() + vec->size() - sz, sz,
-          exseis::utils::MPI_type<unsigned char>(), rank + 1, 0, MPI_COMM_WORLD,
-          &msg.back());
+    std::vector<unsigned char> newvec(newd.local_size);
+    for (size_t i = 0; i < piol.getNumRank(); i++) {
+        auto part = overlap(
+          newd.global_offset, newd.local_size, oldOffset[i], oldSize[i]);
+        if (part.second > 0) {
+            msg.push_back(MPI_REQUEST_NULL);
+            MPI_Irecv(
+              newvec.data() + (part.first - newd.global_offset), part.second,
+              exseis::utils::MPI_type<unsigned char>(), i, 0, MPI_COMM_WORLD,
+              &msg.back());
+        }
     }
-    else if (
-      old.global_offset + old.local_size
-      < newd.global_offset + newd.local_size) {
-        size_t sz = (newd.global_offset + newd.local_size)
-                    - (old.global_offset + old.local_size);
-        msg.push_back(MPI_REQUEST_NULL);
-        MPI_Irecv(
-          vec->data() + vec->size() - sz, sz,
-          exseis::utils::MPI_type<unsigned char>(), rank + 1, 1, MPI_COMM_WORLD,
-          &msg.back());
+    for (size_t i = 0; i < piol.getNumRank(); i++) {
+        auto part = overlap(
+          old.global_offset, old.local_size, newOffset[i], newSize[i]);
+        if (part.second > 0) {
+            msg.push_back(MPI_REQUEST_NULL);
+            MPI_Isend(
+              vec->data() + (part.first - old.global_offset), part.second,
+              exseis::utils::MPI_type<unsigned char>(), i, 0, MPI_COMM_WORLD,
+              &msg.back());
+        }
     }
 
     MPI_Status stat;
@@ -125,13 +109,7 @@ void distribToDistrib(
         }
     }
 
-    // Cases 1, 4, 7
-    if (old.global_offset < newd.global_offset) {
-        size_t decStart = newd.global_offset - old.global_offset;
-        std::move(vec->begin() + decStart, vec->end(), vec->begin());
-    }
-
-    vec->resize(newd.local_size);
+    *vec = std::move(newvec);
 }
 
 // Write an arbitrary parallelised block sz to an arbitrary offset with the
@@ -139,8 +117,7 @@ void distribToDistrib(
 // writeArb(out, hosz + decSz*i + (fsz - hosz) * (j+1), decSz, &out)
 // off is the global offset
 Contiguous_decomposition writeArb(
-  size_t rank,
-  size_t numRank,
+  const ExSeis& piol,
   DataInterface* out,
   size_t off,
   size_t bsz,
@@ -148,12 +125,13 @@ Contiguous_decomposition writeArb(
   size_t tsz,
   std::vector<unsigned char>* vec)
 {
-    auto newdec = blockDecomp(tsz, bsz, numRank, rank, off);
+    size_t numRank = piol.getNumRank();
+    auto newdec    = blockDecomp(tsz, bsz, numRank, piol.getRank(), off);
 
     // If there is one rank this is pointless
     if (numRank != 1) {
         // Reorder operations along new boundaries
-        distribToDistrib(rank, dec, newdec, vec);
+        distribToDistrib(piol, dec, newdec, vec);
     }
 
     out->write(off + newdec.global_offset, newdec.local_size, vec->data());
@@ -205,11 +183,9 @@ void mpiMakeSEGYCopy(
 
             rblock -= hosz;
         }
-        size_t rank    = piol.getRank();
-        size_t numRank = piol.getNumRank();
         for (size_t j = 1; j < repRate; j++) {
             dec = writeArb(
-              rank, numRank, out,
+              piol, out,
               (i == 0 ? hosz : i) + (fsz - hosz) * j, bsz, dec, rblock, &buf);
         }
     }
-- 
2.43.0


From 076dc61c8fdecb392729d0522312fac2cd60d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:50 +0000
Subject: [PATCH 51/73] fix: filemake balances its collective writes with calls
 of the same kind

PIOL_PARAM_NULL selects the writing of samples only, whose collective calls
are other ones than those of writing traces with their headers.
---
 util/filemake.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/filemake.cc b/util/filemake.cc
index 8a2fc06..18fa2eb 100644
--- a/util/filemake.cc
+++ b/util/filemake.cc
@@ -53,7 +53,7 @@ void writeContig(
         piol.isErr();
     }
     for (size_t j = 0; j < extra; j++) {
-        file->writeTrace(0U, size_t(0), nullptr, PIOL_PARAM_NULL);
+        file->writeTrace(0U, size_t(0), nullptr, nullptr);
         piol.isErr();
     }
 }
@@ -122,7 +122,7 @@ void writeRandom(
     }
 
     for (size_t j = 0; j < extra; j++) {
-        file->writeTraceNonContiguous(0U, nullptr, nullptr, PIOL_PARAM_NULL);
+        file->writeTraceNonContiguous(0U, nullptr, nullptr, nullptr);
         piol.isErr();
     }
 }
-- 
2.43.0


From 70cd3fb7b2630ceff531204316ff895791db7bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:50 +0000
Subject: [PATCH 52/73] fix: filemake -r gives each trace its own samples

All traces of a block were filled as if they followed its first trace, so
the contents depended on the number of processes.
---
 util/filemake.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/filemake.cc b/util/filemake.cc
index 18fa2eb..1a22743 100644
--- a/util/filemake.cc
+++ b/util/filemake.cc
@@ -114,8 +114,10 @@ void writeRandom(
             param_utils::setPrm(j, PIOL_META_tn, offset[i + j], &prm);
         }
         for (size_t j = 0; j < trc.size(); j++) {
-            trc[j] =
-              fhalf - std::abs(-fhalf + float((offset[i]) * ns + j)) - off;
+            trc[j] = fhalf
+                     - std::abs(
+                         -fhalf + float(offset[i + j / ns] * ns + j % ns))
+                     - off;
         }
         file->writeTraceNonContiguous(rblock, &offset[i], trc.data(), &prm);
         piol.isErr();
-- 
2.43.0


From 2813d9eb5607de43bd0d4d1f4689d42822f471e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:50 +0000
Subject: [PATCH 53/73] fix: the lobsided decomposition of filemake never
 exceeds the total

The rounded shares could add up to more than there are traces, and the
first process was left with a negative number of them.
---
 util/sglobal.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/sglobal.cc b/util/sglobal.cc
index b7785e4..a57ff27 100644
--- a/util/sglobal.cc
+++ b/util/sglobal.cc
@@ -8,9 +8,10 @@
 std::vector<size_t> lobdecompose(
   exseis::PIOL::ExSeisPIOL* piol, size_t sz, size_t numRank, size_t rank)
 {
-    double total = (numRank * (numRank + 1U)) / 2U;
+    size_t total = (numRank * (numRank + 1U)) / 2U;
     rank++;
-    size_t lnt = std::lround(double(sz * rank) / total);
+    // Rounded down: the first process takes what remains
+    size_t lnt = (sz * rank) / total;
 
     auto rem = sz - piol->comm->sum(lnt);
     if (rank == 1) {
-- 
2.43.0


From 0619e2497996c59419e371fd5798faa44c2f654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:46 +0000
Subject: [PATCH 54/73] fix: copies of DataMPIIO::Opt own their MPI_Info

---
 include/ExSeisDat/PIOL/DataMPIIO.hh |  9 +++++++++
 src/DataMPIIO.cc                    | 28 ++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/include/ExSeisDat/PIOL/DataMPIIO.hh b/include/ExSeisDat/PIOL/DataMPIIO.hh
index 0c3710b..a730d0d 100644
--- a/include/ExSeisDat/PIOL/DataMPIIO.hh
+++ b/include/ExSeisDat/PIOL/DataMPIIO.hh
@@ -64,6 +64,15 @@ class DataMPIIO : public DataInterface {
         /// The constructor to set default options
         Opt(void);
 
+        /// The copy constructor, which duplicates the info structure
+        /// @param[in] other The options to copy
+        Opt(const Opt& other);
+
+        /// The copy assignment, which duplicates the info structure
+        /// @param[in] other The options to copy
+        /// @return A reference to this structure
+        Opt& operator=(const Opt& other);
+
         /// The destructor
         ~Opt(void);
     };
diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index b78d9c8..ca7151f 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -216,6 +216,34 @@ DataMPIIO::Opt::Opt(void)
       "mpiio", exseis::utils::MPI_max_array_length<int32_t>());
 }
 
+DataMPIIO::Opt::Opt(const Opt& other) :
+    coll(other.coll), info(MPI_INFO_NULL), maxSize(other.maxSize),
+    fcomm(other.fcomm)
+{
+    if (other.info != MPI_INFO_NULL) {
+        MPI_Info_dup(other.info, &info);
+    }
+}
+
+DataMPIIO::Opt& DataMPIIO::Opt::operator=(const Opt& other)
+{
+    if (this != &other) {
+        if (info != MPI_INFO_NULL) {
+            MPI_Info_free(&info);
+        }
+
+        coll    = other.coll;
+        info    = MPI_INFO_NULL;
+        maxSize = other.maxSize;
+        fcomm   = other.fcomm;
+
+        if (other.info != MPI_INFO_NULL) {
+            MPI_Info_dup(other.info, &info);
+        }
+    }
+    return *this;
+}
+
 DataMPIIO::Opt::~Opt(void)
 {
     if (info != MPI_INFO_NULL) {
-- 
2.43.0


From 599de88efdae2c69e808a6c379fc84cbc53ab2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:55 +0000
Subject: [PATCH 55/73] fix: header values which share a scaler never overflow

The scaler of a group of floating point header fields was the one with the
most digits any of the values needs, so that a big value next to one with more
decimal digits was truncated to 32 bits: 300000.1234 next to 5800000.5 stored a
northing of 1505032.704 instead of 5800000.5.  Lower the precision until every
value fits.
---
 src/segy_utils.cc | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index 01a05b9..5801f78 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -13,6 +13,30 @@ namespace exseis {
 namespace PIOL {
 namespace SEGY_utils {
 
+/*! Can a value be stored in a header field with a scaler?
+ *  @param[in] val  The value
+ *  @param[in] scal The SEG-Y scaler
+ *  @return Return true if the scaled value fits in the field.
+ */
+static bool is_storable(exseis::utils::Floating_point val, int16_t scal)
+{
+    const exseis::utils::Integer stored = std::lround(val / parse_scalar(scal));
+    return stored == static_cast<int32_t>(stored);
+}
+
+/*! The SEG-Y scaler which stores one digit less than the given one.
+ *  @param[in] scal The SEG-Y scaler
+ *  @return Return the next scaler of -10000, ..., -10, 1, 10, ..., 10000.
+ */
+static int16_t coarser_scalar(int16_t scal)
+{
+    if (scal < -10) {
+        return scal / 10;
+    }
+
+    return (scal < 0 ? 1 : scal * 10);
+}
+
 void insertParam(
   size_t sz, const Param* prm, unsigned char* buf, size_t stride, size_t skip)
 {
@@ -103,6 +127,20 @@ void insertParam(
             }
         }
 
+        // The fields which share a scaler have different needs: the scaler must
+        // be able to store the biggest of them, whatever digits the others
+        // have.
+        for (const auto t : rule) {
+            const auto val = prm->f[(i + skip) * r->numFloat + t->num];
+
+            auto& s = scal[static_cast<Tr>(t->scalLoc)];
+
+            while (!is_storable(val, s) && s != 0 && s < 10000
+                   && find_scalar(val) != 0) {
+                s = coarser_scalar(s);
+            }
+        }
+
         // Finish off the floats. Floats are inherently annoying in SEG-Y
         for (const auto& s : scal) {
             const auto be = to_big_endian(s.second);
-- 
2.43.0


From 514671cdb93dcd996be3b8bedbeb634e64b332e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:57 +0000
Subject: [PATCH 56/73] fix: copied header values keep their meaning when their
 scaler changes

A rule with COPY writes the copied header and then the values of the rule with
the scaler these need.  The other values of the header which share the scaler
kept their digits and so changed by a power of ten: a sort which keeps the whole
header and knows the receiver water depth multiplied the other elevations
whenever the water depth needed another scaler than the input had.  Store these
values with the scaler that is written.
---
 src/segy_utils.cc | 159 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 125 insertions(+), 34 deletions(-)

diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index 5801f78..0ccbb77 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -37,6 +37,93 @@ static int16_t coarser_scalar(int16_t scal)
     return (scal < 0 ? 1 : scal * 10);
 }
 
+/// A value which is stored with the help of a scaler
+struct ScaledValue {
+    /// The location of the value
+    size_t loc;
+
+    /// The location of the scaler
+    size_t scalLoc;
+
+    /// The value
+    exseis::utils::Floating_point val;
+};
+
+/*! Append the values of a copied header which share a scaler with the values of
+ *  a rule but are not part of the rule themselves.
+ *  @param[in] r          The rule
+ *  @param[in] header     The copied header
+ *  @param[in,out] values The values which are stored according to the rule, the
+ *                        others are appended
+ */
+static void append_copied_values(
+  const Rule& r, const unsigned char* header, std::vector<ScaledValue>& values)
+{
+    // The values of the SEG-Y standard which have a scaler
+    static const std::vector<std::pair<Tr, std::vector<Tr>>> groups{
+      {PIOL_TR_ScaleElev,
+       {PIOL_TR_RcvElv, PIOL_TR_SurfElvSrc, PIOL_TR_SrcDpthSurf,
+        PIOL_TR_DtmElvRcv, PIOL_TR_DtmElvSrc, PIOL_TR_WtrDepSrc,
+        PIOL_TR_WtrDepRcv}},
+      {PIOL_TR_ScaleCoord,
+       {PIOL_TR_xSrc, PIOL_TR_ySrc, PIOL_TR_xRcv, PIOL_TR_yRcv, PIOL_TR_xCmp,
+        PIOL_TR_yCmp}},
+      {PIOL_TR_ShotScal, {PIOL_TR_ShotNum}}};
+
+    const size_t num_ruled = values.size();
+
+    for (const auto& group : groups) {
+        const size_t scalLoc = group.first;
+
+        const bool is_rewritten = std::any_of(
+          values.begin(), values.begin() + num_ruled,
+          [&](const ScaledValue& v) { return v.scalLoc == scalLoc; });
+
+        if (!is_rewritten) {
+            continue;
+        }
+
+        const auto scale = parse_scalar(from_big_endian<int16_t>(
+          header[scalLoc - 1LU], header[scalLoc]));
+
+        for (const size_t loc : group.second) {
+            const bool is_ruled = std::any_of(
+              r.translate.begin(), r.translate.end(),
+              [&](const Rule::RuleMap::value_type& entry) {
+                  const auto t = entry.second;
+                  switch (t->type()) {
+                      case RuleEntry::MdType::Short:
+                          return t->loc < loc + 4LU && loc < t->loc + 2LU;
+
+                      case RuleEntry::MdType::Long:
+                          return t->loc < loc + 4LU && loc < t->loc + 4LU;
+
+                      case RuleEntry::MdType::Float: {
+                          const size_t s =
+                            dynamic_cast<SEGYFloatRuleEntry*>(t)->scalLoc;
+
+                          return (t->loc < loc + 4LU && loc < t->loc + 4LU)
+                                 || (s < loc + 4LU && loc < s + 2LU);
+                      }
+
+                      default:
+                          return false;
+                  }
+              });
+
+            if (!is_ruled) {
+                values.push_back(
+                  {loc, scalLoc,
+                   scale
+                     * static_cast<exseis::utils::Floating_point>(
+                         from_big_endian<int32_t>(
+                           header[loc - 1LU], header[loc], header[loc + 1LU],
+                           header[loc + 2LU]))});
+            }
+        }
+    }
+}
+
 void insertParam(
   size_t sz, const Param* prm, unsigned char* buf, size_t stride, size_t skip)
 {
@@ -68,12 +155,12 @@ void insertParam(
 
 // Compiler defects
 #if defined(__INTEL_COMPILER) || __GNUC__ < 6
-        std::unordered_map<Tr, int16_t, EnumHash> scal;
+        std::unordered_map<size_t, int16_t, EnumHash> scal;
 #else
-        std::unordered_map<Tr, int16_t> scal;
+        std::unordered_map<size_t, int16_t> scal;
 #endif
 
-        std::vector<const SEGYFloatRuleEntry*> rule;
+        std::vector<ScaledValue> values;
 
         for (const auto v : r->translate) {
 
@@ -82,26 +169,13 @@ void insertParam(
 
             switch (t->type()) {
 
-                case RuleEntry::MdType::Float: {
-
-                    rule.push_back(dynamic_cast<SEGYFloatRuleEntry*>(t));
+                case RuleEntry::MdType::Float:
 
-                    auto tr = static_cast<Tr>(rule.back()->scalLoc);
+                    values.push_back(
+                      {t->loc, dynamic_cast<SEGYFloatRuleEntry*>(t)->scalLoc,
+                       prm->f[(i + skip) * r->numFloat + t->num]});
 
-                    const int16_t scal1 =
-                      (scal.find(tr) != scal.end() ? scal[tr] : 1);
-                    const int16_t scal2 =
-                      find_scalar(prm->f[(i + skip) * r->numFloat + t->num]);
-
-                    // if the scale is bigger than 1 that means we need to use
-                    // the largest to ensure conservation of the most
-                    // significant  digit otherwise we choose the scale that
-                    // preserves the  most digits after the decimal place.
-                    scal[tr] =
-                      ((scal1 > 1 || scal2 > 1) ? std::max(scal1, scal2) :
-                                                  std::min(scal1, scal2));
-
-                } break;
+                    break;
 
                 case RuleEntry::MdType::Short: {
 
@@ -127,16 +201,34 @@ void insertParam(
             }
         }
 
+        // The scaler of the copied values changes with the others
+        if (r->numCopy != 0) {
+            append_copied_values(
+              *r, &prm->c[(i + skip) * SEGY_utils::getMDSz()], values);
+        }
+
+        for (const auto& v : values) {
+            const int16_t scal1 =
+              (scal.find(v.scalLoc) != scal.end() ? scal[v.scalLoc] : 1);
+            const int16_t scal2 = find_scalar(v.val);
+
+            // if the scale is bigger than 1 that means we need to use
+            // the largest to ensure conservation of the most
+            // significant  digit otherwise we choose the scale that
+            // preserves the  most digits after the decimal place.
+            scal[v.scalLoc] =
+              ((scal1 > 1 || scal2 > 1) ? std::max(scal1, scal2) :
+                                          std::min(scal1, scal2));
+        }
+
         // The fields which share a scaler have different needs: the scaler must
         // be able to store the biggest of them, whatever digits the others
         // have.
-        for (const auto t : rule) {
-            const auto val = prm->f[(i + skip) * r->numFloat + t->num];
+        for (const auto& v : values) {
+            auto& s = scal[v.scalLoc];
 
-            auto& s = scal[static_cast<Tr>(t->scalLoc)];
-
-            while (!is_storable(val, s) && s != 0 && s < 10000
-                   && find_scalar(val) != 0) {
+            while (!is_storable(v.val, s) && s != 0 && s < 10000
+                   && find_scalar(v.val) != 0) {
                 s = coarser_scalar(s);
             }
         }
@@ -146,18 +238,17 @@ void insertParam(
             const auto be = to_big_endian(s.second);
 
             std::copy(
-              std::begin(be), std::end(be), &md[size_t(s.first) - 1LU]);
+              std::begin(be), std::end(be), &md[s.first - 1LU]);
         }
 
-        for (size_t j = 0; j < rule.size(); j++) {
+        for (const auto& v : values) {
             exseis::utils::Floating_point gscale =
-              parse_scalar(scal[static_cast<Tr>(rule[j]->scalLoc)]);
+              parse_scalar(scal[v.scalLoc]);
 
-            const auto be = to_big_endian(int32_t(std::lround(
-              prm->f[(i + skip) * r->numFloat + rule[j]->num] / gscale)));
+            const auto be =
+              to_big_endian(int32_t(std::lround(v.val / gscale)));
 
-            std::copy(
-              std::begin(be), std::end(be), &md[rule[j]->loc - 1LU]);
+            std::copy(std::begin(be), std::end(be), &md[v.loc - 1LU]);
         }
     }
 }
-- 
2.43.0


From bd6c7d5a489555696160aa90aeae1cf5d8cd5513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:02 +0000
Subject: [PATCH 57/73] fix: reading with a rule which has no local trace
 number

readTrace set the local trace number of every trace even if the rule does not
have the entry, such as a rule made from a map or after rmRule(): the missing
entry was created as a null pointer and dereferenced.
---
 src/ReadSEGY.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index ae0df42..5632f13 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -190,8 +190,14 @@ void readTraceT(
           sz, buf, prm, (trc != TRACE_NULL ? SEGY_utils::getDFSz(ns) : 0LU),
           skip);
 
-        for (size_t i = 0; i < sz; i++) {
-            param_utils::setPrm(i + skip, PIOL_META_ltn, offunc(i), prm);
+        // A rule does not need to have every entry
+        if (
+          sz != 0
+          && prm->r->translate.find(PIOL_META_ltn)
+               != prm->r->translate.end()) {
+            for (size_t i = 0; i < sz; i++) {
+                param_utils::setPrm(i + skip, PIOL_META_ltn, offunc(i), prm);
+            }
         }
     }
 
-- 
2.43.0


From 3a42e2d3c14d99e874506f0a0215a463f938e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:51 +0000
Subject: [PATCH 58/73] fix: the extent of rules without file entries and of
 rules with COPY

Rule::extent returned 2^64 - 240 for a rule which stores nothing, and the extent
from before addCopy() after it.
---
 src/Rule.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Rule.cc b/src/Rule.cc
index ad9ac23..947908a 100644
--- a/src/Rule.cc
+++ b/src/Rule.cc
@@ -249,6 +249,11 @@ size_t Rule::extent(void)
             }
         }
 
+        // Nothing is stored
+        if (end < start) {
+            start = end;
+        }
+
         flag.badextent = false;
     }
 
@@ -307,6 +312,8 @@ void Rule::addCopy(void)
     if (numCopy == 0) {
         translate[PIOL_META_COPY] = new SEGYCopyRuleEntry();
         numCopy++;
+
+        flag.badextent = (!flag.fullextent);
     }
 }
 
-- 
2.43.0


From 6adbd70843d848e2943403d81910deb6584a0d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:09 +0000
Subject: [PATCH 59/73] fix: verbose 4D binning does not need to write its
 range files

---
 util/4dcore.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 61e82d6..1ac76ca 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -60,12 +60,17 @@ void printxSMinMax(
     size_t rank      = piol->comm->getRank();
     std::string name = "tmp/temp" + std::to_string(rank);
     FILE* fOut       = fopen(name.c_str(), "w+");
-    fprintf(fOut, "1-xsmin/max %f %f\n", xslmin, xslmax);
-    fprintf(fOut, "2-xsmin/max %f %f\n", xsrmin, xsrmax);
-    for (size_t i = 0; i < active.size(); i++) {
-        fprintf(fOut, "%zu\n", active[i]);
+    if (fOut != nullptr) {
+        fprintf(fOut, "1-xsmin/max %f %f\n", xslmin, xslmax);
+        fprintf(fOut, "2-xsmin/max %f %f\n", xsrmin, xsrmax);
+        for (size_t i = 0; i < active.size(); i++) {
+            fprintf(fOut, "%zu\n", active[i]);
+        }
+        fclose(fOut);
+    }
+    else {
+        std::cerr << "Could not open " << name << std::endl;
     }
-    fclose(fOut);
 
     auto lxsmin = piol->comm->gather(std::vector<fourd_t>{xslmin});
     auto lxsmax = piol->comm->gather(std::vector<fourd_t>{xslmax});
-- 
2.43.0


From 2f26a23a369924cc8a32209e88f9baddc5483ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:09 +0000
Subject: [PATCH 60/73] fix: the restart files of verbose 4D binning are
 written in release builds

---
 util/fourdbin.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/util/fourdbin.cc b/util/fourdbin.cc
index 604ed27..ace795a 100644
--- a/util/fourdbin.cc
+++ b/util/fourdbin.cc
@@ -146,11 +146,17 @@ int main(int argc, char** argv)
         std::string name = "tmp/restart" + std::to_string(piol->getRank());
         FILE* fOut       = fopen(name.c_str(), "w+");
         size_t sz        = list1.size();
-        assert(fwrite(&sz, sizeof(size_t), 1U, fOut) == 1U);
-        assert(fwrite(list1.data(), sizeof(size_t), sz, fOut) == sz);
-        assert(fwrite(list2.data(), sizeof(size_t), sz, fOut) == sz);
-        assert(fwrite(lminrs.data(), sizeof(fourd_t), sz, fOut) == sz);
-        fclose(fOut);
+        bool written     = fOut != nullptr;
+        if (written) {
+            written = fwrite(&sz, sizeof(size_t), 1U, fOut) == 1U
+                      && fwrite(list1.data(), sizeof(size_t), sz, fOut) == sz
+                      && fwrite(list2.data(), sizeof(size_t), sz, fOut) == sz
+                      && fwrite(lminrs.data(), sizeof(fourd_t), sz, fOut) == sz;
+            written = fclose(fOut) == 0 && written;
+        }
+        if (!written) {
+            std::cerr << "Could not write " << name << std::endl;
+        }
     }
 
     // free up some memory
-- 
2.43.0


From 429bd5c5e94b613d7e1077811a96e4fc792bd0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:01 +0000
Subject: [PATCH 61/73] fix: filter order from corner frequencies for every
 filter type and sampling frequency

filterOrder was given frequencies in Hz where the formula needs fractions of
the sampling frequency, and returned a negative order for the rising edge of
highpass, bandpass and bandstop filters (crash). The assertion on the number
of corners rejected the four corners which band filters need.
---
 .../ExSeisDat/PIOL/operations/temporalfilter.hh  |  4 ++--
 src/Flow/Set.cc                                  |  6 +++++-
 src/temporalfilter.cc                            | 16 +++++++++-------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/ExSeisDat/PIOL/operations/temporalfilter.hh b/include/ExSeisDat/PIOL/operations/temporalfilter.hh
index ab3c986..b7a13cd 100644
--- a/include/ExSeisDat/PIOL/operations/temporalfilter.hh
+++ b/include/ExSeisDat/PIOL/operations/temporalfilter.hh
@@ -68,8 +68,8 @@ using Complex_trace_value = std::complex<exseis::utils::Trace_value>;
 
 
 /*! Determines the filter order if given passband and stopband frequecnies
- *  @param[in] cornerP Passband corner
- *  @param[in] cornerS Stopband corner
+ *  @param[in] cornerP Passband corner as a fraction of the sampling frequency
+ *  @param[in] cornerS Stopband corner as a fraction of the sampling frequency
  *  @return Filter order
  */
 size_t filterOrder(
diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 8e42efb..5a37837 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -792,7 +792,11 @@ void Set::temporalFilter(
   size_t nw,
   size_t winCntr)
 {
-    assert(corners.size() == 2);
+    // The passband and the stopband frequency of each edge
+    assert(
+      corners.size()
+      == (type == FltrType::Bandpass || type == FltrType::Bandstop ? 4LU :
+                                                                     2LU));
     OpOpt opt = {FuncOpt::NeedTrcVal, FuncOpt::ModTrcVal, FuncOpt::DepTrcVal,
                  FuncOpt::SingleTrace};
     func.emplace_back(std::make_shared<Op<InPlaceMod>>(
diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 31599f8..6077192 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -44,8 +44,10 @@ size_t filterOrder(
     static const exseis::utils::Trace_value val = exseis::utils::Floating_point(
       0.5 * std::log(99.0 / (std::pow(10.0, 0.3) - 1.0)));
 
+    // The stopband corner is below the passband corner on a rising edge.
     return std::ceil(
-      val / std::log(std::tan(pi * cornerS) / std::tan(pi * cornerP)));
+      val
+      / std::fabs(std::log(std::tan(pi * cornerS) / std::tan(pi * cornerP))));
 }
 
 void expandPoly(
@@ -257,14 +259,14 @@ void temporalFilter(
         default:
         case FltrType::Lowpass: {
             std::vector<exseis::utils::Trace_value> c = {corner[0LU], 0LU};
-            size_t N = filterOrder(corner[0LU], corner[1LU]);
+            size_t N = filterOrder(corner[0LU] / fs, corner[1LU] / fs);
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c, N);
         } break;
 
         case FltrType::Highpass: {
             std::vector<exseis::utils::Trace_value> c = {corner[1LU], 0LU};
-            size_t N = filterOrder(corner[1LU], corner[0LU]);
+            size_t N = filterOrder(corner[1LU] / fs, corner[0LU] / fs);
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c, N);
         } break;
@@ -275,8 +277,8 @@ void temporalFilter(
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c,
               std::max(
-                filterOrder(corner[1], corner[0]),
-                filterOrder(corner[2], corner[3])));
+                filterOrder(corner[1] / fs, corner[0] / fs),
+                filterOrder(corner[2] / fs, corner[3] / fs)));
         } break;
 
         case FltrType::Bandstop: {
@@ -285,8 +287,8 @@ void temporalFilter(
             temporalFilter(
               nt, ns, trc, fs, type, domain, pad, nw, winCntr, c,
               std::max(
-                filterOrder(corner[0], corner[1]),
-                filterOrder(corner[3], corner[2])));
+                filterOrder(corner[0] / fs, corner[1] / fs),
+                filterOrder(corner[3] / fs, corner[2] / fs)));
         } break;
     }
 }
-- 
2.43.0


From a36893368c9d557ed0534ecd35cbb1e91c97dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:53 +0000
Subject: [PATCH 62/73] fix: coordinates in KML files with zeros after the
 decimal point and negative ones

The digits after the point were written as an integer, without its leading
zeros, and counted from the next smaller integer: 5.05 was written as 5.5 and
-5.25 as -6.75.
---
 util/segy2kml.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 29f3e5f..3ffcfd6 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -6,7 +6,9 @@
 
 #include <algorithm>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <sstream>
 #include <sys/stat.h>
 #include <unistd.h>
 
@@ -44,9 +46,9 @@ void initKML(std::ofstream& file, std::string oname, std::string folder)
  */
 std::string highPrecStr(exseis::utils::Floating_point coord)
 {
-    return std::to_string(static_cast<long long>(std::floor(coord))) + "."
-           + std::to_string(static_cast<long long>(
-               std::floor((coord - std::floor(coord)) * 10000000000)));
+    std::ostringstream str;
+    str << std::fixed << std::setprecision(10) << coord;
+    return str.str();
 }
 
 /*! Add a line containing coordinates data to the KML file.
-- 
2.43.0


From 04b9ee964bd9cc0a12486d29145c658205ce3f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:02 +0000
Subject: [PATCH 63/73] fix: conversion of UTM coordinates to latitude and
 longitude

Ratios of integers were rounded down, two terms of the series had the wrong
sign and one the wrong value, and the northings of the southern hemisphere
were taken as distances from the equator. The results were wrong by up to
hundreds of metres in the north, and useless in the south.
---
 util/segy2kml.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 3ffcfd6..7e897b6 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -101,8 +101,11 @@ void utm2LatLong(
   exseis::utils::Floating_point& lat,
   exseis::utils::Floating_point& lng)
 {
-    exseis::utils::Floating_point hemi =
-      (std::toupper(utmZone.back()) == 'N' ? 1 : -1);
+    // Northings of the southern hemisphere are counted from 10000 km south of
+    // the equator
+    if (std::toupper(utmZone.back()) == 'S') {
+        northing -= 10000000;
+    }
     exseis::utils::Floating_point numZone = std::stof(utmZone);
 
     exseis::utils::Floating_point const eqRad  = 6378137;
@@ -120,31 +123,31 @@ void utm2LatLong(
             - 5 * std::pow(E, 6U) / 256));
     exseis::utils::Floating_point phi =
       mu + (3 * ei / 2 - 27 * std::pow(ei, 3) / 32) * std::sin(2 * mu)
-      + (21 / 16 * std::pow(ei, 2U) - 55 / 32 * std::pow(ei, 4U))
+      + (21.0 / 16 * std::pow(ei, 2U) - 55.0 / 32 * std::pow(ei, 4U))
           * std::sin(4 * mu)
-      + (151 / 96 * std::pow(ei, 3U) - 417 / 128 * std::pow(ei, 5U))
+      + (151.0 / 96 * std::pow(ei, 3U) - 417.0 / 128 * std::pow(ei, 5U))
           * std::sin(6 * mu)
-      + (1097 / 512 * std::pow(ei, 4U)) * std::sin(8 * mu);
+      + (1097.0 / 512 * std::pow(ei, 4U)) * std::sin(8 * mu);
     exseis::utils::Floating_point c =
       (E * E / (1 - E * E)) * std::pow(std::cos(phi), 2);
     exseis::utils::Floating_point d =
       x / (k0 * eqRad / std::sqrt(1 - std::pow(E * std::sin(phi), 2)));
     lat =
-      (180 * hemi / std::acos(-1))
+      (180 / std::acos(-1))
       * (phi
          - ((1 - std::pow(E * std::sin(phi), 2)) * std::tan(phi) / (1 - E * E))
              * ((d * d / 2)
-                + ((5 + 3 * std::pow(std::tan(phi), 2) + 10 * c - 4 * c * c
+                - ((5 + 3 * std::pow(std::tan(phi), 2) + 10 * c - 4 * c * c
                     - 9 * (E * E / (1 - E * E)))
                    * std::pow(d, 4) / 24)
                 + ((61 + 90 * std::pow(std::tan(phi), 2)
-                    + 298 * std::pow(std::tan(phi), 4)
+                    + 298 * c + 45 * std::pow(std::tan(phi), 4)
                     - 252 * (E * E / (1 - E * E)) - 3 * c * c)
                    * std::pow(d, 6) / 720)));
     lng =
       (6 * numZone - 183)
       - (180
-         * (d + ((1 + 2 * std::pow(std::tan(phi), 2) + c) * std::pow(d, 3) / 6)
+         * (d - ((1 + 2 * std::pow(std::tan(phi), 2) + c) * std::pow(d, 3) / 6)
             + ((5 - 2 * c + 28 * std::pow(std::tan(phi), 2) - 3 * c * c
                 + 24 * std::pow(std::tan(phi), 4) + 8 * (E * E / (1 - E * E)))
                * std::pow(d, 5) / 120))
-- 
2.43.0


From ce27b57f4e4ba25e6cdf050897b19c874b35a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:13 +0000
Subject: [PATCH 64/73] fix: longitude and latitude of files with geographic
 coordinates in KML files

x, the longitude, was written as the latitude, and such files were always
reported as having invalid coordinates.
---
 util/segy2kml.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/util/segy2kml.cc b/util/segy2kml.cc
index 7e897b6..a6ab8f6 100644
--- a/util/segy2kml.cc
+++ b/util/segy2kml.cc
@@ -292,10 +292,17 @@ int main(int argc, char** argv)
               minmax[1].val, minmax[3].val, utmZone, minmax[1].val,
               minmax[3].val);
         }
-        else if (utmZone.empty()) {
-            std::cerr << "\nError: Invalid coordinates found in file.\n";
-            std::cerr << "       Expected lat/long but values must be UTM.\n";
-            std::cerr << "       Use the -z option to specify the UTM zone.\n";
+        else {
+            if (minmax[0].val > 180) {
+                std::cerr << "\nError: Invalid coordinates found in file.\n";
+                std::cerr
+                  << "       Expected lat/long but values must be UTM.\n";
+                std::cerr
+                  << "       Use the -z option to specify the UTM zone.\n";
+            }
+            // x is the longitude, the lines are made from latitude, longitude
+            std::swap(minmax[0], minmax[2]);
+            std::swap(minmax[1], minmax[3]);
         }
         addLine(ofile, iname[i], minmax);
     }
-- 
2.43.0


From dc3a7f402cb5f2f5d448bfc6ccb2eb85eeb390c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:54 +0000
Subject: [PATCH 65/73] fix: negative line numbers in the listing of a trace

They were read as unsigned numbers.
---
 util/traceanalysis.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/traceanalysis.cc b/util/traceanalysis.cc
index 777e69c..82becb0 100644
--- a/util/traceanalysis.cc
+++ b/util/traceanalysis.cc
@@ -79,10 +79,12 @@ int main(int argc, char** argv)
                   << std::endl;
 
         std::cout << "il "
-                  << param_utils::getPrm<size_t>(0LU, PIOL_META_il, &prm)
+                  << param_utils::getPrm<exseis::utils::Integer>(
+                       0LU, PIOL_META_il, &prm)
                   << std::endl;
         std::cout << "xl "
-                  << param_utils::getPrm<size_t>(0LU, PIOL_META_xl, &prm)
+                  << param_utils::getPrm<exseis::utils::Integer>(
+                       0LU, PIOL_META_xl, &prm)
                   << std::endl;
     }
     return 0;
-- 
2.43.0


From 784918af142088095a2edb8f8b4ef7a7e43cfe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:34 +0000
Subject: [PATCH 66/73] fix: sorts by the offset of the header with negative
 offsets

The offsets are signed: as size_t all the negative ones became the same
huge value (after conversion to floating point), sorted last and not
among themselves.
---
 src/sort.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index 4360ee6..b32e6a0 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -148,7 +148,8 @@ static bool lessSrcOff(const Param* prm, const size_t i, const size_t j)
               i, PIOL_META_yRcv, prm);
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
 
             auto e2rx = param_utils::getPrm<exseis::utils::Floating_point>(
               j, PIOL_META_xRcv, prm);
@@ -156,7 +157,8 @@ static bool lessSrcOff(const Param* prm, const size_t i, const size_t j)
               j, PIOL_META_yRcv, prm);
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
 
             return (
               off1 < off2
@@ -208,7 +210,8 @@ static bool lessRcvOff(const Param* prm, const size_t i, const size_t j)
               i, PIOL_META_ySrc, prm);
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
 
             auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(
               j, PIOL_META_xSrc, prm);
@@ -216,7 +219,8 @@ static bool lessRcvOff(const Param* prm, const size_t i, const size_t j)
               j, PIOL_META_ySrc, prm);
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
 
             return (
               off1 < off2
@@ -279,10 +283,12 @@ static bool lessLineOff(const Param* prm, const size_t i, const size_t j)
 
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
             return (
               off1 < off2
               || (off1 == off2
@@ -319,7 +325,8 @@ static bool lessOffLine(const Param* prm, const size_t i, const size_t j)
       i, PIOL_META_yRcv, prm);
     auto off1 =
       (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                 param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                 param_utils::getPrm<exseis::utils::Integer>(
+                   i, PIOL_META_Offset, prm));
 
     auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(
       j, PIOL_META_xSrc, prm);
@@ -331,7 +338,8 @@ static bool lessOffLine(const Param* prm, const size_t i, const size_t j)
       j, PIOL_META_yRcv, prm);
     auto off2 =
       (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                 param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                 param_utils::getPrm<exseis::utils::Integer>(
+                   j, PIOL_META_Offset, prm));
 
     if (off1 < off2) {
         return true;
-- 
2.43.0


From eae9aeddbcba233a9bf4479be63e1ea7a4c776ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:42 +0000
Subject: [PATCH 67/73] fix: direct interfaces open their files on the
 communicator of the PIOL object

ReadDirect, WriteDirect and ReadModel opened files on MPI_COMM_WORLD:
with another communicator given to the PIOL object, opening a file waited
for processes which do not take part.
---
 src/ReadDirect.cc  |  4 +++-
 src/ReadModel.cc   | 20 +++++++++++++++++++-
 src/WriteDirect.cc |  3 ++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/ReadDirect.cc b/src/ReadDirect.cc
index b5372bb..d18b9ae 100644
--- a/src/ReadDirect.cc
+++ b/src/ReadDirect.cc
@@ -17,7 +17,9 @@ ReadDirect::ReadDirect(std::shared_ptr<ExSeisPIOL> piol, const std::string name)
 {
     const ReadSEGY::Opt f;
     const ObjectSEGY::Opt o;
-    const DataMPIIO::Opt d;
+    DataMPIIO::Opt d;
+    d.fcomm = piol->comm->getComm();
+
     auto data = std::make_shared<DataMPIIO>(piol, name, d, FileMode::Read);
     auto obj =
       std::make_shared<ObjectSEGY>(piol, name, o, data, FileMode::Read);
diff --git a/src/ReadModel.cc b/src/ReadModel.cc
index e9beef0..4baa725 100644
--- a/src/ReadModel.cc
+++ b/src/ReadModel.cc
@@ -13,9 +13,27 @@
 namespace exseis {
 namespace PIOL {
 
+namespace {
+
+/// @brief  Get the options to access a file by the processes of a PIOL object.
+/// @param[in] piol The PIOL object.
+/// @return The options.
+DataMPIIO::Opt dataOptions(const ExSeisPIOL& piol)
+{
+    DataMPIIO::Opt opt;
+    opt.fcomm = piol.comm->getComm();
+    return opt;
+}
+
+}  // namespace
+
 ReadModel::ReadModel(std::shared_ptr<ExSeisPIOL> piol, const std::string name) :
     ReadDirect(
-      piol, name, DataMPIIO::Opt(), ObjectSEGY::Opt(), ReadSEGYModel::Opt())
+      piol,
+      name,
+      dataOptions(*piol),
+      ObjectSEGY::Opt(),
+      ReadSEGYModel::Opt())
 {
 }
 
diff --git a/src/WriteDirect.cc b/src/WriteDirect.cc
index 8db1c6c..f78e6f9 100644
--- a/src/WriteDirect.cc
+++ b/src/WriteDirect.cc
@@ -17,7 +17,8 @@ WriteDirect::WriteDirect(
 {
     const WriteSEGY::Opt f;
     const ObjectSEGY::Opt o;
-    const DataMPIIO::Opt d;
+    DataMPIIO::Opt d;
+    d.fcomm = piol->comm->getComm();
 
     auto data = std::make_shared<DataMPIIO>(piol, name, d, FileMode::Write);
 
-- 
2.43.0


From 908df3e42a93325d79273b215f3b89773a8ca808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:52 +0000
Subject: [PATCH 68/73] fix: a sampling interval which SEG-Y cannot hold is an
 error

The interval of the file header has 16 bits: 0.04 s was stored as -25536 us
without any error.
---
 src/WriteSEGY.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index c52ef3d..d04ed61 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -13,6 +13,7 @@
 #include "ExSeisDat/PIOL/segy_utils.hh"
 #include "ExSeisDat/utils/encoding/number_encoding.hh"
 
+#include <cmath>
 #include <cstring>
 #include <limits>
 
@@ -183,6 +184,17 @@ void WriteSEGY::writeInc(const exseis::utils::Floating_point inc_)
         return;
     }
 
+    const auto interval = std::round(inc_ / incFactor);
+    if (
+      interval < std::numeric_limits<int16_t>::min()
+      || interval > std::numeric_limits<int16_t>::max()) {
+        piol->log->record(
+          name, Logger::Layer::File, Logger::Status::Error,
+          "The interval " + std::to_string(inc_) + " is too large for SEG-Y",
+          PIOL_VERBOSITY_NONE);
+        return;
+    }
+
     if (inc != inc_) {
         inc           = inc_;
         state.writeHO = true;
-- 
2.43.0


From 1f4652bd9480cad272a24864634f07ee95b4e200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:11 +0000
Subject: [PATCH 69/73] fix: an empty contiguous write does not extend the file
 to its offset

---
 src/WriteSEGY.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index d04ed61..478cb2a 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -306,7 +306,9 @@ void WriteSEGY::writeTrace(
 
     writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip);
     state.stalent = true;
-    nt            = std::max(offset + sz, nt);
+    if (sz != 0) {
+        nt = std::max(offset + sz, nt);
+    }
 }
 
 void WriteSEGY::writeTraceNonContiguous(
-- 
2.43.0


From b7088ec52ecc765cf54b5159a0b50a2a675b4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:01 +0000
Subject: [PATCH 70/73] fix: an unreadable or empty velocity model led to
 divisions by zero and reads past an empty array

---
 src/Flow/Set.cc      | 3 ++-
 src/ReadSEGYModel.cc | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 5a37837..a300a65 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -664,7 +664,8 @@ void Set::toAngle(
           // For each angle in the angle gather
           for (size_t j = 0; j < state->oGSz; j++) {
               // For each sample (angle + radon)
-              for (size_t z = 0; z < in->ns; z++) {
+              // (a model which could not be read has no samples)
+              for (size_t z = 0; z < in->ns && state->vNs != 0LU; z++) {
                   // We are using coordinate level accuracy when its not
                   // performance critical.
                   exseis::utils::Floating_point vmModel =
diff --git a/src/ReadSEGYModel.cc b/src/ReadSEGYModel.cc
index 47e8e85..16e8c13 100644
--- a/src/ReadSEGYModel.cc
+++ b/src/ReadSEGYModel.cc
@@ -29,6 +29,9 @@ ReadSEGYModel::ReadSEGYModel(
 {
     const size_t nt = ReadSEGY::readNt();
     if (nt == 0LU) {
+        // The increments are divided by, also for an empty grid
+        il = CoordinateParameters(0, 0, 1);
+        xl = CoordinateParameters(0, 0, 1);
         return;
     }
 
-- 
2.43.0


From 89d6c3e3726b928c045009382c36b77f796208c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:44 +0000
Subject: [PATCH 71/73] fix: makerep refuses an input shorter than the file
 header instead of reading past its buffer

---
 util/makerep.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/makerep.cc b/util/makerep.cc
index afca351..09b907b 100644
--- a/util/makerep.cc
+++ b/util/makerep.cc
@@ -288,6 +288,11 @@ int main(int argc, char** argv)
     const size_t fsz = in.getFileSz();
     piol->isErr();
 
+    if (fsz < SEGY_utils::getHOSz()) {
+        std::cerr << iname << " is too short for a SEG-Y file\n";
+        return -1;
+    }
+
     // The output file may have existed before
     out.setFileSz(fsz + (rep - 1) * (fsz - SEGY_utils::getHOSz()));
     piol->isErr();
-- 
2.43.0


From 1ce16fc2da1c269ee16152abe43c98206daeac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:12 +0000
Subject: [PATCH 72/73] fix: the extremes of a field outside the default rule
 crashed a process without traces

---
 include/ExSeisDat/PIOL/operations/minmax.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/ExSeisDat/PIOL/operations/minmax.h b/include/ExSeisDat/PIOL/operations/minmax.h
index 307f492..dd9e95c 100644
--- a/include/ExSeisDat/PIOL/operations/minmax.h
+++ b/include/ExSeisDat/PIOL/operations/minmax.h
@@ -86,18 +86,22 @@ std::vector<CoordElem> getCoordMinMax(
         return false;
     };
 
-    T temp;
-    if (!sz || !coord) {
-        coord = &temp;
+    // A process without elements does not take part
+    if (coord == nullptr) {
+        sz = 0LU;
     }
 
-    auto p = std::minmax_element(coord, coord + sz, min);
+    std::vector<exseis::utils::Floating_point> lminmax(2LU);
+    std::vector<size_t> ltrace(2LU, offset);
 
-    std::vector<exseis::utils::Floating_point> lminmax = {elem1(*p.first),
-                                                          elem1(*p.second)};
+    if (sz != 0LU) {
+        auto p = std::minmax_element(coord, coord + sz, min);
 
-    std::vector<size_t> ltrace = {offset + std::distance(coord, p.first),
-                                  offset + std::distance(coord, p.second)};
+        lminmax = {elem1(*p.first), elem1(*p.second)};
+
+        ltrace = {offset + std::distance(coord, p.first),
+                  offset + std::distance(coord, p.second)};
+    }
 
     auto tminmax = piol->comm->gather(lminmax);
     auto ttrace  = piol->comm->gather(ltrace);
-- 
2.43.0


From 9effbf42d60c3917e6c1623e10509c202cd15802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:04 +0000
Subject: [PATCH 73/73] fix: the files a gather flow keeps between its steps
 are named after its output

They were temp.segy and gtemp.segy for every flow: two groups of processes
running gather flows at the same time in one directory wrote to the same
files.
---
 src/Flow/Set.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index a300a65..341b50a 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -293,7 +293,7 @@ std::vector<std::string> Set::startGather(
           }));
 
         std::string tOutfix            = outfix;
-        outfix                         = "temp";
+        outfix                         = tOutfix + "_temp";
         std::vector<std::string> names = calcFunc(tFunc.begin(), tFunc.end());
         outfix                         = tOutfix;
         drop();
@@ -335,7 +335,7 @@ std::vector<std::string> Set::startGather(
           std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xl});
 
         const std::string gname =
-          (gEnd != fEnd ? "gtemp" : outfix)
+          outfix + (gEnd != fEnd ? "_gtemp" : "")
           + (gnames.empty() ? "" : std::to_string(gnames.size())) + ".segy";
         gnames.push_back(gname);
 
-- 
2.43.0

