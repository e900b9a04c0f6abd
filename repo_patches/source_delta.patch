From 3f65e58369a6bb9f06c007682c7a9b7ce782959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:16 +0000
Subject: [PATCH 01/37] fix: tree sharing for rank counts that are not a power
 of two

The rank standing in for a missing one exchanged its own key bounds instead
of those of the missing rank, stored what it had sent instead of what it had
received, and skipped some of the exchanges. Ranks then believed the tree
complete before they knew all of its branches.
---
 include/tree_topology/tree_topology.h | 30 +++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/tree_topology/tree_topology.h b/include/tree_topology/tree_topology.h
index bb5b266..edaf8fa 100644
--- a/include/tree_topology/tree_topology.h
+++ b/include/tree_topology/tree_topology.h
@@ -1580,6 +1580,9 @@ private:
     // of the ghost rank represented.
     std::vector<share_entity_t> r_ghosts_entities_n2;
     std::vector<share_node_t> r_ghosts_nodes_n2;
+    // Bounds of the data known by the ghost rank, empty at first
+    key_t ghosts_lobound = key_t::max();
+    key_t ghosts_hibound = key_t::min();
 
     // Communication for all channels
     for(int i = 0; i < dim; ++i) {
@@ -1642,20 +1645,13 @@ private:
         // Case already handled before
         if(ghosts_rank == rank && partner < size)
           continue;
-        if(ghosts_rank > size && partner > size)
-          continue;
         if(partner >= size) {
           partner -= (1 << (dim - 1));
         }
         if(partner == rank) {
-          // Add into each buffer, no communication needed
-          ghosts_entities.clear();
-          ghosts_nodes.clear();
-          find_nodes_(ghosts_nodes, ghosts_entities);
-          r_ghosts_entities_n2.insert(r_ghosts_entities_n2.end(),
-            ghosts_entities.begin(), ghosts_entities.end());
-          r_ghosts_nodes_n2.insert(
-            r_ghosts_nodes_n2.end(), ghosts_nodes.begin(), ghosts_nodes.end());
+          // Last channel: take the data of the ghost, no communication needed
+          lobound_ = std::min(ghosts_lobound, lobound_);
+          hibound_ = std::max(ghosts_hibound, hibound_);
           for(size_t j = 0; j < r_ghosts_entities_n2.size(); ++j) {
             if(r_ghosts_entities_n2[j].owner != rank) {
               shared_entities_.push_back(r_ghosts_entities_n2[j].entity);
@@ -1673,6 +1669,8 @@ private:
           cofm_update_(root(), f_cc);
         }
         else {
+          key_t & lobound = ghosts_rank == rank ? lobound_ : ghosts_lobound;
+          key_t & hibound = ghosts_rank == rank ? hibound_ : ghosts_hibound;
           if(ghosts_rank == rank) {
             ghosts_entities.clear();
             ghosts_nodes.clear();
@@ -1691,14 +1689,14 @@ private:
           std::pair<int[2], key_t[2]> s_keys;
           s_keys.first[0] = s_ge_size;
           s_keys.first[1] = s_gn_size;
-          s_keys.second[0] = lobound_;
-          s_keys.second[1] = hibound_;
+          s_keys.second[0] = lobound;
+          s_keys.second[1] = hibound;
           std::pair<int[2], key_t[2]> s_rkeys;
           MPI_Sendrecv(&s_keys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
             partner, 0, &s_rkeys, sizeof(std::pair<int, key_t[2]>), MPI_BYTE,
             partner, 0, MPI_COMM_WORLD, &status);
-          lobound_ = std::min(s_rkeys.second[0], lobound_);
-          hibound_ = std::max(s_rkeys.second[1], hibound_);
+          lobound = std::min(s_rkeys.second[0], lobound);
+          hibound = std::max(s_rkeys.second[1], hibound);
           // Send entities
           r_ghosts_entities.resize(s_rkeys.first[0] / sz_entities);
           MPI_Sendrecv(&ghosts_entities[0], s_ge_size, MPI_BYTE, partner, 0,
@@ -1729,9 +1727,9 @@ private:
           }
           else {
             r_ghosts_entities_n2.insert(r_ghosts_entities_n2.end(),
-              ghosts_entities.begin(), ghosts_entities.end());
+              r_ghosts_entities.begin(), r_ghosts_entities.end());
             r_ghosts_nodes_n2.insert(r_ghosts_nodes_n2.end(),
-              ghosts_nodes.begin(), ghosts_nodes.end());
+              r_ghosts_nodes.begin(), r_ghosts_nodes.end());
           }
         } // if
       } // if
-- 
2.43.0


From 1da5e1fa55857be3e933058a52c9cca1ef9ebdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:06 +0000
Subject: [PATCH 02/37] fix: balance the particles over the ranks when their
 numbers differ

update_iteration() states (log and assertion) that every rank holds the same
number of particles +-1 after the sort, but the sort kept the number each rank
had before it. Any periodic run on several ranks, where images are created
unevenly, aborted. The sort now takes the requested distribution and gathers
the current one itself.
---
 mpisph/bodies_system.h |  6 +++---
 mpisph/psort.h         | 21 +++++++++++++--------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/mpisph/bodies_system.h b/mpisph/bodies_system.h
index a18089a..86b976e 100644
--- a/mpisph/bodies_system.h
+++ b/mpisph/bodies_system.h
@@ -187,10 +187,10 @@ public:
     log_one(trace) << "QSort (" << size << ")" << std::endl;
     double timer = omp_get_wtime();
 
+    // Balance the particles, their number per rank can differ at this point
     int dist[size];
-    dist[rank] = tree_.entities().size();
-
-    MPI_Allgather(MPI_IN_PLACE, 1, MPI_INT, dist, 1, MPI_INT, MPI_COMM_WORLD);
+    for(int i = 0; i < size; ++i)
+      dist[i] = totalnbodies_ / size + (i < totalnbodies_ % size ? 1 : 0);
 
     psort::psort(
       tree_.entities(),
diff --git a/mpisph/psort.h b/mpisph/psort.h
index bd2b438..4ffdac3 100644
--- a/mpisph/psort.h
+++ b/mpisph/psort.h
@@ -36,6 +36,7 @@ public:
   template<typename _Iterator, typename _Compare>
   void split(_Iterator first,
     _Iterator last,
+    int * counts,
     int * dist,
     _Compare comp,
     std::vector<std::vector<int>> & right_ends,
@@ -47,12 +48,12 @@ public:
     MPI_Comm_rank(MPI_COMM_WORLD, &rank);
     int n_real = size;
     for(int i = 0; i < size; ++i)
-      if(dist[i] == 0) {
+      if(counts[i] == 0) {
         n_real = i;
         break;
       }
 
-    std::copy(dist, dist + size, right_ends[size].begin());
+    std::copy(counts, counts + size, right_ends[size].begin());
 
     // union of [0, right_end[i+1]) on each processor produces dist[i] total
     // values
@@ -69,7 +70,7 @@ public:
     // invariant: subdist[i][rank] == d_ranges[i].second - d_ranges[i].first
     // amount of data each proc still has in the search
     std::vector<std::vector<int>> subdist(size - 1, std::vector<int>(size));
-    std::copy(dist, dist + size, subdist[0].begin());
+    std::copy(counts, counts + size, subdist[0].begin());
 
     // for each processor, d_ranges - first
     std::vector<std::vector<int>> outleft(size - 1, std::vector<int>(size, 0));
@@ -252,20 +253,24 @@ psort(std::vector<TYPE> & vec, _Compare comp, int * dist_in) {
     return;
   }
 
+  // Current number of elements on each process, dist is the requested one
+  std::vector<int> counts(size);
+  counts[rank] = last - first;
+  MPI_Allgather(
+    MPI_IN_PLACE, 1, MPI_INT, &counts[0], 1, MPI_INT, MPI_COMM_WORLD);
+
   // Find splitters
   std::vector<std::vector<int>> right_ends(size + 1, std::vector<int>(size, 0));
   Split mysplit;
-  mysplit.split(first, last, dist, comp, right_ends, MPI_valueType);
+  mysplit.split(
+    first, last, &counts[0], dist, comp, right_ends, MPI_valueType);
 
   // Communicate to destination
   int * boundaries = new int[size + 1];
 
   // Should be _Distance, but MPI wants ints
   char errMsg[] = "32-bit limit for MPI has overflowed";
-  int n_loc_ = last - first;
-  if(n_loc_ > INT_MAX)
-    throw std::overflow_error(errMsg);
-  int n_loc = static_cast<int>(n_loc_);
+  int n_loc = dist[rank];
   std::vector<TYPE> trans_data(n_loc);
 
   // Calculate the counts for redistributing data
-- 
2.43.0


From 38f52fbb717a9ae7b39a971afd1261ef1dec7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 03/37] fix: initialise all fields of a particle

---
 include/physics/body.h | 56 +++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/include/physics/body.h b/include/physics/body.h
index 82ab66b..9dbcb4b 100644
--- a/include/physics/body.h
+++ b/include/physics/body.h
@@ -219,36 +219,36 @@ public:
   }
 
 private:
-  point_t velocity_;
-  point_t velocityhalf_;
-  point_t acceleration_;
-  point_t g_acceleration_;
-  double g_potential_;
-  double density_;
-  double pressure_;
-  double entropy_;
-  double electronfraction_;
-  double temperature_;
-  double soundspeed_;
-  double internalenergy_;
-  double totalenergy_;
-  double dudt_;
-  double dedt_;
-  double adiabatic_;
-  double dadt_;
-  double dt_;
-  double alpha_;
-  double divergenceV_;
-  double dDivVdt_;
-  double trigger_;
-  double xi_;
-  double traceSS_;
-  double gradv_;
+  point_t velocity_ = 0.;
+  point_t velocityhalf_ = 0.;
+  point_t acceleration_ = 0.;
+  point_t g_acceleration_ = 0.;
+  double g_potential_ = 0.;
+  double density_ = 0.;
+  double pressure_ = 0.;
+  double entropy_ = 0.;
+  double electronfraction_ = 0.;
+  double temperature_ = 0.;
+  double soundspeed_ = 0.;
+  double internalenergy_ = 0.;
+  double totalenergy_ = 0.;
+  double dudt_ = 0.;
+  double dedt_ = 0.;
+  double adiabatic_ = 0.;
+  double dadt_ = 0.;
+  double dt_ = 0.;
+  double alpha_ = 0.;
+  double divergenceV_ = 0.;
+  double dDivVdt_ = 0.;
+  double trigger_ = 0.;
+  double xi_ = 0.;
+  double traceSS_ = 0.;
+  double gradv_ = 0.;
   particle_type_t type_;
-  size_t neighbors_;
+  size_t neighbors_ = 0;
   state_t state_;
-  double pressuremin_;
-  double signalspeed_;
+  double pressuremin_ = 0.;
+  double signalspeed_ = 0.;
 }; // class body
 
 #endif // body_h
-- 
2.43.0


From 9e199e21ee20bacbe7e50f575486f413c60cf89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 04/37] fix: signal speed from up-to-date sound speeds of the
 neighbors

---
 include/physics/default_physics.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 0d5c93b..007a17d 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -314,7 +314,6 @@ compute_density_pressure_soundspeed(body & particle,
     recover_internal_energy(particle);
   eos::compute_pressure(particle);
   eos::compute_soundspeed(particle);
-  compute_signalspeed(particle, nbs);
   if (sph_viscosity == visc_cullen)
     compute_divv(particle,nbs);
 }
@@ -405,6 +404,9 @@ compute_acceleration(body & particle, std::vector<body *> & nbs) {
   particle.setAcceleration(acc_a);
   particle.setGAcceleration(0);
   particle.setGPotential(0);
+
+  // here the sound speed of all the neighbors is up to date
+  compute_signalspeed(particle, nbs);
 } // compute_acceleration
 
 /**
-- 
2.43.0


From a6aee04524c2c59cf65b159ce99e95089d0cbda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:42 +0000
Subject: [PATCH 05/37] fix: record the number of neighbors of a particle

---
 include/physics/default_physics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 007a17d..3b91925 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -225,6 +225,7 @@ compute_density(body & particle, std::vector<body *> & nbs) {
     assert(false);
   }
   particle.setDensity(rho_a);
+  particle.setNeighbors(n_nb);
 } // compute_density
 
 /**
-- 
2.43.0


From 4206799586eec38e44759f061b71fd5f754afdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:56 +0000
Subject: [PATCH 06/37] fix: viscosity of particles without neighbors (Cullen
 trigger was 0/0)

---
 include/physics/viscosity.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/physics/viscosity.h b/include/physics/viscosity.h
index db48163..36f7382 100644
--- a/include/physics/viscosity.h
+++ b/include/physics/viscosity.h
@@ -348,8 +348,10 @@ compute_alpha(body & particle, std::vector<body *> & nbs) {
 
   double div_v = particle.getDivergenceV();
   double Atrig = A_trigger(particle, nbs, div_v);
-  double alpha_loc = sph_viscosity_alpha_max 
-                   * Atrig / (sph_viscosity_delta*SQ(vsig/h_a) + Atrig);
+  double alpha_loc = 0.0;
+  if (Atrig > 0.0) // vsig is zero for particles without neighbors
+    alpha_loc = sph_viscosity_alpha_max 
+              * Atrig / (sph_viscosity_delta*SQ(vsig/h_a) + Atrig);
 
   if (alpha_a <= alpha_loc) {
     particle.setAlpha(alpha_loc);
-- 
2.43.0


From a95f53b26505336d2e1beb58370cc3b297640d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 07/37] fix: refresh ghosts before the viscosity switch is
 computed

---
 app/drivers/hydro/main_driver.cc     | 2 ++
 app/drivers/newtonian/main_driver.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/app/drivers/hydro/main_driver.cc b/app/drivers/hydro/main_driver.cc
index 5729301..e121a31 100644
--- a/app/drivers/hydro/main_driver.cc
+++ b/app/drivers/hydro/main_driver.cc
@@ -120,6 +120,7 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
+        bs.reset_ghosts();
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
@@ -194,6 +195,7 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "compute adaptive viscosity" << std::endl;
+        bs.reset_ghosts();
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
diff --git a/app/drivers/newtonian/main_driver.cc b/app/drivers/newtonian/main_driver.cc
index c632886..1d079cc 100644
--- a/app/drivers/newtonian/main_driver.cc
+++ b/app/drivers/newtonian/main_driver.cc
@@ -127,6 +127,7 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
+        bs.reset_ghosts();
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
@@ -209,6 +210,7 @@ mpi_init_task(const char * parameter_file) {
 
       if (sph_viscosity != visc_constant) {
         log_one(trace) << "computing adaptive viscosity" << std::endl;
+        bs.reset_ghosts();
         bs.apply_in_smoothinglength(viscosity::compute_alpha);
       }
 
-- 
2.43.0


From f997f551807216941afef7c0274f4ce66fe92c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 08/37] fix: neighbors of a particle do not depend on the shape
 of the tree

---
 include/tree_topology/tree_topology.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tree_topology/tree_topology.h b/include/tree_topology/tree_topology.h
index edaf8fa..020db85 100644
--- a/include/tree_topology/tree_topology.h
+++ b/include/tree_topology/tree_topology.h
@@ -370,8 +370,9 @@ public:
                 continue;
             }
             for(int k = 0; k < cur_entities.size(); ++k) {
+              // support of a pair, as in the bounding boxes of the nodes
               element_t extent =
-                std::max(cur_entities[k]->radius(), e->radius());
+                (cur_entities[k]->radius() + e->radius()) / 2.;
               if(geometry_t::within_distance2(
                    cur_entities[k]->coordinates(), e->coordinates(), extent)) {
                 neighbors[k].push_back(e);
-- 
2.43.0


From 913cd7f32a1bfe49f4bd56aeb773f0f86df1cae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:48 +0000
Subject: [PATCH 09/37] fix: identifiers for particles from files without them

---
 mpisph/io.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 196190e..df916fb 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -335,12 +335,10 @@ H5P_bodiesReadDataset(std::vector<body> & bodies,
     else {
       // generate the ids
       log_one(trace) << "Setting ID for particles" << std::endl;
-      int64_t start = (IO_nparticles / size) * rank + 1;
+      int64_t start = IO_offset + 1;
       for(int64_t i = 0; i < IO_nparticlesproc; ++i) {
         bodies[i].set_id(start + i);
       }
-      if(rank == size - 1) // last rank
-        assert(IO_nparticles == bodies.back().id());
     }
   }
   else if(!strcmp(dsname, "m")) {
-- 
2.43.0


From 9cf9a45d1c858be49f23d08df7348e7cccbb603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:49 +0000
Subject: [PATCH 10/37] fix: clean up old snapshots in their own directory

---
 mpisph/io.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index df916fb..e80a6a9 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -612,8 +612,10 @@ H5P_removePrefix(const char * output_file_prefix, const int threshold_stepnum) {
       while((dir = readdir(d)) != NULL) {
         int stepnum = H5P_isPrefixSnapshot(output_basename, dir->d_name);
         if(stepnum > threshold_stepnum and rank == 0) {
-          if(remove(dir->d_name) == 0) { // if successful
-            log_one(warn) << "deleting old output file: " << dir->d_name
+          sprintf(output_filename, "%s_%05d.h5part", output_file_prefix,
+            stepnum);
+          if(remove(output_filename) == 0) { // if successful
+            log_one(warn) << "deleting old output file: " << output_filename
                           << std::endl;
             ++n_deleted;
           }
-- 
2.43.0


From 989607be19ac69418d2c0e5538f61e9e7bebc9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:49 +0000
Subject: [PATCH 11/37] fix: find the snapshot of an iteration reliably

---
 mpisph/io.h | 70 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index e80a6a9..7967be7 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -30,6 +30,7 @@
 #include <dirent.h>
 #include <iostream>
 #include <libgen.h>
+#include <set>
 #include <vector>
 
 #include "default_physics.h"
@@ -519,7 +520,6 @@ H5P_fileExists(const char * prefix) {
  */
 int
 H5P_findIterationSnapshot(const char * prefix, const int iteration) {
-  int step = -1;
   char fname[MAX_FNAME_LEN];
   char prefix_dirname[MAX_FNAME_LEN], buf[MAX_FNAME_LEN],
     prefix_basename[MAX_FNAME_LEN];
@@ -537,42 +537,52 @@ H5P_findIterationSnapshot(const char * prefix, const int iteration) {
   sprintf(prefix_dirname, "%s", dirname(buf));
   sprintf(buf, "%s", prefix);
   sprintf(prefix_basename, "%s", basename(buf));
+
+  // list the snapshots in the same order on all ranks, skipping
+  // files which are not "prefix_XXXXX.h5part"
+  std::set<int> steps;
   d = opendir(prefix_dirname);
   if(d) {
-    // go through individual files
     while((dir = readdir(d)) != NULL) {
+      int step = H5P_isPrefixSnapshot(prefix_basename, dir->d_name);
+      if(step >= 0)
+        steps.insert(step);
+    }
+    closedir(d);
+  }
 
-      // skip files which are not "prefix_XXXXX.h5part"
-      step = H5P_isPrefixSnapshot(prefix_basename, dir->d_name);
-      if(step < 0)
-        continue;
-
-      // if the found file is malformed, abort
-      sprintf(fname, "%s_%05d.h5part", prefix, step);
-      file_id = H5P_openFile(fname, H5F_ACC_RDONLY);
-      if(not H5P_hasStep(file_id, step)) {
-        log_one(error) << "Cannot find snapshot '" << step << "' in Step#"
-                       << step << " in file " << fname << std::endl;
-        FULLSTOP;
-      }
-      H5P_setStep(file_id, step);
-
-      // get iteration of the step
-      int64_t file_iteration;
-      if(0 != H5P_readAttributeStep(file_id, "iteration", &file_iteration)) {
-        log_one(error) << "Cannot read attribute 'iteration' in Step#" << step
-                       << " in file " << fname << std::endl;
-        FULLSTOP;
-      }
+  // go through individual files
+  for(int step : steps) {
+    // if the found file is malformed, e.g. after a crash, skip it
+    sprintf(fname, "%s_%05d.h5part", prefix, step);
+    file_id = H5P_openFile(fname, H5F_ACC_RDONLY);
+    if(file_id < 0) {
+      log_one(warn) << "Skipping unreadable file " << fname << std::endl;
+      continue;
+    }
+    if(not H5P_hasStep(file_id, step)) {
+      log_one(warn) << "Cannot find snapshot '" << step << "' in Step#" << step
+                    << " in file " << fname << ", skipping" << std::endl;
       H5Fclose(file_id);
-
-      // check if this is what we are looking for
-      if(file_iteration == iteration)
-        break;
+      continue;
     }
-    closedir(d);
+    H5P_setStep(file_id, step);
+
+    // get iteration of the step
+    int64_t file_iteration;
+    int status = H5P_readAttributeStep(file_id, "iteration", &file_iteration);
+    H5P_closeFile(file_id);
+    if(status != 0) {
+      log_one(warn) << "Cannot read attribute 'iteration' in Step#" << step
+                    << " in file " << fname << ", skipping" << std::endl;
+      continue;
+    }
+
+    // check if this is what we are looking for
+    if(file_iteration == iteration)
+      return step;
   }
-  return step;
+  return -1;
 }
 
 /*
-- 
2.43.0


From 55ffc3508b3ca6004a8fac0a809ce0f87be1bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:49 +0000
Subject: [PATCH 12/37] fix: close the step group before its file

---
 mpisph/io.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 7967be7..b931169 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -697,6 +697,7 @@ inputDataHDF5(std::vector<body> & bodies,
                            << std::endl;
             FULLSTOP;
           }
+          H5Gclose(IO_group_id);
           if(iteration == startIteration)
             break;
         }
@@ -872,8 +873,7 @@ inputDataHDF5(std::vector<body> & bodies,
   delete[] dataInt32;
 
   MPI_Barrier(comm_);
-  H5Fclose(dataFile);
-  // H5CloseFile(dataFile);
+  H5P_closeFile(dataFile);
 
   log_one(trace) << "Input particles.done" << std::endl;
 
-- 
2.43.0


From 74f9fba4dba0df6b817a9432fc64351e7ab66016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:49 +0000
Subject: [PATCH 13/37] fix: stop when the data to start from are missing

---
 mpisph/io.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index b931169..902639f 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -90,7 +90,7 @@ H5P_openFile(const char * filename, unsigned int flags) {
   H5Pset_fapl_mpio(plist_id, comm, info);
 
   hid_t file_id = 0;
-  if(access(filename, F_OK) != -1) {
+  if(access(filename, F_OK) != -1 or flags == H5F_ACC_RDONLY) {
     file_id = H5Fopen(filename, flags, plist_id);
   }
   else {
@@ -735,6 +735,11 @@ inputDataHDF5(std::vector<body> & bodies,
 
   } // if specified iteration
 
+  if(dataFile < 0) {
+    log_one(error) << "Cannot find data file" << std::endl;
+    FULLSTOP;
+  }
+
   // ------------- CLEAR OUTPUT ------------------------------------------------
   // output prefix is different from input prefix:
   // -> clear output
@@ -779,20 +784,13 @@ inputDataHDF5(std::vector<body> & bodies,
       if(startStep != lastStep) {
         log_one(error) << "First step not last step in output" << std::endl;
         H5P_closeFile(outputFile);
-        MPI_Barrier(comm_);
-        MPI_Finalize();
+        FULLSTOP;
       }
       H5P_closeFile(outputFile);
     }
     output_step = startStep;
   } // if input_prefix == output_prefix
 
-  if(dataFile == 0) {
-    log_one(error) << "Cannot find data file" << std::endl;
-    MPI_Barrier(comm_);
-    MPI_Finalize();
-  }
-
   int val = H5P_hasStep(dataFile, startStep);
 
   // If yes, get into this step
-- 
2.43.0


From ef600f68ed638b12a50dda25fecd5a063814bb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:46 +0000
Subject: [PATCH 14/37] fix: no snapshot is lost when a run continues its own
 output

---
 mpisph/io.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 902639f..5c6968d 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -49,6 +49,8 @@ hid_t IO_group_id; // Group id to keep track of the current step
 hsize_t IO_offset;
 hsize_t IO_count;
 static int output_step = 0;
+// iteration of the snapshot continued by this run, already in the output
+static int64_t continued_iteration = -1;
 const int MAX_FNAME_LEN = 256;
 // TODO: overload ostream instead, i.e.smth like, log_exit << "ERROR!"
 #define FULLSTOP exit(MPI_Barrier(MPI_COMM_WORLD) && MPI_Finalize());
@@ -746,6 +748,7 @@ inputDataHDF5(std::vector<body> & bodies,
   if(strcmp(output_file_prefix, input_file_prefix) != 0) {
     H5P_removePrefix(output_file_prefix, -1);
     output_step = 0;
+    continued_iteration = -1;
   }
   else { // --- output prefix == input prefix
 
@@ -788,7 +791,8 @@ inputDataHDF5(std::vector<body> & bodies,
       }
       H5P_closeFile(outputFile);
     }
-    output_step = startStep;
+    output_step = startStep + 1;
+    continued_iteration = startIteration;
   } // if input_prefix == output_prefix
 
   int val = H5P_hasStep(dataFile, startStep);
@@ -887,6 +891,8 @@ outputDataHDF5(std::vector<body> & bodies,
   MPI_Comm comm = MPI_COMM_WORLD) {
 
   comm_ = comm;
+  if(iteration == continued_iteration)
+    return;
   int step = output_step++;
 
   int size, rank;
-- 
2.43.0


From c6a24d8031e31eed124584c9d898b380be468218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:00 +0000
Subject: [PATCH 15/37] fix: report snapshots that could not be written

---
 mpisph/io.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 5c6968d..1d860f4 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -51,6 +51,8 @@ hsize_t IO_count;
 static int output_step = 0;
 // iteration of the snapshot continued by this run, already in the output
 static int64_t continued_iteration = -1;
+// failed operations on the snapshot being written
+static int write_errors = 0;
 const int MAX_FNAME_LEN = 256;
 // TODO: overload ostream instead, i.e.smth like, log_exit << "ERROR!"
 #define FULLSTOP exit(MPI_Barrier(MPI_COMM_WORLD) && MPI_Finalize());
@@ -106,7 +108,8 @@ H5P_openFile(const char * filename, unsigned int flags) {
 void
 H5P_closeFile(hid_t & file_id) {
   H5Gclose(IO_group_id);
-  H5Fclose(file_id);
+  if(H5Fclose(file_id) < 0)
+    ++write_errors;
 }
 
 bool
@@ -168,6 +171,8 @@ H5P_writeDataset(hid_t & file_id,
   H5Pset_dxpl_mpio(plist_id, H5FD_MPIO_COLLECTIVE);
 
   status = H5Dwrite(dset_id, type, memspace, dataspace, plist_id, data);
+  if(status < 0)
+    ++write_errors;
 
   // Close everythings
   H5Sclose(memspace);
@@ -229,6 +234,8 @@ H5P_writeAttribute(hid_t & file_id, const char * dsname, T * data) {
   att_id =
     H5Acreate(file_id, dsname, type, filespace, H5P_DEFAULT, H5P_DEFAULT);
   status = H5Awrite(att_id, type, data);
+  if(status < 0)
+    ++write_errors;
 
   H5Sclose(filespace);
   H5Aclose(att_id);
@@ -249,6 +256,8 @@ H5P_writeAttributeStep(hid_t & file_id, const char * dsname, T * data) {
   att_id =
     H5Acreate(IO_group_id, dsname, type, filespace, H5P_DEFAULT, H5P_DEFAULT);
   status = H5Awrite(att_id, type, data);
+  if(status < 0)
+    ++write_errors;
 
   H5Sclose(filespace);
   H5Aclose(att_id);
@@ -910,6 +919,7 @@ outputDataHDF5(std::vector<body> & bodies,
 
   // Wait for removing the file before writing in
   MPI_Barrier(comm_);
+  write_errors = 0;
   // Check if file exists
   hid_t dataFile = H5P_openFile(filename, H5F_ACC_RDWR);
 
@@ -1092,6 +1102,11 @@ outputDataHDF5(std::vector<body> & bodies,
   delete[] bi;
   delete[] bint;
 
+  MPI_Allreduce(MPI_IN_PLACE, &write_errors, 1, MPI_INT, MPI_SUM, comm_);
+  if(write_errors != 0)
+    log_one(error) << "Unable to write snapshot " << step << " to " << filename
+                   << ": the file is incomplete" << std::endl;
+
   log_one(trace) << ".done" << std::endl;
 
 } // outputDataHDF5
-- 
2.43.0


From f8dbb0a053f005b3546c848d55273f945f0048d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 16/37] fix: outputs by time at the requested times, with
 stable time steps

---
 app/drivers/hydro/main_driver.cc     |  3 +-
 app/drivers/newtonian/main_driver.cc |  3 +-
 include/physics/analysis.h           | 20 +++++--
 include/physics/default_physics.h    | 90 +++++++++++++++-------------
 4 files changed, 68 insertions(+), 48 deletions(-)

diff --git a/app/drivers/hydro/main_driver.cc b/app/drivers/hydro/main_driver.cc
index e121a31..5adb6cd 100644
--- a/app/drivers/hydro/main_driver.cc
+++ b/app/drivers/hydro/main_driver.cc
@@ -63,7 +63,7 @@ set_derived_params() {
   oss << output_h5data_prefix << ".h5part";
   output_h5data_file = oss.str();
 
-  // analysis: set output times
+  // analysis: set initial iteration and time
   analysis::set_initial_time_iteration();
 
   // set equation of state
@@ -92,6 +92,7 @@ mpi_init_task(const char * parameter_file) {
   // read input file and initialize equation of state
   body_system<double, gdimension> bs;
   bs.read_bodies(initial_data_prefix, output_h5data_prefix, initial_iteration);
+  analysis::set_output_times();
 
   MPI_Barrier(MPI_COMM_WORLD);
 
diff --git a/app/drivers/newtonian/main_driver.cc b/app/drivers/newtonian/main_driver.cc
index 1d079cc..e020bca 100644
--- a/app/drivers/newtonian/main_driver.cc
+++ b/app/drivers/newtonian/main_driver.cc
@@ -64,7 +64,7 @@ set_derived_params() {
   oss << output_h5data_prefix << ".h5part";
   output_h5data_file = oss.str();
 
-  // analysis: set output times
+  // analysis: set initial iteration and time
   analysis::set_initial_time_iteration();
 
   // set equation of state
@@ -96,6 +96,7 @@ mpi_init_task(const char * parameter_file) {
   // read input file and initialize equation of state
   body_system<double, gdimension> bs;
   bs.read_bodies(initial_data_prefix, output_h5data_prefix, initial_iteration);
+  analysis::set_output_times();
   bs.setMacangle(param::fmm_macangle);
 
   MPI_Barrier(MPI_COMM_WORLD);
diff --git a/include/physics/analysis.h b/include/physics/analysis.h
index bf44530..a930f00 100644
--- a/include/physics/analysis.h
+++ b/include/physics/analysis.h
@@ -215,7 +215,7 @@ compute_total_ang_mom(std::vector<body> & bodies) {
 
 
 /**
- * @brief Initialize output times
+ * @brief Initialize iteration and time
  */
 void
 set_initial_time_iteration() {
@@ -227,6 +227,15 @@ set_initial_time_iteration() {
   totaltime = initial_time;
   dt = initial_dt;
   dt_saved = 0.0;
+}
+
+/**
+ * @brief Set the first output times, once the initial time is known
+ */
+void
+set_output_times() {
+  using namespace param;
+  using namespace physics;
 
   if (out_screen_dt > 0.0) { // set next screen output time
     t_screen_output = out_screen_dt*((int64_t)(totaltime/out_screen_dt));
@@ -259,9 +268,10 @@ screen_output(int rank) {
   const int screen_length = 40;
 
   if (out_screen_dt > 0.0) { // output by time
-    if (physics::totaltime < physics::t_screen_output) {
+    if (not physics::output_due(physics::t_screen_output, out_screen_dt)) {
       return;
     }
+    physics::advance_output_time(physics::t_screen_output, out_screen_dt);
   }
   else { // output by iteration
     if (out_screen_every <= 0)
@@ -298,9 +308,10 @@ void
 scalar_output(body_system<double, gdimension> & bs, const int rank) {
   static bool first_time = true;
   if (param::out_scalar_dt > 0.0) { // output by time
-    if (physics::totaltime < physics::t_scalar_output) {
+    if (not physics::output_due(physics::t_scalar_output, param::out_scalar_dt)) {
       return;
     }
+    physics::advance_output_time(physics::t_scalar_output, param::out_scalar_dt);
   }
   else { // output by iteration
     if (param::out_scalar_every <= 0)
@@ -414,9 +425,10 @@ h5data_output(body_system<double, gdimension> & bs, const int rank) {
   using namespace physics;
 
   if (out_h5data_dt > 0.0) { // output by time
-    if (totaltime < t_h5data_output) {
+    if (not output_due(t_h5data_output, out_h5data_dt)) {
       return;
     }
+    advance_output_time(t_h5data_output, out_h5data_dt);
   }
   else { // output by iteration
     if (out_h5data_every <= 0)
diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 3b91925..740809a 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -756,6 +756,43 @@ add_short_range_repulsion(body & particle, std::vector<body *> & nbs) {
   particle.setAcceleration(acc_a + acc_r);
 } // add_short_range_repulsion
 
+/**
+ * @brief      Is an output due, up to rounding of the times?
+ *
+ * @param      t_output  Time of the next output
+ * @param      out_dt    Time between outputs
+ */
+bool
+output_due(const double t_output, const double out_dt) {
+  return totaltime > t_output - 1e-9 * out_dt;
+}
+
+/**
+ * @brief      Advance an output time beyond the current time
+ *
+ * @param      t_output  Time of the next output
+ * @param      out_dt    Time between outputs
+ */
+void
+advance_output_time(double & t_output, const double out_dt) {
+  while(output_due(t_output, out_dt))
+    t_output += out_dt;
+}
+
+/**
+ * @brief      Shorten the next step to match the next output time
+ *
+ * @param      t_output  Time of the next output
+ * @param      out_dt    Time between outputs (0: output not by time)
+ */
+void
+match_output_time(double t_output, const double out_dt) {
+  if(out_dt <= 0)
+    return;
+  advance_output_time(t_output, out_dt);
+  totaltime_next = std::min(totaltime_next, t_output);
+}
+
 /**
  * @brief      Reduce adaptive timestep and set its value
  *
@@ -771,58 +808,27 @@ set_adaptive_timestep(std::vector<body> & bodies) {
 
   mpi_utils::reduce_min(dtmin);
 
+  // the last step was shortened to match an output time
+  if(dt_saved > 0)
+    dt = dt_saved;
+  dt_saved = 0.0;
+
   if(dtmin < dt)
     dt = std::min(dtmin, dt / 2.0);
 
   if(dtmin > 2.0 * dt)
     dt = dt * 2.0;
 
-  double dt_orig = dt;
   totaltime_next = totaltime + dt;
 
-  if(out_screen_dt > 0) {
-    // if output to screen by time:
-    // match the next screen output time
-    if (totaltime == t_screen_output) {
-      if (dt_saved > 0)
-        dt = dt_saved;
-      t_screen_output += out_screen_dt;
-    }
-    if (totaltime + dt > t_screen_output - 0.1*out_screen_dt) {
-      dt_saved = dt;
-      totaltime_next = t_screen_output;
-    }
-  }
+  // if output by time: match the next output time
+  match_output_time(t_screen_output, out_screen_dt);
+  match_output_time(t_scalar_output, out_scalar_dt);
+  match_output_time(t_h5data_output, out_h5data_dt);
 
-  if(out_scalar_dt > 0) {
-    // if output scalar by time:
-    // match the next scalar output time
-    if (totaltime == t_scalar_output) {
-      if (dt_saved > 0)
-        dt = dt_saved;
-      t_scalar_output += out_scalar_dt;
-    }
-    if (totaltime + dt > t_scalar_output - 0.1*out_scalar_dt) {
-      dt_saved = dt;
-      totaltime_next = std::min(totaltime_next, t_scalar_output);
-    }
-  }
-
-  if(out_h5data_dt > 0) {
-    // if output h5data by time:
-    // match the next h5data output time
-    if (totaltime == t_h5data_output) {
-      if (dt_saved > 0)
-        dt = dt_saved;
-      t_h5data_output += out_h5data_dt;
-    }
-    if (totaltime + dt > t_h5data_output - 0.1*out_h5data_dt) {
-      dt_saved = dt;
-      totaltime_next = std::min(totaltime_next, t_h5data_output);
-    }
-  }
+  if(totaltime_next < totaltime + dt)
+    dt_saved = dt;
   dt = totaltime_next - totaltime;
-
 }
 
 void
-- 
2.43.0


From e89eecb5b833f0ad90e70105ef8407076d35770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 17/37] fix: sort when some processes hold or request no
 records

---
 mpisph/psort.h | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/mpisph/psort.h b/mpisph/psort.h
index 4ffdac3..14cb10f 100644
--- a/mpisph/psort.h
+++ b/mpisph/psort.h
@@ -46,13 +46,6 @@ public:
     int size, rank;
     MPI_Comm_size(MPI_COMM_WORLD, &size);
     MPI_Comm_rank(MPI_COMM_WORLD, &rank);
-    int n_real = size;
-    for(int i = 0; i < size; ++i)
-      if(counts[i] == 0) {
-        n_real = i;
-        break;
-      }
-
     std::copy(counts, counts + size, right_ends[size].begin());
 
     // union of [0, right_end[i+1]) on each processor produces dist[i] total
@@ -85,9 +78,9 @@ public:
       _ValueType * mymedians = new _ValueType[n_act];
       _ValueType * medians = new _ValueType[size * n_act];
       for(int k = 0; k < n_act; ++k) {
-        _ValueType * ptr = &d_ranges[k].first[0];
-        int index = subdist[k][rank] / 2;
-        mymedians[k] = ptr[index];
+        // the median of an empty range is not used
+        if(subdist[k][rank] > 0)
+          mymedians[k] = d_ranges[k].first[subdist[k][rank] / 2];
       } // for
       MPI_Allgather(mymedians, n_act, MPI_valueType, medians, n_act,
         MPI_valueType, MPI_COMM_WORLD);
@@ -97,15 +90,15 @@ public:
       std::vector<_ValueType> queries(n_act);
 
       for(int k = 0; k < n_act; ++k) {
-        std::vector<int> ms_perm_v(n_real);
+        std::vector<int> ms_perm_v(size);
         int * ms_perm = &ms_perm_v.at(0);
-        for(int i = 0; i < n_real; ++i)
+        for(int i = 0; i < size; ++i)
           ms_perm[i] = i * n_act + k;
-        std::sort(ms_perm, ms_perm + n_real,
+        std::sort(ms_perm, ms_perm + size,
           PermCompare<_ValueType, _Compare>(medians, comp));
         int mid = accumulate(subdist[k].begin(), subdist[k].end(), 0) / 2;
         int query_ind = -1;
-        for(int i = 0; i < n_real; ++i) {
+        for(int i = 0; i < size; ++i) {
           if(subdist[k][ms_perm[i] / n_act] == 0)
             continue;
           mid -= subdist[k][ms_perm[i] / n_act];
@@ -161,7 +154,7 @@ public:
 
         // iterate over targets we hit
         for(int * s = split_low; s != split_high; ++s) {
-          assert(*s > 0);
+          assert(*s >= 0);
           // a bit sloppy: if more than one target in range, excess won't zero
           // out
           int excess = *s - ind_global[k].first;
-- 
2.43.0


From 0ef3ca663ba3e4362cb5a06129ade395acb998db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 18/37] fix: periodic boundaries when identifiers do not start
 at 0 or a process holds only images

---
 include/physics/boundary.h | 22 ++++++++--------------
 mpisph/bodies_system.h     |  6 ++++--
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/physics/boundary.h b/include/physics/boundary.h
index 5166c3e..63d3235 100644
--- a/include/physics/boundary.h
+++ b/include/physics/boundary.h
@@ -48,8 +48,6 @@ pboundary_clean(std::vector<body> & lbodies) {
   auto start = std::stable_partition(lbodies.begin(), lbodies.end(),
     [](const auto & left) { return left.getType() != particle_type_t::WALL; });
 
-  assert(start != lbodies.begin());
-
 #ifdef DEBUG
   for(auto it = start; it != lbodies.end(); ++it)
     assert(it->getType() == particle_type_t::WALL);
@@ -119,8 +117,11 @@ add_corner_XXX(const std::array<bool, gdimension> & on_edge,
 
 void
 pboundary_generate(std::vector<body> & lbodies, double halo_size) {
-  int64_t original_nparticles = lbodies.size();
-  MPI_Allreduce(MPI_IN_PLACE, &original_nparticles, 1, MPI_INT64_T, MPI_SUM,
+  // First identifier not used by a particle of the domain
+  int64_t first_wall_id = 0;
+  for(auto & b : lbodies)
+    first_wall_id = std::max(first_wall_id, int64_t(b.id()) + 1);
+  MPI_Allreduce(MPI_IN_PLACE, &first_wall_id, 1, MPI_INT64_T, MPI_MAX,
     MPI_COMM_WORLD);
 
   bool periodic[3] = {param::periodic_boundary_x, param::periodic_boundary_y,
@@ -133,11 +134,11 @@ pboundary_generate(std::vector<body> & lbodies, double halo_size) {
   // At least 1D
   min[0] = -half * box_length;
   max[0] = half * box_length;
-  if(gdimension >= 1) {
+  if(gdimension > 1) {
     min[1] = -half * box_width;
     max[1] = half * box_width;
   }
-  if(gdimension >= 2) {
+  if(gdimension > 2) {
     min[2] = -half * box_height;
     max[2] = half * box_height;
   }
@@ -233,18 +234,11 @@ pboundary_generate(std::vector<body> & lbodies, double halo_size) {
   // Re Index the particles in this case to avoid conflicts
   // Keep the same index for domain particles
   // Create special index for wall particles
-  int64_t i = original_nparticles + nparticles_wall[rank];
-  int64_t total_check = 0L;
-  int64_t total_part = original_nparticles + nparticles_wall[size];
+  int64_t i = first_wall_id + nparticles_wall[rank];
   for(auto & b : lbodies) {
     if(b.getType() == WALL)
       b.set_id((i++));
-    total_check += b.id();
   }
-  MPI_Allreduce(
-    MPI_IN_PLACE, &total_check, 1, MPI_INT64_T, MPI_SUM, MPI_COMM_WORLD);
-  // std::cout<<total_check<<" == "<<(total_part-1)*(total_part)/2<<std::endl;
-  assert(total_check == (total_part - 1) * (total_part) / 2);
 }
 
 }; // namespace boundary
diff --git a/mpisph/bodies_system.h b/mpisph/bodies_system.h
index 86b976e..1e14d26 100644
--- a/mpisph/bodies_system.h
+++ b/mpisph/bodies_system.h
@@ -19,6 +19,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <omp.h>
 #include <typeinfo>
 
@@ -237,8 +238,9 @@ public:
     // Compute the local range
     range_t lrange;
 
-    lrange[1] = bodies.back().coordinates();
-    lrange[0] = bodies.back().coordinates();
+    // A rank without particles does not contribute
+    lrange[1] = -std::numeric_limits<double>::max();
+    lrange[0] = std::numeric_limits<double>::max();
 
     for(size_t i = 0; i < bodies.size(); ++i) {
       for(size_t d = 0; d < gdimension; ++d) {
-- 
2.43.0


From 4c88984f12ef7d292cb997a9df2b82bbd5b2b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 19/37] fix: diagnostic report over all processes

Speeds came from one process only and the largest number of neighbours was
never reset between reports.
---
 include/diagnostic.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/diagnostic.h b/include/diagnostic.h
index 924d98b..61d5a7b 100644
--- a/include/diagnostic.h
+++ b/include/diagnostic.h
@@ -46,7 +46,8 @@ double V_min, V_max, V_average;
 void
 compute_neighbors_stats(std::vector<body> & bodies, int64_t totalnbodies) {
 
-  N_min = bodies[0].getNeighbors();
+  N_min = std::numeric_limits<uint64_t>::max();
+  N_max = 0;
   uint64_t N_total = 0;
   for(auto & b : bodies) {
     uint64_t N = b.getNeighbors();
@@ -75,7 +76,7 @@ compute_smoothinglength_stats(std::vector<body> & bodies,
   int64_t totalnbodies) {
   double h_total = 0.;
   h_min = std::numeric_limits<double>::max();
-  h_max = std::numeric_limits<double>::min();
+  h_max = 0.;
   for(auto & b : bodies) {
     double h = b.radius();
     h_total += h;
@@ -94,7 +95,7 @@ compute_smoothinglength_stats(std::vector<body> & bodies,
 void
 compute_velocity_stats(std::vector<body> & bodies, int64_t totalnbodies) {
   V_min = std::numeric_limits<double>::max();
-  V_max = std::numeric_limits<double>::min();
+  V_max = 0.;
   V_average = 0.;
   double V_tot = 0.;
   for(auto & b : bodies) {
@@ -103,6 +104,9 @@ compute_velocity_stats(std::vector<body> & bodies, int64_t totalnbodies) {
     V_min = std::min(V, V_min);
     V_tot += V;
   }
+  reduce_sum(V_tot);
+  reduce_min(V_min);
+  reduce_max(V_max);
   V_average = V_tot / totalnbodies;
 }
 
-- 
2.43.0


From 22bb603b0ce99f7453d096fa5276cd941133fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 20/37] fix: wind tunnel generator writes the particles it
 generated

The number of particles written was an estimate that differs from the size of
the arrays: it read past their end or dropped particles.
---
 app/id_generators/wtunnel/main.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/app/id_generators/wtunnel/main.cc b/app/id_generators/wtunnel/main.cc
index 00d32fa..27611dd 100644
--- a/app/id_generators/wtunnel/main.cc
+++ b/app/id_generators/wtunnel/main.cc
@@ -191,27 +191,27 @@ main(int argc, char * argv[]) {
 
   int use_fixed_timestep = 1;
   // add the global attributes
-  H5P_writeAttribute(dataFile, "nparticles", &nparticles);
+  H5P_writeAttribute(dataFile, "nparticles", &tparticles);
   H5P_writeAttribute(dataFile, "timestep", &timestep);
   int dim = gdimension;
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  H5P_setNumParticles(tparticles);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, tparticles);
+  H5P_writeDataset(dataFile, "y", y, tparticles);
+  H5P_writeDataset(dataFile, "z", z, tparticles);
+  H5P_writeDataset(dataFile, "vx", vx, tparticles);
+  H5P_writeDataset(dataFile, "vy", vy, tparticles);
+  H5P_writeDataset(dataFile, "h", h, tparticles);
+  H5P_writeDataset(dataFile, "rho", rho, tparticles);
+  H5P_writeDataset(dataFile, "u", u, tparticles);
+  H5P_writeDataset(dataFile, "P", P, tparticles);
+  H5P_writeDataset(dataFile, "m", m, tparticles);
+  H5P_writeDataset(dataFile, "id", id, tparticles);
 
   H5P_closeFile(dataFile);
   delete[]  x; 
-- 
2.43.0


From 180d9b2407bd1a75dd8265cba5f23164ebd37cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 21/37] fix: generators write every particle once on several
 processes

Each process generated all particles and wrote all of them, with the same
identifiers, and could remove the file another process had just created.
---
 app/id_generators/KH/main.cc        | 30 ++++++++++++++++-------------
 app/id_generators/RT/main.cc        | 30 ++++++++++++++++-------------
 app/id_generators/collapse/main.cc  | 30 ++++++++++++++++-------------
 app/id_generators/fluid/main.cc     | 30 ++++++++++++++++-------------
 app/id_generators/implosion/main.cc | 30 ++++++++++++++++-------------
 app/id_generators/sodtube/main.cc   | 30 ++++++++++++++++-------------
 app/id_generators/wtunnel/main.cc   | 30 ++++++++++++++++-------------
 7 files changed, 119 insertions(+), 91 deletions(-)

diff --git a/app/id_generators/KH/main.cc b/app/id_generators/KH/main.cc
index 39f72f4..168ecd1 100644
--- a/app/id_generators/KH/main.cc
+++ b/app/id_generators/KH/main.cc
@@ -375,7 +375,9 @@ main(int argc, char * argv[]) {
   } // for part=0..nparticles
 
   // delete the output file if exists
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
 
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
@@ -387,21 +389,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  // every rank generates all particles: the first one writes them
+  const int64_t nwrite = rank == 0 ? nparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
 
diff --git a/app/id_generators/RT/main.cc b/app/id_generators/RT/main.cc
index 325d642..e5c4035 100644
--- a/app/id_generators/RT/main.cc
+++ b/app/id_generators/RT/main.cc
@@ -344,7 +344,9 @@ main(int argc, char * argv[]) {
   } // for part=0..nparticles
 
   // delete the output file if exists
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
 
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
@@ -356,21 +358,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  // every rank generates all particles: the first one writes them
+  const int64_t nwrite = rank == 0 ? nparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
 
diff --git a/app/id_generators/collapse/main.cc b/app/id_generators/collapse/main.cc
index 74fa045..b5e8c99 100644
--- a/app/id_generators/collapse/main.cc
+++ b/app/id_generators/collapse/main.cc
@@ -193,7 +193,9 @@ main(int argc, char * argv[]) {
   log_one(info) << "Number of particles: " << nparticles << std::endl;
 
   // remove the previous file
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
 
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
@@ -205,21 +207,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  // every rank generates all particles: the first one writes them
+  const int64_t nwrite = rank == 0 ? nparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
 
diff --git a/app/id_generators/fluid/main.cc b/app/id_generators/fluid/main.cc
index 4d72af2..b1f34b2 100644
--- a/app/id_generators/fluid/main.cc
+++ b/app/id_generators/fluid/main.cc
@@ -203,7 +203,9 @@ main(int argc, char * argv[]) {
   } // for part=0..nparticles
 
   // delete the output file if exists
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
 
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
@@ -215,21 +217,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  // every rank generates all particles: the first one writes them
+  const int64_t nwrite = rank == 0 ? nparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
 
diff --git a/app/id_generators/implosion/main.cc b/app/id_generators/implosion/main.cc
index 2d8483c..27689ef 100644
--- a/app/id_generators/implosion/main.cc
+++ b/app/id_generators/implosion/main.cc
@@ -209,7 +209,9 @@ main(int argc, char * argv[]) {
 
   log_one(info) << "Number of particles: " << nparticles << std::endl;
   // remove the previous file
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
   int use_fixed_timestep = 1;
@@ -220,21 +222,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(nparticles);
+  // every rank generates all particles: the first one writes them
+  const int64_t nwrite = rank == 0 ? nparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, nparticles);
-  H5P_writeDataset(dataFile, "y", y, nparticles);
-  H5P_writeDataset(dataFile, "z", z, nparticles);
-  H5P_writeDataset(dataFile, "vx", vx, nparticles);
-  H5P_writeDataset(dataFile, "vy", vy, nparticles);
-  H5P_writeDataset(dataFile, "h", h, nparticles);
-  H5P_writeDataset(dataFile, "rho", rho, nparticles);
-  H5P_writeDataset(dataFile, "u", u, nparticles);
-  H5P_writeDataset(dataFile, "P", P, nparticles);
-  H5P_writeDataset(dataFile, "m", m, nparticles);
-  H5P_writeDataset(dataFile, "id", id, nparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
     delete[]  x; 
diff --git a/app/id_generators/sodtube/main.cc b/app/id_generators/sodtube/main.cc
index 10a8754..5eacaee 100644
--- a/app/id_generators/sodtube/main.cc
+++ b/app/id_generators/sodtube/main.cc
@@ -543,7 +543,9 @@ main(int argc, char * argv[]) {
   log_one(info) << "Actual number of particles: " << tparticles << std::endl
                 << std::flush;
   // delete the output file if exists
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
   int use_fixed_timestep = 1;
@@ -554,21 +556,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(tparticles);
+  // every rank generates all particles: the first one writes them
+  const int64_t nwrite = rank == 0 ? tparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, tparticles);
-  H5P_writeDataset(dataFile, "y", y, tparticles);
-  H5P_writeDataset(dataFile, "z", z, tparticles);
-  H5P_writeDataset(dataFile, "vx", vx, tparticles);
-  H5P_writeDataset(dataFile, "vy", vy, tparticles);
-  H5P_writeDataset(dataFile, "h", h, tparticles);
-  H5P_writeDataset(dataFile, "rho", rho, tparticles);
-  H5P_writeDataset(dataFile, "u", u, tparticles);
-  H5P_writeDataset(dataFile, "P", P, tparticles);
-  H5P_writeDataset(dataFile, "m", m, tparticles);
-  H5P_writeDataset(dataFile, "id", id, tparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
 
diff --git a/app/id_generators/wtunnel/main.cc b/app/id_generators/wtunnel/main.cc
index 27611dd..4a27489 100644
--- a/app/id_generators/wtunnel/main.cc
+++ b/app/id_generators/wtunnel/main.cc
@@ -186,7 +186,9 @@ main(int argc, char * argv[]) {
 
   log_one(info) << "Actual number of particles: " << tparticles << std::endl;
   // delete the output file if exists
-  remove(initial_data_file.c_str());
+  if(rank == 0)
+    remove(initial_data_file.c_str());
+  MPI_Barrier(MPI_COMM_WORLD);
   hid_t dataFile = H5P_openFile(initial_data_file.c_str(), H5F_ACC_RDWR);
 
   int use_fixed_timestep = 1;
@@ -197,21 +199,23 @@ main(int argc, char * argv[]) {
   H5P_writeAttribute(dataFile, "dimension", &dim);
   H5P_writeAttribute(dataFile, "use_fixed_timestep", &use_fixed_timestep);
 
-  H5P_setNumParticles(tparticles);
+  // every rank generates all particles: the first one writes them
+  const int64_t nwrite = rank == 0 ? tparticles : 0;
+  H5P_setNumParticles(nwrite);
   H5P_setStep(dataFile, 0);
 
   // H5PartSetNumParticles(dataFile,nparticles);
-  H5P_writeDataset(dataFile, "x", x, tparticles);
-  H5P_writeDataset(dataFile, "y", y, tparticles);
-  H5P_writeDataset(dataFile, "z", z, tparticles);
-  H5P_writeDataset(dataFile, "vx", vx, tparticles);
-  H5P_writeDataset(dataFile, "vy", vy, tparticles);
-  H5P_writeDataset(dataFile, "h", h, tparticles);
-  H5P_writeDataset(dataFile, "rho", rho, tparticles);
-  H5P_writeDataset(dataFile, "u", u, tparticles);
-  H5P_writeDataset(dataFile, "P", P, tparticles);
-  H5P_writeDataset(dataFile, "m", m, tparticles);
-  H5P_writeDataset(dataFile, "id", id, tparticles);
+  H5P_writeDataset(dataFile, "x", x, nwrite);
+  H5P_writeDataset(dataFile, "y", y, nwrite);
+  H5P_writeDataset(dataFile, "z", z, nwrite);
+  H5P_writeDataset(dataFile, "vx", vx, nwrite);
+  H5P_writeDataset(dataFile, "vy", vy, nwrite);
+  H5P_writeDataset(dataFile, "h", h, nwrite);
+  H5P_writeDataset(dataFile, "rho", rho, nwrite);
+  H5P_writeDataset(dataFile, "u", u, nwrite);
+  H5P_writeDataset(dataFile, "P", P, nwrite);
+  H5P_writeDataset(dataFile, "m", m, nwrite);
+  H5P_writeDataset(dataFile, "id", id, nwrite);
 
   H5P_closeFile(dataFile);
   delete[]  x; 
-- 
2.43.0


From 1893c82b641680507e8feebf2f37a13c64d5b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 22/37] fix: particle masses in the shock tube and wind tunnel
 generators

The mass of a particle did not include the volume it stands for, so that the
particles did not add up to the density times the volume of the domain.
---
 app/id_generators/sodtube/main.cc | 10 ++++++++--
 app/id_generators/wtunnel/main.cc |  7 ++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/app/id_generators/sodtube/main.cc b/app/id_generators/sodtube/main.cc
index 5eacaee..c031a15 100644
--- a/app/id_generators/sodtube/main.cc
+++ b/app/id_generators/sodtube/main.cc
@@ -491,6 +491,12 @@ main(int argc, char * argv[]) {
   double timestep = 0.5 * sph_separation / cs;
 
   if(equal_separation) {
+    // volume of each of the three regions
+    double volume = box_length / 3.;
+    if(gdimension > 1)
+      volume *= box_width;
+    if(gdimension > 2)
+      volume *= box_height;
     for(int64_t part = 0; part < tparticles; ++part) {
       id[part] = posid++;
       if(particle_lattice::in_domain_1d(
@@ -498,13 +504,13 @@ main(int argc, char * argv[]) {
         P[part] = pressure_1;
         rho[part] = rho_1;
         vx[part] = vx_1;
-        m[part] = rho[part] / (double)parts_mid;
+        m[part] = rho[part] * volume / (double)parts_mid;
       }
       else {
         P[part] = pressure_2;
         rho[part] = rho_2;
         vx[part] = vx_2;
-        m[part] = rho[part] / (double)parts_lr;
+        m[part] = rho[part] * volume / (double)parts_lr;
       }
 
       // compute internal energy using gamma-law eos
diff --git a/app/id_generators/wtunnel/main.cc b/app/id_generators/wtunnel/main.cc
index 4a27489..a76e938 100644
--- a/app/id_generators/wtunnel/main.cc
+++ b/app/id_generators/wtunnel/main.cc
@@ -169,12 +169,17 @@ main(int argc, char * argv[]) {
   // The value for constant timestep
   double timestep = 0.5 * sph_separation / cs;
 
+  // volume of the flow
+  double volume = box_length * box_width;
+  if(gdimension > 2)
+    volume *= box_height;
+
   for(int64_t part = 0; part < tparticles; ++part) {
     id[part] = posid++;
     P[part] = pressure_initial;
     rho[part] = rho_initial;
     vx[part] = -flow_velocity;
-    m[part] = rho_initial / (double)tparticles;
+    m[part] = rho_initial * volume / (double)tparticles;
 
     // compute internal energy using gamma-law eos
     u[part] = pressure_initial / (poly_gamma - 1.) / rho_initial;
-- 
2.43.0


From 2379b905d4f016f7b951461b3930b67b8790c3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 23/37] fix: stacking of the FCC lattice

Layers were stacked ABCA, ABCA, ...: two equal layers lay directly on top of
each other, closer than the particle separation.
---
 include/lattice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lattice.h b/include/lattice.h
index 97756b0..9e28894 100644
--- a/include/lattice.h
+++ b/include/lattice.h
@@ -275,7 +275,7 @@ generator_lattice_3d(const int lattice_type,
   }
   else if(lattice_type == 2) { // fcc lattice in 3D
     for(double z_p = zmin, zl = 0; z_p < zmax;
-        z_p += dz, zl = (zl + 1) * (zl < 3))
+        z_p += dz, zl = (zl + 1) * (zl < 2))
       for(double y_p = ymin - zl * dy / 3, yo = 0; y_p < ymax;
           y_p += dy, yo = 1 - yo)
         for(double x_p = xmin + (yo - zl) * dx / 2.; x_p < xmax; x_p += dx)
-- 
2.43.0


From fc4dc7aa7ec2e4071e1caad19601de10c896711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 24/37] fix: energy of the blast in modified Sedov data

The blast energy was divided by the mass of generated particles, not by the
mass of the particles read from the file.
---
 app/id_generators/sedov/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/id_generators/sedov/main.cc b/app/id_generators/sedov/main.cc
index c54b381..c2ca8c3 100644
--- a/app/id_generators/sedov/main.cc
+++ b/app/id_generators/sedov/main.cc
@@ -239,7 +239,7 @@ main(int argc, char * argv[]) {
     double r = magnitude(particle.coordinates());
     if(r < sedov_blast_radius) {
       particles_blast++;
-      mass_blast += mass_particle;
+      mass_blast += modify_initial_data ? particle.mass() : mass_particle;
     }
   }
 
-- 
2.43.0


From d56ee7a3cd67f11ee58c8be6b9752c7f4f5c6b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:53 +0000
Subject: [PATCH 25/37] fix: spherical lattices in the collapse and implosion
 generators

These lattices need the density profile, which was never selected: the
generators crashed.
---
 app/id_generators/collapse/main.cc  | 1 +
 app/id_generators/implosion/main.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/app/id_generators/collapse/main.cc b/app/id_generators/collapse/main.cc
index b5e8c99..8c74dd0 100644
--- a/app/id_generators/collapse/main.cc
+++ b/app/id_generators/collapse/main.cc
@@ -46,6 +46,7 @@ void
 set_derived_params() {
   using namespace param;
 
+  density_profiles::select();
   particle_lattice::select();
 
   // The value for constant timestep
diff --git a/app/id_generators/implosion/main.cc b/app/id_generators/implosion/main.cc
index 27689ef..3fb2793 100644
--- a/app/id_generators/implosion/main.cc
+++ b/app/id_generators/implosion/main.cc
@@ -51,6 +51,7 @@ void
 set_derived_params() {
   using namespace param;
 
+  density_profiles::select();
   particle_lattice::select();
 
   // The value for constant timestep
-- 
2.43.0


From e7cad2d1d7cabc1786d5054625fa4f41b5aaff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:35 +0000
Subject: [PATCH 26/37] fix: initial time that is not an integer

The parameter was read into an integer, so that runs started at the time
rounded towards zero.
---
 include/params.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/params.h b/include/params.h
index f78b33c..e67323d 100644
--- a/include/params.h
+++ b/include/params.h
@@ -166,7 +166,7 @@ DECLARE_PARAM(int64_t, final_iteration, 0)
 #endif
 
 #ifndef initial_time
-DECLARE_PARAM(int64_t, initial_time, 0)
+DECLARE_PARAM(double, initial_time, 0.0)
 #endif
 
 #ifndef final_time
-- 
2.43.0


From e98d76ea61c885aae41ebd018c42aca217ceb9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:21 +0000
Subject: [PATCH 27/37] fix: file prefixes longer than the name buffers

The names of snapshot files were built in buffers of 128 and 256
characters, while a prefix may have up to 510.
---
 mpisph/io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpisph/io.h b/mpisph/io.h
index 1d860f4..04fae7d 100644
--- a/mpisph/io.h
+++ b/mpisph/io.h
@@ -53,7 +53,7 @@ static int output_step = 0;
 static int64_t continued_iteration = -1;
 // failed operations on the snapshot being written
 static int write_errors = 0;
-const int MAX_FNAME_LEN = 256;
+const int MAX_FNAME_LEN = STRING_MAXLEN + 64;
 // TODO: overload ostream instead, i.e.smth like, log_exit << "ERROR!"
 #define FULLSTOP exit(MPI_Barrier(MPI_COMM_WORLD) && MPI_Finalize());
 
@@ -735,7 +735,7 @@ inputDataHDF5(std::vector<body> & bodies,
       }
 
       // open it
-      char step_filename[128];
+      char step_filename[MAX_FNAME_LEN];
       sprintf(step_filename, "%s_%05d.h5part", input_file_prefix, step);
       log_one(warn) << "Reading from file " << step_filename << std::endl;
 
@@ -911,7 +911,7 @@ outputDataHDF5(std::vector<body> & bodies,
   MPI_Barrier(comm_);
   log_one(trace) << "Output particles" << std::flush;
 
-  char filename[128];
+  char filename[MAX_FNAME_LEN];
   if(param::out_h5data_separate_iterations)
     sprintf(filename, "%s_%05d.h5part", fileprefix, step);
   else
-- 
2.43.0


From 268808e33acc11815b58de316a93bc2ecbd9ca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 28/37] fix: velocity divergence from velocity differences

---
 include/physics/default_physics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 740809a..3730629 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -289,7 +289,7 @@ compute_divv(body & particle, std::vector<body *> & nbs) {
     const point_t DiWab = sph_kernel_gradient(pos_a - pos_b,h_ab);
     //point_t DiWab = .5*(sph_kernel_gradient(pos_a - pos_b,h_a)   // DEBUG
     //                 +  sph_kernel_gradient(pos_a - pos_b,h_b));
-    div_v += m_b*dot(v_a, DiWab);
+    div_v += m_b*dot(nb->getVelocity() - v_a, DiWab);
   }
   div_v /= particle.getDensity();
 
-- 
2.43.0


From 16ee29a2e35394a34662154465c8475a2ac64127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 29/37] fix: decay of the viscosity parameter towards its local
 value

---
 include/physics/viscosity.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/physics/viscosity.h b/include/physics/viscosity.h
index 36f7382..0522ba6 100644
--- a/include/physics/viscosity.h
+++ b/include/physics/viscosity.h
@@ -358,8 +358,8 @@ compute_alpha(body & particle, std::vector<body *> & nbs) {
   }
   else {
     double decayt = h_a/(2.0*sph_viscosity_l*vsig);
-    double dalphadt = (alpha_a - alpha_loc)/decayt;
-    particle.setAlpha(alpha_a*exp(-dalphadt*physics::dt));
+    particle.setAlpha(
+      alpha_loc + (alpha_a - alpha_loc)*exp(-physics::dt/decayt));
   }
 
 } // compute_alpha
-- 
2.43.0


From 9640ba99d838859c73d81c11bb71fe0134606838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 30/37] fix: orbital force in two dimensions

---
 include/physics/eforce.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/physics/eforce.h b/include/physics/eforce.h
index f8004a2..ab5e4c9 100644
--- a/include/physics/eforce.h
+++ b/include/physics/eforce.h
@@ -281,6 +281,7 @@ potential_airfoil(const point_t & rp) {
 point_t
 acceleration_orbit(const body & particle) {
   using namespace param;
+  assert(gdimension > 1);
   point_t rp = particle.coordinates();
 
   static const double grav = gravitational_constant, a_sp = orbital_separation,
@@ -289,13 +290,16 @@ acceleration_orbit(const body & particle) {
 
   point_t acc = 0.0;
 
-  double temp = SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(rp[2]);
+  double temp = SQ(rp[0] - a_sp) + SQ(rp[1]);
+  if constexpr(gdimension > 2)
+    temp += SQ(rp[2]);
   temp = CU(temp);
   temp = sqrt(temp);
   double term1 = -grav * m_ns / temp;
   acc[0] += term1 * (rp[0] - a_sp);
   acc[1] += term1 * rp[1];
-  acc[2] += term1 * rp[2];
+  if constexpr(gdimension > 2)
+    acc[2] += term1 * rp[2];
 
   double term2 = grav * m_t / CU(a_sp);
   acc[0] += term2 * (rp[0] - a_sp * m_ns / m_t); // x-direction
@@ -311,7 +315,10 @@ potential_orbit(const point_t & rp) {
   static const double grav = gravitational_constant, a_sp = orbital_separation,
                       m_ns = mass_neutron_star, m_wd = mass_white_dwarf;
   const double m_t = m_ns + m_wd;
-  double term1 = sqrt(SQ(rp[0] - a_sp) + SQ(rp[1]) + SQ(rp[2]));
+  double term1 = SQ(rp[0] - a_sp) + SQ(rp[1]);
+  if constexpr(gdimension > 2)
+    term1 += SQ(rp[2]);
+  term1 = sqrt(term1);
   term1 = -grav * m_ns / term1;
   double term2 = -0.5 * grav * m_t / CU(a_sp);
   term2 = term2 * (SQ(rp[0] - a_sp * m_ns / m_t) + SQ(rp[1]));
-- 
2.43.0


From 02017ebc946f633d8adde93c660e94aedc113053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:39 +0000
Subject: [PATCH 31/37] fix: half-step pressure of the thermokinetic form
 excludes gravity and external work

---
 include/physics/default_physics.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 3730629..04b7f70 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -172,8 +172,10 @@ recompute_pressure_soundspeed_thermokinetic(body& particle) {
   const double dedt = particle.getDedt();
   recover_internal_energy(particle);
   const double uint = particle.getInternalenergy();
-  const point_t & v_a = particle.getVelocity();
-  const point_t & a_a = particle.getAcceleration();
+  const point_t v_a = particle.getVelocity();
+  // gravity and external forces only exchange mechanical energy
+  const point_t a_a = particle.getAcceleration() + particle.getGAcceleration()
+                    - external_force::acceleration(particle);
   const double v_dot_a = flecsi::dot(v_a, a_a);
   particle.setInternalenergy(uint + 0.5*dt*(dedt - v_dot_a));
   eos::compute_pressure(particle);
-- 
2.43.0


From c5c6d27620c6a29e65f971d0b9d2fbe19753fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:39 +0000
Subject: [PATCH 32/37] fix: internal energy of the thermokinetic form at the
 time of its velocity

---
 app/drivers/hydro/main_driver.cc     | 1 +
 app/drivers/newtonian/main_driver.cc | 1 +
 include/physics/default_physics.h    | 4 +---
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/drivers/hydro/main_driver.cc b/app/drivers/hydro/main_driver.cc
index 5adb6cd..6d5b99a 100644
--- a/app/drivers/hydro/main_driver.cc
+++ b/app/drivers/hydro/main_driver.cc
@@ -229,6 +229,7 @@ mpi_init_task(const char * parameter_file) {
           }
 
           bs.apply_all(integration::leapfrog_kick_e);
+          bs.apply_all(physics::recover_internal_energy);
         }
         else {
           for (int m=1; m<=pressure_updates_number;++m) { // 1 or 2 passes
diff --git a/app/drivers/newtonian/main_driver.cc b/app/drivers/newtonian/main_driver.cc
index e020bca..94da8bb 100644
--- a/app/drivers/newtonian/main_driver.cc
+++ b/app/drivers/newtonian/main_driver.cc
@@ -248,6 +248,7 @@ mpi_init_task(const char * parameter_file) {
           }
 
           bs.apply_all(integration::leapfrog_kick_e);
+          bs.apply_all(physics::recover_internal_energy);
         }
         else {
           for (int m=1; m<=pressure_updates_number;++m) { // 1 or 2 passes
diff --git a/include/physics/default_physics.h b/include/physics/default_physics.h
index 04b7f70..cac3aa7 100644
--- a/include/physics/default_physics.h
+++ b/include/physics/default_physics.h
@@ -161,16 +161,14 @@ recompute_pressure_soundspeed(body& particle) {
 }
 
 /**
- * @brief      Using current total energy and dedt,
+ * @brief      Using current internal energy and dedt,
  *             recompute pressure and soundspeed half-timestep ahead
  *
  * @param      particle  The particle body
  */
 void
 recompute_pressure_soundspeed_thermokinetic(body& particle) {
-  const double etot = particle.getTotalenergy();
   const double dedt = particle.getDedt();
-  recover_internal_energy(particle);
   const double uint = particle.getInternalenergy();
   const point_t v_a = particle.getVelocity();
   // gravity and external forces only exchange mechanical energy
-- 
2.43.0


From 30f0dcffc63e204dd937f86f3200f6251053e991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:56 +0000
Subject: [PATCH 33/37] fix: periodic boxes of few lattice cells are adjusted
 as well (sodtube)

---
 app/id_generators/sodtube/main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/id_generators/sodtube/main.cc b/app/id_generators/sodtube/main.cc
index c031a15..64a1766 100644
--- a/app/id_generators/sodtube/main.cc
+++ b/app/id_generators/sodtube/main.cc
@@ -333,7 +333,7 @@ main(int argc, char * argv[]) {
 
     // adjust domain width
     if(gdimension >= 2 and periodic_boundary_y) {
-      int Ny1 = (int)(box_width / dy1) - 1;
+      int Ny1 = std::max(1, (int)(box_width / dy1) - 1);
       for(int j = Ny1; j < Ny1 * 100; ++j) {
         double w2 = (floor(j * dy1 / dy2 - b_tol) + 1) * dy2;
         if(fabs(w2 - j * dy1) < lattice_mismatch_tolerance * dy2) {
@@ -351,7 +351,7 @@ main(int argc, char * argv[]) {
 
     // adjust domain height
     if(gdimension >= 3 and periodic_boundary_z) {
-      int Nz1 = (int)(box_height / dz1) - 1;
+      int Nz1 = std::max(1, (int)(box_height / dz1) - 1);
       for(int k = Nz1; k < Nz1 * 100; ++k) {
         double w2 = (floor(k * dz1 / dz2 - b_tol) + 1) * dz2;
         if(fabs(w2 - k * dz1) < lattice_mismatch_tolerance * dz2) {
-- 
2.43.0


From a07f9f6b362ca92732d161bbe565b386d14e6f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:56 +0000
Subject: [PATCH 34/37] fix: adjust the box height of the RT generator from the
 box height

---
 app/id_generators/RT/main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/id_generators/RT/main.cc b/app/id_generators/RT/main.cc
index e5c4035..8f9d248 100644
--- a/app/id_generators/RT/main.cc
+++ b/app/id_generators/RT/main.cc
@@ -140,7 +140,7 @@ set_derived_params() {
   // for periodic boundaries, lattice has to match up:
   // adjust domain length
   if(periodic_boundary_x) {
-    int Nx = (int)(box_length / dx) - 1;
+    int Nx = std::max(1, (int)(box_length / dx) - 1);
     for(int i = Nx; i < Nx * 100; ++i) {
       double w2 = floor(i * dx / dx_t + b_tol) * dx_t;
       if(fabs(w2 - i * dx) < lattice_mismatch_tolerance * dx_t) {
@@ -156,7 +156,7 @@ set_derived_params() {
 
   // adjust domain height
   if(gdimension >= 3 and periodic_boundary_z) {
-    int Nz = (int)(box_length / dz) - 1;
+    int Nz = std::max(1, (int)(box_height / dz) - 1);
     for(int k = Nz; k < Nz * 100; ++k) {
       double w2 = floor(k * dz / dz_t + b_tol) * dz_t;
       if(fabs(w2 - k * dz) < lattice_mismatch_tolerance * dz_t) {
-- 
2.43.0


From 15e54e6c6806e895dc02de65ffa516b556dc72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 35/37] fix: density profile from file reads before its table
 below the first radius

---
 include/physics/density_profiles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/physics/density_profiles.h b/include/physics/density_profiles.h
index 6f89ac2..a15f1d7 100644
--- a/include/physics/density_profiles.h
+++ b/include/physics/density_profiles.h
@@ -317,7 +317,7 @@ cubic_interp(const double x,
   const std::vector<double> & yp) {
   int i2 = get_interval_index(x, xp);
   const int N = xp.size();
-  if(i2 == 0)
+  if(i2 < 1)
     i2 = 1;
   if(i2 > N - 3)
     i2 = N - 3;
-- 
2.43.0


From 4484db78a37dfc2a1c0ee0ead2a817cdba0935b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:53 +0000
Subject: [PATCH 36/37] fix: particles relaxed onto the zero of a density
 profile get an infinite smoothing length at the end

---
 include/physics/wvt.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/physics/wvt.h b/include/physics/wvt.h
index c5544ef..37a7f82 100644
--- a/include/physics/wvt.h
+++ b/include/physics/wvt.h
@@ -588,6 +588,9 @@ wvt_set_density(body & source) {
   double rho = (param::rho_initial) / rho0 *
                density_profiles::spherical_density_profile(r / sphere_radius);
   double h = sph_eta * kernels::kernel_width * pow(mass / rho, 1. / gdimension);
+  if(rho == 0.0) {
+    h = sphere_radius;
+  }
   source.set_radius(h);
   source.setDensity(rho);
 }
-- 
2.43.0


From 1603a796831ef283f155f906a0899690ff62002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:26 +0000
Subject: [PATCH 37/37] fix: noh writes the central density for every particle
 of a density profile

---
 app/id_generators/noh/main.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/app/id_generators/noh/main.cc b/app/id_generators/noh/main.cc
index c30e72a..7becc14 100644
--- a/app/id_generators/noh/main.cc
+++ b/app/id_generators/noh/main.cc
@@ -258,7 +258,6 @@ main(int argc, char * argv[]) {
       //          * pow(pmass/1.0,1./gdimension);
 
       particle.setDensity(rho_a);
-      particle.setDensity(rho_initial);
       particle.set_mass(m_a);
       particle.set_radius(h_a);
       particle.set_id(a);
-- 
2.43.0

