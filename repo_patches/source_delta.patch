From 0574a08537fe2c492a7de7d939d42b3f8f536d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 001/137] fix: drop duplicate ghost destinations returned by
 the graph partitioner

---
 src/partition/graph_partitioner_implementation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partition/graph_partitioner_implementation.cpp b/src/partition/graph_partitioner_implementation.cpp
index 5c212e6..882de07 100644
--- a/src/partition/graph_partitioner_implementation.cpp
+++ b/src/partition/graph_partitioner_implementation.cpp
@@ -475,7 +475,8 @@ GraphPartitionerImplementation::partition(void)
       // there may be duplicates, so get rid of them
       if (tmpdest.size() > 1) {
         std::stable_sort(tmpdest.begin(), tmpdest.end());
-        std::unique(tmpdest.begin(), tmpdest.end());
+        tmpdest.erase(std::unique(tmpdest.begin(), tmpdest.end()),
+                      tmpdest.end());
       }
 
       p_ghost_node_destinations[n].reserve(tmpdest.size());
-- 
2.43.0


From eccddba8d1a3c59d1824078a061234b0051c6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 002/137] fix: allocate per-process arrays, not single
 integers, in initBranchUpdate

---
 src/network/base_network.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index a878820..cca7a49 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -2230,8 +2230,8 @@ void initBranchUpdate(void)
     // Construct GA that can hold exchange data for all active branches
     int nprocs = GA_Pgroup_nnodes(grp);
     int me = GA_Pgroup_nodeid(grp);
-    int *totBranches = new int(nprocs);
-    int *distr = new int(nprocs);
+    int *totBranches = new int[nprocs];
+    int *distr = new int[nprocs];
     for (i=0; i<nprocs; i++) {
       if (me == i) {
         totBranches[i] = numBranches;
@@ -2302,8 +2302,8 @@ void initBranchUpdate(void)
         icnt++;
       }
     }
-    delete totBranches;
-    delete distr;
+    delete [] totBranches;
+    delete [] distr;
   }
   GA_Pgroup_sync(grp);
 }
-- 
2.43.0


From 54e1a53b62fab314f99f2da89dcba473be58837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 003/137] fix: GlobalIndexHashMap leaves no stale pairs, values
 or global arrays behind when there is nothing to exchange

---
 src/parallel/index_hash.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/parallel/index_hash.cpp b/src/parallel/index_hash.cpp
index bf3ca94..6d10a7c 100644
--- a/src/parallel/index_hash.cpp
+++ b/src/parallel/index_hash.cpp
@@ -174,7 +174,10 @@ void GlobalIndexHashMap::addPairs(std::vector<std::pair<int,int> > &pairs)
     r_offset[i] += totalVals;
     totalVals += numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    p_umap.clear();
+    return;
+  }
 
   // Create a global array that can hold all values
   int dtype = NGA_Register_type(sizeof(std::pair<int,int>));
@@ -361,7 +364,10 @@ void GlobalIndexHashMap::addPairs(std::vector<std::pair<std::pair<int,int>,int>
     r_offset[i] += totalVals;
     totalVals += numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    p_pmap.clear();
+    return;
+  }
 
   // Create a global array that can hold all values
   int dtype = NGA_Register_type(sizeof(std::pair<std::pair<int,int>,int>));
@@ -607,7 +613,11 @@ void GlobalIndexHashMap::getValues(std::vector<int> &keys, std::vector<int> &val
     r_offset[i] += totalVals;
     totalVals += 2*numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    GA_Destroy(g_offset);
+    values.clear();
+    return;
+  }
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
@@ -979,7 +989,11 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
     r_offset[i] += totalVals;
     totalVals += 3*numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    GA_Destroy(g_offset);
+    values.clear();
+    return;
+  }
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
-- 
2.43.0


From 7df33b5f65aa5dab38ea5db6a88a2e1987d9d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 004/137] fix: GlobalIndexHashMap maps negative and large keys
 to a valid process

---
 src/parallel/index_hash.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parallel/index_hash.cpp b/src/parallel/index_hash.cpp
index 6d10a7c..9f015bc 100644
--- a/src/parallel/index_hash.cpp
+++ b/src/parallel/index_hash.cpp
@@ -1176,7 +1176,8 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
 // @return number between 0 and p_nprocs-1
 int GlobalIndexHashMap::hashValue(int key)
 {
-  return key%p_nprocs;
+  int hash = key%p_nprocs;
+  return (hash < 0 ? hash+p_nprocs : hash);
 }
 
 // hash function for index pairs. Maps the value of key into the interval [0,p_nprocs-1]
@@ -1185,10 +1186,11 @@ int GlobalIndexHashMap::hashValue(int key)
 // @return number between 0 and nprocs-1
 int GlobalIndexHashMap::pairHashValue(std::pair<int,int> key)
 {
-  int i1 = key.first;
-  int i2 = key.second;
+  long long i1 = key.first;
+  long long i2 = key.second;
   // 1009 is prime number
-  return ((i2*1009+i1)%p_nprocs);
+  int hash = static_cast<int>((i2*1009+i1)%p_nprocs);
+  return (hash < 0 ? hash+p_nprocs : hash);
 }
 
 } // hash_map
-- 
2.43.0


From 85012ff9a00342e7ab1a73bd99094264ef4877c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 005/137] fix: ghost exchange no longer aborts when a process
 owns no branches or buses

---
 src/network/base_network.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index cca7a49..563688e 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -2063,7 +2063,14 @@ void initBusUpdate(void)
     int one = 1;
     p_busXCBufType = NGA_Register_type(p_busXCBufSize);
     GA_Set_data(p_busGA, one, &p_busTotal, p_busXCBufType);
-    GA_Set_irreg_distr(p_busGA, distr, &nprocs);
+    // GA cannot represent a distribution in which a process owns nothing
+    bool hasEmpty = false;
+    for (i=0; i<nprocs; i++) {
+      if (totBuses[i] == 0) hasEmpty = true;
+    }
+    if (!hasEmpty) {
+      GA_Set_irreg_distr(p_busGA, distr, &nprocs);
+    }
     GA_Set_pgroup(p_busGA, grp);
     GA_Allocate(p_busGA);
     p_busGASet = true;
@@ -2252,7 +2259,14 @@ void initBranchUpdate(void)
     int one = 1;
     p_branchXCBufType = NGA_Register_type(p_branchXCBufSize);
     GA_Set_data(p_branchGA, one, &p_branchTotal, p_branchXCBufType);
-    GA_Set_irreg_distr(p_branchGA, distr, &nprocs);
+    // GA cannot represent a distribution in which a process owns nothing
+    bool hasEmpty = false;
+    for (i=0; i<nprocs; i++) {
+      if (totBranches[i] == 0) hasEmpty = true;
+    }
+    if (!hasEmpty) {
+      GA_Set_irreg_distr(p_branchGA, distr, &nprocs);
+    }
     GA_Set_pgroup(p_branchGA, grp);
     GA_Allocate(p_branchGA);
     p_branchGASet = true;
-- 
2.43.0


From a544b49b0ae33afa09be2c00f389dd93e3d7e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 006/137] fix: a process without local buses or branches no
 longer deadlocks the ghost exchange setup

---
 src/factory/base_factory.hpp | 3 +++
 src/network/base_network.hpp | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/factory/base_factory.hpp b/src/factory/base_factory.hpp
index 57b029f..67f94ef 100644
--- a/src/factory/base_factory.hpp
+++ b/src/factory/base_factory.hpp
@@ -309,6 +309,8 @@ class BaseFactory {
       } else {
         busXCSize = 0;
       }
+      // a process without buses still takes part in exchanges
+      p_network->communicator().max(&busXCSize,1);
       if (flag) {
         p_network->allocXCBus(busXCSize);
       } else {
@@ -320,6 +322,7 @@ class BaseFactory {
       } else {
         branchXCSize = 0;
       }
+      p_network->communicator().max(&branchXCSize,1);
       if (flag) {
         p_network->allocXCBranch(branchXCSize);
       } else {
diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index 563688e..7958073 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -1741,7 +1741,7 @@ void allocXCBus(int size)
     p_busXCBufSize = 0;
   }
   // Allocate new buffers if size is greater than zero
-  if (size > 0 && nsize > 0) {
+  if (size > 0) {
     p_busXCBuffers = new void*[nsize];
     for (i=0; i<nsize; i++) {
       p_busXCBuffers[i] = static_cast<void*>(new char[size]);
@@ -1881,7 +1881,7 @@ void allocXCBranch(int size)
     p_external_branch = true;
   }
   // Allocate new buffers if size is greater than zero
-  if (size > 0 && nsize > 0) {
+  if (size > 0) {
     p_branchXCBuffers = new void*[nsize];
     for (i=0; i<nsize; i++) {
       p_branchXCBuffers[i] = static_cast<void*>(new char[size]);
-- 
2.43.0


From 703242d922a97df04817358b08fc5b443f1e538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 007/137] fix: exchange buffer bookkeeping (receive buffer
 leak, dangling buffer arrays, index bounds)

---
 src/network/base_network.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index 7958073..f536896 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -381,7 +381,7 @@ virtual ~BaseNetwork(void)
     }
     delete [] p_inactiveBranchIndices;
   }
-  if (p_branchSndBuf) {
+  if (p_branchRcvBuf) {
     delete [] ((char*)p_branchRcvBuf);
   }
   if (p_branchGASet) {
@@ -1671,7 +1671,7 @@ void clear(void)
     }
     delete [] p_inactiveBranchIndices;
   }
-  if (p_branchSndBuf) {
+  if (p_branchRcvBuf) {
     delete [] ((char*)p_branchRcvBuf);
   }
   if (p_branchGASet) {
@@ -1770,6 +1770,7 @@ void freeXCBus(void)
       p_allocatedBus = false;
     }
     delete [] p_busXCBuffers;
+    p_busXCBuffers = NULL;
     p_external_bus = false;
     p_busXCBufSize = 0;
   }
@@ -1835,7 +1836,7 @@ void setXCBusBuffer(int idx, void* ptr)
  */
 void* getXCBusBuffer(int idx)
 {
-  if (idx < 0 || idx > p_buses.size()) {
+  if (idx < 0 || idx >= p_buses.size()) {
     char buf[256];
     sprintf(buf,"BaseNetwork::getXCBusBuffer: illegal index: %d size: %ld\n",
             idx, p_buses.size());
@@ -1878,7 +1879,6 @@ void allocXCBranch(int size)
     }
     delete [] p_branchXCBuffers;
     p_branchXCBufSize = 0;
-    p_external_branch = true;
   }
   // Allocate new buffers if size is greater than zero
   if (size > 0) {
@@ -1888,6 +1888,7 @@ void allocXCBranch(int size)
     }
     p_allocatedBranch = true;
     p_branchXCBufSize = size;
+    p_external_branch = false;
   }
 }
 
@@ -1909,6 +1910,7 @@ void freeXCBranch(void)
       p_allocatedBranch = false;
     }
     delete [] p_branchXCBuffers;
+    p_branchXCBuffers = NULL;
     p_branchXCBufSize = 0;
     p_external_branch = false;
   }
@@ -1921,7 +1923,7 @@ void freeXCBranch(void)
  */
 void* getXCBranchBuffer(int idx)
 {
-  if (idx < 0 || idx > p_branches.size()) {
+  if (idx < 0 || idx >= p_branches.size()) {
     char buf[256];
     sprintf(buf,"BaseNetwork::getXCBranchBuffer: illegal index: %d size: %ld\n",
       idx, p_branches.size());
-- 
2.43.0


From 26cd5dcfc92316a7998843bfc44db5e1720a6933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 008/137] fix: GlobalIndexHashMap no longer aborts when there
 are fewer entries than processes

---
 src/parallel/index_hash.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parallel/index_hash.cpp b/src/parallel/index_hash.cpp
index 9f015bc..0634fd8 100644
--- a/src/parallel/index_hash.cpp
+++ b/src/parallel/index_hash.cpp
@@ -182,7 +182,7 @@ void GlobalIndexHashMap::addPairs(std::vector<std::pair<int,int> > &pairs)
   // Create a global array that can hold all values
   int dtype = NGA_Register_type(sizeof(std::pair<int,int>));
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = totalVals+p_nprocs;
   GA_Set_data(g_data,one,&dims,dtype);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -372,7 +372,7 @@ void GlobalIndexHashMap::addPairs(std::vector<std::pair<std::pair<int,int>,int>
   // Create a global array that can hold all values
   int dtype = NGA_Register_type(sizeof(std::pair<std::pair<int,int>,int>));
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = totalVals+p_nprocs;
   GA_Set_data(g_data,one,&dims,dtype);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -621,7 +621,7 @@ void GlobalIndexHashMap::getValues(std::vector<int> &keys, std::vector<int> &val
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = totalVals+p_nprocs;
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -737,7 +737,7 @@ void GlobalIndexHashMap::getValues(std::vector<int> &keys, std::vector<int> &val
 
   // Create a global array that can hold all key-value pairs
   g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = totalVals+p_nprocs;
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   mapc[0] = 0;
@@ -997,7 +997,7 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = totalVals+p_nprocs;
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -1118,7 +1118,7 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
 
   // Create a global array that can hold all key-value pairs
   g_data = GA_Create_handle();
-  dims = totalVals+1;
+  dims = totalVals+p_nprocs;
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   mapc[0] = 0;
-- 
2.43.0


From 9d68a13d33257815a9f03188949c0c1cff2babfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 009/137] fix: GlobalStore handles empty and missing vectors
 and releases its type handle

---
 src/parallel/global_store.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parallel/global_store.hpp b/src/parallel/global_store.hpp
index 0857f49..190e9c2 100644
--- a/src/parallel/global_store.hpp
+++ b/src/parallel/global_store.hpp
@@ -145,6 +145,8 @@ public:
 
     if (ndata < 1) {
       std::cout << "No data found for global store" << std::endl;
+      p_data.clear();
+      p_index.clear();
       return;
     }
 
@@ -156,13 +158,15 @@ public:
     int GAgrp = p_comm.getGroup();
     GA_Set_pgroup(p_GA, GAgrp);
     GA_Allocate(p_GA);
+    NGA_Deregister_type(GA_type);
 
     // Copy data to GA
     for (i=0; i<p_index.size(); i++) {
       int idx = p_index[i];
       int lo = p_begin[idx];
       int hi = p_end[idx]-1;
-      NGA_Put(p_GA,&lo,&hi,&((p_data[i])[0]),&one);
+      // a vector may be empty
+      if (lo <= hi) NGA_Put(p_GA,&lo,&hi,&((p_data[i])[0]),&one);
       p_data[i].clear();
     }
     p_data.clear();
@@ -189,6 +193,11 @@ public:
     int lo = p_begin[idx];
     int hi = p_end[idx]-1;
     int size = p_end[idx]-p_begin[idx];
+    // nothing is stored for this index
+    if (size < 1) {
+      vec.clear();
+      return;
+    }
     _data_type *dbuf = new _data_type[size];
     NGA_Get(p_GA,&lo,&hi,dbuf,&ld);
     // Copy results to vector
-- 
2.43.0


From 7e514be15fcd569c8e0bc1254d72679f30dfa8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 010/137] fix: GlobalVector synchronises before checking and
 before storing uploaded elements

---
 src/parallel/global_vector.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parallel/global_vector.hpp b/src/parallel/global_vector.hpp
index b0a6ba5..f79a00c 100644
--- a/src/parallel/global_vector.hpp
+++ b/src/parallel/global_vector.hpp
@@ -174,6 +174,8 @@ public:
     if (p_index.size() > 0) {
       delete [] ival;
     }
+    // contributions from all processes must be in place before they are checked
+    GA_Pgroup_sync(GAgrp);
     int ilo, ihi, ld;
     int *lptr;
     NGA_Distribution(g_idx,p_me,&ilo,&ihi);
@@ -209,6 +211,8 @@ public:
       memset(dptr,'\0',ld*p_datasize);
       NGA_Release(p_GA,&ilo,&ihi);
     }
+    // no process may store data until all blocks have been cleared
+    GA_Pgroup_sync(GAgrp);
 
     // Copy data to GA
     _data_type *data;
@@ -287,6 +291,10 @@ public:
         throw gridpack::Exception(buf);
       }
     }
+    if (idx.size() == 0) {
+      vec.clear();
+      return;
+    }
     int *iarr = new int[idx.size()];
     int **iptr = new int*[idx.size()];
     for (i=0; i<idx.size(); i++) {
-- 
2.43.0


From c9da6d61ca86f7dbdae8769d1b651ec3f8413a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 011/137] fix: mappers no longer abort when a process owns no
 buses or branches

A process with no contribution handed NGA_Get an empty range and read
element 0 of an empty index list; an irregular GA distribution cannot
describe an empty process either.
---
 src/mapper/full_map.hpp       | 25 ++++++++++++++++++-------
 src/mapper/gen_matrix_map.hpp | 15 +++++++++++----
 src/mapper/gen_slab_map.hpp   | 11 +++++++++--
 src/mapper/gen_vector_map.hpp | 11 +++++++++--
 4 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index f05b463..fd49652 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -757,12 +757,15 @@ void setupOffsetArrays()
   }
 //  printf("p[%d] (FullMatrixMap) minRow: %d maxRow: %d\n",p_me,p_minRowIndex,p_maxRowIndex);
   // Create array to hold information about desired rows
-  int nRows = p_maxRowIndex-p_minRowIndex+1;
+  int nRows = 0;
+  if (p_activeBuses > 0) nRows = p_maxRowIndex-p_minRowIndex+1;
   int *iSizes = new int[nRows]; 
   int *jSizes = new int[nRows]; 
   GA_Pgroup_sync(p_GAgrp);
-  NGA_Get(gaMatBlksI,&p_minRowIndex,&p_maxRowIndex,iSizes,&one);
-  NGA_Get(gaMatBlksJ,&p_minRowIndex,&p_maxRowIndex,jSizes,&one);
+  if (nRows > 0) {
+    NGA_Get(gaMatBlksI,&p_minRowIndex,&p_maxRowIndex,iSizes,&one);
+    NGA_Get(gaMatBlksJ,&p_minRowIndex,&p_maxRowIndex,jSizes,&one);
+  }
 
   // Calculate total number of elements associated with row block and column
   // block associated with this processor
@@ -822,6 +825,12 @@ void setupOffsetArrays()
     mapc[i] = mapc[i-1] + offset[i-1];
   }
 
+  // GA cannot represent a distribution in which a process owns nothing
+  bool hasEmpty = false;
+  for (i=0; i<p_nNodes; i++) {
+    if (offset[i] == 0) hasEmpty = true;
+  }
+
   delete [] offset;
   delete [] itmp;
   delete [] jtmp;
@@ -829,7 +838,7 @@ void setupOffsetArrays()
   // Create arrays that will hold final offsets
   gaOffsetI = GA_Create_handle();
   GA_Set_data(gaOffsetI, one, &p_totalBuses, C_INT);
-  GA_Set_irreg_distr(gaOffsetI, mapc, &p_nNodes);
+  if (!hasEmpty) GA_Set_irreg_distr(gaOffsetI, mapc, &p_nNodes);
   GA_Set_pgroup(gaOffsetI,p_GAgrp);
   if (!GA_Allocate(gaOffsetI)) {
     char buf[256];
@@ -841,7 +850,7 @@ void setupOffsetArrays()
 
   gaOffsetJ = GA_Create_handle();
   GA_Set_data(gaOffsetJ, one, &p_totalBuses, C_INT);
-  GA_Set_irreg_distr(gaOffsetJ, mapc, &p_nNodes);
+  if (!hasEmpty) GA_Set_irreg_distr(gaOffsetJ, mapc, &p_nNodes);
   GA_Set_pgroup(gaOffsetJ,p_GAgrp);
   if (!GA_Allocate(gaOffsetJ)) {
     char buf[256];
@@ -854,8 +863,10 @@ void setupOffsetArrays()
   // Evaluate offsets for this processor
   int *iOffsets = new int[nRows]; 
   int *jOffsets = new int[nRows]; 
-  iOffsets[0] = offsetArrayISize;
-  jOffsets[0] = offsetArrayJSize;
+  if (nRows > 0) {
+    iOffsets[0] = offsetArrayISize;
+    jOffsets[0] = offsetArrayJSize;
+  }
   for (i=1; i<nRows; i++) {
     iOffsets[i] = iOffsets[i-1] + iSizes[i-1];
     jOffsets[i] = jOffsets[i-1] + jSizes[i-1];
diff --git a/src/mapper/gen_matrix_map.hpp b/src/mapper/gen_matrix_map.hpp
index dd2c41b..f27dc7a 100644
--- a/src/mapper/gen_matrix_map.hpp
+++ b/src/mapper/gen_matrix_map.hpp
@@ -392,13 +392,20 @@ void setOffsets(void)
     branchMap[i] = branchMap[i-1] + t_branchMap[i-1];
     total_branches += t_branchMap[i];
   }
+  // GA cannot represent a distribution in which a process owns nothing
+  bool emptyBus = false;
+  bool emptyBranch = false;
+  for (i=0; i<p_nNodes; i++) {
+    if (t_busMap[i] == 0) emptyBus = true;
+    if (t_branchMap[i] == 0) emptyBranch = true;
+  }
   delete [] t_busMap;
   delete [] t_branchMap;
 
   int one = 1;
   g_bus_row_offsets = GA_Create_handle();
   GA_Set_data(g_bus_row_offsets, one, &total_buses, C_INT);
-  GA_Set_irreg_distr(g_bus_row_offsets, busMap, &p_nNodes);
+  if (!emptyBus) GA_Set_irreg_distr(g_bus_row_offsets, busMap, &p_nNodes);
   GA_Set_pgroup(g_bus_row_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_row_offsets)) {
     char buf[256];
@@ -410,7 +417,7 @@ void setOffsets(void)
 
   g_bus_column_offsets = GA_Create_handle();
   GA_Set_data(g_bus_column_offsets, one, &total_buses, C_INT);
-  GA_Set_irreg_distr(g_bus_column_offsets, busMap, &p_nNodes);
+  if (!emptyBus) GA_Set_irreg_distr(g_bus_column_offsets, busMap, &p_nNodes);
   GA_Set_pgroup(g_bus_column_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_column_offsets)) {
     char buf[256];
@@ -422,7 +429,7 @@ void setOffsets(void)
 
   g_branch_row_offsets = GA_Create_handle();
   GA_Set_data(g_branch_row_offsets, one, &total_branches, C_INT);
-  GA_Set_irreg_distr(g_branch_row_offsets, branchMap, &p_nNodes);
+  if (!emptyBranch) GA_Set_irreg_distr(g_branch_row_offsets, branchMap, &p_nNodes);
   GA_Set_pgroup(g_branch_row_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_row_offsets)) {
     char buf[256];
@@ -434,7 +441,7 @@ void setOffsets(void)
 
   g_branch_column_offsets = GA_Create_handle();
   GA_Set_data(g_branch_column_offsets, one, &total_branches, C_INT);
-  GA_Set_irreg_distr(g_branch_column_offsets, branchMap, &p_nNodes);
+  if (!emptyBranch) GA_Set_irreg_distr(g_branch_column_offsets, branchMap, &p_nNodes);
   GA_Set_pgroup(g_branch_column_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_column_offsets)) {
     char buf[256];
diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index d6b5837..585a192 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -470,13 +470,20 @@ void setOffsets(void)
     branchMap[i] = branchMap[i-1] + t_branchMap[i-1];
     total_branches += t_branchMap[i];
   }
+  // GA cannot represent a distribution in which a process owns nothing
+  bool emptyBus = false;
+  bool emptyBranch = false;
+  for (i=0; i<p_nNodes; i++) {
+    if (t_busMap[i] == 0) emptyBus = true;
+    if (t_branchMap[i] == 0) emptyBranch = true;
+  }
   delete [] t_busMap;
   delete [] t_branchMap;
 
   int one = 1;
   g_bus_offsets = GA_Create_handle();
   GA_Set_data(g_bus_offsets, one, &total_buses, C_INT);
-  GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
+  if (!emptyBus) GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
   GA_Set_pgroup(g_bus_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_offsets)) {
     char buf[256];
@@ -488,7 +495,7 @@ void setOffsets(void)
 
   g_branch_offsets = GA_Create_handle();
   GA_Set_data(g_branch_offsets, one, &total_branches, C_INT);
-  GA_Set_irreg_distr(g_branch_offsets, branchMap, &p_nNodes);
+  if (!emptyBranch) GA_Set_irreg_distr(g_branch_offsets, branchMap, &p_nNodes);
   GA_Set_pgroup(g_branch_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_offsets)) {
     char buf[256];
diff --git a/src/mapper/gen_vector_map.hpp b/src/mapper/gen_vector_map.hpp
index 2eabdfc..8780318 100644
--- a/src/mapper/gen_vector_map.hpp
+++ b/src/mapper/gen_vector_map.hpp
@@ -348,13 +348,20 @@ void setOffsets(void)
     branchMap[i] = branchMap[i-1] + t_branchMap[i-1];
     total_branches += t_branchMap[i];
   }
+  // GA cannot represent a distribution in which a process owns nothing
+  bool emptyBus = false;
+  bool emptyBranch = false;
+  for (i=0; i<p_nNodes; i++) {
+    if (t_busMap[i] == 0) emptyBus = true;
+    if (t_branchMap[i] == 0) emptyBranch = true;
+  }
   delete [] t_busMap;
   delete [] t_branchMap;
 
   int one = 1;
   g_bus_offsets = GA_Create_handle();
   GA_Set_data(g_bus_offsets, one, &total_buses, C_INT);
-  GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
+  if (!emptyBus) GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
   GA_Set_pgroup(g_bus_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_offsets)) {
     char buf[256];
@@ -366,7 +373,7 @@ void setOffsets(void)
 
   g_branch_offsets = GA_Create_handle();
   GA_Set_data(g_branch_offsets, one, &total_branches, C_INT);
-  GA_Set_irreg_distr(g_branch_offsets, branchMap, &p_nNodes);
+  if (!emptyBranch) GA_Set_irreg_distr(g_branch_offsets, branchMap, &p_nNodes);
   GA_Set_pgroup(g_branch_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_offsets)) {
     char buf[256];
-- 
2.43.0


From 2970f73080e0f1ce7d8b7c4f93c4b08cea7944b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 012/137] fix: communicators wrapped around an MPI_Comm create
 their GA group on demand

Matrix construction, cloning and solver callbacks extract a Communicator
from a PETSc object. Creating the GA process group there is collective
over the world, so sub-communicators creating different numbers of
matrices dead-locked.
---
 src/parallel/communicator.cpp | 56 ++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/parallel/communicator.cpp b/src/parallel/communicator.cpp
index bd3d2ae..16c5707 100644
--- a/src/parallel/communicator.cpp
+++ b/src/parallel/communicator.cpp
@@ -41,25 +41,22 @@ public:
 
   /// Default constructor.
   CommunicatorPrivate(void)
-    : p_handle(GA_Pgroup_get_world()), p_created(false)
+    : p_comm(), p_handle(GA_Pgroup_get_world()), p_created(false),
+      p_pending(false)
   {
   }
 
   /// Construct on the processes in the specified communicators
-  CommunicatorPrivate(const boost::mpi::communicator& comm)
-    : p_handle(), p_created(true)
+  /**
+   * Creating a GA process group is collective over all processes in
+   * the world. If @c deferred, that is put off until the group is
+   * actually requested.
+   */
+  CommunicatorPrivate(const boost::mpi::communicator& comm,
+                      const bool& deferred = false)
+    : p_comm(comm), p_handle(), p_created(false), p_pending(true)
   {
-    int me(comm.rank()), nprocs(comm.size());
-    int gaWrld = GA_Pgroup_get_world();
-    int defGrp = GA_Pgroup_get_default();
-    GA_Pgroup_set_default(gaWrld);
-    std::vector<int> gaSrc(nprocs, 0), gaDest(nprocs, 0);
-    gaSrc[me] = GA_Nodeid();
-    boost::mpi::all_reduce(comm, &gaSrc[0], nprocs, &gaDest[0], std::plus<int>());
-    p_handle = GA_Pgroup_create(&gaDest[0],nprocs);
-    // GA_Pgroup_sync(p_handle);
-    GA_Pgroup_set_default(defGrp);
-    created++;
+    if (!deferred) p_create();
   }
 
   /// Destructor
@@ -74,16 +71,41 @@ public:
   /// Get GA process group handle
   const int& handle(void) const
   {
+    if (p_pending) p_create();
     return p_handle;
   }
 
 private:
 
+  /// The communicator from which the GA process group is made
+  boost::mpi::communicator p_comm;
+
   /// The GA process group handle
-  int p_handle;
+  mutable int p_handle;
   
   /// Was the GA process group created for this instance
-  const bool p_created;
+  mutable bool p_created;
+
+  /// Does the GA process group still need to be created
+  mutable bool p_pending;
+
+  /// Create the GA process group (collective on all processes in the world)
+  void p_create(void) const
+  {
+    int me(p_comm.rank()), nprocs(p_comm.size());
+    int gaWrld = GA_Pgroup_get_world();
+    int defGrp = GA_Pgroup_get_default();
+    GA_Pgroup_set_default(gaWrld);
+    std::vector<int> gaSrc(nprocs, 0), gaDest(nprocs, 0);
+    gaSrc[me] = GA_Nodeid();
+    boost::mpi::all_reduce(p_comm, &gaSrc[0], nprocs, &gaDest[0], std::plus<int>());
+    p_handle = GA_Pgroup_create(&gaDest[0],nprocs);
+    // GA_Pgroup_sync(p_handle);
+    GA_Pgroup_set_default(defGrp);
+    p_created = true;
+    p_pending = false;
+    created++;
+  }
 };
 
 int CommunicatorPrivate::created(0);
@@ -130,7 +152,7 @@ Communicator::Communicator(const boost::mpi::communicator& comm)
 
 Communicator::Communicator(const MPI_Comm& comm)
   : p_comm(comm, boost::mpi::comm_duplicate),
-    p_private(new CommunicatorPrivate(p_comm))
+    p_private(new CommunicatorPrivate(p_comm, true))
 {
 }
 
-- 
2.43.0


From ce7177703fa9def0929203266ee0a2c13f5a62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:04 +0000
Subject: [PATCH 013/137] fix: FullMatrixMap::check reports every mismatch and
 compares like dimensions

The result was uninitialised without branches, was overwritten by each
branch and compared rows of one block against columns of another.
---
 src/mapper/full_map.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index fd49652..95c39de 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -357,7 +357,7 @@ bool check(void)
   int msize, nsize;
   gridpack::component::BaseBusComponent *bus1;
   gridpack::component::BaseBusComponent *bus2;
-  bool ok;
+  bool ok, ret = true;
   for (i=0; i<p_nBranches; i++) {
     bus1 = dynamic_cast<gridpack::component::BaseBusComponent*>
       (p_network->getBranch(i)->getBus1().get());
@@ -372,12 +372,13 @@ bool check(void)
         msize = 0;
         nsize = 0;
         bus1->matrixDiagSize(&msize, &nsize);
-        if (nsize != isize) ok = false;
+        if (msize != isize) ok = false;
         msize = 0;
         nsize = 0;
         bus2->matrixDiagSize(&msize, &nsize);
-        if (msize != jsize) ok = false;
+        if (nsize != jsize) ok = false;
         if (!ok) {
+          ret = false;
           printf("Forward mismatch for branch between %d and %d\n",
               bus1->getOriginalIndex(), bus2->getOriginalIndex());
         }
@@ -392,19 +393,20 @@ bool check(void)
         msize = 0;
         nsize = 0;
         bus1->matrixDiagSize(&msize, &nsize);
-        if (msize != jsize) ok = false;
+        if (nsize != jsize) ok = false;
         msize = 0;
         nsize = 0;
         bus2->matrixDiagSize(&msize, &nsize);
-        if (nsize != isize) ok = false;
+        if (msize != isize) ok = false;
         if (!ok) {
+          ret = false;
           printf("Reverse mismatch for branch between %d and %d\n",
               bus1->getOriginalIndex(), bus2->getOriginalIndex());
         }
       }
     }
   }
-  return ok;
+  return ret;
 }
 
 private:
-- 
2.43.0


From 2d2c792a90e68dcf48103b0e98ef19cf9fccedba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:04 +0000
Subject: [PATCH 014/137] fix: GenMatrixMap looks up a branch's columns with
 the column index

Asking a branch with more columns than rows for the row index of its
last column reads past the component's row index list.
---
 src/mapper/gen_matrix_map.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mapper/gen_matrix_map.hpp b/src/mapper/gen_matrix_map.hpp
index f27dc7a..fa5d183 100644
--- a/src/mapper/gen_matrix_map.hpp
+++ b/src/mapper/gen_matrix_map.hpp
@@ -614,8 +614,8 @@ void numberNonZeros(void)
       int rmin, rmax;
       bool isActive = p_network->getActiveBranch(i);
       if (ncols > 0) {
-        rmin = p_network->getBranch(i)->matrixGetRowIndex(0);
-        rmax = p_network->getBranch(i)->matrixGetRowIndex(ncols-1);
+        rmin = p_network->getBranch(i)->matrixGetColIndex(0);
+        rmax = p_network->getBranch(i)->matrixGetColIndex(ncols-1);
       }
       gridpack::ComplexType *values = new gridpack::ComplexType[nvals];
       int *rows = new int[nvals];
@@ -688,8 +688,8 @@ void loadBranchData(gridpack::math::Matrix &matrix, bool flag)
       int rmin, rmax;
       bool isActive = p_network->getActiveBranch(i);
       if (ncols > 0) {
-        rmin = p_network->getBranch(i)->matrixGetRowIndex(0);
-        rmax = p_network->getBranch(i)->matrixGetRowIndex(ncols-1);
+        rmin = p_network->getBranch(i)->matrixGetColIndex(0);
+        rmax = p_network->getBranch(i)->matrixGetColIndex(ncols-1);
       }
       p_network->getBranch(i)->matrixGetValues(values,rows,cols);
       bool addElem;
-- 
2.43.0


From 60895cb682711e04f3b7972f7dda809b7fda4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:04 +0000
Subject: [PATCH 015/137] fix: GenSlabMap accepts processes that contribute no
 rows

Such a process reported 0 columns, so process 0 alone threw and every
other process waited for it for ever.
---
 src/mapper/gen_slab_map.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index 585a192..92b7b7f 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -17,6 +17,7 @@
 #ifndef GENSLABMAP_HPP_
 #define GENSLABMAP_HPP_
 
+#include <climits>
 #include <boost/smart_ptr/shared_ptr.hpp>
 #include <ga.h>
 #include "gridpack/parallel/parallel.hpp"
@@ -330,6 +331,9 @@ void getDimensions(void)
   int maxCols, minCols;
   if (!okCols) {
     minCols = -1;
+  } else if (nRows == 0) {
+    // nothing contributed by this processor, so it has no say
+    minCols = INT_MAX;
   } else {
     minCols = nCols;
   }
@@ -340,15 +344,15 @@ void getDimensions(void)
   char cmax[4];
   strcpy(cmax,"max");
   GA_Pgroup_igop(p_GAgrp, &maxCols, 1, cmax);
-  if (maxCols != minCols) okCols = false;
-  if (!okCols && p_me == 0) {
+  if (minCols != INT_MAX && maxCols != minCols) okCols = false;
+  if (!okCols) {
     char buf[512];
     sprintf(buf,"(GenSlabMap) Number of columns not uniform across all processors\n");
     throw gridpack::Exception(buf);
   }
   // Get total row dimension and evaluate offsets for processor
   p_Dim = sizebuf[0];
-  p_nColumns = nCols;
+  p_nColumns = maxCols;
   p_Offsets[0] = 0;
   for (i=1; i<p_nNodes; i++) {
     p_Dim += sizebuf[i];
-- 
2.43.0


From 5f37fe45ec3ab21a2bb58d7c6ee0be3654678c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 016/137] fix: preallocated matrices allow processes without
 rows

An empty list became a null pointer, PETSc then used another allocation
mode on that process and assembly dead-locked.
---
 src/math/petsc/petsc_matrix_wrapper.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/math/petsc/petsc_matrix_wrapper.cpp b/src/math/petsc/petsc_matrix_wrapper.cpp
index d87fbee..43e189f 100644
--- a/src/math/petsc/petsc_matrix_wrapper.cpp
+++ b/src/math/petsc/petsc_matrix_wrapper.cpp
@@ -236,6 +236,10 @@ PetscMatrixWrapper::p_set_sparse_matrix(const PetscInt *nz_by_row)
   std::copy(nz_by_row, nz_by_row+lrows, 
             std::back_inserter(diagnz));
 
+  // A process without rows must still hand PETSc an array: the
+  // allocation mode has to be the same on all processes
+  if (diagnz.empty()) diagnz.push_back(0);
+
   PetscErrorCode ierr(0);
   try {
     parallel::Communicator comm(getCommunicator(p_matrix));
@@ -245,10 +249,7 @@ PetscMatrixWrapper::p_set_sparse_matrix(const PetscInt *nz_by_row)
                                        PETSC_DECIDE,
                                        &diagnz[0]); CHKERRXX(ierr);
     } else {
-      std::vector<PetscInt> offdiagnz;
-      offdiagnz.reserve(lrows);
-      std::copy(nz_by_row, nz_by_row+lrows, 
-                std::back_inserter(offdiagnz));
+      std::vector<PetscInt> offdiagnz(diagnz);
       ierr = MatSetType(p_matrix, MATMPIAIJ); CHKERRXX(ierr);
       ierr = MatMPIAIJSetPreallocation(p_matrix, 
                                        PETSC_DECIDE,
-- 
2.43.0


From bed64649147d104481335937e2072d756e042028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:56 +0000
Subject: [PATCH 017/137] fix: GenSlabMap::intMapToMatrix makes the same matrix
 as mapToMatrix

It passed the global column count as the local one, giving a matrix with
as many copies of the columns as there are processes.
---
 src/mapper/gen_slab_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index 92b7b7f..6535379 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -103,12 +103,12 @@ gridpack::math::Matrix* intMapToMatrix(void)
 {
   gridpack::parallel::Communicator comm = p_network->communicator();
   int blockSize = p_maxIndex-p_minIndex+1;
-#if 1
+#if 0
   gridpack::math::Matrix*
     Ret(new gridpack::math::Matrix(comm, blockSize,p_nColumns,
                                    gridpack::math::Dense));
 #else
-  boost::shared_ptr<gridpack::math::Matrix>
+  gridpack::math::Matrix*
     Ret(gridpack::math::Matrix::createDense(comm,
           0,p_nColumns,blockSize,0));
 #endif
-- 
2.43.0


From 8eed057d098c9b26bfe27f75e2919043e146e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:56 +0000
Subject: [PATCH 018/137] fix: dense matrices can have processes without rows
 or columns

A local size of 0 was taken as unspecified even when no global size was
given, so such a process and the others disagreed on the layout.
---
 src/math/petsc/petsc_matrix_implementation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math/petsc/petsc_matrix_implementation.hpp b/src/math/petsc/petsc_matrix_implementation.hpp
index 91314e8..e6827f9 100644
--- a/src/math/petsc/petsc_matrix_implementation.hpp
+++ b/src/math/petsc/petsc_matrix_implementation.hpp
@@ -137,8 +137,9 @@ public:
     try {
       PetscInt grow(global_rows > 0 ? global_rows : PETSC_DETERMINE);
       PetscInt gcol(global_cols > 0 ? global_cols : PETSC_DETERMINE);
-      PetscInt lrow(local_rows > 0 ? local_rows : PETSC_DECIDE);
-      PetscInt lcol(local_cols > 0 ? local_cols : PETSC_DECIDE);
+      // without a global size, the local size is never PETSc's to decide
+      PetscInt lrow(local_rows > 0 || grow == PETSC_DETERMINE ? local_rows : PETSC_DECIDE);
+      PetscInt lcol(local_cols > 0 || gcol == PETSC_DETERMINE ? local_cols : PETSC_DECIDE);
 
       ierr = PetscSplitOwnership(comm, &lrow, &grow); CHKERRXX(ierr);
       ierr = PetscSplitOwnership(comm, &lcol, &gcol); CHKERRXX(ierr);
-- 
2.43.0


From 0cc1f989894ee2bec8fd38b434d7772b3846c888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 019/137] fix: column and diagonal accept matrices made from
 other matrices

---
 src/math/petsc/petsc_matrix_operations.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/math/petsc/petsc_matrix_operations.cpp b/src/math/petsc/petsc_matrix_operations.cpp
index 5236714..4bbb7cd 100644
--- a/src/math/petsc/petsc_matrix_operations.cpp
+++ b/src/math/petsc/petsc_matrix_operations.cpp
@@ -190,6 +190,22 @@ transposeMultiply(const MatrixT<RealType, int>& A,
                   const VectorT<RealType, int>& x, 
                   VectorT<RealType, int>& result);
 
+// -------------------------------------------------------------
+// sameProcesses
+// -------------------------------------------------------------
+/** 
+ * A matrix made by PETSc from another one (clone, product, transpose,
+ * ...) carries PETSc's own duplicate of the communicator, which is
+ * never identical to the original.
+ */
+static bool
+sameProcesses(const parallel::Communicator& a, const parallel::Communicator& b)
+{
+  int result;
+  MPI_Comm_compare(static_cast<MPI_Comm>(a), static_cast<MPI_Comm>(b), &result);
+  return (result == MPI_IDENT || result == MPI_CONGRUENT);
+}
+
 // -------------------------------------------------------------
 // column
 // -------------------------------------------------------------
@@ -206,7 +222,7 @@ template <typename T, typename I>
 void
 column(const MatrixT<T, I>& A, const int& cidx, VectorT<T, I>& result)
 {
-  if (result.communicator() != A.communicator()) {
+  if (!sameProcesses(result.communicator(), A.communicator())) {
     throw gridpack::Exception("incompatible: communicators do not match");
   }
 
@@ -250,7 +266,7 @@ template <typename T, typename I>
 void
 diagonal(const MatrixT<T, I>& A, VectorT<T, I>& result)
 {
-  if (result.communicator() != A.communicator()) {
+  if (!sameProcesses(result.communicator(), A.communicator())) {
     throw gridpack::Exception("incompatible: communicators do not match");
   }
 
-- 
2.43.0


From f84045bb436da53d05881e44b0f59b41175117c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 020/137] fix: transposeMultiply makes a vector as long as the
 matrix has columns

---
 src/math/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/matrix.hpp b/src/math/matrix.hpp
index 3b4c58b..df10ae8 100644
--- a/src/math/matrix.hpp
+++ b/src/math/matrix.hpp
@@ -683,7 +683,7 @@ VectorT<T, I> *multiply(const MatrixT<T, I>& A, const VectorT<T, I>& x)
 template <typename T, typename I>
 VectorT<T, I> *transposeMultiply(const MatrixT<T, I>& A, const VectorT<T, I>& x)
 {
-  VectorT<T, I> *result(new VectorT<T, I>(x.communicator(), x.localSize()));
+  VectorT<T, I> *result(new VectorT<T, I>(x.communicator(), A.localCols()));
   transposeMultiply<T, I>(A, x, *result);
   return result;
 }
-- 
2.43.0


From 934ee3b7f94de174c5ccf72370e0a3352de813a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 021/137] fix: converted and multiplied matrices accept values
 for rows of other processes

---
 src/math/petsc/petsc_matrix_operations.cpp | 1 +
 src/math/petsc/petsc_matrix_wrapper.cpp    | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/math/petsc/petsc_matrix_operations.cpp b/src/math/petsc/petsc_matrix_operations.cpp
index 4bbb7cd..f01ec50 100644
--- a/src/math/petsc/petsc_matrix_operations.cpp
+++ b/src/math/petsc/petsc_matrix_operations.cpp
@@ -395,6 +395,7 @@ multiply(const MatrixT<T, I>& A, const MatrixT<T, I>& B, MatrixT<T, I>& result)
     try {
       ierr = MatDestroy(Cmat); CHKERRXX(ierr);
       ierr = MatMatMult(*Amat, *Bmat, MAT_INITIAL_MATRIX, PETSC_DEFAULT, Cmat); CHKERRXX(ierr);
+      ierr = MatSetOption(*Cmat, MAT_NO_OFF_PROC_ENTRIES, PETSC_FALSE); CHKERRXX(ierr);
     } catch (const PETSC_EXCEPTION_TYPE& e) {
       throw PETScException(ierr, e);
     }
diff --git a/src/math/petsc/petsc_matrix_wrapper.cpp b/src/math/petsc/petsc_matrix_wrapper.cpp
index 43e189f..7eade90 100644
--- a/src/math/petsc/petsc_matrix_wrapper.cpp
+++ b/src/math/petsc/petsc_matrix_wrapper.cpp
@@ -105,6 +105,11 @@ PetscMatrixWrapper::PetscMatrixWrapper(Mat& m, const bool& copyMat, const bool&
       p_matrixWrapped = true;
     }
 
+    // PETSc leaves this set in some matrices it makes (conversion,
+    // products), which then silently ignore values set by processes
+    // that do not own the row
+    ierr = MatSetOption(p_matrix, MAT_NO_OFF_PROC_ENTRIES, PETSC_FALSE); CHKERRXX(ierr);
+
   } catch (const PETSC_EXCEPTION_TYPE& e) {
     throw PETScException(ierr, e);
   }
-- 
2.43.0


From 9ad811160fe93dd2e6f76235b7834e2e07999c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 022/137] fix: repeated serial solves use the whole right hand
 side

---
 src/math/linear_solver_implementation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/linear_solver_implementation.hpp b/src/math/linear_solver_implementation.hpp
index 1514e7d..89e3b80 100644
--- a/src/math/linear_solver_implementation.hpp
+++ b/src/math/linear_solver_implementation.hpp
@@ -199,7 +199,8 @@ protected:
       p_serialRHS.reset(b.localClone());
     } else {
       b.getAllElements(&p_valueBuffer[0]);
-      p_serialRHS->setElementRange(0, b.size() - 1, &p_valueBuffer[0]);
+      p_serialRHS->setElementRange(0, b.size(), &p_valueBuffer[0]);
+      p_serialRHS->ready();
     }
 
     // Collect the initial guess, if it's not zero
@@ -212,7 +213,8 @@ protected:
     } else {
       if (!p_guessZero) {
         x.getAllElements(&p_valueBuffer[0]);
-        p_serialSolution->setElementRange(0, x.size() - 1, &p_valueBuffer[0]);
+        p_serialSolution->setElementRange(0, x.size(), &p_valueBuffer[0]);
+        p_serialSolution->ready();
       }
     }
   }
-- 
2.43.0


From dbc50ae43f819bd77ff2881c391465fdb1a3d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 023/137] fix: store branch and transformer ownership fractions
 as real values

---
 src/parser/block_parsers/branch_parser33.cpp      | 8 ++++----
 src/parser/block_parsers/branch_parser34.cpp      | 8 ++++----
 src/parser/block_parsers/transformer_parser33.cpp | 8 ++++----
 src/parser/block_parsers/transformer_parser34.cpp | 8 ++++----
 src/parser/block_parsers/transformer_parser35.cpp | 8 ++++----
 5 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/parser/block_parsers/branch_parser33.cpp b/src/parser/block_parsers/branch_parser33.cpp
index 47fffd5..b07dc6d 100644
--- a/src/parser/block_parsers/branch_parser33.cpp
+++ b/src/parser/block_parsers/branch_parser33.cpp
@@ -180,7 +180,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F1        "F1"                             float
     if (nstr > 17) p_branchData[l_idx]->addValue(BRANCH_F1,
-        atoi(split_line[17].c_str()), nelems);
+        atof(split_line[17].c_str()), nelems);
 
     // BRANCH_O2        "O2"                       integer
     if (nstr > 18) p_branchData[l_idx]->addValue(BRANCH_O2,
@@ -188,7 +188,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F2        "F2"                             float
     if (nstr > 19) p_branchData[l_idx]->addValue(BRANCH_F2,
-        atoi(split_line[19].c_str()), nelems);
+        atof(split_line[19].c_str()), nelems);
 
     // BRANCH_O3        "O3"                       integer
     if (nstr > 20) p_branchData[l_idx]->addValue(BRANCH_O3,
@@ -196,7 +196,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F3        "F3"                             float
     if (nstr > 21) p_branchData[l_idx]->addValue(BRANCH_F3,
-        atoi(split_line[21].c_str()), nelems);
+        atof(split_line[21].c_str()), nelems);
 
     // BRANCH_O4        "O4"                       integer
     if (nstr > 22) p_branchData[l_idx]->addValue(BRANCH_O4,
@@ -204,7 +204,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F4        "F4"                             float
     if (nstr > 23) p_branchData[l_idx]->addValue(BRANCH_F4,
-        atoi(split_line[23].c_str()), nelems);
+        atof(split_line[23].c_str()), nelems);
 
     // TODO: add variables MET, LEN, Oi, Fi
 
diff --git a/src/parser/block_parsers/branch_parser34.cpp b/src/parser/block_parsers/branch_parser34.cpp
index bd824d4..b3ce173 100644
--- a/src/parser/block_parsers/branch_parser34.cpp
+++ b/src/parser/block_parsers/branch_parser34.cpp
@@ -216,7 +216,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F1        "F1"                             float
     if (nstr > 27) p_branchData[l_idx]->addValue(BRANCH_F1,
-        atoi(split_line[27].c_str()), nelems);
+        atof(split_line[27].c_str()), nelems);
 
     // BRANCH_O2        "O2"                       integer
     if (nstr > 28) p_branchData[l_idx]->addValue(BRANCH_O2,
@@ -224,7 +224,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F2        "F2"                             float
     if (nstr > 29) p_branchData[l_idx]->addValue(BRANCH_F2,
-        atoi(split_line[29].c_str()), nelems);
+        atof(split_line[29].c_str()), nelems);
 
     // BRANCH_O3        "O3"                       integer
     if (nstr > 30) p_branchData[l_idx]->addValue(BRANCH_O3,
@@ -232,7 +232,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F3        "F3"                             float
     if (nstr > 31) p_branchData[l_idx]->addValue(BRANCH_F3,
-        atoi(split_line[31].c_str()), nelems);
+        atof(split_line[31].c_str()), nelems);
 
     // BRANCH_O4        "O4"                       integer
     if (nstr > 32) p_branchData[l_idx]->addValue(BRANCH_O4,
@@ -240,7 +240,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F4        "F4"                             float
     if (nstr > 33) p_branchData[l_idx]->addValue(BRANCH_F4,
-        atoi(split_line[33].c_str()), nelems);
+        atof(split_line[33].c_str()), nelems);
 
     // TODO: add variables MET, LEN, Oi, Fi
 
diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index aa84a90..bec4e6f 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -481,7 +481,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -495,7 +495,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -509,7 +509,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -523,7 +523,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 8669214..15b11f5 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -518,7 +518,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -532,7 +532,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -546,7 +546,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -560,7 +560,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index db42c33..3ecbede 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -517,7 +517,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -531,7 +531,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -545,7 +545,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -559,7 +559,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
-- 
2.43.0


From f04c872a22f986ca2f11722a47e36956628b307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 024/137] fix: record that a two-winding transformer is listed
 against the direction of its branch

---
 src/parser/block_parsers/transformer_parser33.cpp | 3 +++
 src/parser/block_parsers/transformer_parser34.cpp | 3 +++
 src/parser/block_parsers/transformer_parser35.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index bec4e6f..7d1675e 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -415,6 +415,9 @@ void gridpack::parser::TransformerParser33::parse(
       // BRANCH_CKT          "CKT"                 character
       p_branchData[l_idx]->addValue(BRANCH_CKT, tag.c_str(), nelems);
 
+      // BRANCH_SWITCHED
+      p_branchData[l_idx]->addValue(BRANCH_SWITCHED, switched, nelems);
+
       // Add remaining parameters from line 1
       /*
        * type: integer
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 15b11f5..51aa023 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -452,6 +452,9 @@ void gridpack::parser::TransformerParser34::parse(
       // BRANCH_CKT          "CKT"                 character
       p_branchData[l_idx]->addValue(BRANCH_CKT, tag.c_str(), nelems);
 
+      // BRANCH_SWITCHED
+      p_branchData[l_idx]->addValue(BRANCH_SWITCHED, switched, nelems);
+
       // Add remaining parameters from line 1
       /*
        * type: integer
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 3ecbede..738e257 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -451,6 +451,9 @@ void gridpack::parser::TransformerParser35::parse(
       // BRANCH_CKT          "CKT"                 character
       p_branchData[l_idx]->addValue(BRANCH_CKT, tag.c_str(), nelems);
 
+      // BRANCH_SWITCHED
+      p_branchData[l_idx]->addValue(BRANCH_SWITCHED, switched, nelems);
+
       // Add remaining parameters from line 1
       /*
        * type: integer
-- 
2.43.0


From 11134e514073a23cacb913a6bf6336a331fdefa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 025/137] fix: number transformer branches after three-winding
 transformers correctly

---
 src/parser/block_parsers/transformer_parser33.cpp | 2 +-
 src/parser/block_parsers/transformer_parser34.cpp | 2 +-
 src/parser/block_parsers/transformer_parser35.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index 7d1675e..b12c3d6 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -393,7 +393,7 @@ void gridpack::parser::TransformerParser33::parse(
       if (nelems == 0) {
         // BRANCH_INDEX                   integer
         p_branchData[l_idx]->addValue(BRANCH_INDEX,
-            index);
+            l_idx);
 
         // BRANCH_FROMBUS            "I"  integer
         p_branchData[l_idx]->addValue(BRANCH_FROMBUS,
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 51aa023..308f450 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -430,7 +430,7 @@ void gridpack::parser::TransformerParser34::parse(
       if (nelems == 0) {
         // BRANCH_INDEX                   integer
         p_branchData[l_idx]->addValue(BRANCH_INDEX,
-            index);
+            l_idx);
 
         // BRANCH_FROMBUS            "I"  integer
         p_branchData[l_idx]->addValue(BRANCH_FROMBUS,
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 738e257..b6b486e 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -429,7 +429,7 @@ void gridpack::parser::TransformerParser35::parse(
       if (nelems == 0) {
         // BRANCH_INDEX                   integer
         p_branchData[l_idx]->addValue(BRANCH_INDEX,
-            index);
+            l_idx);
 
         // BRANCH_FROMBUS            "I"  integer
         p_branchData[l_idx]->addValue(BRANCH_FROMBUS,
-- 
2.43.0


From 3b93669c1c24a8e615138ab7cfce80fc0a6908cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 026/137] fix: give every winding of a three-winding
 transformer its own ratings (v34, v35)

---
 .../block_parsers/transformer_parser34.cpp    | 60 +++++++++----------
 .../block_parsers/transformer_parser35.cpp    | 60 +++++++++----------
 2 files changed, 60 insertions(+), 60 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 308f450..5ea2d58 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -279,21 +279,21 @@ void gridpack::parser::TransformerParser34::parse(
         data2->addValue(BRANCH_R,r2,0);
         data2->addValue(BRANCH_X,x2,0);
         data2->addValue(BRANCH_B,b2,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data2->addValue(BRANCH_RATING_A,rate[0],0);
+        data2->addValue(BRANCH_RATING_B,rate[1],0);
+        data2->addValue(BRANCH_RATING_C,rate[2],0);
+        data2->addValue(BRANCH_RATE1,rate[0],0);
+        data2->addValue(BRANCH_RATE2,rate[1],0);
+        data2->addValue(BRANCH_RATE3,rate[2],0);
+        data2->addValue(BRANCH_RATE4,rate[3],0);
+        data2->addValue(BRANCH_RATE5,rate[4],0);
+        data2->addValue(BRANCH_RATE6,rate[5],0);
+        data2->addValue(BRANCH_RATE7,rate[6],0);
+        data2->addValue(BRANCH_RATE8,rate[7],0);
+        data2->addValue(BRANCH_RATE9,rate[8],0);
+        data2->addValue(BRANCH_RATE10,rate[9],0);
+        data2->addValue(BRANCH_RATE11,rate[10],0);
+        data2->addValue(BRANCH_RATE12,rate[11],0);
         data2->addValue(BRANCH_TAP,windv,0);
         data2->addValue(BRANCH_SHIFT,ang,0);
         data2->addValue(BRANCH_SWITCHED,false,0);
@@ -329,21 +329,21 @@ void gridpack::parser::TransformerParser34::parse(
         data3->addValue(BRANCH_R,r3,0);
         data3->addValue(BRANCH_X,x3,0);
         data3->addValue(BRANCH_B,b3,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data3->addValue(BRANCH_RATING_A,rate[0],0);
+        data3->addValue(BRANCH_RATING_B,rate[1],0);
+        data3->addValue(BRANCH_RATING_C,rate[2],0);
+        data3->addValue(BRANCH_RATE1,rate[0],0);
+        data3->addValue(BRANCH_RATE2,rate[1],0);
+        data3->addValue(BRANCH_RATE3,rate[2],0);
+        data3->addValue(BRANCH_RATE4,rate[3],0);
+        data3->addValue(BRANCH_RATE5,rate[4],0);
+        data3->addValue(BRANCH_RATE6,rate[5],0);
+        data3->addValue(BRANCH_RATE7,rate[6],0);
+        data3->addValue(BRANCH_RATE8,rate[7],0);
+        data3->addValue(BRANCH_RATE9,rate[8],0);
+        data3->addValue(BRANCH_RATE10,rate[9],0);
+        data3->addValue(BRANCH_RATE11,rate[10],0);
+        data3->addValue(BRANCH_RATE12,rate[11],0);
         data3->addValue(BRANCH_TAP,windv,0);
         data3->addValue(BRANCH_SHIFT,ang,0);
         data3->addValue(BRANCH_SWITCHED,false,0);
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index b6b486e..4baf703 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -278,21 +278,21 @@ void gridpack::parser::TransformerParser35::parse(
         data2->addValue(BRANCH_R,r2,0);
         data2->addValue(BRANCH_X,x2,0);
         data2->addValue(BRANCH_B,b2,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data2->addValue(BRANCH_RATING_A,rate[0],0);
+        data2->addValue(BRANCH_RATING_B,rate[1],0);
+        data2->addValue(BRANCH_RATING_C,rate[2],0);
+        data2->addValue(BRANCH_RATE1,rate[0],0);
+        data2->addValue(BRANCH_RATE2,rate[1],0);
+        data2->addValue(BRANCH_RATE3,rate[2],0);
+        data2->addValue(BRANCH_RATE4,rate[3],0);
+        data2->addValue(BRANCH_RATE5,rate[4],0);
+        data2->addValue(BRANCH_RATE6,rate[5],0);
+        data2->addValue(BRANCH_RATE7,rate[6],0);
+        data2->addValue(BRANCH_RATE8,rate[7],0);
+        data2->addValue(BRANCH_RATE9,rate[8],0);
+        data2->addValue(BRANCH_RATE10,rate[9],0);
+        data2->addValue(BRANCH_RATE11,rate[10],0);
+        data2->addValue(BRANCH_RATE12,rate[11],0);
         data2->addValue(BRANCH_TAP,windv,0);
         data2->addValue(BRANCH_SHIFT,ang,0);
         data2->addValue(BRANCH_SWITCHED,false,0);
@@ -328,21 +328,21 @@ void gridpack::parser::TransformerParser35::parse(
         data3->addValue(BRANCH_R,r3,0);
         data3->addValue(BRANCH_X,x3,0);
         data3->addValue(BRANCH_B,b3,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data3->addValue(BRANCH_RATING_A,rate[0],0);
+        data3->addValue(BRANCH_RATING_B,rate[1],0);
+        data3->addValue(BRANCH_RATING_C,rate[2],0);
+        data3->addValue(BRANCH_RATE1,rate[0],0);
+        data3->addValue(BRANCH_RATE2,rate[1],0);
+        data3->addValue(BRANCH_RATE3,rate[2],0);
+        data3->addValue(BRANCH_RATE4,rate[3],0);
+        data3->addValue(BRANCH_RATE5,rate[4],0);
+        data3->addValue(BRANCH_RATE6,rate[5],0);
+        data3->addValue(BRANCH_RATE7,rate[6],0);
+        data3->addValue(BRANCH_RATE8,rate[7],0);
+        data3->addValue(BRANCH_RATE9,rate[8],0);
+        data3->addValue(BRANCH_RATE10,rate[9],0);
+        data3->addValue(BRANCH_RATE11,rate[10],0);
+        data3->addValue(BRANCH_RATE12,rate[11],0);
         data3->addValue(BRANCH_TAP,windv,0);
         data3->addValue(BRANCH_SHIFT,ang,0);
         data3->addValue(BRANCH_SWITCHED,false,0);
-- 
2.43.0


From 96383b7492ee662a39d579792a1c35c689433868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 027/137] fix: convert three-winding transformer impedances to
 the system base

---
 .../block_parsers/transformer_parser33.cpp    | 27 +++++++++----------
 .../block_parsers/transformer_parser34.cpp    | 27 +++++++++----------
 .../block_parsers/transformer_parser35.cpp    | 27 +++++++++----------
 3 files changed, 39 insertions(+), 42 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index b12c3d6..d4df25a 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -182,6 +182,19 @@ void gridpack::parser::TransformerParser33::parse(
         r31 = atof(split_line2[6].c_str());
         x31 = atof(split_line2[7].c_str());
         sb31 = atof(split_line2[8].c_str());
+        // correct R and X values of each pair of windings, if necessary
+        if (sb12 != p_case_sbase && sb12 != 0.0) {
+          r12 = r12*p_case_sbase/sb12;
+          x12 = x12*p_case_sbase/sb12;
+        }
+        if (sb23 != p_case_sbase && sb23 != 0.0) {
+          r23 = r23*p_case_sbase/sb23;
+          x23 = x23*p_case_sbase/sb23;
+        }
+        if (sb31 != p_case_sbase && sb31 != 0.0) {
+          r31 = r31*p_case_sbase/sb31;
+          x31 = x31*p_case_sbase/sb31;
+        }
         r1 = 0.5*(r12+r31-r23);
         x1 = 0.5*(x12+x31-x23);
         b1 = 0.0;
@@ -191,20 +204,6 @@ void gridpack::parser::TransformerParser33::parse(
         r3 = 0.5*(r23+r31-r12);
         x3 = 0.5*(x23+x31-x12);
         b3 = 0.0;
-        // correct R and X values, if necessary
-        if (sb12 != p_case_sbase && sb12 == 0.0) {
-          r1 = r1*p_case_sbase/sb12;
-          x1 = x1*p_case_sbase/sb12;
-        }
-        if (sb23 != p_case_sbase && sb23 == 0.0) {
-          r2 = r2*p_case_sbase/sb23;
-          x2 = x2*p_case_sbase/sb23;
-        }
-        if (sb31 != p_case_sbase && sb31 == 0.0) {
-          r3 = r3*p_case_sbase/sb31;
-          x3 = x3*p_case_sbase/sb31;
-        }
-
         // create branch between new bus and bus I
         int index = p_branchData.size();
         boost::shared_ptr<gridpack::component::DataCollection>
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 5ea2d58..7f24afb 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -183,6 +183,19 @@ void gridpack::parser::TransformerParser34::parse(
         r31 = atof(split_line2[6].c_str());
         x31 = atof(split_line2[7].c_str());
         sb31 = atof(split_line2[8].c_str());
+        // correct R and X values of each pair of windings, if necessary
+        if (sb12 != p_case_sbase && sb12 != 0.0) {
+          r12 = r12*p_case_sbase/sb12;
+          x12 = x12*p_case_sbase/sb12;
+        }
+        if (sb23 != p_case_sbase && sb23 != 0.0) {
+          r23 = r23*p_case_sbase/sb23;
+          x23 = x23*p_case_sbase/sb23;
+        }
+        if (sb31 != p_case_sbase && sb31 != 0.0) {
+          r31 = r31*p_case_sbase/sb31;
+          x31 = x31*p_case_sbase/sb31;
+        }
         r1 = 0.5*(r12+r31-r23);
         x1 = 0.5*(x12+x31-x23);
         b1 = 0.0;
@@ -192,20 +205,6 @@ void gridpack::parser::TransformerParser34::parse(
         r3 = 0.5*(r23+r31-r12);
         x3 = 0.5*(x23+x31-x12);
         b3 = 0.0;
-        // correct R and X values, if necessary
-        if (sb12 != p_case_sbase && sb12 == 0.0) {
-          r1 = r1*p_case_sbase/sb12;
-          x1 = x1*p_case_sbase/sb12;
-        }
-        if (sb23 != p_case_sbase && sb23 == 0.0) {
-          r2 = r2*p_case_sbase/sb23;
-          x2 = x2*p_case_sbase/sb23;
-        }
-        if (sb31 != p_case_sbase && sb31 == 0.0) {
-          r3 = r3*p_case_sbase/sb31;
-          x3 = x3*p_case_sbase/sb31;
-        }
-
         // create branch between new bus and bus I
         int index = p_branchData.size();
         boost::shared_ptr<gridpack::component::DataCollection>
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 4baf703..b7263f0 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -182,6 +182,19 @@ void gridpack::parser::TransformerParser35::parse(
         r31 = atof(split_line2[6].c_str());
         x31 = atof(split_line2[7].c_str());
         sb31 = atof(split_line2[8].c_str());
+        // correct R and X values of each pair of windings, if necessary
+        if (sb12 != p_case_sbase && sb12 != 0.0) {
+          r12 = r12*p_case_sbase/sb12;
+          x12 = x12*p_case_sbase/sb12;
+        }
+        if (sb23 != p_case_sbase && sb23 != 0.0) {
+          r23 = r23*p_case_sbase/sb23;
+          x23 = x23*p_case_sbase/sb23;
+        }
+        if (sb31 != p_case_sbase && sb31 != 0.0) {
+          r31 = r31*p_case_sbase/sb31;
+          x31 = x31*p_case_sbase/sb31;
+        }
         r1 = 0.5*(r12+r31-r23);
         x1 = 0.5*(x12+x31-x23);
         b1 = 0.0;
@@ -191,20 +204,6 @@ void gridpack::parser::TransformerParser35::parse(
         r3 = 0.5*(r23+r31-r12);
         x3 = 0.5*(x23+x31-x12);
         b3 = 0.0;
-        // correct R and X values, if necessary
-        if (sb12 != p_case_sbase && sb12 == 0.0) {
-          r1 = r1*p_case_sbase/sb12;
-          x1 = x1*p_case_sbase/sb12;
-        }
-        if (sb23 != p_case_sbase && sb23 == 0.0) {
-          r2 = r2*p_case_sbase/sb23;
-          x2 = x2*p_case_sbase/sb23;
-        }
-        if (sb31 != p_case_sbase && sb31 == 0.0) {
-          r3 = r3*p_case_sbase/sb31;
-          x3 = x3*p_case_sbase/sb31;
-        }
-
         // create branch between new bus and bus I
         int index = p_branchData.size();
         boost::shared_ptr<gridpack::component::DataCollection>
-- 
2.43.0


From 529a37e5aad4a520a910748176973d40600f1b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 028/137] fix: store the twelfth rating of v35 two-winding
 transformers

---
 src/parser/block_parsers/transformer_parser35.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index b7263f0..129783d 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -660,7 +660,7 @@ void gridpack::parser::TransformerParser35::parse(
           atof(split_line3[12].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE11,
           atof(split_line3[13].c_str()),nelems);
-      p_branchData[l_idx]->addValue(BRANCH_RATE11,
+      p_branchData[l_idx]->addValue(BRANCH_RATE12,
           atof(split_line3[14].c_str()),nelems);
 
       /*
-- 
2.43.0


From b33ac23f672bfee0efaa9bcf770864c1aad207ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 029/137] fix: set ratings A, B and C of v34 and v35
 two-winding transformers

---
 src/parser/block_parsers/transformer_parser34.cpp | 6 ++++++
 src/parser/block_parsers/transformer_parser35.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 7f24afb..673a38d 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -639,6 +639,12 @@ void gridpack::parser::TransformerParser34::parse(
        * type: float
        * BRANCH_RATE1-12
        */
+      p_branchData[l_idx]->addValue(BRANCH_RATING_A,
+          atof(split_line3[3].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_B,
+          atof(split_line3[4].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_C,
+          atof(split_line3[5].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE1,
           atof(split_line3[3].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE2,
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 129783d..c712042 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -638,6 +638,12 @@ void gridpack::parser::TransformerParser35::parse(
        * type: float
        * BRANCH_RATE1-12
        */
+      p_branchData[l_idx]->addValue(BRANCH_RATING_A,
+          atof(split_line3[3].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_B,
+          atof(split_line3[4].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_C,
+          atof(split_line3[5].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE1,
           atof(split_line3[3].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE2,
-- 
2.43.0


From d12e78257d0ef08e94d17e6bf26ff52b05ee264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 030/137] fix: store the regulated node of v35 switched shunts

---
 src/parser/block_parsers/switched_shunt_parser35.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/block_parsers/switched_shunt_parser35.cpp b/src/parser/block_parsers/switched_shunt_parser35.cpp
index 286c0bc..c43856c 100644
--- a/src/parser/block_parsers/switched_shunt_parser35.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser35.cpp
@@ -138,7 +138,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      */
     if (!p_busData[o_idx]->setValue(SHUNT_NREG,
           atoi(split_line[8].c_str()))) {
-      p_busData[o_idx]->addValue(SHUNT_SWREG, atoi(split_line[8].c_str()));
+      p_busData[o_idx]->addValue(SHUNT_NREG, atoi(split_line[8].c_str()));
     }
 
     /*
-- 
2.43.0


From d6dc0afc184293fc4aecdccfb65de27c94ddd2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 031/137] fix: read v34 switched shunts with the v34 format

---
 src/parser/PTI34_parser.hpp                          | 4 ++--
 src/parser/block_parsers/switched_shunt_parser34.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/PTI34_parser.hpp b/src/parser/PTI34_parser.hpp
index b74e3e4..d12e24e 100644
--- a/src/parser/PTI34_parser.hpp
+++ b/src/parser/PTI34_parser.hpp
@@ -47,7 +47,7 @@
 #include "gridpack/parser/block_parsers/interarea_parser33.hpp"
 #include "gridpack/parser/block_parsers/owner_parser33.hpp"
 #include "gridpack/parser/block_parsers/facts_parser33.hpp"
-#include "gridpack/parser/block_parsers/switched_shunt_parser35.hpp"
+#include "gridpack/parser/block_parsers/switched_shunt_parser34.hpp"
 
 #define TERM_CHAR '0'
 // SOURCE: http://www.ee.washington.edu/research/pstca/formats/pti.txt
@@ -291,7 +291,7 @@ class PTI34_parser : public BasePTIParser<_network>
         gridpack::parser::FACTSParser33 facts_parser(&p_busMap,
             &p_nameMap, &p_branchMap);
         facts_parser.parse(p_istream);
-        gridpack::parser::SwitchedShuntParser35 switched_shunt_parser(&p_busMap,
+        gridpack::parser::SwitchedShuntParser34 switched_shunt_parser(&p_busMap,
             &p_nameMap, &p_branchMap);
         switched_shunt_parser.parse(p_istream,p_busData);
 
diff --git a/src/parser/block_parsers/switched_shunt_parser34.cpp b/src/parser/block_parsers/switched_shunt_parser34.cpp
index fea7793..755d445 100644
--- a/src/parser/block_parsers/switched_shunt_parser34.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser34.cpp
@@ -343,7 +343,7 @@ void gridpack::parser::SwitchedShuntParser34::parse(
     if (nval > 26) {
       if (!p_busData[o_idx]->setValue(SHUNT_NREG,
             atoi(split_line[26].c_str()))) {
-        p_busData[o_idx]->addValue(SHUNT_NREG, atof(split_line[26].c_str()));
+        p_busData[o_idx]->addValue(SHUNT_NREG, atoi(split_line[26].c_str()));
       }
     }
 
-- 
2.43.0


From fde6a20a968f1dc5a1f3162d5cbde2e71d108a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 032/137] fix: read v34 impedance correction points as triples
 and skip empty tables

---
 src/parser/block_parsers/imped_corr_parser34.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/block_parsers/imped_corr_parser34.cpp b/src/parser/block_parsers/imped_corr_parser34.cpp
index d2861c2..54a9669 100644
--- a/src/parser/block_parsers/imped_corr_parser34.cpp
+++ b/src/parser/block_parsers/imped_corr_parser34.cpp
@@ -75,11 +75,14 @@ void gridpack::parser::ImpedCorrParser34::parse(
     int nval = split_line.size();
     int entries = nval-1;
     entries =  entries - entries%3;
-    entries = entries/2;
+    entries = entries/3;
     // Limit number of entries to version 33 format
     if (entries > 11) entries = 11;
 
-    if (entries == 0) continue;
+    if (entries == 0) {
+      stream.nextLine(line);
+      continue;
+    }
     boost::shared_ptr<gridpack::component::DataCollection>
       data(new gridpack::component::DataCollection);
 
@@ -98,14 +101,14 @@ void gridpack::parser::ImpedCorrParser34::parse(
        * #define XFMR_CORR_TABLE_Ti "XFMR_CORR_TABLE_Ti"
        */
       sprintf(buf,"XFMR_CORR_TABLE_T%d",i+1);
-      data->addValue(buf, atof(split_line[1+2*i].c_str()));
+      data->addValue(buf, atof(split_line[1+3*i].c_str()));
 
       /*
        * type: real float
        * #define XFMR_CORR_TABLE_Fi "XFMR_CORR_TABLE_Fi"
        */
       sprintf(buf,"XFMR_CORR_TABLE_F%d",i+1);
-      data->addValue(buf, atof(split_line[2+2*i].c_str()));
+      data->addValue(buf, atof(split_line[2+3*i].c_str()));
     }
 
     p_imp_corr_table.insert(std::pair<int,
-- 
2.43.0


From 04a0f5e8b1fb28a037d7a2636d8e4159292b641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 033/137] fix: do not loop forever on RAW records that are
 skipped

---
 src/parser/PTI23_parser.hpp                         | 1 +
 src/parser/block_parsers/imped_corr_parser33.cpp    | 5 ++++-
 src/parser/block_parsers/multi_section_parser33.cpp | 7 +++++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser/PTI23_parser.hpp b/src/parser/PTI23_parser.hpp
index 069c6af..2cdfaa0 100644
--- a/src/parser/PTI23_parser.hpp
+++ b/src/parser/PTI23_parser.hpp
@@ -690,6 +690,7 @@ class PTI23_parser : public BasePTIParser<_network>
         if (idx == -1) {
           printf("No match for transformer from %d to %d\n",
               fromBus,toBus);
+          std::getline(input, line);
           continue;
         }
 
diff --git a/src/parser/block_parsers/imped_corr_parser33.cpp b/src/parser/block_parsers/imped_corr_parser33.cpp
index 0baaec0..8971fbf 100644
--- a/src/parser/block_parsers/imped_corr_parser33.cpp
+++ b/src/parser/block_parsers/imped_corr_parser33.cpp
@@ -60,7 +60,10 @@ void gridpack::parser::ImpedCorrParser33::parse(
     int entries = nval-1;
     entries =  entries - entries%2;
     entries = entries/2;
-    if (entries == 0) continue;
+    if (entries == 0) {
+      stream.nextLine(line);
+      continue;
+    }
     boost::shared_ptr<gridpack::component::DataCollection>
       data(new gridpack::component::DataCollection);
 
diff --git a/src/parser/block_parsers/multi_section_parser33.cpp b/src/parser/block_parsers/multi_section_parser33.cpp
index dfff3ab..889a95b 100644
--- a/src/parser/block_parsers/multi_section_parser33.cpp
+++ b/src/parser/block_parsers/multi_section_parser33.cpp
@@ -82,7 +82,10 @@ void gridpack::parser::MultiSectParser33::parse(
     }
     nelems = split_line.size() - 3;
 
-    if (!found || nelems <= 0) continue;
+    if (!found || nelems <= 0) {
+      stream.nextLine(line);
+      continue;
+    }
 
     // Clean up 2 character tag
     gridpack::utility::StringUtils util;
@@ -106,7 +109,7 @@ void gridpack::parser::MultiSectParser33::parse(
 
     int i;
     char buf[32];
-    for (i=0; i<9; i++) {
+    for (i=0; i<9 && i+4<static_cast<int>(split_line.size()); i++) {
       sprintf(buf,"MULTI_SEC_LINE_DUM%d",i+1);
       p_branchData[l_idx]->addValue(buf,atoi(split_line[i+4].c_str()));
     }
-- 
2.43.0


From a75f734706e6f333b50a62711cc2299dc05f7596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 034/137] fix: keep one-letter names and accept blank ones in
 PSS/E records

---
 src/parser/block_parsers/base_block_parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/block_parsers/base_block_parser.cpp b/src/parser/block_parsers/base_block_parser.cpp
index 7c159e6..8e94307 100644
--- a/src/parser/block_parsers/base_block_parser.cpp
+++ b/src/parser/block_parsers/base_block_parser.cpp
@@ -58,6 +58,10 @@ bool gridpack::parser::BaseBlockParser::check_comment(std::string &str) const
 void gridpack::parser::BaseBlockParser::remove_blanks(std::string &str)
 {
   int ntok1 = str.find_first_not_of(' ',0);
+  if (ntok1 == std::string::npos) {
+    str.clear();
+    return;
+  }
   int ntok2 = str.length()-1;
   while (str[ntok2] == ' ') {ntok2--;}
   str = str.substr(ntok1, ntok2-ntok1+1);
@@ -106,7 +110,7 @@ bool gridpack::parser::BaseBlockParser::check_string(std::string &str)
   if (ntok1 != std::string::npos && str[ntok1] == '\'') {
     ntok1++;
     int ntok2 = str.find_first_of('\'',ntok1);
-    if (ntok2-ntok1 > 1 && ntok2 != std::string::npos) {
+    if (ntok2-ntok1 > 0 && ntok2 != std::string::npos) {
       ntok2--;
       str = str.substr(ntok1, ntok2-ntok1+1);
     } else if (ntok2 == std::string::npos && str.length()-1 - ntok1 > 1) {
-- 
2.43.0


From 510d45259b081bdc92490e9b6eac07e484be8428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 035/137] fix: start reading a string vector at its first line

---
 src/stream/input_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/input_stream.cpp b/src/stream/input_stream.cpp
index 12f1f87..a8aae60 100644
--- a/src/stream/input_stream.cpp
+++ b/src/stream/input_stream.cpp
@@ -52,6 +52,7 @@ bool gridpack::stream::InputStream::openStringVector(const std::vector<std::stri
 {
   if (fileVec.size() == 0) return false;
   p_fileVector = fileVec;
+  p_fileIterator = p_fileVector.begin();
   p_srcVector = true;
   p_isOpen = true;
   return true;
-- 
2.43.0


From 672ec1d8516e1c0f5b3806a6fe1b23ac8ac089f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 036/137] fix: keep slashes in every quoted field of a PSS/E
 record

---
 .../block_parsers/base_block_parser.cpp       | 31 +++++++------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/parser/block_parsers/base_block_parser.cpp b/src/parser/block_parsers/base_block_parser.cpp
index 8e94307..536a3d6 100644
--- a/src/parser/block_parsers/base_block_parser.cpp
+++ b/src/parser/block_parsers/base_block_parser.cpp
@@ -167,28 +167,19 @@ void gridpack::parser::BaseBlockParser::parseBusName(
  */
 void gridpack::parser::BaseBlockParser::cleanComment(std::string &string)
 {
-  int idx = string.find_first_of('/',0);
-  if (idx != std::string::npos) {
-    // check to see if '/' character is between two quotes
-    bool squote = true;
-    int d1 = string.find_first_of('\'',0);
-    if (d1 == std::string::npos) {
-      d1 = string.find_first_of('\"',0);
-      if (d1 != std::string::npos) squote = false;
+  std::string::size_type idx = 0;
+  while (idx < string.length()) {
+    char c = string[idx];
+    if (c == '/') {
+      string.erase(idx);
+      return;
     }
-    int d2 = d1;
-    if (d1 != std::string::npos) {
-      if (squote) {
-        if (string.length() > d1+1) d2 = string.find_first_of('\'',d1+1);
-      } else {
-        if (string.length() > d1+1) d2 = string.find_first_of('\"',d1+1);
-      }
+    if (c == '\'' || c == '\"') {
+      // skip text between two quotes
+      std::string::size_type close = string.find(c,idx+1);
+      if (close != std::string::npos) idx = close;
     }
-    // if '/' is between two quotes, return
-    if (d1 != std::string::npos && d2 != std::string::npos
-        && d1 < idx && idx < d2) return;
-    int len = string.length()-idx;
-    string.erase(idx,len);
+    idx++;
   }
 }
 
-- 
2.43.0


From 3844f2a5886f1b305e50452a47b43bd921c175f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 037/137] fix: accept empty quoted names and identifiers

---
 src/utilities/string_utils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities/string_utils.hpp b/src/utilities/string_utils.hpp
index 771b94d..1d21112 100644
--- a/src/utilities/string_utils.hpp
+++ b/src/utilities/string_utils.hpp
@@ -122,10 +122,13 @@ public:
       ntok1 = tag.find_first_not_of('\"',ntok1);
       ntok2 = tag.find('\"',ntok1);
     }
+    // nothing but blanks and quotes
+    if (ntok1 == std::string::npos) return std::string("  ");
     if (ntok2 == std::string::npos) ntok2 = tag.length();
     std::string clean_tag = tag.substr(ntok1,ntok2-ntok1);
     //get rid of white space
     ntok1 = clean_tag.find_first_not_of(' ',0);
+    if (ntok1 == std::string::npos) return std::string("  ");
     ntok2 = clean_tag.find(' ',ntok1);
     if (ntok2 == std::string::npos) ntok2 = clean_tag.length();
     tag = clean_tag.substr(ntok1,ntok2-ntok1);
@@ -175,6 +178,8 @@ public:
       ntok1 = tag.find_first_not_of('\"',ntok1);
       ntok2 = tag.find('\"',ntok1);
     }
+    // nothing but blanks and quotes
+    if (ntok1 == std::string::npos) return std::string();
     if (ntok2 == std::string::npos) ntok2 = tag.length();
     std::string clean_tag = tag.substr(ntok1,ntok2-ntok1);
     //get rid of white space
-- 
2.43.0


From 1260373a20ecea6068e7242a549ed34dead35388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 038/137] fix: sum all in-service shunts of a bus in the
 Y-matrix

---
 .../y_matrix/ymatrix_components.cpp           | 40 +++++++++++++------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index be851a3..309411d 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -145,20 +145,36 @@ void gridpack::ymatrix::YMBus::load(
 {
   double sbase;
   data->getValue(CASE_SBASE, &sbase);
-  p_shunt = true;
-  double shunt_binit;
-  p_shunt = p_shunt && data->getValue(BUS_SHUNT_GL, &p_shunt_gs,0);
-  p_shunt = p_shunt && data->getValue(BUS_SHUNT_BL, &p_shunt_bs,0);
-  bool binit = data->getValue(SHUNT_BINIT, &shunt_binit);
-  if (binit) p_shunt = true;
-
+  // Sum over all fixed shunts on this bus that are in service
+  double rval;
+  int nshunt = 1;
+  int i, status;
+  p_shunt = false;
+  p_shunt_gs = 0.0;
+  p_shunt_bs = 0.0;
+  data->getValue(SHUNT_NUMBER, &nshunt);
+  for (i=0; i<nshunt; i++) {
+    status = 1;
+    data->getValue(SHUNT_STATUS, &status, i);
+    if (status == 0) continue;
+    if (data->getValue(BUS_SHUNT_GL, &rval, i)) {
+      p_shunt_gs += rval;
+      p_shunt = true;
+    }
+    if (data->getValue(BUS_SHUNT_BL, &rval, i)) {
+      p_shunt_bs += rval;
+      p_shunt = true;
+    }
+  }
+  // add initial admittance of switched shunt
+  status = 1;
+  data->getValue(SHUNT_SWCH_STAT, &status);
+  if (status != 0 && data->getValue(SHUNT_BINIT, &rval)) {
+    p_shunt_bs += rval;
+    p_shunt = true;
+  }
   p_shunt_gs /= sbase;
   p_shunt_bs /= sbase;
-  // update shunt based on shunt table 
-  if (binit) {
-    shunt_binit /= sbase; 
-    p_shunt_bs = shunt_binit;
-  }
   // Check to see if bus is reference bus
   int itype;
   data->getValue(BUS_TYPE, &itype);
-- 
2.43.0


From 14236a6705479c4bcb74c264d42271d016235677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 039/137] fix: line shunts of a branch listed in reverse
 direction belong to the other bus

---
 src/applications/components/y_matrix/ymatrix_components.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index 309411d..536f1d2 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -619,10 +619,11 @@ gridpack::ymatrix::YMBranch::getShunt(gridpack::ymatrix::YMBus *bus)
         tmpr = 0.0;
       }
       // HACK: pointer comparison, maybe could handle this better
-      if (bus == getBus1().get()) {
+      if ((!p_switched[i] && bus == getBus1().get()) ||
+          (p_switched[i] && bus == getBus2().get())) {
         tmpr += p_shunt_admt_g1[i];
         tmpi += p_shunt_admt_b1[i];
-      } else if (bus == getBus2().get()) {
+      } else if (bus == getBus1().get() || bus == getBus2().get()) {
         tmpr += p_shunt_admt_g2[i];
         tmpi += p_shunt_admt_b2[i];
       } else {
-- 
2.43.0


From 80a7701662d31b12727cdac053cc216bdb6aaf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 040/137] fix: resetting voltages must return regulated buses
 to their set point

---
 src/applications/components/pf_matrix/pf_components.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index e251986..f6524b7 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -519,6 +519,7 @@ void gridpack::powerflow::PFBus::load(
 
         if (gstatus == 1) {
           p_v = vs; //reset initial PV voltage to set voltage
+          p_voltage = vs;
           if (p_type == 2) p_isPV = true;
         }
         std::string id("-1");
-- 
2.43.0


From 2dcb945e5b42cc857fe1e05349e9a25a68da695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 041/137] fix: power flow state vector of a PV bus has a single
 value

---
 .../components/pf_matrix/pf_components.cpp           | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index f6524b7..f376fcf 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -190,8 +190,10 @@ bool gridpack::powerflow::PFBus::vectorValues(ComplexType *values)
     values[0] = ret;
     return true;
   } else if (p_mode == State) {
-    values[0] = p_v;
-    values[1] = p_a;
+    int nvals = 0;
+    if (!vectorSize(&nvals)) return false;
+    values[0] = p_a;
+    if (nvals > 1) values[1] = p_v;
     return true;
   } else if (p_mode == RHS) {
     double rvals[2];
@@ -209,8 +211,10 @@ bool gridpack::powerflow::PFBus::vectorValues(ComplexType *values)
 bool gridpack::powerflow::PFBus::vectorValues(RealType *values)
 {
   if (p_mode == State) {
-    values[0] = p_v;
-    values[1] = p_a;
+    int nvals = 0;
+    if (!vectorSize(&nvals)) return false;
+    values[0] = p_a;
+    if (nvals > 1) values[1] = p_v;
     return true;
   }
   if (p_mode == RHS) {
-- 
2.43.0


From cee94d459a9226408070afd96803731877115688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 042/137] fix: reset voltages on ghost buses too

---
 .../modules/powerflow/pf_factory_module.cpp           | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 38d9a29..c2762a8 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -689,13 +689,12 @@ void gridpack::powerflow::PFFactoryModule::resetVoltages()
 {
   int numBus = p_network->numBuses();
   int i;
+  // ghost buses have to be reset as well so that they match their owners
   for (i=0; i<numBus; i++) {
-    if (p_network->getActiveBus(i)) {
-      gridpack::powerflow::PFBus *bus =
-        dynamic_cast<gridpack::powerflow::PFBus*>
-        (p_network->getBus(i).get());
-      bus->resetVoltage();
-    }
+    gridpack::powerflow::PFBus *bus =
+      dynamic_cast<gridpack::powerflow::PFBus*>
+      (p_network->getBus(i).get());
+    bus->resetVoltage();
   }
 }
 
-- 
2.43.0


From a2ccacb987dd403e6a0ca3d2c5d3a4809290a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 043/137] fix: power flow whose residual is not a number did
 not converge

---
 src/applications/modules/powerflow/pf_app_module.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index be03a61..b2f10d4 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -530,7 +530,8 @@ bool gridpack::powerflow::PFAppModule::solve()
       }
     }
 
-    if (iter >= p_max_iteration) ret = false;
+    // Negated comparison so that a residual that is not a number is a failure
+    if (!(real(tol) <= p_tolerance)) ret = false;
     if (p_qlim == 0) {
       repeat = false;
     } else {
-- 
2.43.0


From cb4a0da852eaaa821e6d5ce7488b8f64b2059e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 044/137] fix: Newton-Raphson solver must report that it did
 not converge

---
 src/math/newton_raphson_solver_implementation.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/newton_raphson_solver_implementation.hpp b/src/math/newton_raphson_solver_implementation.hpp
index eefcb32..5d291e2 100644
--- a/src/math/newton_raphson_solver_implementation.hpp
+++ b/src/math/newton_raphson_solver_implementation.hpp
@@ -163,6 +163,10 @@ protected:
                   << std::endl;
       }
     }
+    // Negated comparison so that NaN is a failure as well
+    if (!(stol <= this->p_solutionTolerance)) {
+      throw gridpack::Exception("Newton-Raphson solver did not converge");
+    }
   }
 
 };
-- 
2.43.0


From 9ff3f74a2689ed7b993f1cb63e8470cba6356b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 045/137] fix: apply the last power flow correction before
 buses change type

---
 .../modules/powerflow/pf_app_module.cpp       | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index b2f10d4..5ce6a24 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -532,6 +532,20 @@ bool gridpack::powerflow::PFAppModule::solve()
 
     // Negated comparison so that a residual that is not a number is a failure
     if (!(real(tol) <= p_tolerance)) ret = false;
+    // Push final result back onto buses
+    timer->start(t_bmap);
+    p_factory->setMode(RHS);
+    vMap.mapToBus(X);
+    timer->stop(t_bmap);
+
+    // Make sure that ghost buses have up-to-date values before printing out
+    // results
+    timer->start(t_updt);
+    p_network->updateBuses();
+    timer->stop(t_updt);
+
+    // Check Q limits only now, since buses that are converted from PV to PQ no
+    // longer match the layout of the solution vector
     if (p_qlim == 0) {
       repeat = false;
     } else {
@@ -544,17 +558,6 @@ bool gridpack::powerflow::PFAppModule::solve()
         }
       }
     }
-    // Push final result back onto buses
-    timer->start(t_bmap);
-    p_factory->setMode(RHS);
-    vMap.mapToBus(X);
-    timer->stop(t_bmap);
-
-    // Make sure that ghost buses have up-to-date values before printing out
-    // results
-    timer->start(t_updt);
-    p_network->updateBuses();
-    timer->stop(t_updt);
   }
   timer->stop(t_total);
   return ret;
-- 
2.43.0


From 385e2cec2125d8a0743e3a4415c8123cf25d7cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 046/137] fix: converting a bus at its Q limit must not lose
 its real power

---
 .../components/pf_matrix/pf_components.cpp    | 64 ++++++-------------
 .../components/pf_matrix/pf_components.hpp    |  3 +-
 2 files changed, 23 insertions(+), 44 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index f376fcf..ca9429f 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -61,6 +61,7 @@ gridpack::powerflow::PFBus::PFBus(void)
   p_vMag_ptr = NULL;
   p_vAng_ptr = NULL;
   p_PV_ptr = NULL;
+  p_qlim_set = false;
 }
 
 /**
@@ -261,52 +262,26 @@ bool gridpack::powerflow::PFBus::chkQlim(void)
         ql += p_ql[i];
       }
     }
-    p_save2isPV = p_isPV;
     double pval = p_Pinj*p_sbase+pl;
     double qval = p_Qinj*p_sbase+ql;
 
 //  If qval exceeds the total generator Q capacity, perform PV->PQ
 //
-    if (qval > qmax ) {
-      printf("\nWarning: Gen(s) at bus %d exceeds the QMAX %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmax);  
-      ql = ql-qmax;
-      p_save2isPV = p_isPV;
-      p_isPV = false;
-      *p_PV_ptr = false;
-      pl -= ppl;
-    //p_gstatus.clear();
-      for (int i=0; i<p_gstatus.size(); i++) {
-        p_gstatus_save.push_back(p_gstatus[i]);
-        p_gstatus[i] = 0;
-        p_qg[i] = p_qmax[i];
-      }
-      for (int i=0; i<p_lstatus.size(); i++) {
-        if (p_lstatus[i] == 1) {
-          p_pl[i] = pl;
-          p_ql[i] = ql;
-        }
+    if (qval > qmax || qval < qmin) {
+      bool high = (qval > qmax);
+      if (high) {
+        printf("\nWarning: Gen(s) at bus %d exceeds the QMAX %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmax);  
+      } else {
+        printf("\nWarning: Gen(s) at bus %d exceeds the QMIN %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmin);  
       }
-      if (p_PV_ptr) *p_PV_ptr = p_isPV;
-      return true;
-    } else if (qval < qmin) {
-      printf("\nWarning: Gen(s) at bus %d exceeds the QMIN %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmin);  
-      ql = ql-qmin;
+      // Generators stay in service with their reactive power fixed at the limit
+      p_qlim_set = true;
       p_save2isPV = p_isPV;
       p_isPV = false;
-      pl -= ppl;
-    //  p_gstatus.clear();
+      p_qg_save = p_qg;
       for (int i=0; i<p_gstatus.size(); i++) {
-        p_gstatus_save.push_back(p_gstatus[i]);
-        p_gstatus[i] = 0;
-        p_qg[i] = p_qmin[i];
+        p_qg[i] = high ? p_qmax[i] : p_qmin[i];
       }
-      for (int i=0; i<p_lstatus.size(); i++) {
-        if (p_lstatus[i] == 1) {
-          p_pl[i] = pl;
-          p_ql[i] = ql;
-        }
-      }
-
       if (p_PV_ptr) *p_PV_ptr = p_isPV;
       return true;
     } else {
@@ -327,13 +302,15 @@ bool gridpack::powerflow::PFBus::chkQlim(void)
  */
 void gridpack::powerflow::PFBus::clearQlim()
 {
-  int size = p_gstatus_save.size();
-  p_gstatus.clear();
-  int i;
-  for (i=0; i<size; i++) {
-    p_gstatus.push_back(p_gstatus_save[i]);
-  }
+  if (!p_qlim_set) return;
+  p_qlim_set = false;
+  p_qg = p_qg_save;
+  p_qg_save.clear();
   p_isPV = p_save2isPV;
+  if (p_isPV) {
+    p_v = p_voltage;
+    if (p_vMag_ptr) *p_vMag_ptr = p_v;
+  }
   if (p_PV_ptr) *p_PV_ptr = p_isPV;
 }
 
@@ -438,7 +415,8 @@ void gridpack::powerflow::PFBus::load(
   p_pFac.clear();
   p_pFac_orig.clear();
   p_gstatus.clear();
-  p_gstatus_save.clear();
+  p_qg_save.clear();
+  p_qlim_set = false;
   p_qmin.clear();
   p_qmax.clear();
   p_qmin_orig.clear();
diff --git a/src/applications/components/pf_matrix/pf_components.hpp b/src/applications/components/pf_matrix/pf_components.hpp
index 993171f..3a0ddd3 100644
--- a/src/applications/components/pf_matrix/pf_components.hpp
+++ b/src/applications/components/pf_matrix/pf_components.hpp
@@ -457,7 +457,8 @@ class PFBus
     std::vector<double> p_pg, p_qg, p_pFac;
     std::vector<double> p_savePg;
     std::vector<int> p_gstatus;
-    std::vector<int> p_gstatus_save;
+    std::vector<double> p_qg_save;
+    bool p_qlim_set;
     std::vector<double> p_qmax,p_qmin;
     std::vector<double> p_qmax_orig, p_qmin_orig, p_pFac_orig;
     std::vector<double> p_vs;
-- 
2.43.0


From a5e18c00805e7135c99ddf7cffff833eebaa5ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 047/137] fix: power flow must follow the status of the
 generators of a bus

---
 .../components/pf_matrix/pf_components.cpp    | 64 ++++++++++++++-----
 .../components/pf_matrix/pf_components.hpp    |  5 ++
 2 files changed, 53 insertions(+), 16 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index ca9429f..e5383af 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -510,14 +510,11 @@ void gridpack::powerflow::PFBus::load(
         p_ngen++;
       }
     }
-    if (pcaptot != 0.0 && p_ngen > 1) {
-      for (i=0; i<p_ngen; i++) {
-        p_pFac[i] = p_pFac[i]/pcaptot;
-        p_pFac_orig[i] = p_pFac[i];
-      }
-    } else {
+    if (p_ngen == 1) {
       p_pFac[0] = 1.0;
       p_pFac_orig[0] = p_pFac[0];
+    } else {
+      setParticipation();
     }
   }
   p_saveisPV = p_isPV;
@@ -724,19 +721,51 @@ void gridpack::powerflow::PFBus::setGenStatus(std::string gen_id, bool status)
     if (gen_id == p_gid[i]) {
       p_gstatus[i] = status;
       if (status == 0) {
-        p_pFac[i] = 0.0;
         p_qmax[i] = 0.0;
         p_qmin[i] = 0.0;
       } else {
-        p_pFac[i] = p_pFac_orig[i];
         p_qmax[i] = p_qmax_orig[i];
         p_qmin[i] = p_qmin_orig[i];
       }
+      setParticipation();
+      // Voltage is only regulated while some generator is in service
+      if (p_type == 2) {
+        bool isPV = false;
+        int j;
+        for (j=0; j<gsize; j++) isPV = isPV || p_gstatus[j];
+        if (isPV && !p_isPV) p_v = p_voltage;
+        p_isPV = isPV;
+        if (p_PV_ptr) *p_PV_ptr = p_isPV;
+      }
       return;
     }
   }
 }
 
+/**
+ * Share the output of the bus among the generators that are in service
+ */
+void gridpack::powerflow::PFBus::setParticipation(void)
+{
+  int i;
+  int gsize = p_gstatus.size();
+  double total = 0.0;
+  for (i=0; i<gsize; i++) {
+    p_pFac[i] = p_gstatus[i] ? p_pFac_orig[i] : 0.0;
+    total += p_pFac[i];
+  }
+  if (total != 0.0) {
+    for (i=0; i<gsize; i++) p_pFac[i] = p_pFac[i]/total;
+  } else {
+    for (i=0; i<gsize; i++) {
+      if (p_gstatus[i]) {
+        p_pFac[i] = 1.0;
+        break;
+      }
+    }
+  }
+}
+
 /**
  * Set isPV status
  * @param status isPV status
@@ -1012,11 +1041,11 @@ bool gridpack::powerflow::PFBus::serialWrite(char *string, const int bufsize,
 	pval = p_pFac[i]*(p_Pinj*p_sbase+pl);
 	qval = p_pFac[i]*(p_Qinj*p_sbase+ql);
       } else if (p_isPV) {
-	pval = p_pg[i];
 	if(p_gstatus[i]) {
+	  pval = p_pg[i];
 	  qval = p_pFac[i]*(p_Qinj*p_sbase+ql);
 	}
-      } else {
+      } else if (p_gstatus[i]) {
 	pval = p_pg[i];
 	qval = p_qg[i];
       }
@@ -1195,6 +1224,9 @@ void gridpack::powerflow::PFBus::saveData(
     }
   }
   for (i=0; i<ngen; i++) {
+    // A generator that is out of service does not produce anything
+    double pgen = p_gstatus[i] ? p_pg[i]/p_sbase : 0.0;
+    double qgen = p_gstatus[i] ? p_qg[i]/p_sbase : 0.0;
     if(getReferenceBus()) {
       rval = p_pFac[i]*(p_Pinj+pl/p_sbase);
       if (!data->setValue("GENERATOR_PF_PGEN",rval,i)) {
@@ -1205,20 +1237,20 @@ void gridpack::powerflow::PFBus::saveData(
 	data->addValue("GENERATOR_PF_QGEN",rval,i);
       }
     } else if (p_isPV) {
-      if (!data->setValue("GENERATOR_PF_PGEN",p_pg[i]/p_sbase,i)) {
-	data->addValue("GENERATOR_PF_PGEN",p_pg[i]/p_sbase,i);
+      if (!data->setValue("GENERATOR_PF_PGEN",pgen,i)) {
+	data->addValue("GENERATOR_PF_PGEN",pgen,i);
       }
       rval = p_pFac[i]*(p_Qinj+ql/p_sbase);
       if (!data->setValue("GENERATOR_PF_QGEN",rval,i)) {
 	data->addValue("GENERATOR_PF_QGEN",rval,i);
       }
     } else {
-      if (!data->setValue("GENERATOR_PF_PGEN",p_pg[i]/p_sbase,i)) {
-	data->addValue("GENERATOR_PF_PGEN",p_pg[i]/p_sbase,i);
+      if (!data->setValue("GENERATOR_PF_PGEN",pgen,i)) {
+	data->addValue("GENERATOR_PF_PGEN",pgen,i);
       }
 
-      if (!data->setValue("GENERATOR_PF_QGEN",p_qg[i]/p_sbase,i)) {
-	data->addValue("GENERATOR_PF_QGEN",p_qg[i]/p_sbase,i);
+      if (!data->setValue("GENERATOR_PF_QGEN",qgen,i)) {
+	data->addValue("GENERATOR_PF_QGEN",qgen,i);
       }
     }
   }
diff --git a/src/applications/components/pf_matrix/pf_components.hpp b/src/applications/components/pf_matrix/pf_components.hpp
index 3a0ddd3..e505fad 100644
--- a/src/applications/components/pf_matrix/pf_components.hpp
+++ b/src/applications/components/pf_matrix/pf_components.hpp
@@ -206,6 +206,11 @@ class PFBus
      */
     void setGenStatus(std::string gen_id, bool status);
 
+    /**
+     * Share the output of the bus among the generators that are in service
+     */
+    void setParticipation(void);
+
     /**
      * Set isPV status
      * @param status isPV status
-- 
2.43.0


From 807536e9fcc50947b7d33d0dee067dd7cefcd9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 048/137] fix: no power flows through a transmission element
 that is out of service

---
 src/applications/components/pf_matrix/pf_components.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index e5383af..9614701 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -2260,6 +2260,10 @@ gridpack::ComplexType gridpack::powerflow::PFBranch::getComplexPower(
   gridpack::powerflow::PFBus *bus2 =
     dynamic_cast<gridpack::powerflow::PFBus*>(getBus2().get());
   vj = bus2->getComplexVoltage();
+  // No power flows if the element is switched off or one end is isolated
+  if (!getBranchStatus(tag) || bus1->isIsolated() || bus2->isIsolated()) {
+    return s;
+  }
   getLineElements(tag,&Yii,&Yij);
   s = vi*conj(Yii*vi+Yij*vj)*p_sbase;
   return s;
-- 
2.43.0


From c4957e965342b6917c95ef27b39c0014d80ebb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 049/137] fix: ignoreVoltageViolations must ignore the buses
 with violations

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index c2762a8..48cf889 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -315,7 +315,7 @@ void gridpack::powerflow::PFFactoryModule::ignoreVoltageViolations()
       gridpack::powerflow::PFBus *bus =
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
-      if (bus->checkVoltageViolation()) bus->setIgnore(true);
+      if (!bus->checkVoltageViolation()) bus->setIgnore(true);
     }
   }
 }
-- 
2.43.0


From fc491a6b83b8556f6eec767595639e55bd1aa8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 050/137] fix: every variant of the violation checks must
 record what it finds

---
 .../modules/powerflow/pf_factory_module.cpp   | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 48cf889..4c4c74f 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -262,7 +262,16 @@ bool gridpack::powerflow::PFFactoryModule::checkVoltageViolations()
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
       if (!bus->getIgnore()) {
-        if (!bus->checkVoltageViolation()) bus_ok = false;
+        if (!bus->checkVoltageViolation()) {
+          bus_ok = false;
+          gridpack::powerflow::PFFactoryModule::Violation violation;
+          int idx = bus->getOriginalIndex();
+          violation.bus_violation = true;
+          violation.line_violation = false;
+          violation.bus1 = idx;
+          violation.bus2 = -1;
+          p_violations.push_back(violation);
+        }
       }
     }
   }
@@ -447,7 +456,17 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(int area)
               if (rate > 0.0) {
                 gridpack::ComplexType s = branch->getComplexPower(tags[k]);
                 double pq = abs(s);
-                if (pq > rate) branch_ok = false;
+                if (pq > rate) {
+                  branch_ok = false;
+                  gridpack::powerflow::PFFactoryModule::Violation violation;
+                  violation.bus_violation = false;
+                  violation.line_violation = true;
+                  violation.bus1 = branch->getBus1OriginalIndex();
+                  violation.bus2 = branch->getBus2OriginalIndex();
+                  strncpy(violation.tag,tags[k].c_str(),2);
+                  violation.tag[2] = '\0';
+                  p_violations.push_back(violation);
+                }
               }
             }
           }
-- 
2.43.0


From f878e0115e6f2dee8d5bc4b334f8ab8ae9cf485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 051/137] fix: offset of the violations of a process

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 4c4c74f..ecf47ee 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -930,7 +930,7 @@ gridpack::powerflow::PFFactoryModule::getViolations()
 
   p_network->communicator().sum(&sizes[0],nproc);
   int offset = 0;
-  for (i=1; i<me; i++) offset += sizes[i];
+  for (i=0; i<me; i++) offset += sizes[i];
   int total = 0;
   for (i=0; i<nproc; i++) total += sizes[i];
   if (total == 0) return ret;
-- 
2.43.0


From e5679a5d3a1ae11ce95cee6464fe3adf88186f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 052/137] fix: overload check of a list of lines must look at
 the lines of the list

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index ecf47ee..faea46c 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -513,7 +513,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
       std::vector<std::string> alltags = branch->getLineTags();
       double rate;
       for (int k = 0; k<nlines; k++) {
-        if (tags[i] == alltags[k] && !branch->getIgnore(tags[k])) {
+        if (tags[i] == alltags[k] && !branch->getIgnore(tags[i])) {
           bool foundRating=false;
           if (p_rateB) {
             if (p_network->getBranchData(indices[j])->getValue(BRANCH_RATING_B,
@@ -531,10 +531,9 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
               foundRating = true;
             }
           }
-          if (p_network->getBranchData(indices[j])->getValue(BRANCH_RATING_A,
-                &rate,k)) {
+          if (foundRating) {
             if (rate > 0.0) {
-              gridpack::ComplexType s = branch->getComplexPower(tags[k]);
+              gridpack::ComplexType s = branch->getComplexPower(tags[i]);
               double pq = abs(s);
               if (pq > rate) {
                 failure[i] = 1;
-- 
2.43.0


From 54d261f36f8e154bb7ce021570bf0e5ffed87ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 053/137] fix: inverted test in the Q limit check of an area

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index faea46c..f165c36 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -656,7 +656,7 @@ bool gridpack::powerflow::PFFactoryModule::checkQlimViolations(int area)
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
       if (bus->getArea() == area) {
-        if (!bus->chkQlim()) bus_ok = false;
+        if (bus->chkQlim()) bus_ok = false;
       }
     }
   }
-- 
2.43.0


From 0b0994d8cc71c54ab5f6c61b3abcd0516bee0839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 054/137] fix: totals of an area count every bus once

---
 .../modules/powerflow/pf_factory_module.cpp            | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index f165c36..9033b95 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -787,6 +787,7 @@ double gridpack::powerflow::PFFactoryModule::getTotalLoadRealPower(int area, int
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -829,6 +830,7 @@ void gridpack::powerflow::PFFactoryModule::getGeneratorMargins(int area, int zon
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -851,6 +853,14 @@ void gridpack::powerflow::PFFactoryModule::getGeneratorMargins(int area, int zon
       }
     }
   }
+  double sums[3];
+  sums[0] = *total;
+  sums[1] = *pmin;
+  sums[2] = *pmax;
+  p_network->communicator().sum(sums,3);
+  *total = sums[0];
+  *pmin = sums[1];
+  *pmax = sums[2];
 }
 
 /**
-- 
2.43.0


From b52b968264eeeab172c10c829e90c319a7274c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 055/137] fix: totals of an area count every bus once (dynamic
 simulation)

---
 .../modules/dynamic_simulation_full_y/dsf_factory.cpp  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
index cc9bd1f..87311a6 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_factory.cpp
@@ -502,6 +502,7 @@ double gridpack::dynamic_simulation::DSFullFactory::getTotalLoadRealPower(
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::dynamic_simulation::DSFullBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -544,6 +545,7 @@ void gridpack::dynamic_simulation::DSFullFactory::getGeneratorMargins(int area,
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::dynamic_simulation::DSFullBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -566,6 +568,14 @@ void gridpack::dynamic_simulation::DSFullFactory::getGeneratorMargins(int area,
       }
     }
   }
+  double sums[3];
+  sums[0] = *total;
+  sums[1] = *pmin;
+  sums[2] = *pmax;
+  p_network->communicator().sum(sums,3);
+  *total = sums[0];
+  *pmin = sums[1];
+  *pmax = sums[2];
 }
 
 /**
-- 
2.43.0


From 924fd5d50b195831426daa88830c17c48b5dd622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 056/137] fix: reloading a power flow bus must replace the
 saved power

---
 src/applications/components/pf_matrix/pf_components.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 9614701..7007d05 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -428,6 +428,9 @@ void gridpack::powerflow::PFBus::load(
   p_ql.clear();
   p_lstatus.clear();
   p_lid.clear();
+  p_savePg.clear();
+  p_savePl.clear();
+  p_saveQl.clear();
 
   bool ok = data->getValue(CASE_SBASE, &p_sbase);
   data->getValue(BUS_VOLTAGE_ANG, &p_angle);
-- 
2.43.0


From 6da93be3a467af1dfd11d102759388bd0783182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 057/137] fix: isolate the ghost copies of a lone bus too

---
 .../modules/powerflow/pf_factory_module.cpp   | 55 +++++++------------
 .../modules/powerflow/pf_factory_module.hpp   |  1 +
 2 files changed, 22 insertions(+), 34 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 9033b95..fbf675a 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -143,6 +143,8 @@ bool gridpack::powerflow::PFFactoryModule::checkLoneBus(std::ofstream *stream)
   bool bus_ok = true;
   char buf[128];
   p_saveIsolatedStatus.clear();
+  p_loneBuses.clear();
+  std::vector<int> lone(p_network->totalBuses(),0);
   for (i=0; i<numBus; i++) {
     if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus =
@@ -171,15 +173,23 @@ bool gridpack::powerflow::PFFactoryModule::checkLoneBus(std::ofstream *stream)
     }
     if (!ok) {
       sprintf(buf,"\nLone bus %d found\n",bus->getOriginalIndex());
-      p_saveIsolatedStatus.push_back(bus->isIsolated());
-      bus->setIsolated(true);
+      lone[p_network->getGlobalBusIndex(i)] = 1;
       printf("%s",buf);
       if (stream != NULL) *stream << buf;
     }
     if (!ok) bus_ok = false;
   }
+  // Ghost copies have to be isolated as well, but only the owner of a bus
+  // knows all of its branches
+  if (lone.size() > 0) p_network->communicator().sum(&lone[0],lone.size());
+  for (i=0; i<numBus; i++) {
+    if (lone[p_network->getGlobalBusIndex(i)] == 0) continue;
+    p_loneBuses.push_back(i);
+    p_saveIsolatedStatus.push_back(p_network->getBus(i)->isIsolated());
+    p_network->getBus(i)->setIsolated(true);
+  }
   // Check whether bus_ok is true on all processors
-  return checkTrue(!bus_ok);
+  return checkTrue(bus_ok);
 }
 
 /**
@@ -187,42 +197,19 @@ bool gridpack::powerflow::PFFactoryModule::checkLoneBus(std::ofstream *stream)
  */
 void gridpack::powerflow::PFFactoryModule::clearLoneBus()
 {
-  if (p_saveIsolatedStatus.size() == 0) return;
-  int numBus = p_network->numBuses();
-  int i, j, k;
-  int ncount = 0;
-  for (i=0; i<numBus; i++) {
-    if (!p_network->getActiveBus(i)) continue;
+  int i;
+  int ncount = p_loneBuses.size();
+  for (i=0; i<ncount; i++) {
     gridpack::powerflow::PFBus *bus =
       dynamic_cast<gridpack::powerflow::PFBus*>
-      (p_network->getBus(i).get());
-    std::vector<boost::shared_ptr<gridpack::component::BaseComponent> > branches;
-    bus->getNeighborBranches(branches);
-    int size = branches.size();
-    bool ok = true;
-    if (size == 0) {
-      ok = false;
-    }
-    if (ok) {
-      ok = false;
-      for (j=0; j<size; j++) {
-        bool branch_ok = false;
-        std::vector<bool> status =
-          dynamic_cast<gridpack::powerflow::PFBranch*>
-          (branches[j].get())->getLineStatus();
-        int nlines = status.size();
-        for (k=0; k<nlines; k++) {
-          if (status[k]) branch_ok = true;
-        }
-        if (branch_ok) ok = true;
-      }
-    }
-    if (!ok) {
+      (p_network->getBus(p_loneBuses[i]).get());
+    if (p_network->getActiveBus(p_loneBuses[i])) {
       printf("\nLone bus %d reset\n",bus->getOriginalIndex());
-      bus->setIsolated(p_saveIsolatedStatus[ncount]);
-      ncount++;
     }
+    bus->setIsolated(p_saveIsolatedStatus[i]);
   }
+  p_loneBuses.clear();
+  p_saveIsolatedStatus.clear();
 }
 
 /**
diff --git a/src/applications/modules/powerflow/pf_factory_module.hpp b/src/applications/modules/powerflow/pf_factory_module.hpp
index f35bafd..155ee12 100644
--- a/src/applications/modules/powerflow/pf_factory_module.hpp
+++ b/src/applications/modules/powerflow/pf_factory_module.hpp
@@ -247,6 +247,7 @@ class PFFactoryModule
 
     NetworkPtr p_network;
     std::vector<bool> p_saveIsolatedStatus;
+    std::vector<int> p_loneBuses;
 
     std::vector<Violation> p_violations;
 
-- 
2.43.0


From 7229722699260ad7cd20eb8815713db9c6a71792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 058/137] fix: contingency summary read a cleared vector

---
 src/applications/contingency_analysis/ca_driver.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/applications/contingency_analysis/ca_driver.cpp b/src/applications/contingency_analysis/ca_driver.cpp
index 9a53442..d31c371 100644
--- a/src/applications/contingency_analysis/ca_driver.cpp
+++ b/src/applications/contingency_analysis/ca_driver.cpp
@@ -757,7 +757,6 @@ void gridpack::contingency_analysis::CADriver::execute(int argc, char** argv)
     contingency_violation.clear();
     for (i=0; i<ntasks; i++) contingency_idx.push_back(i);
     ca_success.getData(contingency_idx, contingency_success);
-    contingency_success.clear();
     ca_violation.getData(contingency_idx, contingency_violation);
     std::ofstream fout;
     fout.open("success.txt");
-- 
2.43.0


From 176bec6c07e8fd9bc1ef3d5c8b9fa5acaaa33c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 059/137] fix: define the declared line overload functions of
 the power flow module

---
 .../modules/powerflow/pf_app_module.cpp         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index 5ce6a24..9cbbf22 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -1041,6 +1041,23 @@ bool gridpack::powerflow::PFAppModule::checkLineOverloadViolations(
   return p_factory->checkLineOverloadViolations(bus1,bus2,tags,violations);
 }
 
+/**
+ * Set "ignore" parameter on all lines with violations so that subsequent
+ * checks are not counted as violations
+ */
+void gridpack::powerflow::PFAppModule::ignoreLineOverloadViolations()
+{
+  p_factory->ignoreLineOverloadViolations();
+}
+
+/**
+ * Clear "ignore" parameter on all lines
+ */
+void gridpack::powerflow::PFAppModule::clearLineOverloadViolations()
+{
+  p_factory->clearLineOverloadViolations();
+}
+
 /**
  * Check to see if there are any Q limit violations in the network
  * @param area only check for violations in specified area
-- 
2.43.0


From 9f9c032177ec9efdb1633420e3f00f9587a9b50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 060/137] fix: no Q limit violations on isolated buses

---
 src/applications/components/pf_matrix/pf_components.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 7007d05..7e26cce 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -237,7 +237,8 @@ bool gridpack::powerflow::PFBus::vectorValues(RealType *values)
  */
 bool gridpack::powerflow::PFBus::chkQlim(void)
 {
-  if (p_isPV) {
+  // An isolated bus is not part of the solution, so its injection is not known
+  if (p_isPV && !isIsolated()) {
     double qmax, qmin, ppl;
     qmax = 0.0;
     qmin = 0.0;
-- 
2.43.0


From 4165d7b9fddaacd295353fe8db679c093d6fda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 061/137] fix: overload check of listed lines must respect
 ignored lines

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index fbf675a..629a22b 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -493,6 +493,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
     std::vector<int> indices = p_network->getLocalBranchIndices(bus1[i],bus2[i]);
     int j;
     for (j=0; j<indices.size(); j++) {
+      if (!p_network->getActiveBranch(indices[j])) continue;
       gridpack::powerflow::PFBranch *branch = p_network->getBranch(indices[j]).get();
       // Loop over all lines in the branch and choose the smallest rating value
       int nlines;
-- 
2.43.0


From 345c9e2af228d72bac5aff070b4310a085de76f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 062/137] fix: contingency is not successful if enforcing
 reactive limits diverges

---
 src/applications/contingency_analysis/ca_driver.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/applications/contingency_analysis/ca_driver.cpp b/src/applications/contingency_analysis/ca_driver.cpp
index d31c371..0d27a08 100644
--- a/src/applications/contingency_analysis/ca_driver.cpp
+++ b/src/applications/contingency_analysis/ca_driver.cpp
@@ -498,13 +498,16 @@ void gridpack::contingency_analysis::CADriver::execute(int argc, char** argv)
 #ifdef USE_SUCCESS
     contingency_idx.push_back(task_id);
 #endif
-    if (pf_app.solve()) {
+    bool solved = pf_app.solve();
+    // The solution only counts if it can also be found with the Q limits
+    // enforced
+    if (solved && check_Qlim && !pf_app.checkQlimViolations()) {
+      solved = pf_app.solve();
+    }
+    if (solved) {
 #ifdef USE_SUCCESS
       contingency_success.push_back(true);
 #endif
-      if (check_Qlim && !pf_app.checkQlimViolations()) {
-        pf_app.solve();
-      }
       // If power flow solution is successful, write out voltages and currents
       if (print_calcs) pf_app.write();
       // Check for violations
@@ -732,6 +735,7 @@ void gridpack::contingency_analysis::CADriver::execute(int argc, char** argv)
       }
       timer->stop(t_store);
 #endif
+      if (check_Qlim) pf_app.clearQlimViolations();
     } 
     // Return network to its original base case state
     pf_app.unSetContingency(events[task_id]);
-- 
2.43.0


From 9eefde8064475f3d08bdac4d36a0b68c7cec9b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 063/137] fix: timer output must be skipped by all processes or
 none

---
 src/timer/coarse_timer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/timer/coarse_timer.cpp b/src/timer/coarse_timer.cpp
index b26b0e4..e612388 100644
--- a/src/timer/coarse_timer.cpp
+++ b/src/timer/coarse_timer.cpp
@@ -100,8 +100,13 @@ void gridpack::utility::CoarseTimer::dump(void) const
     if (me == 0) {
       printf ("Different numbers of timing catagories on\n");
       printf ("different processors min: %d max: %d\n",size_min,size_max);
-      return;
     }
+    // No process may go on to the reductions below
+    delete [] scheck;
+    delete [] rcheck;
+    delete [] stime;
+    delete [] rtime;
+    return;
   }
   for (i = 0; i<size; i++) {
     // statistics over all processors
-- 
2.43.0


From 1f67c87f755839c6f90c8a345c66d44478bedc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 064/137] fix: DataCollection index buffer holds every int

---
 src/component/data_collection.cpp | 42 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/component/data_collection.cpp b/src/component/data_collection.cpp
index 63969d3..f347689 100644
--- a/src/component/data_collection.cpp
+++ b/src/component/data_collection.cpp
@@ -99,7 +99,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const int v
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_ints.insert(std::pair<std::string, int>(str,value));
@@ -110,7 +110,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const long
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_longs.insert(std::pair<std::string, long>(str,value));
@@ -121,7 +121,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const bool
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_bools.insert(std::pair<std::string, bool>(str,value));
@@ -132,7 +132,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const char
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   std::string val = value;
@@ -144,7 +144,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const float
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_floats.insert(std::pair<std::string, float>(str,value));
@@ -155,7 +155,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const doubl
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_doubles.insert(std::pair<std::string, double>(str,value));
@@ -166,7 +166,7 @@ void gridpack::component::DataCollection::addValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_complexType.insert(std::pair<std::string, gridpack::ComplexType>(str,value));
@@ -315,7 +315,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const int v
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -337,7 +337,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const long
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -359,7 +359,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const bool
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -381,7 +381,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const char
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   std::string val = value;
@@ -404,7 +404,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const float
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -426,7 +426,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const doubl
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -448,7 +448,7 @@ bool gridpack::component::DataCollection::setValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -607,7 +607,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, int *value,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -629,7 +629,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, long *value
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -651,7 +651,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, bool *value
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -673,7 +673,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, std::string
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -695,7 +695,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, float *valu
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -717,7 +717,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, double *val
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -739,7 +739,7 @@ bool gridpack::component::DataCollection::getValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
-- 
2.43.0


From d668b4931844ce9351a3c9166f2c989601da0b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 065/137] fix: tokenizers accept empty strings and trailing
 separators

---
 src/utilities/string_utils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities/string_utils.hpp b/src/utilities/string_utils.hpp
index 1d21112..ac4ebdd 100644
--- a/src/utilities/string_utils.hpp
+++ b/src/utilities/string_utils.hpp
@@ -205,6 +205,7 @@ public:
     int ntok1, ntok2;
     std::vector<std::string> ret;
     ntok1 = strcpy.find_first_not_of(' ',0);
+    if (ntok1 == std::string::npos) return ret;
     if (strcpy[ntok1] == '\'') {
       ntok2 = strcpy.find('\'',ntok1+1);
       ntok2++;
@@ -263,11 +264,15 @@ public:
     int ntok1, ntok2;
     std::vector<std::string> ret;
     ntok1 = str.find_first_not_of(*sep,0);
+    // nothing but separators
+    if (ntok1 == std::string::npos) return ret;
     ntok2 = str.find(*sep,ntok1);
     if (ntok2 == std::string::npos) ntok2 = slen;
     if (ntok1<=ntok2) ret.push_back(str.substr(ntok1,ntok2-ntok1));
     while (ntok2 < slen-1 && ntok1 != std::string::npos) {
       ntok1 = str.find_first_not_of(*sep,ntok2);
+      // only separators are left
+      if (ntok1 == std::string::npos) break;
       ntok2 = str.find(*sep,ntok1);
       if (ntok2 == std::string::npos) ntok2 = slen;
       if (ntok1<=ntok2) ret.push_back(str.substr(ntok1,ntok2-ntok1));
-- 
2.43.0


From 62841e4bd620232358a03dc97d414b58ae756bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 066/137] fix: StatBlock labels and bounds count when added on
 another process

---
 src/analysis/stat_block.cpp | 20 ++++++++++++++++++++
 src/analysis/stat_block.hpp |  6 ++++++
 2 files changed, 26 insertions(+)

diff --git a/src/analysis/stat_block.cpp b/src/analysis/stat_block.cpp
index 0475bb3..24d9b83 100644
--- a/src/analysis/stat_block.cpp
+++ b/src/analysis/stat_block.cpp
@@ -266,6 +266,23 @@ void stb::addRowMaxValue(std::vector<double> max)
   p_max_bound = true;
 }
 
+/**
+ * Labels and bounds may have been added on any processor. Make all processors
+ * aware of them
+ */
+void stb::syncFlags()
+{
+  int flags[3];
+  flags[0] = p_branch_flag ? 1 : 0;
+  flags[1] = p_min_bound ? 1 : 0;
+  flags[2] = p_max_bound ? 1 : 0;
+  char op[] = "max";
+  GA_Pgroup_igop(p_GAgrp,flags,3,op);
+  p_branch_flag = flags[0] != 0;
+  p_min_bound = flags[1] != 0;
+  p_max_bound = flags[2] != 0;
+}
+
 /**
  * Write out file containing mean value and RMS deviation for values in table
  * @param filename name of file containing results
@@ -275,6 +292,7 @@ void stb::addRowMaxValue(std::vector<double> max)
 void stb::writeMeanAndRMS(std::string filename, int mval, bool flag)
 {
   GA_Pgroup_sync(p_GAgrp);
+  syncFlags();
   int zero = 0;
   int one = 1;
   int two = 2;
@@ -460,6 +478,7 @@ void stb::writeMeanAndRMS(std::string filename, int mval, bool flag)
 void stb::writeMinAndMax(std::string filename, int mval, bool flag)
 {
   GA_Pgroup_sync(p_GAgrp);
+  syncFlags();
   int zero = 0;
   int one = 1;
   int two = 2;
@@ -666,6 +685,7 @@ void stb::writeMinAndMax(std::string filename, int mval, bool flag)
 void stb::writeMaskValueCount(std::string filename, int mval, bool flag)
 {
   GA_Pgroup_sync(p_GAgrp);
+  syncFlags();
   int zero = 0;
   int one = 1;
   int two = 2;
diff --git a/src/analysis/stat_block.hpp b/src/analysis/stat_block.hpp
index 2ee178a..406c908 100644
--- a/src/analysis/stat_block.hpp
+++ b/src/analysis/stat_block.hpp
@@ -125,6 +125,12 @@ public:
   void sumColumnValues(std::string filename, int mval=1);
 private:
 
+  /**
+   * Labels and bounds may have been added on any processor. Make all processors
+   * aware of them
+   */
+  void syncFlags();
+
   int p_data;
   int p_mask;
   int p_type;
-- 
2.43.0


From 961338ecd56f22a8bbeff6a57f5871df86bd2ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 067/137] fix: Configuration::open fails on all processes when
 the file is missing or empty

---
 src/configuration/configuration.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/configuration/configuration.cpp b/src/configuration/configuration.cpp
index 59a28b9..8806f10 100644
--- a/src/configuration/configuration.cpp
+++ b/src/configuration/configuration.cpp
@@ -116,7 +116,7 @@ bool Configuration::open(const std::string & file) {
      std::cout<<"(Configuration::open) Could not open file "<<file<<std::endl;
    }
    int n = -1;
-	if(!input.bad()) {
+	if(input.is_open() && !input.bad()) {
 		input.seekg(0, std::ios::end);   
 		str.reserve((unsigned) input.tellg());
 		input.seekg(0, std::ios::beg);
@@ -128,9 +128,8 @@ bool Configuration::open(const std::string & file) {
      std::cout<<"(Configuration::open) File "<<file<<" found to be bad"<<std::endl;
    }
 #ifdef CONFIGURATION_USE_MPI
-   if (n >= 0) {
-	  n = str.size();
-   }
+   // zero tells the other processes that there is nothing to read
+   n = str.size();
 	MPI_Bcast(&n, 1, MPI_INT, rank, comm);
    if (n > 0) {
 	  MPI_Bcast((void*) str.c_str(), n, MPI_CHAR, rank, comm);
@@ -185,9 +184,8 @@ bool Configuration::openStringFile(std::vector<std::string> & file,
      n = 0;
    }
 
-   if (n >= 0) {
-	  n = str.size();
-   }
+   // zero tells the other processes that there is nothing to read
+   n = str.size();
 	MPI_Bcast(&n, 1, MPI_INT, rank, comm);
    if (n > 0) {
 	  MPI_Bcast((void*) str.c_str(), n, MPI_CHAR, rank, comm);
-- 
2.43.0


From 3cf2814972647b20eb5f6b4e586ffb144fdfba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:10 +0000
Subject: [PATCH 068/137] fix: BusTable comments keep their length and a failed
 read destroys data once

---
 src/parser/bus_table.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/bus_table.hpp b/src/parser/bus_table.hpp
index 1258003..490d488 100644
--- a/src/parser/bus_table.hpp
+++ b/src/parser/bus_table.hpp
@@ -72,6 +72,7 @@ public:
   bool readTable(std::string &filename)
   {
     if (p_has_data) GA_Destroy(p_GA_data);
+    p_has_data = false;
     int me = p_comm.rank();
     MPI_Comm mpi_comm = static_cast<MPI_Comm>(p_comm);
     p_GAgrp = p_comm.getGroup();
@@ -177,7 +178,7 @@ public:
         }
         MPI_Bcast(str,hsize[i],MPI_CHAR,0,mpi_comm);
         if (me != 0) {
-          p_headers.push_back(str);
+          p_headers.push_back(std::string(str,hsize[i]));
         }
         delete [] str;
       }
-- 
2.43.0


From 783e16e11b74c408ee8d1268fb1f41bb29fd6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 069/137] fix: exporters write circuits listed in reverse in
 their own direction

---
 src/export/data_blocks/export_line23.hpp  | 6 +++---
 src/export/data_blocks/export_line33.hpp  | 6 +++---
 src/export/data_blocks/export_line34.hpp  | 6 +++---
 src/export/data_blocks/export_xform23.hpp | 6 +++---
 src/export/data_blocks/export_xform33.hpp | 6 +++---
 src/export/data_blocks/export_xform34.hpp | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/export/data_blocks/export_line23.hpp b/src/export/data_blocks/export_line23.hpp
index 8f7a517..3ee1cd0 100644
--- a/src/export/data_blocks/export_line23.hpp
+++ b/src/export/data_blocks/export_line23.hpp
@@ -83,10 +83,10 @@ class ExportLine23
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
             data->getValue(BRANCH_FROMBUS,&idx1);
             data->getValue(BRANCH_TOBUS,&idx2);
-            ival = 1;
-            data->getValue(BRANCH_SWITCHED,&ival,j);
+            bool switched = false;
+            data->getValue(BRANCH_SWITCHED,&switched,j);
             // I,J,CKT,R,X,B,RATEA,RATEB,RATEC,RATIO,ANGLE,GI,BI,GJ,BJ,ST
-            if (ival == 1) {
+            if (!switched) {
               sprintf(ptr,"%d, %d,",idx1,idx2);
             } else {
               sprintf(ptr,"%d, %d,",idx2,idx1);
diff --git a/src/export/data_blocks/export_line33.hpp b/src/export/data_blocks/export_line33.hpp
index f58978c..4b096e9 100644
--- a/src/export/data_blocks/export_line33.hpp
+++ b/src/export/data_blocks/export_line33.hpp
@@ -84,9 +84,9 @@ class ExportLine33
             if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
-              if (ival == 1) {
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
+              if (!switched) {
                 sprintf(ptr,"%d, %d,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d,",idx2,idx1);
diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index b62d935..7e4da37 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -84,9 +84,9 @@ class ExportLine34
             if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
-              if (ival == 1) {
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
+              if (!switched) {
                 sprintf(ptr,"%d, %d,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d,",idx2,idx1);
diff --git a/src/export/data_blocks/export_xform23.hpp b/src/export/data_blocks/export_xform23.hpp
index d8ddc81..65d3571 100644
--- a/src/export/data_blocks/export_xform23.hpp
+++ b/src/export/data_blocks/export_xform23.hpp
@@ -84,10 +84,10 @@ class ExportXform23
             if (is_xform || (tap_ratio != 0.0 && tap_ratio != 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
-              if (ival == 1) {
+              if (!switched) {
                 sprintf(ptr,"%d, %d, 0,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d, 0,",idx2,idx1);
diff --git a/src/export/data_blocks/export_xform33.hpp b/src/export/data_blocks/export_xform33.hpp
index e72be4c..36012c3 100644
--- a/src/export/data_blocks/export_xform33.hpp
+++ b/src/export/data_blocks/export_xform33.hpp
@@ -87,10 +87,10 @@ class ExportXform33
               // the future
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
-              if (ival == 1) {
+              if (!switched) {
                 sprintf(ptr,"%d, %d, 0,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d, 0,",idx2,idx1);
diff --git a/src/export/data_blocks/export_xform34.hpp b/src/export/data_blocks/export_xform34.hpp
index 164c3ff..d18161c 100644
--- a/src/export/data_blocks/export_xform34.hpp
+++ b/src/export/data_blocks/export_xform34.hpp
@@ -87,10 +87,10 @@ class ExportXform34
               // the future
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
-              if (ival == 1) {
+              if (!switched) {
                 sprintf(ptr,"%d, %d, 0,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d, 0,",idx2,idx1);
-- 
2.43.0


From 8b04887dccf76012008663d7ad7f79023a81fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 070/137] fix: exporters number the written circuits of a
 branch consecutively

---
 src/export/data_blocks/export_line33.hpp  | 4 +++-
 src/export/data_blocks/export_line34.hpp  | 4 +++-
 src/export/data_blocks/export_xform33.hpp | 4 +++-
 src/export/data_blocks/export_xform34.hpp | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/export/data_blocks/export_line33.hpp b/src/export/data_blocks/export_line33.hpp
index 4b096e9..a09aed6 100644
--- a/src/export/data_blocks/export_line33.hpp
+++ b/src/export/data_blocks/export_line33.hpp
@@ -75,6 +75,8 @@ class ExportLine33
           char *ptr;
           int nline = 0;
           double tap_ratio;
+          // number of lines written for this branch
+          int nout = 0;
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
@@ -172,7 +174,7 @@ class ExportLine33
               text_line text;
               strcpy(text.text,buf);
               text.global_idx = p_network->getGlobalBranchIndex(i);
-              text.device_idx = j;
+              text.device_idx = nout++;
               text_data.push_back(text);
             }
           }
diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index 7e4da37..3c6c924 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -75,6 +75,8 @@ class ExportLine34
           char *ptr;
           int nline = 0;
           double tap_ratio;
+          // number of lines written for this branch
+          int nout = 0;
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
@@ -221,7 +223,7 @@ class ExportLine34
               text_line text;
               strcpy(text.text,buf);
               text.global_idx = p_network->getGlobalBranchIndex(i);
-              text.device_idx = j;
+              text.device_idx = nout++;
               text_data.push_back(text);
             }
           }
diff --git a/src/export/data_blocks/export_xform33.hpp b/src/export/data_blocks/export_xform33.hpp
index 36012c3..d0b67c1 100644
--- a/src/export/data_blocks/export_xform33.hpp
+++ b/src/export/data_blocks/export_xform33.hpp
@@ -75,6 +75,8 @@ class ExportXform33
           char *ptr;
           int nline = 0;
           double tap_ratio;
+          // number of lines written for this branch
+          int nout = 0;
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
@@ -259,7 +261,7 @@ class ExportXform33
               text_line text;
               strcpy(text.text,buf);
               text.global_idx = p_network->getGlobalBranchIndex(i);
-              text.device_idx = j;
+              text.device_idx = nout++;
               text_data.push_back(text);
             }
           }
diff --git a/src/export/data_blocks/export_xform34.hpp b/src/export/data_blocks/export_xform34.hpp
index d18161c..1f24ef9 100644
--- a/src/export/data_blocks/export_xform34.hpp
+++ b/src/export/data_blocks/export_xform34.hpp
@@ -75,6 +75,8 @@ class ExportXform34
           char *ptr;
           int nline = 0;
           double tap_ratio;
+          // number of lines written for this branch
+          int nout = 0;
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
@@ -285,7 +287,7 @@ class ExportXform34
               text_line text;
               strcpy(text.text,buf);
               text.global_idx = p_network->getGlobalBranchIndex(i);
-              text.device_idx = j;
+              text.device_idx = nout++;
               text_data.push_back(text);
             }
           }
-- 
2.43.0


From 47f1c200f80fe2dc2f10b7ba82e75851e07c4f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 071/137] fix: load exporter numbers the written loads of a bus
 consecutively

---
 src/export/data_blocks/export_load33.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/export/data_blocks/export_load33.hpp b/src/export/data_blocks/export_load33.hpp
index 08e8c52..2319709 100644
--- a/src/export/data_blocks/export_load33.hpp
+++ b/src/export/data_blocks/export_load33.hpp
@@ -73,6 +73,8 @@ class ExportLoad33
           std::string sval;
           char *ptr;
           int nload = 0;
+          // number of loads written for this bus
+          int nout = 0;
           data->getValue(LOAD_NUMBER,&nload);
           for (j=0; j<nload; j++) {
             ptr = buf;
@@ -134,7 +136,7 @@ class ExportLoad33
             text_line text;
             strcpy(text.text,buf);
             text.global_idx = p_network->getGlobalBusIndex(i);
-            text.device_idx = j;
+            text.device_idx = nout++;
             text_data.push_back(text);
           }
         }
-- 
2.43.0


From 7eda4a456a85286f489259ceb64a122550226ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 072/137] fix: exporters keep the transformer impedance of
 generators

---
 src/export/data_blocks/export_gen33.hpp | 7 +++++--
 src/export/data_blocks/export_gen34.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/export/data_blocks/export_gen33.hpp b/src/export/data_blocks/export_gen33.hpp
index 6da4fa0..0a15954 100644
--- a/src/export/data_blocks/export_gen33.hpp
+++ b/src/export/data_blocks/export_gen33.hpp
@@ -121,11 +121,14 @@ class ExportGen33
             data->getValue(GENERATOR_ZSOURCE,&zval,j);
             sprintf(ptr," %f, %f,",real(zval),imag(zval),j);
             ptr += strlen(ptr);
-            rval = 0.0;
+            // transformer impedance is stored as one complex value
+            zval = ComplexType(0.0,0.0);
+            data->getValue(GENERATOR_XTRAN,&zval,j);
+            rval = real(zval);
             data->getValue(GENERATOR_RT,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
-            rval = 0.0;
+            rval = imag(zval);
             data->getValue(GENERATOR_XT,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_gen34.hpp b/src/export/data_blocks/export_gen34.hpp
index bdbc25d..1af131e 100644
--- a/src/export/data_blocks/export_gen34.hpp
+++ b/src/export/data_blocks/export_gen34.hpp
@@ -121,11 +121,14 @@ class ExportGen34
             data->getValue(GENERATOR_ZSOURCE,&zval,j);
             sprintf(ptr," %f, %f,",real(zval),imag(zval),j);
             ptr += strlen(ptr);
-            rval = 0.0;
+            // transformer impedance is stored as one complex value
+            zval = ComplexType(0.0,0.0);
+            data->getValue(GENERATOR_XTRAN,&zval,j);
+            rval = real(zval);
             data->getValue(GENERATOR_RT,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
-            rval = 0.0;
+            rval = imag(zval);
             data->getValue(GENERATOR_XT,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
-- 
2.43.0


From 241ccf8b0d809d40a4084bbae780188a34a83bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 073/137] fix: loads with only current or admittance parts are
 exported

---
 src/export/data_blocks/export_load33.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/export/data_blocks/export_load33.hpp b/src/export/data_blocks/export_load33.hpp
index 2319709..12f5972 100644
--- a/src/export/data_blocks/export_load33.hpp
+++ b/src/export/data_blocks/export_load33.hpp
@@ -101,29 +101,35 @@ class ExportLoad33
             }
             sprintf(ptr," %d,",ival);
             ptr += strlen(ptr);
-            rval = 0.0;
+            pl = 0.0;
             data->getValue(LOAD_PL,&pl,j);
             sprintf(ptr," %f,",pl);
             ptr += strlen(ptr);
-            rval = 0.0;
+            ql = 0.0;
             data->getValue(LOAD_QL,&ql,j);
             sprintf(ptr," %f,",ql);
             ptr += strlen(ptr);
-            if (pl == 0.0 && ql == 0.0) continue;
+            // leave out loads without any power
+            bool power = (pl != 0.0 || ql != 0.0);
             rval = 0.0;
             data->getValue(LOAD_IP,&rval,j);
+            if (rval != 0.0) power = true;
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
             rval = 0.0;
             data->getValue(LOAD_IQ,&rval,j);
+            if (rval != 0.0) power = true;
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
             rval = 0.0;
             data->getValue(LOAD_YP,&rval,j);
+            if (rval != 0.0) power = true;
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
             rval = 0.0;
             data->getValue(LOAD_YQ,&rval,j);
+            if (rval != 0.0) power = true;
+            if (!power) continue;
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
             ival = 1;
-- 
2.43.0


From cb6f9f93d5a967f585472f118b456001a961bdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 074/137] fix: transformer adjustment records of circuits
 listed in reverse are read

---
 src/parser/PTI23_parser.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/PTI23_parser.hpp b/src/parser/PTI23_parser.hpp
index 2cdfaa0..47c08dc 100644
--- a/src/parser/PTI23_parser.hpp
+++ b/src/parser/PTI23_parser.hpp
@@ -662,6 +662,10 @@ class PTI23_parser : public BasePTIParser<_network>
         branch_pair = std::pair<int,int>(fromBus, toBus);
         std::map<std::pair<int, int>, int>::iterator it;
         it = p_branchMap.find(branch_pair);
+        if (it == p_branchMap.end()) {
+          // circuit may be listed in the opposite direction of its branch
+          it = p_branchMap.find(std::pair<int,int>(toBus, fromBus));
+        }
 
         if (it != p_branchMap.end()) {
           l_idx = it->second;
@@ -737,11 +741,11 @@ class PTI23_parser : public BasePTIParser<_network>
             atof(split_line[8].c_str()),idx);
 
         /*
-         * type: float
+         * type: integer
          * TRANSFORMER_TABLE
          */
         p_branchData[l_idx]->addValue(TRANSFORMER_TABLE,
-            atof(split_line[9].c_str()),idx);
+            atoi(split_line[9].c_str()),idx);
 
         // This stuff is probably all wrong
 #if 0
-- 
2.43.0


From 0c9fe003272524d4a9f231ae3070239b9dcd83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:16 +0000
Subject: [PATCH 075/137] fix: version 23 exporter writes readable transformer
 adjustment records

---
 src/export/data_blocks/export_xform23.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/export/data_blocks/export_xform23.hpp b/src/export/data_blocks/export_xform23.hpp
index 65d3571..f23c4c7 100644
--- a/src/export/data_blocks/export_xform23.hpp
+++ b/src/export/data_blocks/export_xform23.hpp
@@ -74,13 +74,16 @@ class ExportXform23
           DoubleComplex zval;
           char *ptr;
           int nline = 0;
-          double tap_ratio;
+          // number of records written for this branch
+          int nout = 0;
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
           for (j=0; j<nline; j++) {
             ptr = buf;
+            double tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
+            is_xform = is_xform || data->getValue(TRANSFORMER_CONTROL,&ival,j);
             if (is_xform || (tap_ratio != 0.0 && tap_ratio != 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
@@ -88,9 +91,9 @@ class ExportXform23
               data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
               if (!switched) {
-                sprintf(ptr,"%d, %d, 0,",idx1,idx2);
+                sprintf(ptr,"%d, %d,",idx1,idx2);
               } else {
-                sprintf(ptr,"%d, %d, 0,",idx2,idx1);
+                sprintf(ptr,"%d, %d,",idx2,idx1);
               }
               ptr += strlen(ptr);
               sval = " 1";
@@ -124,12 +127,14 @@ class ExportXform23
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               ival = 0;
-              data->getValue(TRANSFORMER_TAB,&ival,j);
+              if (!data->getValue(TRANSFORMER_TABLE,&ival,j)) {
+                data->getValue(TRANSFORMER_TAB,&ival,j);
+              }
               sprintf(ptr," %d\n",ival);
               text_line text;
               strcpy(text.text,buf);
               text.global_idx = p_network->getGlobalBranchIndex(i);
-              text.device_idx = j;
+              text.device_idx = nout++;
               text_data.push_back(text);
             }
           }
-- 
2.43.0


From c1484e65a6cb1348cfbe5efb1fb5e75d0880ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:35 +0000
Subject: [PATCH 076/137] fix: bus measurements of the state estimation used an
 uninitialised circuit id

---
 src/applications/components/se_matrix/se_components.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/applications/components/se_matrix/se_components.hpp b/src/applications/components/se_matrix/se_components.hpp
index 0646b1f..997fd96 100644
--- a/src/applications/components/se_matrix/se_components.hpp
+++ b/src/applications/components/se_matrix/se_components.hpp
@@ -32,6 +32,13 @@ enum SEMode{YBus,Jacobian_H, R_inv, Ez, Voltage};
 
 struct Measurement
 {
+  Measurement(void) : p_busid(0), p_fbusid(0), p_tbusid(0), p_value(0.0),
+    p_deviation(0.0)
+  {
+    p_type[0] = '\0';
+    p_ckt[0] = '\0';
+  }
+
   char p_type[4];
   //std::string p_type;
   int p_busid;
-- 
2.43.0


From 8238681b5543e624af94c10c4074fbd530fb3025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:35 +0000
Subject: [PATCH 077/137] fix: derivatives of branch flow measurements
 contained the bus shunt conductance

---
 .../components/se_matrix/se_components.cpp            | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index eff37d3..6fbdbd0 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -1792,9 +1792,6 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
 
     v1 = bus1->getVoltage();
     v2 = bus2->getVoltage();
-    double gs1, bs1, gs2, bs2;
-    bus1->getShuntGsBs(&gs1,&bs1);
-    bus2->getShuntGsBs(&gs2,&bs2);
     theta = bus1->getPhase() - bus2->getPhase();  
     //    int ref = getRef(this);
 
@@ -1830,14 +1827,14 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
               ncnt++;
               jm = bus1->matrixGetColIndex(1);
               values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(theta+shifter)
-                  +bij*sin(theta+shifter)) +2*(gij+gs1)*v1/(t*t),0.0);
+                  +bij*sin(theta+shifter)) +2*gij*v1/(t*t),0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
             } else {  // reference bus, only for dPIJ/DVI
               jm = bus1->matrixGetColIndex(0);
               values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(theta+shifter)
-                  +bij*sin(theta+shifter)) +2*(gij+gs1)*v1/(t*t),0.0);
+                  +bij*sin(theta+shifter)) +2*gij*v1/(t*t),0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
@@ -2050,14 +2047,14 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
               ncnt++;
               jm = bus2->matrixGetColIndex(1);
               values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(-theta-shifter)
-                    +bij*sin(-theta-shifter))+2*(gij+gs2)*v2,0.0);
+                    +bij*sin(-theta-shifter))+2*gij*v2,0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
             } else {  // reference bus, only for dPIJ/DVJ
               jm = bus2->matrixGetColIndex(0);
               values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(-theta-shifter)
-                    +bij*sin(-theta-shifter))+2*(gij+gs2)*v2,0.0);
+                    +bij*sin(-theta-shifter))+2*gij*v2,0.0);
               rows[ncnt] = im;
               cols[ncnt] = jm;
               ncnt++;
-- 
2.43.0


From 61027ded2713a42c1ced7b435123127e093c1be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:35 +0000
Subject: [PATCH 078/137] fix: injection measurements next to isolated buses
 left matrix elements unset

---
 src/applications/components/se_matrix/se_components.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index 6fbdbd0..0535093 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -439,6 +439,9 @@ bool gridpack::state_estimation::SEBus::serialWrite(char *string,
     for (int j=0; j<nsize; j++) {
       gridpack::state_estimation::SEBranch *branch
         = dynamic_cast<gridpack::state_estimation::SEBranch*>(branches[j].get());
+      SEBus *nbus1 = dynamic_cast<SEBus*>(branch->getBus1().get());
+      SEBus *nbus2 = dynamic_cast<SEBus*>(branch->getBus2().get());
+      if (nbus1->isIsolated() || nbus2->isIsolated()) continue;
       branch->getPQ(this, &p, &q);
       P += p;
       Q += q;
@@ -589,6 +592,8 @@ void gridpack::state_estimation::SEBus::configureSE(void)
           = dynamic_cast<SEBranch*>(branch_nghbrs[j].get());
         SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
         if (bus == this) bus = dynamic_cast<SEBus*>(branch->getBus2().get());
+        // isolated buses do not contribute any matrix elements
+        if (isIsolated() || bus->isIsolated()) continue;
         if (!bus->getReferenceBus()) {
           ncnt += 2;
         } else {
@@ -1065,6 +1070,8 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
            gridpack::state_estimation::SEBranch *branch
              = dynamic_cast<gridpack::state_estimation::SEBranch*>(branch_nghbrs[j].get());
           SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
+          SEBus *bus2 = dynamic_cast<SEBus*>(branch->getBus2().get());
+          if (bus->isIsolated() || bus2->isIsolated()) continue;
           ComplexType yfbus;
           if (bus == this) {
             yfbus=branch->getForwardYBus();
@@ -1092,6 +1099,8 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
            gridpack::state_estimation::SEBranch *branch
              = dynamic_cast<gridpack::state_estimation::SEBranch*>(branch_nghbrs[j].get());
           SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
+          SEBus *bus2 = dynamic_cast<SEBus*>(branch->getBus2().get());
+          if (bus->isIsolated() || bus2->isIsolated()) continue;
           ComplexType yfbus;
           if (bus == this) {
             yfbus=branch->getForwardYBus();
-- 
2.43.0


From dc11043a16aa02292d2f0f53d1dc9121914489a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:35 +0000
Subject: [PATCH 079/137] fix: state estimation expected flow on line elements
 that are out of service

---
 .../components/se_matrix/se_components.cpp    | 70 ++++++++++---------
 .../components/se_matrix/se_components.hpp    |  7 ++
 2 files changed, 44 insertions(+), 33 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index 0535093..395aa21 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -1363,6 +1363,17 @@ gridpack::ComplexType gridpack::state_estimation::SEBranch::getAdmittance(void)
   return ret;
 }
 
+/**
+ * Return the series admittance of a single line element
+ * @param idx index of line element
+ * @return admittance of line element, zero if element is out of service
+ */
+gridpack::ComplexType gridpack::state_estimation::SEBranch::getSeriesAdmittance(int idx)
+{
+  if (!p_branch_status[idx]) return gridpack::ComplexType(0.0,0.0);
+  return 1.0/gridpack::ComplexType(p_resistance[idx],p_reactance[idx]);
+}
+
 /**
  * Return transformer contribution from the branch to the calling
  * bus
@@ -1812,11 +1823,10 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
       if (type == "PIJ") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
+          if (p_tag[j] == ckt) {
             found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
+            double B = p_branch_status[j] ? 0.5*p_charging[j] : 0.0;
+            gridpack::ComplexType ret = getSeriesAdmittance(j);
             gij=real(ret);
             bij=imag(ret);
             if (p_tap_ratio[j] != 0.0) {
@@ -1874,11 +1884,10 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
       } else if (type == "QIJ") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
+          if (p_tag[j] == ckt) {
             found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
+            double B = p_branch_status[j] ? 0.5*p_charging[j] : 0.0;
+            gridpack::ComplexType ret = getSeriesAdmittance(j);
             gij=real(ret);
             bij=imag(ret);
             if (p_tap_ratio[j] != 0.0) {
@@ -1935,11 +1944,10 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
       } else if (type == "IIJ") {  // Need more work to support transformer 
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
+          if (p_tag[j] == ckt) {
             found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
+            double B = p_branch_status[j] ? 0.5*p_charging[j] : 0.0;
+            gridpack::ComplexType ret = getSeriesAdmittance(j);
             gij=real(ret);
             bij=imag(ret);
             if (p_tap_ratio[j] != 0.0) {
@@ -1950,6 +1958,7 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
               t=1.0;
             }
             double Iij = sqrt((gij*gij+bij*bij) *(v1*v1+v2*v2-2*v1*v2*cos(theta))); 
+            if (Iij == 0.0) Iij = 1.0;
             if (!bus1->getReferenceBus()) {
               jm = bus1->matrixGetColIndex(0);
               values[ncnt] = gridpack::ComplexType((gij*gij
@@ -2011,11 +2020,10 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
       } else if (type == "PJI") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
+          if (p_tag[j] == ckt) {
             found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
+            double B = p_branch_status[j] ? 0.5*p_charging[j] : 0.0;
+            gridpack::ComplexType ret = getSeriesAdmittance(j);
             gij=real(ret);
             bij=imag(ret);
             if (p_tap_ratio[j] != 0.0) {
@@ -2073,11 +2081,10 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
       } else if (type == "QJI") {
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
+          if (p_tag[j] == ckt) {
             found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
+            double B = p_branch_status[j] ? 0.5*p_charging[j] : 0.0;
+            gridpack::ComplexType ret = getSeriesAdmittance(j);
             gij=real(ret);
             bij=imag(ret);
             if (p_tap_ratio[j] != 0.0) {
@@ -2252,8 +2259,7 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
           if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            ret = 1.0/ret;
+            gridpack::ComplexType ret = getSeriesAdmittance(j);
             gij=real(ret);
             bij=imag(ret);
             if (p_tap_ratio[j] != 0.0) {
@@ -2272,9 +2278,8 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
           if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
+            double B = p_branch_status[j] ? 0.5*p_charging[j] : 0.0;
+            gridpack::ComplexType ret = getSeriesAdmittance(j);
             gij=real(ret);
             bij=imag(ret);
             if (p_tap_ratio[j] != 0.0) {
@@ -2293,9 +2298,8 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
           if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
+            double B = p_branch_status[j] ? 0.5*p_charging[j] : 0.0;
+            gridpack::ComplexType ret = getSeriesAdmittance(j);
             gij=real(ret);
             bij=imag(ret);
             if (p_tap_ratio[j] != 0.0) {
@@ -2317,8 +2321,7 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
           if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            ret = 1.0/ret;
+            gridpack::ComplexType ret = getSeriesAdmittance(j);
             gij=real(ret);
             bij=imag(ret);
             if (p_tap_ratio[j] != 0.0) {
@@ -2337,9 +2340,8 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
         int nsize = p_tag.size();
         for (j=0; j<nsize; j++) {
           if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
+            double B = p_branch_status[j] ? 0.5*p_charging[j] : 0.0;
+            gridpack::ComplexType ret = getSeriesAdmittance(j);
             gij=real(ret);
             bij=imag(ret);
             if (p_tap_ratio[j] != 0.0) {
@@ -2412,6 +2414,7 @@ gridpack::ComplexType gridpack::state_estimation::SEBranch::getRvrsComplexPower(
   gridpack::state_estimation::SEBus *bus2 = 
     dynamic_cast<gridpack::state_estimation::SEBus*>(getBus2().get());
   vi = bus2->getComplexVoltage();
+  if (!getLineStatus(tag)) return s;
   getRvrsLineElements(tag,&Yii,&Yij);
   s = vi*conj(Yii*vi+Yij*vj)*p_sbase;
   return s;
@@ -2434,6 +2437,7 @@ gridpack::ComplexType gridpack::state_estimation::SEBranch::getComplexPower(
   gridpack::state_estimation::SEBus *bus2 = 
     dynamic_cast<gridpack::state_estimation::SEBus*>(getBus2().get());
   vj = bus2->getComplexVoltage();
+  if (!getLineStatus(tag)) return s;
   getLineElements(tag,&Yii,&Yij);
   s = vi*conj(Yii*vi+Yij*vj)*p_sbase;
   return s;
diff --git a/src/applications/components/se_matrix/se_components.hpp b/src/applications/components/se_matrix/se_components.hpp
index 997fd96..335e9cb 100644
--- a/src/applications/components/se_matrix/se_components.hpp
+++ b/src/applications/components/se_matrix/se_components.hpp
@@ -629,6 +629,13 @@ class SEBranch
      */
     void configureSE(void);
 
+    /**
+     * Return the series admittance of a single line element
+     * @param idx index of line element
+     * @return admittance of line element, zero if element is out of service
+     */
+    gridpack::ComplexType getSeriesAdmittance(int idx);
+
   private:
     std::vector<double> p_reactance;
     std::vector<double> p_resistance;
-- 
2.43.0


From 074113050080632e07fc375a1f63e61c3e679e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 080/137] fix: state estimation ignored the direction of line
 elements entered in opposite order

---
 .../components/se_matrix/se_components.cpp    | 43 ++++++++++++++++---
 .../components/se_matrix/se_components.hpp    | 14 ++++++
 2 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index 395aa21..c60cdf2 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -1161,6 +1161,7 @@ gridpack::state_estimation::SEBranch::SEBranch(void)
   p_xform.clear();
   p_shunt.clear();
   p_branch_status.clear();
+  p_switched.clear();
   p_elems = 0;
   p_theta = 0.0;
   p_sbase = 0.0;
@@ -1308,6 +1309,9 @@ void gridpack::state_estimation::SEBranch::load(
     ivar = 1;
     data->getValue(BRANCH_STATUS, &ivar, idx);
     p_branch_status.push_back(static_cast<bool>(ivar));
+    bool lvar = false;
+    data->getValue(BRANCH_SWITCHED, &lvar, idx);
+    p_switched.push_back(lvar);
     if (ivar == 1) p_active = true;
     bool shunt = true;
     rvar = 0.0;
@@ -1374,6 +1378,29 @@ gridpack::ComplexType gridpack::state_estimation::SEBranch::getSeriesAdmittance(
   return 1.0/gridpack::ComplexType(p_resistance[idx],p_reactance[idx]);
 }
 
+/**
+ * Find the buses and the type that describe a flow measurement in the
+ * direction in which the line element is defined. These are the buses and
+ * the type of the branch unless the element is switched
+ * @param tag line element
+ * @param type type of measurement
+ * @param bus1 "from" bus of line element
+ * @param bus2 "to" bus of line element
+ */
+void gridpack::state_estimation::SEBranch::orientMeasurement(
+    const std::string &tag, std::string *type, SEBus **bus1, SEBus **bus2)
+{
+  *bus1 = dynamic_cast<SEBus*>(getBus1().get());
+  *bus2 = dynamic_cast<SEBus*>(getBus2().get());
+  for (int i=0; i<p_tag.size(); i++) {
+    if (p_tag[i] == tag && p_switched[i] && type->length() == 3) {
+      std::swap(*bus1, *bus2);
+      std::swap((*type)[1], (*type)[2]);
+      return;
+    }
+  }
+}
+
 /**
  * Return transformer contribution from the branch to the calling
  * bus
@@ -1810,15 +1837,18 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
     double t,gij,bij,shifter; 
     std::string ckt, type;
 
-    v1 = bus1->getVoltage();
-    v2 = bus2->getVoltage();
-    theta = bus1->getPhase() - bus2->getPhase();  
     //    int ref = getRef(this);
 
     for (i=0; i<nmeas; i++) {
       im = matrixGetRowIndex(i);
       ckt = p_meas[i].p_ckt;
+      // evaluate elements defined in the opposite direction of the branch from
+      // the other end
       type = p_meas[i].p_type;
+      orientMeasurement(ckt, &type, &bus1, &bus2);
+      v1 = bus1->getVoltage();
+      v2 = bus2->getVoltage();
+      theta = bus1->getPhase() - bus2->getPhase();
       bool found = false;
       if (type == "PIJ") {
         int nsize = p_tag.size();
@@ -2244,11 +2274,12 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
     double v2=0.0;
     double theta=0.0;
     vectorGetElementIndices(idx);
-    v1 = bus1->getVoltage();
-    v2 = bus2->getVoltage();
-    theta = bus1->getPhase() - bus2->getPhase();  
     for (i=0; i<nmeas; i++) {
       std::string type = p_meas[i].p_type;
+      orientMeasurement(p_meas[i].p_ckt, &type, &bus1, &bus2);
+      v1 = bus1->getVoltage();
+      v2 = bus2->getVoltage();
+      theta = bus1->getPhase() - bus2->getPhase();
       int idx1, idx2;
       double gij,bij,t,shifter;
       idx1 = getBus1OriginalIndex();
diff --git a/src/applications/components/se_matrix/se_components.hpp b/src/applications/components/se_matrix/se_components.hpp
index 335e9cb..2ca2930 100644
--- a/src/applications/components/se_matrix/se_components.hpp
+++ b/src/applications/components/se_matrix/se_components.hpp
@@ -636,6 +636,18 @@ class SEBranch
      */
     gridpack::ComplexType getSeriesAdmittance(int idx);
 
+    /**
+     * Find the buses and the type that describe a flow measurement in the
+     * direction in which the line element is defined. These are the buses and
+     * the type of the branch unless the element is switched
+     * @param tag line element
+     * @param type type of measurement
+     * @param bus1 "from" bus of line element
+     * @param bus2 "to" bus of line element
+     */
+    void orientMeasurement(const std::string &tag, std::string *type,
+        SEBus **bus1, SEBus **bus2);
+
   private:
     std::vector<double> p_reactance;
     std::vector<double> p_resistance;
@@ -655,6 +667,7 @@ class SEBranch
     double p_shunt_bs;
     double p_shunt_gs;
     std::vector<bool> p_branch_status;
+    std::vector<bool> p_switched;
     std::vector<std::string> p_tag;
     int p_elems;
     bool p_active;
@@ -693,6 +706,7 @@ private:
       & p_theta
       & p_sbase
       & p_branch_status
+      & p_switched
       & p_tag
       & p_elems
       & p_active
-- 
2.43.0


From a0edfb97a48956c6e337fcd4813138d54fa38ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 081/137] fix: branch flows of the state estimation neglected
 taps, phase shifts and charging

---
 .../components/se_matrix/se_components.cpp             | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index c60cdf2..b580ea1 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -1485,7 +1485,7 @@ gridpack::state_estimation::SEBranch::getShunt(gridpack::state_estimation::SEBus
 bool gridpack::state_estimation::SEBranch::serialWrite(char *string,
     const int bufsize, const char *signal)
 {
-  gridpack::ComplexType v1, v2, y, s;
+  gridpack::ComplexType s;
   gridpack::state_estimation::SEBus *bus1 = 
     dynamic_cast<gridpack::state_estimation::SEBus*>(getBus1().get());
   gridpack::state_estimation::SEBus *bus2 =
@@ -1493,10 +1493,10 @@ bool gridpack::state_estimation::SEBranch::serialWrite(char *string,
   bool ok = !bus1->isIsolated();
   ok = ok && !bus2->isIsolated();
   if (ok) {
-    v1 = bus1->getComplexVoltage();
-    v2 = bus2->getComplexVoltage();
-    y = gridpack::ComplexType(p_ybusr_frwd,p_ybusi_frwd);
-    s = -v1*conj(y*(v1-v2));
+    s = gridpack::ComplexType(0.0,0.0);
+    for (int j=0; j<p_elems; j++) {
+      s += getComplexPower(p_tag[j])/p_sbase;
+    }
     double p = real(s);
     double q = imag(s);
   //  double pi = 4.0*atan(1.0);
-- 
2.43.0


From 3f81f7d1a39e46ad43621a98a22b271b640fed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 082/137] fix: measurements on circuits with a one-character id
 never matched the circuit

---
 .../modules/state_estimation/se_app_module.cpp            | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/state_estimation/se_app_module.cpp b/src/applications/modules/state_estimation/se_app_module.cpp
index 75bb4aa..2497bc7 100644
--- a/src/applications/modules/state_estimation/se_app_module.cpp
+++ b/src/applications/modules/state_estimation/se_app_module.cpp
@@ -27,6 +27,7 @@
 #include "gridpack/mapper/gen_vector_map.hpp"
 #include "gridpack/mapper/bus_vector_map.hpp"
 #include "gridpack/math/math.hpp"
+#include "gridpack/utilities/string_utils.hpp"
 #include "se_app_module.hpp"
 
 // Calling program for state estimation application
@@ -87,10 +88,9 @@ std::vector<gridpack::state_estimation::Measurement>
         measurements[idx]->get("ToBus", &tbusid);
         std::string ckt;
         measurements[idx]->get("CKT", &ckt);
-        // Fix up tag so that single character tags are right-justified
-        if (ckt.length() == 1) {
-          ckt.insert(0,1,' ');
-        }
+        // Use the same two-character format for the tag that the parsers use
+        gridpack::utility::StringUtils util;
+        ckt = util.clean2Char(ckt);
         gridpack::state_estimation::Measurement measurement;
         strcpy(measurement.p_type,meas_type.c_str());
         measurement.p_fbusid = fbusid;
-- 
2.43.0


From d30badcb3a7163e302ada2abf71416f2a80a0cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 083/137] fix: measurements on branches entered in the opposite
 direction were dropped

---
 .../modules/state_estimation/se_factory_module.cpp        | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/applications/modules/state_estimation/se_factory_module.cpp b/src/applications/modules/state_estimation/se_factory_module.cpp
index a04cf5f..e037252 100644
--- a/src/applications/modules/state_estimation/se_factory_module.cpp
+++ b/src/applications/modules/state_estimation/se_factory_module.cpp
@@ -93,6 +93,14 @@ void gridpack::state_estimation::SEFactoryModule::setMeasurements(
       idx2 = measurements[i].p_tbusid;
       key = std::pair<int,int>(idx1,idx2);
       branch_keys.push_back(key);
+      // The branch may be defined in the opposite direction. Only one of the
+      // two keys belongs to a branch, the other one is dropped
+      gridpack::state_estimation::Measurement reversed = measurements[i];
+      reversed.p_fbusid = idx2;
+      reversed.p_tbusid = idx1;
+      std::swap(reversed.p_type[1],reversed.p_type[2]);
+      branch_meas.push_back(reversed);
+      branch_keys.push_back(std::pair<int,int>(idx2,idx1));
     }
   }
   gridpack::hash_distr::HashDistribution<SENetwork,Measurement,Measurement>
-- 
2.43.0


From 7b250fe66935a857acc8904561a81e5853b1ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:33 +0000
Subject: [PATCH 084/137] fix: comparison of many measurements on one bus or
 branch was cut off

---
 .../modules/state_estimation/se_app_module.cpp  | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/applications/modules/state_estimation/se_app_module.cpp b/src/applications/modules/state_estimation/se_app_module.cpp
index 2497bc7..62f9455 100644
--- a/src/applications/modules/state_estimation/se_app_module.cpp
+++ b/src/applications/modules/state_estimation/se_app_module.cpp
@@ -16,6 +16,7 @@
  */
 // -------------------------------------------------------------
 
+#include <map>
 #include "gridpack/configuration/configuration.hpp"
 #include "gridpack/serial_io/serial_io.hpp"
 #include "gridpack/parser/PTI23_parser.hpp"
@@ -263,6 +264,22 @@ void gridpack::state_estimation::SEAppModule::readMeasurements(void)
     }
   }  
 */ 
+  // Make sure that the output buffers can hold the measurements of any bus or
+  // branch
+  std::map<std::pair<int,int>,int> counts;
+  int nmax = 8;
+  for (int idx = 0; idx < meas.size(); idx++) {
+    std::pair<int,int> key(meas[idx].p_busid,0);
+    if (strlen(meas[idx].p_type) == 3) {
+      key.first = std::min(meas[idx].p_fbusid,meas[idx].p_tbusid);
+      key.second = std::max(meas[idx].p_fbusid,meas[idx].p_tbusid);
+    }
+    nmax = std::max(nmax,++counts[key]);
+  }
+  p_network->communicator().max(&nmax,1);
+  p_busIO.reset(new gridpack::serial_io::SerialBusIO<SENetwork>(128*nmax, p_network));
+  p_branchIO.reset(new gridpack::serial_io::SerialBranchIO<SENetwork>(128*nmax, p_network));
+
   // Add measurements to buses and branches
   p_factory->setMeasurements(meas);
 
-- 
2.43.0


From c521782f5f97dd48b39ced1063eb4ca24e5418f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 085/137] fix: line status events crashed on processes that do
 not hold the line

---
 .../modules/dynamic_simulation_full_y/dsf_app_module2.cpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
index 09bc6cd..78a3217 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
@@ -358,9 +358,9 @@ void gridpack::dynamic_simulation::DSFullApp::setLineStatus(int from_idx, int to
   /* Get Branch */
   std::vector<int> vec_branchintidx;
   vec_branchintidx = p_network->getLocalBranchIndices(from_idx,to_idx);
-  int ibr, nbr;
   gridpack::dynamic_simulation::DSFullBranch *pbranch;	
-  nbr = vec_branchintidx.size();
+  // The branch may not be present on this process
+  if (vec_branchintidx.empty()) return;
   pbranch = dynamic_cast<gridpack::dynamic_simulation::DSFullBranch*>
     (p_network->getBranch(vec_branchintidx[0]).get());
   if(pbranch) {
-- 
2.43.0


From b76f204b41948dbe1a2a4c775d437afd1f1c7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 086/137] fix: generators with negative power shifted the
 generator models of their bus

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 133ea6c..379827c 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -1113,6 +1113,10 @@ void gridpack::dynamic_simulation::DSFullBus::load(
 	p_genqg_nodynmodel[i] = qg;
 	p_ngen_nodynmodel++;
       } else if (pg < 0.0) {
+        // keep list of generator models aligned with list of generators
+        boost::shared_ptr<BaseGeneratorModel> basegen(
+            new gridpack::dynamic_simulation::BaseGeneratorModel);
+        p_generators.push_back(basegen);
         p_negpg.push_back(pg);
         p_negqg.push_back(qg);
         p_negngen++;
-- 
2.43.0


From d2a91f58a88efd588c066d87856e08c85d75d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 087/137] fix: generators with negative power were added twice
 to the admittance matrix

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp  | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 379827c..a43c28a 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -239,14 +239,6 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
       gridpack::ComplexType u(p_ybusr, p_ybusi);
       values[0] = u;
     }
-    if (p_negngen > 0) {
-      for (int i = 0; i < p_negngen; i++) {
-        p_ybusr = p_ybusr+(-p_negpg[i])/(p_voltage*p_voltage);
-        p_ybusi = p_ybusi+p_negqg[i]/(p_voltage*p_voltage);
-        gridpack::ComplexType ret(p_ybusr, p_ybusi);
-        values[0] = ret;
-      }
-    }
     for (int i = 0; i < p_ngen; i++) {
       if(p_gen_nodynmodel[i]) {
 	p_ybusr = p_ybusr+(-p_genpg_nodynmodel[i])/(p_voltage*p_voltage);
-- 
2.43.0


From a372d65174825229569aa6fbfca19e57a2a10191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:39 +0000
Subject: [PATCH 088/137] fix: admittance of buses whose generators are all out
 of service was unset

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index a43c28a..654ee21 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -221,6 +221,7 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
     values[0] = ret;
     return true;
   } else if (p_mode == PG) {
+    values[0] = gridpack::ComplexType(p_ybusr, p_ybusi);
     if (p_ngen > 0) {
       for (int i = 0; i < p_ngen; i++) {
 	if(!p_gstatus[i]) continue;
@@ -249,6 +250,7 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
     }
     return true;
   } else if (p_mode == jxd) {
+    values[0] = gridpack::ComplexType(p_ybusr, p_ybusi);
     if (p_ngen > 0) {
       for (int i = 0; i < p_ngen; i++) {
 	if(!p_gstatus[i] || !p_generators.size()) continue;
-- 
2.43.0


From 95e45ba260bc66d47f2f9745dc272f6948f691f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:17 +0000
Subject: [PATCH 089/137] fix: line status changes were applied again at the
 next line event on some processes

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 654ee21..e6679f6 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3268,7 +3268,10 @@ bool gridpack::dynamic_simulation::DSFullBranch::matrixForwardValues(ComplexType
     return YMBranch::matrixForwardValues(values);
   } else if(p_mode == LINESTATUSCHANGE) {
     if(p_line_status_change) {
+      // Matrix change has been applied. Do not apply it again if reverse
+      // element is not located on this process
       values[0] = p_yft;
+      p_yft = gridpack::ComplexType(0.0,0.0);
       return true;
     } else return false;
   } else if (p_mode == posFY) {
-- 
2.43.0


From f602f0d9ac35a23fc520c0515e583cc72a751d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 090/137] fix: line status events left the shunt admittances of
 the line in the network

---
 .../dsf_components.cpp                        | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index e6679f6..61de837 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -4177,22 +4177,30 @@ void gridpack::dynamic_simulation::DSFullBranch::setLineStatus(std::string id, i
     gridpack::dynamic_simulation::DSFullBus *bus2
       = dynamic_cast<gridpack::dynamic_simulation::DSFullBus*>(getBus2().get());
 
+    // Change of the diagonal elements, including the shunt admittances at the
+    // two ends of the line
+    yii = YMBranch::getTransformer(bus1) + YMBranch::getAdmittance()
+      - YMBranch::getShunt(bus1);
+    yjj = YMBranch::getTransformer(bus2) + YMBranch::getAdmittance()
+      - YMBranch::getShunt(bus2);
+    YMBranch::setLineStatus(ckt_id,status);
+    yii -= YMBranch::getTransformer(bus1) + YMBranch::getAdmittance()
+      - YMBranch::getShunt(bus1);
+    yjj -= YMBranch::getTransformer(bus2) + YMBranch::getAdmittance()
+      - YMBranch::getShunt(bus2);
+    bus1->diagValuesInsertForLineStatusChange(yii);
+    bus2->diagValuesInsertForLineStatusChange(yjj);
+
+    /* Negative sign for removing these values */
     if(!status) {
-      /* Negative sign for removing these values */
       p_yft = -yij;
       p_ytf = -yji;
-      bus1->diagValuesInsertForLineStatusChange(-yii);
-      bus2->diagValuesInsertForLineStatusChange(-yjj);
     } else {
       p_yft = yij;
       p_ytf = yji;
-      bus1->diagValuesInsertForLineStatusChange(yii);
-      bus2->diagValuesInsertForLineStatusChange(yjj);
     }
 
     p_line_status_change = true;
-
-    YMBranch::setLineStatus(ckt_id,status);
   }
 }
   
-- 
2.43.0


From e2496d6dc951123afeec231d6a2e9b326b6b70fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 091/137] fix: the end of a bus fault cleared all faults and a
 second fault applied the first again

---
 .../dynamic_simulation_full_y/dsf_components.cpp | 16 ++++++++++++++--
 .../dynamic_simulation_full_y/dsf_components.hpp |  6 ++++++
 .../dynamic_simulation_full_y/dsf_events.cpp     |  1 +
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 61de837..ec7074c 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -21,6 +21,7 @@ gridpack::dynamic_simulation::DSFullBus::DSFullBus(void)
   p_shunt_gs = 0.0;
   p_shunt_bs = 0.0;
   p_busfault = false;
+  p_busfault_change = false;
   p_gfault = 0.0;
   p_bfault = 0.0;
   p_mode = YBUS;
@@ -94,16 +95,26 @@ gridpack::dynamic_simulation::DSFullBus::~DSFullBus(void)
 void gridpack::dynamic_simulation::DSFullBus::setFault(double gfault, double bfault)
 {
   p_busfault = true;
+  p_busfault_change = true;
   p_gfault = gfault;
   p_bfault = bfault;
 }
 
+/**
+ * mark fault on this bus for removal from Y-bus matrix
+ */
+void gridpack::dynamic_simulation::DSFullBus::endFault()
+{
+  p_busfault_change = p_busfault;
+}
+
 /**
  * clear fault
  */
 void gridpack::dynamic_simulation::DSFullBus::clearFault()
 {
   p_busfault = false;
+  p_busfault_change = false;
 }
 
 /**
@@ -276,8 +287,9 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
   } else if(p_mode == BUSFAULTON) {
     // Note this should be only used with
     // incrementMatrix method
-    if(p_busfault) {
+    if(p_busfault && p_busfault_change) {
       /* Fault on */
+      p_busfault_change = false;
       // Values to be added to Ybus
       // Note negative values since the current
       // flows out of the bus
@@ -288,7 +300,7 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
       return false;
     }
   } else if (p_mode == BUSFAULTOFF) {
-    if(p_busfault) {
+    if(p_busfault && p_busfault_change) {
       /* Fault off */
       p_ybusr += p_gfault;
       p_ybusi += p_bfault;
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
index 9cd3ecc..9016a6e 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
@@ -161,6 +161,11 @@ class DSFullBus
      */
   void setGenStatus(std::string id, int status);
 
+  /**
+   * mark fault on this bus for removal from Y-bus matrix
+   */
+  void endFault();
+
   /**
    * clear fault
    */
@@ -846,6 +851,7 @@ class DSFullBus
     std::vector<bool> p_downStartedMonitoring;
 
     bool p_busfault; // Flag for bus fault
+    bool p_busfault_change; // Flag for start or end of bus fault
 
     friend class boost::serialization::access;
 
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
index 3e818cf..d464df5 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
@@ -160,6 +160,7 @@ void gridpack::dynamic_simulation::DSFullApp::handleEvents()
 	bus_internal_idx = p_network->getLocalBusIndices(event.bus_idx);
 	if(bus_internal_idx.size()) {
 	  bus = dynamic_cast<gridpack::dynamic_simulation::DSFullBus*>(p_network->getBus(bus_internal_idx[0]).get());
+	  bus->endFault();
 	}
 	
 	// Update Ybus
-- 
2.43.0


From e6131875ab53afe1e8272d310a3b99b7360d1b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 092/137] fix: classical generators tripped in the first step
 lost their initial state

---
 .../dynamic_simulation_full_y/model_classes/classical.cpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
index a46770d..8dafe87 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
@@ -151,13 +151,13 @@ void gridpack::dynamic_simulation::ClassicalGenerator::init(double mag,
   ///real(p_mac_ang_s0) * 180 / p_PI, 
   ///real(p_mac_spd_s0) * 60);
   // Initialize other variables 
-  p_mac_ang_s1 = gridpack::ComplexType(0.0,0.0);
-  p_mac_spd_s1 = gridpack::ComplexType(0.0,0.0);
+  p_mac_ang_s1 = p_mac_ang_s0;
+  p_mac_spd_s1 = p_mac_spd_s0;
   p_dmac_ang_s0 = gridpack::ComplexType(0.0,0.0);
   p_dmac_spd_s0 = gridpack::ComplexType(0.0,0.0);
   p_dmac_ang_s1 = gridpack::ComplexType(0.0,0.0);
   p_dmac_spd_s1 = gridpack::ComplexType(0.0,0.0);
-  p_eprime_s1 = gridpack::ComplexType(0.0,0.0);
+  p_eprime_s1 = p_eprime_s0;
   p_INorton = gridpack::ComplexType(0.0,0.0);
 }
 
-- 
2.43.0


From 666eacd6c79c50195ac1db406b430a32c095ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 093/137] fix: closing a line of a branch without other lines
 in service changed only the diagonal

---
 .../dsf_components.cpp                        | 32 ++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index ec7074c..e3d2dd1 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3243,7 +3243,16 @@ bool gridpack::dynamic_simulation::DSFullBranch::matrixForwardSize(int *isize, i
 {
   if (p_mode == YBUS || p_mode == YL || p_mode == PG || p_mode == onFY || p_mode == posFY || p_mode == branch_trip_action
   || p_mode == jxd || p_mode == YDYNLOAD ||p_mode == bus_relay || p_mode == branch_relay || p_mode == LINESTATUSCHANGE || p_mode == GENSTATUSCHANGE) { 
-    return YMBranch::matrixForwardSize(isize,jsize);
+    // Include branches that are out of service since line elements can be
+    // closed by an event
+    gridpack::ymatrix::YMBus *bus1
+      = dynamic_cast<gridpack::ymatrix::YMBus*>(getBus1().get());
+    gridpack::ymatrix::YMBus *bus2
+      = dynamic_cast<gridpack::ymatrix::YMBus*>(getBus2().get());
+    if (bus1->isIsolated() || bus2->isIsolated()) return false;
+    *isize = 1;
+    *jsize = 1;
+    return true;
   } else {
     return false;
   }
@@ -3252,7 +3261,16 @@ bool gridpack::dynamic_simulation::DSFullBranch::matrixReverseSize(int *isize, i
 {
   if (p_mode == YBUS || p_mode == YL || p_mode == PG || p_mode == onFY || p_mode == posFY || p_mode == branch_trip_action
   || p_mode == jxd || p_mode == YDYNLOAD || p_mode == bus_relay || p_mode == branch_relay || p_mode == LINESTATUSCHANGE) { 
-    return YMBranch::matrixReverseSize(isize,jsize);
+    // Include branches that are out of service since line elements can be
+    // closed by an event
+    gridpack::ymatrix::YMBus *bus1
+      = dynamic_cast<gridpack::ymatrix::YMBus*>(getBus1().get());
+    gridpack::ymatrix::YMBus *bus2
+      = dynamic_cast<gridpack::ymatrix::YMBus*>(getBus2().get());
+    if (bus1->isIsolated() || bus2->isIsolated()) return false;
+    *isize = 1;
+    *jsize = 1;
+    return true;
   } else {
     return false;
   }
@@ -3277,7 +3295,10 @@ bool gridpack::dynamic_simulation::DSFullBranch::matrixForwardValues(ComplexType
 	//   bus2->getOriginalIndex(), real(values[0]), imag(values[0]));
 	//return bstatus;  
 	
-    return YMBranch::matrixForwardValues(values);
+    if (!YMBranch::matrixForwardValues(values)) {
+      values[0] = gridpack::ComplexType(0.0,0.0);
+    }
+    return true;
   } else if(p_mode == LINESTATUSCHANGE) {
     if(p_line_status_change) {
       // Matrix change has been applied. Do not apply it again if reverse
@@ -3340,7 +3361,10 @@ bool gridpack::dynamic_simulation::DSFullBranch::matrixReverseValues(ComplexType
 	//    bus2->getOriginalIndex(), real(values[0]), imag(values[0]));
 	// return bstatus;  
 	  
-    return YMBranch::matrixReverseValues(values);
+    if (!YMBranch::matrixReverseValues(values)) {
+      values[0] = gridpack::ComplexType(0.0,0.0);
+    }
+    return true;
   } else if (p_mode == LINESTATUSCHANGE) {
     if(p_line_status_change) {
       values[0] = p_ytf;
-- 
2.43.0


From 772942cf611cb145f72dc98d90e0b31099a44cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:35 +0000
Subject: [PATCH 094/137] fix: simulations whose length is not a multiple of
 the time step never ended

---
 .../modules/dynamic_simulation_full_y/dsf_app_module2.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
index 78a3217..e651b05 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
@@ -401,7 +401,7 @@ void gridpack::dynamic_simulation::DSFullApp::setGenStatus(int bus_idx, std::str
 **/
 void gridpack::dynamic_simulation::DSFullApp::run(double tend)
 {
-  while(fabs(tend - p_current_time) > 1e-6) {
+  while(tend - p_current_time > 1e-6) {
 
     // Process events
     handleEvents();
-- 
2.43.0


From c95dcd245d937439db1b98ea07f60223a557fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 095/137] fix: GAST and HYGOV governors never received the
 speed deviation

---
 .../modules/dynamic_simulation_full_y/model_classes/gast.cpp    | 2 +-
 .../modules/dynamic_simulation_full_y/model_classes/hygov.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp
index 5e8a8dd..6f04b1f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/gast.cpp
@@ -164,7 +164,7 @@ void gridpack::dynamic_simulation::GastModel::setMechanicalPower(double pmech)
  */
 void gridpack::dynamic_simulation::GastModel::setRotorSpeedDeviation(double delta_w)
 {
-  delta_w = delta_w;
+  this->delta_w = delta_w;
 }
 
 /** 
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
index 6c3c8b7..61b8d05 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
@@ -168,7 +168,7 @@ void gridpack::dynamic_simulation::HygovModel::setMechanicalPower(double pmech)
  */
 void gridpack::dynamic_simulation::HygovModel::setRotorSpeedDeviation(double delta_w)
 {
-  delta_w = delta_w;
+  this->delta_w = delta_w;
 }
 
 /** 
-- 
2.43.0


From b3a50bc0e359f738d78f78d0043ab4f253b20a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 096/137] fix: head of the HYGOV turbine was inverted and
 unstable

---
 .../modules/dynamic_simulation_full_y/model_classes/hygov.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
index 61b8d05..1c26bb0 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/hygov.cpp
@@ -115,7 +115,7 @@ void gridpack::dynamic_simulation::HygovModel::predictor(double t_inc, bool flag
 
   double turbine_flow_block_in,h;
 
-  h = opening_block_out/turbine_flow_block_out;
+  h = turbine_flow_block_out/opening_block_out;
   h = h*h;
 
   turbine_flow_block_in = 1 - h;
@@ -142,7 +142,7 @@ void gridpack::dynamic_simulation::HygovModel::corrector(double t_inc, bool flag
 
   double turbine_flow_block_in,h;
 
-  h = opening_block_out/turbine_flow_block_out;
+  h = turbine_flow_block_out/opening_block_out;
   h = h*h;
 
   turbine_flow_block_in = 1 - h;
-- 
2.43.0


From 651ac99e8aeb9bc09fd67678d09c62afa9660e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 097/137] fix: lead-lag block of EXDC1 used the regulator time
 constant TA in place of TC

---
 .../modules/dynamic_simulation_full_y/model_classes/exdc1.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp
index e6c177c..0e7f80e 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/exdc1.cpp
@@ -95,7 +95,7 @@ void gridpack::dynamic_simulation::Exdc1Model::load(
   }
 
   if(has_leadlag) {
-    Leadlag_blk.setparams(TA,TB);
+    Leadlag_blk.setparams(TC,TB);
   }
 
   if(!zero_TA) {
-- 
2.43.0


From b4dc03ad1fb8e1650dd625ae382529af7709f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 098/137] fix: second lead-lag block of ESST1A was bypassed

---
 .../modules/dynamic_simulation_full_y/model_classes/esst1a.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
index 7913906..94370bb 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
@@ -241,7 +241,7 @@ void gridpack::dynamic_simulation::Esst1aModel::computeModel(double t_inc,Integr
   if (zero_TA) {
     VA = Regulator_gain_blk.getoutput(VLL1);
   } else {
-    VA = Regulator_blk.getoutput(VLL, t_inc, int_flag, true);
+    VA = Regulator_blk.getoutput(VLL1, t_inc, int_flag, true);
   }
 
   double u1 = 0.0;
-- 
2.43.0


From a4f38561457b6d0e66b6ca9752cfd029828e1c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 099/137] fix: GENSAL machines without saturation gave NaN

---
 .../modules/dynamic_simulation_full_y/model_classes/gensal.cpp  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
index c4f25c8..b62fabd 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
@@ -95,6 +95,8 @@ void gridpack::dynamic_simulation::GensalGenerator::load(
  */
 double gridpack::dynamic_simulation::GensalGenerator::Sat(double x)
 {
+  if (fabs(S10*S12) < 1e-6) return 0.0; // no saturation
+
   double a_ = S12 / S10 - 1.0;
   double b_ = -2 * S12 / S10 + 2.4;
   double c_ = S12 / S10 - 1.44;
-- 
2.43.0


From d55656b397c6164a0cdb9807f2f2cd249658ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 100/137] fix: WSIEG1 ignored the governor lag T1 when T2 is
 zero

---
 .../dynamic_simulation_full_y/model_classes/wsieg1.cpp      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp
index 22b7238..d68294f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp
@@ -88,7 +88,7 @@ void gridpack::dynamic_simulation::Wsieg1Model::load(
   if (!data->getValue(GOVERNOR_IBLOCK, &Iblock, idx)) Iblock = 0.0; // Iblock
 
   Db1_blk.setparams(Db1, Err);
-  if(T1 != 0 && T2 != 0) {
+  if(T1 != 0) {
     Leadlag_blk.setparams(T2, T1);
   }
 
@@ -197,7 +197,7 @@ void gridpack::dynamic_simulation::Wsieg1Model::init(double mag, double ang, dou
 
   GV0 = GV;
   
-  if(T1 != 0 && T2 != 0) {
+  if(T1 != 0) {
     u1 = Leadlag_blk.init_given_y(0.0);
   }
 
@@ -215,7 +215,7 @@ void gridpack::dynamic_simulation::Wsieg1Model::computeModel(double t_inc,Integr
   y1 = u1;
 
   u2 = y1 * K;
-  if(T1 == 0 || T2 == 0) {
+  if(T1 == 0) {
     y2 = u2;
   } else {
     y2 = Leadlag_blk.getoutput(u2, t_inc, int_flag, true);
-- 
2.43.0


From ed87975047e1465677672678be0eadba59cc6aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:40 +0000
Subject: [PATCH 101/137] fix: T3, GV5 and IBLOCK of WSIEG1 were stored under
 other names or values

---
 src/parser/parser_classes/wsieg1.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser_classes/wsieg1.hpp b/src/parser/parser_classes/wsieg1.hpp
index dc61689..9794fa8 100644
--- a/src/parser/parser_classes/wsieg1.hpp
+++ b/src/parser/parser_classes/wsieg1.hpp
@@ -95,7 +95,7 @@ template <class _data_struct> class Wsieg1Parser
 
       // GOVERNOR_T3
       if (!data->getValue(GOVERNOR_T3,&rval,g_id)) {
-        data->addValue(GOVERNOR_T3, data_struct.gv_t2, g_id);
+        data->addValue(GOVERNOR_T3, data_struct.gv_t3, g_id);
       } else {
         data->setValue(GOVERNOR_T3, data_struct.gv_t3, g_id);
       }
@@ -711,7 +711,7 @@ template <class _data_struct> class Wsieg1Parser
           data->addValue(GOVERNOR_GV5,
               atof(split_line[36].c_str()), g_id);
         } else {
-          data->setValue(GOVERNOR_GV4,
+          data->setValue(GOVERNOR_GV5,
               atof(split_line[36].c_str()), g_id);
         }
       } 
@@ -730,7 +730,7 @@ template <class _data_struct> class Wsieg1Parser
       // GOVERNOR_IBLOCK
       if (nstr > 38) {
         if (!data->getValue(GOVERNOR_IBLOCK,&ival,g_id)) {
-          data->addValue(GOVERNOR_PGV5,
+          data->addValue(GOVERNOR_IBLOCK,
               atoi(split_line[38].c_str()), g_id);
         } else {
           data->setValue(GOVERNOR_IBLOCK,
-- 
2.43.0


From 024eaba2fb850842f4058f69da7a4d86dc34b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:40 +0000
Subject: [PATCH 102/137] fix: ESST1A without transducer or regulator lag did
 not start in equilibrium

---
 .../dynamic_simulation_full_y/model_classes/esst1a.cpp      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
index 94370bb..a7615c9 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
@@ -182,7 +182,8 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
     if (VA > Vamax) Vamax = VA+0.1;
     if (VA < Vamin) Vamin = VA-0.1;
   }
-  VLL1 = Regulator_blk.init_given_y(VA);
+  if (!zero_TA) VLL1 = Regulator_blk.init_given_y(VA);
+  else VLL1 = VA/Ka;
 
 
   VLL = Leadlag_blkBC1.init_given_y(VLL1);
@@ -202,7 +203,8 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
   double Vop = 0.0;
   if (UEL == 1.0) Vop += Vuel;
   if (VOS == 1.0) Vop += Vothsg;
-  Vmeas = Filter_blkR.init_given_u(Vcomp);
+  if (!zero_TR) Vmeas = Filter_blkR.init_given_u(Vcomp);
+  else Vmeas = Vcomp;
   Vref = u1 + Vmeas - Vop + Vf;
 
 }
-- 
2.43.0


From 4d11c92ea1df87556c36b431af84d5456f793ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:45 +0000
Subject: [PATCH 103/137] fix: armature resistance of GENROU and GENSAL
 machines was never read

---
 .../dynamic_simulation_full_y/model_classes/genrou.cpp       | 5 ++++-
 .../dynamic_simulation_full_y/model_classes/gensal.cpp       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/genrou.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/genrou.cpp
index 65c08c9..4e53b08 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/genrou.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/genrou.cpp
@@ -89,7 +89,10 @@ void gridpack::dynamic_simulation::GenrouGenerator::load(
   if (!data->getValue(GENERATOR_MBASE, &MBase, idx)) MBase = 0.0; // MBase
   if (!data->getValue(GENERATOR_INERTIA_CONSTANT_H, &H, idx)) H = 0.0; // H
   if (!data->getValue(GENERATOR_DAMPING_COEFFICIENT_0, &D, idx)) D = 0.0; // D
-  if (!data->getValue(GENERATOR_RESISTANCE, &Ra, idx)) Ra=0.0; // Ra
+  if (!data->getValue(GENERATOR_RESISTANCE, &Ra, idx)) { // Ra
+    gridpack::ComplexType zsource;
+    Ra = data->getValue(GENERATOR_ZSOURCE, &zsource, idx) ? real(zsource) : 0.0;
+  }
   if (!data->getValue(GENERATOR_XD, &Xd, idx)) Xd=0.0; // Xd
   if (!data->getValue(GENERATOR_XQ, &Xq, idx)) Xq=0.0; // Xq
   if (!data->getValue(GENERATOR_XDP, &Xdp, idx)) Xdp=0.0; // Xdp
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
index b62fabd..cbf6f7f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
@@ -71,7 +71,10 @@ void gridpack::dynamic_simulation::GensalGenerator::load(
   if (!data->getValue(GENERATOR_MBASE, &MBase, idx)) MBase = 0.0; // MBase
   if (!data->getValue(GENERATOR_INERTIA_CONSTANT_H, &H, idx)) H = 0.0; // H
   if (!data->getValue(GENERATOR_DAMPING_COEFFICIENT_0, &D, idx)) D = 0.0; // D
-  if (!data->getValue(GENERATOR_RESISTANCE, &Ra, idx)) Ra=0.0; // Ra
+  if (!data->getValue(GENERATOR_RESISTANCE, &Ra, idx)) { // Ra
+    gridpack::ComplexType zsource;
+    Ra = data->getValue(GENERATOR_ZSOURCE, &zsource, idx) ? real(zsource) : 0.0;
+  }
   if (!data->getValue(GENERATOR_XD, &Xd, idx)) Xd=0.0; // Xd
   if (!data->getValue(GENERATOR_XQ, &Xq, idx)) Xq=0.0; // Xq
   if (!data->getValue(GENERATOR_XDP, &Xdp, idx)) Xdp=0.0; // Xdp
-- 
2.43.0


From c28397a96d674cb6fcdff72ec7384ac3b9556ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:45 +0000
Subject: [PATCH 104/137] fix: regulator of ESST1A was limited by VRMIN and
 VRMAX in place of VAMIN and VAMAX

---
 .../model_classes/esst1a.cpp                      | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
index a7615c9..669918c 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
@@ -132,12 +132,6 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
   Leadlag_blkBC.setparams(Tc, Tb);
   Leadlag_blkBC1.setparams(Tc1, Tb1);
 
-  if(!zero_TA) {
-    Regulator_blk.setparams(Ka,Ta,Vrmin,Vrmax,-1000.0,1000.0);
-  } else {
-    Regulator_gain_blk.setparams(Ka,Vrmin,Vrmax);
-  }
-
   HVGate_blk2.setparams(Vuel); // UEL is Vuel?
   LVGate_blk.setparams(Voel); // Where to read Voel from? Set it by funciton call as Vuel?
 
@@ -182,8 +176,13 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
     if (VA > Vamax) Vamax = VA+0.1;
     if (VA < Vamin) Vamin = VA-0.1;
   }
-  if (!zero_TA) VLL1 = Regulator_blk.init_given_y(VA);
-  else VLL1 = VA/Ka;
+  if (!zero_TA) {
+    Regulator_blk.setparams(Ka,Ta,Vamin,Vamax,-1000.0,1000.0);
+    VLL1 = Regulator_blk.init_given_y(VA);
+  } else {
+    Regulator_gain_blk.setparams(Ka,Vamin,Vamax);
+    VLL1 = VA/Ka;
+  }
 
 
   VLL = Leadlag_blkBC1.init_given_y(VLL1);
-- 
2.43.0


From 62ab4cf04adea5403ea2153f3f323af4d0579e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 105/137] fix: valve speed limits of WSIEG1 were widened to the
 initial valve position

---
 .../modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp  | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp
index d68294f..2c1bcf5 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/wsieg1.cpp
@@ -191,8 +191,6 @@ void gridpack::dynamic_simulation::Wsieg1Model::init(double mag, double ang, dou
   if (OptionToModifyLimitsForInitialStateLimitViolation) {
     if (GV > Pmax) Pmax = GV+0.1;
     if (GV < Pmin) Pmin = GV-0.1;
-	if (GV > Uo) Uo = GV+0.1;
-    if (GV < Uc) Uc = GV-0.1;
   }
 
   GV0 = GV;
-- 
2.43.0


From 779431930883e3d5e10bbb1f9873a0e13e8d87d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 106/137] fix: NQ1, NQ2 and UVTR2 of ACMTBLU1 records got the
 values of other fields

---
 src/parser/parser_classes/acmtblu1.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/parser_classes/acmtblu1.hpp b/src/parser/parser_classes/acmtblu1.hpp
index 863fc61..fbe3bcd 100644
--- a/src/parser/parser_classes/acmtblu1.hpp
+++ b/src/parser/parser_classes/acmtblu1.hpp
@@ -144,9 +144,9 @@ template <class _data_struct> class Acmtblu1Parser
 
       // LOAD_NQ1
       if (!data->getValue(LOAD_NQ1,&rval,l_id)) {
-        data->addValue(LOAD_NQ1, data_struct.kq1, l_id);
+        data->addValue(LOAD_NQ1, data_struct.nq1, l_id);
       } else {
-        data->setValue(LOAD_NQ1, data_struct.kq1, l_id);
+        data->setValue(LOAD_NQ1, data_struct.nq1, l_id);
       }
 
       // LOAD_KP2
@@ -172,9 +172,9 @@ template <class _data_struct> class Acmtblu1Parser
 
       // LOAD_NQ2
       if (!data->getValue(LOAD_NQ2,&rval,l_id)) {
-        data->addValue(LOAD_NQ2, data_struct.kq2, l_id);
+        data->addValue(LOAD_NQ2, data_struct.nq2, l_id);
       } else {
-        data->setValue(LOAD_NQ2, data_struct.kq2, l_id);
+        data->setValue(LOAD_NQ2, data_struct.nq2, l_id);
       }
 
       // LOAD_VBRK
@@ -626,12 +626,12 @@ template <class _data_struct> class Acmtblu1Parser
         }
       }
 
-      // LOAD_UVTR1
+      // LOAD_UVTR2
       if (nstr > 44) {
-        if (!data->getValue(LOAD_UVTR1,&rval,l_id)) {
-          data->addValue(LOAD_UVTR1, atof(split_line[44].c_str()), l_id);
+        if (!data->getValue(LOAD_UVTR2,&rval,l_id)) {
+          data->addValue(LOAD_UVTR2, atof(split_line[44].c_str()), l_id);
         } else {
-          data->setValue(LOAD_UVTR1, atof(split_line[44].c_str()), l_id);
+          data->setValue(LOAD_UVTR2, atof(split_line[44].c_str()), l_id);
         }
       }
 
-- 
2.43.0


From 7a174e2c1906ef967603e4ea0ee9f363a75ce3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 107/137] fix: X1 and E2 of CIM6BL records got the values of
 other fields

---
 src/parser/parser_classes/cim6bl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/parser_classes/cim6bl.hpp b/src/parser/parser_classes/cim6bl.hpp
index cefec2d..fdb3535 100644
--- a/src/parser/parser_classes/cim6bl.hpp
+++ b/src/parser/parser_classes/cim6bl.hpp
@@ -88,9 +88,9 @@ template <class _data_struct> class Cim6blParser
 
       // LOAD_X1
       if (!data->getValue(LOAD_X1,&rval,l_id)) {
-        data->addValue(LOAD_X1, data_struct.r1, l_id);
+        data->addValue(LOAD_X1, data_struct.x1, l_id);
       } else {
-        data->setValue(LOAD_X1, data_struct.r1, l_id);
+        data->setValue(LOAD_X1, data_struct.x1, l_id);
       }
 
       // LOAD_R2
@@ -123,9 +123,9 @@ template <class _data_struct> class Cim6blParser
 
       // LOAD_E2
       if (!data->getValue(LOAD_E2,&rval,l_id)) {
-        data->addValue(LOAD_E2, data_struct.se2, l_id);
+        data->addValue(LOAD_E2, data_struct.e2, l_id);
       } else {
-        data->setValue(LOAD_E2, data_struct.se2, l_id);
+        data->setValue(LOAD_E2, data_struct.e2, l_id);
       }
 
       // LOAD_SE2
-- 
2.43.0


From d86bebc84b27cf5d434332c1db7ab81d48f3a83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 108/137] fix: TTR1 and UVTR2 of CMLDBLU1 records got other
 names or values

---
 src/parser/parser_classes/cmldblu1.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser_classes/cmldblu1.hpp b/src/parser/parser_classes/cmldblu1.hpp
index 76f9bd2..472a5e8 100644
--- a/src/parser/parser_classes/cmldblu1.hpp
+++ b/src/parser/parser_classes/cmldblu1.hpp
@@ -963,16 +963,16 @@ template <class _data_struct> class Cmldblu1Parser
 
       // LOAD_TTR1
       if (!data->getValue(LOAD_TTR1,&rval,l_id)) {
-        data->addValue(LOAD_TTR1, data_struct.ttr2, l_id);
+        data->addValue(LOAD_TTR1, data_struct.ttr1, l_id);
       } else {
-        data->setValue(LOAD_TTR1, data_struct.ttr2, l_id);
+        data->setValue(LOAD_TTR1, data_struct.ttr1, l_id);
       }
 
       // LOAD_UVTR2
       if (!data->getValue(LOAD_UVTR2,&rval,l_id)) {
         data->addValue(LOAD_UVTR2, data_struct.uvtr2, l_id);
       } else {
-        data->setValue(LOAD_VC2ON, data_struct.uvtr2, l_id);
+        data->setValue(LOAD_UVTR2, data_struct.uvtr2, l_id);
       }
 
       // LOAD_TTR2
-- 
2.43.0


From a843d0521783ab1ef0a162be67e68c8a01e85f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 109/137] fix: zone 3 time of DISTR1 relays was the zone 2 time

---
 src/parser/parser_classes/distr1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser_classes/distr1.hpp b/src/parser/parser_classes/distr1.hpp
index 007e325..7afc8ce 100644
--- a/src/parser/parser_classes/distr1.hpp
+++ b/src/parser/parser_classes/distr1.hpp
@@ -208,9 +208,9 @@ template <class _data_struct> class Distr1Parser
 
       // RELAY_ZONE3_TIME
       if (!data->getValue(RELAY_ZONE3_TIME,&rval,r_id)) {
-        data->addValue(RELAY_ZONE3_TIME, data_struct.zone2_time, r_id);
+        data->addValue(RELAY_ZONE3_TIME, data_struct.zone3_time, r_id);
       } else {
-        data->setValue(RELAY_ZONE3_TIME, data_struct.zone2_time, r_id);
+        data->setValue(RELAY_ZONE3_TIME, data_struct.zone3_time, r_id);
       }
 
       // RELAY_ZONE3_REACH
-- 
2.43.0


From fc241a680300091c8ca537a7612304e8d00cb054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 110/137] fix: rereading GDFORM and GENROU records took MP and
 XQ from other fields

---
 src/parser/parser_classes/gdform.hpp | 2 +-
 src/parser/parser_classes/genrou.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser_classes/gdform.hpp b/src/parser/parser_classes/gdform.hpp
index 6e83f1f..7eea9fa 100644
--- a/src/parser/parser_classes/gdform.hpp
+++ b/src/parser/parser_classes/gdform.hpp
@@ -240,7 +240,7 @@ template <class _data_struct> class GdformParser
         if (!data->getValue(GENERATOR_MP,&rval,g_id)) {
           data->addValue(GENERATOR_MP, atof(split_line[6].c_str()), g_id);
         } else {
-          data->setValue(GENERATOR_MP, atof(split_line[10].c_str()), g_id);
+          data->setValue(GENERATOR_MP, atof(split_line[6].c_str()), g_id);
         }
       } 
 
diff --git a/src/parser/parser_classes/genrou.hpp b/src/parser/parser_classes/genrou.hpp
index 3475803..903e58e 100644
--- a/src/parser/parser_classes/genrou.hpp
+++ b/src/parser/parser_classes/genrou.hpp
@@ -278,7 +278,7 @@ template <class _data_struct> class GenrouParser
               atof(split_line[10].c_str()), g_id);
         } else {
           data->setValue(GENERATOR_XQ,
-              atof(split_line[9].c_str()), g_id);
+              atof(split_line[10].c_str()), g_id);
         }
       } 
 
-- 
2.43.0


From 73b929fa58946c0190aa69db3fb5d7e675a5006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 111/137] fix: parameters missing at the end of a .dyr record
 were undefined

---
 src/parser/base_pti_parser.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index d3f5532..78236ec 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -1802,7 +1802,7 @@ class BasePTIParser : public BaseParser<_network>
         util.toUpper(sval);
 
         if (onGenerator(sval)) {
-          gen_params data;
+          gen_params data = gen_params();
 
           // GENERATOR_BUSNUMBER               "I"                   integer
           int o_idx;
@@ -1908,14 +1908,14 @@ class BasePTIParser : public BaseParser<_network>
           // RELAY_BUSNUMBER               "I"                   integer
           int o_idx;
           if (sval == "LVSHBL") {
-            bus_relay_params data;
+            bus_relay_params data = bus_relay_params();
             o_idx = atoi(split_line[0].c_str());
             data.bus_id = o_idx;
             LvshblParser<bus_relay_params> parser;
             parser.store(split_line,data);
             bus_relay_vector->push_back(data);
           } else if (sval == "FRQTPAT") {
-            bus_relay_params data;
+            bus_relay_params data = bus_relay_params();
             o_idx = atoi(split_line[3].c_str());
             data.bus_id = o_idx;
             FrqtpatParser<bus_relay_params> parser;
@@ -1924,7 +1924,7 @@ class BasePTIParser : public BaseParser<_network>
           }
         } else if (onLoad(sval)) {
           // ID of bus that owns load
-          load_params data;
+          load_params data = load_params();
           int o_idx = atoi(split_line[0].c_str());
           data.bus_id = o_idx;
 
@@ -1950,7 +1950,7 @@ class BasePTIParser : public BaseParser<_network>
           }
           load_vector->push_back(data);
         } else if (onBranch(sval)) {
-          branch_relay_params data;
+          branch_relay_params data = branch_relay_params();
 
           int from_idx, to_idx;
           if (sval == "DISTR1") {
-- 
2.43.0


From 5616a73b6b1e1499ba821bcce9479e9c938ad529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 112/137] fix: parameters on both sides of a line break in a
 .dyr record were joined, and a record without end hung

---
 src/parser/base_pti_parser.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index 78236ec..7827503 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -1528,9 +1528,10 @@ class BasePTIParser : public BaseParser<_network>
 
         std::string record = line;
         idx = line.find('/');
-        while (idx == std::string::npos) {
-          std::getline(input,line);
+        while (idx == std::string::npos && std::getline(input,line)) {
           idx = line.find('/');
+          // end of line separates parameters
+          record.append(" ");
           record.append(line);
         }
         idx = record.find('/');
@@ -1787,9 +1788,10 @@ class BasePTIParser : public BaseParser<_network>
 
         std::string record = line;
         idx = line.find('/');
-        while (idx == std::string::npos) {
-          std::getline(input,line);
+        while (idx == std::string::npos && std::getline(input,line)) {
           idx = line.find('/');
+          // end of line separates parameters
+          record.append(" ");
           record.append(line);
         }
         idx = record.find('/');
-- 
2.43.0


From 4bdd8e01f05115721b6ca507c14f20d27c35e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 113/137] fix: DISTR1 relay records were attached by the relay
 id instead of the second bus of their branch

---
 src/parser/base_pti_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index 7827503..e347af3 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -1957,7 +1957,7 @@ class BasePTIParser : public BaseParser<_network>
           int from_idx, to_idx;
           if (sval == "DISTR1") {
             from_idx = atoi(split_line[0].c_str());
-            to_idx = atoi(split_line[3].c_str());
+            to_idx = atoi(split_line[2].c_str());
             data.from_bus = from_idx;
             data.to_bus = to_idx;
             Distr1Parser<branch_relay_params> parser;
-- 
2.43.0


From a3367d19c68d3309d14a33bb219905f7ac08f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:05 +0000
Subject: [PATCH 114/137] fix: device records after a bare comment line, or in
 files with CR LF line ends, were misread

---
 src/parser/base_pti_parser.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index e347af3..4b5263d 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -20,6 +20,7 @@
 
 #define OLD_MAP
 
+#include <algorithm>
 #include <iostream>
 #include <string>
 #include <vector>
@@ -1776,15 +1777,11 @@ class BasePTIParser : public BaseParser<_network>
       gen_vector->clear();
       while(std::getline(input,line)) {
         // Check to see if line is blank
-        int idx = line.find_first_not_of(' ');
-	int idx2 = line.find_first_not_of('\r'); // Some systems use \r\n for line ends.
-        if (idx == std::string::npos || idx2 == std::string::npos) continue;
+        // (some systems use \r\n for line ends)
+        int idx = line.find_first_not_of(" \r");
+        if (idx == std::string::npos) continue;
         // Check to see if line is a comment
-        if (line[idx] == '/') {
-          if (line.length() > idx+2 && line[idx+1] == '/') {
-            continue;
-          }
-        }
+        if (line[idx] == '/') continue;
 
         std::string record = line;
         idx = line.find('/');
@@ -1796,6 +1793,7 @@ class BasePTIParser : public BaseParser<_network>
         }
         idx = record.find('/');
         if (idx != std::string::npos) record.erase(idx,record.length()-idx);
+        std::replace(record.begin(),record.end(),'\r',' ');
         std::vector<std::string>  split_line;
         split_line = splitPSSELine(record);
         std::string sval;
-- 
2.43.0


From 4e9f95e6b651cb635f23c2cd156679fbd4573c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:09 +0000
Subject: [PATCH 115/137] fix: DAE solver counts and limits the steps of each
 solve() separately

PETSc's step number and step limit run over all TSSolve calls on one TS, so
every solve() after the first was allowed fewer steps (none at all with the
number returned by the previous one), and reported the total.
---
 src/math/petsc/petsc_dae_solver_implementation.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/math/petsc/petsc_dae_solver_implementation.hpp b/src/math/petsc/petsc_dae_solver_implementation.hpp
index aa1334a..4e5d60e 100644
--- a/src/math/petsc/petsc_dae_solver_implementation.hpp
+++ b/src/math/petsc/petsc_dae_solver_implementation.hpp
@@ -211,7 +211,10 @@ protected:
   {
     PetscErrorCode ierr(0);
     try {
-      ierr = TSSetMaxSteps(p_ts, maxsteps); CHKERRXX(ierr);
+      // PETSc counts (and limits) the steps of all calls together
+      PetscInt nstart;
+      ierr = TSGetStepNumber(p_ts, &nstart); CHKERRXX(ierr);
+      ierr = TSSetMaxSteps(p_ts, nstart + maxsteps); CHKERRXX(ierr);
       ierr = TSSetMaxTime(p_ts, maxtime); CHKERRXX(ierr);
       ierr = TSSetExactFinalTime(p_ts, TS_EXACTFINALTIME_MATCHSTEP); CHKERRXX(ierr); 
       ierr = TSSolve(p_ts, PETSC_NULL);
@@ -225,7 +228,7 @@ protected:
 
       PetscInt nstep;
       ierr = TSGetStepNumber(p_ts,&nstep);CHKERRXX(ierr);
-      maxsteps = nstep;
+      maxsteps = nstep - nstart;
 
       if (reason >= 0) {
 
-- 
2.43.0


From f5736f557adcc0674178e821f477c10b4b2c243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 116/137] fix: DAE solver keeps its step size after an event

TSSetEventHandler takes the step used after an event from the TS, which has
PETSc's default (0.1) at that point; the step given to initialize() came later.
---
 src/math/petsc/petsc_dae_solver_implementation.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/petsc/petsc_dae_solver_implementation.hpp b/src/math/petsc/petsc_dae_solver_implementation.hpp
index 4e5d60e..19b5828 100644
--- a/src/math/petsc/petsc_dae_solver_implementation.hpp
+++ b/src/math/petsc/petsc_dae_solver_implementation.hpp
@@ -197,6 +197,10 @@ protected:
     try {
       ierr = TSSetTime(p_ts, t0); CHKERRXX(ierr);
       ierr = TSSetTimeStep(p_ts, deltat0); CHKERRXX(ierr);
+      if (this->p_eventManager) {
+        // otherwise the steps after an event have PETSc's default size
+        ierr = TSSetPostEventIntervalStep(p_ts, deltat0); CHKERRXX(ierr);
+      }
       Vec *xvec(PETScVector(x0));
       ierr = TSSetSolution(p_ts, *xvec);
     } catch (const PETSC_EXCEPTION_TYPE& e) {
-- 
2.43.0


From 367c53009ad9c3684bb0e9bc34c312fa0183c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:25 +0000
Subject: [PATCH 117/137] fix: PiecewiseSlope works for decreasing points and
 can be set again

With points in decreasing order no segment ever contained the input and the
slopes were set up backwards, so the output was uninitialised; a second
setparams() appended to the points of the first and ran over the arrays;
init_given_y() looked only for increasing values and divided by zero on
level segments.
---
 .../dynamic_simulation_full_y/dblock.cpp        | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dblock.cpp b/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
index ba150ea..960cb90 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
@@ -146,6 +146,9 @@ void PiecewiseSlope::setparams(int n, double *uin, double *yin)
   double u[2],y[2],ya,yb;
   int    i;
 
+  // Forget the points of an earlier call
+  p_n = 0;
+
   // Check the slope direction - increasing or decreasing
   if(uin[1] > uin[0]) p_increasing = true;
   else p_increasing = false;
@@ -158,7 +161,14 @@ void PiecewiseSlope::setparams(int n, double *uin, double *yin)
       p_y[p_n]   = yin[i];
       p_y[p_n+1] = yin[i+1];
 
-      p_slopes[p_n].setparams(p_u+p_n,p_y+p_n,p_y[p_n],p_y[p_n+1]);
+      // A slope expects its points in increasing order
+      if(p_increasing) {
+        p_slopes[p_n].setparams(p_u+p_n,p_y+p_n,p_y[p_n],p_y[p_n+1]);
+      } else {
+        u[0] = p_u[p_n+1]; u[1] = p_u[p_n];
+        y[0] = p_y[p_n+1]; y[1] = p_y[p_n];
+        p_slopes[p_n].setparams(u,y,y[0],y[1]);
+      }
       p_n++;
     }
   }
@@ -175,7 +185,7 @@ double PiecewiseSlope::getoutput(double u)
   if(!p_increasing && u <= p_u[p_n]) yout = p_y[p_n];
 
   for(i=0; i < p_n; i++) {
-    if(p_u[i] <= u && u <= p_u[i+1]) {
+    if((p_u[i] <= u && u <= p_u[i+1]) || (p_u[i+1] <= u && u <= p_u[i])) {
       yout = p_slopes[i].getoutput(u);
     }
   }
@@ -194,7 +204,8 @@ double PiecewiseSlope::init_given_y(double yout)
   if(!p_increasing && yout <= p_y[p_n]) u = p_u[p_n];
 
   for (i=0; i<p_n; i++) {
-    if (p_y[i] <= yout && yout <= p_y[i+1]) {
+    if ((p_y[i] <= yout && yout <= p_y[i+1] && p_y[i] < p_y[i+1]) ||
+        (p_y[i+1] <= yout && yout <= p_y[i] && p_y[i+1] < p_y[i])) {
       u = p_u[i] + (p_u[i+1] - p_u[i]) / (p_y[i+1] - p_y[i]) * (yout - p_y[i]);
     }
   }
-- 
2.43.0


From 14f7539944c040f5e9ec2abc107003f5b3d5fb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:29 +0000
Subject: [PATCH 118/137] fix: ESST1A passes its input on where a lead-lag or
 feedback time constant is zero

---
 .../model_classes/esst1a.cpp                  | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
index 669918c..4790b57 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
@@ -129,8 +129,8 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
 
   HVGate_blk1.setparams(Vuel); // is UEL Vuel?
 
-  Leadlag_blkBC.setparams(Tc, Tb);
-  Leadlag_blkBC1.setparams(Tc1, Tb1);
+  if (!zero_TB) Leadlag_blkBC.setparams(Tc, Tb);
+  if (!zero_TB1) Leadlag_blkBC1.setparams(Tc1, Tb1);
 
   HVGate_blk2.setparams(Vuel); // UEL is Vuel?
   LVGate_blk.setparams(Voel); // Where to read Voel from? Set it by funciton call as Vuel?
@@ -138,11 +138,12 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
   double a[2], b[2];
   a[0] = Tf; a[1] = 1.0;
   b[0] = Kf; b[1] = 0.0;
-  Feedback_blkF.setcoeffs(a, b);
+  if (!zero_TF) Feedback_blkF.setcoeffs(a, b);
   
   Vterm = mag;
   
-  Vf = Feedback_blkF.init_given_u(Efd);
+  if (!zero_TF) Vf = Feedback_blkF.init_given_u(Efd);
+  else Vf = 0.0;
   
   if (OptionToModifyLimitsForInitialStateLimitViolation) {
     if (Efd > (Vterm * Vrmax - Kc * LadIfd)) Vrmax = (Efd + Kc * LadIfd) / Vterm+0.21;
@@ -185,8 +186,10 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
   }
 
 
-  VLL = Leadlag_blkBC1.init_given_y(VLL1);
-  double u1 = Leadlag_blkBC.init_given_y(VLL);
+  if (!zero_TB1) VLL = Leadlag_blkBC1.init_given_y(VLL1);
+  else VLL = VLL1;
+  double u1 = VLL;
+  if (!zero_TB) u1 = Leadlag_blkBC.init_given_y(VLL);
 
   // HV Gate?
   // assume HV gate always take feedforward path during initialization, may need to adjust Vuel
@@ -224,7 +227,8 @@ void gridpack::dynamic_simulation::Esst1aModel::computeModel(double t_inc,Integr
   if (VOS == 1.0) Vop += Vothsg;
   double Verr = Vref - Vmeas + Vop;
 
-  Vf = Feedback_blkF.getoutput(Efd, t_inc, int_flag, true);
+  if (!zero_TF) Vf = Feedback_blkF.getoutput(Efd, t_inc, int_flag, true);
+  else Vf = 0.0;
 
   double leadlag_blk_in = Verr - Vf;
 
@@ -235,9 +239,11 @@ void gridpack::dynamic_simulation::Esst1aModel::computeModel(double t_inc,Integr
 
   if (UEL == 2.0) leadlag_blk_in = HVGate_blk1.getoutput(leadlag_blk_in);
 
-  VLL = Leadlag_blkBC.getoutput(leadlag_blk_in, t_inc, int_flag, true);
+  if (!zero_TB) VLL = Leadlag_blkBC.getoutput(leadlag_blk_in, t_inc, int_flag, true);
+  else VLL = leadlag_blk_in;
   
-  VLL1 = Leadlag_blkBC1.getoutput(VLL, t_inc, int_flag, true); 
+  if (!zero_TB1) VLL1 = Leadlag_blkBC1.getoutput(VLL, t_inc, int_flag, true); 
+  else VLL1 = VLL;
 
   if (zero_TA) {
     VA = Regulator_gain_blk.getoutput(VLL1);
-- 
2.43.0


From 50f978ebd8f29ff3ece38912a50c9be87047d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:29 +0000
Subject: [PATCH 119/137] fix: branches added to a network start without
 analytics data

---
 src/component/base_analytics_intfc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/component/base_analytics_intfc.cpp b/src/component/base_analytics_intfc.cpp
index 5e90eed..e4be7b7 100644
--- a/src/component/base_analytics_intfc.cpp
+++ b/src/component/base_analytics_intfc.cpp
@@ -102,6 +102,7 @@ int BaseBusAnalyticsInterface::numStorage()
  */
 BaseBranchAnalyticsInterface::BaseBranchAnalyticsInterface(void)
 {
+  p_data = NULL;
 }
 
 /**
-- 
2.43.0


From 3421a11a48d3ed9ac5b57c183f6a1ccd545e91a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:51 +0000
Subject: [PATCH 120/137] fix: watch file names every watched unit of a bus
 with many units

---
 .../modules/dynamic_simulation_full_y/dsf_app_module.cpp    | 6 +++---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp    | 4 ++--
 .../dynamic_simulation_full_y/model_classes/regca1.cpp      | 2 +-
 .../dynamic_simulation_full_y/model_classes/regcb1.cpp      | 2 +-
 .../dynamic_simulation_full_y/model_classes/regcc1.cpp      | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index cbc3be8..a2889d0 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -1824,7 +1824,7 @@ void gridpack::dynamic_simulation::DSFullApp::openGeneratorWatchFile()
   if (!p_internal_watch_file_name) {
     if (!p_suppress_watch_files) {
       if (cursor->get("generatorWatchFileName",&filename)) {
-        p_generatorIO.reset(new gridpack::serial_io::SerialBusIO<DSFullNetwork>(512,
+        p_generatorIO.reset(new gridpack::serial_io::SerialBusIO<DSFullNetwork>(4096,
               p_network));
         p_generatorIO->open(filename.c_str());
       } else {
@@ -1837,7 +1837,7 @@ void gridpack::dynamic_simulation::DSFullApp::openGeneratorWatchFile()
     }
   } else {
     if (!p_suppress_watch_files) {
-      p_generatorIO.reset(new gridpack::serial_io::SerialBusIO<DSFullNetwork>(512,
+      p_generatorIO.reset(new gridpack::serial_io::SerialBusIO<DSFullNetwork>(4096,
             p_network));
       p_generatorIO->open(p_gen_watch_file.c_str());
     }
@@ -1858,7 +1858,7 @@ void gridpack::dynamic_simulation::DSFullApp::openGeneratorWatchFile()
   printf("password %s \n", passwd.c_str());
   if (ok) {
     p_generatorIO.reset(new
-        gridpack::serial_io::SerialBusIO<DSFullNetwork>(512,
+        gridpack::serial_io::SerialBusIO<DSFullNetwork>(4096,
           p_network));
     p_generatorIO->openChannel(topic.c_str());
   } else {
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index e3d2dd1..a95765f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -2307,9 +2307,9 @@ bool gridpack::dynamic_simulation::DSFullBus::serialWrite(char *string,
     for (i=0; i<p_ngen; i++) {
       if(!p_generators.size()) continue;
       if (p_generators[i]->getWatch()) {
-	char buf[128];
+	char buf[256];
         ///printf("(DSFull::serialWrite) Got to 1\n");
-        ok = p_generators[i]->serialWrite(buf,128,signal);
+        ok = p_generators[i]->serialWrite(buf,256,signal);
         ///printf("(DSFull::serialWrite) Got to 2\n");
         if (ok) {
           int slen = strlen(buf);
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/regca1.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/regca1.cpp
index 4f2dd10..e95c789 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/regca1.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/regca1.cpp
@@ -560,7 +560,7 @@ bool gridpack::dynamic_simulation::Regca1Generator::serialWrite(
     }
   } else if(!strcmp(signal,"watch_header")) {
     if(getWatch()) {
-      char buf[128];
+      char buf[256];
       std::string tag;
       if(p_gen_id[0] != ' ') {
         tag = p_gen_id;
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/regcb1.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/regcb1.cpp
index 106fbab..3c24ca6 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/regcb1.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/regcb1.cpp
@@ -561,7 +561,7 @@ bool gridpack::dynamic_simulation::Regcb1Generator::serialWrite(
     }
   } else if(!strcmp(signal,"watch_header")) {
     if(getWatch()) {
-      char buf[128];
+      char buf[256];
       std::string tag;
       if(p_gen_id[0] != ' ') {
         tag = p_gen_id;
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/regcc1.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/regcc1.cpp
index 344f000..5d2b6f4 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/regcc1.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/regcc1.cpp
@@ -593,7 +593,7 @@ bool gridpack::dynamic_simulation::Regcc1Generator::serialWrite(
     }
   } else if(!strcmp(signal,"watch_header")) {
     if(getWatch()) {
-      char buf[128];
+      char buf[256];
       std::string tag;
       if(p_gen_id[0] != ' ') {
 	tag = p_gen_id;
-- 
2.43.0


From 6e9b297bc33369b6b210a565b34b1f238a03e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:30 +0000
Subject: [PATCH 121/137] fix: state estimation ignores measurements that have
 no value or deviation

---
 .../modules/state_estimation/se_app_module.cpp            | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/state_estimation/se_app_module.cpp b/src/applications/modules/state_estimation/se_app_module.cpp
index 62f9455..50039db 100644
--- a/src/applications/modules/state_estimation/se_app_module.cpp
+++ b/src/applications/modules/state_estimation/se_app_module.cpp
@@ -64,9 +64,13 @@ std::vector<gridpack::state_estimation::Measurement>
       std::string meas_type;
       measurements[idx]->get("Type", &meas_type);
       double meas_value;
-      measurements[idx]->get("Value", &meas_value);
       double meas_deviation;
-      measurements[idx]->get("Deviation", &meas_deviation);
+      // A measurement without value or deviation carries no information
+      if (!measurements[idx]->get("Value", &meas_value) ||
+          !measurements[idx]->get("Deviation", &meas_deviation)) {
+        printf("Ignoring incomplete %s measurement\n",meas_type.c_str());
+        continue;
+      }
       if (meas_type == "VM" || meas_type == "PI" ||
           meas_type == "PJ" || meas_type == "QI" ||
           meas_type == "QJ" || meas_type == "VA") {
-- 
2.43.0


From e265fc06173047981461eda1e4798b994b026769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 122/137] fix: dynamic simulation starts and ends faults in the
 step nearest to their times

---
 .../dynamic_simulation_full_y/dsf_app_module.cpp       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index a2889d0..ad2b530 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -551,8 +551,9 @@ void gridpack::dynamic_simulation::DSFullApp::solve(
   sw7[3] = p_time_step;
   simu_total_steps = 0;
   for (int i = 0; i < nswtch-1; i++) {
-    t_step[i] = (int) ((sw1[i+1] -sw1[i]) / sw7[i]);
-    t_width[i] = (sw1[i+1] - sw1[i]) / t_step[i];
+    t_step[i] = (int) floor((sw1[i+1] - sw1[i]) / sw7[i] + 0.5);
+    t_width[i] = sw7[i];
+    if (t_step[i] > 0) t_width[i] = (sw1[i+1] - sw1[i]) / t_step[i];
     simu_total_steps += t_step[i];
   }
   simu_total_steps++;
@@ -3034,8 +3035,9 @@ void gridpack::dynamic_simulation::DSFullApp::solvePreInitialize(
   sw7[3] = p_time_step;
   simu_total_steps = 0;
   for (int i = 0; i < nswtch-1; i++) {
-    t_step[i] = (int) ((sw1[i+1] -sw1[i]) / sw7[i]);
-    t_width[i] = (sw1[i+1] - sw1[i]) / t_step[i];
+    t_step[i] = (int) floor((sw1[i+1] - sw1[i]) / sw7[i] + 0.5);
+    t_width[i] = sw7[i];
+    if (t_step[i] > 0) t_width[i] = (sw1[i+1] - sw1[i]) / t_step[i];
     simu_total_steps += t_step[i];
   }
   simu_total_steps++;
-- 
2.43.0


From ef5812e2f298d5e7c1015af8cac08caf73056867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:13 +0000
Subject: [PATCH 123/137] fix: dynamic simulation runs without a fault if the
 input names none

---
 src/applications/dynamic_simulation_full_y/dsf_comm_main.cpp | 2 ++
 src/applications/dynamic_simulation_full_y/dsf_main.cpp      | 2 ++
 src/applications/modules/hadrec/hadrec_app_module.cpp        | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/applications/dynamic_simulation_full_y/dsf_comm_main.cpp b/src/applications/dynamic_simulation_full_y/dsf_comm_main.cpp
index c255829..1907691 100644
--- a/src/applications/dynamic_simulation_full_y/dsf_comm_main.cpp
+++ b/src/applications/dynamic_simulation_full_y/dsf_comm_main.cpp
@@ -136,6 +136,8 @@ void dsf(MPI_Comm comm, int argc, char **argv)
     cursor = config->getCursor("Configuration.Dynamic_simulation");
     std::vector<gridpack::dynamic_simulation::Event> faults;
     faults = ds_app.getEvents(cursor);
+    // Simulate without fault if there is none
+    if (faults.empty()) faults.push_back(gridpack::dynamic_simulation::Event());
 
     // run dynamic simulation
     ds_app.setNetwork(ds_network, config);
diff --git a/src/applications/dynamic_simulation_full_y/dsf_main.cpp b/src/applications/dynamic_simulation_full_y/dsf_main.cpp
index 81038ea..4e62b20 100644
--- a/src/applications/dynamic_simulation_full_y/dsf_main.cpp
+++ b/src/applications/dynamic_simulation_full_y/dsf_main.cpp
@@ -103,6 +103,8 @@ main(int argc, char **argv)
     cursor = config->getCursor("Configuration.Dynamic_simulation");
     std::vector<gridpack::dynamic_simulation::Event> faults;
     faults = ds_app.getEvents(cursor);
+    // Simulate without fault if there is none
+    if (faults.empty()) faults.push_back(gridpack::dynamic_simulation::Event());
 
 	
     ds_app.solvePreInitialize(faults[0]);
diff --git a/src/applications/modules/hadrec/hadrec_app_module.cpp b/src/applications/modules/hadrec/hadrec_app_module.cpp
index ab31e74..ac65ecd 100644
--- a/src/applications/modules/hadrec/hadrec_app_module.cpp
+++ b/src/applications/modules/hadrec/hadrec_app_module.cpp
@@ -297,6 +297,8 @@ void gridpack::hadrec::HADRECAppModule::initializeDynSimu
   if (faults.empty()){
 	faults = ds_app_sptr->getEvents(cursor);
   }
+  // Simulate without fault if there is none
+  if (faults.empty()) faults.push_back(gridpack::dynamic_simulation::Event());
 
   // run dynamic simulation
   ds_app_sptr->setNetwork(ds_network, &(*config_sptr));
-- 
2.43.0


From d9a1711cbdc15d2cbef78b5aa2d915228c4385f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:27 +0000
Subject: [PATCH 124/137] fix: dynamic simulation solves with the changed
 admittance matrix if the solver keeps a constant serial copy

---
 .../dsf_app_module.cpp                        |  7 +++++
 .../dsf_app_module.hpp                        |  6 +++++
 .../dsf_app_module2.cpp                       |  2 ++
 .../dynamic_simulation_full_y/dsf_events.cpp  | 26 +++++++++++++++++++
 4 files changed, 41 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index ad2b530..7c00ecb 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -1008,6 +1008,8 @@ void gridpack::dynamic_simulation::DSFullApp::solve(
         }
     }
 	
+    if (flagBus || flagBranch) renewSolvers();
+
     //renke add, update old busvoltage first
     p_factory->updateoldbusvoltage(); //renke add
 	
@@ -3179,6 +3181,7 @@ void gridpack::dynamic_simulation::DSFullApp::executeOneSimuStep( ){
 		
 		p_factory->setMode(branch_trip_action);
         ybusMap_sptr->incrementMatrix(ybus);  // in the current code, solver_posfy_sptr is linked with ybus, check Bill
+        renewSolvers();
 		
 		//printf ("-----------renke debug, line tripping action detected----------");		
         //ybus->print();       
@@ -3204,6 +3207,7 @@ void gridpack::dynamic_simulation::DSFullApp::executeOneSimuStep( ){
 		
 		p_factory->setMode(bus_Yload_change_P);
         ybusMap_sptr->incrementMatrix(ybus);  // in the current code, solver_posfy_sptr is linked with ybus, check Bill
+        renewSolvers();
 		
 		//printf ("-----------renke debug, line tripping action detected----------");		
         //ybus->print();       
@@ -3228,6 +3232,7 @@ void gridpack::dynamic_simulation::DSFullApp::executeOneSimuStep( ){
 		
 		p_factory->setMode(bus_Yload_change_Q);
         ybusMap_sptr->incrementMatrix(ybus);  // in the current code, solver_posfy_sptr is linked with ybus, check Bill
+        renewSolvers();
 		
 		//printf ("-----------renke debug, line tripping action detected----------");		
         //ybus->print();       
@@ -3515,6 +3520,8 @@ void gridpack::dynamic_simulation::DSFullApp::executeOneSimuStep( ){
         }
     }
 	
+    if (flagBus || flagBranch) renewSolvers();
+
     //renke add, update old busvoltage first
     p_factory->updateoldbusvoltage(); //renke add
 	
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.hpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.hpp
index d7c8159..2b00e4c 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.hpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.hpp
@@ -1153,6 +1153,12 @@ class DSFullApp
    boost::shared_ptr<gridpack::math::LinearSolver> solver_fy_sptr;
    boost::shared_ptr<gridpack::math::LinearSolver> solver_posfy_sptr;
 
+   /**
+    * Create the network solvers again after the admittance matrices changed.
+    * A solver that treats its matrix as constant does not see the change.
+    */
+   void renewSolvers();
+
    // analytics module
    boost::shared_ptr<gridpack::analysis::NetworkAnalytics<DSFullNetwork> >
      p_analytics;
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
index e651b05..16de3f6 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
@@ -275,6 +275,8 @@ void gridpack::dynamic_simulation::DSFullApp::runonestep()
     ybusMap_sptr->incrementMatrix(ybus);
   }
 	
+  if (flagBus || flagBranch) renewSolvers();
+
   // Update old voltage (??)
   p_factory->updateoldbusvoltage();
 
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
index d464df5..4423dd9 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
@@ -127,6 +127,28 @@ gridpack::dynamic_simulation::DSFullApp::getEvents()
 }
 
 
+/**
+ * Create the network solvers again after the admittance matrices changed.
+ * A solver that treats its matrix as constant does not see the change.
+ */
+void gridpack::dynamic_simulation::DSFullApp::renewSolvers()
+{
+  gridpack::utility::Configuration::CursorPtr cursor;
+  cursor = p_config->getCursor("Configuration.Dynamic_simulation");
+  if (solver_sptr) {
+    solver_sptr.reset(new gridpack::math::LinearSolver(*ybus));
+    solver_sptr->configure(cursor);
+  }
+  if (solver_fy_sptr) {
+    solver_fy_sptr.reset(new gridpack::math::LinearSolver(*ybus_fy));
+    solver_fy_sptr->configure(cursor);
+  }
+  if (solver_posfy_sptr) {
+    solver_posfy_sptr.reset(new gridpack::math::LinearSolver(*ybus));
+    solver_posfy_sptr->configure(cursor);
+  }
+}
+
 /**
  * handleEvents - handle any events
 **/
@@ -152,6 +174,7 @@ void gridpack::dynamic_simulation::DSFullApp::handleEvents()
 	// Update Ybus
 	p_factory->setMode(BUSFAULTON);
 	ybusMap_sptr->incrementMatrix(ybus);
+	renewSolvers();
 	
       } else if(fabs(event.end - p_current_time) < 1e-6) {
 	/* Fault end */
@@ -166,12 +189,14 @@ void gridpack::dynamic_simulation::DSFullApp::handleEvents()
 	// Update Ybus
 	p_factory->setMode(BUSFAULTOFF);
 	ybusMap_sptr->incrementMatrix(ybus);
+	renewSolvers();
       }
     } else if(event.isLineStatus) {
       if(fabs(event.time - p_current_time) < 1e-6) {
 	setLineStatus(event.from_idx,event.to_idx,event.tag,event.status);
 	p_factory->setMode(LINESTATUSCHANGE);
 	ybusMap_sptr->incrementMatrix(ybus);
+	renewSolvers();
       }
     } else if(event.isGenStatus) {
       if(fabs(event.time - p_current_time) < 1e-6) {
@@ -179,6 +204,7 @@ void gridpack::dynamic_simulation::DSFullApp::handleEvents()
 	setGenStatus(event.bus_idx,event.tag,event.status);
 	p_factory->setMode(GENSTATUSCHANGE);
 	ybusMap_sptr->incrementMatrix(ybus);
+	renewSolvers();
       }
     }
   }
-- 
2.43.0


From 0a43a2c2dcffbc0ed6e8d1da6292902ee2290bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:35 +0000
Subject: [PATCH 125/137] fix: watched values of any size fit the buffers they
 are written with

---
 .../dsf_components.cpp                        | 24 +++++++++++--------
 .../model_classes/classical.cpp               |  2 +-
 .../model_classes/genrou.cpp                  |  2 +-
 .../model_classes/gensal.cpp                  |  2 +-
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index a95765f..174e812 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -2307,15 +2307,17 @@ bool gridpack::dynamic_simulation::DSFullBus::serialWrite(char *string,
     for (i=0; i<p_ngen; i++) {
       if(!p_generators.size()) continue;
       if (p_generators[i]->getWatch()) {
-	char buf[256];
+	char buf[4096];
         ///printf("(DSFull::serialWrite) Got to 1\n");
-        ok = p_generators[i]->serialWrite(buf,256,signal);
+        ok = p_generators[i]->serialWrite(buf,4095,signal);
         ///printf("(DSFull::serialWrite) Got to 2\n");
         if (ok) {
           int slen = strlen(buf);
-          if (len+slen < bufsize) sprintf(ptr,"%s",buf);
-          len += slen;
-          ptr += slen;
+          if (len+slen < bufsize) {
+            sprintf(ptr,"%s",buf);
+            len += slen;
+            ptr += slen;
+          }
         }
       }
     }
@@ -2324,20 +2326,22 @@ bool gridpack::dynamic_simulation::DSFullBus::serialWrite(char *string,
       !strcmp(signal,"load_watch")) {
     if (p_ndyn_load == 0) return false;
     int i;
-    char buf[128];
+    char buf[4096];
     char *ptr = string;
     int len = 0;
     bool ok;
     for (i=0; i<p_ndyn_load; i++) {
       if (p_loadmodels[i]->getWatch()) {
         ///printf("(DSFull::serialWrite) Got to 1\n");
-        ok = p_loadmodels[i]->serialWrite(buf,128,signal);
+        ok = p_loadmodels[i]->serialWrite(buf,4095,signal);
         ///printf("(DSFull::serialWrite) Got to 2\n");
         if (ok) {
           int slen = strlen(buf);
-          if (len+slen < bufsize) sprintf(ptr,"%s",buf);
-          len += slen;
-          ptr += slen;
+          if (len+slen < bufsize) {
+            sprintf(ptr,"%s",buf);
+            len += slen;
+            ptr += slen;
+          }
         }
       }
     }
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
index 8dafe87..1bad655 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
@@ -392,7 +392,7 @@ serialWrite(char *string, const int bufsize, const char *signal)
     }
   } else if (!strcmp(signal,"watch")) {
     if (getWatch()) {
-      char buf[256];
+      char buf[4096];
       sprintf(buf,", %f, %f",real(p_mac_ang_s1),real(p_mac_spd_s1));
       if (strlen(buf) <= bufsize) {
         sprintf(string,"%s",buf);
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/genrou.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/genrou.cpp
index 4e53b08..1f286b1 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/genrou.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/genrou.cpp
@@ -704,7 +704,7 @@ bool gridpack::dynamic_simulation::GenrouGenerator::serialWrite(
     }
   } else if (!strcmp(signal,"watch")) {
     if (getWatch()) {
-      char buf[256];
+      char buf[4096];
       sprintf(buf,",%f,%f,%f,%f, %f, %f, %f",
 	      Vterm,genP*MBase/p_sbase,genQ*MBase/p_sbase,x1d_1, x2w_1+1.0, Efd,Pmech);
       if (strlen(buf) <= bufsize) {
diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
index cbf6f7f..f06ff35 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/gensal.cpp
@@ -665,7 +665,7 @@ bool gridpack::dynamic_simulation::GensalGenerator::serialWrite(
     }
   } else if (!strcmp(signal,"watch")) {
     if (getWatch()) {
-      char buf[256];
+      char buf[4096];
       sprintf(buf,",%f,%f,%f,%f, %f, %f, %f",
 	      Vterm,genP*MBase/p_sbase,genQ*MBase/p_sbase,x1d_1, x2w_1+1.0, Efd,Pmech);
       if (strlen(buf) <= bufsize) {
-- 
2.43.0


From 727587f016a73de062ac2367b803fc26a02f0941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 126/137] fix: sum the activity of all observed elements over
 processes, not of as many elements as there are processes

---
 .../modules/dynamic_simulation_full_y/dsf_app_module.cpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index 7c00ecb..d8f4817 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -2095,7 +2095,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
     p_obs_genP->upload();
     p_obs_genQ->addElements(p_obs_lGenIdx, zeros);
     p_obs_genQ->upload();
-    p_comm.sum(&p_obs_gActive[0],p_comm.size());
+    p_comm.sum(&p_obs_gActive[0],p_obs_gActive.size());
   }
   if (p_obs_loadBus.size() > 0) {
     int nbus = p_obs_loadBus.size();
@@ -2166,7 +2166,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
     }
     p_obs_fOnline->addElements(p_obs_lLoadIdx, ones);
     p_obs_fOnline->upload();
-    p_comm.sum(&p_obs_lActive[0],p_comm.size());
+    p_comm.sum(&p_obs_lActive[0],p_obs_lActive.size());
   }
   if (p_obs_vBus.size() > 0) {
     int nbus = p_obs_vBus.size();
@@ -2220,7 +2220,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
     p_obs_vMag->upload();
     p_obs_vAng->addElements(p_obs_lVIdx, zeros);
     p_obs_vAng->upload();
-    p_comm.sum(&p_obs_vActive[0],p_comm.size());
+    p_comm.sum(&p_obs_vActive[0],p_obs_vActive.size());
   }
   if (p_obs_vBusfreq.size() > 0) {  // this is for bus frequency ob
     int nbusfreq = p_obs_vBusfreq.size();
@@ -2272,7 +2272,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
     }
     p_obs_vBusfreqVal->addElements(p_obs_lVIdxfreq, ones);
     p_obs_vBusfreqVal->upload();
-    p_comm.sum(&p_obs_vActivefreq[0],p_comm.size());
+    p_comm.sum(&p_obs_vActivefreq[0],p_obs_vActivefreq.size());
   } //bus frequency ob ends here
     
 }
-- 
2.43.0


From fec36528916726d1a45155734c7384cb1d8b5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 127/137] fix: forget the observed loads and bus indices of the
 previous network when observations are set again

---
 .../dynamic_simulation_full_y/dsf_app_module.cpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index d8f4817..f356bb8 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -1961,8 +1961,14 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
   gridpack::utility::Configuration::ChildCursors observations;
   p_obs_genBus.clear();
   p_obs_genIDs.clear();
+  p_obs_loadBus.clear();
+  p_obs_loadIDs.clear();
   p_obs_vBus.clear();
   p_obs_vBusfreq.clear();
+  p_obs_GenIdx.clear();
+  p_obs_LoadIdx.clear();
+  p_obs_VIdx.clear();
+  p_obs_VIdxfreq.clear();
   gridpack::utility::StringUtils util;
   // Parser observation block
   std::vector<int> foundGen;
@@ -2292,6 +2298,8 @@ void gridpack::dynamic_simulation::DSFullApp::getObservationLists(
 {
   genBuses.clear();
   genIDs.clear();
+  loadBuses.clear();
+  loadIDs.clear();
   busIDs.clear();
   int i;
   int nbus = p_obs_genBus.size();
@@ -2348,6 +2356,8 @@ void gridpack::dynamic_simulation::DSFullApp::getObservationLists_withBusFreq(
 {
   genBuses.clear();
   genIDs.clear();
+  loadBuses.clear();
+  loadIDs.clear();
   busIDs.clear();
   busfreqIDs.clear();
   int i;
-- 
2.43.0


From 193b2ab399bf5236f7990056227cbc40da557b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 128/137] fix: a line trip action removes each line element
 once, also when several elements of a branch are tripped in one step

---
 .../dynamic_simulation_full_y/dsf_components.cpp   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 174e812..9b17798 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -4,6 +4,7 @@
  *     in the LICENSE file in the top level directory of this distribution.
  */
 #include <vector>
+#include <algorithm>
 #include <iostream>
 
 #include "boost/smart_ptr/shared_ptr.hpp"
@@ -2121,7 +2122,11 @@ void gridpack::dynamic_simulation::DSFullBus::setBranchTripAction(int from_idx,
   }
   
   if (p_branchtripaction_to_flag || p_branchtripaction_from_flag) {
-    p_vec_tripactionbranch.push_back(branch_ptr);
+    // A branch with several elements to trip contributes once, for all of them
+    if (std::find(p_vec_tripactionbranch.begin(), p_vec_tripactionbranch.end(),
+          branch_ptr) == p_vec_tripactionbranch.end()) {
+      p_vec_tripactionbranch.push_back(branch_ptr);
+    }
   } 
 }
 
@@ -4035,7 +4040,12 @@ bool gridpack::dynamic_simulation::DSFullBranch::setBranchTripAction(
 			
 			p_branchactiontripflag = true;
 	
-			p_vec_tripaction_branchcktidx.push_back(ickt);
+			// An element is removed once, however often it is asked for
+			if (std::find(p_vec_tripaction_branchcktidx.begin(),
+					p_vec_tripaction_branchcktidx.end(), ickt) ==
+					p_vec_tripaction_branchcktidx.end()) {
+				p_vec_tripaction_branchcktidx.push_back(ickt);
+			}
 	
 			int idx1 = getBus1OriginalIndex();
 			int idx2 = getBus2OriginalIndex();
-- 
2.43.0


From f1516ab7e16150bcd623215b96690eb1bcea0229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:08 +0000
Subject: [PATCH 129/137] fix: keep the network solvers of a dynamic simulation
 that see changes of the admittance matrix

---
 .../modules/dynamic_simulation_full_y/dsf_events.cpp         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
index 4423dd9..82882aa 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_events.cpp
@@ -128,13 +128,14 @@ gridpack::dynamic_simulation::DSFullApp::getEvents()
 
 
 /**
- * Create the network solvers again after the admittance matrices changed.
- * A solver that treats its matrix as constant does not see the change.
+ * Create the network solvers again after the admittance matrices changed, if
+ * they treat the matrix as constant and would not see the change.
  */
 void gridpack::dynamic_simulation::DSFullApp::renewSolvers()
 {
   gridpack::utility::Configuration::CursorPtr cursor;
   cursor = p_config->getCursor("Configuration.Dynamic_simulation");
+  if (!cursor->get("LinearSolver.SerialMatrixConstant", false)) return;
   if (solver_sptr) {
     solver_sptr.reset(new gridpack::math::LinearSolver(*ybus));
     solver_sptr->configure(cursor);
-- 
2.43.0


From 343f92ab6dd6a5f8c6a332040e292b924c93ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:33 +0000
Subject: [PATCH 130/137] fix: a list of observed elements of which none exists
 ended the simulation

---
 .../dsf_app_module.cpp                        | 71 +++++++++++++------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index f356bb8..76ae2c5 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -18,6 +18,7 @@
 #include "dsf_app_module.hpp"
 //#include "gridpack/component/base_component.hpp"
 //#include "hadrec_app_module.hpp"
+#include <algorithm>
 #include <iostream>
 #include <string>
 #include <vector>
@@ -2079,6 +2080,8 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
     // Sum foundGen vector over all processors to find out if any observations
     // do not correspond to existing elements
     p_network->communicator().sum(&foundGen[0],foundGen.size());
+    bool anyGen = p_report_dummy_obs || std::count(foundGen.begin(),
+        foundGen.end(),0) < foundGen.size();
     // Add observations not found on any processors to observations on process 0
     if (p_comm.rank() == 0 && p_report_dummy_obs) {
       for (i = 0; i<foundGen.size(); i++) {
@@ -2093,15 +2096,21 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
         }
       }
     }
-    p_obs_rSpd->addElements(p_obs_lGenIdx, zeros);
-    p_obs_rSpd->upload();
-    p_obs_rAng->addElements(p_obs_lGenIdx, zeros);
-    p_obs_rAng->upload();
-    p_obs_genP->addElements(p_obs_lGenIdx, zeros);
-    p_obs_genP->upload();
-    p_obs_genQ->addElements(p_obs_lGenIdx, zeros);
-    p_obs_genQ->upload();
-    p_comm.sum(&p_obs_gActive[0],p_obs_gActive.size());
+    if (anyGen) {
+      p_obs_rSpd->addElements(p_obs_lGenIdx, zeros);
+      p_obs_rSpd->upload();
+      p_obs_rAng->addElements(p_obs_lGenIdx, zeros);
+      p_obs_rAng->upload();
+      p_obs_genP->addElements(p_obs_lGenIdx, zeros);
+      p_obs_genP->upload();
+      p_obs_genQ->addElements(p_obs_lGenIdx, zeros);
+      p_obs_genQ->upload();
+      p_comm.sum(&p_obs_gActive[0],p_obs_gActive.size());
+    } else {
+      // none of the observed elements exists
+      p_obs_genBus.clear();
+      p_obs_genIDs.clear();
+    }
   }
   if (p_obs_loadBus.size() > 0) {
     int nbus = p_obs_loadBus.size();
@@ -2157,6 +2166,8 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
     // Sum foundLoad vector over all processors to find out if any observations
     // do not correspond to existing elements
     p_network->communicator().sum(&foundLoad[0],foundLoad.size());
+    bool anyLoad = p_report_dummy_obs || std::count(foundLoad.begin(),
+        foundLoad.end(),0) < foundLoad.size();
     // Add observations not found on any processors to observations on process 0
     if (p_comm.rank() == 0 && p_report_dummy_obs) {
       for (i = 0; i<foundLoad.size(); i++) {
@@ -2170,9 +2181,15 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
         }
       }
     }
-    p_obs_fOnline->addElements(p_obs_lLoadIdx, ones);
-    p_obs_fOnline->upload();
-    p_comm.sum(&p_obs_lActive[0],p_obs_lActive.size());
+    if (anyLoad) {
+      p_obs_fOnline->addElements(p_obs_lLoadIdx, ones);
+      p_obs_fOnline->upload();
+      p_comm.sum(&p_obs_lActive[0],p_obs_lActive.size());
+    } else {
+      // none of the observed elements exists
+      p_obs_loadBus.clear();
+      p_obs_loadIDs.clear();
+    }
   }
   if (p_obs_vBus.size() > 0) {
     int nbus = p_obs_vBus.size();
@@ -2209,6 +2226,8 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
     // Sum foundBus vector over all processors to find out if any observations
     // do not correspond to existing elements
     p_network->communicator().sum(&foundBus[0],foundBus.size());
+    bool anyBus = p_report_dummy_obs || std::count(foundBus.begin(),
+        foundBus.end(),0) < foundBus.size();
     // Add observations not found on any processors to observations on process 0
     if (p_comm.rank() == 0 && p_report_dummy_obs) {
       for (i = 0; i<foundBus.size(); i++) {
@@ -2222,11 +2241,16 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
         }
       }
     }
-    p_obs_vMag->addElements(p_obs_lVIdx, ones);
-    p_obs_vMag->upload();
-    p_obs_vAng->addElements(p_obs_lVIdx, zeros);
-    p_obs_vAng->upload();
-    p_comm.sum(&p_obs_vActive[0],p_obs_vActive.size());
+    if (anyBus) {
+      p_obs_vMag->addElements(p_obs_lVIdx, ones);
+      p_obs_vMag->upload();
+      p_obs_vAng->addElements(p_obs_lVIdx, zeros);
+      p_obs_vAng->upload();
+      p_comm.sum(&p_obs_vActive[0],p_obs_vActive.size());
+    } else {
+      // none of the observed elements exists
+      p_obs_vBus.clear();
+    }
   }
   if (p_obs_vBusfreq.size() > 0) {  // this is for bus frequency ob
     int nbusfreq = p_obs_vBusfreq.size();
@@ -2264,6 +2288,8 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
     // Sum foundBusfreq vector over all processors to find out if any observations
     // do not correspond to existing elements
     p_network->communicator().sum(&foundBusfreq[0],foundBusfreq.size());
+    bool anyBusfreq = p_report_dummy_obs || std::count(foundBusfreq.begin(),
+        foundBusfreq.end(),0) < foundBusfreq.size();
     // Add observations not found on any processors to observations on process 0
     if (p_comm.rank() == 0 && p_report_dummy_obs) {
       for (i = 0; i<foundBusfreq.size(); i++) {
@@ -2276,9 +2302,14 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
         }
       }
     }
-    p_obs_vBusfreqVal->addElements(p_obs_lVIdxfreq, ones);
-    p_obs_vBusfreqVal->upload();
-    p_comm.sum(&p_obs_vActivefreq[0],p_obs_vActivefreq.size());
+    if (anyBusfreq) {
+      p_obs_vBusfreqVal->addElements(p_obs_lVIdxfreq, ones);
+      p_obs_vBusfreqVal->upload();
+      p_comm.sum(&p_obs_vActivefreq[0],p_obs_vActivefreq.size());
+    } else {
+      // none of the observed elements exists
+      p_obs_vBusfreq.clear();
+    }
   } //bus frequency ob ends here
     
 }
-- 
2.43.0


From e171bad15be0b80578dc6ea3bd949c8911c894e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:44 +0000
Subject: [PATCH 131/137] fix: observed bus frequencies were taken from the
 list of observed bus voltages

---
 .../modules/dynamic_simulation_full_y/dsf_app_module.cpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index 76ae2c5..b84053f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -2255,6 +2255,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
   if (p_obs_vBusfreq.size() > 0) {  // this is for bus frequency ob
     int nbusfreq = p_obs_vBusfreq.size();
     p_obs_vActivefreq.resize(nbusfreq);
+    p_obs_vUsefreq.clear();
     p_obs_lVBusfreq.clear();
     p_obs_lVIdxfreq.clear();
     std::vector<double> ones;
@@ -2276,7 +2277,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
         foundBusfreq[i] = 1;
         p_obs_lVIdxfreq.push_back(i);
         p_obs_VIdxfreq.push_back(lidx);
-        p_obs_lVBusfreq.push_back(p_obs_vBus[i]);
+        p_obs_lVBusfreq.push_back(p_obs_vBusfreq[i]);
         p_obs_vUsefreq.push_back(0);
         ones.push_back(1.0);
 
@@ -2296,7 +2297,7 @@ void gridpack::dynamic_simulation::DSFullApp::setObservations(
         if (!foundBusfreq[i]) {
           p_obs_lVIdxfreq.push_back(i);
           p_obs_VIdxfreq.push_back(-1);
-          p_obs_lVBusfreq.push_back(p_obs_vBus[i]);
+          p_obs_lVBusfreq.push_back(p_obs_vBusfreq[i]);
           p_obs_vUsefreq.push_back(1);
           ones.push_back(1.0);
         }
-- 
2.43.0


From 789b052a422b32f1398f2fdab56689b06b141b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:18 +0000
Subject: [PATCH 132/137] fix: a line trip action on a line given in the
 opposite direction of its branch had no effect

---
 .../modules/dynamic_simulation_full_y/dsf_app_module.cpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index b84053f..86e4442 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -4311,6 +4311,10 @@ void gridpack::dynamic_simulation::DSFullApp::setLineTripAction
 	std::string clean_brkckt;
 	std::vector<int> vec_branchintidx;
 	vec_branchintidx = p_network->getLocalBranchIndices(brch_from_bus_number, brch_to_bus_number);
+	if (vec_branchintidx.empty()) {
+		// the line may be given in the other direction
+		vec_branchintidx = p_network->getLocalBranchIndices(brch_to_bus_number, brch_from_bus_number);
+	}
 	int ibr, nbr;
 	gridpack::dynamic_simulation::DSFullBranch *pbranch;	
 	nbr = vec_branchintidx.size();
-- 
2.43.0


From b8807f39665035a3093856b8f1de1d3d369e95b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:19 +0000
Subject: [PATCH 133/137] fix: a line trip action leaves the shunt admittances
 of the line ends in the network

---
 .../dsf_components.cpp                        | 60 ++++++++-----------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 9b17798..66e41ba 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3871,41 +3871,31 @@ gridpack::dynamic_simulation::DSFullBranch::getBranchRelayTripUpdateFactor()
 gridpack::ComplexType 
 gridpack::dynamic_simulation::DSFullBranch::getBranchTripActionUpdateFactorForBus(int busNo)
 { 
-	int ibr, idx, ntripbranch;
-	gridpack::ComplexType ret(0.0,0.0);
-  
-	if (!p_vec_tripaction_branchcktidx.empty()) {
-		ntripbranch = p_vec_tripaction_branchcktidx.size();
-		//printf("DSFullBranch::getBranchRelayTripUpdateFactor ntripbranch = %d\n", ntripbranch);
-		for (ibr=0; ibr<ntripbranch; ibr++ ){
-			idx = p_vec_tripaction_branchcktidx[ibr];
-			//printf("DSFullBranch::getBranchRelayTripUpdateFactor idx = %d\n", idx);
-			if (p_branch_status[idx]) {
-				
-				gridpack::ComplexType tmp(p_resistance[idx],p_reactance[idx]);
-				gridpack::ComplexType tmpB(0.0,0.5*p_charging[idx]);
-				tmp = -1.0/tmp;
-				tmp = tmp - tmpB;
-				
-				if (p_xform[idx]){
-					gridpack::ComplexType a(cos(p_phase_shift[idx]),sin(p_phase_shift[idx]));
-					a = p_tap_ratio[idx]*a;
-					if ( (!p_switched[idx] && busNo == dynamic_cast<gridpack::dynamic_simulation::DSFullBus*>(getBus1().get())->getOriginalIndex()) ||
-						(p_switched[idx] && busNo == dynamic_cast<gridpack::dynamic_simulation::DSFullBus*>(getBus2().get())->getOriginalIndex()) ) {
-						tmp = tmp/(conj(a)*a);
-					} else {
-						// tmp is unchanged
-					}
-	
-				}
-
-				ret += tmp; 
-			}
-
-		}
-	}
-		
-	return ret;
+  // Contribution of the tripped line elements to the diagonal element of the
+  // bus, including the shunt admittances at this end of the line
+  gridpack::dynamic_simulation::DSFullBus *bus
+    = dynamic_cast<gridpack::dynamic_simulation::DSFullBus*>(getBus1().get());
+  if (busNo != bus->getOriginalIndex()) {
+    bus = dynamic_cast<gridpack::dynamic_simulation::DSFullBus*>(
+        getBus2().get());
+  }
+  gridpack::ComplexType ret = YMBranch::getTransformer(bus)
+    + YMBranch::getAdmittance() - YMBranch::getShunt(bus);
+  std::vector<std::string> tripped;
+  int ibr;
+  for (ibr=0; ibr<p_vec_tripaction_branchcktidx.size(); ibr++) {
+    int idx = p_vec_tripaction_branchcktidx[ibr];
+    if (p_branch_status[idx] && YMBranch::getLineStatus(p_ckt[idx])) {
+      YMBranch::setLineStatus(p_ckt[idx],false);
+      tripped.push_back(p_ckt[idx]);
+    }
+  }
+  ret -= YMBranch::getTransformer(bus)
+    + YMBranch::getAdmittance() - YMBranch::getShunt(bus);
+  for (ibr=0; ibr<tripped.size(); ibr++) {
+    YMBranch::setLineStatus(tripped[ibr],true);
+  }
+  return ret;
 }
 
 gridpack::ComplexType 
-- 
2.43.0


From fc181a27d4fecb70e1d1e867d6e9f703b5cb7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:19 +0000
Subject: [PATCH 134/137] fix: tripping a phase shifter removed it with the
 opposite phase shift from the admittance matrix

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 66e41ba..e05a7ac 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3529,7 +3529,7 @@ void gridpack::dynamic_simulation::DSFullBranch::load(
     p_resistance.push_back(rvar);
     rvar = 0.0;
     data->getValue(BRANCH_SHIFT, &rvar, idx);
-    rvar = -rvar*pi/180.0;
+    rvar = rvar*pi/180.0;
     p_phase_shift.push_back(rvar);
     rvar = 0.0;
     data->getValue(BRANCH_TAP, &rvar, idx);
-- 
2.43.0


From a0bd24a129ab74d042c72323d3220206bb25bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:08 +0000
Subject: [PATCH 135/137] fix: the reported load of a bus or zone counted loads
 that are out of service

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index e05a7ac..2d39ecb 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3133,6 +3133,7 @@ void gridpack::dynamic_simulation::DSFullBus::getTotalLoadPower(double &total_p,
   int i;
 //#if 0
   for (i=0; i<p_npowerflow_load; i++) {
+    if (!p_powerflowload_status[i]) continue;
     total_p += p_powerflowload_p[i];
     total_q += p_powerflowload_q[i];
   }
-- 
2.43.0


From 551597bcea0461bc14f379fd8ccbb53e98961e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:01 +0000
Subject: [PATCH 136/137] fix: MATPOWER generators are numbered by the
 generators of their own bus

---
 src/parser/MAT_parser.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/parser/MAT_parser.hpp b/src/parser/MAT_parser.hpp
index 0d3eb7a..b27f54f 100644
--- a/src/parser/MAT_parser.hpp
+++ b/src/parser/MAT_parser.hpp
@@ -281,7 +281,6 @@ class MAT_parser : public BaseParser<_network>
       std::string          line;
       std::getline(input, line);
       std::multimap<int, int> genmap;
-      std::multimap<int, int>::iterator gen_it;
       int index = 0;
       while(!test_end(line)) {
         this->removeSemiColon(line);
@@ -300,12 +299,7 @@ class MAT_parser : public BaseParser<_network>
           continue;
         }
 
-        gen_it = genmap.find(o_idx);
-        int ngen = 0;
-        while (gen_it != genmap.end()) {
-          ngen++;
-          gen_it++;
-        }
+        int ngen = static_cast<int>(genmap.count(o_idx));
         genmap.insert(std::pair<int, int>(o_idx,ngen));
 
         p_busData[l_idx]->addValue(GENERATOR_BUSNUMBER, atoi(split_line[0].c_str()), ngen);
-- 
2.43.0


From aca01dc1c0bba4c734bad688f6e11f7ee9f4e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:26 +0000
Subject: [PATCH 137/137] fix: loads of MATPOWER cases are complete, so that
 the power flow takes them

---
 src/parser/MAT_parser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/MAT_parser.hpp b/src/parser/MAT_parser.hpp
index b27f54f..673a0e5 100644
--- a/src/parser/MAT_parser.hpp
+++ b/src/parser/MAT_parser.hpp
@@ -259,6 +259,11 @@ class MAT_parser : public BaseParser<_network>
           data->addValue(LOAD_ID,tmp.c_str(),0);
           data->addValue(LOAD_QL, atof(split_line[3].c_str()));
           data->addValue(LOAD_QL, atof(split_line[3].c_str()),0);
+          // All load is constant power
+          data->addValue(LOAD_IP, 0.0, 0);
+          data->addValue(LOAD_IQ, 0.0, 0);
+          data->addValue(LOAD_YP, 0.0, 0);
+          data->addValue(LOAD_YQ, 0.0, 0);
           int ival = 1;
           data->addValue(LOAD_NUMBER,ival);
           data->addValue(LOAD_STATUS,ival,0);
-- 
2.43.0

