From cf39f55b2d4302053c8b64f51c7dde7403b9bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 01/45] fix: SANN could read past the candidate list and left
 the cutoff of an atom unset

---
 src/pyscal/system.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7ba835f..29e0d00 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1163,6 +1163,7 @@ int System::get_all_neighbors_sann(double prefactor){
         while( (m < maxneighs) && (dcut >= atoms[ti].temp_neighbors[m].dist)){
             //increase m
             m = m+1;
+            if (m == maxneighs) break;
 
             //here now we can add this to the list neighbors and process things
             int tj = atoms[ti].temp_neighbors[m].index;
@@ -1171,8 +1172,8 @@ int System::get_all_neighbors_sann(double prefactor){
             //find new dcut
             summ = summ + atoms[ti].temp_neighbors[m].dist;
             dcut = summ/float(m-2);
-            atoms[ti].cutoff = dcut;
         }
+        atoms[ti].cutoff = dcut;
 
         //find if there was an error
         if (m==maxneighs){
-- 
2.43.0


From 5339cc460c22675b1a5339ffa68bf9b96780872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:32 +0000
Subject: [PATCH 02/45] fix: cell lists gave duplicate or missing neighbors for
 triclinic and narrow boxes

---
 src/pyscal/system.cpp | 30 +++++++++++++++++++++++++++++-
 src/pyscal/system.h   |  1 +
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 29e0d00..78f234a 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -487,6 +487,15 @@ int System::cell_index(int cx, int cy, int cz){
 }
 
 
+//cell lists need an orthogonal box which is at least three cells wide along each
+//direction, otherwise the same pair is found more than once or missed
+bool System::cells_usable(){
+    return (triclinic == 0) && (neighbordistance > 0)
+        && (int(boxx/neighbordistance) > 2)
+        && (int(boxy/neighbordistance) > 2)
+        && (int(boxz/neighbordistance) > 2);
+}
+
 //if number of particles are small, use brute force
 //if box is triclinic, use brute force
 void System::set_up_cells(){
@@ -558,6 +567,11 @@ void System::set_up_cells(){
           cy = dy/ly;
           cz = dz/lz;
 
+          //rounding should not push an atom out of the last cell
+          cx = min(max(cx, 0), nx-1);
+          cy = min(max(cy, 0), ny-1);
+          cz = min(max(cz, 0), nz-1);
+
           //now get cell index
           ind = cell_index(cx, cy, cz);
           //got cell index
@@ -648,6 +662,12 @@ void System::get_all_neighbors_cells(){
 
     voronoiused = 0;
 
+    //cells only partition the system correctly under these conditions
+    if (!cells_usable()){
+        get_all_neighbors_normal();
+        return;
+    }
+
     double d;
     double diffx,diffy,diffz;
     double r,theta,phi;
@@ -717,6 +737,7 @@ void System::get_all_neighbors_cells(){
         }
     }
 
+    delete[] cells;
 
 }
 
@@ -840,6 +861,12 @@ about 2000 atoms.
 */
 void System::get_temp_neighbors_cells(){
 
+    //cells only partition the system correctly under these conditions
+    if (!cells_usable()){
+        get_temp_neighbors_brute();
+        return;
+    }
+
     //first create cells
     set_up_cells();
 
@@ -864,7 +891,7 @@ void System::get_temp_neighbors_cells(){
                   //compare ti and tj and add
                   if (ti < tj){
                       d = get_abs_distance(ti,tj,diffx,diffy,diffz);
-                      if (d < neighbordistance){
+                      if (d <= neighbordistance){
                         datom x = {d, tj};
                         atoms[ti].temp_neighbors.emplace_back(x);
                         datom y = {d, ti};
@@ -878,6 +905,7 @@ void System::get_temp_neighbors_cells(){
         }
     }
 
+    delete[] cells;
 }
 int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
     /*
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index 9f6558f..bd51ca6 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -93,6 +93,7 @@ class System{
         void susecells(int);
         int gusecells();
         int cell_index(int, int, int);
+        bool cells_usable();
         void set_up_cells();
         vector<int> cell_periodic(int, int, int);
         void get_all_neighbors_cells();
-- 
2.43.0


From 63f7124612c603e1ec6d5e1168973574e9fdac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:15 +0000
Subject: [PATCH 03/45] fix: raise an error instead of writing past the
 neighbor arrays of an atom

---
 src/pyscal/system.cpp | 14 ++++++++++++++
 src/pyscal/system.h   |  1 +
 2 files changed, 15 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 78f234a..1ff9761 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -701,6 +701,7 @@ void System::get_all_neighbors_cells(){
                             continue;
                         }
                         //process_neighbor(ti, tj);
+                        check_neighbor_capacity(ti);
                         atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                         atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
                         //weight is set to 1.0, unless manually reset
@@ -715,6 +716,7 @@ void System::get_all_neighbors_cells(){
                         atoms[ti].n_neighbors += 1;
                         atoms[ti].cutoff = neighbordistance;
 
+                        check_neighbor_capacity(tj);
                         atoms[tj].neighbors[atoms[tj].n_neighbors] = ti;
                         atoms[tj].neighbordist[atoms[tj].n_neighbors] = d;
                         //weight is set to 1.0, unless manually reset
@@ -766,6 +768,7 @@ void System::get_all_neighbors_normal(){
                     continue;
                 }
                 //process_neighbor(ti, tj);
+                check_neighbor_capacity(ti);
                 atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                 atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
                 //weight is set to 1.0, unless manually reset
@@ -780,6 +783,7 @@ void System::get_all_neighbors_normal(){
                 atoms[ti].n_neighbors += 1;
                 atoms[ti].cutoff = neighbordistance;
 
+                check_neighbor_capacity(tj);
                 atoms[tj].neighbors[atoms[tj].n_neighbors] = ti;
                 atoms[tj].neighbordist[atoms[tj].n_neighbors] = d;
                 //weight is set to 1.0, unless manually reset
@@ -801,6 +805,13 @@ void System::get_all_neighbors_normal(){
 
 }
 
+//neighbor data is stored in arrays of fixed length
+void System::check_neighbor_capacity(int ti){
+    if (atoms[ti].n_neighbors >= MAXNUMBEROFNEIGHBORS){
+        throw length_error("an atom has more neighbors than the maximum supported number");
+    }
+}
+
 void System::process_neighbor(int ti, int tj){
     /*
     Calculate all info and add it to list
@@ -814,6 +825,7 @@ void System::process_neighbor(int ti, int tj){
 
     d = get_abs_distance(ti, tj, diffx,diffy,diffz);
 
+    check_neighbor_capacity(ti);
     atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
     atoms[ti].neighbordist[atoms[ti].n_neighbors] = d;
     //weight is set to 1.0, unless manually reset
@@ -1300,6 +1312,7 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
                     continue;
                 }
                 d = get_abs_distance(ti,tj,diffx,diffy,diffz);
+                check_neighbor_capacity(ti);
                 atoms[ti].neighbors[atoms[ti].n_neighbors] = tj;
                 atoms[ti].neighbordist[atoms[ti].n_neighbors] =d;
                 //weight is set to 1.0, unless manually reset
@@ -2014,6 +2027,7 @@ void System::get_all_neighbors_voronoi(){
                 else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
                     continue;
                 }
+                check_neighbor_capacity(ti);
                 atoms[ti].neighbors[tj] = neigh[tj];
                 atoms[ti].n_neighbors += 1;
                 d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index bd51ca6..b86e7f0 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -76,6 +76,7 @@ class System{
         cell *cells;
         double neighbordistance;
         void get_all_neighbors_normal();
+        void check_neighbor_capacity(int);
         void process_neighbor(int, int);
         int get_all_neighbors_sann(double);
         int get_all_neighbors_bynumber(double, int, int);
-- 
2.43.0


From 8d2b95aa50af557a02899356b72b98d1633bd768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:22 +0000
Subject: [PATCH 04/45] fix: disorder used the first atoms of the system
 instead of the neighbors of an atom

---
 src/pyscal/system.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 1ff9761..74759d3 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1658,13 +1658,14 @@ void System::calculate_disorder(){
     //now find cross terms
     for(int ti=0; ti<nop; ti++){
 
-        sumSquareti = 0.0;
-        sumSquaretj = 0.0;
-        realdotproduct = 0.0;
-        imgdotproduct = 0.0;
         dis = 0;
 
-        for(int tj=0; tj<atoms[ti].n_neighbors; tj++){
+        for(int c=0; c<atoms[ti].n_neighbors; c++){
+            int tj = atoms[ti].neighbors[c];
+            sumSquareti = 0.0;
+            sumSquaretj = 0.0;
+            realdotproduct = 0.0;
+            imgdotproduct = 0.0;
             for (int mi = 0;mi < 2*solidq+1 ;mi++){
                 sumSquareti += atoms[ti].realq[solidq-2][mi]*atoms[ti].realq[solidq-2][mi] + atoms[ti].imgq[solidq-2][mi] *atoms[ti].imgq[solidq-2][mi];
                 sumSquaretj += atoms[tj].realq[solidq-2][mi]*atoms[tj].realq[solidq-2][mi] + atoms[tj].imgq[solidq-2][mi] *atoms[tj].imgq[solidq-2][mi];
-- 
2.43.0


From 503e16be6b90c68bdf9a34c6dc17fae0e5fd325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 05/45] fix: find_solids ignored the keyword right and the
 reversed bond comparison never counted

---
 src/pyscal/core.py    | 6 ++++++
 src/pyscal/system.cpp | 8 +++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 7a7f900..0e27112 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -933,6 +933,12 @@ class System(pc.System):
         else:
              raise TypeError("bonds should be interger/float value")
 
+        #direction of the comparison
+        if right:
+            self.comparecriteria = 0
+        else:
+            self.comparecriteria = 1
+
         #Set the vlaue of q
         self.solidq = q
         #first calculate q
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 74759d3..863229f 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1757,11 +1757,13 @@ void System::calculate_frenkel_numbers(){
 
             scalar = get_number_from_bond(ti,atoms[ti].neighbors[c]);
             atoms[ti].sij[c] = scalar;
-            if (comparecriteria == 0)
+            if (comparecriteria == 0){
                 if (scalar > threshold) frenkelcons += 1;
-            else
+            }
+            else{
                 if (scalar < threshold) frenkelcons += 1;
-            
+            }
+
             atoms[ti].avq6q6 += scalar;
         }
 
-- 
2.43.0


From 7eb562c7f182ae6f8608bd6c7d8b0c2c055d39ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:25 +0000
Subject: [PATCH 06/45] fix: without any cluster, unclustered atoms were
 flagged as the largest cluster

---
 src/pyscal/system.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 863229f..8fab3a2 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1891,6 +1891,7 @@ int System::largest_cluster(){
         }
 
         int max=0;
+        maxclusterid = -1;
         for (int ti= 0;ti<real_nop;ti++)
         {
             if (freq[ti]>max){
@@ -1900,6 +1901,7 @@ int System::largest_cluster(){
 
         }
 
+        delete[] freq;
         get_largest_cluster_atoms();
 
         return max;
@@ -1910,7 +1912,7 @@ void System::get_largest_cluster_atoms(){
             atoms[ti].issurface = 1;
             atoms[ti].lcluster = 0;
             //if its in same cluster as max cluster assign it as one
-            if(atoms[ti].belongsto == maxclusterid){
+            if((maxclusterid != -1) && (atoms[ti].belongsto == maxclusterid)){
                 atoms[ti].lcluster = 1;
             }
            //if its solid- identfy if it has liquid
-- 
2.43.0


From a2d28f68640b78f5e75b9e18d6d056eba3d02221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 07/45] fix: the type filter of Voronoi neighbors compared with
 unrelated atoms and misplaced entries

---
 src/pyscal/system.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 8fab3a2..233e375 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2023,24 +2023,25 @@ void System::get_all_neighbors_voronoi(){
             //for (int i=0; i<facearea.size(); i++){
             //    weightsum += facearea[i];
             //}
-            for (int tj=0; tj<neigh.size(); tj++){
+            for (int fi=0; fi<neigh.size(); fi++){
 
                 //if filter doesnt work continue
-                if ((filter == 1) && (atoms[ti].type != atoms[tj].type)){
+                if ((filter == 1) && (atoms[ti].type != atoms[neigh[fi]].type)){
                     continue;
                 }
-                else if ((filter == 2) && (atoms[ti].type == atoms[tj].type)){
+                else if ((filter == 2) && (atoms[ti].type == atoms[neigh[fi]].type)){
                     continue;
                 }
+                int tj = atoms[ti].n_neighbors;
                 check_neighbor_capacity(ti);
-                atoms[ti].neighbors[tj] = neigh[tj];
+                atoms[ti].neighbors[tj] = neigh[fi];
                 atoms[ti].n_neighbors += 1;
-                d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
+                d = get_abs_distance(ti,neigh[fi],diffx,diffy,diffz);
                 atoms[ti].neighbordist[tj] = d;
                 //weight is set to 1.0, unless manually reset
-                atoms[ti].neighborweight[tj] = pow(facearea[tj], alpha)/weightsum;
-                atoms[ti].facevertices[tj] = f_vert[tj];
-                atoms[ti].faceperimeters[tj] = faceperimeters[tj];
+                atoms[ti].neighborweight[tj] = pow(facearea[fi], alpha)/weightsum;
+                atoms[ti].facevertices[tj] = f_vert[fi];
+                atoms[ti].faceperimeters[tj] = faceperimeters[fi];
                 atoms[ti].n_diffx[tj] = diffx;
                 atoms[ti].n_diffy[tj] = diffy;
                 atoms[ti].n_diffz[tj] = diffz;
-- 
2.43.0


From 936bbdb65570d7cb76bd5ebfedd2e8d290219e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 08/45] fix: Voronoi vertex positions accumulated over repeated
 calculations

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 233e375..4e08876 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2003,6 +2003,7 @@ void System::get_all_neighbors_voronoi(){
             atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
             
             //clean up and add vertex positions
+            atoms[ti].vertex_positions.clear();
             nverts = int(v.size())/3;
             pos = atoms[ti].gx();
             for(int si=0; si<nverts; si++){
-- 
2.43.0


From 5ed1063003b140c2f2eef2897209ab52c861d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:03 +0000
Subject: [PATCH 09/45] fix: q values were not normalised when adaptive
 neighbors followed a Voronoi calculation

---
 src/pyscal/system.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 4e08876..7b88c0f 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1236,6 +1236,9 @@ int System::get_all_neighbors_sann(double prefactor){
 
 int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padding){
 
+    //reset voronoi flag
+    voronoiused = 0;
+
     double d, dcut;
     double diffx,diffy,diffz;
     double r,theta,phi;
-- 
2.43.0


From 593c26c149aa1d72a97535f8917234fa24f3624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 10/45] fix: spherical harmonics of negative order were not
 conjugated

---
 src/pyscal/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 7b88c0f..f7baa69 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1441,7 +1441,7 @@ void System::QLM(int l,int m,double theta,double phi,double &realYLM, double &im
     if (m < 0) {
         YLM(l, abs(m), theta, phi, realYLM, imgYLM);
         realYLM = pow(-1.0,m)*realYLM;
-        imgYLM = pow(-1.0,m)*imgYLM;
+        imgYLM = -pow(-1.0,m)*imgYLM;
     }
     else{
         YLM(l, m, theta, phi, realYLM, imgYLM);
-- 
2.43.0


From 262639a61a02e6f8ce1570087917cfc464567b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:06 +0000
Subject: [PATCH 11/45] fix: get_qlm read outside the q components for values
 not between 2 and 12

---
 src/pyscal/atom.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index f2eb90d..c83aefb 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -297,6 +297,9 @@ void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
 
 vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
 
+  if ((qq < 2) || (qq > 12)){
+      throw invalid_argument("q value should be between 2-12");
+  }
   vector<complex<double>> qlms;
   qlms.reserve(2*qq+1);
   if (!averaged){
-- 
2.43.0


From 2c5c367bdbbfc92be1e01c26f81279a5cd47ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:44 +0000
Subject: [PATCH 12/45] fix: CNA reused stale neighbor candidates and CNA,
 centrosymmetry and diamond read missing ones

---
 src/pyscal/system.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index f7baa69..f8b172d 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2093,6 +2093,11 @@ void System::get_diamond_neighbors(){
     latest identification.
     */
     reset_main_neighbors();
+    for (int ti=0; ti<nop; ti++){
+        if (atoms[ti].temp_neighbors.size() < 4){
+            throw runtime_error("four closest neighbors of each atom are needed to identify diamond");
+        }
+    }
     for (int ti=0; ti<nop; ti++){
         //cout<<"ti = "<<ti<<endl;
         //start loop
@@ -2493,7 +2498,10 @@ vector<int> System::calculate_cna(int method){
     
     //first get lump neighbors
     //neighbor method is same
-    get_all_neighbors_bynumber(3, 14, 0);
+    reset_all_neighbors();
+    if (!get_all_neighbors_bynumber(3, 14, 0)){
+        throw runtime_error("not enough neighbors to perform common neighbor analysis");
+    }
 
     //first we start by checking for 12 CN 
     //CNA method
@@ -2632,7 +2640,9 @@ void System::calculate_centrosymmetry_atom(int ti, int nmax){
 void System::calculate_centrosymmetry(int nmax){
 
     reset_all_neighbors();
-    get_all_neighbors_bynumber(3, nmax, 1);
+    if (!get_all_neighbors_bynumber(3, nmax, 1)){
+        throw runtime_error("not enough neighbors to calculate centrosymmetry");
+    }
 
     //now loop over atoms and call
     for(int ti=0; ti<nop; ti++){
-- 
2.43.0


From f7dc351fbe7e14fc1a3c5ab814b8aae9ebb1588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:18 +0000
Subject: [PATCH 13/45] fix: local entropy used the density around the first
 atom for all atoms

---
 src/pyscal/system.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index f8b172d..8529a2f 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2587,9 +2587,11 @@ void System::entropy(double sigma, double rho, double rstart, double rstop, doub
         
         atoms[i].sigma = sigma;
         if (rho == 0){
-            rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+            atoms[i].rho = atoms[i].n_neighbors/(4.1887902047863905*pow(atoms[i].cutoff,3));
+        }
+        else{
+            atoms[i].rho = rho;
         }
-        atoms[i].rho = rho;
         atoms[i].rstart = rstart;
         atoms[i].rstop = rstop;
         atoms[i].h = h;
-- 
2.43.0


From 5997179e93cfdd5796008547517c6f22e5700aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:16 +0000
Subject: [PATCH 14/45] fix: entropy was not a number when the distribution
 function vanished

---
 src/pyscal/atom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index c83aefb..62cc832 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -423,6 +423,8 @@ double Atom::gmr(double r)
 double Atom::entropy_integrand(double r)
 {
         double g = gmr(r);
+        //limiting value, g log(g) goes to zero
+        if (g == 0) return r*r;
         return ((g*log(g)-g +1.00)*r*r);
 }
 
-- 
2.43.0


From b7edee5f3b874a3ee462eaa15f7e9d67bd3e29f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:43 +0000
Subject: [PATCH 15/45] fix: neighbors by number left the cutoff of atoms unset

---
 src/pyscal/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 8529a2f..d026ac1 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -990,6 +990,7 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
             for(int i=0; i<nns; i++){
                 int tj = atoms[ti].temp_neighbors[i].index;
                 process_neighbor(ti, tj);
+                atoms[ti].cutoff = atoms[ti].temp_neighbors[i].dist;
             }
         }
 
-- 
2.43.0


From 894afde0720d4a53548a16a212c907d58162b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 16/45] fix: a new Atom left its condition, cutoff and other
 properties uninitialised

---
 src/pyscal/atom.cpp | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index 62cc832..7fef141 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -33,7 +33,32 @@ Atom::Atom( vector<double> pos, int idd, int typ){
     avg_entropy = 0;
     energy = 0;
     avg_energy = 0;
-
+    condition = 0;
+    mask = false;
+    cutoff = 0;
+    sii = 0;
+    disorder = 0;
+    avgdisorder = 0;
+    frenkelnumber = 0;
+    avq6q6 = 0;
+    structure = 0;
+    n3 = n4 = n5 = n6 = 0;
+    volume = 0;
+    avgvolume = 0;
+    angular = 0;
+    avg_angular = 0;
+    centrosymmetry = 0;
+    lcutsmall = 0;
+    lcutlarge = 0;
+    lneigh = 0;
+    sigma = rho = rstart = rstop = h = kb = 0;
+    for (int tn = 0; tn<4; tn++){
+        nn1[tn] = -1;
+    }
+    for (int tn = 0; tn<13; tn++){
+        realQ6[tn] = -1;
+        imgQ6[tn] = -1;
+    }
 
     for (int tn = 0; tn<MAXNUMBEROFNEIGHBORS; tn++){
         neighbors[tn] = -1;
@@ -44,6 +69,12 @@ Atom::Atom( vector<double> pos, int idd, int typ){
         faceperimeters[tn] = -1.0;
         sij[tn] = -1.0;
         masks[tn] = -1;
+        n_diffx[tn] = 0;
+        n_diffy[tn] = 0;
+        n_diffz[tn] = 0;
+        n_r[tn] = 0;
+        n_phi[tn] = 0;
+        n_theta[tn] = 0;
         //edgelengths[tn] = -1.0;
 
     }
-- 
2.43.0


From 028e9a093740e5561a67b2efc89b9b9eb1af9f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:09 +0000
Subject: [PATCH 17/45] fix: setters of Atom wrote or read out of bounds for
 values of unexpected length

---
 src/pyscal/atom.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index 7fef141..e378b4b 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -110,6 +110,9 @@ vector<double> Atom::gx(){
 }
 
 void Atom::sx(vector<double> rls){
+    if (rls.size() != 3){
+        throw invalid_argument("position should have three components");
+    }
     posx = rls[0];
     posy = rls[1];
     posz = rls[2];
@@ -142,6 +145,10 @@ vector<double> Atom::gneighdist(){
 
 void Atom::sneighbors(vector<int> nns){
 
+    if (nns.size() > MAXNUMBEROFNEIGHBORS){
+        throw invalid_argument("more values than the maximum supported number of neighbors");
+    }
+
     //first reset all neighbors
     for (int i = 0;i<MAXNUMBEROFNEIGHBORS;i++){
         neighbors[i] = NILVALUE;
@@ -161,6 +168,9 @@ void Atom::sneighbors(vector<int> nns){
 }
 
 void Atom::sneighborweights(vector<double> nss){
+    if (nss.size() > MAXNUMBEROFNEIGHBORS){
+        throw invalid_argument("more values than the maximum supported number of neighbors");
+    }
     for(int i=0; i<nss.size(); i++){
         neighborweight[i] = nss[i];
     }
@@ -242,12 +252,18 @@ vector<double> Atom::gallaq(){
 }
 
 void Atom::sallq(vector<double> allq){
+    if (allq.size() != 11){
+        throw invalid_argument("q values from 2-12 should be provided");
+    }
     for(int i=0; i<11; i++){
         q[i] = allq[i];
     }
 }
 
 void Atom::sallaq(vector<double> allaq){
+    if (allaq.size() != 11){
+        throw invalid_argument("q values from 2-12 should be provided");
+    }
     for(int i=0; i<11; i++){
         aq[i] = allaq[i];
     }
@@ -304,6 +320,10 @@ vector<double> Atom::gq_big(vector<int> qval, bool averaged ){
 //overloaded version which takes a vector
 void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
 
+    if (qval.size() != setvals.size()){
+        throw invalid_argument("q and values should have the same length");
+    }
+
     if(averaged == true) {
 
         for(int i=0; i<qval.size(); i++){
@@ -360,6 +380,9 @@ vector<complex<double>> Atom::get_qcomps(int qq, bool averaged){
 // Voronoi related properties
 //-------------------------------------------------------
 void Atom::sfacevertices(vector<int> nss){
+    if (nss.size() > MAXNUMBEROFNEIGHBORS){
+        throw invalid_argument("more values than the maximum supported number of neighbors");
+    }
     for(int i=0; i<nss.size(); i++){
         facevertices[i] = nss[i];
     }
@@ -374,6 +397,9 @@ vector<int> Atom::gfacevertices(){
 }
 
 void Atom::sfaceperimeters(vector<double> nss){
+    if (nss.size() > MAXNUMBEROFNEIGHBORS){
+        throw invalid_argument("more values than the maximum supported number of neighbors");
+    }
     for(int i=0; i<nss.size(); i++){
         faceperimeters[i] = nss[i];
     }
@@ -416,6 +442,10 @@ vector<int> Atom::gvorovector(){
 
 void Atom::svorovector(vector<int> voro){
 
+    if (voro.size() != 4){
+        throw invalid_argument("voronoi vector should have four components");
+    }
+
     n3 = voro[0];
     n4 = voro[1];
     n5 = voro[2];
-- 
2.43.0


From 576c44e3467961b091e1f8b1a484b14150b07385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:36 +0000
Subject: [PATCH 18/45] fix: set_atom overwrote an unrelated atom as locations
 were unset, and access was unchecked

---
 src/pyscal/formats/lammps.py |  2 +-
 src/pyscal/system.cpp        | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 970c78c..21f33d5 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -155,7 +155,7 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
             atom.pos = [x, y, z]
             atom.id = idd
             atom.type = typ
-            atom.loc = count-8
+            atom.loc = count-9
 
             customdict = {}
             #if customkeys need to be read, do it
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index d026ac1..4e7e0de 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -126,6 +126,8 @@ void System::set_atoms( vector<Atom> atomitos){
     int tl = 0;
 
     for(int i=0; i<nop; i++){
+        //location is the position in the list of atoms
+        atoms[i].loc = i;
         if(atoms[i].ghost==0){
             tl++;
         }
@@ -219,6 +221,11 @@ void System::add_atoms(vector<Atom> atomitos){
     ghost_nop = ghost_nop + tg;
     real_nop = real_nop + tl;
     nop = nop + atomitos.size();
+
+    //location is the position in the list of atoms
+    for(int i=0; i<nop; i++){
+        atoms[i].loc = i;
+    }
 }
 
 
@@ -232,9 +239,17 @@ vector<Atom> System::get_all_atoms( ){
 
 }
 
-Atom System::gatom(int i) { return atoms[i]; }
+Atom System::gatom(int i) {
+    if ((i < 0) || (i >= nop)){
+        throw out_of_range("index of the atom is out of range");
+    }
+    return atoms[i];
+}
 void System::satom(Atom atom1) {
     int idd = atom1.loc;
+    if ((idd < 0) || (idd >= nop)){
+        throw out_of_range("location of the atom is out of range");
+    }
     atoms[idd] = atom1;
 }
 
-- 
2.43.0


From 59c2233f141a57a52d3bd446efcf0552d52527c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:06 +0000
Subject: [PATCH 19/45] fix: ghost atoms added to a system without ghosts were
 dropped but counted

---
 src/pyscal/system.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 4e7e0de..d3229e7 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -173,14 +173,12 @@ void System::add_atoms(vector<Atom> atomitos){
     }
 
     //if there is are no ghosts in system and list, just add and forget
-    if(ghost_nop==0){
-        if(tg==0){
-            for (int i=0; i<atomitos.size(); i++){
-                atoms.emplace_back(atomitos[i]);
-            }            
+    if((ghost_nop==0) && (tg==0)){
+        for (int i=0; i<atomitos.size(); i++){
+            atoms.emplace_back(atomitos[i]);
         }
     }
-    else if (ghost_nop>0){
+    else{
         //now the atoms need to be reordered
         vector<Atom> real_atoms;
         vector<Atom> ghost_atoms;        
-- 
2.43.0


From 12041abb1fe8e9b7ffa4ef9c7a461abed364c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:40 +0000
Subject: [PATCH 20/45] fix: box setter kept stale triclinic and replication
 state and missed some triclinic boxes

---
 src/pyscal/core.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 0e27112..a6b6f75 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -109,19 +109,26 @@ class System(pc.System):
         """
         Box setter 
         """
+        #the box which was replicated before does not apply anymore
+        self.actual_box = None
+        self._assign_box(userbox)
+
+    def _assign_box(self, userbox):
+        """
+        Assign box vectors and check if the box is triclinic
+        """
         #we should automatically check for triclinic cells here
-        summ = 0
-        for i in range(3):
-            box1 = np.array(userbox[i-1])
-            box2 = np.array(userbox[i])
-            summ += np.dot(box1, box2)/(np.linalg.norm(box1)*np.linalg.norm(box2))
-
-        #check if the summ is zero
-        if (np.abs(summ) > 1E-6):
+        #boxes which are not aligned with the axes are also treated as triclinic
+        boxvecs = np.array(userbox, dtype=float)
+        offdiag = np.abs(boxvecs - np.diag(np.diag(boxvecs)))
+
+        if (np.max(offdiag) > 1E-6*np.max(np.abs(boxvecs))):
             #this is a triclinic box
-            rot = np.array(userbox).T
+            rot = boxvecs.T
             rotinv = np.linalg.inv(rot)
             self.assign_triclinic_params(rot, rotinv)
+        else:
+            self.triclinic = 0
 
         self._box = userbox
 
@@ -567,7 +574,7 @@ class System(pc.System):
             self.get_all_neighbors_voronoi()
 
             #replace box
-            self.box = backupbox
+            self._assign_box(backupbox)
 
         self.neighbors_found = True
 
@@ -1928,8 +1935,9 @@ class System(pc.System):
             If True, assign the new atoms as ghost instead of actual atoms
         """
         
-        box = self.box        
-        self.actual_box = box.copy()
+        box = self.box
+        if ghost:
+            self.actual_box = box.copy()
 
         if atoms is None:
             atoms = self.atoms
@@ -1969,7 +1977,10 @@ class System(pc.System):
             box[0] = xs*np.array(box[0])
             box[1] = ys*np.array(box[1])
             box[2] = zs*np.array(box[2])
-            self.box = box
+            if ghost:
+                self._assign_box(box)
+            else:
+                self.box = box
         if ghost:
             self.ghosts_created = True
 
@@ -2027,7 +2038,7 @@ class System(pc.System):
 
 
         self.newbox = newbox
-        self.box = newbox
+        self._assign_box(newbox)
         #self.atoms = atoms
 
     def extract_cubic_box(self, repeat=(3,3,3)):
-- 
2.43.0


From e821479e47a9d25d79bb5e3de7900295ef8a779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:00 +0000
Subject: [PATCH 21/45] fix: Voronoi neighbors of triclinic systems left images
 in a box of the original size

---
 src/pyscal/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index a6b6f75..ba179b7 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -562,13 +562,14 @@ class System(pc.System):
             
             self.voroexp = int(voroexp)
 
-            #copy the simulation cell
             backupbox = self._box.copy()
             if self.triclinic:
                 if not self.ghosts_created:
                     atoms  = self.get_atoms()
                     atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
                     self.set_atoms(atoms)
+                    #copy the simulation cell, which now contains the images
+                    backupbox = self._box.copy()
                     self.embed_in_cubic_box()
             #self.embed_in_cubic_box()
             self.get_all_neighbors_voronoi()
-- 
2.43.0


From 951f7817bb1c2e531e166fb4337642199665a5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:24 +0000
Subject: [PATCH 22/45] fix: extract_cubic_box changed the simulation box of
 the system

---
 src/pyscal/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index ba179b7..43dffe6 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2059,6 +2059,7 @@ class System(pc.System):
         atoms: list of Atom objects
             atoms in the cubic box
         """
+        backupbox, actual_box = self._box.copy(), self.actual_box
         ratoms = self.repeat(repeat)
         anchor = ratoms[0]
 
@@ -2081,6 +2082,10 @@ class System(pc.System):
             hi = max(anchor.pos[count], minatom.pos[count])
             nb.append([lo, hi])
 
+        #the system itself is not modified
+        self._assign_box(backupbox)
+        self.actual_box = actual_box
+
         #collect atoms
         collectedatoms = []
         for atom in ratoms:
-- 
2.43.0


From f4a3a12faf2d2b4ec99ee5e66d9a63d6ccf681fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 23/45] fix: writing back results of small systems discarded
 the data of periodic images

---
 src/pyscal/core.py | 56 ++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 43dffe6..199a1d8 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -158,6 +158,23 @@ class System(pc.System):
 
         self.set_atoms(atoms)
 
+    def _update_atoms(self, atoms):
+        """
+        Write back atoms of the system after modification, periodic images are retained
+        """
+        allatoms = self.get_all_atoms()
+        allatoms[:len(atoms)] = atoms
+        self.set_atoms(allatoms)
+
+    def _set_condition(self, values):
+        """
+        Set condition for all atoms, a periodic image gets the value of its original atom
+        """
+        atoms = self.get_all_atoms()
+        for count, atom in enumerate(atoms):
+            atom.condition = values[count%len(values)]
+        self.set_atoms(atoms)
+
     def add_atoms(self, atoms):
         """
         Add a given list of atoms
@@ -719,7 +736,7 @@ class System(pc.System):
 
             atom.edge_lengths = edge_lengths
             atom.vorovector = vorovector
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
 
     def calculate_q(self, q, averaged = False, only_averaged=False, condition=None, clear_condition=False):
@@ -809,22 +826,13 @@ class System(pc.System):
                     raise RuntimeError("condition did not work")
             
             #now loop
-            atoms = self.atoms
-
             if isatomattr:
-                for atom in atoms:
-                    atom.condition = self.get_custom(atom, [condition])[0]
+                self._set_condition([self.get_custom(atom, [condition])[0] for atom in self.atoms])
             else:
-                for atom in atoms:
-                    cval = condition(atom)
-                    atom.condition = cval
-            self.atoms = atoms
+                self._set_condition([condition(atom) for atom in self.atoms])
 
         if clear_condition:
-            atoms = self.atoms
-            for atom in atoms:
-                atom.condition = 0
-            self.atoms = atoms
+            self._set_condition([0 for atom in self.atoms])
 
         if not only_averaged:
             self.ccalculate_q(qq)
@@ -1053,17 +1061,11 @@ class System(pc.System):
                 raise RuntimeError("condition did not work")
         
         #now loop
-        atoms = self.atoms
-
         if isatomattr:
-            for atom in atoms:
-                atom.condition = self.get_custom(atom, [condition])[0]
+            self._set_condition([self.get_custom(atom, [condition])[0] for atom in self.atoms])
         else:
-            for atom in atoms:
-                cval = condition(atom)
-                atom.condition = cval
-        
-        self.atoms = atoms
+            self._set_condition([condition(atom) for atom in self.atoms])
+
         self.cfind_clusters_recursive(cutoff)
 
         #done!
@@ -1177,7 +1179,7 @@ class System(pc.System):
                 costhetasum += (costheta +(1./3.))**2
             atom.angular = costhetasum
 
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
     def calculate_chiparams(self, angles=False):
         """
@@ -1244,7 +1246,7 @@ class System(pc.System):
             atom.chiparams = chivector[0]
             if angles:
                 atom.custom['cosines'] = costhetas
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
     
     def calculate_cna(self, lattice_constant=None):
@@ -1526,7 +1528,7 @@ class System(pc.System):
                     atom.sro = [shell1]
 
         #add atoms
-        self.atoms = atoms
+        self._update_atoms(atoms)
         #now if avg is reqd, find it
         if average:
             vec = np.zeros(2)
@@ -1642,7 +1644,7 @@ class System(pc.System):
                         atom.sro = [shell1]
 
         #add atoms
-        self.atoms = atoms
+        self._update_atoms(atoms)
         #now if avg is reqd, find it
         if average:
             vec = np.zeros(2)
@@ -1917,7 +1919,7 @@ class System(pc.System):
             neteng = np.sum([atoms[x].energy for x in atom.neighbors])
             atom.avg_energy = (neteng + atom.energy)/(len(atom.neighbors) + 1.)
 
-        self.atoms = atoms
+        self._update_atoms(atoms)
 
 
     def repeat(self, reps, atoms=None, ghost=False, scale_box=True):
-- 
2.43.0


From 9b39cc7bcddd290953484b78861c0bb18191ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 24/45] fix: assigning atoms again kept the replicated box and
 image state of the previous atoms

---
 src/pyscal/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 199a1d8..cb139cd 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -144,6 +144,10 @@ class System(pc.System):
         """
         Set atoms
         """
+        #start from the box without images
+        if self.actual_box is not None:
+            self.box = self.actual_box
+
         if(len(atoms) < 200):
             #we need to estimate a rough idea
             needed_atoms = 200 - len(atoms)
@@ -581,7 +585,7 @@ class System(pc.System):
 
             backupbox = self._box.copy()
             if self.triclinic:
-                if not self.ghosts_created:
+                if self.ntotal == self.natoms:
                     atoms  = self.get_atoms()
                     atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
                     self.set_atoms(atoms)
-- 
2.43.0


From 4c251de4f6cd7fe5120ddaf4460589edd0b67e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 25/45] fix: angular criteria failed for small systems with
 neighbors in periodic images

---
 src/pyscal/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index cb139cd..8e020ec 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1153,6 +1153,7 @@ class System(pc.System):
         """
 
         atoms = self.atoms
+        allatoms = self.get_all_atoms()
 
         for atom in atoms:
             dists = []
@@ -1162,7 +1163,7 @@ class System(pc.System):
             neighs = atom.neighbors
 
             for neigh in neighs:
-                dist, vectors = self.get_distance(atom, atoms[neigh], vector=True)
+                dist, vectors = self.get_distance(atom, allatoms[neigh], vector=True)
                 dists.append(dist)
                 distneighs.append(neigh)
                 distvectors.append(vectors)
-- 
2.43.0


From 29d8c62980e8f9998961609b3b6eda2d7d835678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 26/45] fix: pmsro used the concentration of a wrong type if
 types are not numbered contiguously

---
 src/pyscal/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 8e020ec..ac4812d 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1610,8 +1610,9 @@ class System(pc.System):
         if not compare_type in types[0]:
             raise ValueError("Compare atom type is invalid")
     
-        mref  = types[1][reference_type-1]/float(np.sum(types[1]))
-        mcomp = types[1][compare_type-1]/float(np.sum(types[1]))
+        conc = dict(zip(types[0], types[1]/float(np.sum(types[1]))))
+        mref  = conc[reference_type]
+        mcomp = conc[compare_type]
 
         for atom in atoms:
             if atom.type == reference_type:
-- 
2.43.0


From da5ac3d7ee78e68921e02cef81fb4fc7b1201a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:07 +0000
Subject: [PATCH 27/45] fix: RDF of systems with periodic images was normalised
 with the wrong density

---
 src/pyscal/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index ac4812d..c38f419 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -330,9 +330,10 @@ class System(pc.System):
         r = bin_edges[:-1]
 
         #get box density
-        boxvecs = self.box
-        vol = np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2])
-        natoms = self.nop
+        #distances include periodic images, if there are any
+        boxvecs = self._box
+        vol = np.abs(np.dot(np.cross(boxvecs[0], boxvecs[1]), boxvecs[2]))
+        natoms = self.ntotal
         rho = int(natoms*(natoms-1)*0.5)/vol
 
         shell_vols = (4./3.)*np.pi*((r+edgewidth)**3 - r**3)
-- 
2.43.0


From ed29f637b9a830da05ea5977718cc743457fef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:28 +0000
Subject: [PATCH 28/45] fix: left handed boxes were given a negative volume

---
 src/pyscal/core.py    | 2 +-
 src/pyscal/system.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index c38f419..dceb50a 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1774,7 +1774,7 @@ class System(pc.System):
 
         #calculate rho
         box = self.box
-        vol = np.dot(np.cross(box[0], box[1]), box[2])
+        vol = np.abs(np.dot(np.cross(box[0], box[1]), box[2]))
         if local:
             rho = 0
         else:
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index d3229e7..505dfea 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -969,7 +969,7 @@ int System::get_all_neighbors_bynumber(double prefactor, int nns, int assign){
         c1 = rot[0][2];
         c2 = rot[1][2];
         c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+        boxvol = fabs(c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1));
     }
     else{
         boxvol = boxx*boxy*boxz;
@@ -1170,7 +1170,7 @@ int System::get_all_neighbors_sann(double prefactor){
         c1 = rot[0][2];
         c2 = rot[1][2];
         c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+        boxvol = fabs(c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1));
     }
     else{
         boxvol = boxx*boxy*boxz;
@@ -1274,7 +1274,7 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
         c1 = rot[0][2];
         c2 = rot[1][2];
         c3 = rot[2][2];
-        boxvol = c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1);
+        boxvol = fabs(c1*(a2*b3-a3*b2) - c2*(a1*b3-b1*a3) + c3*(a1*b2-a2*b1));
     }
     else{
         boxvol = boxx*boxy*boxz;
-- 
2.43.0


From 13ce9ecedeba1b0473d250342d85fdc43921662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 29/45] fix: scaled coordinates in triclinic dump files were
 shifted and the wrong origin was used

---
 src/pyscal/formats/lammps.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 21f33d5..7cca095 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -190,12 +190,14 @@ def read_snap(infile, compressed = False, check_triclinic=False, customkeys=None
 
         rot = np.array([a, b, c]).T
         rotinv = np.linalg.inv(rot)
-        ortho_origin = np.array([boxx[0], boxy[0], boxz[0]])
+        ortho_origin = np.array([xlo, ylo, zlo])
 
         for atom in atoms:
             #correct zero of the atomic positions (shift box to origin)
-            dist = np.array(atom.pos) - ortho_origin
-            atom.pos = dist
+            #scaled coordinates are already relative to the origin of the box
+            if not scaled:
+                dist = np.array(atom.pos) - ortho_origin
+                atom.pos = dist
 
         #finally change boxdims - to triclinic box size
         box = np.array([a, b, c])
-- 
2.43.0


From 48a37d94ad407b2ce121986cfe3b972cc140df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 30/45] fix: tilt of triclinic boxes was lost when writing dump
 files

---
 src/pyscal/formats/lammps.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pyscal/formats/lammps.py b/src/pyscal/formats/lammps.py
index 7cca095..dae350c 100644
--- a/src/pyscal/formats/lammps.py
+++ b/src/pyscal/formats/lammps.py
@@ -286,10 +286,19 @@ def write_snap(sys, outfile, compressed = False,
     dump.write("%d\n" % timestep)
     dump.write("ITEM: NUMBER OF ATOMS\n")
     dump.write("%d\n" % len(atoms))
-    dump.write("ITEM: BOX BOUNDS\n")
-    dump.write("%f %f\n" % (0, boxx))
-    dump.write("%f %f\n" % (0, boxy))
-    dump.write("%f %f\n" % (0, boxz))
+    tilts = [box[1][0], box[2][0], box[2][1]]
+    if np.any(tilts) and not np.any([box[0][1], box[0][2], box[1][2]]):
+        #triclinic box in the lammps convention
+        xy, xz, yz = tilts
+        dump.write("ITEM: BOX BOUNDS xy xz yz\n")
+        dump.write("%f %f %f\n" % (min(0, xy, xz, xy+xz), box[0][0] + max(0, xy, xz, xy+xz), xy))
+        dump.write("%f %f %f\n" % (min(0, yz), box[1][1] + max(0, yz), xz))
+        dump.write("%f %f %f\n" % (0, box[2][2], yz))
+    else:
+        dump.write("ITEM: BOX BOUNDS\n")
+        dump.write("%f %f\n" % (0, boxx))
+        dump.write("%f %f\n" % (0, boxy))
+        dump.write("%f %f\n" % (0, boxz))
 
     #now write header
     if len(customkeys) > 0:
-- 
2.43.0


From 608a27c162735e084634e279643d50c436380552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 31/45] fix: descending iteration of Trajectory was shifted by
 one and single atom slices failed to load

---
 src/pyscal/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 377436f..94b505a 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -379,7 +379,7 @@ class Trajectory:
                 yield self._yield(i, output)
         elif method == "descending":
             for i in range(n_slices):
-                yield self._yield(self.nblocks-i, output)
+                yield self._yield(self.nblocks-1-i, output)
         
         elif method == "random":
             slice_list = np.arange(0, self.nblocks, 1).astype(int)
@@ -441,7 +441,7 @@ class Trajectory:
         """
         data = self.get_block(blockno)
         box =  np.loadtxt(data[5:8])
-        columns = np.loadtxt(data[9:])
+        columns = np.loadtxt(data[9:], ndmin=2)
         header = np.loadtxt(data[8:9], dtype=str)[2:]
         outdict = {}
         outdict["box"] = box
-- 
2.43.0


From cee0810d5097a6f6e203347110123fdd66aa9787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:06 +0000
Subject: [PATCH 32/45] fix: adding time slices modified the operands and never
 ended for a slice added to itself

---
 src/pyscal/trajectory.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index 94b505a..e33fea1 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -90,13 +90,10 @@ class Timeslice:
         """
         Add a method for summing
         """
-        for traj in ntraj.trajectories:
-            self.trajectories.append(traj)
-
-        for block in ntraj.blocklists:
-            self.blocklists.append(block)
-
-        return self
+        total = Timeslice(self.trajectory, self.blocklist)
+        total.trajectories = self.trajectories + ntraj.trajectories
+        total.blocklists = self.blocklists + ntraj.blocklists
+        return total
 
 
     def __radd__(self, ntraj):
-- 
2.43.0


From 3a2b93bfec93fb9c1d0684f5c8edccf05b39912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 33/45] fix: to_dict discarded data loaded and modified by the
 user

---
 src/pyscal/trajectory.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index e33fea1..f44142a 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -154,9 +154,13 @@ class Timeslice:
         data = []
         for count, traj in enumerate(self.trajectories):
             for x in self.blocklists[count]:
-                self.trajectories[count].load(x)
+                #data which is already loaded by the user is retained
+                loaded = self.trajectories[count].loadlist[x]
+                if not loaded:
+                    self.trajectories[count].load(x)
                 data.append(self.trajectories[count].data[x])
-                self.trajectories[count].unload(x)
+                if not loaded:
+                    self.trajectories[count].unload(x)
         return data
 
     def to_file(self, outfile, mode="w"):
-- 
2.43.0


From 265c2999aefe37ae203078c8ca8437f8647f89f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 34/45] fix: conversion to ASE stored the species in the system
 and ignored a different later choice

---
 src/pyscal/formats/ase.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/pyscal/formats/ase.py b/src/pyscal/formats/ase.py
index 2d7b358..8e7fc68 100644
--- a/src/pyscal/formats/ase.py
+++ b/src/pyscal/formats/ase.py
@@ -105,11 +105,8 @@ def convert_snap(sys, species=None):
         unique_types = np.unique(types)
         if not (len(unique_types) == len(species)):
             raise ValueError("Length of species and number of types found in system are different. Maybe you specified \"Au\" instead of [\"Au\"]")
-        #now assign the species to custom
-        
-        for atom in atoms:
-            custom = atom.custom
-            custom['species'] = species[int(atom.type-1)]
+        #now find the species of each atom, without modifying the system
+        symbols = [species[int(atom.type-1)] for atom in atoms]
         #we should also get the unique species key
         specieskey = "".join(species)
     else:
@@ -125,7 +122,8 @@ def convert_snap(sys, species=None):
                     species.append(atom.custom['species'])
                     break
         specieskey = "".join(species)
-      
+        symbols = [atom.custom['species'] for atom in atoms]
+
     cell = sys.box
     pbc = [1, 1, 1]
 
@@ -136,8 +134,8 @@ def convert_snap(sys, species=None):
     
     #thats everything pretty much
     #now create ase Atom
-    for atom in atoms:
-        aseatom = Atom(atom.custom['species'], atom.pos)
+    for symbol, atom in zip(symbols, atoms):
+        aseatom = Atom(symbol, atom.pos)
         aseobject.append(aseatom)
     #done
     return aseobject
-- 
2.43.0


From 87b6116d3baa087a51bbc8446ae4003c77de67ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 35/45] fix: negative and out of range indices of Trajectory
 returned wrong lines if the file has stray lines

---
 src/pyscal/trajectory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyscal/trajectory.py b/src/pyscal/trajectory.py
index f44142a..909f690 100644
--- a/src/pyscal/trajectory.py
+++ b/src/pyscal/trajectory.py
@@ -280,7 +280,8 @@ class Trajectory:
             timeslice = Timeslice(self, blocklist)
             return timeslice
         else:
-            blocklist = [blockno]
+            #same rules as for a list: negative indices count from the end
+            blocklist = [range(self.nblocks)[blockno]]
             timeslice = Timeslice(self, blocklist)
             return timeslice
 
@@ -404,6 +405,7 @@ class Trajectory:
         data : list
             list of strings containing data
         """
+        blockno = range(self.nblocks)[blockno]
         start = blockno*self.blocksize
         stop = (blockno+1)*self.blocksize
 
-- 
2.43.0


From 22e4f1b81e514feb1fdb2570c5c5764c4433512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 36/45] fix: adaptive neighbors silently missed atoms if the
 cutoff exceeded the search distance

---
 src/pyscal/system.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 505dfea..4cdfbb0 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1317,6 +1317,11 @@ int System::get_all_neighbors_adaptive(double prefactor, int nlimit, double padd
         }
         dcut = padding*(1.0/float(nlimit))*summ;
 
+        //candidates are only known up to this distance
+        if (dcut > neighbordistance){
+            return 0;
+        }
+
         //now we are ready to loop over again, but over the lists
         for(int j=0; j<atoms[ti].temp_neighbors.size(); j++){
             int tj = atoms[ti].temp_neighbors[j].index;
-- 
2.43.0


From 3c4f52e2f46117fcc4ac4a9cd827b89906bc02f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 37/45] fix: find_neighbors discarded neighbors before
 rejecting an invalid threshold

---
 src/pyscal/core.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index dceb50a..49f2fb5 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -519,6 +519,11 @@ class System(pc.System):
         .. [3] Haeberle, J, Sperl, M, Born, P, arxiv 2019
 
         """
+        #reject invalid requests before anything is modified
+        if (method == 'number') or (method == 'cutoff' and cutoff in ['sann', 'adaptive', 0]):
+            if threshold < 1:
+                raise ValueError("value of threshold should be at least 1.00")
+
         #first reset all neighbors
         self.reset_allneighbors()
         self.filter = 0
@@ -532,8 +537,6 @@ class System(pc.System):
 
         if method == 'cutoff':
             if cutoff=='sann':
-                if threshold < 1:
-                    raise ValueError("value of threshold should be at least 1.00")
                 self.usecells = (len(self.atoms) > 4000)
                 finished = self.get_all_neighbors_sann(threshold)
                 #if it finished without finding neighbors
@@ -554,9 +557,6 @@ class System(pc.System):
                         raise RuntimeError("sann cutoff could not be converged. This is most likely, \
                         due to a low threshold value. Try increasing it.")
             elif cutoff=='adaptive' or cutoff==0:
-                if threshold < 1:
-                    raise ValueError("value of threshold should be at least 1.00")
-
                 #self.usecells =  (len(self.atoms) > 4000)
                 self.usecells = (self.ntotal > 4000)
                 finished = self.get_all_neighbors_adaptive(threshold, nlimit, padding)
@@ -572,9 +572,6 @@ class System(pc.System):
                     self.get_all_neighbors_normal()
 
         elif method == 'number':
-            if threshold < 1:
-                raise ValueError("value of threshold should be at least 1.00")
-
             self.usecells =  (len(self.atoms) > 4000)
             finished = self.get_all_neighbors_bynumber(threshold, nmax, assign_neighbor)
             if not finished:
-- 
2.43.0


From d12c439f37e87b51888b723341b6fdd39ad062c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:05 +0000
Subject: [PATCH 38/45] fix: set_q with an invalid value in a list modified the
 atom before the error

---
 src/pyscal/atom.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pyscal/atom.cpp b/src/pyscal/atom.cpp
index e378b4b..f9f595a 100644
--- a/src/pyscal/atom.cpp
+++ b/src/pyscal/atom.cpp
@@ -324,22 +324,22 @@ void Atom::sq_big(vector<int> qval, vector<double> setvals, bool averaged){
         throw invalid_argument("q and values should have the same length");
     }
 
+    //reject invalid values before anything is modified
+    for(int i=0; i<qval.size(); i++){
+        if ((qval[i] < 2) || (qval[i] > 12)){
+            throw invalid_argument("q value should be between 2-12");
+        }
+    }
+
     if(averaged == true) {
 
         for(int i=0; i<qval.size(); i++){
-            if ((qval[i] < 2) || (qval[i] > 12)){
-                throw invalid_argument("q value should be between 2-12");
-            }
-
             saq(qval[i], setvals[i]);
         }
     }
     else {
 
         for(int i=0; i<qval.size(); i++){
-            if ((qval[i] < 2) || (qval[i] > 12)){
-                throw invalid_argument("q value should be between 2-12");
-            }
             sq(qval[i], setvals[i]);
         }
     }
-- 
2.43.0


From ce535a98c467570653a78facf8e3c51e13d4d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 39/45] fix: files read or written with the ASE backend were
 always reported as unknown formats

---
 src/pyscal/traj_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyscal/traj_process.py b/src/pyscal/traj_process.py
index c7f7abd..012c796 100644
--- a/src/pyscal/traj_process.py
+++ b/src/pyscal/traj_process.py
@@ -66,7 +66,7 @@ def read_file(filename, format="lammps-dump",
             #try to use ASE backend
             aseobject = read(filename, format=format)
             atoms, box = ptase.read_snap(aseobject)
-            warnings.info("Using ase backend to read file")
+            warnings.warn("Using ase backend to read file")
         except:
             raise TypeError("format recieved an unknown option %s"%format)
 
@@ -129,7 +129,7 @@ def write_file(sys, outfile, format="lammps-dump", compressed = False,
         try:
             aseobject = ptase.convert_snap(sys, species=species)
             write(outfile, aseobject, format=format)
-            warnings.info("Using ase backend to write file")
+            warnings.warn("Using ase backend to write file")
         except:
             raise TypeError("format recieved an unknown option %s"%format)
 
-- 
2.43.0


From d5ce7d6be6db1b65d8d4547691410cc6d1e582e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 40/45] fix: q values of Voronoi neighbors were not normalised
 with a condition or a filter

---
 src/pyscal/system.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 4cdfbb0..08a2f51 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -1551,11 +1551,10 @@ void System::calculate_q(vector <int> qs){
                     weightsum += atoms[ti].neighborweight[ci];
                 }
 
-            //the weights are not normalised,
-            if(!voronoiused){
-                realti = realti/float(weightsum);
-                imgti = imgti/float(weightsum);
-            }
+            //the weights of the neighbors considered need not add up to one,
+            //also for voronoi neighbors if there is a condition or a filter
+            realti = realti/weightsum;
+            imgti = imgti/weightsum;
 
 
             atoms[ti].realq[q-2][mi+q] = realti;
-- 
2.43.0


From fe1009ac874a8e7a210f6c4602ba5b25bcf5beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 41/45] fix: clustering left its condition and cutoff behind,
 which changed later calculations

---
 src/pyscal/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 49f2fb5..8365518 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -1062,6 +1062,9 @@ class System(pc.System):
             except:
                 raise RuntimeError("condition did not work")
         
+        #condition and cutoff of the atoms are also used by other calculations
+        backup = [(atom.condition, atom.cutoff) for atom in self.get_all_atoms()]
+
         #now loop
         if isatomattr:
             self._set_condition([self.get_custom(atom, [condition])[0] for atom in self.atoms])
@@ -1070,6 +1073,13 @@ class System(pc.System):
 
         self.cfind_clusters_recursive(cutoff)
 
+        #clustering should not affect those, so restore them
+        atoms = self.get_all_atoms()
+        for atom, (oldcondition, oldcutoff) in zip(atoms, backup):
+            atom.condition = oldcondition
+            atom.cutoff = oldcutoff
+        self.set_atoms(atoms)
+
         #done!
         lc = self.find_largest_cluster()
         #pcs.System.get_largest_cluster_atoms(self)
-- 
2.43.0


From 38c9a24d6d106054eba95982d9fd63ee1e09847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 42/45] fix: Voronoi cells were wrong for triclinic boxes not
 oriented like those of LAMMPS

---
 src/pyscal/core.py | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 8365518..33acbc8 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -2019,30 +2019,10 @@ class System(pc.System):
         b = np.array(box[1])
         c = np.array(box[2])
 
-        cosa = np.dot(b, c)/(np.linalg.norm(b)*np.linalg.norm(c))
-        cosb = np.dot(c, a)/(np.linalg.norm(c)*np.linalg.norm(a))
-        cosc = np.dot(a, b)/(np.linalg.norm(a)*np.linalg.norm(b))
-
-        lx = np.linalg.norm(a)
-        xy = np.linalg.norm(b)*cosc
-        xz = np.linalg.norm(c)*cosb
-        ly = np.sqrt(np.linalg.norm(b)*np.linalg.norm(b) - xy*xy)
-        yz = (np.linalg.norm(b)*np.linalg.norm(c)*cosa - xy*xz)/ly
-        lz = np.sqrt(np.linalg.norm(c)*np.linalg.norm(c) - xz*xz - yz*yz)
-
-        xlo = ylo = zlo = 0
-        xhi = lx
-        yhi = ly
-        zhi = lz
-
-        xlo_bound = xlo + min(0.0,xy,xz,xy+xz)
-        xhi_bound = xhi + max(0.0,xy,xz,xy+xz)
-        ylo_bound = ylo + min(0.0,yz)
-        yhi_bound = yhi + max(0.0,yz)
-        zlo_bound = zlo
-        zhi_bound = zhi
-
-        newbox = np.array([[xhi_bound-xlo_bound, 0, 0], [0, yhi_bound-ylo_bound, 0], [0, 0, zhi_bound-zlo_bound]])
+        #extents of the cell along each axis, whatever its orientation is
+        xl, yl, zl = np.abs(a) + np.abs(b) + np.abs(c)
+
+        newbox = np.array([[xl, 0, 0], [0, yl, 0], [0, 0, zl]])
         
         #we also need to remap atoms
         #atoms = self.get_all_atoms()
-- 
2.43.0


From 648e6adc3a8bfee459b9e07e9482f828391c2f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:09 +0000
Subject: [PATCH 43/45] fix: Voronoi cells of small triclinic systems were
 calculated in an orthogonal box of wrong periodicity

---
 src/pyscal/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 33acbc8..181f669 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -589,8 +589,7 @@ class System(pc.System):
                     self.set_atoms(atoms)
                     #copy the simulation cell, which now contains the images
                     backupbox = self._box.copy()
-                    self.embed_in_cubic_box()
-            #self.embed_in_cubic_box()
+                self.embed_in_cubic_box()
             self.get_all_neighbors_voronoi()
 
             #replace box
-- 
2.43.0


From bae516a870ce184c2f466e435bb14bf761908162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:37 +0000
Subject: [PATCH 44/45] fix: Voronoi neighbors of triclinic systems left images
 behind, which changed later calculations

---
 src/pyscal/core.py            | 12 +++++++++---
 src/pyscal/system.cpp         | 10 ++++++++++
 src/pyscal/system.h           |  1 +
 src/pyscal/system_binding.cpp |  1 +
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/pyscal/core.py b/src/pyscal/core.py
index 181f669..7d3d96f 100644
--- a/src/pyscal/core.py
+++ b/src/pyscal/core.py
@@ -581,19 +581,25 @@ class System(pc.System):
             
             self.voroexp = int(voroexp)
 
-            backupbox = self._box.copy()
+            backupbox, actual_box = self._box.copy(), self.actual_box
+            images_created = False
             if self.triclinic:
                 if self.ntotal == self.natoms:
                     atoms  = self.get_atoms()
                     atoms = self.repeat((1, 1, 1), atoms=atoms, ghost=True, scale_box=True)
                     self.set_atoms(atoms)
-                    #copy the simulation cell, which now contains the images
-                    backupbox = self._box.copy()
+                    images_created = True
                 self.embed_in_cubic_box()
             self.get_all_neighbors_voronoi()
 
+            if images_created:
+                #the images were only needed for this calculation
+                self.fold_neighbors()
+                self.set_atoms(self.get_atoms())
+
             #replace box
             self._assign_box(backupbox)
+            self.actual_box = actual_box
 
         self.neighbors_found = True
 
diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index 08a2f51..a0eae6d 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -2084,6 +2084,16 @@ void System::get_all_neighbors_voronoi(){
 }
 
 
+//images are stored behind the original atoms, in the same order
+//replace neighbors which are images by the original atoms
+void System::fold_neighbors(){
+    for (int ti=0; ti<real_nop; ti++){
+        for (int c=0; c<atoms[ti].n_neighbors; c++){
+            atoms[ti].neighbors[c] = atoms[ti].neighbors[c]%real_nop;
+        }
+    }
+}
+
 void System::find_average_volume(){
     double vv;
     int nn;
diff --git a/src/pyscal/system.h b/src/pyscal/system.h
index b86e7f0..3ea9a83 100644
--- a/src/pyscal/system.h
+++ b/src/pyscal/system.h
@@ -153,6 +153,7 @@ class System{
         //-----------------------------------------------------
         int alpha;
         void find_average_volume();
+        void fold_neighbors();
         int voronoiused;
         double face_cutoff;
         void set_face_cutoff(double);
diff --git a/src/pyscal/system_binding.cpp b/src/pyscal/system_binding.cpp
index e2095e5..cee58ad 100644
--- a/src/pyscal/system_binding.cpp
+++ b/src/pyscal/system_binding.cpp
@@ -108,6 +108,7 @@ PYBIND11_MODULE(csystem, m) {
         //-----------------------------------------------------
         .def_readwrite("voroexp", &System::alpha)
         .def("find_average_volume",&System::find_average_volume)
+        .def("fold_neighbors",&System::fold_neighbors)
 
         //-------------------------------------------------------
         // CNA parameters
-- 
2.43.0


From e9da0d041faf9a4bca1b3bbf718db98b39bcc10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:53 +0000
Subject: [PATCH 45/45] fix: cell lists missed neighbors of atoms slightly
 below a box face

Coordinates in (-1e-6, 0) were set to 0 before the cell was chosen, so the atom
ended up at the other side of the box and pairs within the cutoff were not found
(x = -5e-7 and x = 27-3e-7 in a box of 30 with cutoff 3).
---
 src/pyscal/system.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/pyscal/system.cpp b/src/pyscal/system.cpp
index a0eae6d..2c64f0e 100644
--- a/src/pyscal/system.cpp
+++ b/src/pyscal/system.cpp
@@ -561,13 +561,6 @@ void System::set_up_cells(){
           dz = atoms[ti].posz;
           
           //now apply boxdims
-          if( abs(dx-0) < 1E-6)
-              dx = 0;
-          if( abs(dy-0) < 1E-6)
-              dy = 0;
-          if( abs(dz-0) < 1E-6)
-              dz = 0;
-
           if (dx < 0) dx+=boxx;
           else if (dx >= boxx) dx-=boxx;
           if (dy < 0) dy+=boxy;
-- 
2.43.0

