From c7ea2154a35573948d7c65cf1514d18c74393b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:17 +0000
Subject: [PATCH 01/20] fix: copy whole complex values when in != out and no
 first remap is needed

---
 src/fft2d.cpp | 12 ++++++------
 src/fft3d.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index e5fe4c7..108d44d 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -533,7 +533,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastslow) remap(data,data,remap_fastslow);
@@ -548,7 +548,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowfast) remap(data,data,remap_slowfast);
@@ -600,7 +600,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remap_fastslow) remap(data,data,remap_fastslow);
 
@@ -609,7 +609,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowfast) remap(data,data,remap_slowfast);
 
@@ -636,7 +636,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
@@ -646,7 +646,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 3) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index a643992..82d8cdb 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -567,7 +567,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastmid) remap(data,data,remap_fastmid);
@@ -585,7 +585,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowmid) remap(data,data,remap_slowmid);
@@ -641,7 +641,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remap_fastmid) remap(data,data,remap_fastmid);
     if (remap_midslow) remap(data,data,remap_midslow);
@@ -651,7 +651,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowmid) remap(data,data,remap_slowmid);
     if (remap_midfast) remap(data,data,remap_midfast);
@@ -679,7 +679,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastmid) remap(in,out,remap_fastmid);
     } else if (which == 3) {
@@ -691,7 +691,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 4) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     } else if (which == 3) {
       if (remap_slowmid) remap(in,out,remap_slowmid);
     } else if (which == 2) {
-- 
2.43.0


From fffc3e76a60d8df799fc2c48cd1dabf3ba9f84f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:17 +0000
Subject: [PATCH 02/20] fix: last remap of a backward compute reads the
 transformed data, not the input array

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 108d44d..135a0f2 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -558,7 +558,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 82d8cdb..d913b2a 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -598,7 +598,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
-- 
2.43.0


From 038a057e60888020d0e198b61a184aa2f089a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:17 +0000
Subject: [PATCH 03/20] fix: second stage of a brick remap starts from the
 result of the first, also when in != out

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 135a0f2..ed6b4dd 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1056,7 +1056,7 @@ void FFT2d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap2d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap2d_extra) 
-    remap->remap2d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap2d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index d913b2a..145174e 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1117,7 +1117,7 @@ void FFT3d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap3d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap3d_extra) 
-    remap->remap3d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap3d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From 6f8392bc6971ebd2a5cdb5870b0f091c9d7dad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:17 +0000
Subject: [PATCH 04/20] fix: count the brick to fast remap of the inverse FFT
 in the reported buffer sizes

---
 src/fft3d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 145174e..fe77448 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1372,6 +1372,8 @@ void FFT3d::remap_inverse_create(int &sendsize, int &recvsize)
       setup(brick_jlo,brick_jhi,brick_klo,brick_khi,brick_ilo,brick_ihi,
             fast_jlo,fast_jhi,fast_klo,fast_khi,fast_ilo,fast_ihi,
             2,2,0,ssize,rsize);
+    sendsize = MAX(sendsize,ssize);
+    recvsize = MAX(recvsize,rsize);
   }
 
   // remap uses I=fast, J=mid, K=slow, b/c current permute=0
-- 
2.43.0


From 5691d7d0393094a4b74da0ce9199e1a389a78124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:17 +0000
Subject: [PATCH 05/20] fix: backward scaling covers the input layout, which
 backward delivers

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index ed6b4dd..f1ca061 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -428,7 +428,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index fe77448..3490805 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -459,7 +459,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nmid*nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
-- 
2.43.0


From 068769dfd1b5e933ecaf8bb56e4d14df7d1109b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:43 +0000
Subject: [PATCH 06/20] fix: all procs choose tuned settings from the same
 trial times

---
 src/fft2d.cpp | 4 ++++
 src/fft3d.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index f1ca061..50ff01f 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -988,6 +988,10 @@ void FFT2d::tune_trial(FFT_SCALAR *data, int nper, int flag, int tflag,
   time2 = MPI_Wtime();
   time2d = time2-time1;
 
+  // insure all procs use exact same time to choose fastest settings
+
+  MPI_Bcast(&time2d,1,MPI_DOUBLE,0,world);
+
   if (tflag) {
     if (flag)
       for (int i = 0; i < nper; i++)
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 3490805..05f4742 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1047,6 +1047,10 @@ void FFT3d::tune_trial(FFT_SCALAR *data, int nper, int flag, int tflag,
   time2 = MPI_Wtime();
   time3d = time2-time1;
 
+  // insure all procs use exact same time to choose fastest settings
+
+  MPI_Bcast(&time3d,1,MPI_DOUBLE,0,world);
+
   if (tflag) {
     if (flag)
       for (int i = 0; i < nper; i++)
-- 
2.43.0


From e2ce4bb18d051c52eac544286fd9d869f0b1b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:43 +0000
Subject: [PATCH 07/20] fix: 2d memcpy pack/unpack copy nfast values in single
 precision too

---
 src/pack2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack2d.h b/src/pack2d.h
index d296efc..433d0ef 100644
--- a/src/pack2d.h
+++ b/src/pack2d.h
@@ -322,7 +322,7 @@ static void pack_2d_memcpy(PACK_DATA *data, PACK_DATA *buf,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(buf[slow*nfast]);
     out = &(data[slow*nstride]);
@@ -346,7 +346,7 @@ static void unpack_2d_memcpy(PACK_DATA *buf, PACK_DATA *data,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(data[slow*nstride]);
     out = &(buf[slow*nfast]);
-- 
2.43.0


From 755571db3fe34cf50b24af459ca8d3cb95031e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 08/20] fix: initialise the tuning results of a 2d FFT as for a
 3d one

---
 src/fft2d.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 50ff01f..f06a6d3 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -130,6 +130,12 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
   scaled = 1;
   remaponly = 0;
 
+  // tuning results
+
+  ntrial = npertrial = 0;
+  cbest = ebest = pbest = -1;
+  besttime = 0.0;
+
   // Memory and Error classes
 
   memory = new Memory();
-- 
2.43.0


From 2c671d60987c78df8ba16fb1b63dc9368e230fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 09/20] fix: a 2d FFT can be destroyed without having been set
 up

---
 src/fft2d.cpp | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index f06a6d3..75ce852 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -189,24 +189,8 @@ FFT2d::~FFT2d()
   delete [] primes;
   delete [] factors;
 
-  deallocate_remap(remap_prefast);
-  deallocate_remap(remap_fastslow);
-  deallocate_remap(remap_postslow);
-
-  deallocate_remap(remap_preslow);
-  deallocate_remap(remap_slowfast);
-  deallocate_remap(remap_postfast);
-
-  deallocate_ffts();
-  delete fft_fast;
-  delete fft_slow;
-
-  // only deallocated send/recv bufs if allocated internally
-
-  if (memoryflag) {
-    memory->sfree(sendbuf);
-    memory->sfree(recvbuf);
-  }
+  if (setupflag) deallocate_setup();
+  if (memoryflag) deallocate_setup_memory();
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From c7f5456eabd8a1b97e72bd43715cfcc65f619abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 10/20] fix: refuse a second setup of a 2d FFT like for a 3d
 one

---
 src/fft2d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 75ce852..cf343a4 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -224,6 +224,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 {
   int flag,allflag;
 
+  if (setupflag) error->all("FFT is already setup");
   setupflag = 1;
 
   // internal copies of input params
-- 
2.43.0


From 1c83cfa8237aec8150b964ff4c01288673ef4bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 11/20] fix: a remap can be destroyed without having been set
 up

---
 src/remap2d.cpp | 6 ++++++
 src/remap3d.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 92028f2..cde41af 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -90,9 +90,15 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  pgroup = NULL;
+  newcomm = MPI_COMM_NULL;
+  sendcnts = senddispls = sendmap = NULL;
+  recvcnts = recvdispls = recvmap = NULL;
+
   memusage = 0;
   sendbuf = recvbuf = NULL;
 
+  memoryflag = 0;
   setupflag = 0;
 }
 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 948056e..5e5a51f 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -90,9 +90,15 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  pgroup = NULL;
+  newcomm = MPI_COMM_NULL;
+  sendcnts = senddispls = sendmap = NULL;
+  recvcnts = recvdispls = recvmap = NULL;
+
   memusage = 0;
   sendbuf = recvbuf = NULL;
 
+  memoryflag = 0;
   setupflag = 0;
 }
 
-- 
2.43.0


From c1ae65750bdd3933ab049c231958e1e74a29204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 12/20] fix: destructors use the Memory instance before
 deleting it

---
 src/fft2d.cpp   | 6 +++---
 src/fft3d.cpp   | 6 +++---
 src/remap2d.cpp | 6 +++---
 src/remap3d.cpp | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index cf343a4..fff0547 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -183,14 +183,14 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
 FFT2d::~FFT2d()
 {
-  delete memory;
-  delete error;
-
   delete [] primes;
   delete [] factors;
 
   if (setupflag) deallocate_setup();
   if (memoryflag) deallocate_setup_memory();
+
+  delete memory;
+  delete error;
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 05f4742..b03e331 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -183,14 +183,14 @@ FFT3d::FFT3d(MPI_Comm user_comm, int user_precision)
 
 FFT3d::~FFT3d()
 {
-  delete memory;
-  delete error;
-
   delete [] primes;
   delete [] factors;
 
   if (setupflag) deallocate_setup();
   if (memoryflag) deallocate_setup_memory();
+
+  delete memory;
+  delete error;
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index cde41af..2b83350 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -108,9 +108,6 @@ Remap2d::Remap2d(MPI_Comm user_comm)
 
 Remap2d::~Remap2d()
 {
-  delete memory;
-  delete error;
-
   // free new MPI communicator for collective comm
 
   if (collective) {
@@ -150,6 +147,9 @@ Remap2d::~Remap2d()
     memory->sfree(sendbuf);
     memory->sfree(recvbuf);
   }
+
+  delete memory;
+  delete error;
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 5e5a51f..51678be 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -108,9 +108,6 @@ Remap3d::Remap3d(MPI_Comm user_comm)
 
 Remap3d::~Remap3d()
 {
-  delete memory;
-  delete error;
-
   // free new MPI communicator for collective comm
 
   if (collective) {
@@ -150,6 +147,9 @@ Remap3d::~Remap3d()
     memory->sfree(sendbuf);
     memory->sfree(recvbuf);
   }
+
+  delete memory;
+  delete error;
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From e1100e0c80a991e4c565a04e1b783eaf5a54a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:09 +0000
Subject: [PATCH 13/20] fix: Fortran setup_memory passes the buffers
 themselves, not the address of a pointer

---
 src/fft2d_wrap.f90 | 2 +-
 src/fft3d_wrap.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d_wrap.f90 b/src/fft2d_wrap.f90
index afe43d9..b7a1494 100644
--- a/src/fft2d_wrap.f90
+++ b/src/fft2d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft2d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft2d_setup_memory
 
   subroutine fft2d_compute(ptr,in,out,flag) bind(c)
diff --git a/src/fft3d_wrap.f90 b/src/fft3d_wrap.f90
index f6ccc2a..f80082a 100644
--- a/src/fft3d_wrap.f90
+++ b/src/fft3d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft3d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft3d_setup_memory
 
   subroutine fft3d_compute(ptr,in,out,flag) bind(c)
-- 
2.43.0


From 096f5ddc446341b10bd3d520d3849792962d654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 14/20] fix: only_one_remap copies the data when in != out and
 the last step needs no remap

---
 src/fft2d.cpp | 2 ++
 src/fft3d.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index fff0547..d082b2b 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -632,6 +632,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
       if (remap_postslow) remap(in,out,remap_postslow);
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     }
 
   } else {
@@ -642,6 +643,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
       if (remap_postfast) remap(in,out,remap_postfast);
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     }
   }
 }
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index b03e331..92e01dd 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -686,6 +686,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_midslow) remap(in,out,remap_midslow);
     } else if (which == 4) {
       if (remap_postslow) remap(in,out,remap_postslow);
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     }
 
   } else {
@@ -698,6 +699,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_midfast) remap(in,out,remap_midfast);
     } else if (which == 1) {
       if (remap_postfast) remap(in,out,remap_postfast);
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     }
   }
 }
-- 
2.43.0


From 44477717efae2f1e8f25d6e0deb6408840b49dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 15/20] fix: Python setup_memory passes the arrays given
 instead of unassigned variables

---
 src/fftmpi.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 4b7a2d4..c36ff1f 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -210,11 +210,11 @@ class FFT3dMPI:
       sys.exit()
       
     if self.precision == 1:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_float))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_float))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_float))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_float))
     else:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_double))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_double))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
     self.lib.fft3d_setup_memory(self.fft,csendbuf,crecvbuf)
       
@@ -464,11 +464,11 @@ class FFT2dMPI:
       sys.exit()
       
     if self.precision == 1:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_float))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_float))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_float))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_float))
     else:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_double))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_double))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
     self.lib.fft2d_setup_memory(self.fft,csendbuf,crecvbuf)
       
-- 
2.43.0


From 919fcac519239fc8719c9a3c660af7d863ee4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 16/20] fix: Python Remap3dMPI/Remap2dMPI can be created
 (restype was set on a function that does not exist)

---
 src/fftmpi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index c36ff1f..5dafb86 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -597,7 +597,7 @@ class Remap3dMPI:
       self.lib.remap3d_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),
            POINTER(c_double),POINTER(c_double)]
-    self.lib.remap3d_compute.restype = None
+    self.lib.remap3d_remap.restype = None
 
     # create an instance of Remap3d
 
@@ -700,7 +700,7 @@ class Remap2dMPI:
       self.lib.remap2d_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),
          POINTER(c_double),POINTER(c_double)]
-    self.lib.remap2d_compute.restype = None
+    self.lib.remap2d_remap.restype = None
 
     # create an instance of Remap2d
 
-- 
2.43.0


From 8b15ef9dc7ea17ae05a658391070ff6aa5aa50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 17/20] fix: Python remap handle no longer hides the remap()
 method

---
 src/fftmpi.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 5dafb86..3c2c853 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -601,29 +601,29 @@ class Remap3dMPI:
 
     # create an instance of Remap3d
 
-    self.remap = c_void_p()
+    self.rmap = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap3d_create(comm_value,precision,byref(self.remap))
+    self.lib.remap3d_create(comm_value,precision,byref(self.rmap))
 
   # destroy instance of Remap3d
   
   def __del__(self):
-    self.lib.remap3d_destroy(self.remap)
+    self.lib.remap3d_destroy(self.rmap)
 
   def destroy(self):
-    self.lib.remap3d_destroy(self.remap)
+    self.lib.remap3d_destroy(self.rmap)
     self.lib = None
 
   # setup
 
   def set(self,keyword,value):
-    self.lib.remap3d_set(self.remap,keyword,value)
+    self.lib.remap3d_set(self.rmap,keyword,value)
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
             out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
             nqty,permute,memoryflag):
-    self.lib.remap3d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
+    self.lib.remap3d_setup(self.rmap,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
                            out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
                            nqty,permute,memoryflag,sendsize,recvsize)
     return sendsize,recvsize
@@ -649,7 +649,7 @@ class Remap3dMPI:
       csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
       crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
-    self.lib.remap3d_remap(self.remap,cin,cout,csendbuf,crecvbuf)
+    self.lib.remap3d_remap(self.rmap,cin,cout,csendbuf,crecvbuf)
 
 # ------------------------------------------------------------------
 # instantiate remap2dMPI thru its C-interface
@@ -704,28 +704,28 @@ class Remap2dMPI:
 
     # create an instance of Remap2d
 
-    self.remap = c_void_p()
+    self.rmap = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap2d_create(comm_value,precision,byref(self.remap))
+    self.lib.remap2d_create(comm_value,precision,byref(self.rmap))
 
   # destroy instance of Remap2d
   
   def __del__(self):
-    self.lib.remap2d_destroy(self.remap)
+    self.lib.remap2d_destroy(self.rmap)
 
   def destroy(self):
-    self.lib.remap2d_destroy(self.remap)
+    self.lib.remap2d_destroy(self.rmap)
     self.lib = None
 
   # setup
 
   def set(self,keyword,value):
-    self.lib.remap2d_set(self.remap,keyword,value)
+    self.lib.remap2d_set(self.rmap,keyword,value)
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,
             out_ilo,out_ihi,out_jlo,out_jhi,nqty,permute,memoryflag):
-    self.lib.remap2d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,
+    self.lib.remap2d_setup(self.rmap,in_ilo,in_ihi,in_jlo,in_jhi,
                            out_ilo,out_ihi,out_jlo,out_jhi,
                            nqty,permute,memoryflag,sendsize,recvsize)
     return sendsize,recvsize
@@ -751,4 +751,4 @@ class Remap2dMPI:
       csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
       crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
-    self.lib.remap2d_remap(self.remap,cin,cout,csendbuf,crecvbuf)
+    self.lib.remap2d_remap(self.rmap,cin,cout,csendbuf,crecvbuf)
-- 
2.43.0


From c202c179a2450256151449285ebf637578e033a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 18/20] fix: Python remap setup returns the send and receive
 sizes instead of using undefined names

---
 src/fftmpi.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 3c2c853..37af64f 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -586,7 +586,7 @@ class Remap3dMPI:
     self.lib.remap3d_setup.argtypes = \
       [c_void_p,c_int,c_int,c_int,c_int,c_int,c_int,
        c_int,c_int,c_int,c_int,c_int,c_int,
-       c_int,c_int,c_int,POINTER(c_int)]
+       c_int,c_int,c_int,POINTER(c_int),POINTER(c_int)]
     self.lib.remap3d_setup.restype = None
     
     if precision == 1:
@@ -623,9 +623,14 @@ class Remap3dMPI:
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
             out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
             nqty,permute,memoryflag):
+    sendsize = c_int()
+    recvsize = c_int()
     self.lib.remap3d_setup(self.rmap,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
                            out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
-                           nqty,permute,memoryflag,sendsize,recvsize)
+                           nqty,permute,memoryflag,
+                           byref(sendsize),byref(recvsize))
+    sendsize = sendsize.value
+    recvsize = recvsize.value
     return sendsize,recvsize
       
   # remap
@@ -689,7 +694,7 @@ class Remap2dMPI:
     
     self.lib.remap2d_setup.argtypes = \
     [c_void_p,c_int,c_int,c_int,c_int,c_int,c_int,c_int,c_int,
-        c_int,c_int,c_int,POINTER(c_int)]
+        c_int,c_int,c_int,POINTER(c_int),POINTER(c_int)]
     self.lib.remap2d_setup.restype = None
     
     if precision == 1:
@@ -725,9 +730,14 @@ class Remap2dMPI:
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,
             out_ilo,out_ihi,out_jlo,out_jhi,nqty,permute,memoryflag):
+    sendsize = c_int()
+    recvsize = c_int()
     self.lib.remap2d_setup(self.rmap,in_ilo,in_ihi,in_jlo,in_jhi,
                            out_ilo,out_ihi,out_jlo,out_jhi,
-                           nqty,permute,memoryflag,sendsize,recvsize)
+                           nqty,permute,memoryflag,
+                           byref(sendsize),byref(recvsize))
+    sendsize = sendsize.value
+    recvsize = recvsize.value
     return sendsize,recvsize
       
   # remap
-- 
2.43.0


From 056ca492b9e48902b691779284d2e31e10fca932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 19/20] fix: Python objects are not destroyed a second time
 (and raise nothing) after destroy()

---
 src/fftmpi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 37af64f..d3c687a 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -149,7 +149,7 @@ class FFT3dMPI:
   # destroy instance of fftMPI
   
   def __del__(self):
-    self.lib.fft3d_destroy(self.fft)
+    if self.lib: self.lib.fft3d_destroy(self.fft)
 
   def destroy(self):
     self.lib.fft3d_destroy(self.fft)
@@ -405,7 +405,7 @@ class FFT2dMPI:
   # destroy instance of fftMPI
   
   def __del__(self):
-    self.lib.fft2d_destroy(self.fft)
+    if self.lib: self.lib.fft2d_destroy(self.fft)
 
   def destroy(self):
     self.lib.fft2d_destroy(self.fft)
@@ -609,7 +609,7 @@ class Remap3dMPI:
   # destroy instance of Remap3d
   
   def __del__(self):
-    self.lib.remap3d_destroy(self.rmap)
+    if self.lib: self.lib.remap3d_destroy(self.rmap)
 
   def destroy(self):
     self.lib.remap3d_destroy(self.rmap)
@@ -717,7 +717,7 @@ class Remap2dMPI:
   # destroy instance of Remap2d
   
   def __del__(self):
-    self.lib.remap2d_destroy(self.rmap)
+    if self.lib: self.lib.remap2d_destroy(self.rmap)
 
   def destroy(self):
     self.lib.remap2d_destroy(self.rmap)
-- 
2.43.0


From d135fee63513ce6b8c30972514108226d7f1d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:40 +0000
Subject: [PATCH 20/20] fix: Python remap constructors call
 remap2d_create/remap3d_create with their two arguments

---
 src/fftmpi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index d3c687a..1983c8b 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -574,7 +574,7 @@ class Remap3dMPI:
     if mpi4pyflag and MPI._sizeof(comm) == sizeof(c_int): MPI_Comm = c_int
     else: MPI_Comm = c_void_p
 
-    self.lib.remap3d_create.argtypes = [MPI_Comm,c_int,POINTER(c_void_p)]
+    self.lib.remap3d_create.argtypes = [MPI_Comm,POINTER(c_void_p)]
     self.lib.remap3d_create.restype = None
 
     self.lib.remap3d_destroy.argtypes = [c_void_p]
@@ -604,7 +604,7 @@ class Remap3dMPI:
     self.rmap = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap3d_create(comm_value,precision,byref(self.rmap))
+    self.lib.remap3d_create(comm_value,byref(self.rmap))
 
   # destroy instance of Remap3d
   
@@ -683,7 +683,7 @@ class Remap2dMPI:
     if mpi4pyflag and MPI._sizeof(comm) == sizeof(c_int): MPI_Comm = c_int
     else: MPI_Comm = c_void_p
 
-    self.lib.remap2d_create.argtypes = [MPI_Comm,c_int,POINTER(c_void_p)]
+    self.lib.remap2d_create.argtypes = [MPI_Comm,POINTER(c_void_p)]
     self.lib.remap2d_create.restype = None
 
     self.lib.remap2d_destroy.argtypes = [c_void_p]
@@ -712,7 +712,7 @@ class Remap2dMPI:
     self.rmap = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap2d_create(comm_value,precision,byref(self.rmap))
+    self.lib.remap2d_create(comm_value,byref(self.rmap))
 
   # destroy instance of Remap2d
   
-- 
2.43.0

