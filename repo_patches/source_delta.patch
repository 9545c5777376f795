From 741ab39048f0660301c678ef6659eb3e446b07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 01/40] fix: HIID::push_front moves whole elements, not sz0
 bytes

---
 DMI/src/HIID.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/HIID.h b/DMI/src/HIID.h
index 6cce12f..789a145 100644
--- a/DMI/src/HIID.h
+++ b/DMI/src/HIID.h
@@ -411,7 +411,7 @@ inline void HIID::push_front (AtomicID aid,uint n)
   {
     int sz0 = size();
     resize(sz0+n);
-    memmove(&(*this)[n],&(front()),sz0);
+    memmove(&(*this)[n],&(front()),sz0*sizeof(AtomicID));
     iterator iter = begin();
     for( uint i=0; i < n; i++,iter++ )
       *iter = aid;
-- 
2.43.0


From 98c4bd467c1e82fdcb7f39e386e88fd59c32ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 02/40] fix: HIID::subId counts negative positions from the end

---
 DMI/src/HIID.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DMI/src/HIID.cc b/DMI/src/HIID.cc
index d57ea1e..425056e 100644
--- a/DMI/src/HIID.cc
+++ b/DMI/src/HIID.cc
@@ -44,8 +44,8 @@ HIID::HIID (const void* block, int sz)
 //##ModelId=3C55695F00CC
 HIID HIID::subId (int first, int last) const
 {
-  const_iterator iter1 = first >= 0 ? begin()+first : end()-first;
-  const_iterator iter2 = last >= 0 ? begin()+(last+1) : end()-(last+1);
+  const_iterator iter1 = first >= 0 ? begin()+first : end()+first;
+  const_iterator iter2 = last >= 0 ? begin()+(last+1) : end()+(last+1);
   if( iter1 >= iter2 )
     return HIID();
   else
-- 
2.43.0


From 14040b54f24601f35adbe0538b7ceafab51bcc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 03/40] fix: CountedRef cloning destroys the old target when it
 lets go of its last ref

---
 DMI/src/CountedRefBase.cc | 13 ++++++++++---
 DMI/src/CountedRefBase.h  |  6 +++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/DMI/src/CountedRefBase.cc b/DMI/src/CountedRefBase.cc
index 9baa38c..42f5899 100644
--- a/DMI/src/CountedRefBase.cc
+++ b/DMI/src/CountedRefBase.cc
@@ -50,7 +50,10 @@ InitDebugContext(CountedRefBase,"CRef");
 //   Helper function called to actually clone a ref's target_
 //   (either from privatize directly, or via delayed-cloning)
 //##ModelId=3DB9346500B5
-void CountedRefBase::cloneTarget (int flags,int depth) const
+//   The old target_ is handed over to old_ref: the caller must let go of it
+//   only after having released all locks on the old target_ (since this deletes
+//   the target_, if it was anon_ and we were the only ref)
+void CountedRefBase::cloneTarget (int flags,int depth,CountedRefBase &old_ref) const
 {
   if( !valid() )
     return;
@@ -76,7 +79,7 @@ void CountedRefBase::cloneTarget (int flags,int depth) const
   prev_ = next_ = 0;
   newtarget_->owner_ref_ = const_cast<CountedRefBase*>(this);
 #else
-  target_->ref_count_--;
+  old_ref.target_ = target_;
   newtarget_->ref_count_ = 1;
 #endif
   target_ = newtarget_;
@@ -220,6 +223,8 @@ void CountedRefBase::xfer (CountedRefBase& other,int flags,int depth)
     // deep copy? do a privatize now
     if( flags&DMI::DEEP || depth>0 )
     {
+      // release lock, since we may be the only ref to the target_
+      other_target_lock.release();
       // clear all properties (privatize() will set them up according to flags)
       locked_ = false;
       privatize(flags,depth);
@@ -237,13 +242,15 @@ bool CountedRefBase::privatize (int flags, int depth)
   const int mask_local_flags = DMI::LOCKED|DMI::UNLOCKED|DMI::SHARED|DMI::COW;
   FailWhen( !valid(),"can't privatize an invalid ref" );
   dprintf1(2)("%s: privatizing to depth %d\n",debug(),flags&DMI::DEEP?-1:depth);
+  // takes over the old target_ if we clone; goes away after the lock is released
+  CountedRefBase old_ref;
   Thread::Mutex::Lock target_lock(target_->crefMutex());
   Assert1(!target_->deleted_);
   dprintf1(2)("  %s\n",target_->debug(2,"  "));
   // no cloning is done if the object is anon_ and writable_ and we are the only ref
   bool res = true;
   if( !isAnonTarget() || !isOnlyRef() || !writable_ || depth>0 || flags&DMI::DEEP)
-    cloneTarget(flags&~mask_local_flags,depth-1);
+    cloneTarget(flags&~mask_local_flags,depth-1,old_ref);
   else
     res = false;
   // now change ref properties if asked to
diff --git a/DMI/src/CountedRefBase.h b/DMI/src/CountedRefBase.h
index 2e024eb..eb75470 100644
--- a/DMI/src/CountedRefBase.h
+++ b/DMI/src/CountedRefBase.h
@@ -143,7 +143,11 @@ class CountedRefBase
         Thread::Mutex::Lock target_lock(target_->crefMutex());
         Assert1(!target_->deleted_);
         if( !isDirectlyWritable() )
+        {
+          // release lock, since the COW may let go of the old target
+          target_lock.release();
           privatize();  // do COW
+        }
         return target_;
       }
 
@@ -377,7 +381,7 @@ class CountedRefBase
 
       // helper function to do the delayed cloning
     //##ModelId=3DB9346500B5
-      void cloneTarget (int flags,int depth) const;
+      void cloneTarget (int flags,int depth,CountedRefBase &old_ref) const;
 
       //##ModelId=3C15DF4D036D
       //##Documentation
-- 
2.43.0


From 15e576b89a00a7f06a65c3a1f285e4e540f98020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 04/40] fix: CountedRef copy and xfer from a ref inside the old
 target

---
 DMI/src/CountedRefBase.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/DMI/src/CountedRefBase.cc b/DMI/src/CountedRefBase.cc
index 42f5899..f832597 100644
--- a/DMI/src/CountedRefBase.cc
+++ b/DMI/src/CountedRefBase.cc
@@ -130,6 +130,14 @@ void CountedRefBase::copy (const CountedRefBase& other, int flags, int depth)
   if( &other == this )
     return;
   dprintf(2)("copying from %s(%x,%d)\n",other.debug(),flags,depth);
+  // other may be a part of our current target_ and go away with it when we 
+  // detach, so secure the new target_ first
+  if( valid() && other.valid() )
+  {
+    CountedRefBase tmp(other);
+    xfer(tmp,flags,depth);
+    return;
+  }
   detach();
   // do a little jig and dance to make sure the other is not deleting the target
   // as we speak
@@ -184,6 +192,17 @@ void CountedRefBase::xfer (CountedRefBase& other,int flags,int depth)
   if( &other == this )
     return;
   dprintf(3)("xferring from %s\n",other.debug());
+  // other may be a part of our current target_ and go away with it when we 
+  // detach, so secure the new target_ first
+  if( valid() && other.valid() )
+  {
+    FailWhen( isLocked(),"can't detach a locked_ ref");
+    CountedRefBase tmp;
+    tmp.xfer(other);
+    detach();
+    xfer(tmp,flags,depth);
+    return;
+  }
   detach();
   if( !other.valid() )
     empty();
-- 
2.43.0


From 8ef697c6d01e2ecfbbbce07e239d2013a4d1b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 05/40] fix: NumArray: set the data pointer also when an array
 is copied as a different object type

---
 DMI/src/NumArray.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 62aa43c..03aa32e 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -241,7 +241,6 @@ void DMI::NumArray::cloneOther (const NumArray& other,int flags,int depth,bool c
       Header *hdr = itsData().pdata<Header>();
       BObj::fillHeader(hdr,1,realtype);
     }
-    else
     itsArrayData = const_cast<char*>(itsData->cdata()) + itsDataOffset;
     // strings need to be initialized & copied over explicitly
     if( itsScaType == Tpstring )
-- 
2.43.0


From a1121e7cd9c5a6cf0f3b0b030aa6ca413f210b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 06/40] fix: Vells: operator ~ inverted the uninitialised
 result instead of its operand

---
 MEQ/src/Vells.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 8583d01..e412ef8 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -692,8 +692,9 @@ DoForAllUnaryOperators(implementUnaryOperator,);
   Meq::Vells Meq::Vells::operator OPER () const \
   { \
     Vells result(*this,VF_FLAGTYPE,"operator "#OPER); \
-    for( FT *ptr = result.begin<FT>(); ptr != result.end<FT>(); ptr++ ) \
-       (*ptr) = OPER (*ptr); \
+    const FT *px = begin<FT>(); \
+    for( FT *ptr = result.begin<FT>(); ptr != result.end<FT>(); px++,ptr++ ) \
+       (*ptr) = OPER (*px); \
     return result; \
   }
 
-- 
2.43.0


From c3e41aaa2692ee75fed0b59dc36dac9a4361d691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 07/40] fix: Vells: max() of negative values was bounded below
 by the smallest positive double

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index e412ef8..6fefbcb 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -844,7 +844,7 @@ inline dcomplex mkconst (int x,dcomplex *)
 defineReductionFuncTemplate(min,std::numeric_limits<TY>::max());
 defineErrorRedFuncTemplate(min,"min() can only be applied to a real Meq::Vells");
 #define Do_max(y,x) y=max(x,y)
-defineReductionFuncTemplate(max,std::numeric_limits<TY>::min());
+defineReductionFuncTemplate(max,-std::numeric_limits<TY>::max());
 defineErrorRedFuncTemplate(max,"max() can only be applied to a real Meq::Vells");
 
 Meq::Vells::UnaryRdFuncPtr Meq::Vells::unifunc_min_lut[VELLS_LUT_SIZE] =
-- 
2.43.0


From b3af57d7b8aeacfd0594a352f7720deec81b49fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 08/40] fix: Vells: sum() and product() over-normalised when
 the flags vary along axes along which the data is constant

---
 MEQ/src/Vells.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 6fefbcb..d3d7f9f 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -876,12 +876,23 @@ Meq::Vells::UnaryRdFuncPtr Meq::Vells::unifunc_mean_lut[VELLS_LUT_SIZE] =
 // fact that a Vells constant along axis #i will only contain one
 // actual value to represent Ni points.
 // The renormalization term is (N points in full shape)/(N actual points in Vells)
+static int renormFactor (const Meq::Vells &x,const Meq::Vells::Shape &shape,FT flagmask)
+{
+  if( !flagmask || !x.hasDataFlags() )
+    return shape.product()/x.nelements();
+  // with flags, the data has been expanded to the union of the data shape and the flag shape
+  Meq::Vells::Shape shp;
+  Meq::Vells::Strides st[2];
+  Meq::Vells::computeStrides(shp,st,x.shape(),x.dataFlags().shape(),"renormFactor");
+  return shape.product()/shp.product();
+}
+
 template<class TY,class TX>
 static void implement_sum (Meq::Vells &y,const Meq::Vells &x,const Meq::Vells::Shape &shape,FT flagmask)
 {
   int nel;
   TY y0 = implement_sum_impl(nel,x,flagmask,Type2Type<TY>(),Type2Type<TX>());
-  int renorm = shape.product()/x.nelements(); // renorm factor for collapsed dimensions
+  int renorm = renormFactor(x,shape,flagmask); // renorm factor for collapsed dimensions
   y.as(Type2Type<TY>()) = y0 * mkconst(renorm,&y0);
 }
 
@@ -892,7 +903,7 @@ static void implement_product (Meq::Vells &y,const Meq::Vells &x,const Meq::Vell
 {
   int nel;
   TY y0 = implement_product_impl(nel,x,flagmask,Type2Type<TY>(),Type2Type<TX>());
-  int renorm = shape.product()/x.nelements(); // renorm factor for collapsed dimensions
+  int renorm = renormFactor(x,shape,flagmask); // renorm factor for collapsed dimensions
   y.as(Type2Type<TY>()) = pow(y0,renorm);
 }
 
-- 
2.43.0


From 5024c3325c41fa08781a645fd9aea8c54ad72c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 09/40] fix: Vells: posdiff() wrapped by 2/pi instead of 2*pi

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index d3d7f9f..6739584 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -1224,7 +1224,7 @@ Meq::Vells::BinaryOperPtr Meq::Vells::binfunc_polar_lut[VELLS_LUT_SIZE][VELLS_LU
 static inline double posdiff (double x,double y)
 {
   double diff = x-y;
-  return diff < -M_PI ? diff + M_2_PI : ( diff > M_PI ? diff - M_2_PI : diff );
+  return diff < -M_PI ? diff + 2*M_PI : ( diff > M_PI ? diff - 2*M_PI : diff );
 }
 defineBinaryFuncTemplate(posdiff,posdiff,);
 defineErrorFunc2(error_binary_posdiff,"posdiff() can only be applied to two real Meq::Vells");
-- 
2.43.0


From 434f641e7a80a381feae7d0848f9fde83d2bf662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 10/40] fix: Vells: arg() of a real value read past the value

---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 6739584..5a22648 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -602,7 +602,7 @@ inline T UNARY_MINUS_impl (T x)
 
 inline double arg (const double x)
 {
-    return std::arg(*reinterpret_cast<const std::complex<double>*>(&x));
+    return std::arg(x);
 }
 #else
 
-- 
2.43.0


From b5636d9e40f67aff1de53fbdf236b768d42d830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 11/40] fix: NodeNursery: an asynchronous poll in one thread
 kept stale return codes of disabled children

---
 MEQ/src/NodeNursery.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 8448c56..316b2eb 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -220,6 +220,8 @@ int NodeNursery::startAsyncPoll (const Request &req,int depth)
     for( int i=0; i<numChildren(); i++ )
       if( isChildEnabled(i) )
         numchildren++;
+      else
+        child_retcodes_[i] = 0;
   }
   if( numchildren )
   {
-- 
2.43.0


From 8127011a974c7a28bf71de06274973a59d3905cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 12/40] fix: NodeNursery: the multithreaded background poll
 tested the enabled flag of a different child

---
 MEQ/src/NodeNursery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 316b2eb..386d439 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -644,7 +644,7 @@ void NodeNursery::backgroundPoll (const Request &req,int depth)
     for( int i=numChildren()-1; i>=0; i-- )
     {
       int ichild = child_poll_order_[i];
-      if( isChildEnabled(i) )
+      if( isChildEnabled(ichild) )
       {
         mt.cur_brigade_->placeWorkOrder(new MTPool::WorkOrder(
             *this,&NodeNursery::mt_receiveBackgroundResult,getChild(ichild),ichild,req,depth));
-- 
2.43.0


From a5b7af4614317138f6bdad2367ce60fdf0cdd652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 13/40] fix: Node: stepchildren were polled by the fail policy
 when data was missing

---
 MEQ/src/Node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 6cf6de5..287c7ff 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -906,7 +906,7 @@ int Node::pollChildren (Result::Ref &resref,
   // if aborted, return without polling stepchildren
   if( retcode&RES_ABORT ||
       ( retcode&RES_FAIL && children().failPolicy() == AidAbandonPropagate ) ||
-      ( retcode&RES_MISSING && children().failPolicy() == AidAbandonPropagate ) )
+      ( retcode&RES_MISSING && children().missingDataPolicy() == AidAbandonPropagate ) )
   {
     timers().children.stop();
     return retcode;
-- 
2.43.0


From c1e7d401eb9ac4ae1a647bd5ea44cd50e7124e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 14/40] fix: NodeNursery: a worker thread that abandons a
 multithreaded poll wakes up the polling thread

---
 MEQ/src/NodeNursery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 386d439..ce0f068 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -460,7 +460,7 @@ void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
   timer().add(res.timer);
   // wake parent thread since it may be waiting for a child result
   mt.child_retcount_++;
-  if( mt.child_retcount_ >= mt.numchildren_ )
+  if( mt.child_retcount_ >= mt.numchildren_ || mt.abandon_ )
     mt.child_poll_cond_.broadcast();
   // if abandoning poll, clear work order queue. Due to the mutex lock
   // above, this will happen only once
-- 
2.43.0


From fd8791afd40d7e7a791a36abf1a12bb5c32f051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 15/40] fix: NodeNursery: a child that aborts a multithreaded
 poll abandons it even if it also reports missing data

---
 MEQ/src/NodeNursery.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index ce0f068..506ade9 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -440,8 +440,10 @@ void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
   // store result in child result queue
   (*mt.pchildres_)[ichild].xfer(res.resref);
   child_cumul_retcode_ |= child_retcodes_[ichild] = res.retcode;
+  if( res.retcode&NodeFace::RES_ABORT )
+    mt.abandon_ = true;
   // register a fail if received
-  if( res.retcode&NodeFace::RES_FAIL )
+  else if( res.retcode&NodeFace::RES_FAIL )
   {
     const Result * pchildres = (*mt.pchildres_)[ichild].deref_p();
     child_fails_.push_back(pchildres);
@@ -454,8 +456,6 @@ void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
     if( missingDataPolicy() == AidAbandonPropagate )
       mt.abandon_ = true;
   }
-  else if( res.retcode&NodeFace::RES_ABORT )
-    mt.abandon_ = true;
   // add time to profiling timer
   timer().add(res.timer);
   // wake parent thread since it may be waiting for a child result
-- 
2.43.0


From a66cb9ac7083e3098baeb7accf2c2454bc8a156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 16/40] fix: NodeNursery: asynchronous and background polls do
 not inherit the abandon flag of an earlier poll

---
 MEQ/src/NodeNursery.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 506ade9..9f960db 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -193,6 +193,7 @@ int NodeNursery::startAsyncPoll (const Request &req,int depth)
   if( mt_checkBrigadeAvailability(lock,req) )
   {
     mt.polling_ = true;
+    mt.abandon_ = false;
     mt.child_retcount_ = 0;
     mt.child_retqueue_.reserve(numChildren());
     mt.child_retqueue_.resize(0);
@@ -630,6 +631,7 @@ void NodeNursery::backgroundPoll (const Request &req,int depth)
   {
     background_poll_in_progress_ = true;
     mt.polling_ = true;
+    mt.abandon_ = false;
     mt.child_retcount_ = 0;
     mt.child_retqueue_.reserve(numChildren());
     mt.child_retqueue_.resize(0);
-- 
2.43.0


From eb22a93c1ae20ecb72aa0ad1afe339146820f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 17/40] fix: WPInterface: publish(id,...) publishes with the
 scope asked for (it was passed on as flags)

---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index eb11668..8fb3c32 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -1120,7 +1120,7 @@ int WPInterface::publish (Message::Ref &msg,int , int scope)
 int WPInterface::publish (const HIID &id,int,int scope, int priority)
 {
   Message::Ref msg( new Message(id,priority),DMI::ANON|DMI::WRITE );
-  return publish(msg,scope);
+  return publish(msg,0,scope);
 }
 
 //##ModelId=3CBED9EF0197
-- 
2.43.0


From d9bfade077c95ca1a0b839a6121a8398b3b9ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 18/40] fix: OctoChannel, GWServerWP: the scope of published
 messages is passed as the scope, not as flags

---
 AppAgent/AppAgent/src/OctoChannel.cc | 2 +-
 OCTOPUSSY/src/GWServerWP.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/AppAgent/AppAgent/src/OctoChannel.cc b/AppAgent/AppAgent/src/OctoChannel.cc
index df42372..684999b 100644
--- a/AppAgent/AppAgent/src/OctoChannel.cc
+++ b/AppAgent/AppAgent/src/OctoChannel.cc
@@ -229,7 +229,7 @@ void OctoChannel::postEvent (const HIID &id,const ObjRef &data,
   else
   {
     cdebug(3)<<"publishing as "<<mref->sdebug(2)<<", scope "<<scope<<endl;
-    multiplexer->publish(mref,scope);
+    multiplexer->publish(mref,0,scope);
   }
 }
 
diff --git a/OCTOPUSSY/src/GWServerWP.cc b/OCTOPUSSY/src/GWServerWP.cc
index a8e0f70..9b8b458 100755
--- a/OCTOPUSSY/src/GWServerWP.cc
+++ b/OCTOPUSSY/src/GWServerWP.cc
@@ -200,7 +200,7 @@ void GWServerWP::advertiseServer ()
     (*msg)[AidType] = type;
   }
   lprintf(4,"advertising server on %s:%d",hostname.c_str(),port);
-  publish(advertisement,
+  publish(advertisement,0,
       type == Socket::UNIX ? Message::HOST : Message::GLOBAL );
 }
 
-- 
2.43.0


From f0caff97bf1669fe5ed08606a03d697f80332143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:08 +0000
Subject: [PATCH 19/40] fix: WPInterface: an input event is not lost when the
 queue of a multithreaded work process holds its only reference

---
 OCTOPUSSY/src/WPInterface.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index 8fb3c32..bc3eb01 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -196,6 +196,9 @@ int WPInterface::deliver (Thread::Mutex::Lock &lock)
       #ifdef ENABLE_LATENCY_STATS
       qe.mref().latency.measure("RCV");
       #endif
+      // (the state must be read before it is reset: if the queue held the only
+      // reference to the message, then msg itself is reset)
+      int state = msg.state();
       qe.mref().setState(0);
 
       if( id[1] == AidTimeout ) // deliver timeout message
@@ -210,7 +213,7 @@ int WPInterface::deliver (Thread::Mutex::Lock &lock)
       else if( id[1] == AidInput ) // deliver input message
       {
         FailWhen( id.size() != 3,"malformed "+id.toString('.')+" message" );
-        int fd=id[2],flags=msg.state();
+        int fd=id[2],flags=state;
         if( flags )  // no flags? Means the input has been already removed. Ignore
         {
           res = input(fd,flags);
-- 
2.43.0


From e82582e22dc6f4dd5d6f1cc7678b59530374f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 20/40] fix: Dispatcher: the former handler of a signal is
 restored when no work process wants the signal any more

---
 OCTOPUSSY/src/Dispatcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 3dbf533..9cfd822 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -859,7 +859,7 @@ void Dispatcher::rebuildSignals (WPInterface *remove)
     else if( !newsig && oldsig ) // stop handling?
     {
       Assert(orig_sigaction[sig]);
-      sigaction(sig,0,orig_sigaction[sig]); // reset old handler
+      sigaction(sig,orig_sigaction[sig],0); // reset old handler
       delete orig_sigaction[sig];
       orig_sigaction[sig] = 0;
     }
-- 
2.43.0


From 9994053eadc834bd758f066bbbd9004a9ccf61ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 21/40] fix: Dispatcher: the descriptor of a one-shot input is
 not watched any more after the event

---
 OCTOPUSSY/src/Dispatcher.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 9cfd822..f55aacd 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -918,6 +918,7 @@ bool Dispatcher::checkEvents()
   if( num_active_fds>0 )
   {
     // iterate over all inputs
+    bool removed = false;
     for( IILI iter = inputs.begin(); iter != inputs.end(); )
     {
       // set local flags var according to state of fd
@@ -963,11 +964,15 @@ bool Dispatcher::checkEvents()
         if( iter->flags&EV_ONESHOT )
         {
           inputs.erase(iter++);
+          removed = true;
           continue;
         }
       }
       iter++;
     }
+    // stop watching the fds of the cleared events
+    if( removed )
+      rebuildInputs();
     // clear active fds 
     num_active_fds = 0;
   }
-- 
2.43.0


From 779f4d1fb6a156d6dfbf111c7dbe4b6d2e771748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 22/40] fix: Dispatcher: removeInput(-1) removes all inputs of
 the work process, and an input without events is removed even if it is a
 one-shot one

---
 OCTOPUSSY/src/Dispatcher.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index f55aacd..0bea3b1 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -691,8 +691,9 @@ bool Dispatcher::removeInput (WPInterface* pwp, int fd, int flags)
 {
   if( fd<0 )  // fd<0 means remove everything
     flags = ~0;
+  bool found = false;
   Thread::Mutex::Lock lock(inpmutex);
-  for( IILI iter = inputs.begin(); iter != inputs.end(); iter++ )
+  for( IILI iter = inputs.begin(); iter != inputs.end(); )
   {
     // is an input message sitting enqueued and still undelivered?
     // (WPInterface::poll() will reset its state to 0 when delivered)
@@ -706,14 +707,20 @@ bool Dispatcher::removeInput (WPInterface* pwp, int fd, int flags)
         Assert(iter->last_mref.deref_p() == pmsg);
         pmsg->setState(pmsg->state()&~flags);
       }
+      found = true;
       // clear flags of input
-      if( ( iter->flags &= ~flags ) == 0 ) // removed all modes? 
-        inputs.erase(iter);
-      rebuildInputs();
-      return true;
+      iter->flags &= ~flags;
+      if( !(iter->flags&EV_FDALL) ) // removed all modes? 
+        inputs.erase(iter++);
+      else
+        iter++;
     }
+    else
+      iter++;
   }
-  return false;
+  if( found )
+    rebuildInputs();
+  return found;
 }
 
 //##ModelId=3C7DFF57025C
-- 
2.43.0


From eaec6806129e3470e680ff099b05e40d6ed941e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:25 +0000
Subject: [PATCH 23/40] fix: VellSet::addFail() keeps the fails added before
 and forgets the weights

---
 MEQ/src/VellSet.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index b22f9d7..453d31e 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -379,6 +379,7 @@ void VellSet::clear()
   pset_.clear();
   pvalue_ = 0;
   pflags_ = 0;
+  pweights_ = 0;
   is_fail_ = false;
 }
 
@@ -589,7 +590,9 @@ void VellSet::setPerturbedValue (int i,Vells::Ref &ref,int iset,int flags)
 void VellSet::addFail (const ObjRef &ref)
 {
   Thread::Mutex::Lock lock(mutex());
-  clear();
+  // clear all data, but keep the fails that have been added before
+  if( !is_fail_ )
+    clear();
   is_fail_ = true;
   // clear out the DR
   Record::removeField(FValue,true,0);
-- 
2.43.0


From b50d52ca4759aad6205c440c966e8f6edecd4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:25 +0000
Subject: [PATCH 24/40] fix: Function::getResult() reports a fail when all
 planes have failed

---
 MEQ/src/Function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 50ea760..4fa9f4b 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -197,7 +197,7 @@ int Function::getResult (Result::Ref &resref,
     // Otherwise, we have a case of some values present, and some missing. This is only supported by some node classes:
     // these will have called allowMissingData() in their constructor. If this is not supported, then we return no
     // data as well.
-    if( nmissing )
+    if( nmissing && !vellset.isFail() )
     {
       if( nmissing == nrch || !allow_missing_data_ )
       {
-- 
2.43.0


From 52cc284f6eb949b26674f1cbbf2ad2cd67431a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:25 +0000
Subject: [PATCH 25/40] fix: Function and TensorFunction do not read
 perturbation sets that a child does not have

---
 MEQ/src/Function.cc       | 3 ++-
 MEQ/src/TensorFunction.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 4fa9f4b..28d8f0c 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -250,7 +250,8 @@ int Function::getResult (Result::Ref &resref,
             int inx = vs.isDefined(spids[j],indices[ich]);
             if( inx >= 0 )
             {
-              for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+              FailWhen(vs.numPertSets() != npertsets,"mismatch in number of perturbation sets of child results");
+              for( int ipert=0; ipert<npertsets; ipert++ )
               {
                 const Vells &pvv = vs.getPerturbedValue(inx,ipert);
 //                childpvv_lock[ipert][ich].relock(pvv.mutex());
diff --git a/MEQ/src/TensorFunction.cc b/MEQ/src/TensorFunction.cc
index 589e8d7..efed1d7 100644
--- a/MEQ/src/TensorFunction.cc
+++ b/MEQ/src/TensorFunction.cc
@@ -206,7 +206,8 @@ void TensorFunction::computeTensorResult (Result::Ref &resref,
         int inx = vs.isDefined(spids[ispid],index_vector_[ichild][ivs]);
         if( inx >= 0 )
         {
-          for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+          FailWhen(vs.numPertSets() != npertsets,"mismatch in number of perturbation sets of child results");
+          for( int ipert=0; ipert<npertsets; ipert++ )
           {
             const Vells &pvv = vs.getPerturbedValue(inx,ipert);
             pert_vectors_[ipert][ichild][ivs] = &pvv;
-- 
2.43.0


From 7cc75bb66109a24843420b774d4baf002de0fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:06 +0000
Subject: [PATCH 26/40] fix: Selector, Paster: slices along more than one axis
 advanced past the end of an axis without going back to its start

---
 MeqNodes/src/Paster.cc   | 5 ++++-
 MeqNodes/src/Selector.cc | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/Paster.cc b/MeqNodes/src/Paster.cc
index d4530f6..385ec8a 100644
--- a/MeqNodes/src/Paster.cc
+++ b/MeqNodes/src/Paster.cc
@@ -148,7 +148,10 @@ int Paster::getResult (Result::Ref &resref,
             if( --shp0[idim] )       // still something to go? break
               break;
             else                     // reached end of axis, reset and go to next
-              shp0[idim] = shp[idim]; 
+            {
+              shp0[idim] = shp[idim];
+              offset -= strides[idim]*shp[idim];
+            }
           }
       }
     }
diff --git a/MeqNodes/src/Selector.cc b/MeqNodes/src/Selector.cc
index 75d546d..3b64506 100644
--- a/MeqNodes/src/Selector.cc
+++ b/MeqNodes/src/Selector.cc
@@ -159,7 +159,10 @@ int Selector::getResult (Result::Ref &resref,
             if( --shp0[idim] )       // still something to go? break
               break;
             else                     // reached end of axis, reset and go to next
+            {
               shp0[idim] = shp[idim];
+              offset -= strides[idim]*shp[idim];
+            }
           }
       }
     }
-- 
2.43.0


From 299805cd76d01f1f014bc6068e09b3b9ecbcefb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:06 +0000
Subject: [PATCH 27/40] fix: Composer: in tensor mode repeated scalars were
 counted as fails but not as planes, so that good data was returned as a fail
 (and vice versa)

---
 MeqNodes/src/Composer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MeqNodes/src/Composer.cc b/MeqNodes/src/Composer.cc
index 02d83b5..4c3a9b6 100644
--- a/MeqNodes/src/Composer.cc
+++ b/MeqNodes/src/Composer.cc
@@ -144,6 +144,8 @@ int Composer::getResult (Result::Ref &resref,
           vsref <<= &( chres.vellSet(0) );
           if( vsref->isFail() )
             nfails += nres0;
+          else if( vsref->isEmpty() )
+            nmissing += nres0;
         }
         else
         {
@@ -174,6 +176,8 @@ int Composer::getResult (Result::Ref &resref,
   }
   if( nres )
   {
+    // in tensor mode, scalars have been repeated
+    nres = presult->numVellSets();
     if( nfails == nres )
       return RES_FAIL;
     if( nmissing == nres )
-- 
2.43.0


From 67bd48199ce766f297779dde3f1b948184e9bcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:06 +0000
Subject: [PATCH 28/40] fix: Stripper: the flags and weights of a stripped
 vellset were lost

---
 MeqNodes/src/Stripper.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/Stripper.cc b/MeqNodes/src/Stripper.cc
index fd761d3..a810fbc 100644
--- a/MeqNodes/src/Stripper.cc
+++ b/MeqNodes/src/Stripper.cc
@@ -52,7 +52,14 @@ int Stripper::getResult (Result::Ref &resref,
   {
     const VellSet &vs = resref->vellSet(i);
     if( vs.hasValue() && vs.numSpids()>0 )
-      resref().setNewVellSet(i).setValue(vs.getValue());
+    {
+      VellSet &newvs = resref().setNewVellSet(i);
+      if( vs.hasDataFlags() )
+        newvs.setDataFlags(vs.dataFlags());
+      if( vs.hasDataWeights() )
+        newvs.setDataWeights(vs.dataWeights());
+      newvs.setValue(vs.getValue());
+    }
   }
   // if something has changed in the result, call verify shape, since
   // that'll strip off cells too if they are no longer needed
-- 
2.43.0


From 7bd2c13622799456f0b37303f8636c2edaa005fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:15 +0000
Subject: [PATCH 29/40] fix: MatrixMultiply, MatrixInvert22 do not read
 perturbation sets that a plane does not have

---
 MeqNodes/src/MatrixInvert22.cc | 3 ++-
 MeqNodes/src/MatrixMultiply.cc | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/MeqNodes/src/MatrixInvert22.cc b/MeqNodes/src/MatrixInvert22.cc
index 6ebeb11..8f8c3b0 100644
--- a/MeqNodes/src/MatrixInvert22.cc
+++ b/MeqNodes/src/MatrixInvert22.cc
@@ -196,7 +196,8 @@ int MatrixInvert22::getResult (Result::Ref &resref,
             if( inx >= 0 )
             {
               changed[ivs] = true;
-              for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+              FailWhen(vs.numPertSets() != npertsets,"mismatch in number of perturbation sets of child results");
+              for( int ipert=0; ipert<npertsets; ipert++ )
               {
                 const Vells &pvv = vs.getPerturbedValue(inx,ipert);
                 pert_values[ipert][ivs] = &pvv;
diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index 49e643d..0afa4cb 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -180,7 +180,8 @@ void MatrixMultiply::scalarMultiply (Result::Ref &res,
         int inx = vs.isDefined(spids[ispid],indices[ich]);
         if( inx >= 0 )
         {
-          for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+          FailWhen(vs.numPertSets() != npertsets,"mismatch in number of perturbation sets of child results");
+          for( int ipert=0; ipert<npertsets; ipert++ )
           {
             const Vells &pvv = vs.getPerturbedValue(inx,ipert);
             pert_values[ipert][ich] = &pvv;
@@ -372,7 +373,8 @@ int MatrixMultiply::getResult (Result::Ref &resref,
                 int inx = vs.isDefined(spids[ispid],indices[ivs]);
                 if( inx >= 0 )
                 {
-                  for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+                  FailWhen(vs.numPertSets() != npertsets,"mismatch in number of perturbation sets of child results");
+                  for( int ipert=0; ipert<npertsets; ipert++ )
                   {
                     const Vells &pvv = vs.getPerturbedValue(inx,ipert);
                     pert_values[ipert][ivs] = &pvv;
-- 
2.43.0


From ac6fef62de51b321e1d378a19d32de9c9b87c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:02 +0000
Subject: [PATCH 30/40] fix: MatrixMultiply: the flags of a tensor multiplied
 by unity were not masked out

---
 MeqNodes/src/MatrixMultiply.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index 0afa4cb..7e52fdc 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -89,10 +89,11 @@ void MatrixMultiply::scalarMultiply (Result::Ref &res,
       return;
     }
     // unity and no perturbations: return tensor itself, applying flags
-    if( sca_val.isUnity() )
+    // (unless the tensor flags are masked, as that may need to remove flags)
+    if( sca_val.isUnity() && fmt == VellsFullFlagMask )
     {
       res.attach(tensor);
-      if( sca_vs.hasDataFlags() && fms || fmt != VellsFullFlagMask )
+      if( sca_vs.hasDataFlags() && fms )
       {
         for( int i=0; i<res->numVellSets(); i++ )
         {
-- 
2.43.0


From 83efbee00087190607ea3178e379d0aade0f2c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:41 +0000
Subject: [PATCH 31/40] fix: MatrixInvert22: missing data was turned into a
 fail

---
 MeqNodes/src/MatrixInvert22.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MeqNodes/src/MatrixInvert22.cc b/MeqNodes/src/MatrixInvert22.cc
index 8f8c3b0..99727a0 100644
--- a/MeqNodes/src/MatrixInvert22.cc
+++ b/MeqNodes/src/MatrixInvert22.cc
@@ -80,6 +80,9 @@ int MatrixInvert22::getResult (Result::Ref &resref,
     // if it's a fail, return immediately
     if( chvs.isFail() )
       return RES_FAIL;
+    // no data: no inverse
+    if( !chvs.hasValue() )
+      return 0;
     // get writable ref to output VellSet (invokes COW I guess)
     VellSet &vs = result.vellSetWr(0);
     // invert main value
-- 
2.43.0


From cd6e0ebac91e7fd090fd14a47ef3b08e7cd39cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:42 +0000
Subject: [PATCH 32/40] fix: MatrixInvert22 failed on matrices with double
 perturbations

---
 MeqNodes/src/MatrixInvert22.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/MatrixInvert22.cc b/MeqNodes/src/MatrixInvert22.cc
index 99727a0..2973aad 100644
--- a/MeqNodes/src/MatrixInvert22.cc
+++ b/MeqNodes/src/MatrixInvert22.cc
@@ -144,7 +144,7 @@ int MatrixInvert22::getResult (Result::Ref &resref,
     VellSet * outvs[nvs];
     for( int i=0; i<nvs; i++ )
     {
-      outvs[i] = &(result.setNewVellSet(i));
+      outvs[i] = &(result.setNewVellSet(i,0,0));
       // attach flags to output vellsets
       if( flagref.valid() )
         outvs[i]->setDataFlags(flagref);
-- 
2.43.0


From 3cc49dfd66385c5be55e1e5cbb17fe13cb6cd152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:56 +0000
Subject: [PATCH 33/40] fix: nodes that reduce arrays flagged their result when
 the input was not flagged

isAllFlagged() tested (!flag)&mask instead of !(flag&mask): with a flag mask
without bit 0 any flags at all (even all clear) made the result flagged, and
points with flags outside of the mask counted as flagged.
---
 MeqNodes/src/ReductionFunction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index e4d4409..2cb0642 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -80,7 +80,7 @@ VellsFlagType ReductionFunction::isAllFlagged (const Vells &flagvells,VellsFlagT
   // output will have a flag only if all of input is flagged
   const VellsFlagType *pflag = flagvells.begin<VellsFlagType>();
   for( ; pflag != flagvells.end<VellsFlagType>(); pflag++ )
-    if( !(*pflag)&mask )
+    if( !((*pflag)&mask) )
       return 0;
   // if we got here, than all points are flagged
   return mask;
-- 
2.43.0


From c27aa3be106c4b9520722efe502e02459e4f9865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:30 +0000
Subject: [PATCH 34/40] fix: reduction along an axis other than the last one
 used the wrong elements

The slices that a VellsSlicer presents are references with strides, whereas
the VellsMath reduction functions (and isAllFlagged) go through contiguous
elements: e.g. the mean along the time axis of a time-frequency array was
computed from neighbouring elements in frequency. Now the slices are copied.
---
 MEQ/src/VellsSlicerWithFlags.h    | 10 ++++++++
 MeqNodes/src/ReductionFunction.cc | 38 ++++++++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/VellsSlicerWithFlags.h b/MEQ/src/VellsSlicerWithFlags.h
index 68ac477..f0ac511 100644
--- a/MEQ/src/VellsSlicerWithFlags.h
+++ b/MEQ/src/VellsSlicerWithFlags.h
@@ -100,6 +100,16 @@ class ConstVellsSlicerWithFlags0
       const void * pdata () const
       { return pdata_; }
       
+      // same things for the flags (only if the vells has flags)
+      const LoShape & flagShape () const
+      { return flag_shape_; }
+      
+      const LoShape & flagStrides () const
+      { return flag_strides_; }
+      
+      const void * pflags () const
+      { return pflags_; }
+      
       const Vells & vells () const
       { return vells_; }
       
diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index 2cb0642..2ca3a41 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -86,6 +86,38 @@ VellsFlagType ReductionFunction::isAllFlagged (const Vells &flagvells,VellsFlagT
   return mask;
 }
 
+// helper function: makes a copy of a slice. The slice presented by a slicer is a reference into the sliced
+// array, with strides, while VellsMath and Vells::begin()/end() can only deal with contiguous elements.
+static Vells copySlice (const Vells &invells,const void *pdata,const LoShape &shape,const LoShape &strides)
+{
+  Vells out(invells,shape,false);
+  const size_t size = invells.elementSize();
+  const char * from = static_cast<const char*>(pdata);
+  char * to = static_cast<char*>(out.getDataPtr());
+  const int nel = out.nelements();
+  for( int n=0; n<nel; n++,to+=size )
+  {
+    int k = n;
+    size_t offset = 0;
+    for( int i=int(shape.size())-1; i>=0; i-- )
+    {
+      offset += (k%shape[i])*strides[i];
+      k /= shape[i];
+    }
+    memcpy(to,from+offset*size,size);
+  }
+  return out;
+}
+
+// same thing for a slice that comes with flags
+static Vells copySlice (const Vells &invells,const ConstVellsSlicerWithFlags0 &slicer)
+{
+  Vells out = copySlice(invells,slicer.pdata(),slicer.shape(),slicer.strides());
+  if( invells.hasDataFlags() )
+    out.setDataFlags(new Vells(copySlice(invells.dataFlags(),slicer.pflags(),slicer.flagShape(),slicer.flagStrides())));
+  return out;
+}
+
 void ReductionFunction::makeVellsSlicer (Vells::Ref &out,ConstVellsSlicerWithFlags0 &slicer,const Vells &invells)
 {
   // create slicer
@@ -117,7 +149,7 @@ Vells ReductionFunction::apply (VellsMath::UnaryRdFunc func,const Vells &invells
   for( ; slicer.valid(); slicer.incr(),ptr+=size )
   {
     DbgAssert(ptr<endptr);
-    Vells result = (*func)(slicer.vells(),flagmask);
+    Vells result = (*func)(copySlice(invells,slicer),flagmask);
     memcpy(ptr,result.getConstDataPtr(),size);
   }
   DbgAssert(ptr==endptr);
@@ -149,7 +181,7 @@ Vells ReductionFunction::apply (VellsMath::UnaryRdFuncWS func,const Vells &invel
   for( ; slicer.valid(); slicer.incr(),ptr+=size )
   {
     DbgAssert(ptr<endptr);
-    Vells result = (*func)(slicer.vells(),res_shape,flagmask);
+    Vells result = (*func)(copySlice(invells,slicer),res_shape,flagmask);
     memcpy(ptr,result.getConstDataPtr(),size);
   }
   DbgAssert(ptr==endptr);
@@ -234,7 +266,7 @@ void ReductionFunction::evaluateFlags (Vells::Ref &out,const Request &req,const
     {
       DbgAssert(slicer.valid());
       // output flag is set only if all of the current slice is flagged
-      tot_flags |= *pflag = isAllFlagged(slicer.vells(),flagmask);
+      tot_flags |= *pflag = isAllFlagged(copySlice(vs.dataFlags(),slicer.pdata(),slicer.shape(),slicer.strides()),flagmask);
       slicer.incr();
     }
     // have we flagged anything at all in the output? assign flags then
-- 
2.43.0


From 308ca20245cf32cc6cbbc062b9346ee5af28a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 35/40] fix: NElements with reduction axes of complex data
 copied complex numbers out of real results

---
 MeqNodes/src/ReductionFunction.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index 2ca3a41..05a096a 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -162,7 +162,6 @@ Vells ReductionFunction::apply (VellsMath::UnaryRdFuncWS func,const Vells &invel
   Vells::Ref outref;
   ConstVellsSlicerWithFlags0 slicer;
   makeVellsSlicer(outref,slicer,invells);
-  Vells &out = outref();
   // adjust shape: it may be bigger than the slice shape (i.e. if taking
   // a sum while some axes are collapsed). So, for every axis that is present
   // in the non-sliced shape, collapse the corresponding axis in the result shape
@@ -173,19 +172,24 @@ Vells ReductionFunction::apply (VellsMath::UnaryRdFuncWS func,const Vells &invel
     if( i<res_shape.size() && ns_shape[i] > 1  )
       res_shape[i] = 1;
   }
-  // get pointers to output data
-  char * ptr = static_cast<char*>(out.getDataPtr());
-  size_t size = out.elementSize();
-  char * endptr = ptr + size*out.nelements();
   // iterate slicer and output pointers (they must match)
+  char * ptr = 0;
+  size_t size = 0;
   for( ; slicer.valid(); slicer.incr(),ptr+=size )
   {
-    DbgAssert(ptr<endptr);
     Vells result = (*func)(copySlice(invells,slicer),res_shape,flagmask);
+    if( !ptr )
+    {
+      // the function may return a different type (nelements of a complex array is real)
+      if( result.elementType() != invells.elementType() )
+        outref <<= new Vells(result,ns_shape,false);
+      // get pointer to output data
+      ptr = static_cast<char*>(outref().getDataPtr());
+      size = result.elementSize();
+    }
     memcpy(ptr,result.getConstDataPtr(),size);
   }
-  DbgAssert(ptr==endptr);
-  return out;
+  return *outref;
 }
       
 void ReductionFunction::evaluateFlags (Vells::Ref &out,const Request &req,const LoShape &shape,const vector<const VellSet *> &pvs)
-- 
2.43.0


From 0d8185805a16fa27c876918aadfe38cf6abde966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 36/40] fix: Rms, StdDev: flagged points were not left out of
 the mean of the squares

---
 MeqNodes/src/Rms.cc    | 8 ++++++--
 MeqNodes/src/StdDev.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/MeqNodes/src/Rms.cc b/MeqNodes/src/Rms.cc
index fe76bbd..8e7448b 100644
--- a/MeqNodes/src/Rms.cc
+++ b/MeqNodes/src/Rms.cc
@@ -39,14 +39,18 @@ Vells Rms::evaluate (const Request&,const LoShape &,
 		     const vector<const Vells*>& values)
 {
   // only one child ever expected -- see constructor 
+  // the result of sqr() has no flags, so copy them over
+  Vells vsq = sqr(*values[0]);
+  if( values[0]->hasDataFlags() )
+    vsq.setDataFlags(values[0]->dataFlags());
   if( hasReductionAxes() )  // reduce along axes 
   {
-    Vells vmeansq = apply(VellsMath::mean,sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = apply(VellsMath::mean,vsq,flagmask_[0]);
     return sqrt(vmeansq);
   }
   else                      // reduce to single value
   {
-    Vells vmeansq = mean(sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = mean(vsq,flagmask_[0]);
     return sqrt(vmeansq);
   }
 }
diff --git a/MeqNodes/src/StdDev.cc b/MeqNodes/src/StdDev.cc
index cabad27..3276304 100644
--- a/MeqNodes/src/StdDev.cc
+++ b/MeqNodes/src/StdDev.cc
@@ -40,16 +40,20 @@ Vells StdDev::evaluate (const Request&,const LoShape &,
 		     const vector<const Vells*>& values)
 {
   // only one child ever expected -- see constructor 
+  // the result of sqr() has no flags, so copy them over
+  Vells vsq = sqr(*values[0]);
+  if( values[0]->hasDataFlags() )
+    vsq.setDataFlags(values[0]->dataFlags());
   if( hasReductionAxes() )  // reduce along axes 
   {
     Vells vmean = apply(VellsMath::mean,*values[0],flagmask_[0]);
-    Vells vmeansq = apply(VellsMath::mean,sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = apply(VellsMath::mean,vsq,flagmask_[0]);
     return sqrt(vmeansq - sqr(vmean));
   }
   else                      // reduce to single value
   {
     Vells vmean = mean(*values[0],flagmask_[0]);
-    Vells vmeansq = mean(sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = mean(vsq,flagmask_[0]);
     return sqrt(vmeansq - sqr(vmean));
   }
 }
-- 
2.43.0


From feb2948637f8f6b6c72fb4de16ef5b9fcd386068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 37/40] fix: Polc: evaluate within the funklet domain along the
 axes of the polynomial

The cells were compared with the domain by index of the polynomial axis, so a
polynomial in frequency only was truncated by the time domain; a missing axis
of the domain was taken as [0,0]; and the search ran past the end of the grid.
---
 MEQ/src/Polc.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 31378d9..60a1167 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -183,14 +183,16 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
       FailWhen(!cells.isDefined(iaxis),
             "Meq::Polc: axis " + Axis::axisId(iaxis).toString() +
             " is not defined in Cells");
-      if(cells.domain().start(i)<domain().start(i) ||cells.domain().end(i)>domain().end(i) )
+      // note that an axis not defined in our domain means we're valid everywhere along it
+      if(domain().isDefined(iaxis) &&
+         (cells.domain().start(iaxis)<domain().start(iaxis) ||cells.domain().end(iaxis)>domain().end(iaxis)) )
 	{
 	  LoVec_double tempgrid = ( cells.center(iaxis));
 	  int k=0;
-	  while(tempgrid(k)< domain().start(i) && k < tempgrid.size()){k++;}
+	  while(k < tempgrid.size() && tempgrid(k)< domain().start(iaxis)){k++;}
 	  int firstk=k;
 	  k=tempgrid.size()-1;
-	  while(tempgrid(k)>domain().end(i) && k > 0){k--;}
+	  while(k >= 0 && tempgrid(k)>domain().end(iaxis)){k--;}
 	  int lastk=k;
 	  //reduce grid, such that it fits on domain of this funklet
 	  if(lastk<firstk) return;
-- 
2.43.0


From 0df65689bbef499a5cb243ee57907682600389d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 38/40] fix: Polc: two-dimensional polynomials with descending
 axes or over 10 coefficients

The result was filled transposed when the axes are in descending order, and
the table of powers overflowed for more than 10 coefficients along y.
---
 MEQ/src/Polc.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index 60a1167..c6787b2 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -327,13 +327,18 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
   // Create matrix for the main value and keep a pointer to its storage
   double* value = vs.setValue(new Vells(double(0),res_shape,true)).realStorage();
   // Iterate over all cells in the domain.
-  // The Y index iterates faster, hence the outer loop is over j over X values
+  // The Y index iterates faster, hence the outer loop is over j over X values.
+  // If our axes are in descending order, then X is the faster axis of the
+  // result, so the output offset is computed explicitly
+  const bool descending = getAxis(0) > getAxis(1);
+  const int xstride = descending ? 1 : ndy, ystride = descending ? ndx : 1;
   for (int j=0; j<ndx; j++)
   {
     double valx = grid[0](j);
     for (int i=0; i<ndy; i++)  // inner loop: i over Y values
     {
       double valy = grid[1](i);
+      const int offset = j*xstride + i*ystride;
       const double* coeff = coeffData;
       double total = 0;
       double powx = 1;
@@ -351,7 +356,7 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
       }
       if( makePerturbed )
       {
-        double powersy[10];
+        double powersy[ncy];
         double powy = 1;
         for (int iy=0; iy<ncy; iy++) {
           powersy[iy] = powy;
@@ -363,10 +368,8 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
           for (int iy=0; iy<ncy; iy++) {
             double d = perts[ik] * powersy[iy] * powx;
             for( int ipert=0; ipert<makePerturbed; ipert++,d=-d ) {
-              if( pertValPtr[ipert][ik] ) {
-                *(pertValPtr[ipert][ik]) = total + d;
-                pertValPtr[ipert][ik]++;
-              }
+              if( pertValPtr[ipert][ik] )
+                pertValPtr[ipert][ik][offset] = total + d;
             }
             ik++;
           }
@@ -374,7 +377,7 @@ void Polc::do_evaluate (VellSet &vs,const Cells &cells,
         }
       }
       cdebug(4)<<"value  "<<i<<","<<j<<" ("<<valx<<","<<valy<<") : "<<total<<endl;
-      *value++ = total;
+      value[offset] = total;
     } // endfor(i) over cells
   } // endfor(j) over cells
 
-- 
2.43.0


From 1614edb104dc8f01f909d6e6fc3b870ec275cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 39/40] fix: Polc: a change of solve domain must not change the
 polynomial

The domain was indexed by polynomial axis, offsets and scales were read beyond
the rank, and when one axis had no extent the offset of the other one was
changed without its coefficients.
---
 MEQ/src/Polc.cc | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index c6787b2..f8741a6 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -448,14 +448,16 @@ void Polc::changeSolveDomain(const Domain & solveDomain){
   if(!hasDomain()) return; //nothing to change
     else{
       const Domain &valDomain =  domain(); //validity domain
-      std::vector<double> newoffsets(2);
-      std::vector<double> newscales(2);
-      for(int axisi=0;axisi<2;axisi++){
-	newoffsets[axisi] = solveDomain.start(axisi)*valDomain.end(axisi)-
-	  solveDomain.end(axisi)*valDomain.start(axisi);
-	newoffsets[axisi] /= solveDomain.start(axisi)-solveDomain.end(axisi);
-	newscales[axisi] = valDomain.end(axisi) - valDomain.start(axisi);
-	newscales[axisi] /= solveDomain.end(axisi) - solveDomain.start(axisi);
+      const int nax = std::min(rank(),MaxPolcRank);
+      std::vector<double> newoffsets(nax);
+      std::vector<double> newscales(nax);
+      for(int axisi=0;axisi<nax;axisi++){
+	const int iaxis = getAxis(axisi);
+	newoffsets[axisi] = solveDomain.start(iaxis)*valDomain.end(iaxis)-
+	  solveDomain.end(iaxis)*valDomain.start(iaxis);
+	newoffsets[axisi] /= solveDomain.start(iaxis)-solveDomain.end(iaxis);
+	newscales[axisi] = valDomain.end(iaxis) - valDomain.start(iaxis);
+	newscales[axisi] /= solveDomain.end(iaxis) - solveDomain.start(iaxis);
 
       }
      transformCoeff(newoffsets,newscales);
@@ -472,13 +474,15 @@ void Polc::changeSolveDomain(const Domain & solveDomain){
     if(!hasDomain()) return; //nothing to change
     else{
       const Domain &valDomain =  domain(); //validity domain
-      std::vector<double> newoffsets(2);
-      std::vector<double> newscales(2);
-      for(int axisi=0;axisi<2;axisi++){
-	newoffsets[axisi] = solveDomain[0]*valDomain.end(axisi)-
-	  solveDomain[1]*valDomain.start(axisi);
+      const int nax = std::min(rank(),MaxPolcRank);
+      std::vector<double> newoffsets(nax);
+      std::vector<double> newscales(nax);
+      for(int axisi=0;axisi<nax;axisi++){
+	const int iaxis = getAxis(axisi);
+	newoffsets[axisi] = solveDomain[0]*valDomain.end(iaxis)-
+	  solveDomain[1]*valDomain.start(iaxis);
 	newoffsets[axisi] /= solveDomain[0]-solveDomain[1];
-	newscales[axisi] = valDomain.end(axisi) - valDomain.start(axisi);
+	newscales[axisi] = valDomain.end(iaxis) - valDomain.start(iaxis);
 	newscales[axisi] /= solveDomain[1] - solveDomain[0];
 
       }
@@ -549,11 +553,18 @@ void Polc::transformCoeff(const std::vector<double> & newoffsets,const std::vect
 
   double* coeff = static_cast<double*>(coeffWr().getDataPtr());
   int realchange=0;
-  for(uint  i =0; i<newoffsets.size();i++){
+  // we only have offsets and scales for our own axes
+  const uint nax = std::min(uint(std::min(rank(),MaxPolcRank)),uint(newoffsets.size()));
+  for(uint  i =0; i<nax;i++)
+    if(newscales[i]==0) return; //shouldnt happen
+  for(uint  i =0; i<uint(MaxPolcRank);i++){
+    diffOffset[i]=0;
+    diffScale[i]=1;
+  }
+  for(uint  i =0; i<nax;i++){
     oldOffset[i]=getOffset(i);
     oldScale[i]=getScale(i);
     if(oldScale[i]==0) oldScale[i]=1.;
-    if(newscales[i]==0) return; //shouldnt happen
 
     diffOffset[i]=(newoffsets[i]-oldOffset[i])/newscales[i];
     diffScale[i]=newscales[i]/oldScale[i];
-- 
2.43.0


From 95665d32b8f9c97599edf01f57b652fbeab1d4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 40/40] fix: Polc: setCoeffShape across ranks keeps
 coefficients of the same order

---
 MEQ/src/Polc.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/MEQ/src/Polc.cc b/MEQ/src/Polc.cc
index f8741a6..6bd95b9 100644
--- a/MEQ/src/Polc.cc
+++ b/MEQ/src/Polc.cc
@@ -667,14 +667,20 @@ void Polc::setCoeffShape(const LoShape & shape){
     i[j]=0;
   for(int n=0;n<N;n++){
     int element=0;
-    for(int j=0;j<ranknew&&j<rank;j++)
+    // a missing axis is the same as an axis with a single coefficient
+    for(int j=0;j<std::max(rank,ranknew);j++)
       {//calculate position
-	element*=shape[j];
-	element+=i[j];
-	if(i[j]>0 && (j>int(shape.size())||i[j]>=shape[j]))
-	  element=Nnew;
-	//dont fill this one
-	//we can go faster in case we are outside the scope of the new array
+	const int ij = j<rank ? i[j] : 0;
+	const int nj = j<ranknew ? shape[j] : 1;
+	if(ij>=nj)
+	  {
+	    //dont fill this one
+	    //we can go faster in case we are outside the scope of the new array
+	    element=Nnew;
+	    break;
+	  }
+	element*=nj;
+	element+=ij;
       }
     for(int j=rank-1;j>=0;j--)
       {
-- 
2.43.0

