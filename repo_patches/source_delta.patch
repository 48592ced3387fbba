From d6b0cef711ca685eb72d473d81003292bb3b673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 01/74] fix: reject the node index one past the end of the
 repository

---
 MEQ/src/Forest.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/Forest.cc b/MEQ/src/Forest.cc
index 713888a..71a2ce3 100644
--- a/MEQ/src/Forest.cc
+++ b/MEQ/src/Forest.cc
@@ -196,7 +196,7 @@ void Forest::initAll ()
 //##ModelId=3F5F5CA300E0
 int Forest::remove (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   FailWhen(!ref.valid(),"invalid node index");
@@ -220,7 +220,7 @@ int Forest::remove (int node_index)
 //##ModelId=3F5F5B4F01BD
 NodeFace & Forest::get (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   FailWhen(!ref.valid(),"invalid node index");
@@ -249,7 +249,7 @@ NodeFace & Forest::findNode (const string &name)
   FailWhen(iter == name_map.end(),"node '"+name+"' not found");
   int node_index = iter->second;
   // debug-fails here since name map should be consistent with repository
-  DbgFailWhen(node_index<=0 || node_index>int(nodes.size()),"invalid node index");
+  DbgFailWhen(node_index<=0 || node_index>=int(nodes.size()),"invalid node index");
   NodeFace::Ref &ref = nodes[node_index];
   DbgFailWhen(!ref.valid(),"invalid node index");
   return ref();
@@ -258,7 +258,7 @@ NodeFace & Forest::findNode (const string &name)
 //##ModelId=3F7048570004
 const NodeFace::Ref & Forest::getRef (int node_index)
 {
-  FailWhen(node_index<=0 || node_index>int(nodes.size()),
+  FailWhen(node_index<=0 || node_index>=int(nodes.size()),
           "invalid node index");
   return nodes[node_index];
 }
-- 
2.43.0


From 89ec870d54ed88ea1e7ed0bd7b27f3ba95bc36f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 02/74] fix: polling of stepchildren after missing data follows
 the missing data policy

---
 MEQ/src/Node.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 6cf6de5..287c7ff 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -906,7 +906,7 @@ int Node::pollChildren (Result::Ref &resref,
   // if aborted, return without polling stepchildren
   if( retcode&RES_ABORT ||
       ( retcode&RES_FAIL && children().failPolicy() == AidAbandonPropagate ) ||
-      ( retcode&RES_MISSING && children().failPolicy() == AidAbandonPropagate ) )
+      ( retcode&RES_MISSING && children().missingDataPolicy() == AidAbandonPropagate ) )
   {
     timers().children.stop();
     return retcode;
-- 
2.43.0


From fb2d25ab45a52f32464aed3e239dcfb2825c9699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 03/74] fix: do not hand child results of an interrupted poll
 to the next one

---
 MEQ/src/Node.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 287c7ff..d6dd1cd 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -1028,6 +1028,9 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
     // Pass request on to children and accumulate their results
     int result_status; // result status, this will be placed into our control_status
     stage = "polling children";
+    // an earlier poll that ended in a WAIT or an abort leaves its child results behind
+    for( uint i=0; i<child_results_.size(); i++ )
+      child_results_[i].detach();
     retcode |= pollChildren(ref,child_results_,req);
     if( forest().abortFlag() )
       return exitAbort(RES_ABORT);
-- 
2.43.0


From 75bbf9913321d8df88c4211bd56e67ff94c29adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 04/74] fix: a fail raised before the children are polled is
 valid for its own request only

---
 MEQ/src/Node.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index d6dd1cd..f50af95 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -954,6 +954,7 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
   string stage;
   string local_error;              // non-empty if error is generated
   DMI::ExceptionList local_fails;  // this is non-empty if we detect a local fail
+  bool deps_known = false;         // true once retcode contains all our dependencies
   try
   {
     // check for abort flag
@@ -1060,6 +1061,7 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
     }
     // add in default depend mask
     retcode |= getDependMask();
+    deps_known = true;
     //if( forest().abortFlag() )
     //      return exitAbort(RES_ABORT);
     // does request have a Cells object? Compute our Result then
@@ -1184,6 +1186,10 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
   try
   {
     lock.relock(execCond());
+    // if we failed before our dependencies could be determined (e.g. while
+    // processing a rider), then the fail is only valid for this very request
+    if( !deps_known )
+      retcode |= (1<<RQIDM_NBITS)-1;
     ret = cacheResult(ref,req,retcode|RES_FAIL) | RES_UPDATED;
   }
   catch( ... )
-- 
2.43.0


From 63af32aefe66a66260fbb6be3ae04627d88ed10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 05/74] fix: the empty result of a cell-less request is not a
 result for other request types

---
 MEQ/src/Node.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index f50af95..d4265be 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -1102,7 +1102,8 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
       {
         stage = "discovering spids";
         int code = discoverSpids(ref,child_results_,req);
-        retcode |= code | getDependMask();
+        // this result answers this type of request only
+        retcode |= code | getDependMask() | RequestType::DEPMASK_TYPE;
       }
       // if FAIL is returned, prepare error message
       if( retcode&RES_FAIL )
@@ -1128,6 +1129,8 @@ int Node::execute (Result::Ref &ref,const Request &req,int depth) throw()
     }
     else // no cells at all, allocate an empty result
     {
+      // ...which does depend on request type, whatever our children say
+      retcode |= RequestType::DEPMASK_TYPE;
       result_status = CS_RES_EMPTY;
     }
     if( forest().abortFlag() )
-- 
2.43.0


From e20d9f44446ed6e213ec802513a4b657ea29c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 06/74] fix: a thread waiting for its children takes up no
 orders but its own

While a node was being polled its thread helped itself to any queued order of at
least the same depth. Such an order may be for a node that depends on the node
being executed (depth is no rank in a forest with shared nodes), and then the
thread waits for itself. It could also be refused its own orders while too many
threads were busy, or find them behind shallower ones.
---
 MEQ/src/MTPool.cc      | 27 +++++++++++++++++++++------
 MEQ/src/MTPool.h       | 17 +++++++++++++----
 MEQ/src/NodeNursery.cc |  9 ++++-----
 3 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/MEQ/src/MTPool.cc b/MEQ/src/MTPool.cc
index b8b874f..61ee162 100644
--- a/MEQ/src/MTPool.cc
+++ b/MEQ/src/MTPool.cc
@@ -200,7 +200,7 @@ void * Brigade::workerLoop ()
 }
 // gets a AbstractWorkOrder from the brigade queue
 // assume we have a lock on cond()
-AbstractWorkOrder * Brigade::getWorkOrder (bool wait,int mindepth)
+AbstractWorkOrder * Brigade::getWorkOrder (bool wait)
 {
   WorkerData &wd = workerData();
   while( true )
@@ -225,11 +225,6 @@ AbstractWorkOrder * Brigade::getWorkOrder (bool wait,int mindepth)
       AbstractWorkOrder *pwo = wo_queue_.front();
       int depth = pwo->depth();
       dprintf(2)("head of WO queue is %s\n",pwo->sdebug().c_str());
-      if( depth < mindepth )
-      {
-        dprintf(2)("mindepth is %d, so returning 0\n",mindepth);
-        return 0;
-      }
       // first case is us waking up from idle
       if( wd.state == IDLE )
       {
@@ -281,6 +276,26 @@ AbstractWorkOrder * Brigade::getWorkOrder (bool wait,int mindepth)
   }
 }
 
+// gets an order placed by this client from the brigade queue
+// assume we have a lock on cond()
+AbstractWorkOrder * Brigade::getWorkOrder (const NodeNursery &client)
+{
+  for( WorkOrderQueue::iterator iter = wo_queue_.begin(); iter != wo_queue_.end(); iter++ )
+  {
+    WorkOrder *wo = dynamic_cast<WorkOrder*>(*iter);
+    if( wo && &(wo->clientref) == &client )
+    {
+      wo_queue_.erase(iter);
+      ++nthr_[wo->depth()];
+      cdebug1(2)<<sdebug(1)+" got queued order\n";
+      // if there's more stuff on the queue, can we wake up another thread?
+      awakenWorker();
+      return wo;
+    }
+  }
+  return 0;
+}
+
 void Brigade::finishWithWorkOrder (AbstractWorkOrder *wo)
 {
   Thread::Mutex::Lock lock(cond());
diff --git a/MEQ/src/MTPool.h b/MEQ/src/MTPool.h
index 44f3dde..b19976e 100644
--- a/MEQ/src/MTPool.h
+++ b/MEQ/src/MTPool.h
@@ -155,8 +155,6 @@ namespace Meq
 
         // gets next work order from the queue.
         // !!! The caller must obtain a lock on cond() before calling this.
-        // If head of queue has a WO with a depth>=mindepth, returns the WO.
-        // If head of queue has a WO with a depth<mindepth, returns 0.
         // If queue is empty OR too many threads are busy and wait=false, returns 0.
         // If queue is empty and wait=true, marks thread as idle and
         // waits for an order indefinitely.
@@ -164,8 +162,19 @@ namespace Meq
         // may be called immediately.
         // Ownership of order object is transferred to caller.
         // If returning a WO, marks thread as busy.
-        AbstractWorkOrder * getWorkOrder (bool wait=true,int mindepth=0);
-        
+        AbstractWorkOrder * getWorkOrder (bool wait=true);
+
+        // gets next work order placed by the given NodeNursery from the queue,
+        // or 0 if none of its orders are left there.
+        // !!! The caller must obtain a lock on cond() before calling this.
+        // This is for a thread that is waiting for its own children. Such a
+        // thread is in the middle of executing a node, so it must not take up
+        // anyone else's order (which may depend on that very node, or on one
+        // executed by a thread that waits for it), and it must always be able to
+        // take up its own, no matter how many other threads are busy.
+        // Ownership of order object is transferred to caller.
+        AbstractWorkOrder * getWorkOrder (const NodeNursery &client);
+
         // finishes with work order, deallocates object
         void finishWithWorkOrder (AbstractWorkOrder *wo);
 
diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 8448c56..6ab9ef7 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -304,7 +304,7 @@ void NodeNursery::mt_waitForEndOfPoll ()
   {
     // else grab a work order for ourselves
     Thread::Mutex::Lock lock2(mt.cur_brigade_->cond());
-    MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(false,polling_depth_); // wait=false
+    MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(*this);
     // if there's nothing on the queue, then we have to wait for all worker
     // threads to finish and deliver a result, so just go to sleep
     if( !wo )
@@ -371,7 +371,7 @@ int NodeNursery::awaitChildResult (int &rescode,Result::Ref &resref,const Reques
       // no result on queue, so we can grab a work order from the brigade queue
       lock.release();
       Thread::Mutex::Lock lock2(mt.cur_brigade_->cond());
-      MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(false,polling_depth_); // wait=false
+      MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(*this);
       // if there's nothing on the queue, then we have to wait for all worker
       // threads to finish and deliver a result, so just go to sleep
       if( !wo )
@@ -513,7 +513,7 @@ int NodeNursery::syncPoll (Result::Ref &resref,std::vector<Result::Ref> &childre
       {
         // at this point we hold a lock on the brigade queue
         // get a WO back from the queue since we'll be executing it ourselves
-        MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(false,polling_depth_); // wait=false
+        MTPool::AbstractWorkOrder *wo = mt.cur_brigade_->getWorkOrder(*this);
         // release queue lock and go on to fill WO for first child
         lock.release();
         if( wo )
@@ -523,8 +523,7 @@ int NodeNursery::syncPoll (Result::Ref &resref,std::vector<Result::Ref> &childre
           lock.relock(mt.cur_brigade_->cond());
           continue;
         }
-        // null from queue means either no more work orders, or too many busy threads busy
-        // either way, sleep until a child has returned
+        // null from queue means no more work orders of ours, sleep until all children have returned
         Thread::Mutex::Lock lock2(mt.child_poll_cond_);
         if( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
         {
-- 
2.43.0


From af246e6e6da8edbdfb93d2b999931a101cfd00f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 07/74] fix: an abandoned or aborted parallel poll waits for
 the children already started

Their results were dropped without being counted, so that the poll could sleep
forever, or were counted as results of the next poll. Withdrawn orders are freed.
---
 MEQ/src/MTPool.cc      |  8 ++++-
 MEQ/src/MTPool.h       |  4 +--
 MEQ/src/NodeNursery.cc | 82 +++++++++++++++++++-----------------------
 3 files changed, 45 insertions(+), 49 deletions(-)

diff --git a/MEQ/src/MTPool.cc b/MEQ/src/MTPool.cc
index 61ee162..4cf1181 100644
--- a/MEQ/src/MTPool.cc
+++ b/MEQ/src/MTPool.cc
@@ -309,17 +309,23 @@ void Brigade::finishWithWorkOrder (AbstractWorkOrder *wo)
   delete wo;
 }
 
-void Brigade::clearQueue (const NodeNursery &client)
+int Brigade::clearQueue (const NodeNursery &client)
 {
+  int count = 0;
   Thread::Mutex::Lock lock(cond());
   for( WorkOrderQueue::iterator iter = wo_queue_.begin(); iter != wo_queue_.end(); )
   {
     WorkOrder *wo = dynamic_cast<WorkOrder*>(*iter);
     if( wo && &(wo->clientref) == &client )
+    {
       wo_queue_.erase(iter++);
+      delete wo;
+      count++;
+    }
     else
       ++iter;
   }
+  return count;
 }
 
 // marks thread as blocked or unblocked
diff --git a/MEQ/src/MTPool.h b/MEQ/src/MTPool.h
index b19976e..48a05b3 100644
--- a/MEQ/src/MTPool.h
+++ b/MEQ/src/MTPool.h
@@ -150,8 +150,8 @@ namespace Meq
         }
 
         // Clears the brigade's work order queue of WorkOrders associated with the
-        // given NodeNursery
-        void clearQueue (const NodeNursery &client);
+        // given NodeNursery, returns how many there were
+        int clearQueue (const NodeNursery &client);
 
         // gets next work order from the queue.
         // !!! The caller must obtain a lock on cond() before calling this.
diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 6ab9ef7..2a13200 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -233,10 +233,6 @@ int NodeNursery::startAsyncPoll (const Request &req,int depth)
 // when operating in async poll mode (i.e. Solver)
 void NodeNursery::mt_receiveAsyncChildResult (int ichild,MTPool::WorkOrder &res)
 {
-  // do nothing if poll is already finished (this may be possible if the
-  // main thread aborted execute())
-  if( !mt.polling_ )
-    return;
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
   // store result in child result queue
   mt.child_retqueue_.push_back(MT_ChildResult());
@@ -255,10 +251,6 @@ void NodeNursery::mt_receiveAsyncChildResult (int ichild,MTPool::WorkOrder &res)
 // when doing a background poll
 void NodeNursery::mt_receiveBackgroundResult (int ichild,MTPool::WorkOrder &res)
 {
-  // do nothing if poll is already finished (this may be possible if the
-  // main thread aborted execute())
-  if( !mt.polling_ )
-    return;
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
   res.resref.detach(); // discard result straight off but do store the return code
   child_retcodes_[ichild] = res.retcode;
@@ -283,14 +275,13 @@ void NodeNursery::mt_abortPoll ()
 {
   if( !mt.cur_brigade_ )
     return;
-  Thread::Mutex::Lock lock(mt.cur_brigade_->cond());
-  mt.abandon_ = true;
-  mt.polling_ = false;
-  // clear out orders placed by us
-  mt.cur_brigade_->clearQueue(*this);
+  Thread::Mutex::Lock lock(mt.child_poll_cond_);
+  // clear out orders placed by us, then wait for the children that have already been started
+  Thread::Mutex::Lock lock2(mt.cur_brigade_->cond());
+  mt.numchildren_ -= mt.cur_brigade_->clearQueue(*this);
+  lock2.release();
   lock.release();
-  // clean up (leaving brigade if needed)
-  mt_cleanupAfterPoll();
+  mt_waitForEndOfPoll();
 }
 
 // this is called to wait for an mt poll to finish
@@ -300,7 +291,7 @@ void NodeNursery::mt_waitForEndOfPoll ()
     return;
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
   // loop until all children have returned a result
-  while( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
+  while( mt.child_retcount_ < mt.numchildren_ )
   {
     // else grab a work order for ourselves
     Thread::Mutex::Lock lock2(mt.cur_brigade_->cond());
@@ -377,7 +368,7 @@ int NodeNursery::awaitChildResult (int &rescode,Result::Ref &resref,const Reques
       if( !wo )
       {
         lock.relock(mt.child_poll_cond_);
-        if( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
+        if( mt.child_retcount_ < mt.numchildren_ )
         {
           MTPool::Brigade::markThreadAsBlocked(name());
           becomeIdle();
@@ -432,42 +423,41 @@ int NodeNursery::awaitChildResult (int &rescode,Result::Ref &resref,const Reques
 void NodeNursery::mt_receiveSyncChildResult (int ichild,MTPool::WorkOrder &res)
 {
   Thread::Mutex::Lock lock(mt.child_poll_cond_);
-  // do nothing if poll is already finished or is being abandoned
-  if( !mt.polling_ || mt.abandon_ )
-    return;
-  // store result in child result queue
-  (*mt.pchildres_)[ichild].xfer(res.resref);
-  child_cumul_retcode_ |= child_retcodes_[ichild] = res.retcode;
-  // register a fail if received
-  if( res.retcode&NodeFace::RES_FAIL )
+  // results that come in while the poll is being abandoned are dropped
+  if( !mt.abandon_ )
   {
-    const Result * pchildres = (*mt.pchildres_)[ichild].deref_p();
-    child_fails_.push_back(pchildres);
-    num_child_fails_ += pchildres->numFails();
-    if( failPolicy() == AidAbandonPropagate )
-      mt.abandon_ = true;
-  }
-  else if( res.retcode&NodeFace::RES_MISSING )
-  {
-    if( missingDataPolicy() == AidAbandonPropagate )
+    // store result in child result queue
+    (*mt.pchildres_)[ichild].xfer(res.resref);
+    child_cumul_retcode_ |= child_retcodes_[ichild] = res.retcode;
+    // register a fail if received
+    if( res.retcode&NodeFace::RES_ABORT )
       mt.abandon_ = true;
+    else if( res.retcode&NodeFace::RES_FAIL )
+    {
+      const Result * pchildres = (*mt.pchildres_)[ichild].deref_p();
+      child_fails_.push_back(pchildres);
+      num_child_fails_ += pchildres->numFails();
+      if( failPolicy() == AidAbandonPropagate )
+        mt.abandon_ = true;
+    }
+    else if( res.retcode&NodeFace::RES_MISSING )
+    {
+      if( missingDataPolicy() == AidAbandonPropagate )
+        mt.abandon_ = true;
+    }
+    // if abandoning poll, withdraw the orders that noone has taken up yet
+    if( mt.abandon_ )
+    {
+      Thread::Mutex::Lock lock2(mt.cur_brigade_->cond());
+      mt.numchildren_ -= mt.cur_brigade_->clearQueue(*this);
+    }
   }
-  else if( res.retcode&NodeFace::RES_ABORT )
-    mt.abandon_ = true;
   // add time to profiling timer
   timer().add(res.timer);
-  // wake parent thread since it may be waiting for a child result
+  // wake parent thread once all the children that were started have checked in
   mt.child_retcount_++;
   if( mt.child_retcount_ >= mt.numchildren_ )
     mt.child_poll_cond_.broadcast();
-  // if abandoning poll, clear work order queue. Due to the mutex lock
-  // above, this will happen only once
-  if( mt.abandon_ )
-  {
-    lock.release();
-    lock.relock(mt.cur_brigade_->cond());
-    mt.cur_brigade_->clearQueue(*this);
-  }
 }
 
 
@@ -525,7 +515,7 @@ int NodeNursery::syncPoll (Result::Ref &resref,std::vector<Result::Ref> &childre
         }
         // null from queue means no more work orders of ours, sleep until all children have returned
         Thread::Mutex::Lock lock2(mt.child_poll_cond_);
-        if( mt.child_retcount_ < mt.numchildren_ && !mt.abandon_ )
+        if( mt.child_retcount_ < mt.numchildren_ )
         {
           MTPool::Brigade::markThreadAsBlocked(name());
           becomeIdle();
-- 
2.43.0


From 309bafafd5bddf0ac51bea0093072e94d75a0f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 08/74] fix: a parallel background poll looks at the child it
 is about to poll

---
 MEQ/src/NodeNursery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 2a13200..c81023f 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -631,7 +631,7 @@ void NodeNursery::backgroundPoll (const Request &req,int depth)
     for( int i=numChildren()-1; i>=0; i-- )
     {
       int ichild = child_poll_order_[i];
-      if( isChildEnabled(i) )
+      if( isChildEnabled(ichild) )
       {
         mt.cur_brigade_->placeWorkOrder(new MTPool::WorkOrder(
             *this,&NodeNursery::mt_receiveBackgroundResult,getChild(ichild),ichild,req,depth));
-- 
2.43.0


From 8aadbfbaeb84b44ee28fa66b4bcea1fc389ab461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:40 +0000
Subject: [PATCH 09/74] fix: finishing a sequential poll ends it

An exception in the middle of an async poll otherwise made the node fail every later
request with 'another poll is already in progress'.
---
 MEQ/src/NodeNursery.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index c81023f..75126cb 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -672,6 +672,9 @@ void NodeNursery::finishPoll ()
   // if an mt poll is in progress, wait for finish
   if( mt.cur_brigade_ )
     mt_waitForEndOfPoll();
+  // else an async poll may have been left half-way
+  else
+    async_poll_in_progress_ = background_poll_in_progress_ = false;
 }
 
 
-- 
2.43.0


From 47ec7a02dee6467709b6b441994e2c6c90cdd8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 10/74] fix: HIID::push_front and HIID::subId with negative
 positions

push_front() moved a number of atoms as if it were a number of bytes, and
subId() counted negative positions past the end instead of back from it.
---
 DMI/src/HIID.cc | 4 ++--
 DMI/src/HIID.h  | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/DMI/src/HIID.cc b/DMI/src/HIID.cc
index d57ea1e..425056e 100644
--- a/DMI/src/HIID.cc
+++ b/DMI/src/HIID.cc
@@ -44,8 +44,8 @@ HIID::HIID (const void* block, int sz)
 //##ModelId=3C55695F00CC
 HIID HIID::subId (int first, int last) const
 {
-  const_iterator iter1 = first >= 0 ? begin()+first : end()-first;
-  const_iterator iter2 = last >= 0 ? begin()+(last+1) : end()-(last+1);
+  const_iterator iter1 = first >= 0 ? begin()+first : end()+first;
+  const_iterator iter2 = last >= 0 ? begin()+(last+1) : end()+(last+1);
   if( iter1 >= iter2 )
     return HIID();
   else
diff --git a/DMI/src/HIID.h b/DMI/src/HIID.h
index 6cce12f..1b19be8 100644
--- a/DMI/src/HIID.h
+++ b/DMI/src/HIID.h
@@ -411,7 +411,8 @@ inline void HIID::push_front (AtomicID aid,uint n)
   {
     int sz0 = size();
     resize(sz0+n);
-    memmove(&(*this)[n],&(front()),sz0);
+    if( sz0 )
+      memmove(&(*this)[n],&(front()),sz0*sizeof(AtomicID));
     iterator iter = begin();
     for( uint i=0; i < n; i++,iter++ )
       *iter = aid;
-- 
2.43.0


From 39caa39083294d6ebde357615c3f07ea9ec7aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 11/74] fix: Record::removeField returns the field it removes

---
 DMI/src/Record.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DMI/src/Record.h b/DMI/src/Record.h
index 9f28179..f41d169 100644
--- a/DMI/src/Record.h
+++ b/DMI/src/Record.h
@@ -135,7 +135,8 @@ class Record : public Container
           // clears the field, but xfers the ref into out
           void xfer (ObjRef &out)
           {
-            makeObject();
+            if( !ref_.valid() )
+              makeObject();
             out.xfer(ref_);
             clear();
           }
-- 
2.43.0


From 6ada338f09095556afb6c34d766a23f7f1cc821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 12/74] fix: Record fields addressed by number

---
 DMI/src/Record.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Record.cc b/DMI/src/Record.cc
index 1aa3da2..0ce1d48 100644
--- a/DMI/src/Record.cc
+++ b/DMI/src/Record.cc
@@ -336,7 +336,7 @@ int DMI::Record::get (const HIID &id,ContentInfo &info,
   FailWhen(!id.size(),"null field id");
   bool writing = flags&DMI::WRITE;
   Assert1(nonconst || !writing);
-  CFMI iter;
+  CFMI iter = fields.begin();
   // "AidHash" followed by a single numeric index is field #
   if( id.size() == 2 && id[0] == AidHash && id[1].index() >= 0 )
   {
-- 
2.43.0


From 2984b0d2d41fec8901a3133a8b76a0708eb55639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 13/74] fix: List::get with negative positions and of empty
 lists

---
 DMI/src/List.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/DMI/src/List.cc b/DMI/src/List.cc
index 41c23d0..1a768a9 100644
--- a/DMI/src/List.cc
+++ b/DMI/src/List.cc
@@ -63,7 +63,6 @@ DMI::List::ItemList::const_iterator DMI::List::applyIndexConst (int n) const
   if( n<0 )
   {
     ItemList::const_reverse_iterator riter = items.rbegin();
-    n++;
     while( n<0 && riter != items.rend() )
       ++n,++riter;
     FailWhen(n,"index out of range"); 
@@ -72,12 +71,9 @@ DMI::List::ItemList::const_iterator DMI::List::applyIndexConst (int n) const
   else 
   {
     ItemList::const_iterator iter = items.begin();
-    while( n>0 )
-    {
-      n--;
-      iter++;
-      FailWhen(iter == items.end(),"index out of range"); 
-    }
+    while( n>0 && iter != items.end() )
+      --n,++iter;
+    FailWhen(iter == items.end(),"index out of range"); 
     return iter;
   }
 }
-- 
2.43.0


From 9b553e2dc6ba4f27b06a28638165faf9e96c9718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 14/74] fix: a refused Hook::remove leaves the element alone

---
 DMI/src/Container.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Container.cc b/DMI/src/Container.cc
index e734911..c4b16a8 100644
--- a/DMI/src/Container.cc
+++ b/DMI/src/Container.cc
@@ -417,7 +417,7 @@ DMI::ObjRef DMI::Container::Hook::remove () const
   resolveToWritableContainer();
   ObjRef ret;
   if( isRef() )
-    ret.xfer(const_cast<ObjRef*>(asRef(false))->unlock());
+    ret.copy(*asRef(false));
   nc->remove(*pid);
   target.ptr = 0;
   return ret;
-- 
2.43.0


From c2b5324dbcdf10fa5e0a8980ea229690fb5f2c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 15/74] fix: subscripts with a trailing slash

---
 DMI/src/Container.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Container.cc b/DMI/src/Container.cc
index c4b16a8..4454db3 100644
--- a/DMI/src/Container.cc
+++ b/DMI/src/Container.cc
@@ -100,7 +100,7 @@ const DMI::Container::Hook & DMI::Container::Hook::operator [] (const HIID &id1)
       if( !sep )                              // trim leading slash
         return (*this)[id1.subId(1)];
       else if( sep == nid-1 )                 // or trim trailing slash
-        return (*this)[id1.subId(0,sep)];
+        return (*this)[id1.subId(0,sep-1)];
       else                                    // or split in two and apply consecutively
         return (*this)[id1.subId(0,sep-1)][id1.subId(sep+1)];
     }
-- 
2.43.0


From a4761caf9b8e76ec493a577ca8685b8f28e428c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 16/74] fix: array slices stay within the array and include
 their last step

---
 DMI/src/NumArray.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 62aa43c..2d83230 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -698,7 +698,7 @@ int DMI::NumArray::get (const HIID& id, ContentInfo &info,bool nonconst,int flag
     // if keeping the axis, then add it to output shape & stride
     if( keepAxes[i] )
     {
-      subshape[iax] = (end[i]-st[i])/incr[i];
+      subshape[iax] = (end[i]-st[i]+incr[i]-1)/incr[i];
       substride[iax] = incr[i]*stride;
       iax--;
     }
@@ -790,6 +790,9 @@ int DMI::NumArray::parseHIID (const HIID& id, LoPos & st, LoPos & end,LoPos & in
         {
           keepAxes[nraxes] = true;
 	        end[nraxes] = id[i].id() + 1;
+	        AssertMsg (end[nraxes] <= itsShape[nraxes], "End " << end[nraxes]-1
+		           << " should be < axis length " << itsShape[nraxes]
+		           << " in HIID " << id.toString());
 	        AssertMsg (end[nraxes] > st[nraxes], "End " << end[nraxes]-1
 		           << " should be >= start " << st[nraxes]
 		           << " in HIID " << id.toString());
-- 
2.43.0


From a7ebe52a85fea6a108e4d4e06ae91f928bcf712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 17/74] fix: cloning an array as another type sets its data
 pointer

---
 DMI/src/NumArray.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 2d83230..78f3ae0 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -241,7 +241,6 @@ void DMI::NumArray::cloneOther (const NumArray& other,int flags,int depth,bool c
       Header *hdr = itsData().pdata<Header>();
       BObj::fillHeader(hdr,1,realtype);
     }
-    else
     itsArrayData = const_cast<char*>(itsData->cdata()) + itsDataOffset;
     // strings need to be initialized & copied over explicitly
     if( itsScaType == Tpstring )
-- 
2.43.0


From 7564784b12ef3110fd1c1b1ac096afc36b8dde4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 18/74] fix: repositioning a BOIO file forgets the header read
 ahead

---
 DMI/src/BOIO.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DMI/src/BOIO.cc b/DMI/src/BOIO.cc
index 1f010f1..6be850d 100644
--- a/DMI/src/BOIO.cc
+++ b/DMI/src/BOIO.cc
@@ -102,12 +102,14 @@ void BOIO::fseek (long offset)
 {
   FailWhen(!fp,"boio file not open");
   ::fseek(fp,offset,SEEK_SET);
+  have_header = false;
 }
 
 void BOIO::rewind ()
 {
   FailWhen(!fp,"boio file not open");
   ::rewind(fp);
+  have_header = false;
 }
 
 void BOIO::flush ()
-- 
2.43.0


From 096e5ec7e752bdc0e298b2ef4dcc64536fec210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 19/74] fix: array subscripts with fewer indices than axes

---
 DMI/src/NumArray.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DMI/src/NumArray.cc b/DMI/src/NumArray.cc
index 78f3ae0..9b4e5f8 100644
--- a/DMI/src/NumArray.cc
+++ b/DMI/src/NumArray.cc
@@ -813,6 +813,10 @@ int DMI::NumArray::parseHIID (const HIID& id, LoPos & st, LoPos & end,LoPos & in
   AssertMsg (!hadRange, "HIID " << id.toString()
 	     << " does not have a value after range delimiter");
   
+  // axes beyond those mentioned are taken whole
+  for( int i=nraxes+1; i<ndim; i++ )
+    keepAxes[i] = true;
+  
   int nkeep = 0;
   for( int i=0; i<ndim; i++ )
     if( keepAxes[i] )
-- 
2.43.0


From bdd105cbe44ed5a1bc26ac479dcdc7012a7d9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 20/74] fix: a partial header at the end of a BOIO file is not
 taken for an object

---
 DMI/src/BOIO.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DMI/src/BOIO.cc b/DMI/src/BOIO.cc
index 6be850d..db87a10 100644
--- a/DMI/src/BOIO.cc
+++ b/DMI/src/BOIO.cc
@@ -169,6 +169,8 @@ TypeId BOIO::nextType ()
   else if( fread(&header,sizeof(header),1,fp) != 1 )
   {
     FailWhen(ferror(fp),"error reading boio file "+fname+": "+strerror(errno));
+    // a partial header is no header
+    header.tid = 0;
     // check for EOF again
     if( feof(fp) )
       return 0;
-- 
2.43.0


From 9bc4362d88b5100e64076fed075b8768b884924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 21/74] fix: resizing a scalar to one element leaves it a
 scalar when packed

---
 DMI/src/Vec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DMI/src/Vec.cc b/DMI/src/Vec.cc
index d260c3a..666a461 100644
--- a/DMI/src/Vec.cc
+++ b/DMI/src/Vec.cc
@@ -206,7 +206,7 @@ void DMI::Vec::resize (int newsize)
   {
     headref_().resize(sizeof(HeaderBlock)+typeinfo.size*newsize);
     phead_ = static_cast<HeaderBlock*>(headref_().data());
-    phead_->size = newsize;
+    phead_->size = scalar ? -newsize : newsize;
   }
   else if( dynamic_type )
   {
-- 
2.43.0


From 9ffa0cd0c73dc39476228944a9195edb0a47a3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 22/74] fix: Dispatcher::start() lost its place in the WP map
 when an init() failed

---
 OCTOPUSSY/src/Dispatcher.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 3dbf533..0624697 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -239,9 +239,12 @@ void Dispatcher::start ()
   tick = 0;
   // say init to all WPs
   dprintf(1)("starting\n");
+  // (iterate over a copy, since a WP whose init() fails is detached from the map)
   dprintf(2)("start: initializing WPs\n");
-  for( WPI iter = wps.begin(); iter != wps.end(); iter++ )
+  map<WPID,WPRef> wps0 = wps;
+  for( WPI iter = wps0.begin(); iter != wps0.end(); iter++ )
     iter->second().do_init();
+  wps0.clear();
 
 #ifdef USE_THREADS
   // startup of event thread moved to end of start(), because otherwise
-- 
2.43.0


From 70ad150a15b84bddb10bc81e716f498e12ba801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 23/74] fix: WPInterface::dequeue() went past the queue for a
 negative position

---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index eb11668..3959ba6 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -974,7 +974,7 @@ bool WPInterface::dequeue (int pos, Message::Ref *ref)
 {
   Thread::Mutex::Lock lock(queue_cond);
   int qsz = queue().size();
-  FailWhen( pos >= qsz,"dequeue: illegal position" );
+  FailWhen( pos < 0 || pos >= qsz,"dequeue: illegal position" );
   if( !pos && qsz>1 )
   {
     setNeedRepoll(true);
-- 
2.43.0


From af7875c0a666956a34d40fdb46e6e59b2ffa7ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 24/74] fix: a message of negative priority did not get its WP
 polled

---
 OCTOPUSSY/src/WPInterface.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index 3959ba6..b796f87 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -891,6 +891,10 @@ int WPInterface::enqueue (const Message::Ref &msg, ulong tick, int flags)
   Thread::Mutex::Lock lock(queue_cond);
   int pri = msg->priority();
   QueueEntry qe(msg,pri,tick);
+  // what is returned when a repoll is needed: never negative, since -1 means
+  // that it is not (c.f. getPollPriority())
+  int lowest = Message::PRI_LOWEST;
+  int poll_pri = std::max(pri,lowest);
   // some optimizations here to optimize lookup time for very long queues
   bool setrepoll = !(flags&ENQ_NOREPOLL),
        do_signal = !(flags&ENQ_NOSIGNAL);
@@ -901,7 +905,7 @@ int WPInterface::enqueue (const Message::Ref &msg, ulong tick, int flags)
     if( setrepoll )
       notifyOfRepoll(do_signal);
     queue().push_front(qe);
-    return pri;
+    return poll_pri;
   }
   // (b): message belongs at back
   int back_pri = queue().back().priority;
@@ -919,7 +923,7 @@ int WPInterface::enqueue (const Message::Ref &msg, ulong tick, int flags)
     if( setrepoll )
       notifyOfRepoll(do_signal);
     queue().push_front(qe);
-    return pri;
+    return poll_pri;
   }
   // (d): iterate to find the right spot
   // iterate from head of queue() as long as msg priority is higher
@@ -933,7 +937,7 @@ int WPInterface::enqueue (const Message::Ref &msg, ulong tick, int flags)
     dprintf(3)("queueing [%s] at head of queue {case:D}\n",qe.mref->debug(1));
     if( setrepoll )
       notifyOfRepoll(do_signal);
-    return pri;
+    return poll_pri;
   }
   dprintf(3)("queueing [%s] at h+%d {case:D}\n",qe.mref->debug(1),count);
   queue().insert(iter,qe);
-- 
2.43.0


From e5ffb7beccf184378ea5740ffa34a4d9630f800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 25/74] fix: messages sent to a WP before its own init() were
 never polled for

---
 OCTOPUSSY/src/WPInterface.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index b796f87..b2b0451 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -496,7 +496,12 @@ void WPInterface::attach (Dispatcher* pdsp)
 //##ModelId=3C99B0070017
 void WPInterface::do_init ()
 {
-  setNeedRepoll(false);
+  {
+    // something may have been queued already (e.g. from another WP's init()),
+    // this must not be left without a poll
+    Thread::Mutex::Lock lock(queue_cond);
+    setNeedRepoll(!queue().empty());
+  }
   full_lock = receive_lock = started = false;
   running = true;
   if( autoCatch() )
-- 
2.43.0


From 5f54e281cb4bf75ce2f0bd82dd1fcdd2d8266244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 26/74] fix: receive() got the queue's own message ref, unless
 autoCatch() was set

What it wrote to the message was seen by its other recipients, and a message
whose ref it took over was never removed from the queue.
---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index b2b0451..c812c65 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -811,7 +811,7 @@ bool WPInterface::do_poll (ulong tick)
       }
     }
     else  
-      res = receive(mref);
+      res = receive(mref2);
     receive_lock = false;
   }
   lock.relock(queue_cond);
-- 
2.43.0


From ba57365c02d3316fe52c6004d39c10841458be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 27/74] fix: dequeue() had a held message delivered again even
 if it removed nothing

---
 OCTOPUSSY/src/WPInterface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index c812c65..bf4c49b 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -953,7 +953,7 @@ int WPInterface::enqueue (const Message::Ref &msg, ulong tick, int flags)
 bool WPInterface::dequeue (const HIID &id, Message::Ref *ref)
 {
   Thread::Mutex::Lock lock(queue_cond);
-  bool erased_head = true;
+  bool erased_head = false;
   for( MQI iter = queue().begin(); iter != queue().end(); )
   {
     if( id.matches( iter->mref->id() ) )
-- 
2.43.0


From 25a1b7a4fd29f920e75bb72a50a77015f7a756c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 28/74] fix: messages sent before Dispatcher::start() were
 stamped with an uninitialized tick

---
 OCTOPUSSY/src/Dispatcher.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 0624697..df09292 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -134,6 +134,7 @@ void Dispatcher::init ()
   sigemptyset(&raisedSignals);
   sigemptyset(&allSignals);
   running = in_start = false;
+  tick = 0;
   poll_depth = -1;
   repoll = false;
   dprintf(1)("created\n");
-- 
2.43.0


From 843b11af5270b76f8fa118b7bed3085bf5be3bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 29/74] fix: publish(HIID) passed its scope on as flags,
 publishing with the default scope

---
 OCTOPUSSY/src/WPInterface.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index bf4c49b..bc63474 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -1126,10 +1126,10 @@ int WPInterface::publish (Message::Ref &msg,int , int scope)
 }
 
 //##ModelId=3CBDACCC028F
-int WPInterface::publish (const HIID &id,int,int scope, int priority)
+int WPInterface::publish (const HIID &id,int flags,int scope, int priority)
 {
   Message::Ref msg( new Message(id,priority),DMI::ANON|DMI::WRITE );
-  return publish(msg,scope);
+  return publish(msg,flags,scope);
 }
 
 //##ModelId=3CBED9EF0197
-- 
2.43.0


From c9ad0f08094e914a0d3afe7f26cd00e2555b0907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 30/74] fix: removeInput(-1) removed only the first input of
 the WP

---
 OCTOPUSSY/src/Dispatcher.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index df09292..8f7e842 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -695,8 +695,9 @@ bool Dispatcher::removeInput (WPInterface* pwp, int fd, int flags)
 {
   if( fd<0 )  // fd<0 means remove everything
     flags = ~0;
+  bool res = false;
   Thread::Mutex::Lock lock(inpmutex);
-  for( IILI iter = inputs.begin(); iter != inputs.end(); iter++ )
+  for( IILI iter = inputs.begin(); iter != inputs.end(); )
   {
     // is an input message sitting enqueued and still undelivered?
     // (WPInterface::poll() will reset its state to 0 when delivered)
@@ -712,12 +713,19 @@ bool Dispatcher::removeInput (WPInterface* pwp, int fd, int flags)
       }
       // clear flags of input
       if( ( iter->flags &= ~flags ) == 0 ) // removed all modes? 
-        inputs.erase(iter);
-      rebuildInputs();
-      return true;
+        inputs.erase(iter++);
+      else
+        iter++;
+      res = true;
+      if( fd >= 0 )
+        break;
     }
+    else
+      iter++;
   }
-  return false;
+  if( res )
+    rebuildInputs();
+  return res;
 }
 
 //##ModelId=3C7DFF57025C
-- 
2.43.0


From 12c41c99311b0e01cb9da3e4a0339997baa49bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 31/74] fix: poll() failed when a WP threw an exception after
 detaching itself

---
 OCTOPUSSY/src/Dispatcher.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 8f7e842..69bc7e1 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -518,13 +518,16 @@ void Dispatcher::poll (int maxloops)
       catch ( std::exception &exc )
       {
         dprintf(0)("WP %s threw exception %s, detaching\n",maxwp->debug(1),exc.what());
-        detach(maxwp,true);
+        do_detach = true;
       }
       catch (...)
       {
         dprintf(0)("WP %s threw unknown exception, detaching\n",maxwp->debug(1));
-        detach(maxwp,true);
+        do_detach = true;
       }
+      // (unless the WP has already detached itself)
+      if( do_detach && wps.find(maxwp->wpid()) != wps.end() )
+        detach(maxwp,true);
       dprintf(3)("poll done: repoll=%d\n",(int)repoll);
     }
   }
-- 
2.43.0


From e1bb464e8a25bbfc19c15fa4a69ab7bcd289d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 32/74] fix: deliver() cleared the flags of a one-shot input
 before they were read

---
 OCTOPUSSY/src/WPInterface.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/OCTOPUSSY/src/WPInterface.cc b/OCTOPUSSY/src/WPInterface.cc
index bc63474..dae0e7b 100755
--- a/OCTOPUSSY/src/WPInterface.cc
+++ b/OCTOPUSSY/src/WPInterface.cc
@@ -196,6 +196,8 @@ int WPInterface::deliver (Thread::Mutex::Lock &lock)
       #ifdef ENABLE_LATENCY_STATS
       qe.mref().latency.measure("RCV");
       #endif
+      // (but note its state first, since ours may be the only ref)
+      int state = msg.state();
       qe.mref().setState(0);
 
       if( id[1] == AidTimeout ) // deliver timeout message
@@ -210,7 +212,7 @@ int WPInterface::deliver (Thread::Mutex::Lock &lock)
       else if( id[1] == AidInput ) // deliver input message
       {
         FailWhen( id.size() != 3,"malformed "+id.toString('.')+" message" );
-        int fd=id[2],flags=msg.state();
+        int fd=id[2],flags=state;
         if( flags )  // no flags? Means the input has been already removed. Ignore
         {
           res = input(fd,flags);
-- 
2.43.0


From dd74dfa595a1f5ec587aa4e7bda80f84bbec5cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:34 +0000
Subject: [PATCH 33/74] fix: checkEvents() asked for a repoll before the WP was
 marked for it

---
 OCTOPUSSY/src/Dispatcher.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 69bc7e1..0e4b0ea 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -961,8 +961,9 @@ bool Dispatcher::checkEvents()
           if( iter->pwp->compareHeadOfQueue(pmsg) )
           {
             dprintf(1)("head of queue changed, repoll required\n");
-            repoll = wakeup = true;     
+            // (in this order, or else the polling thread may miss it)
             iter->pwp->setNeedRepoll(true);
+            repoll = wakeup = true;     
           }
         }
         else // not found, so enqueue a message
@@ -1018,7 +1019,10 @@ bool Dispatcher::checkEvents()
               Message *pmsg = iter->second.last_msg;
               // simply ask for a repoll if the message is at top of queue
               if( iter->second.pwp->compareHeadOfQueue(pmsg) )
-                iter->second.pwp->setNeedRepoll(repoll=wakeup=true);
+              {
+                iter->second.pwp->setNeedRepoll(true);
+                repoll = wakeup = true;
+              }
             }
             else // not in queue anymore, so enqueue a message
             {
-- 
2.43.0


From 73502616632c3afb83dc6ac624ab6fe7aa748621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:57 +0000
Subject: [PATCH 34/74] fix: the event thread slept through signals that came
 just before its select()

---
 OCTOPUSSY/src/Dispatcher.cc | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/OCTOPUSSY/src/Dispatcher.cc b/OCTOPUSSY/src/Dispatcher.cc
index 0e4b0ea..e26d110 100755
--- a/OCTOPUSSY/src/Dispatcher.cc
+++ b/OCTOPUSSY/src/Dispatcher.cc
@@ -1092,12 +1092,17 @@ void * Dispatcher::start_eventThread (void *pdsp)
 //##ModelId=3DB9366B015E
 void * Dispatcher::eventThread ()
 {
-  // no signals are blocked
   try
   {
     dprintf(1)("Entering event thread\n");
-    // unblock all signals
-    Thread::signalMask(SIG_UNBLOCK,validSignals());
+    // signals are blocked here, and let through only while waiting inside 
+    // pselect(). Otherwise, one that comes just before the wait (e.g. to say 
+    // that a timeout has been added) would not interrupt it.
+    sigset_t wait_mask;
+    Thread::signalMask(SIG_BLOCK,validSignals(),&wait_mask);
+    for( int sig = 1; sig < _NSIG; sig++ )
+      if( sigismember(validSignals(),sig) == 1 )
+        sigdelset(&wait_mask,sig);
     // wait for startup to complete
     if( in_start )
     {
@@ -1118,7 +1123,8 @@ void * Dispatcher::eventThread ()
         stopPolling();
       // pause until next timeout, or until an fd is active
       Thread::Mutex::Lock lock(tomutex);
-      struct timeval tv,*ptv = &tv;
+      struct timeval tv;
+      struct timespec ts,*pts = &ts;
       if( next_to )
       {
         (next_to - Timestamp::now()).to_timeval(tv);
@@ -1128,20 +1134,22 @@ void * Dispatcher::eventThread ()
         // so that the select() call below only checks the fds and does not sleep
         if( tv.tv_sec < 0 || (!tv.tv_sec && tv.tv_usec<0) )
           tv.tv_sec = tv.tv_usec = 0;
+        ts.tv_sec = tv.tv_sec;
+        ts.tv_nsec = tv.tv_usec*1000;
       }
       else // no timeouts pending at all, so wait indefinitely on the fds
-        ptv = 0;
+        pts = 0;
       lock.relock(fds_watched_mutex);
       if( max_fd >= 0 ) // poll fds using select(2) 
       {
         fds_active = fds_watched;
         lock.release();
-        if( ptv )
-          { dprintf(5)("select(%d,%ld:%ld)\n",max_fd,ptv->tv_sec,ptv->tv_usec); }
+        if( pts )
+          { dprintf(5)("select(%d,%ld:%ld)\n",max_fd,tv.tv_sec,tv.tv_usec); }
         else
           { dprintf(5)("select(%d,null)\n",max_fd); }
         // NB: if timeouts change, should also deliver a signal
-        num_active_fds = select(max_fd,&fds_active.r,&fds_active.w,&fds_active.x,ptv);
+        num_active_fds = pselect(max_fd,&fds_active.r,&fds_active.w,&fds_active.x,pts,&wait_mask);
         // we don't expect any errors except perhaps EINTR (interrupted by signal)
         dprintf(1)("select()=%d, errno=%d (%s), running=%d\n",num_active_fds,num_active_fds<0?errno:0,num_active_fds<0?strerror(errno):"",(int)running);
 //        dprintf(5)("select()=%d, errno=%d (%s), running=%d\n",num_active_fds,num_active_fds<0?errno:0,num_active_fds<0?strerror(errno):"",(int)running);
@@ -1151,11 +1159,11 @@ void * Dispatcher::eventThread ()
       else  // else just use select(2) to sleep until next timeout
       {
         lock.release();
-        if( ptv )
-          { dprintf(5)("select(0,%ld:%ld)\n",ptv->tv_sec,ptv->tv_usec); }
+        if( pts )
+          { dprintf(5)("select(0,%ld:%ld)\n",tv.tv_sec,tv.tv_usec); }
         else
           { dprintf(5)("select(0,null)\n"); }
-        int res = select(0,NULL,NULL,NULL,ptv);
+        int res = pselect(0,NULL,NULL,NULL,pts,&wait_mask);
         dprintf(5)("select()=%d, errno=%d (%s), running=%d\n",res,res<0?errno:0,res<0?strerror(errno):"",(int)running);
       }
     }
-- 
2.43.0


From 1b22f6e28a10b6f47d1e144a49a1e6d628dc2279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 35/74] fix: a refused child_poll_order left a part of itself
 behind (children polled twice or never)

---
 MEQ/src/NodeNursery.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 75126cb..2d0e2e6 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -117,6 +117,7 @@ void NodeNursery::enableMultiThreaded (bool enable)
 void NodeNursery::setChildPollOrder (const std::vector<string> &order)
 {
   std::vector<bool> specified(numChildren(),false);
+  std::vector<int> new_order(numChildren());
   int nord = 0;
   FailWhen(order.size()>uint(numChildren()),"child_poll_order: too many elements");
   for( uint i=0; i<order.size(); i++ )
@@ -129,7 +130,7 @@ void NodeNursery::setChildPollOrder (const std::vector<string> &order)
       {
         FailWhen(specified[ich],"child_poll_order: duplicate child \""+child_name+"\"");
         specified[ich] = true;
-        child_poll_order_[nord++] = ich;
+        new_order[nord++] = ich;
         break;
       }
     }
@@ -140,9 +141,10 @@ void NodeNursery::setChildPollOrder (const std::vector<string> &order)
   {
     for( int ich=0; ich<numChildren(); ich++ )
       if( !specified[ich] )
-        child_poll_order_[nord++] = ich;
+        new_order[nord++] = ich;
   }
   Assert(nord == numChildren());
+  child_poll_order_ = new_order;
 }
 
 void NodeNursery::setFailPolicy (AtomicID policy)
-- 
2.43.0


From 511c44c89bc7c85217788c8f6d968b0edd89dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:15 +0000
Subject: [PATCH 36/74] fix: a failed Node::setState() left breakpoints,
 status, cache, groups and poll order changed

---
 MEQ/src/Node.cc       | 34 ++++++++++++++++++++++++++++++++++
 MEQ/src/Node.h        | 25 +++++++++++++++++++++++++
 MEQ/src/NodeNursery.h |  7 ++++++-
 3 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index d4265be..01134bf 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -364,6 +364,31 @@ void Node::setStateImpl (DMI::Record::Ref &rec,bool initializing)
   }
 }
 
+void Node::saveUnrecordedState (UnrecordedState &st) const
+{
+  st.control_status = control_status_;
+  st.breakpoints    = breakpoints_;
+  st.breakpoints_ss = breakpoints_ss_;
+  st.node_groups    = node_groups_;
+  st.poll_order     = children_.childPollOrder();
+  st.request        = current_request_;
+  st.result         = cache_.result;
+  st.rqid           = cache_.rqid;
+  st.rescode        = cache_.rescode;
+  st.cache_valid    = cache_.is_valid;
+}
+
+void Node::restoreUnrecordedState (const UnrecordedState &st)
+{
+  breakpoints_      = st.breakpoints;
+  breakpoints_ss_   = st.breakpoints_ss;
+  node_groups_      = st.node_groups;
+  children_.setChildPollOrder(st.poll_order);
+  current_request_  = st.request;
+  cache_.restore(st.result,st.rqid,st.rescode,st.cache_valid);
+  setControlStatus(st.control_status,true);
+}
+
 //##ModelId=3F5F445A00AC
 void Node::setState (DMI::Record::Ref &rec)
 {
@@ -379,6 +404,9 @@ void Node::setState (DMI::Record::Ref &rec)
   // If the exception occurs before any change of state, then no cleanup is
   // needed. Implementations may throw a FailWithoutCleanup exception to
   // indicate this.
+  // The state record does not hold everything, so the rest is kept here.
+  UnrecordedState saved;
+  saveUnrecordedState(saved);
   try
   {
     setStateImpl(rec,initializing);
@@ -390,13 +418,19 @@ void Node::setState (DMI::Record::Ref &rec)
   catch( std::exception &exc )
   {
     if( !initializing )
+    {
       setStateImpl(staterec_,true);
+      restoreUnrecordedState(saved);
+    }
     ThrowMore(exc,"setState() failed");
   }
   catch( ... )
   {
     if( !initializing )
+    {
       setStateImpl(staterec_,true);
+      restoreUnrecordedState(saved);
+    }
     Throw("setState() failed with unknown exception");
   }
   // success: merge record into state record
diff --git a/MEQ/src/Node.h b/MEQ/src/Node.h
index 3c7071f..e8ccd86 100644
--- a/MEQ/src/Node.h
+++ b/MEQ/src/Node.h
@@ -925,6 +925,22 @@ class Node : public NodeFace
     //## real cache policy (equal to forest policy if ours is 0)
     int actual_cache_policy_;
 
+    //## those parts of the node state which setStateImpl() may change, but
+    //## which the state record does not hold, or holds only after a sync
+    typedef struct
+    {
+      int control_status,breakpoints,breakpoints_ss;
+      std::vector<HIID> node_groups;
+      std::vector<int>  poll_order;
+      Request::Ref request;
+      Result::Ref  result;
+      RequestId    rqid;
+      int          rescode;
+      bool         cache_valid;
+    } UnrecordedState;
+    void saveUnrecordedState (UnrecordedState &st) const;
+    void restoreUnrecordedState (const UnrecordedState &st);
+
     //## cache management info
     //## The Cache class encapsulates a cached result
     class Cache
@@ -957,6 +973,15 @@ class Node : public NodeFace
         const Record & record ();
         //## resets cache from record, returns validity flag
         bool fromRecord (const Record &rec);
+        //## puts back previous contents of cache
+        void restore (const Result::Ref &resref,const RequestId &id,int code,bool valid)
+        {
+          result   = resref;
+          rqid     = id;
+          rescode  = code;
+          is_valid = valid;
+          recref_.detach();
+        }
 
         Result::Ref result;
         RequestId   rqid;
diff --git a/MEQ/src/NodeNursery.h b/MEQ/src/NodeNursery.h
index 4b378e9..4b48469 100644
--- a/MEQ/src/NodeNursery.h
+++ b/MEQ/src/NodeNursery.h
@@ -104,6 +104,12 @@ class NodeNursery
     //## Child will be enabled.
     void setChild (int n,NodeFace &child,const HIID &label = HIID());
 
+    //## gets the polling order as child numbers, or sets one obtained earlier
+    const std::vector<int> & childPollOrder () const
+    { return child_poll_order_; }
+    void setChildPollOrder (const std::vector<int> &order)
+    { child_poll_order_ = order; }
+
     //## Sets error handling policies, poll order, etc.
     //## from a state record. Meant to be called from Node::setStateImpl().
     void setState (DMI::Record::Ref &state,bool initializing);
@@ -339,7 +345,6 @@ class NodeNursery
     //## at the end of the list
     void setChildPollOrder (const std::vector<string> &order);
 
-
     //## helper methods for multithreaded polls
     //## Checks if poll can be done in mt mode. If yes, sets
     //## mt.cur_brigade_ to the current brigade, and returns this value
-- 
2.43.0


From bdf67be996f18fe7e6dd3511e4d09f6a92aae8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 37/74] fix: Forest::state() and a failed Forest::setState()
 went by a stale state record

---
 MEQ/src/Forest.cc | 22 +++++++++++++++++++---
 MEQ/src/Forest.h  |  1 +
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/Forest.cc b/MEQ/src/Forest.cc
index 71a2ce3..ad8fbb5 100644
--- a/MEQ/src/Forest.cc
+++ b/MEQ/src/Forest.cc
@@ -374,12 +374,26 @@ void Forest::initDefaultState ()
   st[FBreakpointSingleShot] = breakpoints_ss;
 }
 
+void Forest::syncState () const
+{
+  DMI::Record &st = staterec_();
+  // update axis map
+  st[FAxisMap] = Axis::getAxisRecords();
+  st[FAxisList] = Axis::getAxisIds();
+  // update everything else that changes without going through setState()
+  st[FCachePolicy] = cache_policy_;
+  st[FLogPolicy] = log_policy_;
+  st[FLogFileName] = log_filename_;
+  st[FLogAppend] = log_append_;
+  st[FProfilingEnabled] = profiling_enabled_;
+  st[FBreakpoint] = breakpoints;
+  st[FBreakpointSingleShot] = breakpoints_ss;
+}
+
 DMI::Record::Ref Forest::state () const
 {
   Thread::Mutex::Lock lock(forestMutex());
-  // update axis map
-  staterec_()[FAxisMap] = Axis::getAxisRecords();
-  staterec_()[FAxisList] = Axis::getAxisIds();
+  syncState();
   return staterec_.copy();
 }
 
@@ -439,6 +453,8 @@ void Forest::setState (DMI::Record::Ref &rec,bool complete)
   Thread::Mutex::Lock lock(forestMutex());
   cdebug(2)<<"setState(complete="<<complete<<"): "<<rec.sdebug(10)<<endl;
   string fail;
+  // bring the state record up to date, since we go back to it on error
+  syncState();
   try
   {
     setStateImpl(rec);
diff --git a/MEQ/src/Forest.h b/MEQ/src/Forest.h
index 4394619..2cac029 100644
--- a/MEQ/src/Forest.h
+++ b/MEQ/src/Forest.h
@@ -295,6 +295,7 @@ class Forest
     { return staterec_(); }
 
     void initDefaultState ();
+    void syncState () const;
     void setStateImpl (DMI::Record::Ref &rec);
 
     mutable DMI::Record::Ref staterec_;
-- 
2.43.0


From 2076325ba256fe71bff0fb304e3a998b299d7887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 38/74] fix: no node ever heeded the stop flag, threads ran on
 past a breakpoint in another

---
 MEQ/src/Node.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 01134bf..4bae979 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -1326,10 +1326,8 @@ void Node::setExecState (int es,int newst,bool sync)
       pstate_lock_->relock(state_mutex_);
       // clear stop bit from control status
       setControlStatus(control_status_&~(CS_STOP_BREAKPOINT|CS_STOPPED),sync);
+      return;
     }
-    else
-      setControlStatus(newst,sync);
-    return;
   }
   // no breakpoints, simply update control status
   // But do check if forest is stopped at a breakpoint in another thread.
@@ -1341,6 +1339,8 @@ void Node::setExecState (int es,int newst,bool sync)
     publishParentalStatus();  // recursively publish control status
     forest_->waitOnStopFlag();
     pstate_lock_->relock(state_mutex_);
+    setControlStatus(control_status_&~CS_STOPPED,sync);
+    return;
   }
   setControlStatus(newst,sync);
 }
-- 
2.43.0


From e96cf93f8a39df1549390d1550f789d75434ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 39/74] fix: an abort merged its result status into that of the
 previous result

---
 MEQ/src/Node.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Node.h b/MEQ/src/Node.h
index e8ccd86..93cb633 100644
--- a/MEQ/src/Node.h
+++ b/MEQ/src/Node.h
@@ -826,7 +826,7 @@ class Node : public NodeFace
       Result::Ref ref(new Result(0));
       cdebug(3)<<"  abort flag raised, returning"<<endl;
       Thread::Mutex::Lock lock(execCond());
-      setExecState(CS_ES_IDLE,control_status_|CS_RES_EMPTY);
+      setExecState(CS_ES_IDLE,(control_status_&~CS_RES_MASK)|CS_RES_EMPTY);
       return exitExecute(retcode|RES_ABORT);
     }
 
-- 
2.43.0


From ddde6bbb977768c8b29246c992a1708206354422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 40/74] fix: a single-threaded poll of stepchildren kept the
 state of the node locked (no state requests past a breakpoint below)

---
 MEQ/src/NodeNursery.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MEQ/src/NodeNursery.cc b/MEQ/src/NodeNursery.cc
index 2d0e2e6..2b7b9a4 100644
--- a/MEQ/src/NodeNursery.cc
+++ b/MEQ/src/NodeNursery.cc
@@ -656,7 +656,9 @@ void NodeNursery::backgroundPoll (const Request &req,int depth)
       if( isChildEnabled(ichild)  )
       {
         Result::Ref dum;
+        becomeIdle();
         int childcode = child_retcodes_[ichild] = getChild(ichild).execute(dum,req,depth);
+        becomeBusy();
         cdebug(4)<<"    child "<<ichild<<" returns code "<<ssprintf("0x%x",childcode)<<endl;
         if( childcode&NodeFace::RES_ABORT )
           break;
-- 
2.43.0


From e8f05a58120201b3c8093760edc84e3000b0513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:38 +0000
Subject: [PATCH 41/74] fix: setting active symdeps overwrote the depend mask,
 and a failed setState() reset it

---
 MEQ/src/Node.cc | 15 ++++++++++++++-
 MEQ/src/Node.h  |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Node.cc b/MEQ/src/Node.cc
index 4bae979..542cc6c 100644
--- a/MEQ/src/Node.cc
+++ b/MEQ/src/Node.cc
@@ -312,6 +312,10 @@ void Node::setStateImpl (DMI::Record::Ref &rec,bool initializing)
   // set the logging policy
   rec[FLogPolicy].get(log_policy_,initializing);
 
+  // depend mask, if specified. This is read before the active symdeps are set,
+  // since that writes a new mask into our own state record.
+  int depmask;
+  bool have_depmask = rec[FDependMask].get(depmask);
   // active symdeps
   SymdepMap::DepSet active_symdeps;
   if( initializing )
@@ -324,7 +328,14 @@ void Node::setStateImpl (DMI::Record::Ref &rec,bool initializing)
 
   // now set the dependency mask if specified; this will override
   // possible modifications made above
-  rec[FDependMask].get(depend_mask_,initializing);
+  if( have_depmask )
+  {
+    depend_mask_ = depmask;
+    if( initializing )
+      rec[FDependMask] = depmask;
+  }
+  else
+    rec[FDependMask].get(depend_mask_,initializing);
 
   // get the domain symdep mask
   domain_depend_mask_ = symdeps().getMask(FDomain);
@@ -367,6 +378,7 @@ void Node::setStateImpl (DMI::Record::Ref &rec,bool initializing)
 void Node::saveUnrecordedState (UnrecordedState &st) const
 {
   st.control_status = control_status_;
+  st.depend_mask    = depend_mask_;
   st.breakpoints    = breakpoints_;
   st.breakpoints_ss = breakpoints_ss_;
   st.node_groups    = node_groups_;
@@ -380,6 +392,7 @@ void Node::saveUnrecordedState (UnrecordedState &st) const
 
 void Node::restoreUnrecordedState (const UnrecordedState &st)
 {
+  setDependMask(st.depend_mask);
   breakpoints_      = st.breakpoints;
   breakpoints_ss_   = st.breakpoints_ss;
   node_groups_      = st.node_groups;
diff --git a/MEQ/src/Node.h b/MEQ/src/Node.h
index 93cb633..a63bf11 100644
--- a/MEQ/src/Node.h
+++ b/MEQ/src/Node.h
@@ -929,7 +929,7 @@ class Node : public NodeFace
     //## which the state record does not hold, or holds only after a sync
     typedef struct
     {
-      int control_status,breakpoints,breakpoints_ss;
+      int control_status,breakpoints,breakpoints_ss,depend_mask;
       std::vector<HIID> node_groups;
       std::vector<int>  poll_order;
       Request::Ref request;
-- 
2.43.0


From 675ee4395e1d5d66045bba04a90f82d16a37982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 42/74] fix: an abort raised just as a node comes to a
 breakpoint left it stopped there

---
 MEQ/src/Forest.cc | 3 +++
 MEQ/src/Forest.h  | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/Forest.cc b/MEQ/src/Forest.cc
index ad8fbb5..d8e5be5 100644
--- a/MEQ/src/Forest.cc
+++ b/MEQ/src/Forest.cc
@@ -528,6 +528,9 @@ void Forest::clearBreakpoint (int bpmask,bool single_shot)
 void Forest::processBreakpoint (Node &node,int bpmask,bool global)
 {
   Thread::Mutex::Lock lock(stop_flag_cond_);
+  // do not stop if an abort has come in since the caller checked for it
+  if( abort_flag_ )
+    return;
   raiseStopFlag();
   if( node_breakpoint_callback )
     (*node_breakpoint_callback)(node,bpmask,global);
diff --git a/MEQ/src/Forest.h b/MEQ/src/Forest.h
index 2cac029..0f3e6bd 100644
--- a/MEQ/src/Forest.h
+++ b/MEQ/src/Forest.h
@@ -266,8 +266,12 @@ class Forest
     void setDebugLevel (int level)
     { debug_level_ = level; }
 
+    //## The lock ensures that nobody stops at a breakpoint once this is raised
     void raiseAbortFlag ()
-    { abort_flag_ = true; }
+    {
+      Thread::Mutex::Lock lock(stop_flag_cond_);
+      abort_flag_ = true;
+    }
 
     void clearAbortFlag ()
     { abort_flag_ = false; }
-- 
2.43.0


From 8149b6b5bd64aa5231040f6f0fdcce7cd80063a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 43/74] fix: Rider::getCmdRec_ByList() returned the
 by-node-index record instead of the list

---
 MEQ/src/Rider.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Rider.cc b/MEQ/src/Rider.cc
index 18ace63..24a37a1 100644
--- a/MEQ/src/Rider.cc
+++ b/MEQ/src/Rider.cc
@@ -110,7 +110,7 @@ DMI::Vec & Rider::getCmdRec_ByList (Request::Ref &reqref,const HIID &group,int f
 {
   // get or insert Rider subrecord
   DMI::Record &cmdrec = getGroupRec(reqref,group,flags);
-  return getOrInsert(cmdrec,FCommandByNodeIndex,Type2Type<DMI::Vec>(),flags&NEW_ALL);
+  return getOrInsert(cmdrec,FCommandByList,Type2Type<DMI::Vec>(),flags&NEW_ALL);
 }
     
 } // namespace Meq
-- 
2.43.0


From 4a141774b09f5c4209978636a077549fa85c8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 44/74] fix: cut a domain entry left incomplete by a death off
 the end of the list of domains

A table's domains are appended to a plain file. When the process died in the
middle of an append, the next one to open the table appended after the
incomplete entry, and every domain after it was misread.
---
 MEQ/src/FastParmTable.cc | 14 ++++++++++++++
 MEQ/src/FastParmTable.h  |  4 ++++
 2 files changed, 18 insertions(+)

diff --git a/MEQ/src/FastParmTable.cc b/MEQ/src/FastParmTable.cc
index 3a537fb..bf638c3 100644
--- a/MEQ/src/FastParmTable.cc
+++ b/MEQ/src/FastParmTable.cc
@@ -72,6 +72,8 @@ FastParmTable::FastParmTable (const string& tablename,bool write,bool)
     throwErrno("can't open '%s/domains'");
   // see how many domains we've got based on filesize
   int ndom = stat_buf.st_size/sizeof(DomainEntry);
+  if( write )
+    trimDomainsFile();
   domain_list_.reserve((ndom/1024+1)*1024);
   domain_ref_list_.reserve((ndom/1024+1)*1024);
   domain_list_.resize(ndom);
@@ -124,6 +126,16 @@ FastParmTable::~FastParmTable()
     free(prev_key.dptr);
 }
 
+void FastParmTable::trimDomainsFile ()
+{
+  struct stat stat_buf;
+  if( stat(domains_file_.c_str(),&stat_buf) < 0 )
+    throwErrno("can't access '%s/domains'");
+  int partial = stat_buf.st_size%sizeof(DomainEntry);
+  if( partial && truncate(domains_file_.c_str(),stat_buf.st_size-partial) < 0 )
+    throwErrno("can't truncate '%s/domains'");
+}
+
 void FastParmTable::openForWriting ()
 {
   if( writing_ )
@@ -131,6 +143,8 @@ void FastParmTable::openForWriting ()
   if( !fdomains_ || !fdb_ )
     Throw("can't reopen '%s' for writing, it is not open");
   fclose(fdomains_);
+  fdomains_ = 0;
+  trimDomainsFile();
   // reopen the domains file
   fdomains_ = fopen(domains_file_.c_str(),"a+b");
   if( !fdomains_ )
diff --git a/MEQ/src/FastParmTable.h b/MEQ/src/FastParmTable.h
index d1a2840..bb20941 100644
--- a/MEQ/src/FastParmTable.h
+++ b/MEQ/src/FastParmTable.h
@@ -138,6 +138,10 @@ private:
   datum prev_key;
   bool dpiter_initialized_;
   
+  // cuts off an incomplete entry at the end of the domains file, which is what
+  // a process killed in the middle of writing may leave: new entries are appended to it
+  void trimDomainsFile ();
+  
   // reopens table for writing, if it's not open for writing yet
   void openForWriting ();
   
-- 
2.43.0


From 1bd9a0b2a3d80297f18f69c25a862af4e479c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 45/74] fix: the maximum of negative values

Max() of a function that is negative everywhere came out as 2.2e-308.
---
 MEQ/src/Vells.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 8583d01..6095597 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -843,7 +843,7 @@ inline dcomplex mkconst (int x,dcomplex *)
 defineReductionFuncTemplate(min,std::numeric_limits<TY>::max());
 defineErrorRedFuncTemplate(min,"min() can only be applied to a real Meq::Vells");
 #define Do_max(y,x) y=max(x,y)
-defineReductionFuncTemplate(max,std::numeric_limits<TY>::min());
+defineReductionFuncTemplate(max,-std::numeric_limits<TY>::max());
 defineErrorRedFuncTemplate(max,"max() can only be applied to a real Meq::Vells");
 
 Meq::Vells::UnaryRdFuncPtr Meq::Vells::unifunc_min_lut[VELLS_LUT_SIZE] =
-- 
2.43.0


From 554674b1eefe7abe5834702efc7adf42a271ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 46/74] fix: complement of flags

Operator ~ on flags read its uninitialised result.
---
 MEQ/src/Vells.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 6095597..6a39011 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -692,8 +692,9 @@ DoForAllUnaryOperators(implementUnaryOperator,);
   Meq::Vells Meq::Vells::operator OPER () const \
   { \
     Vells result(*this,VF_FLAGTYPE,"operator "#OPER); \
-    for( FT *ptr = result.begin<FT>(); ptr != result.end<FT>(); ptr++ ) \
-       (*ptr) = OPER (*ptr); \
+    const FT *px = begin<FT>(); \
+    for( FT *ptr = result.begin<FT>(); ptr != result.end<FT>(); ptr++,px++ ) \
+       (*ptr) = OPER (*px); \
     return result; \
   }
 
-- 
2.43.0


From 5a3d2d0e772af8f641f2883b92bb67454128a09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 47/74] fix: sum and product over flags of a larger shape

Sum() and product() of a function counted cells more than once when its flags had a larger shape than its values.
---
 MEQ/src/Vells.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/Vells.cc b/MEQ/src/Vells.cc
index 6a39011..a1a8cb7 100644
--- a/MEQ/src/Vells.cc
+++ b/MEQ/src/Vells.cc
@@ -875,13 +875,25 @@ Meq::Vells::UnaryRdFuncPtr Meq::Vells::unifunc_mean_lut[VELLS_LUT_SIZE] =
 // these functions require a renormalization term, to take into account the
 // fact that a Vells constant along axis #i will only contain one
 // actual value to represent Ni points.
-// The renormalization term is (N points in full shape)/(N actual points in Vells)
+// The renormalization term is (N points in full shape)/(N points actually visited).
+// If flags are in use, collapsed axes of x are already auto-expanded to the shape
+// of the flags.
+static inline int renormFactor (const Meq::Vells &x,const Meq::Vells::Shape &shape,FT flagmask)
+{
+  const Meq::Vells *df = flagmask && x.hasDataFlags() ? &(x.dataFlags()) : 0;
+  int renorm = 1;
+  for( uint i=0; i<shape.size(); i++ )
+    if( x.extent(i) == 1 && ( !df || df->extent(i) == 1 ) )
+      renorm *= shape[i];
+  return renorm;
+}
+
 template<class TY,class TX>
 static void implement_sum (Meq::Vells &y,const Meq::Vells &x,const Meq::Vells::Shape &shape,FT flagmask)
 {
   int nel;
   TY y0 = implement_sum_impl(nel,x,flagmask,Type2Type<TY>(),Type2Type<TX>());
-  int renorm = shape.product()/x.nelements(); // renorm factor for collapsed dimensions
+  int renorm = renormFactor(x,shape,flagmask); // renorm factor for collapsed dimensions
   y.as(Type2Type<TY>()) = y0 * mkconst(renorm,&y0);
 }
 
@@ -892,7 +904,7 @@ static void implement_product (Meq::Vells &y,const Meq::Vells &x,const Meq::Vell
 {
   int nel;
   TY y0 = implement_product_impl(nel,x,flagmask,Type2Type<TY>(),Type2Type<TX>());
-  int renorm = shape.product()/x.nelements(); // renorm factor for collapsed dimensions
+  int renorm = renormFactor(x,shape,flagmask); // renorm factor for collapsed dimensions
   y.as(Type2Type<TY>()) = pow(y0,renorm);
 }
 
-- 
2.43.0


From c9307dbe7d084318c5774b04ab0a343e5737037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 48/74] fix: copies of failed vellsets

The copy constructor of VellSet left pointers uninitialised, so that copying a failed vellset crashed.
---
 MEQ/src/VellSet.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index b22f9d7..0972238 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -107,6 +107,9 @@ void VellSet::init ()
 //##ModelId=400E53550322
 VellSet::VellSet (const DMI::Record &other,int flags,int depth)
 : Record(),
+  pvalue_       (0),
+  pflags_       (0),
+  pweights_     (0),
   default_pert_ (0.),
   pset_         (0),
   spids_        (0),
-- 
2.43.0


From cb3fccbe9ce46b6bd252ca6119d8b1b395f1341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 49/74] fix: several fails in one vellset

VellSet::addFail dropped the fails already there.
---
 MEQ/src/VellSet.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index 0972238..72d2c60 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -592,7 +592,8 @@ void VellSet::setPerturbedValue (int i,Vells::Ref &ref,int iset,int flags)
 void VellSet::addFail (const ObjRef &ref)
 {
   Thread::Mutex::Lock lock(mutex());
-  clear();
+  if( !is_fail_ ) // keep the fails we already have
+    clear();
   is_fail_ = true;
   // clear out the DR
   Record::removeField(FValue,true,0);
-- 
2.43.0


From 123d5d4029c1feb08cb5481bc0666d9d9dc0b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 50/74] fix: copies of vellsets after a change of flags

Copying a vellset failed after flags of larger shape had been replaced or removed.
---
 MEQ/src/VellSet.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index 72d2c60..33eb259 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -175,7 +175,12 @@ void VellSet::verifyShape (bool reset)
       adjusted |= adjustShape(shp,getPerturbedValue(i,iset));
   // set new shape if needed
   if( adjusted )
+  {
+    // the old shape may be the bigger one, if e.g. flags have been replaced since
+    if( reset )
+      shape_.clear();
     setShape(shp);
+  }
 }
 
 bool VellSet::adjustShape (LoShape &shp,const Vells &vells)
-- 
2.43.0


From 8a20b7b6aaae722c4c8c27d564e83f3129d333d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 51/74] fix: flags masked out of a function's result

Values kept the flags of the child they came from although the plane's flags were masked out, so that a later reduction ignored cells that are not flagged.
---
 MEQ/src/VellSet.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MEQ/src/VellSet.cc b/MEQ/src/VellSet.cc
index 33eb259..f339b18 100644
--- a/MEQ/src/VellSet.cc
+++ b/MEQ/src/VellSet.cc
@@ -575,6 +575,8 @@ void VellSet::setValue (Vells::Ref &ref,int flags)
   // attach flags if we have them
   if( hasDataFlags() )
     ref().setDataFlags(dataFlags());
+  else if( ref->hasDataFlags() ) // get rid of stale flags if we have none
+    ref().clearDataFlags();
   Field & field = Record::addField(FValue,ref.ref_cast<BObj>(),flags|DMI::REPLACE|Record::PROTECT);
   pvalue_ = &( field.ref().ref_cast<Vells>() );
 }
@@ -590,6 +592,8 @@ void VellSet::setPerturbedValue (int i,Vells::Ref &ref,int iset,int flags)
   // attach flags if we have them
   if( hasDataFlags() )
     ref().setDataFlags(dataFlags());
+  else if( ref->hasDataFlags() ) // get rid of stale flags if we have none
+    ref().clearDataFlags();
   ps.pertval_vec->dewr().put(i,ref,flags);
 }
 
-- 
2.43.0


From 1021a105e8c967e6c6b551fedb187bb5440fa9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 52/74] fix: failed planes of a function

A failed plane of a function with missing arguments counted as missing.
---
 MEQ/src/Function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 50ea760..4fa9f4b 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -197,7 +197,7 @@ int Function::getResult (Result::Ref &resref,
     // Otherwise, we have a case of some values present, and some missing. This is only supported by some node classes:
     // these will have called allowMissingData() in their constructor. If this is not supported, then we return no
     // data as well.
-    if( nmissing )
+    if( nmissing && !vellset.isFail() )
     {
       if( nmissing == nrch || !allow_missing_data_ )
       {
-- 
2.43.0


From 71a20ea5c7c34f15d17ca459d071fa0ca92a1114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 53/74] fix: perturbation sets in functions and matrix products

Children with different numbers of perturbation sets were read beyond their sets.
---
 MEQ/src/Function.cc            | 2 +-
 MeqNodes/src/MatrixMultiply.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index 4fa9f4b..e23166d 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -250,7 +250,7 @@ int Function::getResult (Result::Ref &resref,
             int inx = vs.isDefined(spids[j],indices[ich]);
             if( inx >= 0 )
             {
-              for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+              for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
               {
                 const Vells &pvv = vs.getPerturbedValue(inx,ipert);
 //                childpvv_lock[ipert][ich].relock(pvv.mutex());
diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index 49e643d..9138066 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -180,7 +180,7 @@ void MatrixMultiply::scalarMultiply (Result::Ref &res,
         int inx = vs.isDefined(spids[ispid],indices[ich]);
         if( inx >= 0 )
         {
-          for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+          for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
           {
             const Vells &pvv = vs.getPerturbedValue(inx,ipert);
             pert_values[ipert][ich] = &pvv;
@@ -372,7 +372,7 @@ int MatrixMultiply::getResult (Result::Ref &resref,
                 int inx = vs.isDefined(spids[ispid],indices[ivs]);
                 if( inx >= 0 )
                 {
-                  for( int ipert=0; ipert<std::max(vs.numPertSets(),npertsets); ipert++ )
+                  for( int ipert=0; ipert<vs.numPertSets(); ipert++ )
                   {
                     const Vells &pvv = vs.getPerturbedValue(inx,ipert);
                     pert_values[ipert][ivs] = &pvv;
-- 
2.43.0


From 87ece362dcc9a3d42031e7f67332a4fdbcbb4f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 54/74] fix: functions with disabled children

WSum and WMean with a zero weight always failed.
---
 MEQ/src/Function.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/Function.cc b/MEQ/src/Function.cc
index e23166d..cd7e7b1 100644
--- a/MEQ/src/Function.cc
+++ b/MEQ/src/Function.cc
@@ -119,10 +119,10 @@ int Function::getResult (Result::Ref &resref,
   Result::Dims out_dims;
   if( nrch )
   {
-    FailWhen(!childres[0]->numVellSets(),"no vellsets in result of child 0");
-    out_dims = childres[0]->dims();
-    for( int i=1; i<nrch; i++ )
+    for( int i=0; i<nrch; i++ )
     {
+      if( !childres[i].valid() ) // disabled child
+        continue;
       const Result &res = *childres[i];
       FailWhen(!res.numVellSets(),ssprintf("no vellsets in result of child %d",i));
       if( res.tensorRank() > 0 )
@@ -146,7 +146,8 @@ int Function::getResult (Result::Ref &resref,
   LoShape res_shape;
   // look for cells in child results
   for( int i=0; i<nrch; i++ )
-    Axis::mergeShape(res_shape,childres[i]->getVellSetShape());
+    if( childres[i].valid() )
+      Axis::mergeShape(res_shape,childres[i]->getVellSetShape());
   // if not found, use request cells
   if( res_shape.empty() && request.hasCells() )
     res_shape = request.cells().shape();
@@ -170,6 +171,8 @@ int Function::getResult (Result::Ref &resref,
     {
       child_vs[i] = 0;
       values[i] = 0;
+      if( !childres[i].valid() ) // disabled child
+        continue;
       const Result &chres = *childres[i];
       const HIID &label = children().getChildLabel(i);
       // does this child have a vellset?
-- 
2.43.0


From d6d3d227c8e3d9a5ec225ce1616dbce07a81b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 55/74] fix: dimensions of scalar results

A result with dimensions [1,1] could not be read back from its own record.
---
 MEQ/src/Result.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/Result.cc b/MEQ/src/Result.cc
index 7a9d970..1bbbbb3 100644
--- a/MEQ/src/Result.cc
+++ b/MEQ/src/Result.cc
@@ -234,7 +234,7 @@ int Result::allocateVellSets (const Dims &dims)
   else
     dims_ = dims;
   // if dims are non-trivial, store them in record
-  if( dims.size() > 1 )
+  if( dims_.size() > 1 )
   {
     ref <<= new DMI::Vec(Tpint,dims.size(),&(dims[0]));
     Record::addField(FDims,ref,DMI::REPLACE|Record::PROTECT);
-- 
2.43.0


From 1abe34e31337ddb98b4b74700c8143cbf18ab989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 56/74] fix: ReplaceFlaggedValues without flags

ReplaceFlaggedValues failed when no child had flags.
---
 MeqNodes/src/ReplaceFlaggedValues.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/ReplaceFlaggedValues.cc b/MeqNodes/src/ReplaceFlaggedValues.cc
index cd9bf98..ebb3d6f 100644
--- a/MeqNodes/src/ReplaceFlaggedValues.cc
+++ b/MeqNodes/src/ReplaceFlaggedValues.cc
@@ -65,7 +65,7 @@ Vells ReplaceFlaggedValues::evaluate (const Request&,const LoShape & inshape,
 		     const vector<const Vells*>& values)
 {
   Vells val = *(values[0]);
-  if( flags_ )
+  if( flags_.valid() )
   {
     if( val.isReal() )
       val.replaceFlaggedValues(*flags_,creal(value_));
-- 
2.43.0


From 4c9a8e53616b6ea7075dec3678cea2fa0111a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 57/74] fix: flags of reductions

Reducing nodes flagged their result if any cell was flagged rather than all.
---
 MeqNodes/src/ReductionFunction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index e4d4409..2cb0642 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -80,7 +80,7 @@ VellsFlagType ReductionFunction::isAllFlagged (const Vells &flagvells,VellsFlagT
   // output will have a flag only if all of input is flagged
   const VellsFlagType *pflag = flagvells.begin<VellsFlagType>();
   for( ; pflag != flagvells.end<VellsFlagType>(); pflag++ )
-    if( !(*pflag)&mask )
+    if( !((*pflag)&mask) )
       return 0;
   // if we got here, than all points are flagged
   return mask;
-- 
2.43.0


From 02e9ff8187294e1eab532d8d4059c64676946dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 58/74] fix: reductions along axes beyond a value's rank

Reducing along axes failed if there were more of them than the value has axes.
---
 MEQ/src/VellsSlicerWithFlags.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MEQ/src/VellsSlicerWithFlags.cc b/MEQ/src/VellsSlicerWithFlags.cc
index 21ba918..edb5a95 100644
--- a/MEQ/src/VellsSlicerWithFlags.cc
+++ b/MEQ/src/VellsSlicerWithFlags.cc
@@ -35,7 +35,7 @@ void ConstVellsSlicerWithFlags0::init (const Vells &vells,const int *axes,int n)
   // if flags not attached, use the static "null" flags
   fvells0_ = vells.hasDataFlags() ? &(vells.dataFlags()) : 0;
   int rank = std::max(vells.rank(),(fvells0_ ? fvells0_->rank() : 0));
-  FailWhen(n>rank,"rank of VellsSlicer is too high");
+  FailWhen(n>Axis::MaxAxis,"rank of VellsSlicer is too high");
   // init internals
   pvells0_ = const_cast<Vells*>(&vells);
   data_size_ = vells.elementSize();
-- 
2.43.0


From 20a244db9bf2c1b243129a174a5284efb633d7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 59/74] fix: reductions along axes other than the last

Reducing along axes other than the last ones read the wrong cells.
---
 MEQ/src/VellsSlicerWithFlags.cc   | 30 +++++++++++++++++++++++++++---
 MeqNodes/src/ReductionFunction.cc |  2 +-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/MEQ/src/VellsSlicerWithFlags.cc b/MEQ/src/VellsSlicerWithFlags.cc
index edb5a95..8e15421 100644
--- a/MEQ/src/VellsSlicerWithFlags.cc
+++ b/MEQ/src/VellsSlicerWithFlags.cc
@@ -112,16 +112,40 @@ void ConstVellsSlicerWithFlags0::init (const Vells &vells,const int *axes,int n)
   initRefVells();
 }
 
+// Vells math expects contiguous data, while the elements of a slice need not be
+// adjacent. This collects the elements of a slice into a Vells of its own
+static Vells collectSlice (const char *src,const LoShape &shape,const LoShape &strides,const Vells &other)
+{
+  Vells out(other,shape,false);
+  int n = shape.size();
+  size_t size = out.elementSize();
+  char * dest = static_cast<char*>(out.getDataPtr());
+  char * end  = dest + size*out.nelements();
+  std::vector<int> pos(n,0);
+  for( ; dest < end; dest += size )
+  {
+    memcpy(dest,src,size);
+    for( int i=n-1; i>=0; i-- )
+    {
+      src += strides[i]*size;   // advance along this axis
+      if( ++pos[i] < shape[i] )
+        break;
+      src -= pos[i]*strides[i]*size;  // end of axis, reset and go to next
+      pos[i] = 0;
+    }
+  }
+  return out;
+}
+
 void ConstVellsSlicerWithFlags0::initRefVells ()
 {
   FailWhen(pdata_+sizeof_slice_ > pdata_end_,"VellsSlicerWithFlags iterated past end of data. This should never happen: please file a bug report");
-  vells_.reference(pdata_,shape_,strides_,*const_cast<const Vells*>(pvells0_));
+  vells_ = collectSlice(pdata_,shape_,strides_,*pvells0_);
   if( fvells0_ )
   {
     FailWhen(pflags_+sizeof_flag_slice_ > pflags_end_,"VellsSlicerWithFlags iterated past end of flags. This should never happen: please file a bug report");
     Vells::Ref flags;
-    flags <<= new Vells;
-    flags().reference(pflags_,flag_shape_,flag_strides_,*fvells0_);
+    flags <<= new Vells(collectSlice(pflags_,flag_shape_,flag_strides_,*fvells0_));
     vells_.setDataFlags(flags);
   }
 }
diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index 2cb0642..c0a95f4 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -224,7 +224,7 @@ void ReductionFunction::evaluateFlags (Vells::Ref &out,const Request &req,const
       return;
     // create slicer and output flags
     Vells::Ref outflag_ref;
-    ConstVellsSlicer0 slicer;
+    ConstVellsSlicerWithFlags0 slicer;
     makeVellsSlicer(outflag_ref,slicer,vs.dataFlags());
     Vells & flags = outflag_ref();
     // now iterate over the output and over the slicer,
-- 
2.43.0


From 45ff591d924c290b357740616aff5ef16ec23482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 60/74] fix: sums along axes

Sums along axes of a function constant along some of them were multiplied by other axes' sizes.
---
 MeqNodes/src/ReductionFunction.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/MeqNodes/src/ReductionFunction.cc b/MeqNodes/src/ReductionFunction.cc
index c0a95f4..9474114 100644
--- a/MeqNodes/src/ReductionFunction.cc
+++ b/MeqNodes/src/ReductionFunction.cc
@@ -131,15 +131,14 @@ Vells ReductionFunction::apply (VellsMath::UnaryRdFuncWS func,const Vells &invel
   ConstVellsSlicerWithFlags0 slicer;
   makeVellsSlicer(outref,slicer,invells);
   Vells &out = outref();
-  // adjust shape: it may be bigger than the slice shape (i.e. if taking
-  // a sum while some axes are collapsed). So, for every axis that is present
-  // in the non-sliced shape, collapse the corresponding axis in the result shape
-  LoShape res_shape = res_shape0;
-  const LoShape &ns_shape = slicer.nonSlicedShape();
-  for( uint i=0; i<ns_shape.size(); i++ )
+  // work out full shape of slice: it may be bigger than the slice shape (i.e. if
+  // taking a sum while some axes are collapsed). Axis #i of the slice corresponds
+  // to reduction axis #i.
+  LoShape res_shape(true,reduction_axes_.size());
+  for( uint i=0; i<reduction_axes_.size(); i++ )
   {
-    if( i<res_shape.size() && ns_shape[i] > 1  )
-      res_shape[i] = 1;
+    int iaxis = reduction_axes_[i];
+    res_shape[i] = iaxis<int(res_shape0.size()) ? res_shape0[iaxis] : 1;
   }
   // get pointers to output data
   char * ptr = static_cast<char*>(out.getDataPtr());
-- 
2.43.0


From f098b23c64581318f35e4c03b8b1ecac3fb7433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 61/74] fix: flags in Rms and StdDev

Rms and StdDev took flagged cells into account.
---
 MeqNodes/src/Rms.cc    | 8 ++++++--
 MeqNodes/src/StdDev.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/MeqNodes/src/Rms.cc b/MeqNodes/src/Rms.cc
index fe76bbd..b97fc19 100644
--- a/MeqNodes/src/Rms.cc
+++ b/MeqNodes/src/Rms.cc
@@ -39,14 +39,18 @@ Vells Rms::evaluate (const Request&,const LoShape &,
 		     const vector<const Vells*>& values)
 {
   // only one child ever expected -- see constructor 
+  Vells vsqr = sqr(*values[0]);
+  // the square has no data flags of its own, so attach those of the child
+  if( values[0]->hasDataFlags() )
+    vsqr.setDataFlags(values[0]->dataFlags());
   if( hasReductionAxes() )  // reduce along axes 
   {
-    Vells vmeansq = apply(VellsMath::mean,sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = apply(VellsMath::mean,vsqr,flagmask_[0]);
     return sqrt(vmeansq);
   }
   else                      // reduce to single value
   {
-    Vells vmeansq = mean(sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = mean(vsqr,flagmask_[0]);
     return sqrt(vmeansq);
   }
 }
diff --git a/MeqNodes/src/StdDev.cc b/MeqNodes/src/StdDev.cc
index cabad27..0ce2afb 100644
--- a/MeqNodes/src/StdDev.cc
+++ b/MeqNodes/src/StdDev.cc
@@ -40,16 +40,20 @@ Vells StdDev::evaluate (const Request&,const LoShape &,
 		     const vector<const Vells*>& values)
 {
   // only one child ever expected -- see constructor 
+  Vells vsqr = sqr(*values[0]);
+  // the square has no data flags of its own, so attach those of the child
+  if( values[0]->hasDataFlags() )
+    vsqr.setDataFlags(values[0]->dataFlags());
   if( hasReductionAxes() )  // reduce along axes 
   {
     Vells vmean = apply(VellsMath::mean,*values[0],flagmask_[0]);
-    Vells vmeansq = apply(VellsMath::mean,sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = apply(VellsMath::mean,vsqr,flagmask_[0]);
     return sqrt(vmeansq - sqr(vmean));
   }
   else                      // reduce to single value
   {
     Vells vmean = mean(*values[0],flagmask_[0]);
-    Vells vmeansq = mean(sqr(*values[0]),flagmask_[0]);
+    Vells vmeansq = mean(vsqr,flagmask_[0]);
     return sqrt(vmeansq - sqr(vmean));
   }
 }
-- 
2.43.0


From a8c953b5279877b04a82b126256019686317be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 62/74] fix: counts of complex functions

NElements of a complex function along axes read beyond its result.
---
 MeqNodes/src/NElements.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/MeqNodes/src/NElements.cc b/MeqNodes/src/NElements.cc
index c7d42d3..a3183af 100644
--- a/MeqNodes/src/NElements.cc
+++ b/MeqNodes/src/NElements.cc
@@ -36,7 +36,17 @@ Vells NElements::evaluate (const Request&,const LoShape &shape,
   if( values.size() == 1 )
   {
     if( hasReductionAxes() )  // reduce along axes 
+    {
+      // the count is real even if the child is complex
+      if( values[0]->isComplex() )
+      {
+        Vells vreal = real(*values[0]);
+        if( values[0]->hasDataFlags() )
+          vreal.setDataFlags(values[0]->dataFlags());
+        return apply(VellsMath::nelements,vreal,shape,flagmask_[0]);
+      }
       return apply(VellsMath::nelements,*values[0],shape,flagmask_[0]);
+    }
     else                      // reduce to single value
       return nelements(*(values[0]),shape,flagmask_[0]);
   }
-- 
2.43.0


From aaec5e7c9f5052842dab95c2f68f81283b9c9f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 63/74] fix: slices of tensors along several axes

Selector and Paster took the wrong planes, or read beyond them, for slices along more than one axis.
---
 MeqNodes/src/Paster.cc   | 5 ++++-
 MeqNodes/src/Selector.cc | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/Paster.cc b/MeqNodes/src/Paster.cc
index d4530f6..385ec8a 100644
--- a/MeqNodes/src/Paster.cc
+++ b/MeqNodes/src/Paster.cc
@@ -148,7 +148,10 @@ int Paster::getResult (Result::Ref &resref,
             if( --shp0[idim] )       // still something to go? break
               break;
             else                     // reached end of axis, reset and go to next
-              shp0[idim] = shp[idim]; 
+            {
+              shp0[idim] = shp[idim];
+              offset -= strides[idim]*shp[idim];
+            }
           }
       }
     }
diff --git a/MeqNodes/src/Selector.cc b/MeqNodes/src/Selector.cc
index 75d546d..3b64506 100644
--- a/MeqNodes/src/Selector.cc
+++ b/MeqNodes/src/Selector.cc
@@ -159,7 +159,10 @@ int Selector::getResult (Result::Ref &resref,
             if( --shp0[idim] )       // still something to go? break
               break;
             else                     // reached end of axis, reset and go to next
+            {
               shp0[idim] = shp[idim];
+              offset -= strides[idim]*shp[idim];
+            }
           }
       }
     }
-- 
2.43.0


From 0c0d5bd9cf3d5b002b40cb3e9a9a3fc113c9de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 64/74] fix: failed planes in selections

Selector took failed planes for missing ones.
---
 MeqNodes/src/Selector.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MeqNodes/src/Selector.cc b/MeqNodes/src/Selector.cc
index 3b64506..102286f 100644
--- a/MeqNodes/src/Selector.cc
+++ b/MeqNodes/src/Selector.cc
@@ -77,6 +77,7 @@ int Selector::getResult (Result::Ref &resref,
         MakeFailVellSet(result.setNewVellSet(i),
             ssprintf("invalid selection index %d for Result of %d VellSet(s)",
                           isel,nvs));
+        missing = false;
       }
       else
       {
@@ -84,7 +85,7 @@ int Selector::getResult (Result::Ref &resref,
         result.setVellSet(i,vs);
         if( !vs.isFail() )
           fail = false;
-        if( !vs.isEmpty() )
+        if( !vs.isEmpty() || vs.isFail() )
           missing = false;
       }
     }
@@ -129,7 +130,7 @@ int Selector::getResult (Result::Ref &resref,
             setVellSet(0,vs);
       if( !vs.isFail() )
         fail = false;
-      if( !vs.isEmpty() )
+      if( !vs.isEmpty() || vs.isFail() )
         missing = false;
     }
     // else extract full slice
@@ -149,7 +150,7 @@ int Selector::getResult (Result::Ref &resref,
         result.setVellSet(i,vs);
         if( !vs.isFail() )
           fail = false;
-        if( !vs.isEmpty() )
+        if( !vs.isEmpty() || vs.isFail() )
           missing = false;
         // update offset
         for( int idim = rank-1; idim>=0; idim-- )
-- 
2.43.0


From 9a30db347680d2334304df01a9d5eaf91de4789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 65/74] fix: pasting into a constant result

Paster failed to paste a variable plane into a constant result.
---
 MeqNodes/src/Paster.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MeqNodes/src/Paster.cc b/MeqNodes/src/Paster.cc
index 385ec8a..6723aa9 100644
--- a/MeqNodes/src/Paster.cc
+++ b/MeqNodes/src/Paster.cc
@@ -156,6 +156,9 @@ int Paster::getResult (Result::Ref &resref,
       }
     }
   }
+  // a variable result may have been pasted into a constant one, which has no cells
+  if( !resref->hasCells() && childres.hasCells() )
+    resref().setCells(childres.cells());
   // check that shapes are still valid (since we may have pasted in
   // a child result of a conflicting shape)
   resref().verifyShape();
-- 
2.43.0


From 668b44bda26c25c714ec00c91005806be5202a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 66/74] fix: flags in Stripper

Stripper dropped the flags of planes with perturbed values.
---
 MeqNodes/src/Stripper.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MeqNodes/src/Stripper.cc b/MeqNodes/src/Stripper.cc
index fd761d3..73028d6 100644
--- a/MeqNodes/src/Stripper.cc
+++ b/MeqNodes/src/Stripper.cc
@@ -52,7 +52,13 @@ int Stripper::getResult (Result::Ref &resref,
   {
     const VellSet &vs = resref->vellSet(i);
     if( vs.hasValue() && vs.numSpids()>0 )
-      resref().setNewVellSet(i).setValue(vs.getValue());
+    {
+      VellSet::Ref stripped(new VellSet);
+      if( vs.hasDataFlags() )
+        stripped().setDataFlags(vs.dataFlags());
+      stripped().setValue(vs.getValue());
+      resref().setVellSet(i,stripped);
+    }
   }
   // if something has changed in the result, call verify shape, since
   // that'll strip off cells too if they are no longer needed
-- 
2.43.0


From 6d0f25e75ed48bfc770a172c1b393d724f497652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 67/74] fix: counts of failed and missing planes in Composer

Composer in tensor mode told failed or missing results by the wrong number of planes.
---
 MeqNodes/src/Composer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MeqNodes/src/Composer.cc b/MeqNodes/src/Composer.cc
index 02d83b5..9ad0d17 100644
--- a/MeqNodes/src/Composer.cc
+++ b/MeqNodes/src/Composer.cc
@@ -144,6 +144,8 @@ int Composer::getResult (Result::Ref &resref,
           vsref <<= &( chres.vellSet(0) );
           if( vsref->isFail() )
             nfails += nres0;
+          else if( vsref->isEmpty() )
+            nmissing += nres0;
         }
         else
         {
@@ -172,11 +174,11 @@ int Composer::getResult (Result::Ref &resref,
     if( !pcells && chres.hasCells() )
       pcells = &( chres.cells() );
   }
-  if( nres )
+  if( ires )
   {
-    if( nfails == nres )
+    if( nfails == ires )
       return RES_FAIL;
-    if( nmissing == nres )
+    if( nmissing == ires )
       return RES_MISSING;
     // apply cells as needed
     if( pcells )
-- 
2.43.0


From 612f5602f36f3eeb3598dbeee367640beec37823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:31 +0000
Subject: [PATCH 68/74] fix: products of three and more matrices

A matrix product of three and more factors failed to copy an intermediate product.
---
 MeqNodes/src/MatrixMultiply.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index 9138066..5f18ac6 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -405,6 +405,9 @@ int MatrixMultiply::getResult (Result::Ref &resref,
         } // for j
       } // for i
     } // else (end of proper multiplication case)
+    // a variable result needs cells, as the next argument may make a copy of it
+    if( request.hasCells() && resref1->needsCells(request.cells()) )
+      resref1().setCells(request.cells());
     // store result in resref and possibly go back for another loop
     resref = resref1;
     // drop out with a fail if the multiplication was a total fail
-- 
2.43.0


From 7b4613d06129d93a94498ddaf703d37bd94bcfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:48 +0000
Subject: [PATCH 69/74] fix: flags masked out of a tensor times unity

A tensor multiplied by a scalar that is one everywhere kept its flags if its
flag mask was 0.
---
 MeqNodes/src/MatrixMultiply.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MeqNodes/src/MatrixMultiply.cc b/MeqNodes/src/MatrixMultiply.cc
index 5f18ac6..92ad1e0 100644
--- a/MeqNodes/src/MatrixMultiply.cc
+++ b/MeqNodes/src/MatrixMultiply.cc
@@ -102,8 +102,13 @@ void MatrixMultiply::scalarMultiply (Result::Ref &res,
             Vells::mergeFlags(flags,vs0.dataFlags(),fmt);
           if( sca_vs.hasDataFlags() ) // not a null in this case
             Vells::mergeFlags(flags,sca_vs.dataFlags(),fms);
-          if( flags.valid() && !vs0.sameDataFlags(flags) )
-            res().vellSetWr(i).setDataFlags(flags);
+          if( flags.valid() )
+          {
+            if( !vs0.sameDataFlags(flags) )
+              res().vellSetWr(i).setDataFlags(flags);
+          }
+          else if( vs0.hasDataFlags() ) // all flags masked out
+            res().vellSetWr(i).clearDataFlags();
         }
       }
       return;
-- 
2.43.0


From 6c67e78b013b81ef710f0a7926cdf732da5a5149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:32 +0000
Subject: [PATCH 70/74] fix: writing through a hook that was queried before
 bypassed copy-on-write and protection

---
 DMI/src/Container.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DMI/src/Container.cc b/DMI/src/Container.cc
index 4454db3..1ed3cd2 100644
--- a/DMI/src/Container.cc
+++ b/DMI/src/Container.cc
@@ -140,12 +140,17 @@ const void * DMI::Container::Hook::resolveTarget (int flags,TypeId hint) const
     target.ptr = 0;
     resolveToWritableContainer(); // throws ReadOnly if not possible
   }
-  // query container if no target
-  if( !target.ptr )
+  // query container if no target. When writing, query it again even if an earlier
+  // call for reading has cached a target: only get() with the WRITE flag does the 
+  // container's own checks (protected fields) and privatizes its shared contents
+  if( !target.ptr || writing )
   {
     target.tid = hint;
     if( !nc->get(*pid,target,nc_writable,flags) )
+    {
+      target.ptr = 0;
       return 0;
+    }
     target_nestable = isNestable(target.obj_tid);
   }
   // do we need to resolve refs? 
-- 
2.43.0


From d9d88de8f250506c8a6fdd708baceb53dd99c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:25 +0000
Subject: [PATCH 71/74] fix: two empty grids compared as different, an empty
 and another one as equal

---
 MEQ/src/Cells.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 779809b..c6afecd 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -539,7 +539,7 @@ void Cells::superset (Cells::Ref &ref,const Cells &a,const Cells &b)
 int Cells::compare (const Cells &that) const
 {
   if( !domain_.valid() ) // are we empty?
-    return !that.domain_.valid(); // equal if that is empty too, else not
+    return that.domain_.valid() ? -1 : 0; // equal if that is empty too, else not
   // check for equality of domains & shapes
   if( !that.domain_.valid() ||
       domain() != that.domain() )
@@ -561,7 +561,8 @@ bool Cells::operator== (const Cells& that) const
     return false;
   // check axes one by one
   for( int i=0; i<Axis::MaxAxis; i++ )
-    if( any( center(i) != that.center(i) ) ||
+    if( ncells(i) != that.ncells(i) ||
+        any( center(i) != that.center(i) ) ||
         any( cellSize(i) != that.cellSize(i) ) )
       return false;
   // everything compared successfully
-- 
2.43.0


From b4b0434af6382173bc98fb55ce28eeeaa9aacd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:25 +0000
Subject: [PATCH 72/74] fix: segments of a grid read from a record had the
 length of its cells

---
 MEQ/src/Cells.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index c6afecd..0fc5355 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -432,9 +432,12 @@ void Cells::validateContent (bool)
         cell_size_[iaxis].reference(LoVec_double(const_cast<double*>(rcs[id].as_p<double>(np)),shape,blitz::neverDeleteData));
         Assert(np==shape[0]);
         int np1,np2;
-        seg_start_[iaxis].reference(LoVec_int(const_cast<int*>(rseg[id][FStartIndex].as_p<int>(np1)),shape,blitz::neverDeleteData));
-        seg_end_[iaxis].reference(LoVec_int(const_cast<int*>(rseg[id][FEndIndex].as_p<int>(np2)),shape,blitz::neverDeleteData));
+        const int * pseg0 = rseg[id][FStartIndex].as_p<int>(np1);
+        const int * pseg1 = rseg[id][FEndIndex].as_p<int>(np2);
         Assert(np1==np2);
+        LoShape1 segshape(np1);
+        seg_start_[iaxis].reference(LoVec_int(const_cast<int*>(pseg0),segshape,blitz::neverDeleteData));
+        seg_end_[iaxis].reference(LoVec_int(const_cast<int*>(pseg1),segshape,blitz::neverDeleteData));
       }
       protectField(FDomain);
       protectField(FGrid);
-- 
2.43.0


From 97d8c54c81321a73b2d4e2a8f2a07494e58bb888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:25 +0000
Subject: [PATCH 73/74] fix: resampling a grid raised its rank to the largest
 possible

---
 MEQ/src/Cells.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 0fc5355..18d986e 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -112,7 +112,7 @@ Cells::Cells (const Cells &a,const Cells &b,int resample)
   // ***BUG*** here, we simply assume everything (cell positions, sizes)
   // match up, and treat one cells as an integration or upsampling of
   // the other
-  for( int iaxis=0; iaxis<Axis::MaxAxis; iaxis++ )
+  for( int iaxis=0; iaxis<int(shape_.size()); iaxis++ )
   {
     const Cells &c = (a.ncells(iaxis) > b.ncells(iaxis)) ^ (resample>0) ? b : a;
     int np = c.ncells(iaxis);
@@ -135,7 +135,7 @@ Cells::Cells (const Cells &other,const int ops[Axis::MaxAxis],const int args[Axi
   init(&other.domain(),0);
   shape_.resize(other.shape_.size());
   defined_ = other.defined_;
-  for( int iaxis=0; iaxis<Axis::MaxAxis; iaxis++ )
+  for( int iaxis=0; iaxis<int(shape_.size()); iaxis++ )
   {
     int op=ops[iaxis],arg=args[iaxis];
     int np = other.ncells(iaxis);
-- 
2.43.0


From 4dd839b83d726bef060d9f48a1a6f6e82e6eed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:19 +0000
Subject: [PATCH 74/74] fix: equal grids of different rank compared as
 different

---
 MEQ/src/Cells.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MEQ/src/Cells.cc b/MEQ/src/Cells.cc
index 18d986e..8238f14 100644
--- a/MEQ/src/Cells.cc
+++ b/MEQ/src/Cells.cc
@@ -547,8 +547,11 @@ int Cells::compare (const Cells &that) const
   if( !that.domain_.valid() ||
       domain() != that.domain() )
     return -1;
-  if( shape() != that.shape() )
-    return 1;
+  // compare numbers of cells rather than shapes, since these may also differ by trailing 
+  // axes without cells
+  for( int i=0; i<Axis::MaxAxis; i++ )
+    if( ncells(i) != that.ncells(i) )
+      return 1;
   // ***BUG***
   // assume if shapes match, then we have the same grid
   // in the future we must be more intelligent, and compare grids and such
-- 
2.43.0

