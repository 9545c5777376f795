// @property C09
// @sources MEQ/src/NodeNursery.cc MEQ/src/MTPool.cc MEQ/src/Node.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc TimBase/src/Exception.cc
// @libs meq
// @option * nosummary=1
// @stub * _ZN3Meq6ResultC1Ei stub_newresult
// @stub * _ZN3Meq6ResultD2Ev stub_result_dtor
// @stub * _ZNK3Meq6Result11numVellSetsEv stub_numvs
// @stub * _ZNK3Meq6Result8numFailsEv stub_numfails
// @stub * _ZN3Meq6MTPool7Brigade14placeWorkOrderEPNS0_17AbstractWorkOrderE stub_place
// @stub * _ZN3Meq6MTPool7Brigade12getWorkOrderEbi stub_get
// @stub * _ZN3Meq6MTPool7Brigade19finishWithWorkOrderEPNS0_17AbstractWorkOrderE stub_finish
// @stub * _ZN3Meq6MTPool7Brigade12awakenWorkerEv stub_awaken
// @stub * _ZN3Meq6MTPool7Brigade10clearQueueERKNS_11NodeNurseryE stub_clear
// @stub * _ZN3Meq6MTPool7Brigade19markThreadAsBlockedERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE stub_blocked
// @stub * _ZN3Meq6MTPool7Brigade21markThreadAsUnblockedERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEb stub_unblocked
// @stub * _ZNK5LOFAR6Thread9Condition4waitEv stub_wait
// @stub * _ZNK5LOFAR6Thread9Condition9broadcastEv stub_broadcast
// @stub poll_children _ZN3Meq4Node12setExecStateEiib stub_setexec
// @stub poll_children _ZN3Meq11NodeNursery8syncPollERN3DMI10CountedRefINS_6ResultEEERSt6vectorIS4_SaIS4_EERKNS_7RequestEi stub_syncpoll
// @stub poll_children _ZN3Meq11NodeNursery14backgroundPollERKNS_7RequestEi stub_bgpoll
// @assume (mt_*) at most three children; work orders are taken from the queue one at a time, and results are delivered one at a time, in any order, where the polling thread holds no lock on them (data races inside a critical section are not modelled); a worker finishes each order it takes
// @verifies mt_sync_receive Meq::NodeNursery::mt_receiveSyncChildResult
// @verifies mt_background_receive Meq::NodeNursery::mt_receiveBackgroundResult
// @verifies mt_async_receive Meq::NodeNursery::mt_receiveAsyncChildResult
// @verifies mt_sync_poll Meq::NodeNursery::syncPoll; Meq::NodeNursery::mt_checkBrigadeAvailability; Meq::MTPool::WorkOrder::execute
// @verifies mt_async_poll Meq::NodeNursery::startAsyncPoll; Meq::NodeNursery::awaitChildResult
// @verifies mt_background_poll Meq::NodeNursery::backgroundPoll; Meq::NodeNursery::finishPoll; Meq::NodeNursery::mt_waitForEndOfPoll
// @verifies poll_children Meq::Node::pollChildren
#include "../contracts/node.h"
#include <MEQ/NodeNursery.h>
#include <MEQ/MTPool.h>
using namespace Meq::MTPool;
static const int NC = 3;
static int n_kids, code[NC], calls[NC], nfails[NC]; static Result *given[NC];
static int woken, cleared, idle;
// the queue of the brigade, as seen by its contract
static WorkOrder *queue[NC]; static int nq; enum { QUEUED, TAKEN, DONE, GONE }; static int qstate[NC];
static Brigade *brig; static bool schedule; static int nwaits;
struct MKid : public NodeFace
{
  int i;
  virtual TypeId objectType () const { return TpMeqNode; }
  virtual CountedRefTarget * clone (int,int) const { return 0; }
  virtual int fromBlock (BlockSet &) { return 0; }
  virtual int toBlock (BlockSet &) const { return 0; }
  virtual void init () {}
  virtual void reinit () {}
  virtual void setState (DMI::Record::Ref &) {}
  virtual void getState (DMI::Record::Ref &) const {}
  virtual int execute (Result::Ref &ref,const Request &,int) throw()
  {
    calls[i]++;
    if( !(code[i]&(RES_ABORT|RES_WAIT)) ) ref.attach(given[i]);
    return code[i];
  }
  virtual int processCommand (Result::Ref &,const HIID &,DMI::Record::Ref &,const RequestId &,int) { return 0; }
  virtual void clearCache (bool,long) throw() {}
  virtual void holdCache (bool) throw() {}
  virtual void propagateStateDependency () {}
  virtual void publishParentalStatus () {}
  virtual void setBreakpoint (int,bool) {}
  virtual void clearBreakpoint (int,bool) {}
  virtual void setPublishingLevel (int) {}
};
extern void *vt_mkid[] asm("_ZTV4MKid");
extern "C" __attribute__((used)) void emit_vt_mkid () { new MKid; }
static const Result *last_new; static int last_new_size;
extern "C" void stub_newresult (Result *r,int n) { stub_result_ctor(r,n); last_new = r; last_new_size = n; }
static int which (const Result *r) { for( int i=0; i<NC; i++ ) if( given[i] == r ) return i; return -1; }
extern "C" int stub_numvs (const Result *) { return 0; }
extern "C" int stub_numfails (const Result *r) { return nfails[which(r)]; }
extern "C" void stub_place (Brigade *,AbstractWorkOrder *wo) { queue[nq] = static_cast<WorkOrder*>(wo); qstate[nq] = QUEUED; nq++; }
// other workers take any work orders, and deliver the results of any that they took
static void others ()
{
  if( !schedule ) return;
  for( int k=nq-1; k>=0; k-- )
    if( qstate[k] == QUEUED ) { if( !vc_split("taken",0,1) ) break; qstate[k] = TAKEN; }
}
static void deliver ()
{
  if( !schedule ) return;
  for( int k=nq-1; k>=0; k-- )
    if( qstate[k] == TAKEN && vc_split("delivers",0,1) ) { qstate[k] = DONE; queue[k]->execute(*brig); }
}
extern "C" AbstractWorkOrder * stub_get (Brigade *,bool,int)
{
  bool free_ = vc_locks_held() <= 1;      // only the lock on the queue is held
  if( free_ ) deliver();
  others();
  for( int k=nq-1; k>=0; k-- ) if( qstate[k] == QUEUED ) { qstate[k] = DONE; return queue[k]; }
  if( free_ ) deliver();
  return 0;
}
extern "C" void stub_finish (Brigade *,AbstractWorkOrder *) {}
extern "C" void stub_awaken (Brigade *) {}
extern "C" void stub_clear (Brigade *,const NodeNursery &) { cleared++; for( int k=0; k<nq; k++ ) if( qstate[k] == QUEUED ) qstate[k] = GONE; }
extern "C" void stub_blocked (const std::string &) {}
extern "C" void stub_unblocked (const std::string &,bool) {}
extern "C" int stub_broadcast (const LOFAR::Thread::Condition *) { woken++; return 0; }
extern "C" int stub_wait (const LOFAR::Thread::Condition *)
{
  int w0 = woken;
  // a thread that waits is woken when the other workers have delivered what they took, or before
  for( int k=nq-1; k>=0 && woken == w0; k-- )
    if( qstate[k] == TAKEN ) { qstate[k] = DONE; queue[k]->execute(*brig); }
  vc_stub_requires(woken > w0,"a waiting thread is woken: no wake-up is lost");
  nwaits++;
  return 0;
}
static void cb_idle (void *) { idle++; }
static void cb_busy (void *) { idle--; }
static AtomicID policy (const char *name)
{
  int p = vc_u8(name);
  return AtomicID(p&1 ? AidCollectPropagate.id() : p&2 ? AidAbandonPropagate.id() : AidIgnore.id());
}
static NodeNursery & nursery (int kids,bool any)
{
#ifdef VC_NATIVE
  vc_assume(false);       // (the schedule of threads cannot be replayed)
#endif
  NodeNursery &n = *new NodeNursery;
  n_kids = kids; n.init(n_kids,"n");
  brig = raw<Brigade>(0); main_brigade_ = brig; max_busy_ = 4;
  n.enableMultiThreaded(true);
  int mask = any ? vc_split("enabled",0,(1<<n_kids)-1) : -1;
  bool rev = any ? vc_split("order",0,1) : false;
  for( int i=0; i<n_kids; i++ )
  {
    MKid *k = raw<MKid>(vt_mkid); new (&k->name_) std::string; k->i = i;
    n.setChild(i,*k); n.enableChild(i,(mask>>i)&1);
    calls[i] = 0;
    code[i] = vc_i32("code");
    vc_assume(!(code[i]&Node::RES_FAIL) || !(code[i]&(Node::RES_WAIT|Node::RES_ABORT)));
    n.child_retcodes_[i] = vc_i32("oldcode");
    given[i] = mkresult(); nfails[i] = 1;
    n.child_poll_order_[i] = rev ? n_kids-1-i : i;
  }
  n.fail_policy_ = policy("fail_policy"); n.missing_data_policy_ = policy("missing_policy");
  n.setIdleCallbacks(cb_idle,cb_busy,0); idle = 0;
  n.mt.abandon_ = vc_bool("abandon"); n.mt.polling_ = vc_bool("polling");
  n.mt.child_retcount_ = vc_i32("retcount"); n.mt.numchildren_ = vc_i32("numchildren");
  woken = cleared = nq = nwaits = 0; schedule = false;
  return n;
}
static bool abandons (NodeNursery &n,int c)
{
  if( c&Node::RES_FAIL ) return n.fail_policy_ == AidAbandonPropagate;
  return c&Node::RES_ABORT || ( c&Node::RES_MISSING && n.missing_data_policy_ == AidAbandonPropagate );
}
static WorkOrder & delivery (NodeNursery &n,int i)
{
  WorkOrder &wo = *new WorkOrder(n,&NodeNursery::mt_receiveSyncChildResult,n.getChild(i),i,*mkrequest(),1);
  wo.retcode = code[i];
  if( !(code[i]&(Node::RES_ABORT|Node::RES_WAIT)) ) wo.resref.attach(given[i]);
  return wo;
}
// delivery of a result, in any state of the poll
VC_PROOF(mt_sync_receive)
{
  NodeNursery &n = nursery(2,false);
  int i = vc_split("child",0,1);
  n.mt.cur_brigade_ = brig;
  std::vector<Result::Ref> &res = *new std::vector<Result::Ref>(2); n.mt.pchildres_ = &res;
  int cumul = n.child_cumul_retcode_ = vc_i32("cumul"); n.num_child_fails_ = vc_i32("numfails");
  int count = n.mt.child_retcount_, nf = n.num_child_fails_, oldcode = n.child_retcodes_[i];
  vc_assume(count >= 0 && count < n.mt.numchildren_ && nf >= 0 && nf < 1000);
  bool live = n.mt.polling_ && !n.mt.abandon_, was = n.mt.abandon_;
  WorkOrder &wo = delivery(n,i);
  n.mt_receiveSyncChildResult(i,wo);
  if( !live )
    vc_check(n.mt.child_retcount_ == count && n.child_cumul_retcode_ == cumul && !res[i].valid() && n.child_retcodes_[i] == oldcode && n.mt.abandon_ == was,"a result delivered after the end of the poll changes nothing");
  else
  {
    vc_check(n.mt.child_retcount_ == count+1 && n.child_retcodes_[i] == code[i] && n.child_cumul_retcode_ == (cumul|code[i]),"the code of the child is kept and added to those of all children");
    if( code[i]&(Node::RES_ABORT|Node::RES_WAIT) ) vc_check(!res[i].valid(),"no result");
    else vc_check(res[i].valid() && &*res[i] == given[i],"the result of the child is handed over");
    vc_check(n.mt.abandon_ == abandons(n,code[i]),"the poll is abandoned as the policies say");
    if( code[i]&Node::RES_FAIL ) vc_check(n.child_fails_.size() == 1 && n.child_fails_[0] == given[i] && n.num_child_fails_ == nf+1,"the fail is registered");
    else vc_check(n.child_fails_.empty() && n.num_child_fails_ == nf,"no fail is registered");
    if( n.mt.abandon_ || n.mt.child_retcount_ >= n.mt.numchildren_ ) vc_check(woken > 0,"the polling thread is woken at the end of the poll");
    if( n.mt.abandon_ ) vc_check(cleared > 0,"an abandoned poll withdraws its work orders");
  }
  vc_check(vc_locks_held() == 0,"locks are released");
  vc_cover("end");
}
VC_PROOF(mt_background_receive)
{
  NodeNursery &n = nursery(2,false);
  int i = vc_split("child",0,1);
  n.mt.cur_brigade_ = brig;
  int count = n.mt.child_retcount_, oldcode = n.child_retcodes_[i];
  vc_assume(count >= 0 && count < n.mt.numchildren_);
  WorkOrder &wo = delivery(n,i);
  n.mt_receiveBackgroundResult(i,wo);
  if( n.mt.polling_ )
  {
    vc_check(n.mt.child_retcount_ == count+1 && n.child_retcodes_[i] == code[i],"the code of the child is kept");
    if( count+1 == n.mt.numchildren_ ) vc_check(woken > 0,"the polling thread is woken at the end of the poll");
  }
  else vc_check(n.mt.child_retcount_ == count && n.child_retcodes_[i] == oldcode,"a result delivered after the end of the poll changes nothing");
  vc_check(vc_locks_held() == 0,"locks are released");
  vc_cover("end");
}
VC_PROOF(mt_async_receive)
{
  NodeNursery &n = nursery(2,false);
  int i = vc_split("child",0,1);
  n.mt.cur_brigade_ = brig;
  int count = n.mt.child_retcount_, oldcode = n.child_retcodes_[i];
  vc_assume(count >= 0 && count < n.mt.numchildren_);
  WorkOrder &wo = delivery(n,i);
  n.mt_receiveAsyncChildResult(i,wo);
  if( n.mt.polling_ )
  {
    vc_check(n.mt.child_retcount_ == count+1 && n.child_retcodes_[i] == code[i],"the code of the child is kept");
    vc_check(n.mt.child_retqueue_.size() == 1 && n.mt.child_retqueue_[0].ichild == i && n.mt.child_retqueue_[0].retcode == code[i],"the result is queued");
    if( !(code[i]&(Node::RES_ABORT|Node::RES_WAIT)) ) vc_check(n.mt.child_retqueue_[0].resref.valid() && &*n.mt.child_retqueue_[0].resref == given[i],"the result is handed over");
    vc_check(woken > 0,"the polling thread is woken");
  }
  else vc_check(n.mt.child_retcount_ == count && n.child_retcodes_[i] == oldcode && n.mt.child_retqueue_.empty(),"a result delivered after the end of the poll changes nothing");
  vc_check(vc_locks_held() == 0,"locks are released");
  vc_cover("end");
}
// whole polls, with other workers taking any of the work
VC_PROOF(mt_sync_poll)
{
  NodeNursery &n = nursery(2,true);
  schedule = true;
  Result::Ref &ref = *new Result::Ref; std::vector<Result::Ref> &childres = *new std::vector<Result::Ref>;
  int ret = n.syncPoll(ref,childres,*mkrequest(),1);
  int expect = 0; bool stop = false; int nf = 0;
  for( int i=0; i<n_kids; i++ )
  {
    if( !n.child_enabled_[i] ) { vc_check(!calls[i] && !n.childRetcode(i),"a disabled child is not polled and counts with an empty code"); continue; }
    vc_check(calls[i] <= 1,"no child is polled twice");
    if( calls[i] && abandons(n,code[i]) ) stop = true;
  }
  for( int i=0; i<n_kids; i++ ) if( n.child_enabled_[i] )
  {
    if( !stop ) vc_check(calls[i] == 1,"every child is polled, unless the poll is abandoned");
    if( !stop || abandons(n,code[i]) && calls[i] ) expect |= code[i];
    if( !stop ) 
    {
      vc_check(n.childRetcode(i) == code[i],"the code of each child is kept");
      if( !(code[i]&(Node::RES_ABORT|Node::RES_WAIT)) ) vc_check(childres[i].valid() && &*childres[i] == given[i],"each child's result is passed on as it was given");
      if( code[i]&Node::RES_FAIL ) nf++;
    }
  }
  int mask = ~0;
  if( n.fail_policy_ == AidIgnore ) mask &= ~Node::RES_FAIL;
  if( n.missing_data_policy_ == AidIgnore ) mask &= ~Node::RES_MISSING;
  if( !stop )
  {
    vc_check(ret == (expect&mask),"the code of the poll is the union of the codes of all children, as the policies say");
    vc_check(ref.valid() == (nf > 0 && n.fail_policy_ != AidIgnore),"failed children, and only these, give a fail result");
    if( ref.valid() ) vc_check(&*ref == last_new && last_new_size == nf,"a fail result has room for all fails");
  }
  else vc_check(ret&mask&(Node::RES_FAIL|Node::RES_MISSING|Node::RES_ABORT),"an abandoned poll says why");
  vc_check(idle == 0,"idle and busy states are paired");
  vc_check(vc_locks_held() == 0,"locks are released");
  vc_cover("end");
}
VC_PROOF(mt_async_poll)
{
  NodeNursery &n = nursery(2,true);
  schedule = true;
  int enabled = 0;
  for( int i=0; i<n_kids; i++ ) enabled += n.child_enabled_[i];
  Request &req = *mkrequest();
  int num = n.startAsyncPoll(req,1);
  vc_check(num == enabled && n.asyncPollInProgress() == (enabled > 0),"the number of children to be polled");
  bool got[NC] = { false,false,false };
  for( int k=0; k<NC; k++ )
  {
    int rc = 0; Result::Ref &ref = *new Result::Ref;
    int i = n.awaitChildResult(rc,ref,req);
    vc_check((i >= 0) == (k < enabled),"the results of all enabled children are given, then the end of the poll");
    if( i < 0 ) break;
    vc_check(i < n_kids && n.child_enabled_[i] && calls[i] == 1 && !got[i],"each enabled child is polled and given exactly once"); got[i] = true;
    vc_check(rc == code[i] && n.childRetcode(i) == code[i],"the code of the child is given and kept");
    if( !(rc&(Node::RES_ABORT|Node::RES_WAIT)) ) vc_check(ref.valid() && &*ref == given[i],"the result of the child is given");
  }
  vc_check(!n.isPollInProgress(),"the poll ends");
  for( int i=0; i<n_kids; i++ ) if( !n.child_enabled_[i] )
    vc_check(!calls[i] && !n.childRetcode(i),"a disabled child is not polled and counts with an empty code");
  vc_check(idle == 0,"idle and busy states are paired");
  vc_check(vc_locks_held() == 0,"locks are released");
  vc_cover("end");
}
VC_PROOF(mt_background_poll)
{
  NodeNursery &n = nursery(2,true);
  schedule = true;
  n.backgroundPoll(*mkrequest(),1);
  n.finishPoll();
  vc_check(!n.isPollInProgress(),"the poll ends");
  for( int i=0; i<n_kids; i++ )
    if( n.child_enabled_[i] ) vc_check(calls[i] == 1 && n.childRetcode(i) == code[i],"each enabled stepchild is polled once and its code is kept");
    else vc_check(!calls[i] && !n.childRetcode(i),"a disabled child is not polled and counts with an empty code");
  vc_check(idle == 0,"idle and busy states are paired");
  vc_check(vc_locks_held() == 0,"locks are released");
  vc_cover("end");
}
// polling of children and stepchildren by the node
static int poll_code, n_sync, n_bg, bg_after; static const NodeNursery *poller, *bg_poller;
struct PollNode : public Node { virtual int getResult (Result::Ref &,const std::vector<Result::Ref> &,const Request &,bool) { return 0; } };
extern void *vt_pollnode[] asm("_ZTV8PollNode");
extern "C" __attribute__((used)) void emit_vt_pollnode () { new PollNode; }
extern "C" void stub_setexec (Node *,int,int,bool) {}
extern "C" int stub_syncpoll (NodeNursery *n,Result::Ref &,std::vector<Result::Ref> &,const Request &,int) { n_sync++; poller = n; return poll_code; }
extern "C" void stub_bgpoll (NodeNursery *n,const Request &,int) { n_bg++; bg_poller = n; bg_after = n_sync; }
VC_PROOF(poll_children)
{
#ifdef VC_NATIVE
  vc_assume(false);
#endif
  Node &node = *raw<PollNode>(vt_pollnode);
  new (&node.children_) NodeNursery; new (&node.stepchildren_) NodeNursery;
  node.children_.fail_policy_ = policy("fail_policy"); node.children_.missing_data_policy_ = policy("missing_policy");
  poll_code = vc_i32("code"); n_sync = n_bg = 0;
  Result::Ref &ref = *new Result::Ref; std::vector<Result::Ref> &childres = *new std::vector<Result::Ref>;
  int ret = node.pollChildren(ref,childres,*mkrequest());
  vc_check(ret == poll_code,"the code of the poll is returned");
  vc_check(n_sync == 1 && poller == &node.children_,"the children are polled once");
  bool stop = poll_code&Node::RES_ABORT || (poll_code&Node::RES_FAIL && node.children_.fail_policy_ == AidAbandonPropagate)
              || (poll_code&Node::RES_MISSING && node.children_.missing_data_policy_ == AidAbandonPropagate);
  vc_check(n_bg == (stop ? 0 : 1),"the stepchildren are polled, unless the poll of the children was abandoned");
  if( n_bg ) vc_check(bg_poller == &node.stepchildren_ && bg_after == 1,"the stepchildren are polled after the children");
  vc_cover("end");
}
