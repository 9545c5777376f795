// @property C09
// @sources MEQ/src/NodeNursery.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc TimBase/src/Exception.cc
// @libs meq
// @option * nosummary=1
// @stub * _ZN3Meq6ResultC1Ei stub_newresult
// @stub * _ZN3Meq6ResultD2Ev stub_result_dtor
// @stub * _ZNK3Meq6Result11numVellSetsEv stub_numvs
// @stub * _ZNK3Meq6Result8numFailsEv stub_numfails
// @stub * _ZNK3Meq6Result7vellSetEi stub_vellset
// @stub * _ZN3Meq6Result10setVellSetEiPKNS_7VellSetEi stub_setvs
// @stub * _ZNK3Meq7VellSet6isFailEv stub_isfail
// @stub * _ZSteqIcEN9__gnu_cxx11__enable_ifIXsr9__is_charIT_EE7__valueEbE6__typeERKNSt7__cxx1112basic_stringIS2_St11char_traitsIS2_ESaIS2_EEESC_ stub_nameeq
// @stub * _ZSteqIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EESA_ stub_nameeq
// @assume at most three children, results of at most two vellsets; polling from one thread (the hand-over between threads is in the proofs mt_*)
// @verifies sync_poll Meq::NodeNursery::syncPoll
// @verifies sync_poll_three Meq::NodeNursery::syncPoll
// @verifies sync_poll_fails Meq::NodeNursery::syncPoll
// @verifies sync_poll_abort Meq::NodeNursery::syncPoll
// @verifies async_poll Meq::NodeNursery::startAsyncPoll; Meq::NodeNursery::awaitChildResult
// @verifies background_poll Meq::NodeNursery::backgroundPoll
// @verifies poll_order Meq::NodeNursery::setChildPollOrder
#include "../contracts/node.h"
#include <MEQ/NodeNursery.h>
static const int NC = 3, NV = 2;
// ghost state: what each child gives and how often and when it was asked
static int n_kids, code[NC], nvs[NC], fails[NC][NV], calls[NC], order[NC], clock_, idle;
static Result *given[NC]; static VellSet *vsets[NC][NV];
static bool abort_flag; static int abort_at;
static const Result *last_new; static int last_new_size, n_set; static const VellSet *set_vs[NC*NV];
struct Kid : public NodeFace
{
  int i;
  virtual TypeId objectType () const { return TpMeqNode; }
  virtual CountedRefTarget * clone (int,int) const { return 0; }
  virtual int fromBlock (BlockSet &) { return 0; }
  virtual int toBlock (BlockSet &) const { return 0; }
  virtual void init () {}
  virtual void reinit () {}
  virtual void setState (DMI::Record::Ref &) {}
  virtual void getState (DMI::Record::Ref &) const {}
  virtual int execute (Result::Ref &ref,const Request &,int) throw()
  {
    calls[i]++; order[i] = clock_++;
    if( !(code[i]&(RES_ABORT|RES_WAIT)) ) ref.attach(given[i]);
    if( abort_at == i ) abort_flag = true;
    return code[i];
  }
  virtual int processCommand (Result::Ref &,const HIID &,DMI::Record::Ref &,const RequestId &,int) { return 0; }
  virtual void clearCache (bool,long) throw() {}
  virtual void holdCache (bool) throw() {}
  virtual void propagateStateDependency () {}
  virtual void publishParentalStatus () {}
  virtual void setBreakpoint (int,bool) {}
  virtual void clearBreakpoint (int,bool) {}
  virtual void setPublishingLevel (int) {}
};
extern void *vt_kid[] asm("_ZTV3Kid");
extern "C" __attribute__((used)) void emit_vt_kid () { new Kid; }
extern "C" void stub_newresult (Result *r,int n) { stub_result_ctor(r,n); last_new = r; last_new_size = n; n_set = 0; }
static int which (const Result *r) { for( int i=0; i<NC; i++ ) if( given[i] == r ) return i; return -1; }
extern "C" int stub_numvs (const Result *r) { int i = which(r); return i < 0 ? 0 : nvs[i]; }
extern "C" int stub_numfails (const Result *r) { int i = which(r), n = 0; if( i >= 0 ) for( int j=0; j<nvs[i]; j++ ) n += fails[i][j]; return n; }
extern "C" const VellSet & stub_vellset (const Result *r,int k) { return *vsets[which(r)][k]; }
extern "C" bool stub_isfail (const VellSet *v) { for( int i=0; i<NC; i++ ) for( int j=0; j<NV; j++ ) if( vsets[i][j] == v ) return fails[i][j]; return false; }
extern "C" const VellSet & stub_setvs (Result *r,int k,const VellSet *v,int)
{
  vc_stub_requires(r == last_new && k == n_set && k < last_new_size,"the fails are put into the fail result one by one");
  set_vs[n_set++] = v;
  return *v;
}
static void cb_idle (void *) { idle++; }
static void cb_busy (void *) { idle--; }
static std::string *kid_name[NC];
static AtomicID policy (const char *name)
{
  int p = vc_u8(name);
  return AtomicID(p&1 ? AidCollectPropagate.id() : p&2 ? AidAbandonPropagate.id() : AidIgnore.id());
}
static const int perms[4][6][NC] = { {{}},{{0}},{{0,1},{1,0}},{{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}} };
static const int nperms[4] = { 1,1,2,6 };
// a nursery with the given number of children, any of them enabled, polled in any order
static NodeNursery & nursery (int kids,bool vs,bool any_order)
{
  NodeNursery &n = *new NodeNursery;
  n_kids = kids;
  n.init(n_kids,"n");
  int mask = any_order ? vc_split("enabled",0,(1<<n_kids)-1) : -1;
  const int *p = perms[n_kids][any_order ? vc_split("order",0,nperms[n_kids]-1) : 0];
  for( int i=0; i<n_kids; i++ )
  {
#ifdef VC_NATIVE
    Kid *k = new Kid;
#else
    Kid *k = raw<Kid>(vt_kid); new (&k->name_) std::string;
#endif
    k->i = i; kid_name[i] = &k->name_;
    n.setChild(i,*k);
    n.enableChild(i,(mask>>i)&1);
    calls[i] = 0; order[i] = -1;
    code[i] = vc_i32("code");
    // (contract of execute() in NodeFace.h) a fail is never combined with WAIT or ABORT
if( code[i]&Node::RES_FAIL ) code[i] &= ~(Node::RES_WAIT|Node::RES_ABORT);
    n.child_retcodes_[i] = vc_i32("oldcode");
    nvs[i] = vs ? vc_split("vellsets",0,NV) : 1;
#ifdef VC_NATIVE
    given[i] = nvs[i] ? new Result(nvs[i]) : new Result;
#else
    given[i] = mkresult();
#endif
    for( int j=0; j<nvs[i]; j++ )
    {
      fails[i][j] = vs ? vc_bool("fail") : true;
#ifdef VC_NATIVE
      VellSet &v = given[i]->setNewVellSet(j);
      if( fails[i][j] ) v.addFail(LOFAR::Exception("a fail"));
      vsets[i][j] = &v;
#else
      vsets[i][j] = raw<VellSet>(0);
#endif
    }
    n.child_poll_order_[i] = p[i];
  }
  n.fail_policy_ = policy("fail_policy"); n.missing_data_policy_ = policy("missing_policy");
  n.setIdleCallbacks(cb_idle,cb_busy,0); idle = 0;
  n.attachAbortFlag(&abort_flag);
  abort_flag = false; abort_at = -1; clock_ = 0;
  return n;
}
static void sync_poll (int kids,bool vs,bool any_order,bool aborts)
{
  NodeNursery &n = nursery(kids,vs,any_order);
  if( vs ) for( int i=0; i<kids; i++ ) code[i] = (code[i]&~(Node::RES_WAIT|Node::RES_ABORT))|Node::RES_FAIL;
  if( aborts ) abort_at = vc_split("abort_at",0,kids-1);
  Result::Ref &ref = *new Result::Ref;
  std::vector<Result::Ref> &childres = *new std::vector<Result::Ref>;
  Request &req = *mkrequest();
  int ret = n.syncPoll(ref,childres,req,1);
  vc_check(idle == 0,"idle and busy states are paired");
  vc_check(childres.size() == size_t(n_kids),"there is one result for each child");
  // the specification of a poll, from the documentation of the policies
  int expect = 0, nf = 0, asked = 0; bool stop = false; const VellSet *fv[NC*NV];
  for( int k=0; k<n_kids; k++ )
  {
    int i = n.child_poll_order_[k];
    if( stop ) { vc_check(!calls[i],"no further child is polled once the poll is abandoned"); continue; }
    if( !n.child_enabled_[i] )
    {
      vc_check(!calls[i] && !n.childRetcode(i),"a disabled child is not polled and counts with an empty code");
      continue;
    }
    vc_check(calls[i] == 1 && order[i] == asked,"each enabled child is polled exactly once and in order");
    vc_check(n.childRetcode(i) == code[i],"the code of each child is kept");
    if( !(code[i]&(Node::RES_ABORT|Node::RES_WAIT)) )
      vc_check(childres[i].valid() && &*childres[i] == given[i],"each child's result is passed on as it was given");
    asked++;
    expect |= code[i];
    if( code[i]&Node::RES_ABORT ) { stop = true; continue; }
    if( code[i]&Node::RES_FAIL )
    {
      for( int j=0; j<nvs[i]; j++ ) if( fails[i][j] ) fv[nf++] = vsets[i][j];
      if( n.fail_policy_ == AidAbandonPropagate ) stop = true;
    }
    else if( code[i]&Node::RES_MISSING && n.missing_data_policy_ == AidAbandonPropagate ) stop = true;
  }
  bool anyfail = expect&Node::RES_FAIL;
  if( n.fail_policy_ == AidIgnore ) expect &= ~Node::RES_FAIL;
  if( n.missing_data_policy_ == AidIgnore ) expect &= ~Node::RES_MISSING;
  if( abort_flag )
    vc_check(ret == Node::RES_ABORT,"an abort while polling is passed on");
  else
  {
    vc_check(ret == expect,"the code of the poll is the union of the codes of all children, as the policies say");
    vc_check(n.cumulativeRetcode() == expect,"the cumulative code is kept");
    if( ret&Node::RES_FAIL )
    {
      vc_check(ref.valid(),"failed children give a fail result");
#ifdef VC_NATIVE
      vc_check(ref->numVellSets() == nf,"all fails of the children are in the fail result");
      for( int j=0; j<nf; j++ ) vc_check(ref->vellSet(j).isFail(),"each fail is in the fail result");
#else
      vc_check(&*ref == last_new && last_new_size == nf && n_set == nf,"all fails of the children are in the fail result");
      for( int j=0; j<nf; j++ ) vc_check(set_vs[j] == fv[j],"each fail is in the fail result");
#endif
    }
    else vc_check(!ref.valid(),"no result without a failed child");
  }
  vc_cover("end");
}
VC_PROOF(sync_poll)       { sync_poll(vc_split("kids",0,2),false,true,false); }
VC_PROOF(sync_poll_three) { sync_poll(NC,false,true,false); }
VC_PROOF(sync_poll_fails) { sync_poll(vc_split("kids",1,2),true,false,false); }
VC_PROOF(sync_poll_abort) { sync_poll(vc_split("kids",1,NC),false,false,true); }
VC_PROOF(async_poll)
{
  NodeNursery &n = nursery(vc_split("kids",0,NC),false,true);
  Request &req = *mkrequest();
  int enabled = 0;
  for( int i=0; i<n_kids; i++ ) enabled += n.child_enabled_[i];
  int num = n.startAsyncPoll(req,1);
  vc_check(num == enabled,"the number of children to be polled");
  vc_check(n.asyncPollInProgress() == (enabled > 0),"the poll has started, if there are children to be polled");
  int last = -1;
  for( int k=0; k<NC+1; k++ )
  {
    int rc = 0; Result::Ref &ref = *new Result::Ref;
    int i = n.awaitChildResult(rc,ref,req);
    vc_check((i >= 0) == (k < enabled),"the results of all enabled children are given, then the end of the poll");
    if( i < 0 ) break;
    vc_check(i < n_kids && n.child_enabled_[i] && calls[i] == 1,"each enabled child is polled exactly once");
    vc_check(rc == code[i] && n.childRetcode(i) == code[i],"the code of the child is given and kept");
    vc_check(order[i] == k,"children are polled in order");
    int pos = 0; for( int j=0; j<n_kids; j++ ) if( n.child_poll_order_[j] == i ) pos = j;
    vc_check(pos > last,"children are polled in the order asked for"); last = pos;
    if( !(rc&(Node::RES_ABORT|Node::RES_WAIT)) ) vc_check(ref.valid() && &*ref == given[i],"the result of the child is given");
  }
  vc_check(!n.isPollInProgress(),"the poll ends");
  for( int i=0; i<n_kids; i++ ) if( !n.child_enabled_[i] )
    vc_check(!calls[i] && !n.childRetcode(i),"a disabled child is not polled and counts with an empty code");
  vc_check(idle == 0,"idle and busy states are paired");
  vc_cover("end");
}
VC_PROOF(background_poll)
{
  NodeNursery &n = nursery(vc_split("kids",0,NC),false,true);
  Request &req = *mkrequest();
  n.backgroundPoll(req,1);
  bool stop = false; int asked = 0;
  for( int k=0; k<n_kids; k++ )
  {
    int i = n.child_poll_order_[k];
    if( stop ) { vc_check(!calls[i],"no further child is polled after an abort"); continue; }
    if( !n.child_enabled_[i] ) { vc_check(!calls[i] && !n.childRetcode(i),"a disabled child is not polled and counts with an empty code"); continue; }
    vc_check(calls[i] == 1 && order[i] == asked && n.childRetcode(i) == code[i],"each enabled stepchild is polled once, in order, and its code is kept");
    asked++;
    if( code[i]&Node::RES_ABORT ) stop = true;
  }
  vc_check(!n.isPollInProgress(),"the poll ends");
  vc_cover("end");
}
static int name_id[NC]; static std::vector<std::string> *ord; static int ord_id[NC+1];
extern "C" bool stub_nameeq (const std::string &a,const std::string &b)
{
  int x = -1, y = -2;
  for( int i=0; i<n_kids; i++ ) { if( kid_name[i] == &a ) x = name_id[i]; if( kid_name[i] == &b ) y = name_id[i]; }
  for( size_t i=0; i<ord->size(); i++ ) { if( &(*ord)[i] == &a ) x = ord_id[i]; if( &(*ord)[i] == &b ) y = ord_id[i]; }
  return x == y;
}
VC_PROOF(poll_order)
{
  NodeNursery &n = nursery(vc_split("kids",0,NC),false,false);
  for( int i=0; i<n_kids; i++ )
  {
    name_id[i] = i;          // names of children are different
#ifdef VC_NATIVE
    *kid_name[i] = std::string(1,'a'+i);
#endif
  }
  int no = vc_split("names",0,NC+1);
  ord = new std::vector<std::string>(no);
  bool good = no <= n_kids;
  for( int i=0; i<no; i++ )
  {
    ord_id[i] = vc_i32("name"); vc_assume(ord_id[i] >= 0 && ord_id[i] <= NC);
#ifdef VC_NATIVE
    (*ord)[i] = std::string(1,'a'+ord_id[i]);
#endif
    good = good && ord_id[i] < n_kids;
    for( int j=0; j<i; j++ ) good = good && ord_id[i] != ord_id[j];
  }
  bool threw = false;
  try { n.setChildPollOrder(*ord); } catch( ... ) { threw = true; }
  vc_check(threw == !good,"an order is accepted exactly if it names different children of the node");
  if( !threw )
  {
    for( int i=0; i<no; i++ ) vc_check(n.child_poll_order_[i] == ord_id[i],"named children come first, as ordered");
    for( int c=0; c<n_kids; c++ )
    {
      int m = 0;
      for( int i=0; i<n_kids; i++ ) m += n.child_poll_order_[i] == c;
      vc_check(m == 1,"every child is polled exactly once");
    }
  }
  vc_cover("end");
}
