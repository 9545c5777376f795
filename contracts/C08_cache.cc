// @property C08
// @sources MEQ/src/Node.cc MEQ/src/NodeNursery.cc MEQ/src/RequestId.cc MEQ/src/SymdepMap.cc DMI/src/HIID.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc
// @libs meq
// @stub * _ZN3Meq6ResultC1Ei stub_result_ctor
// @stub * _ZN3Meq6ResultD2Ev stub_result_dtor
// @stub * _ZNK3Meq9SymdepMap7getMaskEPKN3DMI4HIIDEi stub_getmask
// @stub * _ZN3Meq4RqId8diffMaskERKN3DMI4HIIDES4_ stub_diffmask
// @verifies get_cached Meq::Node::getCachedResult; Meq::Node::Cache::valid; Meq::Node::clearCache; Meq::Node::Cache::clear
// @stub * _ZNK3Meq6Result11numVellSetsEv stub_numvs
// @stub * _ZNK3Meq6Result7vellSetEi stub_vs
// @stub * _ZN3Meq6Result9vellSetWrEi stub_vswr
// @stub * _ZNK3Meq7VellSet11numPertSetsEv stub_npert
// @stub * _ZN3Meq7VellSet14setNumPertSetsEi stub_setnpert
// @stub cache_result _ZN3Meq4Node15holdChildCachesEbi stub_holdchildren
// @verifies hold_children Meq::Node::holdChildCaches; Meq::NodeNursery::finishPoll
// @verifies clear_recursive Meq::Node::clearCache
// @verifies state_dep Meq::Node::propagateStateDependency
// @verifies strip_perts Meq::Node::getCachedResult
// @verifies cache_result Meq::Node::cacheResult; Meq::Node::Cache::set
// @verifies hold_cache Meq::Node::holdCache; Meq::Node::clearCache
// @verifies clear_cache Meq::Node::clearCache; Meq::Node::Cache::clear
// @assume accessors of Result and VellSet (numVellSets, vellSet, vellSetWr, numPertSets, setNumPertSets) over a result with two vellsets
// @assume contract of RqId::diffMask (proved as C07 diffMask): 16 bits, bit 0 set iff the type indices differ; SymdepMap::getMask of one symbolic dependency returns its mask
// @option hold_children nosummary=1
// @option clear_recursive nosummary=1
// @option state_dep nosummary=1
#include "../contracts/node.h"
#include "../contracts/hiid.h"
struct TestNode : public Node
{
  TestNode () : Node(0) {}
  virtual int getResult (Result::Ref &,const std::vector<Result::Ref> &,const Request &,bool) { return 0; }
  virtual void setStateImpl (DMI::Record::Ref &,bool) {}
};
// a child or parent: records the calls it gets
struct Relative : public TestNode
{
  int hold, release, clear, clear_rec, prop; long marker;
  virtual void holdCache (bool h) throw() { if( h ) hold++; else release++; }
  virtual void clearCache (bool recursive,long m) throw() { clear++; clear_rec += recursive; marker = m; }
  virtual void propagateStateDependency () { prop++; }
};
extern void *vt_relative[] asm("_ZTV8Relative");
extern "C" __attribute__((used)) void emit_vt_relative () { new Relative; }
extern void *vt_node[] asm("_ZTV8TestNode");
extern "C" __attribute__((used)) void emit_vt_node () { new TestNode; }
static int mask_state, mask_iter, mask_domain;
extern "C" int stub_getmask (const SymdepMap *,const HIID *deps,int n)
{
  vc_stub_requires(n == 1 && deps[0].size() == 1,"symdeps: one symbolic dependency");
  AtomicID a = deps[0][0];
  return a == AidState ? mask_state : a == AidIteration ? mask_iter : a == AidDomain ? mask_domain : 0;
}
// contract of the vellset accessors: a result has two vellsets; a result and its clone have the same numbers of perturbations until set
static int npert[2], npert_clone[2]; static Result *cached;
static char vs_cached[2], vs_clone[2];
extern "C" int stub_numvs (const Result *) { return 2; }
extern "C" const VellSet * stub_vs (const Result *r,int i)
{ vc_stub_requires(i >= 0 && i < 2,"vellset number in range"); return (const VellSet*)(r == cached ? vs_cached+i : vs_clone+i); }
extern "C" VellSet * stub_vswr (Result *r,int i)
{ vc_stub_requires(i >= 0 && i < 2,"vellset number in range"); vc_check(r != cached,"the cached result is not written"); return (VellSet*)(vs_clone+i); }
extern "C" int stub_npert (const VellSet *vs)
{ for( int i=0; i<2; i++ ) if( vs == (const VellSet*)(vs_cached+i) ) return npert[i]; else if( vs == (const VellSet*)(vs_clone+i) ) return npert_clone[i]; return 0; }
extern "C" void stub_setnpert (VellSet *vs,int n)
{ for( int i=0; i<2; i++ ) if( vs == (VellSet*)(vs_cached+i) ) npert[i] = n; else if( vs == (VellSet*)(vs_clone+i) ) npert_clone[i] = n; }
static int hold_calls; static bool hold_arg; static int hold_mask;
extern "C" void stub_holdchildren (Node *,bool hold,int mask) { hold_calls++; hold_arg = hold; hold_mask = mask; }
// contract of RqId::diffMask (proved in C07): a 16 bit mask, bit 0 set iff the first indices differ
static int g_diff; static const HIID *g_rqid, *g_crqid;
extern "C" int stub_diffmask (const HIID &a,const HIID &b)
{
  vc_stub_requires(same_seq(a,*g_rqid) && same_seq(b,*g_crqid) || same_seq(b,*g_rqid) && same_seq(a,*g_crqid),"diffMask: request id against id of the cached request");
  return g_diff;
}
inline void mkdiff (HIID &a,HIID &b)
{
  g_diff = vc_i32("diff");
  vc_assume((g_diff&~0xFFFF) == 0 && (g_diff&1) == (at0(a,0) != at0(b,0)));
#ifdef VC_NATIVE
  // ids with the given difference
  for( int i=1; i<16; i++ ) if( (g_diff>>i)&1 && i >= (int)b.size() && b.size() ) b.resize(i+1);
  for( unsigned i=1; i<b.size(); i++ ) b[i] = AtomicID(at0(a,i) + ((i<16 ? g_diff>>i : 0)&1));
  for( unsigned i=b.size(); i<a.size() && b.size(); i++ ) a[i] = AtomicID(0);
  if( b.empty() && g_diff )
  {
    for( int i=1; i<16; i++ ) if( (g_diff>>i)&1 && i >= (int)a.size() ) a.resize(i+1);
    for( unsigned i=1; i<a.size(); i++ ) a[i] = AtomicID((i<16 ? g_diff>>i : 0)&1);
  }
  vc_assume(RqId::diffMask(a,b) == g_diff);
#endif
  g_rqid = &a; g_crqid = &b;
}
struct World
{
  TestNode &n; Request &req; SymHIID rqid, crqid; Result *res; bool hasres, valid0; int code;
  World () : n(*raw<TestNode>(vt_node)), req(*mkrequest()), rqid("len_request","request"), crqid("len_cached","cached")
  {
    n.forest_ = raw<Forest>(0);
#ifdef VC_NATIVE
    new (&n.exec_cond_) Thread::Condition;
#endif
    n.pcs_total_ = new Node::CacheStats; n.pcs_new_ = new Node::CacheStats; n.pcparents_ = new Node::CacheParentInfo;
    memset(n.pcs_total_,0,sizeof(Node::CacheStats)); memset(n.pcs_new_,0,sizeof(Node::CacheStats));
    n.pcparents_->npar = vc_i32("npar"); n.pcparents_->nact = vc_i32("nact"); n.pcparents_->nhint = vc_i32("nhint"); n.pcparents_->nhold = vc_i32("nhold");
    mask_state = vc_i32("mask_state"); mask_iter = vc_i32("mask_iteration"); mask_domain = vc_i32("mask_domain");
#ifdef VC_NATIVE
    new (&n.symdeps_) SymdepMap; n.symdeps_.set(AidState,mask_state); n.symdeps_.set(AidIteration,mask_iter);  n.symdeps_.set(AidDomain,mask_domain);
#endif
    n.has_state_dep_ = vc_bool("has_state_dep"); n.new_request_ = vc_bool("new_request");
    n.control_status_ = vc_i32("control_status");
    mkdiff(rqid,crqid);
    req.id_ = rqid;
    n.cache_.rqid = crqid;
    n.cache_.is_valid = vc_bool("cache_valid");
    n.cache_.rescode = code = vc_i32("rescode");
    n.cache_.ignore_parent_releases_ = vc_bool("ignore_parent_releases");
    hasres = vc_split("has_result",0,1);
    res = cached = mkresult();
    if( hasres ) n.cache_.result.attach(res);
    valid0 = hasres && n.cache_.is_valid;
  }
};
VC_PROOF(get_cached)
{
  World w; Node &n = w.n;
  int deps = n.has_state_dep_ ? w.code | mask_state : w.code;
  AtomicID type = w.rqid.size() ? w.rqid[0] : AtomicID(0), ctype = w.crqid.size() ? w.crqid[0] : AtomicID(0);
  bool eval0 = (type == Aidev) | (type.id() == 0), cderiv = (ctype == Aide1) | (ctype == Aide2);
  int diff = g_diff & deps;
  bool comparable = w.valid0 & (w.rqid.size() != 0) & (w.crqid.size() != 0);
  bool update = comparable & (type == Aidpu) & !(deps & mask_iter);
  bool strip = comparable & !update & (diff == RequestType::DEPMASK_TYPE) & eval0 & cderiv;
  vc_assume(!strip);
  Result::Ref &ref = *new Result::Ref; int retcode = -1;
  bool r = n.getCachedResult(retcode,ref,w.req);
  if( update )
  {
    vc_check(r && ref.valid() && &*ref != w.res,"an update request without dependency on iterations gets an empty result");
    vc_check(n.cache_.valid(),"an update request without dependency on iterations keeps the cache");
    vc_check(n.cache_.ignore_parent_releases_,"an update request without dependency on iterations protects the cache from being released");
  }
  else if( comparable & (diff == 0) )
  {
    vc_check(r,"the cached result is reused if no part of the request id on which it depends differs");
    if( r )
    {
      vc_check(ref.valid() && &*ref == w.res,"the cached result itself is returned");
      vc_check(retcode == deps,"the dependencies of the cached result are returned");
      vc_check(n.cache_.valid() && n.cache_.rescode == deps,"the cache stays valid");
    }
  }
  else
  {
    vc_check(!r && !ref.valid(),"the cached result is not reused when some part of the request id on which it depends differs");
    vc_check(!n.cache_.valid(),"a cache that does not match is cleared");
  }
  vc_cover("end");
}

// an E0 request for a cached E1/E2 result gets a copy of the result without the perturbed values
VC_PROOF(strip_perts)
{
  World w; Node &n = w.n;
  int deps = n.has_state_dep_ ? w.code | mask_state : w.code;
  AtomicID type = w.rqid.size() ? w.rqid[0] : AtomicID(0), ctype = w.crqid.size() ? w.crqid[0] : AtomicID(0);
  bool eval0 = (type == Aidev) | (type.id() == 0), cderiv = (ctype == Aide1) | (ctype == Aide2);
  vc_assume(w.valid0 & (w.rqid.size() != 0) & (w.crqid.size() != 0));
  vc_assume(((g_diff & deps) == RequestType::DEPMASK_TYPE) & eval0 & cderiv);
  for( int i=0; i<2; i++ ) { npert[i] = npert_clone[i] = i ? vc_i32("npert1") : vc_i32("npert0"); vc_assume(npert[i] >= 0); }
  int n0 = npert[0], n1 = npert[1];
#ifdef VC_NATIVE
  w.res = new Result(2); n.cache_.result <<= w.res;
  for( int i=0; i<2; i++ )
  {
    VellSet &vs = w.res->setNewVellSet(i,1,npert[i] > 2 ? 2 : npert[i]);
    vs.setSpids(std::vector<int>(1,1)); vs.setValue(new Vells(1.));
    for( int j=0; j<vs.numPertSets(); j++ ) { vs.setPerturbation(0,.1,j); vs.setPerturbedValue(0,new Vells(2.),j); }
  }
  n0 = w.res->vellSet(0).numPertSets(); n1 = w.res->vellSet(1).numPertSets();
#endif
  Result::Ref &ref = *new Result::Ref; int retcode = -1;
  bool r = n.getCachedResult(retcode,ref,w.req);
  vc_check(r && ref.valid(),"a request without derivatives is satisfied by a cached result with derivatives");
  if( r && ref.valid() )
  {
    vc_check(&*ref != w.res,"the cached result is not returned with its perturbed values stripped in place");
    vc_check(ref->vellSet(0).numPertSets() == 0 && ref->vellSet(1).numPertSets() == 0,"no perturbed values are returned if none are requested");
  }
  vc_check(n.cache_.valid() && &*n.cache_.result == w.res && w.res->vellSet(0).numPertSets() == n0 && w.res->vellSet(1).numPertSets() == n1,"the cached result keeps its derivatives");
  vc_check(retcode == deps,"the dependencies of the cached result are returned");
  vc_cover("end");
}
inline int mkpolicy (Node &n)
{
  n.cache_policy_ = vc_i32("cache_policy"); n.forest_->cache_policy_ = vc_i32("forest_cache_policy");
  return n.cache_policy_ == Node::CACHE_DEFAULT ? n.forest_->cache_policy_ : n.cache_policy_;
}
// what is cached after evaluation, and what the children are told, under every policy
VC_PROOF(cache_result)
{
  World w; Node &n = w.n;
  int policy = mkpolicy(n);
  n.log_policy_ = n.forest_->log_policy_ = Node::LOG_NOTHING;
  n.pcrescode_ = new int(0);
  new (&n.cache_.rqid) HIID;
  w.req.next_id_ = w.crqid;
#ifdef VC_NATIVE
  Relative *child = raw<Relative>(vt_relative);
  new (&n.children_) NodeNursery; new (&n.stepchildren_) NodeNursery;
  n.children_.init(1); n.children_.setChild(0,*child);
#endif
  Result *res = mkresult(); Result::Ref &ref = *new Result::Ref(res);
  int code = vc_i32("code");
  bool released0 = n.cache_.ignore_parent_releases_;
  int npar = n.pcparents_->nact ? n.pcparents_->nact : n.pcparents_->npar;
  int ret = n.cacheResult(ref,w.req,code);
  int full = code&Node::RES_IGNORE_TYPE ? code : code|RequestType::DEPMASK_TYPE;
  bool fail = full&Node::RES_FAIL;
  bool lng = fail || ( policy > Node::CACHE_MINIMAL && ( policy >= Node::CACHE_ALWAYS || !(g_diff&full) ) );
  bool doc = lng || ( policy > Node::CACHE_NEVER && npar > 1 );
  vc_check(ret == full,"the return code depends on the request type unless the node says otherwise");
  vc_check(n.cache_.valid() == doc,"a result is cached iff the cache policy says so (fails always)");
  if( doc )
  {
    vc_check(&*n.cache_.result == res,"the result of this evaluation is cached");
    vc_check(same_seq(n.cache_.rqid,w.rqid),"the result is cached under the id of its request");
    vc_check(n.cache_.rescode == (full&~Node::RES_UPDATED),"the result is cached with all its dependencies");
    vc_check((n.control_status_&Node::CS_CACHED) != 0,"the node says that it has a cache");
  }
  else
    vc_check((n.control_status_&Node::CS_CACHED) == 0,"the node does not say that it has a cache");
  vc_check(!n.cache_.ignore_parent_releases_,"parents can release this cache");
#ifdef VC_NATIVE
  hold_calls = 1; hold_arg = child[0].hold; hold_mask = g_diff; vc_check(child[0].hold+child[0].release == 1,"children are told once");
#endif
  vc_check(hold_calls == 1 && hold_arg == !lng && hold_mask == g_diff,"children are told to hold their caches iff this node does not hold its own beyond the last parent");
  vc_check(ref.valid() && &*ref == res,"the result is kept");
  vc_cover("end");
}
// parents release the cache: it goes when all parents have checked in and none asks for it to be held
VC_PROOF(hold_cache)
{
  World w; Node &n = w.n;
  mkpolicy(n); n.actual_cache_policy_ = vc_i32("actual_policy"); n.domain_depend_mask_ = vc_i32("domain_mask");
  vc_assume(n.pcparents_->nhint >= 0 && n.pcparents_->nhint < 1000000 && n.pcparents_->nhold >= 0 && n.pcparents_->nhold <= n.pcparents_->nhint);
  int nhint = n.pcparents_->nhint, nhold = n.pcparents_->nhold, npar = n.pcparents_->nact ? n.pcparents_->nact : n.pcparents_->npar;
  bool prot = n.cache_.ignore_parent_releases_, hold = vc_bool("hold");
  int policy = n.actual_cache_policy_, code = n.cache_.rescode;
  n.holdCache(hold);
  bool all_in = nhint+1 >= npar, held = nhold+hold > 0;
  bool release = !prot && (code & n.domain_depend_mask_) && policy < Node::CACHE_ALWAYS && all_in && ( policy <= Node::CACHE_MINIMAL || !held );
  vc_check(n.pcparents_->nhint == nhint+1 && n.pcparents_->nhold == nhold+hold,"the hints of parents are counted");
  vc_check(n.cache_.valid() == (w.valid0 && !release),"the cache is released iff all parents have checked in and nobody holds it");
  vc_cover("end");
}
VC_PROOF(clear_cache)
{
  World w; Node &n = w.n;
  long mark0 = n.cache_.last_clear_cache_marker_ = (long)vc_i64("marker0"), mark = (long)vc_i64("marker");
  n.clearCache(false,mark);
  if( mark && mark == mark0 )
    vc_check(n.cache_.valid() == w.valid0,"a node which has been visited with this marker is left alone");
  else
  {
    vc_check(!n.cache_.valid(),"no cached result can be returned after the cache has been cleared");
    vc_check((n.control_status_&Node::CS_CACHED) == 0,"the node does not say that it has a cache");
    if( w.valid0 && !(w.code&Node::RES_FAIL) )
      vc_check(!n.cache_.result.valid(),"the result is released when the cache is cleared");
  }
  vc_cover("end");
}

// any number of children and stepchildren up to two each, any of them disabled
struct Family
{
  Node &n; Relative *ch[2][2]; int num[2], code[2][2], enabled[2][2];
  Family () : n(*raw<TestNode>(vt_node))
  {
#ifdef VC_NATIVE
    new (&n.exec_cond_) Thread::Condition;
#endif
    new (&n.children_) NodeNursery; new (&n.stepchildren_) NodeNursery;
    n.control_status_ = 0; n.pcs_total_ = new Node::CacheStats; n.pcs_new_ = new Node::CacheStats;
    num[0] = vc_split("children",0,2); num[1] = vc_split("stepchildren",0,2);
    static const char *const nm[2][2] = { { "code00","code01" }, { "code10","code11" } };
    static const char *const en[2][2] = { { "enabled00","enabled01" }, { "enabled10","enabled11" } };
    for( int k=0; k<2; k++ )
    {
      NodeNursery &nur = k ? n.stepchildren_ : n.children_;
      nur.children_.resize(num[k]); nur.child_enabled_.resize(num[k]); nur.child_retcodes_.resize(num[k]);
      for( int i=0; i<num[k]; i++ )
      {
        ch[k][i] = raw<Relative>(vt_relative);
        nur.children_[i].attach(*ch[k][i],DMI::SHARED);
        enabled[k][i] = vc_split(en[k][i],0,1); nur.enableChild(i,enabled[k][i]);
        nur.child_retcodes_[i] = code[k][i] = vc_i32(nm[k][i]);
      }
    }
  }
};
VC_PROOF(hold_children)
{
  Family f;
  bool hold = vc_bool("hold"); int mask = vc_i32("mask");
  f.n.holdChildCaches(hold,mask);
  for( int k=0; k<2; k++ )
    for( int i=0; i<f.num[k]; i++ )
    {
      bool h = hold && !(f.code[k][i]&mask);
      vc_check(f.ch[k][i]->hold == (f.enabled[k][i] && h) && f.ch[k][i]->release == (f.enabled[k][i] && !h),
          "every enabled child is told exactly once to hold its cache, or to release it if what it depends on changes");
    }
  vc_cover("end");
}
VC_PROOF(clear_recursive)
{
  Family f;
  f.n.cache_.is_valid = true; f.n.cache_.result.attach(mkresult()); f.n.cache_.rescode = vc_i32("rescode");
  long marker = (long)vc_i64("marker"), mark0 = f.n.cache_.last_clear_cache_marker_ = (long)vc_i64("marker0");
  f.n.clearCache(true,marker);
  bool visited = marker && marker == mark0;
  vc_check(f.n.cache_.valid() == visited,"the cache is cleared");
  for( int k=0; k<2; k++ )
    for( int i=0; i<f.num[k]; i++ )
      vc_check(f.ch[k][i]->clear == !visited && f.ch[k][i]->clear_rec == !visited && ( visited || f.ch[k][i]->marker == marker ),
          "recursive clearing reaches every child and stepchild once, enabled or not");
  vc_cover("end");
}
VC_PROOF(state_dep)
{
  Node &n = *raw<TestNode>(vt_node);
  int np = vc_split("parents",0,3); Relative *par[3];
  n.parents_.resize(np); n.parent_indices_.resize(np);
  for( int i=0; i<np; i++ ) { par[i] = raw<Relative>(vt_relative); n.parents_[i].ref.attach(*par[i],DMI::SHARED); }
  bool dep = n.has_state_dep_ = vc_bool("dep");
  n.Node::propagateStateDependency();
  vc_check(n.has_state_dep_,"the node depends on its state");
  for( int i=0; i<np; i++ )
    vc_check(par[i]->prop == !dep,"every parent gets the dependency of the state of its child");
  vc_cover("end");
}
