// @property C09
// @sources MEQ/src/Node.cc MEQ/src/NodeNursery.cc DMI/src/HIID.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc TimBase/src/Exception.cc
// @libs meq
// @option * nosummary=1
// @stub * _ZN3Meq6ResultC1Ei stub_result_ctor
// @stub * _ZN3Meq6ResultD2Ev stub_result_dtor
// @stub * _ZN3Meq4Node15getCachedResultERiRN3DMI10CountedRefINS_6ResultEEERKNS_7RequestE stub_getcached
// @stub * _ZN3Meq4Node11cacheResultERKN3DMI10CountedRefINS_6ResultEEERKNS_7RequestEi stub_cacheresult
// @stub * _ZN3Meq4Node12setExecStateEiib stub_setexec
// @stub * _ZN3Meq4Node6wstateEv stub_wstate
// @stub * _ZN3DMI9ContainerixERKNS_4HIIDE stub_index
// @stub * _ZNK3DMI9Container4HookaSEi stub_hookset
// @stub * _ZN3DMI9Container4HookD2Ev stub_hookdtor
// @stub * _ZN3Meq4Node17setCurrentRequestERKNS_7RequestE stub_setcurrent
// @stub * _ZN3Meq4Node19processRequestRiderERN3DMI10CountedRefINS_6ResultEEERKNS_7RequestE stub_rider
// @stub * _ZN3Meq4Node15checkChildCellsERN3DMI10CountedRefINS_5CellsEEERKSt6vectorINS2_INS_6ResultEEESaIS8_EE stub_checkcells
// @stub * _ZN3Meq6Result13setNewVellSetEiii stub_newvs
// @stub * _ZN3Meq6Result10setVellSetEiPNS_7VellSetEi stub_setvs
// @stub * _ZN3Meq6Result8setCellsERKNS_5CellsEib stub_setcells
// @stub * _ZN3Meq7VellSet7addFailERKSt9exception stub_addfail
// @stub * _ZN3Meq7VellSetC1Eii stub_vsctor
// @stub * _ZN3Meq4Node9postErrorERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKN3DMI10CountedRefINS9_4BObjEEE stub_posterror
// @stub * _ZNK3DMI13ExceptionList8makeListEv stub_makelist
// @stub * _ZN3DMI13ExceptionList3addERKSt9exception stub_eladd
// @stub * _ZN3DMI13ExceptionListC1Ev stub_elctor
// @stub * _ZN3DMI13ExceptionListD1Ev stub_eldtor
// @stub * _ZN3DMI13ExceptionListD2Ev stub_eldtor
// @stub * _ZN3DMI13ExceptionList3addERKN5LOFAR9ExceptionE stub_eladd2
// @stub * _ZNK5LOFAR9Exception4whatEv stub_what
// @assume wstate(), postError and the exception lists are observers without effect on evaluation; commands in a rider that fail give a result
// @verifies execute_hit Meq::Node::execute; Meq::Node::exitExecute
// @verifies execute_eval Meq::Node::execute; Meq::Node::exitExecute
// @verifies execute_nocells Meq::Node::execute; Meq::Node::exitExecute
// @verifies execute_seen Meq::Node::execute; Meq::Node::exitExecute
// @verifies execute_rider Meq::Node::execute; Meq::Node::exitExecute
// @verifies execute_poll_throws Meq::Node::execute; Meq::Node::exitExecute
// @verifies execute_get_throws Meq::Node::execute; Meq::Node::exitExecute
// @verifies execute_rider_throws Meq::Node::execute; Meq::Node::exitExecute
// @verifies execute_abort Meq::Node::execute; Meq::Node::exitExecute; Meq::Node::exitAbort
#include "../contracts/node.h"
#include "../contracts/hiid.h"
static int n_poll, n_get, n_rider, poll_code, get_code, rider_code, poll_throws, get_throws, rider_throws, get_gives;
static Result *get_result;
static void thrown (int how) { if( how == 1 ) throw LOFAR::Exception("an error"); if( how == 2 ) throw 1; }
struct TestNode : public Node
{
  TestNode () : Node(0) {}
  virtual TypeId objectType () const { return TpMeqNode; }
  virtual void setStateImpl (DMI::Record::Ref &,bool) {}
  virtual int pollChildren (Result::Ref &ref,std::vector<Result::Ref> &,const Request &)
  {
    n_poll++; thrown(poll_throws);
    if( poll_code&(Node::RES_FAIL|Node::RES_MISSING) ) ref <<= mkfail();
    return poll_code;
  }
  virtual int getResult (Result::Ref &ref,const std::vector<Result::Ref> &,const Request &,bool)
  {
    n_get++; thrown(get_throws);
    if( get_gives ) ref <<= get_result = mkresult();
    return get_code;
  }
  virtual int discoverSpids (Result::Ref &,const std::vector<Result::Ref> &,const Request &) { return 0; }
  static Result * mkfail () { return mkresult(); }
};
extern void *vt_node[] asm("_ZTV8TestNode");
extern "C" __attribute__((used)) void emit_vt_node () { new TestNode; }
static bool cache_hit; static int cache_code, n_cached, cached_code; static Result *hit_result, *fail_result;
// contract of the result cache (proved in C08)
extern "C" bool stub_getcached (Node *,int &code,Result::Ref &ref,const Request &)
{ if( !cache_hit ) return false; ref.attach(hit_result); code = cache_code; return true; }
extern "C" int stub_cacheresult (Node *n,const Result::Ref &ref,const Request &,int code)
{
  vc_stub_requires(ref.valid(),"a valid result is given to the cache");
  n_cached++; cached_code = code; n->cache_.result = ref; n->cache_.is_valid = true;
  return n->cache_.rescode = code&Node::RES_IGNORE_TYPE ? code : code|RequestType::DEPMASK_TYPE;
}
extern "C" void stub_setexec (Node *n,int es,int cs,bool) { n->control_status_ = (cs&~Node::CS_MASK_EXECSTATE)|es; }
// state record: publishing of the state is not under contract
static char dummy_record[4096] __attribute__((aligned(16)));
extern "C" DMI::Record * stub_wstate (Node *) { return (DMI::Record*)dummy_record; }
extern "C" void stub_index (void *hook,void *,const HIID &) { memset(hook,0,sizeof(DMI::Container::Hook)); }
extern "C" int stub_hookset (const void *,int x) { return x; }
extern "C" void stub_hookdtor (void *) {}
extern "C" void stub_setcurrent (Node *n,const Request &req) { n->current_request_.attach(req); n->current_reqid_ = req.id(); }
extern "C" int stub_rider (Node *,Result::Ref &,const Request &) { n_rider++; thrown(rider_throws); return rider_code; }
extern "C" void stub_checkcells (Node *,Cells::Ref &,const std::vector<Result::Ref> &) {}
extern "C" VellSet * stub_newvs (Result *r,int,int,int) { fail_result = r; return (VellSet*)dummy_record; }
static Result *missing_result;
extern "C" VellSet * stub_setvs (Result *r,int i,VellSet *vs,int) { if( !i ) missing_result = r; return vs; }
extern "C" void stub_setcells (Result *,const Cells *,int,bool) {}
extern "C" void stub_addfail (VellSet *,const std::exception &) {}
extern "C" void stub_vsctor (VellSet *,int,int) {}
extern "C" void stub_posterror (Node *,const string &,const ObjRef &) {}
extern "C" void stub_makelist (ObjRef *r,const DMI::ExceptionList *) { memset((void*)r,0,sizeof(ObjRef)); }
extern "C" void stub_eladd (DMI::ExceptionList *,const std::exception &) {}
#ifdef VC_NATIVE
static bool is_fail (const Result &r) { return r.hasFails(); }
static bool is_missing (const Result &r) { return r.numVellSets() == 1 && !r.vellSet(0).hasValue() && !r.vellSet(0).isFail(); }
#else
static bool is_fail (const Result &r) { return fail_result == &r; }
static bool is_missing (const Result &r) { return missing_result == &r; }
#endif
extern "C" const char * stub_what (const std::exception *) { return "error"; }
extern "C" void stub_elctor (DMI::ExceptionList *) {}
extern "C" void stub_eldtor (DMI::ExceptionList *) {}
extern "C" void stub_eladd2 (DMI::ExceptionList *,const LOFAR::Exception &) {}
struct TestCells : public Cells { virtual TypeId objectType () const { return TpMeqCells; } virtual void validateContent (bool) {} };
extern void *vt_cells[] asm("_ZTV9TestCells");
extern "C" __attribute__((used)) void emit_vt_cells () { new TestCells; }
struct Scenario { int abort, hit, rider, cells, id, seen, pt, gt, rt, gives; };
static void execute (const Scenario &sc)
{
#ifdef VC_NATIVE
  TestNode &n = *new TestNode; n.staterec_ <<= new DMI::Record; n.forest_ = new Forest;
#else
  TestNode &n = *raw<TestNode>(vt_node);
  new (&n.children_) NodeNursery; new (&n.stepchildren_) NodeNursery;
  n.forest_ = raw<Forest>(0);
  n.pcs_total_ = new Node::CacheStats; n.pcs_new_ = new Node::CacheStats;
#endif
  n.internal_init_index_ = 1; n.cache_policy_ = Node::CACHE_ALWAYS;
  Request &req = *mkrequest();
  bool cells = sc.cells, rider = sc.rider;
#ifdef VC_NATIVE
  if( cells ) req.pcells_ = new Cells::Ref(new Cells);
#else
  if( cells ) { req.pcells_ = new Cells::Ref; req.pcells_->attach(raw<TestCells>(vt_cells)); }
#endif
  if( rider ) req.prider_ = new DMI::Record::Ref;
  int nid = sc.id;
  HIID id; if( nid ) id.resize(1), id[0] = AtomicID(vc_i32("type"));
  req.id_ = id;
  bool seen = sc.seen;   // same request as the last one
  if( seen ) { n.current_request_.attach(req); n.current_reqid_ = id; }
  bool abort = n.forest_->abort_flag_ = sc.abort;
  int cs0 = n.control_status_ = vc_i32("status"), dep = n.depend_mask_ = vc_i32("depend_mask");
  poll_code = vc_i32("poll_code"); get_code = vc_i32("get_code"); rider_code = vc_i32("rider_code");
  vc_assume((dep&~0xFFFF) == 0 && !(rider_code&Node::RES_FAIL));
  poll_throws = sc.pt; get_throws = sc.gt; rider_throws = sc.rt; get_gives = sc.gives;
  cache_hit = sc.hit; cache_code = vc_i32("cache_code");
  hit_result = mkresult();
#ifdef VC_NATIVE
  vc_assume(!rider);
  if( cache_hit ) { vc_assume(nid); n.cache_.result.attach(hit_result); n.cache_.is_valid = true; n.cache_.rqid = id; n.cache_.rescode = cache_code; }
#endif
  Result::Ref &ref = *new Result::Ref;
  int ret = n.execute(ref,req,0);
  vc_check(!n.executing_,"the node is not left executing");
  bool newreq = !seen || !nid;
  bool active = cs0&Node::CS_ACTIVE;
  int res = n.control_status_&Node::CS_RES_MASK;
  vc_check((n.control_status_&Node::CS_MASK_EXECSTATE) == Node::CS_ES_IDLE,"the node is idle afterwards");
  if( abort )
  {
    vc_check((ret&Node::RES_ABORT) && !n_poll && !n_get && !n_cached,"nothing is evaluated or cached after an abort");
  }
  else if( cache_hit )
  {
    vc_check(ret == cache_code && ref.valid() && &*ref == hit_result,"a cached result is returned as it is");
    vc_check(!n_poll && !n_get && !n_rider,"nothing is evaluated if the cache holds the result");
    vc_check((n.control_status_&Node::CS_RETCACHE) != 0,"the node says that the result came from its cache");
  }
  else
  {
    bool dorider = newreq && rider;
    int code0 = dorider ? rider_code : 0;
    vc_check(n_rider == dorider,"commands in the request are processed once for a new request");
    vc_check((n.control_status_&Node::CS_RETCACHE) == 0,"the node does not say that the result came from its cache");
    int type = nid ? req.id_[0].id() : 0;
    bool eval = type == 0 || type == Aidev_int || type == Aide1_int || type == Aide2_int;
    bool failed = dorider && rider_throws;
    bool dopoll = !failed && active;
    vc_check(n_poll == dopoll,"children are polled exactly once, unless the node is inactive");
    if( dopoll && poll_throws ) failed = true;
    int code = (cells ? 0 : code0)|poll_code;
    bool stop = (code&(Node::RES_WAIT|Node::RES_FAIL|Node::RES_MISSING)) != 0;
    bool doget = dopoll && !poll_throws && !stop && cells && eval;
    vc_check(n_get == doget,"the result is evaluated exactly when all children have given one");
    if( doget && get_throws ) failed = true;
    if( failed )
    {
      vc_check((ret&Node::RES_FAIL) != 0,"an exception becomes a fail");
      vc_check(ref.valid() && is_fail(*ref),"an exception becomes a fail result");
      vc_check(res == Node::CS_RES_FAIL,"the node says that it has failed");
      vc_check(n.cache_.valid() && &*n.cache_.result == &*ref,"a fail result is cached");
    }
    else if( !active )
      vc_check(ref.valid() && res == Node::CS_RES_EMPTY && n.cache_.valid(),"an inactive node gives an empty result");
    else if( code&Node::RES_WAIT || ( doget && get_code&Node::RES_WAIT ) )
    {
      vc_check((ret&Node::RES_WAIT) && res == Node::CS_RES_WAIT && !n.cache_.valid(),"waiting is passed on and nothing is cached");
    }
    else
    {
      if( !stop ) code |= dep;
      if( doget ) code |= get_code;
      int full = code | Node::RES_UPDATED | (code&Node::RES_IGNORE_TYPE ? 0 : RequestType::DEPMASK_TYPE);
      vc_check(ret == full,"the dependencies of a result are those of all children, of the node and of its own evaluation");
      vc_check(ref.valid() && n.cache_.valid() && &*n.cache_.result == &*ref,"the result returned is the one that is cached");
      vc_check((n.cache_.rescode|Node::RES_UPDATED) == full,"the result is cached with all its dependencies");
      if( !(code&Node::RES_FAIL) && code&Node::RES_MISSING && stop )
        vc_check(is_missing(*ref),"missing data gives an empty result");
      if( doget && get_gives && !(get_code&Node::RES_FAIL) )
        vc_check(&*ref == get_result,"the result returned is the one that was evaluated");
      int expect = code&Node::RES_FAIL ? Node::CS_RES_FAIL : stop ? Node::CS_RES_MISSING : cells ? Node::CS_RES_OK : Node::CS_RES_EMPTY;
      vc_check(res == expect,"the status of the node tells the kind of result");
    }
  }
  vc_cover("end");
}

//                                                     abort  hit  rider cells                     id                     seen                    poll throws  getResult throws          rider throws  result
VC_PROOF(execute_abort)      { const Scenario s =    { 1,     0,   0,    1,                        1,                     0,                      0,           0,                        0,            1 }; execute(s); }
VC_PROOF(execute_hit)        { const Scenario s =    { 0,     1,   0,    1,                        1,                     (int)vc_split("seen",0,1),   0,           0,                        0,            1 }; execute(s); }
VC_PROOF(execute_eval)       { const Scenario s =    { 0,     0,   0,    1,                        (int)vc_split("id",0,1),    0,                      0,           0,                        0,            (int)vc_split("gives",0,1) }; execute(s); }
VC_PROOF(execute_nocells)    { const Scenario s =    { 0,     0,   0,    0,                        1,                     0,                      0,           0,                        0,            1 }; execute(s); }
VC_PROOF(execute_seen)       { const Scenario s =    { 0,     0,   1,    1,                        (int)vc_split("id",0,1),    1,                      0,           0,                        0,            1 }; execute(s); }
VC_PROOF(execute_rider)      { const Scenario s =    { 0,     0,   1,    (int)vc_split("cells",0,1),    1,                     0,                      0,           0,                        0,            1 }; execute(s); }
VC_PROOF(execute_poll_throws){ const Scenario s =    { 0,     0,   0,    1,                        1,                     0,                      (int)vc_split("poll",1,2), 0,              0,            1 }; execute(s); }
VC_PROOF(execute_get_throws) { const Scenario s =    { 0,     0,   0,    1,                        1,                     0,                      0,           (int)vc_split("get",1,2),      0,            1 }; execute(s); }
VC_PROOF(execute_rider_throws){ const Scenario s =   { 0,     0,   1,    1,                        1,                     0,                      0,           0,                        (int)vc_split("rider",1,2), 1 }; execute(s); }
