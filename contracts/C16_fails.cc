// @property C16
// @sources MEQ/src/VellSet.cc MEQ/src/Result.cc DMI/src/Record.cc DMI/src/HIID.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc
// @libs meq
// @option * nosummary=1
// @stub * _ZN3DMI6Record5clearEv stub_clear
// @stub * _ZN3DMI6Record11removeFieldERKNS_4HIIDEbi stub_remove
// @stub * _ZN3DMI6Record3addERKNS_4HIIDEPKNS_4BObjEi stub_add_const
// @stub * _ZN3DMI6Record3addERKNS_4HIIDEPNS_4BObjEi stub_add
// @stub * _ZN3DMI9ContainerixERKNS_4HIIDE stub_index
// @stub * _ZNK3DMI9Container4Hook6as_wpoINS_4ListEEEPT_RiN4Loki9Type2TypeIS4_EE stub_as_list
// @stub * _ZN3DMI9Container4HookD2Ev stub_hookdtor
// @stub * _ZN3DMI4ListC1Ev stub_list
// @stub * _ZN3DMI4List6appendERKS0_i stub_append
// @stub * _ZN3DMI4List7addBackERKNS_10CountedRefINS_4BObjEEEi stub_addback
// @verifies add_fail Meq::VellSet::addFail; Meq::VellSet::clear
// @assume the list of fails is the only field of a failed vellset; DMI::Record and DMI::List store what they are given
#include "../contracts/node.h"
#include <DMI/List.h>
#include <DMI/Exception.h>
// a list and the number of its elements
struct TestList : public DMI::List { virtual TypeId objectType () const { return TpDMIList; } };
extern void *vt_list[] asm("_ZTV8TestList");
extern "C" __attribute__((used)) void emit_vt_list () { new TestList; }
static const BObj *given, *field, *made; static int ngiven, nfield; static int cleared;
extern "C" void stub_clear (DMI::Record *) { field = 0; nfield = 0; cleared++; }
extern "C" void stub_remove (ObjRef *r,DMI::Record *,const HIID &,bool,int) { memset((void*)r,0,sizeof(ObjRef)); }
extern "C" void stub_add_const (DMI::Record *,const HIID &,const BObj *p,int)
{ vc_stub_requires(!field,"there is no list of fails yet"); vc_stub_requires(p == given,"the list that was given"); field = p; nfield = ngiven; }
extern "C" void stub_add (DMI::Record *,const HIID &,BObj *p,int)
{ vc_stub_requires(!field,"there is no list of fails yet"); vc_stub_requires(p == made || p == given,"a list"); field = p; nfield = p == given ? ngiven : 0; }
extern "C" void stub_index (void *hook,void *,const HIID &) { memset(hook,0,sizeof(DMI::Container::Hook)); }
extern "C" void stub_hookdtor (void *) {}
extern "C" const BObj * stub_as_list (const void *,int &) { return field; }
extern "C" void stub_list (DMI::List *p) { made = p; }
extern "C" void stub_append (DMI::List *p,const DMI::List &q,int) { vc_stub_requires(p == field && &q == given,"appends to the list of fails"); nfield += ngiven; }
extern "C" void stub_addback (DMI::List *p,const ObjRef &r,int) { vc_stub_requires(p == field && r.valid() && &*r == given,"appends to the list of fails"); nfield++; }
VC_PROOF(add_fail)
{
  bool fail = vc_split("is_fail",0,1), list = vc_split("list",0,1);
  int n = fail ? (int)vc_split("fails",1,3) : 0, m = list ? (int)vc_split("given",1,2) : 1;
#ifdef VC_NATIVE
  VellSet &vs = *new VellSet(0,1);
  if( fail ) for( int i=0; i<n; i++ ) { vs.addFail(LOFAR::Exception("old")); }
  else { vs.setValue(new Vells(1.)); vs.setDataWeights(new Vells(1.)); vector<int> s(2); s[0] = 1; s[1] = 2; vs.setSpids(s); }
  ObjRef r;
  if( list ) { DMI::List *l = new DMI::List; for( int i=0; i<m; i++ ) l->addBack(exceptionToObj(LOFAR::Exception("new"))); r <<= l; }
  else r = exceptionToObj(LOFAR::Exception("new"));
#else
  VellSet &vs = *raw<VellSet>(0);
  vs.is_fail_ = fail;
  if( fail ) { field = raw<TestList>(vt_list); nfield = n; }
  else
  {
    vs.pvalue_ = new Vells::Ref; vs.pflags_ = new Vells::Ref; vs.pweights_ = new Vells::Ref;
    vs.numspids_ = 2; vs.spids_ = new int[2]; vs.pset_.resize(vc_split("psets",0,2)); vs.shape_.resize(1);
  }
  ObjRef &r = *new ObjRef;
  if( list ) { ngiven = m; given = raw<TestList>(vt_list); } else given = mkresult();
  r.attach(const_cast<BObj*>(given));
#endif
  vs.addFail(r);
  vc_check(vs.isFail(),"the vellset is a fail");
#ifdef VC_NATIVE
  nfield = vs.numFails();
#endif
  vc_check(nfield == n + m,"the fails are those added before and the new ones");
  vc_check(!vs.hasValue() && !vs.numSpids() && !vs.numPertSets() && !vs.hasDataFlags() && !vs.hasDataWeights() && !vs.hasShape(),"a fail has no data");
}
