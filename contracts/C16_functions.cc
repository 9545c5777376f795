// @property C16
// @sources MEQ/src/Function.cc MEQ/src/TensorFunction.cc MEQ/src/Axis.cc DMI/src/HIID.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc TimBase/src/Exception.cc
// @libs meq
// @option * nosummary=1
// @stub * _ZN12TestFunction8evaluateERKN3Meq7RequestERK10VariVectorRKSt6vectorIPKNS0_5VellsESaISA_EE stub_evaluate
// @stub * _ZN3Meq6ResultC1ERK10VariVector stub_result_dims
// @stub * _ZN3Meq6ResultD2Ev stub_result_dtor
// @stub * _ZNK3Meq6Result11numVellSetsEv stub_numvs
// @stub * _ZNK3Meq6Result7vellSetEi stub_vs
// @stub * _ZN3Meq6Result9vellSetWrEi stub_vswr
// @stub * _ZN3Meq6Result13setNewVellSetEiii stub_newvs
// @stub * _ZNK3Meq6Result15getVellSetShapeEv stub_vsshape
// @stub * _ZNK3Meq7VellSet17getPerturbedValueEii stub_pertvalue
// @stub * _ZNK3Meq7VellSet8numFailsEv stub_numfails
// @stub * _ZNK3Meq7VellSet7getFailEi stub_getfail
// @stub * _ZN3Meq7VellSet7addFailERKN3DMI10CountedRefINS1_4BObjEEE stub_addfail
// @stub * _ZN3Meq7VellSet7addFailERKSt9exception stub_adderror
// @stub * _ZN3Meq7VellSet14setNumPertSetsEi stub_setnpert
// @stub * _ZN3Meq7VellSet8setSpidsERKSt6vectorIiSaIiEE stub_setspids
// @stub * _ZN3Meq7VellSet8setValueERKNS_5VellsE stub_setvalue
// @stub * _ZN3Meq7VellSet15setPerturbationEidi stub_setpert
// @stub * _ZN3Meq7VellSet17setPerturbedValueEiRKNS_5VellsEi stub_setpertvalue
// @stub * _ZN3Meq7VellSet12setDataFlagsERKN3DMI10CountedRefINS_5VellsEEE stub_setflags
// @stub * _ZN3Meq5Vells10mergeFlagsERN3DMI10CountedRefIS0_EERKS0_i stub_mergeflags
// @stub * _ZNK3Meq5Vells6isNullEv stub_isnull
// @stub * _ZNK3Meq5Vells12isCompatibleERK10VariVector stub_compatible
// @stub * _ZN3Meq5VellsC1Ev stub_vells_ctor
// @stub * _ZN3Meq5VellsC1ERKS0_ii stub_vells_copy
// @stub * _ZN3Meq5VellsD1Ev stub_vells_dtor
// @stub * _ZN3Meq5VellsD2Ev stub_vells_dtor
// @stub * _ZNK3DMI13ExceptionList8makeListEv stub_makelist
// @stub * _ZN3DMI13ExceptionList3addERKSt9exception stub_eladd
// @stub * _ZN3DMI13ExceptionListC1Ev stub_elctor
// @stub * _ZN3DMI13ExceptionListD1Ev stub_eldtor
// @stub * _ZN3DMI13ExceptionListD2Ev stub_eldtor
// @stub * _ZN3DMI13ExceptionList3addERKN5LOFAR9ExceptionE stub_eladd2
// @stub * _ZNK5LOFAR9Exception4whatEv stub_what
// @stub * _ZN3Meq5VellsoRERKS0_ stub_or
// @stub * _ZN3Meq5VellsaSERKS0_ stub_assign
// @verifies spids_two Meq::Function::findSpids
// @verifies spids_three Meq::Function::findSpids
// @verifies one_set Meq::Function::getResult
// @verifies two_sets Meq::Function::getResult
// @verifies three_children Meq::Function::getResult
// @verifies unequal_sets Meq::Function::getResult
// @verifies planes Meq::Function::getResult
// @verifies dims Meq::Function::getResult
// @verifies flags Meq::Function::getResult; Meq::Function::evaluateFlags
// @verifies tensor_value Meq::TensorFunction::getResult; Meq::TensorFunction::computeTensorResult
// @verifies tensor_perts_a Meq::TensorFunction::computeTensorResult
// @verifies tensor_perts_b Meq::TensorFunction::computeTensorResult
// @verifies tensor_perts_c Meq::TensorFunction::computeTensorResult
// @verifies tensor_sets Meq::TensorFunction::getResult; Meq::TensorFunction::computeTensorResult
// @verifies tensor_flags Meq::TensorFunction::evaluateTensorFlags; Meq::TensorFunction::computeTensorResult
// @assume the setters and getters of VellSet and Result store and return what they are given; Vells::mergeFlags ors the masked flags (proved as C15)
#include "../contracts/node.h"
#include <MEQ/Function.h>
#include <MEQ/TensorFunction.h>
// a value is known by a number
static int n_eval;
static const int B = 64;
#ifdef VC_NATIVE
static int tag (const Vells &v) { return (int)v.as<double>(); }
static Vells mktagged (int t) { return Vells(double(t)); }
#else
static int tag (const Vells &v) { return v.itsElemSize; }
#endif
struct TestVells : public Vells {};
static int combine (const vector<const Vells*> &v) { int r = 0; for( unsigned i=0; i<v.size(); i++ ) r = r*B + (v[i] ? tag(*v[i]) : 0); return r; }
struct TestFunction : public TensorFunction
{
  TestFunction () : TensorFunction(0) {}
#ifdef VC_NATIVE
  virtual Vells evaluate (const Request &,const LoShape &,const vector<const Vells*> &v) { n_eval++; return mktagged(combine(v)); }
#else
  virtual Vells evaluate (const Request &,const LoShape &,const vector<const Vells*> &v);
#endif
  virtual LoShape getResultDims (const vector<const LoShape *> &) { LoShape s; s.resize(1); s[0] = 2; return s; }
  virtual void evaluateTensors (std::vector<Vells> &o,const std::vector<std::vector<const Vells *> > &args)
  {
    n_eval++;
    int r = 0; for( unsigned i=0; i<args.size(); i++ ) for( unsigned j=0; j<args[i].size(); j++ ) r = r*B + tag(*args[i][j]);
    vc_check(o.size() == 2,"room for the result of the tensor function");
    for( unsigned k=0; k<o.size(); k++ )
#ifdef VC_NATIVE
      o[k] = Vells(double(2*r+k));
#else
      o[k].itsElemSize = 2*r+k;
#endif
  }
};
#ifndef VC_NATIVE
Vells TestFunction::evaluate (const Request &,const LoShape &,const vector<const Vells*> &) { throw 1; }
#endif
extern void *vt_function[] asm("_ZTV12TestFunction");
extern "C" __attribute__((used)) void emit_vt_function () { new TestFunction; }
extern void *vt_tvells[] asm("_ZTV9TestVells");
extern "C" __attribute__((used)) void emit_vt_vells () { new TestVells; }
static Vells * mkvells (int t)
{
#ifdef VC_NATIVE
  return new Vells(double(t));
#else
  Vells *v = raw<TestVells>(vt_tvells); v->itsElemSize = t; return v;
#endif
}
static Vells * mkstale ()
{
#ifdef VC_NATIVE
  return new Vells(Vells::Shape(1),VellsFlagType(4096),true);
#else
  return mkvells(4096);
#endif
}
static const int MAXCH = 3, MAXSP = 3, MAXPL = 2;
enum { VALUE, FAIL, MISSING };
// one plane of a child
struct In
{
  VellSet *vs; Result *res; int state, n, np, spid[MAXSP], tag, ptag[2][MAXSP], flags; bool hasflags; double pert[2][MAXSP];
};
static In in[MAXCH][MAXPL];
static int nch, npl[MAXCH]; static bool tensor[MAXCH];
struct Out
{
  VellSet *vs; int nfails, nerr, np, nspid, value, nvalue, flags, nflags; int spid[8]; double pert[2][8]; int pval[2][8];
};
static Out out[MAXPL];
static Result *result; static int nout;
static In * find_in (const VellSet *vs) { for( int i=0; i<MAXCH; i++ ) for( int j=0; j<MAXPL; j++ ) if( in[i][j].vs == vs ) return &in[i][j]; return 0; }
static Out * find_out (const VellSet *vs) { for( int j=0; j<MAXPL; j++ ) if( out[j].vs == vs ) return &out[j]; return 0; }
extern "C" void stub_evaluate (Vells *r,TestFunction *,const Request &,const LoShape &,const vector<const Vells*> &v)
{ n_eval++; memset((void*)r,0,sizeof(Vells)); r->itsElemSize = combine(v); }
extern "C" void stub_vells_ctor (Vells *r) { memset((void*)r,0,sizeof(Vells)); }
extern "C" void stub_vells_copy (Vells *r,const Vells &v,int,int) { memset((void*)r,0,sizeof(Vells)); *reinterpret_cast<void***>(r) = vt_tvells + 2; r->itsElemSize = v.itsElemSize; }
extern "C" void stub_vells_dtor (Vells *) {}
extern "C" void stub_result_dims (Result *r,const LoShape &dims)
{
  stub_result_ctor(r,0); result = r; nout = 1; for( unsigned i=0; i<dims.size(); i++ ) nout *= dims[i];
}
extern "C" int stub_numvs (const Result *r)
{ if( r == result ) return nout; for( int i=0; i<nch; i++ ) if( in[i][0].res == r ) return npl[i]; vc_stub_requires(false,"a known result"); return 0; }
extern "C" const VellSet * stub_vs (const Result *r,int j)
{ for( int i=0; i<nch; i++ ) if( in[i][0].res == r ) { vc_stub_requires(j >= 0 && j < npl[i],"vellset number in range"); return in[i][j].vs; } vc_stub_requires(false,"a result of a child"); return 0; }
extern "C" VellSet * stub_vswr (Result *r,int j) { vc_stub_requires(r == result && j >= 0 && j < nout,"written vellset exists"); return out[j].vs; }
static VellSet * mkvs () { VellSet *vs = raw<VellSet>(0); return vs; }
extern "C" VellSet * stub_newvs (Result *r,int j,int n,int np)
{ vc_stub_requires(r == result && j >= 0 && j < nout && !n && !out[j].vs,"new vellset exists"); out[j].np = np; return out[j].vs = mkvs(); }
extern "C" void stub_vsshape (LoShape *s,const Result *) { memset((void*)s,0,sizeof(LoShape)); }
extern "C" const Vells * stub_pertvalue (const VellSet *vs,int i,int ip)
{
  In *p = find_in(vs); vc_stub_requires(p && p->state == VALUE && i >= 0 && i < p->n && ip >= 0 && ip < p->np,"the perturbed value exists");
  return mkvells(p->ptag[ip][i]);
}
extern "C" int stub_numfails (const VellSet *vs) { return 2; }
static const VellSet *got_from; static int got_no;
extern "C" void stub_getfail (ObjRef *r,const VellSet *vs,int i) { memset((void*)r,0,sizeof(ObjRef)); got_from = vs; got_no = i; }
static int fail_mask[MAXPL];
extern "C" void stub_addfail (VellSet *vs,const ObjRef &)
{
  Out *o = find_out(vs); vc_stub_requires(o != 0,"fails are added to the result"); vs->is_fail_ = true; o->nfails++;
  for( int i=0; i<MAXCH; i++ ) for( int j=0; j<MAXPL; j++ ) if( got_from && in[i][j].vs == got_from ) fail_mask[o-out] |= 1<<(2*i+got_no);
  got_from = 0;
}
extern "C" void stub_adderror (VellSet *vs,const std::exception &)
{ Out *o = find_out(vs); vc_stub_requires(o != 0,"fails are added to the result"); vs->is_fail_ = true; o->nerr++; }
extern "C" void stub_setnpert (VellSet *vs,int n) { Out *o = find_out(vs); vc_stub_requires(o != 0,"a vellset of the result"); o->np = n; }
extern "C" void stub_setspids (VellSet *vs,const std::vector<int> &s)
{ Out *o = find_out(vs); vc_stub_requires(o != 0,"a vellset of the result"); o->nspid = s.size(); for( unsigned i=0; i<s.size(); i++ ) o->spid[i] = s[i]; }
extern "C" Vells * stub_setvalue (VellSet *vs,const Vells &v) { Out *o = find_out(vs); vc_stub_requires(o != 0,"a vellset of the result"); o->value = tag(v); o->nvalue++; return 0; }
extern "C" void stub_setpert (VellSet *vs,int i,double x,int ip)
{ Out *o = find_out(vs); vc_stub_requires(o && i >= 0 && i < o->nspid && ip >= 0 && ip < o->np,"perturbation in range"); o->pert[ip][i] = x; }
extern "C" const Vells * stub_setpertvalue (VellSet *vs,int i,const Vells &v,int ip)
{ Out *o = find_out(vs); vc_stub_requires(o && i >= 0 && i < o->nspid && ip >= 0 && ip < o->np,"perturbed value in range"); o->pval[ip][i] = tag(v); return 0; }
extern "C" void stub_setflags (VellSet *vs,const Vells::Ref &f) { Out *o = find_out(vs); vc_stub_requires(o && f.valid(),"a vellset of the result"); o->flags = tag(*f); o->nflags++; }
extern "C" void stub_mergeflags (Vells::Ref &f,const Vells &g,int mask)
{ if( !mask ) return; int old = f.valid() ? tag(*f) : 0; f.detach(); f.attach(mkvells(old | (tag(g)&mask))); }
extern "C" Vells * stub_or (Vells *v,const Vells &w) { v->itsElemSize |= w.itsElemSize; return v; }
extern "C" Vells * stub_assign (Vells *v,const Vells &w) { v->itsElemSize = w.itsElemSize; return v; }
extern "C" bool stub_isnull (const Vells *) { return false; }
extern "C" bool stub_compatible (const Vells *,const LoShape &) { return true; }
extern "C" void stub_makelist (ObjRef *r,const DMI::ExceptionList *) { memset((void*)r,0,sizeof(ObjRef)); }
extern "C" void stub_eladd (DMI::ExceptionList *,const std::exception &) {}
extern "C" void stub_elctor (DMI::ExceptionList *) {}
extern "C" void stub_eldtor (DMI::ExceptionList *) {}
extern "C" void stub_eladd2 (DMI::ExceptionList *,const LOFAR::Exception &) {}
extern "C" const char * stub_what (const std::exception *) { return "error"; }

// a vellset of a child with n parameters in np sets
static void mkin (int c,int j,int state,int n,int np)
{
  In &x = in[c][j]; x.state = state; x.n = state == VALUE ? n : 0; x.np = np;
  static const char *nm[MAXCH][MAXPL] = {{"a0","a1"},{"b0","b1"},{"c0","c1"}};
  std::string s = nm[c][j];
  static const char *spn[MAXCH][MAXPL][MAXSP] = {{{"spid_a00","spid_a01","spid_a02"},{"spid_a10","spid_a11","spid_a12"}},{{"spid_b00","spid_b01","spid_b02"},{"spid_b10","spid_b11","spid_b12"}},{{"spid_c00","spid_c01","spid_c02"},{"spid_c10","spid_c11","spid_c12"}}};
  static const char *pn[MAXCH][MAXPL][2][MAXSP] = {{{{"pert_a000","pert_a001","pert_a002"},{"pert_a010","pert_a011","pert_a012"}},{{"pert_a100","pert_a101","pert_a102"},{"pert_a110","pert_a111","pert_a112"}}},
    {{{"pert_b000","pert_b001","pert_b002"},{"pert_b010","pert_b011","pert_b012"}},{{"pert_b100","pert_b101","pert_b102"},{"pert_b110","pert_b111","pert_b112"}}},
    {{{"pert_c000","pert_c001","pert_c002"},{"pert_c010","pert_c011","pert_c012"}},{{"pert_c100","pert_c101","pert_c102"},{"pert_c110","pert_c111","pert_c112"}}}};
  for( int i=0; i<x.n; i++ )
  {
    x.spid[i] = vc_i32(spn[c][j][i]); vc_assume(x.spid[i] >= 0 && (!i || x.spid[i] > x.spid[i-1]));
    for( int ip=0; ip<np; ip++ ) { x.pert[ip][i] = vc_f64(pn[c][j][ip][i]); x.ptag[ip][i] = 2+20*j+2*i+ip; }
  }
  x.tag = 1+20*j;
#ifdef VC_NATIVE
  x.vs = new VellSet(0,np);
  if( state == VALUE )
  {
    x.vs->setValue(new Vells(double(x.tag)));
    if( np ) x.vs->setNumPertSets(np);
    x.vs->setSpids(vector<int>(x.spid,x.spid+x.n));
    for( int i=0; i<x.n; i++ ) for( int ip=0; ip<np; ip++ ) { x.vs->setPerturbation(i,x.pert[ip][i],ip); x.vs->setPerturbedValue(i,new Vells(double(x.ptag[ip][i])),ip); }
  }
  else if( state == FAIL )
  {
    DMI::ExceptionList l; l.add(LOFAR::Exception(s+"-0")); l.add(LOFAR::Exception(s+"-1")); x.vs->addFail(ObjRef(l.makeList()));
  }
#else
  x.vs = mkvs(); VellSet &vs = *x.vs;
  vs.is_fail_ = state == FAIL; vs.numspids_ = x.n; vs.spids_ = x.spid;
  vs.pset_.resize(np); for( int ip=0; ip<np; ip++ ) vs.pset_[ip].pert = x.pert[ip];
  if( state == VALUE ) { vs.pvalue_ = new Vells::Ref; vs.pvalue_->attach(mkvells(x.tag)); }
#endif
}
static void setflags (In &x,int f)
{
  x.hasflags = true; x.flags = f;
#ifdef VC_NATIVE
  x.vs->setDataFlags(new Vells(Vells::Shape(1),VellsFlagType(f),true));
#else
  x.vs->pflags_ = new Vells::Ref; x.vs->pflags_->attach(mkvells(f));
#endif
}
// result of child c, of its planes made before
static void mkchild (std::vector<Result::Ref> &res,int c,int planes,bool tens)
{
  npl[c] = planes; tensor[c] = tens;
#ifdef VC_NATIVE
  Result *r = new Result(planes);
  for( int j=0; j<planes; j++ ) r->setVellSet(j,in[c][j].vs);
#else
  Result *r = mkresult(); new (&r->dims_) LoShape; if( tens ) { r->dims_.resize(1); r->dims_[0] = planes; }
#endif
  for( int j=0; j<MAXPL; j++ ) in[c][j].res = r;
  res[c].attach(r);
}
static TestFunction * mkfunction (int n)
{
  nch = n;
  TestFunction *f = raw<TestFunction>(vt_function);
#ifdef VC_NATIVE
  f = new TestFunction;
#endif
  f->child_indices_.resize(n); f->children_.child_labels_.resize(n);
  for( int i=0; i<n; i++ ) f->children_.child_labels_[i] = HIID(AtomicID(i));
  return f;
}
// reads the result back
static void collect (const Result::Ref &ref)
{
#ifdef VC_NATIVE
  const Result &r = *ref; nout = r.numVellSets();
  for( int j=0; j<nout; j++ )
  {
    const VellSet &vs = r.vellSet(j); Out &o = out[j]; o.vs = const_cast<VellSet*>(&vs);
    if( vs.isFail() )
    {
      for( int k=0; k<vs.numFails(); k++ )
      {
        std::string m = vs.getFailMessage(k); bool known = false;
        for( int i=0; i<nch; i++ ) for( int f=0; f<2; f++ )
          if( m.find(std::string(1,char('a'+i))+char('0'+(tensor[i]?j:0))+"-"+char('0'+f)) != std::string::npos ) { known = true; o.nfails++; fail_mask[j] |= 1<<(2*i+f); }
        if( !known ) o.nerr++;
      }
      continue;
    }
    if( vs.hasValue() ) { o.nvalue = 1; o.value = tag(vs.getValue()); }
    o.np = vs.numPertSets(); o.nspid = vs.numSpids();
    for( int i=0; i<o.nspid; i++ )
    {
      o.spid[i] = vs.getSpid(i);
      for( int ip=0; ip<o.np; ip++ ) { o.pert[ip][i] = vs.getPerturbation(i,ip); o.pval[ip][i] = tag(vs.getPerturbedValue(i,ip)); }
    }
    if( vs.hasDataFlags() ) { o.nflags = 1; o.flags = vs.dataFlags().getScalar<VellsFlagType>(); }
  }
#endif
}
static int find_spid (const In &x,int s) { for( int i=0; i<x.n; i++ ) if( x.spid[i] == s ) return i; return -1; }
// ---- findSpids
static void find_spids (int n,int nmax0,int nmax1,int nmax2)
{
  int nm[3] = { nmax0,nmax1,nmax2 };
  nch = n;
  vector<const VellSet*> v(n); int np = 0;
  for( int c=0; c<n; c++ )
  {
    if( nm[c] < 0 ) { v[c] = 0; in[c][0].n = 0; continue; }
    int k = nm[c], p = vc_split("psets",0,2);
    mkin(c,0,VALUE,k,p ? p : 0); np = p > np ? p : np;
    v[c] = in[c][0].vs;
  }
  int npertsets = -1;
  int total = 0; for( int c=0; c<n; c++ ) total += in[c][0].n;
  vector<int> s = Function::findSpids(npertsets,v);
  if( total ) vc_check(npertsets == np,"the number of perturbation sets is the largest of any child");
  else vc_check(npertsets == 0 || s.empty(),"without parameters nothing is perturbed");
  for( unsigned i=1; i<s.size(); i++ ) vc_check(s[i-1] < s[i],"parameters are in increasing order, each once");
  for( int c=0; c<n; c++ ) for( int i=0; i<in[c][0].n; i++ )
  {
    bool f = false; for( unsigned k=0; k<s.size(); k++ ) f |= s[k] == in[c][0].spid[i];
    vc_check(f,"every parameter of a child is a parameter of the result");
  }
  for( unsigned k=0; k<s.size(); k++ )
  {
    bool f = false; for( int c=0; c<n; c++ ) for( int i=0; i<in[c][0].n; i++ ) f |= s[k] == in[c][0].spid[i];
    vc_check(f,"every parameter of the result is one of a child");
  }
  vc_cover("findSpids returns");
}
VC_PROOF(spids_two) { int a = vc_split("n0",0,3), b = vc_split("n1",0,3); find_spids(2,a,b,-1); }
VC_PROOF(spids_three) { find_spids(3,vc_split("n0",-1,1),vc_split("n1",-1,2),vc_split("n2",-1,1)); }
static void check_plane (int j,const int *w)   // plane j, all children have values; w: 1 if the child takes part
{
  Out &o = out[j];
  // the perturbations of a parameter must be the same and complete in all children
  bool bad = false; int np = 0;
  for( int a=0; a<nch; a++ ) if( w[a] ) { const In &x = in[a][tensor[a]?j:0]; if( x.np > np ) np = x.np; }
  for( int a=0; a<nch; a++ ) if( w[a] )
  {
    const In &x = in[a][tensor[a]?j:0];
    for( int i=0; i<x.n; i++ )
    {
      bad |= x.np < np;
      for( int b=0; b<a; b++ ) if( w[b] )
      {
        const In &y = in[b][tensor[b]?j:0]; 
        for( int k=0; k<y.n; k++ ) if( y.spid[k] == x.spid[i] ) for( int ip=0; ip<x.np && ip<y.np; ip++ ) bad |= x.pert[ip][i] != y.pert[ip][k];
      }
    }
  }
  if( bad ) { vc_check(o.vs->is_fail_ && o.nerr == 1,"inconsistent perturbations give a fail"); return; }
  vc_check(!o.vs->is_fail_ && o.nvalue == 1,"the plane has a value");
  int v = 0; for( int a=0; a<nch; a++ ) v = v*B + (w[a] ? in[a][tensor[a]?j:0].tag : 0);
  vc_check(o.value == v,"the value is the function of the values of the children");
  for( int i=1; i<o.nspid; i++ ) vc_check(o.spid[i-1] < o.spid[i],"parameters are in increasing order, each once");
  for( int a=0; a<nch; a++ ) if( w[a] )
  {
    const In &x = in[a][tensor[a]?j:0];
    for( int i=0; i<x.n; i++ ) { bool f = false; for( int k=0; k<o.nspid; k++ ) f |= o.spid[k] == x.spid[i]; vc_check(f,"every parameter of a child is a parameter of the result"); }
  }
  for( int k=0; k<o.nspid; k++ )
  {
    vc_check(o.np == np,"as many perturbation sets as the children have");
    for( int ip=0; ip<np; ip++ )
    {
      int pv = 0; bool any = false, okp = true;
      for( int a=0; a<nch; a++ )
      {
        const In &x = in[a][tensor[a]?j:0]; int i = w[a] ? find_spid(x,o.spid[k]) : -1;
        pv = pv*B + (!w[a] ? 0 : i >= 0 ? x.ptag[ip][i] : x.tag);
        if( i >= 0 ) { any = true; okp = okp & (x.pert[ip][i] == o.pert[ip][k]); }
      }
      vc_check(any,"every parameter of the result is one of a child");
      vc_check(okp,"the perturbation is the one of the children");
      vc_check(o.pval[ip][k] == pv,"the perturbed value is the function of the perturbed values of the children that depend on the parameter and of the main values of the others");
    }
  }
}
static Request * g_req;
static int run (TestFunction &f,Result::Ref &ref,const std::vector<Result::Ref> &res)
{
  int code = f.Function::getResult(ref,res,*mkrequest(),false);
  vc_check(ref.valid(),"a result is returned");
  collect(ref);
  return code;
}
static void perts (int n,int k0,int k1,int k2,int p0,int p1,int p2)
{
  TestFunction &f = *mkfunction(n);
  int k[3] = { k0,k1,k2 }, p[3] = { p0,p1,p2 }; static const int w[3] = { 1,1,1 };
  std::vector<Result::Ref> &res = *new std::vector<Result::Ref>(n);
  for( int c=0; c<n; c++ ) { mkin(c,0,VALUE,k[c],p[c]); mkchild(res,c,1,false); }
  Result::Ref &ref = *new Result::Ref;
  int code = run(f,ref,res);
  check_plane(0,w);
  vc_check(code == (out[0].vs->is_fail_ ? Node::RES_FAIL : 0),"the code is that of a fail exactly when the only plane is a fail");
}
VC_PROOF(one_set) { int a = vc_split("n0",0,2), b = vc_split("n1",0,2); perts(2,a,b,0,1,1,1); }
VC_PROOF(two_sets) { int a = vc_split("n0",0,1), b = vc_split("n1",0,2); perts(2,a,b,0,2,2,2); }
VC_PROOF(three_children) { perts(3,1,vc_split("n1",0,1),vc_split("n2",0,1),1,1,1); }
VC_PROOF(unequal_sets) { int a = vc_split("p0",1,2), b = vc_split("p1",1,2); perts(2,1,1,0,a,b,0); }
// several planes, with fails and missing data
VC_PROOF(planes)
{
  TestFunction &f = *mkfunction(2);
  std::vector<Result::Ref> &res = *new std::vector<Result::Ref>(2);
  bool allow = vc_bool("allow_missing"); f.allow_missing_data_ = allow;
  bool t0 = vc_split("tensor0",0,1), t1 = vc_split("tensor1",0,1);
  int n0 = t0 ? 2 : 1, n1 = t1 ? 2 : 1;
  for( int j=0; j<n0; j++ ) mkin(0,j,vc_split("state0",0,2),0,1);
  for( int j=0; j<n1; j++ ) mkin(1,j,vc_split("state1",0,2),0,1);
  mkchild(res,0,n0,t0); mkchild(res,1,n1,t1);
  int planes = t0 || t1 ? 2 : 1;
  Result::Ref &ref = *new Result::Ref;
  int code = run(f,ref,res);
  vc_check(nout == planes,"the result has the dimensions of the children");
  int nfail = 0, nmiss = 0;
  for( int j=0; j<planes; j++ )
  {
    const In &a = in[0][t0?j:0], &b = in[1][t1?j:0]; Out &o = out[j];
    int mask = (a.state == FAIL ? 3 : 0) | (b.state == FAIL ? 12 : 0);
    if( mask )
    {
      nfail++;
      vc_check(o.vs->is_fail_ && fail_mask[j] == mask && o.nfails == (mask == 15 ? 4 : 2) && !o.nerr,"a plane that failed in some child is a fail with all the fails of the children");
      continue;
    }
    vc_check(!o.vs->is_fail_ && !o.nfails && !o.nerr,"a plane that failed in no child is no fail");
    bool am = a.state == MISSING, bm = b.state == MISSING;
    if( (am & bm) || ((am | bm) & !allow) ) { nmiss++; vc_check(!o.nvalue,"a plane for which data are missing has no value"); continue; }
    int w[2] = { !am, !bm };
    check_plane(j,w);
  }
  vc_check(((code&Node::RES_FAIL) != 0) == (nfail == planes),"the code is a fail exactly when all planes are fails");
  vc_check(((code&Node::RES_MISSING) != 0) == (nmiss == planes),"data are reported missing exactly when no plane has any");
  vc_check((code&~(Node::RES_FAIL|Node::RES_MISSING)) == 0,"no dependencies are added");
}
VC_PROOF(dims)
{
  TestFunction &f = *mkfunction(2);
  std::vector<Result::Ref> &res = *new std::vector<Result::Ref>(2);
  // two tensors of different dimensions cannot be combined
  int empty = vc_split("empty",0,2);
  mkin(0,0,VALUE,0,1); mkin(0,1,VALUE,0,1); mkin(1,0,VALUE,0,1);
  mkchild(res,0,empty == 1 ? 0 : 2,true); mkchild(res,1,empty == 2 ? 0 : 1,true);
#ifdef VC_NATIVE
  vc_assume(false);
#endif
  Result::Ref &ref = *new Result::Ref; bool thrown = false;
  try { f.Function::getResult(ref,res,*mkrequest(),false); } catch( std::exception & ) { thrown = true; }
  vc_check(thrown,"children without data or with different dimensions are an error");
}
VC_PROOF(flags)
{
  TestFunction &f = *mkfunction(2);
  std::vector<Result::Ref> &res = *new std::vector<Result::Ref>(2);
  int m[2] = { vc_i32("mask0"), vc_i32("mask1") };
  bool given = vc_split("masks",0,1);
  if( given ) { f.flagmask_.resize(2); for( int c=0; c<2; c++ ) f.flagmask_[c] = m[c]; }
  else m[0] = m[1] = -1;
  int want = 0; bool any = false;
  static const char *fn[2] = { "flags0","flags1" };
  for( int c=0; c<2; c++ )
  {
    mkin(c,0,VALUE,0,1);
    if( vc_split("flagged",0,1) ) { setflags(in[c][0],vc_i32(fn[c])); want |= in[c][0].flags & m[c]; any |= m[c] != 0; }
    mkchild(res,c,1,false);
  }
  Result::Ref &ref = *new Result::Ref;
  int code = run(f,ref,res);
  Out &o = out[0];
  vc_check(code == 0 && !o.vs->is_fail_ && o.nvalue == 1,"the plane has a value");
  if( any ) vc_check(o.nflags == 1 && o.flags == want,"the flags are those of the children under the masks");
  else vc_check(!o.nflags,"no flags without flags");
}
// what an earlier evaluation, with other children, may have left in the buffers of the function
static void stale (TestFunction &f)
{
  int s0 = vc_i32("stale0"), s1 = vc_i32("stale1"); vc_assume(s0 >= 0 && s0 <= 3 && s1 >= 0 && s1 <= 3);
  f.index_vector_.resize(3); for( int i=0; i<3; i++ ) { f.index_vector_[i].resize(i ? 1 : 3,s0); f.index_vector_[i][0] = s1; }
  f.flag_vector_.resize(1); f.flag_vector_[0].attach(mkstale());
  f.mainval_vector_.resize(1); f.mainval_vector_[0].resize(3,mkvells(63)); f.pert_vectors_.resize(1,f.mainval_vector_);
  f.pvs_vector_.resize(3); f.pvs_all_.resize(4,in[0][0].vs);
}
// tensor functions: a tensor of two planes and a scalar give a tensor of two planes
static bool thrown;
static void tensor_run (TestFunction &f,Result::Ref &ref,const std::vector<Result::Ref> &res)
{
  thrown = false; int code = -1;
  stale(f);
  try { code = f.TensorFunction::getResult(ref,res,*mkrequest(),false); } catch( std::exception & ) { thrown = true; }
  if( thrown ) return;
  vc_check(code == 0 && ref.valid(),"a result is returned");
  collect(ref);
  vc_check(nout == 2,"the result has the dimensions that the function asks for");
}
static void tensor_fn (int k0,int k1,int k2,int p0,int p1,int p2)
{
  TestFunction &f = *mkfunction(2); f.flagmask_.resize(2); f.flagmask_[0] = f.flagmask_[1] = -1;
  std::vector<Result::Ref> &res = *new std::vector<Result::Ref>(2);
  mkin(0,0,VALUE,k0,p0); mkin(0,1,VALUE,k1,p1); mkin(1,0,VALUE,k2,p2);
  mkchild(res,0,2,true); mkchild(res,1,1,false);
  Result::Ref &ref = *new Result::Ref;
  tensor_run(f,ref,res);
  In *x[3] = { &in[0][0],&in[0][1],&in[1][0] };
  bool bad = false; int np = 0;
  for( int a=0; a<3; a++ ) if( x[a]->np > np ) np = x[a]->np;
  for( int a=0; a<3; a++ ) for( int i=0; i<x[a]->n; i++ )
  {
    bad |= x[a]->np < np;
    for( int b=0; b<a; b++ ) for( int k=0; k<x[b]->n; k++ ) if( x[b]->spid[k] == x[a]->spid[i] )
      for( int ip=0; ip<x[a]->np && ip<x[b]->np; ip++ ) bad |= x[a]->pert[ip][i] != x[b]->pert[ip][k];
  }
  vc_check(thrown == bad,"inconsistent perturbations, and only those, are an error");
  if( thrown ) return;
  int v = 0; for( int a=0; a<3; a++ ) v = v*B + x[a]->tag;
  for( int j=0; j<2; j++ )
  {
    Out &o = out[j];
    vc_check(o.nvalue == 1 && o.value == 2*v+j,"the value is the function of the values of the children");
    vc_check(!o.nflags,"no flags without flags");
    vc_check(o.nspid == out[0].nspid,"all planes depend on the same parameters");
    for( int i=1; i<o.nspid; i++ ) vc_check(o.spid[i-1] < o.spid[i],"parameters are in increasing order, each once");
    for( int a=0; a<3; a++ ) for( int i=0; i<x[a]->n; i++ )
    { bool f = false; for( int k=0; k<o.nspid; k++ ) f |= o.spid[k] == x[a]->spid[i]; vc_check(f,"every parameter of a child is a parameter of the result"); }
    for( int k=0; k<o.nspid; k++ )
    {
      vc_check(o.np == np,"as many perturbation sets as the children have");
      for( int ip=0; ip<np; ip++ )
      {
        int pv = 0; bool any = false, okp = true;
        for( int a=0; a<3; a++ )
        {
          int i = find_spid(*x[a],o.spid[k]);
          pv = pv*B + (i >= 0 ? x[a]->ptag[ip][i] : x[a]->tag);
          if( i >= 0 ) { any = true; okp = okp & (x[a]->pert[ip][i] == o.pert[ip][k]); }
        }
        vc_check(any,"every parameter of the result is one of a child");
        vc_check(okp,"the perturbation is the one of the children");
        vc_check(o.pval[ip][k] == 2*pv+j,"the perturbed value is the function of the perturbed values that depend on the parameter and of the main values of the others");
      }
    }
  }
}
VC_PROOF(tensor_value) { tensor_fn(0,0,0,1,1,1); }
VC_PROOF(tensor_perts_a) { tensor_fn(0,vc_split("n1",0,2),vc_split("n2",0,1),1,1,1); }
VC_PROOF(tensor_perts_b) { tensor_fn(1,vc_split("n1",0,1),vc_split("n2",0,1),1,1,1); }
VC_PROOF(tensor_perts_c) { tensor_fn(1,2,0,1,1,1); }
VC_PROOF(tensor_sets) { int a = vc_split("p0",1,2), b = vc_split("p1",1,2); tensor_fn(1,vc_split("n1",0,1),1,a,b,2); }
VC_PROOF(tensor_flags)
{
  TestFunction &f = *mkfunction(2); f.flagmask_.resize(2);
  int m[2] = { vc_i32("mask0"), vc_i32("mask1") }; for( int c=0; c<2; c++ ) f.flagmask_[c] = m[c];
  std::vector<Result::Ref> &res = *new std::vector<Result::Ref>(2);
  mkin(0,0,VALUE,0,1); mkin(0,1,VALUE,0,1); mkin(1,0,VALUE,0,1);
  mkchild(res,0,2,true); mkchild(res,1,1,false);
  In *x[3] = { &in[0][0],&in[0][1],&in[1][0] }; static const char *fn[3] = { "flags0","flags1","flags2" };
  int want = 0; bool any = false;
  for( int a=0; a<3; a++ ) if( vc_split("flagged",0,1) )
  { setflags(*x[a],vc_i32(fn[a])); int k = m[a/2]; want |= x[a]->flags & k; any |= k != 0; }
  Result::Ref &ref = *new Result::Ref;
  tensor_run(f,ref,res);
  vc_check(!thrown,"flags can be merged");
  for( int j=0; j<2; j++ )
    if( any ) vc_check(out[j].nflags == 1 && out[j].flags == want,"all planes get the flags of all planes of the children under the masks");
    else vc_check(!out[j].nflags,"no flags without flags");
}
