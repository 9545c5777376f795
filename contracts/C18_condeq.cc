// @property C18
// @sources MeqNodes/src/Condeq.cc MEQ/src/Function.cc MEQ/src/Node.cc DMI/src/HIID.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc TimBase/src/Exception.cc
// @libs meqnodes meq
// @option * nosummary=1
// @stub * _ZN3Meq6ResultC1Ei stub_res_ctor
// @stub * _ZN3Meq6ResultC1ERK10VariVector stub_res_dims
// @stub * _ZN3Meq6ResultD2Ev stub_result_dtor
// @stub * _ZNK3Meq6Result11numVellSetsEv stub_numvs
// @stub * _ZNK3Meq6Result7vellSetEi stub_vs
// @stub * _ZN3Meq6Result9vellSetWrEi stub_vswr
// @stub * _ZN3Meq6Result10setVellSetEiRKNS_7VellSetEi stub_setvs_r
// @stub * _ZN3Meq6Result10setVellSetEiPKNS_7VellSetEi stub_setvs_p
// @stub * _ZN3Meq6Result10setVellSetEiRKN3DMI10CountedRefINS_7VellSetEEEi stub_setvs_ref
// @stub * _ZN3Meq6Result10setVellSetEiRN3DMI10CountedRefINS_7VellSetEEEi stub_setvs_ref
// @stub * _ZN3Meq6Result13setNewVellSetEiii stub_newvs
// @stub * _ZNK3Meq6Result8numFailsEv num_resfails
// @stub * _ZN3Meq7VellSetC1Eii stub_vs_ctor
// @stub * _ZN3Meq7VellSetD2Ev num_vs_dtor
// @stub * _ZN3Meq7VellSet12setDataFlagsERKN3DMI10CountedRefINS_5VellsEEE stub_setflags
// @stub * _ZN3Meq7VellSet14clearDataFlagsEv num_clearflags
// @stub * _ZN3Meq7VellSet8setValueERN3DMI10CountedRefINS_5VellsEEEi num_setvalue
// @stub * _ZN3Meq7VellSet14setNumPertSetsEi num_setnpert
// @stub * _ZN3Meq7VellSet8setSpidsERKSt6vectorIiSaIiEE num_setspids
// @stub * _ZN3Meq7VellSet15setPerturbationEidi num_setpert
// @stub * _ZN3Meq7VellSet17setPerturbedValueEiRN3DMI10CountedRefINS_5VellsEEEii num_setpv
// @stub * _ZNK3Meq7VellSet17getPerturbedValueEii num_getpv
// @stub * _ZNK3Meq7VellSet8numFailsEv num_numfails
// @stub * _ZNK3Meq7VellSet7getFailEi num_getfail
// @stub * _ZN3Meq7VellSet7addFailERKN3DMI10CountedRefINS1_4BObjEEE num_addfail
// @stub * _ZN3Meq5Vells10mergeFlagsERN3DMI10CountedRefIS0_EERKS0_i stub_mergeflags
// @stub * _ZN3Meq5VellsC1Ev num_ctor
// @stub * _ZN3Meq5VellsC1Ed num_ctor_d
// @stub * _ZN3Meq5VellsC2Ed num_ctor_d
// @stub * _ZN3Meq5VellsC1ERKS0_ii num_copy
// @stub * _ZN3Meq5VellsaSERKS0_ num_assign
// @stub * _ZN3Meq5VellsD1Ev stub_vells_dtor
// @stub * _ZN3Meq5VellsD2Ev stub_vells_dtor
// @stub * _ZNK3Meq5Vells6isNullEv num_isnull
// @stub * _ZNK3Meq5Vells7isUnityEv num_isunity
// @stub * _ZN3Meq5Vells4NullEv num_null
// @stub * _ZN3Meq5Vells5UnityEv num_unity
// @stub * _ZNK3Meq5VellsplERKS0_ num_add
// @stub * _ZNK3Meq5VellsmiERKS0_ num_sub
// @stub * _ZNK3Meq5VellsmlERKS0_ num_mul
// @stub * _ZNK3Meq5VellsdvERKS0_ num_div
// @stub * _ZNK3Meq5VellsngEv num_neg
// @stub * _ZN3Meq5VellspLERKS0_ num_iadd
// @stub * _ZN3Meq5VellsmIERKS0_ num_isub
// @stub * _ZN3Meq5VellsmLERKS0_ num_imul
// @stub * _ZN3Meq5VellsdVERKS0_ num_idiv
// @stub * _ZNK3Meq5VellsanEi num_and
// @stub * _ZN3Meq9VellsMath9remainderERKNS_5VellsES3_ num_remainder
// @stub * _ZNK3Meq5Vells9isComplexEv num_iscomplex
// @stub * _ZN3Meq7VellSet14setDataWeightsERKN3DMI10CountedRefINS_5VellsEEE num_setweights
// @stub * _ZN3Meq5VellsoRERKS0_ num_ior
// @verifies condeq_planes;condeq_flags;condeq_shapes;condeq_params;condeq_two_params;condeq_sets;condeq_modulo Meq::Condeq::getResult; Meq::Condeq::calcDerivative
// @assume the setters and getters of VellSet and Result store and return what they are given; the operators of Vells compute what they say (proved as C15); values are real
#include "../contracts/nums.h"
#include <MeqNodes/TID-MeqNodes.h>
#include <MeqNodes/Condeq.h>
struct TCondeq : public Condeq {};
extern void *vt_con[] asm("_ZTV7TCondeq");
extern "C" __attribute__((used)) void emit_nodes () { new TCondeq; }
template<class T> static T & mknode (void **vt,int n)
{
  T *f = raw<T>(vt);
#ifdef VC_NATIVE
  f = new T;
#endif
  f->child_indices_.resize(n); f->children_.child_labels_.resize(n);
  for( int i=0; i<n; i++ ) f->children_.child_labels_[i] = HIID(AtomicID(i));
  return *f;
}
typedef std::vector<Result::Ref> Refs;
static In in[3][4];
static int nin[3];
// a child of the given dimensions (none: scalar) whose planes are in[c]
static void mkchild (Refs &refs,int c,int rank,int d0,int d1)
{
  LoShape *d = new LoShape; int n = 1;
  if( rank ) { d->resize(rank); (*d)[0] = d0; n = d0; if( rank > 1 ) { (*d)[1] = d1; n *= d1; } if( rank > 2 ) (*d)[2] = 1; }
  Result *r = mkplanes(n,rank ? d : 0);
#ifndef VC_NATIVE
  if( rank ) r->dims_ = *d;
#endif
  nin[c] = n;
  for( int i=0; i<n; i++ ) setplane(*r,i,mkin(in[c][i]));
  refs[c].attach(r);
}
static void value (In &x,const char *nm) { x.state = VALUE; x.x = vc_f64(nm); }
static const char *xn[2][4] = { {"a0","a1","a2","a3"},{"b0","b1","b2","b3"} };
static const char *fn[2][4] = { {"fa0","fa1","fa2","fa3"},{"fb0","fb1","fb2","fb3"} };
// a value with up to one parameter
static void param (In &x,int c,int i,int n,int np)
{
  static const char *sn[2][4] = { {"spida0","spida1","spida2","spida3"},{"spidb0","spidb1","spidb2","spidb3"} };
  static const char *pn[2][2][4] = { { {"pa0","pa1","pa2","pa3"},{"pb0","pb1","pb2","pb3"} },{ {"qa0","qa1","qa2","qa3"},{"qb0","qb1","qb2","qb3"} } };
  static const char *vn[2][2][4] = { { {"ua0","ua1","ua2","ua3"},{"ub0","ub1","ub2","ub3"} },{ {"va0","va1","va2","va3"},{"vb0","vb1","vb2","vb3"} } };
  value(x,xn[c][i]); x.n = n; x.np = n ? np : 0;
  if( n ) { x.spid[0] = vc_i32(sn[c][i]); vc_assume(x.spid[0] >= 0); }
  for( int ip=0; ip<x.np; ip++ ) { x.pert[ip][0] = vc_f64(pn[ip][c][i]); x.px[ip][0] = vc_f64(vn[ip][c][i]); }
}
static bool threw;
template<class T> static int run (T &f,Result::Ref &ref,const Refs &refs)
{ const Request &rq = *mkrequest(); threw = false; try { return f.getResult(ref,refs,rq,true); } catch( ... ) { threw = true; } return 0; }
static bool null (const In &x) { return x.state != VALUE || (!x.n && x.x == 0); }
// value of a plane when parameter s is perturbed (set ip)
static double at (const In &x,int s,int ip) { for( int i=0; i<x.n; i++ ) if( x.spid[i] == s && ip < x.np ) return x.px[ip][i]; return x.x; }
static int flagsof (const VellSet *vs) { return has_flags(vs) ? flags_of(vs) : 0; }
// do the planes agree about their perturbations?
static bool disagree (const In **x,int n)
{
  bool bad = false; int np = 0;
  for( int i=0; i<n; i++ ) if( x[i]->np > np ) np = x[i]->np;
  for( int i=0; i<n; i++ ) for( int s=0; s<x[i]->n; s++ )
  {
    bad |= x[i]->np != np;
    for( int j=0; j<i; j++ ) for( int t=0; t<x[j]->n; t++ ) for( int ip=0; ip<x[i]->np && ip<x[j]->np; ip++ )
      bad |= x[j]->spid[t] == x[i]->spid[s] && x[j]->pert[ip][t] != x[i]->pert[ip][s];
  }
  return bad;
}
// the parameters of a plane: those of any of the n planes x, in order, with their perturbations
static void check_params (const VellSet *vs,const In **x,int n)
{
  int np = 0, total = 0;
  for( int i=0; i<n; i++ ) { if( x[i]->np > np ) np = x[i]->np; total += x[i]->n; }
  int m = vs->numSpids(); bool ok = m <= total;
  for( int k=0; k<m; k++ )
  {
    ok = ok & (!k || vs->spids_[k-1] < vs->spids_[k]);
    bool f = false;
    for( int i=0; i<n; i++ ) for( int s=0; s<x[i]->n; s++ ) if( x[i]->spid[s] == vs->spids_[k] )
    { f = true; for( int ip=0; ip<np; ip++ ) ok = ok & (vs->pset_[ip].pert[k] == x[i]->pert[ip][s]); }
    ok = ok & f;
  }
  for( int i=0; i<n; i++ ) for( int s=0; s<x[i]->n; s++ ) { bool f = false; for( int k=0; k<m; k++ ) f |= vs->spids_[k] == x[i]->spid[s]; ok = ok & f; }
  vc_check(ok,"the parameters are those of the planes combined, each once and in order, with their perturbations");
  vc_check(!m || npsets_of(vs) == np,"as many perturbation sets as the planes combined");
}

static double modulo;
static double rem (double x)
{
#ifdef VC_NATIVE
  return modulo ? remainder(x,modulo) : x;
#else
  return modulo != 0 ? modulo_of(x) : x;
#endif
}
static double deriv (const In &x,int i) { return x.np == 1 ? rem(x.px[0][i] - x.x)/x.pert[0][i] : rem(x.px[0][i] - x.px[1][i])/(x.pert[0][i] - x.pert[1][i]); }
// children of n[0], n[1] and (if nch is 3) n[2] planes (0: no result, for the weights)
static TCondeq & setup (Refs &refs,int nch,const int *n)
{
  TCondeq &f = mknode<TCondeq>(vt_con,nch);
  f.modulo_ = modulo; f.is_modulo_ = modulo != 0;
  for( int c=0; c<nch; c++ ) if( n[c] ) mkchild(refs,c,n[c] > 1,n[c],1);
  return f;
}
static void check (const Result &r,int nch,const int *n)
{
  int np = n[0] > n[1] ? n[0] : n[1]; if( nch > 2 && n[2] > np ) np = n[2];
  vc_check(nplanes(r) == np && (np == 1 ? r.dims().size() == 0 : r.dims().size() == 1 && r.dims()[0] == np),"as many equations as planes of the children");
  for( int i=0; i<np; i++ )
  {
    const In &a = in[0][n[0] > 1 ? i : 0], &b = in[1][n[1] > 1 ? i : 0]; const VellSet *vs = plane(r,i);
    if( a.state != VALUE || b.state != VALUE ) { vc_check(!vs->isFail() && !vs->hasValue() && !vs->numSpids(),"no equation without data"); continue; }
    vc_check(!vs->isFail() && vs->hasValue() && same(value_of(vs),rem(b.x - a.x)),"the main value is the difference of the children");
    vc_check(flagsof(vs) == ((a.hasflags ? a.flags : 0) | (b.hasflags ? b.flags : 0)),"the flags are those of both children");
    int w = nch > 2 && n[2] ? n[2] > 1 ? i : 0 : -1; bool hw = w >= 0 && in[2][w].state == VALUE;
#ifdef VC_NATIVE
    vc_check(vs->hasDataWeights() == hw && (!hw || num(vs->dataWeights()) == in[2][w].x),"the weights are those of the same plane");
#else
    vc_check((vsinfo(vs).nweights == 1) == hw && (!hw || vsinfo(vs).weight == in[2][w].x),"the weights are those of the same plane");
#endif
    int total = a.n + b.n, m = vs->numSpids(); bool ok = m <= total, okd = true, okp = true;
    for( int k=0; k<m; k++ )
    {
      int s = vs->spids_[k]; ok = ok & (!k || vs->spids_[k-1] < s);
      double d = 0; bool f = false;
      for( int q=0; q<a.n; q++ ) if( a.spid[q] == s ) { f = true; d += deriv(a,q); }
      for( int q=0; q<b.n; q++ ) if( b.spid[q] == s ) { f = true; d -= deriv(b,q); }
      ok = ok & f;
      okd = okd & pvalue_set(vs,k,0) & same(pvalue_of(vs,k,0),d);
    }
    for( int q=0; q<a.n; q++ ) { bool f = false; for( int k=0; k<m; k++ ) f |= vs->spids_[k] == a.spid[q]; ok = ok & f; }
    for( int q=0; q<b.n; q++ ) { bool f = false; for( int k=0; k<m; k++ ) f |= vs->spids_[k] == b.spid[q]; ok = ok & f; }
    vc_check(ok,"the parameters of an equation are those of its children, each once and in order");
    vc_check(okd,"the perturbed values are the derivatives of the first child minus those of the second");
  }
}
static void nonsing (int c,int i) { In &x = in[c][i]; for( int q=0; q<x.n; q++ ) if( x.np == 1 ) vc_assume(x.pert[0][q] != 0); else vc_assume(x.pert[0][q] != x.pert[1][q]); }
VC_PROOF(condeq_planes)
{
  Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  int n[3] = { vc_split("n0",1,2),vc_split("n1",1,2),0 };
  for( int c=0; c<2; c++ ) for( int i=0; i<n[c]; i++ ) { value(in[c][i],xn[c][i]); in[c][i].state = vc_split("state",0,2); }
  TCondeq &f = setup(refs,2,n);
  int code = run(f,ref,refs);
  vc_check(!threw && !code && ref.valid(),"a result");
  check(*ref,2,n);
  vc_cover("equations");
}
VC_PROOF(condeq_shapes)
{
  int nch = vc_split("children",2,3); Refs &refs = *new Refs(nch); Result::Ref &ref = *new Result::Ref;
  int n[3] = { vc_split("n0",1,3),vc_split("n1",0,3),nch > 2 ? vc_split("n2",0,3) : 0 };
  for( int c=0; c<2; c++ ) for( int i=0; i<n[c]; i++ ) value(in[c][i],xn[c][i]);
  if( nch > 2 ) for( int i=0; i<n[2]; i++ ) { value(in[2][i],"w"); in[2][i].state = i == 1 ? MISSING : VALUE; }
  TCondeq &f = setup(refs,nch,n);
  int code = run(f,ref,refs);
  if( !n[1] ) { vc_check(!threw && code == Node::RES_MISSING,"missing data without a result of the second child"); return; }
  bool bad = false; for( int c=0; c<nch; c++ ) for( int d=0; d<c; d++ ) bad |= n[c] > 1 && n[d] > 1 && n[c] != n[d];
  vc_check(threw == bad,"tensor children must have the same dimensions");
  if( bad ) return;
  check(*ref,nch,n);
  vc_cover("equations");
}
VC_PROOF(condeq_flags)
{
  Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  int n[3] = { vc_split("n0",1,2),vc_split("n1",1,2),0 };
  for( int c=0; c<2; c++ ) for( int i=0; i<n[c]; i++ ) { value(in[c][i],xn[c][i]); if( (in[c][i].hasflags = vc_split("hasflags",0,1)) ) in[c][i].flags = vc_i32(fn[c][i]); }
  TCondeq &f = setup(refs,2,n);
  run(f,ref,refs);
  vc_check(!threw && ref.valid(),"a result");
  check(*ref,2,n);
  bool ok = true; for( int c=0; c<2; c++ ) for( int i=0; i<n[c]; i++ ) ok &= flagsof(in[c][i].vs) == (in[c][i].hasflags ? in[c][i].flags : 0);
  vc_check(ok,"the flags of the children are left as they were");
  vc_cover("equations");
}
static void params (int k,int p,int q,bool mod)
{
  Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  int n[3] = { 2,1,0 };
  if( mod ) { modulo = vc_f64("modulo"); vc_assume(modulo != 0); }
  param(in[0][0],0,0,k&1,p); param(in[0][1],0,1,k>>1&1,p); param(in[1][0],1,0,k>>2,q);
  for( int c=0; c<2; c++ ) for( int i=0; i<n[c]; i++ ) nonsing(c,i);
  TCondeq &f = setup(refs,2,n);
  run(f,ref,refs);
  vc_check(!threw && ref.valid(),"a result");
  check(*ref,2,n);
  vc_cover("equations");
}
VC_PROOF(condeq_params) { int k = vc_split("which",0,7); params(k,1,1,false); }
VC_PROOF(condeq_sets) { int p = vc_split("sets0",1,2), q = vc_split("sets1",1,2); params(7,p,q,false); }
VC_PROOF(condeq_modulo) { int p = vc_split("sets",1,2); params(5,p,p,true); }
VC_PROOF(condeq_two_params)
{
  Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref; int n[3] = { 1,1,0 };
  param(in[0][0],0,0,1,1); param(in[1][0],1,0,1,1);
  In &x = in[0][0]; x.n = 2; x.spid[1] = vc_i32("spid2"); x.pert[0][1] = vc_f64("p2"); x.px[0][1] = vc_f64("u2"); vc_assume(x.spid[1] > x.spid[0]);
  nonsing(0,0); nonsing(1,0);
  TCondeq &f = setup(refs,2,n);
  run(f,ref,refs);
  vc_check(!threw && ref.valid(),"a result");
  check(*ref,2,n);
  vc_cover("equations");
}
