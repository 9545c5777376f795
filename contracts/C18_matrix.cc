// @property C18
// @sources MeqNodes/src/MatrixMultiply.cc MeqNodes/src/MatrixInvert22.cc MEQ/src/Function.cc MEQ/src/Node.cc DMI/src/HIID.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc TimBase/src/Exception.cc
// @libs meqnodes meq
// @option * nosummary=1
// @stub * _ZN3Meq6ResultC1Ei stub_res_ctor
// @stub * _ZN3Meq6ResultC1ERK10VariVector stub_res_dims
// @stub * _ZN3Meq6ResultD2Ev stub_result_dtor
// @stub * _ZNK3Meq6Result11numVellSetsEv stub_numvs
// @stub * _ZNK3Meq6Result7vellSetEi stub_vs
// @stub * _ZN3Meq6Result9vellSetWrEi stub_vswr
// @stub * _ZN3Meq6Result10setVellSetEiRKNS_7VellSetEi stub_setvs_r
// @stub * _ZN3Meq6Result10setVellSetEiPKNS_7VellSetEi stub_setvs_p
// @stub * _ZN3Meq6Result10setVellSetEiRKN3DMI10CountedRefINS_7VellSetEEEi stub_setvs_ref
// @stub * _ZN3Meq6Result10setVellSetEiRN3DMI10CountedRefINS_7VellSetEEEi stub_setvs_ref
// @stub * _ZN3Meq6Result13setNewVellSetEiii stub_newvs
// @stub * _ZNK3Meq6Result8numFailsEv num_resfails
// @stub * _ZN3Meq7VellSetC1Eii stub_vs_ctor
// @stub * _ZN3Meq7VellSetD2Ev num_vs_dtor
// @stub * _ZN3Meq7VellSet12setDataFlagsERKN3DMI10CountedRefINS_5VellsEEE stub_setflags
// @stub * _ZN3Meq7VellSet14clearDataFlagsEv num_clearflags
// @stub * _ZN3Meq7VellSet8setValueERN3DMI10CountedRefINS_5VellsEEEi num_setvalue
// @stub * _ZN3Meq7VellSet14setNumPertSetsEi num_setnpert
// @stub * _ZN3Meq7VellSet8setSpidsERKSt6vectorIiSaIiEE num_setspids
// @stub * _ZN3Meq7VellSet15setPerturbationEidi num_setpert
// @stub * _ZN3Meq7VellSet17setPerturbedValueEiRN3DMI10CountedRefINS_5VellsEEEii num_setpv
// @stub * _ZNK3Meq7VellSet17getPerturbedValueEii num_getpv
// @stub * _ZNK3Meq7VellSet8numFailsEv num_numfails
// @stub * _ZNK3Meq7VellSet7getFailEi num_getfail
// @stub * _ZN3Meq7VellSet7addFailERKN3DMI10CountedRefINS1_4BObjEEE num_addfail
// @stub * _ZN3Meq5Vells10mergeFlagsERN3DMI10CountedRefIS0_EERKS0_i stub_mergeflags
// @stub * _ZN3Meq5VellsC1Ev num_ctor
// @stub * _ZN3Meq5VellsC1Ed num_ctor_d
// @stub * _ZN3Meq5VellsC2Ed num_ctor_d
// @stub * _ZN3Meq5VellsC1ERKS0_ii num_copy
// @stub * _ZN3Meq5VellsaSERKS0_ num_assign
// @stub * _ZN3Meq5VellsD1Ev stub_vells_dtor
// @stub * _ZN3Meq5VellsD2Ev stub_vells_dtor
// @stub * _ZNK3Meq5Vells6isNullEv num_isnull
// @stub * _ZNK3Meq5Vells7isUnityEv num_isunity
// @stub * _ZN3Meq5Vells4NullEv num_null
// @stub * _ZN3Meq5Vells5UnityEv num_unity
// @stub * _ZNK3Meq5VellsplERKS0_ num_add
// @stub * _ZNK3Meq5VellsmiERKS0_ num_sub
// @stub * _ZNK3Meq5VellsmlERKS0_ num_mul
// @stub * _ZNK3Meq5VellsdvERKS0_ num_div
// @stub * _ZNK3Meq5VellsngEv num_neg
// @stub * _ZN3Meq5VellspLERKS0_ num_iadd
// @stub * _ZN3Meq5VellsmIERKS0_ num_isub
// @stub * _ZN3Meq5VellsmLERKS0_ num_imul
// @stub * _ZN3Meq5VellsdVERKS0_ num_idiv
// @stub * _ZNK3Meq5VellsanEi num_and
// @verifies mm_dims;mm_ranks;mm_states;mm_flags;mm_nulls;mm_perts1;mm_perts2;mm_pertsets Meq::MatrixMultiply::getResult
// @verifies sm_states;sm_flags0;sm_flags1;sm_flags2;sm_perts1;sm_perts2;sm_pertsets;sm_unity_perts Meq::MatrixMultiply::scalarMultiply
// @verifies inv_flags;inv_perts1;inv_perts2;inv_pertsets;inv_states;inv_scalar Meq::MatrixInvert22::getResult
// @assume the setters and getters of VellSet and Result store and return what they are given; the operators of Vells compute what they say (proved as C15); Vells::mergeFlags ors the masked flags (proved as C15)
#include "../contracts/nums.h"
#include <MeqNodes/TID-MeqNodes.h>
#include <MeqNodes/MatrixMultiply.h>
#include <MeqNodes/MatrixInvert22.h>
struct TMultiply : public MatrixMultiply {};
struct TInvert : public MatrixInvert22 {};
extern void *vt_mul[] asm("_ZTV9TMultiply");
extern void *vt_inv[] asm("_ZTV7TInvert");
extern "C" __attribute__((used)) void emit_nodes () { new TMultiply; new TInvert; }
template<class T> static T & mknode (void **vt,int n)
{
  T *f = raw<T>(vt);
#ifdef VC_NATIVE
  f = new T;
#endif
  f->child_indices_.resize(n); f->children_.child_labels_.resize(n);
  for( int i=0; i<n; i++ ) f->children_.child_labels_[i] = HIID(AtomicID(i));
  return *f;
}
typedef std::vector<Result::Ref> Refs;
static In in[2][4];
static int nin[2];
// a child of the given dimensions (none: scalar) whose planes are in[c]
static void mkchild (Refs &refs,int c,int rank,int d0,int d1)
{
  LoShape *d = new LoShape; int n = 1;
  if( rank ) { d->resize(rank); (*d)[0] = d0; n = d0; if( rank > 1 ) { (*d)[1] = d1; n *= d1; } if( rank > 2 ) (*d)[2] = 1; }
  Result *r = mkplanes(n,rank ? d : 0);
#ifndef VC_NATIVE
  if( rank ) r->dims_ = *d;
#endif
  nin[c] = n;
  for( int i=0; i<n; i++ ) setplane(*r,i,mkin(in[c][i]));
  refs[c].attach(r);
}
static void value (In &x,const char *nm) { x.state = VALUE; x.x = vc_f64(nm); }
static const char *xn[2][4] = { {"a0","a1","a2","a3"},{"b0","b1","b2","b3"} };
static const char *fn[2][4] = { {"fa0","fa1","fa2","fa3"},{"fb0","fb1","fb2","fb3"} };
// a value with up to one parameter
static void param (In &x,int c,int i,int n,int np)
{
  static const char *sn[2][4] = { {"spida0","spida1","spida2","spida3"},{"spidb0","spidb1","spidb2","spidb3"} };
  static const char *pn[2][2][4] = { { {"pa0","pa1","pa2","pa3"},{"pb0","pb1","pb2","pb3"} },{ {"qa0","qa1","qa2","qa3"},{"qb0","qb1","qb2","qb3"} } };
  static const char *vn[2][2][4] = { { {"ua0","ua1","ua2","ua3"},{"ub0","ub1","ub2","ub3"} },{ {"va0","va1","va2","va3"},{"vb0","vb1","vb2","vb3"} } };
  value(x,xn[c][i]); x.n = n; x.np = n ? np : 0;
  if( n ) { x.spid[0] = vc_i32(sn[c][i]); vc_assume(x.spid[0] >= 0); }
  for( int ip=0; ip<x.np; ip++ ) { x.pert[ip][0] = vc_f64(pn[ip][c][i]); x.px[ip][0] = vc_f64(vn[ip][c][i]); }
}
static bool threw;
template<class T> static int run (T &f,Result::Ref &ref,const Refs &refs)
{ const Request &rq = *mkrequest(); threw = false; try { return f.getResult(ref,refs,rq,true); } catch( ... ) { threw = true; } return 0; }
static bool null (const In &x) { return x.state != VALUE || (!x.n && x.x == 0); }
// value of a plane when parameter s is perturbed (set ip)
static double at (const In &x,int s,int ip) { for( int i=0; i<x.n; i++ ) if( x.spid[i] == s && ip < x.np ) return x.px[ip][i]; return x.x; }
static int flagsof (const VellSet *vs) { return has_flags(vs) ? flags_of(vs) : 0; }
// do the planes agree about their perturbations?
static bool disagree (const In **x,int n)
{
  bool bad = false; int np = 0;
  for( int i=0; i<n; i++ ) if( x[i]->np > np ) np = x[i]->np;
  for( int i=0; i<n; i++ ) for( int s=0; s<x[i]->n; s++ )
  {
    bad |= x[i]->np != np;
    for( int j=0; j<i; j++ ) for( int t=0; t<x[j]->n; t++ ) for( int ip=0; ip<x[i]->np && ip<x[j]->np; ip++ )
      bad |= x[j]->spid[t] == x[i]->spid[s] && x[j]->pert[ip][t] != x[i]->pert[ip][s];
  }
  return bad;
}
// the parameters of a plane: those of any of the n planes x, in order, with their perturbations
static void check_params (const VellSet *vs,const In **x,int n)
{
  int np = 0, total = 0;
  for( int i=0; i<n; i++ ) { if( x[i]->np > np ) np = x[i]->np; total += x[i]->n; }
  int m = vs->numSpids(); bool ok = m <= total;
  for( int k=0; k<m; k++ )
  {
    ok = ok & (!k || vs->spids_[k-1] < vs->spids_[k]);
    bool f = false;
    for( int i=0; i<n; i++ ) for( int s=0; s<x[i]->n; s++ ) if( x[i]->spid[s] == vs->spids_[k] )
    { f = true; for( int ip=0; ip<np; ip++ ) ok = ok & (vs->pset_[ip].pert[k] == x[i]->pert[ip][s]); }
    ok = ok & f;
  }
  for( int i=0; i<n; i++ ) for( int s=0; s<x[i]->n; s++ ) { bool f = false; for( int k=0; k<m; k++ ) f |= vs->spids_[k] == x[i]->spid[s]; ok = ok & f; }
  vc_check(ok,"the parameters are those of the planes combined, each once and in order, with their perturbations");
  vc_check(!m || npsets_of(vs) == np,"as many perturbation sets as the planes combined");
}
// plane vs is the sum of products of n pairs
static void check_sum (const VellSet *vs,const In **a,const In **b,int n,int ma,int mb)
{
  int nfails = 0, flags = 0; double sum = 0;
  const In *x[4];
  for( int j=0; j<n; j++ )
  {
    x[2*j] = a[j]; x[2*j+1] = b[j];
    nfails += 2*((a[j]->state == FAIL) + (b[j]->state == FAIL));
    if( a[j]->state == VALUE && b[j]->state == VALUE ) sum += a[j]->x*b[j]->x;
    if( !null(*a[j]) && !null(*b[j]) ) flags |= (a[j]->hasflags ? a[j]->flags & ma : 0) | (b[j]->hasflags ? b[j]->flags & mb : 0);
  }
  if( nfails ) { vc_check(vs->isFail() && fails_of(vs) == nfails,"a plane computed from failed planes holds all their fails"); return; }
  vc_check(!vs->isFail() && vs->hasValue(),"a plane computed from good planes has a value");
  vc_check(same(value_of(vs),sum),"element of the matrix product");
  vc_check(flagsof(vs) == flags,"the flags are those of the elements combined");
  check_params(vs,x,2*n);
  bool ok = true;
  for( int k=0; k<vs->numSpids(); k++ ) for( int ip=0; ip<npsets_of(vs); ip++ )
  {
    double s = 0; int sp = vs->spids_[k];
    for( int j=0; j<n; j++ ) if( a[j]->state == VALUE && b[j]->state == VALUE ) s += at(*a[j],sp,ip)*at(*b[j],sp,ip);
    ok = ok & pvalue_set(vs,k,ip) & same(pvalue_of(vs,k,ip),s);
  }
  vc_check(ok,"a perturbed element is computed from the perturbed values of its parameter");
}
static const char *snm[3] = { "s0","s1","s2" };
VC_PROOF(mm_dims)
{
  TMultiply &f = mknode<TMultiply>(vt_mul,2); Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  int ra = vc_split("ranka",1,2), rb = vc_split("rankb",1,2);
  int a0 = vc_split("a_rows",1,2), a1 = ra == 2 ? vc_split("a_cols",1,2) : 1, b0 = vc_split("b_rows",1,2), b1 = rb == 2 ? vc_split("b_cols",1,2) : 1;
  vc_assume(a0*a1 > 1 && b0*b1 > 1);
  for( int i=0; i<a0*a1; i++ ) value(in[0][i],xn[0][i]);
  for( int i=0; i<b0*b1; i++ ) value(in[1][i],xn[1][i]);
  mkchild(refs,0,ra,a0,a1); mkchild(refs,1,rb,b0,b1);
  int code = run(f,ref,refs);
  vc_check(threw == (a1 != b0),"matrices can be multiplied exactly when the columns of the first are as many as the rows of the second");
  if( threw ) return;
  vc_check(code == 0 && ref.valid() && nplanes(*ref) == a0*b1,"the product has the rows of the first and the columns of the second matrix");
  const LoShape &d = ref->dims();
  if( b1 == 1 ) vc_check(a0 == 1 ? d.size() == 0 : d.size() == 1 && d[0] == a0,"the product by a column is a column");
  else vc_check(d.size() == 2 && d[0] == a0 && d[1] == b1,"dimensions of the product");
  for( int i=0; i<a0; i++ ) for( int k=0; k<b1; k++ )
  {
    const In *a[2], *b[2]; for( int j=0; j<a1; j++ ) { a[j] = &in[0][i*a1+j]; b[j] = &in[1][j*b1+k]; }
    check_sum(plane(*ref,i*b1+k),a,b,a1,-1,-1);
  }
  vc_cover("product");
}
VC_PROOF(mm_ranks)
{
  TMultiply &f = mknode<TMultiply>(vt_mul,2); Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  int ra = vc_split("ranka",0,3), rb = vc_split("rankb",0,3);
  vc_assume(ra == 3 || rb == 3);
  for( int c=0; c<2; c++ ) for( int i=0; i<2; i++ ) value(in[c][i],xn[c][i]);
  mkchild(refs,0,ra,ra == 2 ? 1 : 2,ra == 2 ? 2 : 1); mkchild(refs,1,rb,2,1);
  run(f,ref,refs);
  vc_check(threw,"tensors of higher rank are refused");
}
static void mm_row (Refs &refs) { mkchild(refs,0,2,1,2); mkchild(refs,1,1,2,1); }
static void check_row (const Result &r,int mb)
{
  const In *a[2] = { &in[0][0],&in[0][1] }, *b[2] = { &in[1][0],&in[1][1] };
  vc_check(nplanes(r) == 1,"a row by a column is a scalar");
  check_sum(plane(r,0),a,b,2,-1,mb);
}
VC_PROOF(mm_states)
{
  TMultiply &f = mknode<TMultiply>(vt_mul,2); Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  bool fail = false;
  for( int c=0; c<2; c++ ) for( int i=0; i<2; i++ ) { value(in[c][i],xn[c][i]); in[c][i].state = vc_split("state",0,2); fail |= in[c][i].state == FAIL; }
  mm_row(refs);
  int code = run(f,ref,refs);
  vc_check(!threw && ref.valid(),"a result");
  vc_check(code == (fail ? Node::RES_FAIL : 0),"the product is a fail exactly when all its planes are");
  check_row(*ref,-1);
  vc_cover("row");
}
static void mm_flags (bool m,int has,int isnull)
{
  TMultiply &f = mknode<TMultiply>(vt_mul,2); Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  int mask = vc_i32("mask0"), mask1 = vc_i32("mask1");
  if( m ) { f.flagmask_.resize(2); f.flagmask_[0] = mask; f.flagmask_[1] = mask1; }
  for( int c=0; c<2; c++ ) for( int i=0; i<2; i++ )
  {
    if( isnull == 2*c+i ) { in[c][i].state = VALUE; in[c][i].x = 0; } else { value(in[c][i],xn[c][i]); vc_assume(in[c][i].x != 0); }
    if( (in[c][i].hasflags = has>>(2*c+i) & 1) ) in[c][i].flags = vc_i32(fn[c][i]);
  }
  mm_row(refs);
  run(f,ref,refs);
  vc_check(!threw && ref.valid(),"a result");
  if( m ) for( int i=0; i<2; i++ ) in[0][i].flags &= mask;
  check_row(*ref,m ? mask1 : -1);
  vc_cover("row");
}
VC_PROOF(mm_flags) { bool m = vc_split("masks",0,1); int has = vc_split("hasflags",0,15); mm_flags(m,has,-1); }
VC_PROOF(mm_nulls) { int n = vc_split("isnull",0,3); mm_flags(true,15,n); }
static void mm_perts (int n0,int n1,int n2,int n3,int np0,int np1,int order = -1)
{
  TMultiply &f = mknode<TMultiply>(vt_mul,2); Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  param(in[0][0],0,0,n0,np0); param(in[0][1],0,1,n1,np0); param(in[1][0],1,0,n2,np1); param(in[1][1],1,1,n3,np1);
  if( order >= 0 ) { in[0][0].spid[0] = 5; in[1][n3].spid[0] = 4+order; }
  mm_row(refs);
  run(f,ref,refs);
  const In *x[4] = { &in[0][0],&in[1][0],&in[0][1],&in[1][1] };
  vc_check(threw == disagree(x,4),"planes that disagree about a perturbation cannot be combined");
  if( threw ) return;
  check_row(*ref,-1);
  vc_cover("row");
}
VC_PROOF(mm_perts2) { int k = vc_split("which",0,5); static const int w[6] = { 3,5,9,6,10,12 }; mm_perts(w[k]&1,w[k]>>1&1,w[k]>>2&1,w[k]>>3&1,1,1); }
VC_PROOF(mm_perts1) { int k = vc_split("which",0,3); mm_perts(k==0,k==1,k==2,k==3,1,1); }
VC_PROOF(mm_pertsets) { int p = vc_split("sets0",1,2), q = vc_split("sets1",1,2); int k = vc_split("which",0,1); int o = vc_split("order",0,2); mm_perts(1,0,k==0,k==1,p,q,o); }
// ---- scalar by tensor: in[0][0] is the scalar, in[1] the tensor of two planes; the order of the children is split
static void sm (bool first,bool m,int masks,int maskt)
{
  TMultiply &f = mknode<TMultiply>(vt_mul,2); Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  Refs &two = *new Refs(2);
  mkchild(two,0,0,1,1); mkchild(two,1,1,2,1);
  if( first ) { refs[0].attach(two[0].deref()); refs[1].attach(two[1].deref()); } else { refs[0].attach(two[1].deref()); refs[1].attach(two[0].deref()); }
  if( m ) { f.flagmask_.resize(2); f.flagmask_[!first] = masks; f.flagmask_[first] = maskt; }
  int code = run(f,ref,refs);
  const In &s = in[0][0];
  bool bad = false;
  if( s.state == VALUE ) for( int i=0; i<2; i++ ) { const In *x[2] = { &in[1][i],&s }; bad |= in[1][i].state == VALUE && disagree(x,2); }
  vc_check(threw == bad,"planes that disagree about a perturbation cannot be combined");
  if( threw ) return;
  vc_check(ref.valid(),"a result");
  const Result &r = *ref;
  if( s.state != VALUE || (null(s)) )
  {
    // a scalar fail, missing scalar or null
    vc_check(nplanes(r) == 1 || nplanes(r) == 2,"a result");
    for( int i=0; i<nplanes(r); i++ )
    {
      const VellSet *vs = plane(r,i);
      if( s.state == FAIL ) vc_check(vs->isFail(),"the product by a fail is a fail");
      else if( s.state == MISSING ) vc_check(!vs->isFail() && !vs->hasValue(),"the product by missing data is missing");
      else vc_check(nplanes(r) == 2 || (vs->hasValue() && value_of(vs) == 0 && !vs->numSpids() && !flagsof(vs)),"the product by a null is a null without flags");
    }
    vc_check(s.state != FAIL || code == Node::RES_FAIL,"the product is a fail when all its planes are");
    return;
  }
  vc_check(nplanes(r) == 2 && r.dims().size() == 1 && r.dims()[0] == 2,"a scalar by a tensor is a tensor of the same shape");
  int nf = 0;
  for( int i=0; i<2; i++ )
  {
    const In &t = in[1][i]; const VellSet *vs = plane(r,i);
    if( t.state == FAIL ) { nf++; vc_check(vs->isFail() && fails_of(vs) == 2,"a failed plane stays a fail"); continue; }
    if( t.state == MISSING ) { vc_check(!vs->isFail() && !vs->hasValue(),"a missing plane stays missing"); continue; }
    vc_check(!vs->isFail() && vs->hasValue() && same(value_of(vs),t.x*s.x),"a plane is the product of the scalar and the plane");
    if( !null(t) ) vc_check(flagsof(vs) == ((s.hasflags ? s.flags & masks : 0) | (t.hasflags ? t.flags & maskt : 0)),"the flags are those of the scalar and the plane under the masks");
    const In *x[2] = { &t,&s };
    check_params(vs,x,2);
    bool ok = true;
    for( int k=0; k<vs->numSpids(); k++ ) for( int ip=0; ip<npsets_of(vs); ip++ ) ok = ok & same(pvalue_of(vs,k,ip),at(t,vs->spids_[k],ip)*at(s,vs->spids_[k],ip));
    vc_check(ok,"a perturbed plane is computed from the perturbed values of its parameter");
  }
  vc_check(code == (nf == 2 ? Node::RES_FAIL : 0),"the product is a fail exactly when all its planes are");
  bool ok = true;
  for( int i=0; i<2; i++ ) if( in[1][i].state == VALUE ) ok = ok & same(value_of(in[1][i].vs),in[1][i].x) & (flagsof(in[1][i].vs) == (in[1][i].hasflags ? in[1][i].flags : 0));
  vc_check(ok & (nplanes(two[1].deref()) == 2) & (plane(two[1].deref(),0) == in[1][0].vs) & (plane(two[1].deref(),1) == in[1][1].vs),"the children are left as they were");
  vc_cover("product");
}
VC_PROOF(sm_states)
{
  bool first = vc_split("scalar_first",0,1);
  value(in[0][0],"s"); in[0][0].state = vc_split("state_s",0,2); vc_assume(in[0][0].x != 0);
  for( int i=0; i<2; i++ ) { value(in[1][i],xn[1][i]); in[1][i].state = vc_split("state",0,2); vc_assume(in[1][i].x != 0); }
  sm(first,false,-1,-1);
}
// scalar null, unity or anything
static void scalar (int k) { value(in[0][0],"s"); if( k < 2 ) in[0][0].x = k; else vc_assume(in[0][0].x != 0 && in[0][0].x != 1); }
static void sm_flags (int k)
{
  bool first = vc_split("scalar_first",0,1); int has = vc_split("hasflags",0,3);
  scalar(k);
  for( int i=0; i<2; i++ ) { value(in[1][i],xn[1][i]); if( i ) vc_assume(in[1][i].x != 0); else in[1][i].x = vc_split("isnull",0,1) ? 0 : 2; }
  if( has&1 ) { in[0][0].hasflags = true; in[0][0].flags = vc_i32("fs"); }
  if( has&2 ) for( int i=0; i<2; i++ ) { in[1][i].hasflags = true; in[1][i].flags = vc_i32(fn[1][i]); }
  int ms = vc_i32("mask_s"), mt = vc_i32("mask_t"); bool m = vc_split("masks",0,1);
  if( m ) { if( vc_split("mask_s_zero",0,1) ) ms = 0; else vc_assume(ms != 0 && ms != -1); if( vc_split("mask_t_zero",0,1) ) mt = 0; else vc_assume(mt != 0 && mt != -1); }
  sm(first,m,m ? ms : -1,m ? mt : -1);
}
VC_PROOF(sm_flags0) { sm_flags(0); }
VC_PROOF(sm_flags1) { sm_flags(1); }
VC_PROOF(sm_flags2) { sm_flags(2); }
static void sm_perts (bool first,int k,int p,int q)
{
  param(in[0][0],0,0,k != 0,p); param(in[1][0],1,0,k != 1,q); param(in[1][1],1,1,k > 1,q);
  vc_assume(in[0][0].x != 0 && in[1][0].x != 0 && in[1][1].x != 0);
  sm(first,false,-1,-1);
}
VC_PROOF(sm_perts1) { bool first = vc_split("scalar_first",0,1); int k = vc_split("which",0,1); sm_perts(first,k,1,1); }
VC_PROOF(sm_perts2) { bool first = vc_split("scalar_first",0,1); sm_perts(first,2,1,1); }
VC_PROOF(sm_pertsets) { int p = vc_split("sets_s",1,2), q = vc_split("sets_t",1,2); sm_perts(true,2,p,q); }
VC_PROOF(sm_unity_perts)
{
  bool first = vc_split("scalar_first",0,1); int k = vc_split("which",0,1);
  param(in[0][0],0,0,k,1); in[0][0].x = vc_split("s",0,1); param(in[1][0],1,0,1,1); param(in[1][1],1,1,0,1);
  vc_assume(in[1][0].x != 0 && in[1][1].x != 0);
  sm(first,false,-1,-1);
}

// ---- inverse
static double inv_elem (int i,const double *a) { double det = a[0]*a[3]-a[1]*a[2]; switch( i ) { case 0: return a[3]*(1/det); case 1: return -a[1]*(1/det); case 2: return -a[2]*(1/det); default: return a[0]*(1/det); } }
static void inv (Result::Ref &ref,bool m,int mask,bool perts)
{
  TInvert &f = mknode<TInvert>(vt_inv,1); Refs &refs = *new Refs(1);
  if( m ) { f.flagmask_.resize(1); f.flagmask_[0] = mask; }
  mkchild(refs,0,2,2,2);
  int nf = 0, flags = 0; double a[4]; const In *x[4];
  for( int i=0; i<4; i++ ) { x[i] = &in[0][i]; nf += x[i]->state == FAIL; a[i] = x[i]->state == VALUE ? x[i]->x : 0; if( x[i]->state == VALUE && x[i]->hasflags ) flags |= x[i]->flags & mask; }
  bool bad = !nf && disagree(x,4);
  if( !nf ) vc_assume(a[0]*a[3] - a[1]*a[2] != 0);
  int code = run(f,ref,refs);
  vc_check(threw == bad,"planes that disagree about a perturbation cannot be combined");
  if( threw ) return;
  vc_check(ref.valid() && (code == Node::RES_FAIL) == (nf > 0),"the inverse is a fail exactly when some element is");
  if( nf ) { vc_check(nplanes(*ref) == 1 && plane(*ref,0)->isFail() && fails_of(plane(*ref,0)) == 2*nf,"a failed inverse holds the fails of all elements"); return; }
  vc_check(nplanes(*ref) == 4 && ref->dims().size() == 2 && ref->dims()[0] == 2 && ref->dims()[1] == 2,"the inverse has the shape of the matrix");
  for( int i=0; i<4; i++ )
  {
    const VellSet *vs = plane(*ref,i);
    vc_check(!vs->isFail() && vs->hasValue() && same(value_of(vs),inv_elem(i,a)),"element of the inverse");
    vc_check(flagsof(vs) == flags,"all elements of the inverse carry the flags of all elements");
    if( perts ) check_params(vs,x,4); else vc_check(!vs->numSpids(),"no parameters");
  }
  if( perts )
  {
    bool ok = true; const VellSet *vs = plane(*ref,0);
    for( int k=0; k<vs->numSpids(); k++ ) for( int ip=0; ip<npsets_of(vs); ip++ )
    {
      double b[4]; for( int i=0; i<4; i++ ) b[i] = x[i]->state == VALUE ? at(*x[i],vs->spids_[k],ip) : 0;
      bool sing = b[0]*b[3] - b[1]*b[2] == 0;
      for( int i=0; i<4; i++ ) { const VellSet *v = plane(*ref,i); ok = ok & pvalue_set(v,k,ip) & (sing | same(pvalue_of(v,k,ip),inv_elem(i,b))); }
    }
    vc_check(ok,"the perturbed inverse is the inverse of the perturbed matrix");
  }
  bool ok = true; for( int i=0; i<4; i++ ) ok &= plane(refs[0].deref(),i) == in[0][i].vs && (in[0][i].state != VALUE || same(value_of(in[0][i].vs),in[0][i].x));
  vc_check(ok,"the matrix is left as it was");
  vc_cover("inverse");
}
VC_PROOF(inv_states)
{
  for( int i=0; i<4; i++ ) { value(in[0][i],xn[0][i]); in[0][i].state = vc_split("state",0,2); }
  inv(*new Result::Ref,false,-1,false);
}
VC_PROOF(inv_flags)
{
  int mask = vc_i32("mask"); bool m = vc_split("masks",0,1);
  for( int i=0; i<4; i++ ) { value(in[0][i],xn[0][i]); if( (in[0][i].hasflags = vc_split("hasflags",0,1)) ) in[0][i].flags = vc_i32(fn[0][i]); }
  inv(*new Result::Ref,m,m ? mask : -1,false);
}
VC_PROOF(inv_perts1)
{
  int k = vc_split("which",0,3), p = vc_split("sets",1,2);
  for( int i=0; i<4; i++ ) param(in[0][i],0,i,i == k,p);
  inv(*new Result::Ref,false,-1,true);
}
static void inv_perts2 (int a,int b,int p)
{
  int o = vc_split("order",0,2);
  for( int i=0; i<4; i++ ) param(in[0][i],0,i,i == a || i == b,p);
  in[0][a].spid[0] = 5; in[0][b].spid[0] = 4+o;
  inv(*new Result::Ref,false,-1,true);
}
VC_PROOF(inv_perts2) { int k = vc_split("which",0,5); static const int a[6] = { 0,0,0,1,1,2 }, b[6] = { 1,2,3,2,3,3 }; inv_perts2(a[k],b[k],1); }
VC_PROOF(inv_pertsets) { inv_perts2(0,1,2); }
VC_PROOF(inv_scalar)
{
  TInvert &f = mknode<TInvert>(vt_inv,1); Refs &refs = *new Refs(1); Result::Ref &ref = *new Result::Ref;
  int n = vc_split("n",0,1), p = vc_split("sets",1,2);
  param(in[0][0],0,0,n,p); vc_assume(in[0][0].x != 0); for( int ip=0; n && ip<p; ip++ ) vc_assume(in[0][0].px[ip][0] != 0);
  in[0][0].state = vc_split("state",0,2);
  mkchild(refs,0,0,1,1);
  int code = run(f,ref,refs); const In &x = in[0][0];
  vc_check(!threw && ref.valid() && nplanes(*ref) == 1 && (code == Node::RES_FAIL) == (x.state == FAIL),"the inverse of a scalar is a scalar");
  const VellSet *vs = plane(*ref,0);
  if( x.state == FAIL ) { vc_check(vs->isFail(),"a fail stays a fail"); return; }
  if( x.state == MISSING ) { vc_check(!vs->isFail() && !vs->hasValue(),"missing data stays missing"); return; }
  vc_check(same(value_of(vs),1/x.x),"the inverse of a scalar");
  const In *xp = &x; check_params(vs,&xp,1);
  for( int ip=0; n && ip<p; ip++ ) vc_check(same(pvalue_of(vs,0,ip),1/x.px[ip][0]),"perturbed inverses are the inverses of the perturbed values");
  vc_check(plane(refs[0].deref(),0) == x.vs && same(value_of(x.vs),x.x),"the child is left as it was");
  vc_cover("inverse");
}
