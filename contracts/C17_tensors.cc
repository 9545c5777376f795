// @property C17
// @sources MeqNodes/src/Selector.cc MeqNodes/src/Composer.cc MeqNodes/src/Paster.cc MeqNodes/src/Transpose.cc MeqNodes/src/Stripper.cc MeqNodes/src/MergeFlags.cc MEQ/src/Node.cc DMI/src/HIID.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc TimBase/src/Exception.cc
// @libs meqnodes meq
// @option * nosummary=1
// @stub * _ZN3Meq6ResultC1Ei stub_res_ctor
// @stub * _ZN3Meq6ResultC1ERK10VariVector stub_res_dims
// @stub * _ZN3Meq6ResultD2Ev stub_result_dtor
// @stub * _ZNK3Meq6Result11numVellSetsEv stub_numvs
// @stub * _ZNK3Meq6Result7vellSetEi stub_vs
// @stub * _ZN3Meq6Result9vellSetWrEi stub_vswr
// @stub * _ZN3Meq6Result7setDimsERK10VariVector stub_setdims
// @stub * _ZN3Meq6Result10setVellSetEiRKNS_7VellSetEi stub_setvs_r
// @stub * _ZN3Meq6Result10setVellSetEiPKNS_7VellSetEi stub_setvs_p
// @stub * _ZN3Meq6Result10setVellSetEiRKN3DMI10CountedRefINS_7VellSetEEEi stub_setvs_ref
// @stub * _ZN3Meq6Result13setNewVellSetEiii stub_newvs
// @stub * _ZN3Meq6Result11verifyShapeEb stub_verify
// @stub * _ZN3Meq6Result8setCellsEPKNS_5CellsEib stub_setcells
// @stub * _ZN3Meq7VellSetC1Eii stub_vs_ctor
// @stub * _ZN3Meq7VellSet7addFailERKSt9exception stub_adderror
// @stub * _ZN3Meq7VellSet8setValueERKNS_5VellsE stub_setvalue
// @stub * _ZN3Meq7VellSet12setDataFlagsERKN3DMI10CountedRefINS_5VellsEEE stub_setflags
// @stub * _ZN3Meq5Vells10mergeFlagsERN3DMI10CountedRefIS0_EERKS0_i stub_mergeflags
// @stub * _ZN3Meq5VellsC1Ev stub_vells_ctor
// @stub * _ZN3Meq5VellsC1ERKS0_ii stub_vells_copy
// @stub * _ZN3Meq5VellsD1Ev stub_vells_dtor
// @stub * _ZN3Meq5VellsD2Ev stub_vells_dtor
// @verifies select_multi Meq::Selector::getResult
// @verifies select_slice2;select_slice3 Meq::Selector::getResult
// @verifies compose Meq::Composer::getResult
// @verifies compose_tensor0;compose_tensor1;compose_tensor2 Meq::Composer::getResult
// @verifies paste Meq::Paster::getResult
// @verifies paste_slice2;paste_slice3 Meq::Paster::getResult
// @verifies transpose Meq::Transpose::getResult
// @verifies transpose3 Meq::Transpose::getResult
// @verifies strip Meq::Stripper::getResult
// @verifies merge_one Meq::MergeFlags::getResult
// @verifies merge_two;merge_all Meq::MergeFlags::getResult
// @assume the setters and getters of VellSet and Result store and return what they are given, and planes are copied on write (C02); Vells::mergeFlags ors the masked flags (proved as C15)
#include "../contracts/planes.h"
#include <MeqNodes/TID-MeqNodes.h>
#include <MeqNodes/Selector.h>
#include <MeqNodes/Composer.h>
#include <MeqNodes/Paster.h>
#include <MeqNodes/Transpose.h>
#include <MeqNodes/Stripper.h>
#include <MeqNodes/MergeFlags.h>
struct TSelector : public Selector {};
struct TComposer : public Composer {};
struct TPaster : public Paster {};
struct TTranspose : public Transpose {};
struct TStripper : public Stripper {};
struct TMergeFlags : public MergeFlags {};
extern void *vt_sel[] asm("_ZTV9TSelector");
extern void *vt_com[] asm("_ZTV9TComposer");
extern void *vt_pas[] asm("_ZTV7TPaster");
extern void *vt_tra[] asm("_ZTV10TTranspose");
extern void *vt_str[] asm("_ZTV9TStripper");
extern void *vt_mer[] asm("_ZTV11TMergeFlags");
extern "C" __attribute__((used)) void emit_nodes () { new TSelector; new TComposer; new TPaster; new TTranspose; new TStripper; new TMergeFlags; }
template<class T> static T & mknode (void **vt,int n)
{
  T *f = raw<T>(vt);
#ifdef VC_NATIVE
  f = new T;
#endif
  f->child_indices_.resize(n); f->children_.child_labels_.resize(n);
  for( int i=0; i<n; i++ ) f->children_.child_labels_[i] = HIID(AtomicID(i));
  return *f;
}
static void vec (std::vector<int> &v,int n,const int *x) { new (&v) std::vector<int>; v.resize(n); for( int i=0; i<n; i++ ) v[i] = x[i]; }
typedef std::vector<Result::Ref> Refs;
// a child of n planes; states symbolic among the first ns states
static int nch; static VellSet *cvs[3][MAXP]; static int cst[3][MAXP]; static Result *cres[3]; static int cn[3]; static LoShape *cdims[3];
static Result & mkchild (Refs &refs,int c,int n,const LoShape *dims,int states)
{
  Result *r = mkplanes(n,dims); cres[c] = r; cn[c] = n;
  cdims[c] = new LoShape; if( dims ) *cdims[c] = *dims; else if( n > 1 ) { cdims[c]->resize(1); (*cdims[c])[0] = n; }
  static const char *nm[3] = { "state0","state1","state2" };
  for( int i=0; i<n; i++ ) { cst[c][i] = states == 2 && i ? cst[c][0] : states ? vc_split(nm[c],0,2) : VALUE; cvs[c][i] = mkvs(cst[c][i],1+i+16*c); setplane(*r,i,cvs[c][i]); }
  refs[c].attach(r);
  return *r;
}
// the children are left as they were
static void unchanged ()
{
  bool ok = true;
  for( int c=0; c<3; c++ ) if( cres[c] )
  {
    ok &= nplanes(*cres[c]) == cn[c];
    for( int i=0; i<cn[c]; i++ ) ok &= plane(*cres[c],i) == cvs[c][i] && vsinfo(cvs[c][i]).state == cst[c][i];
    ok &= cn[c] <= 1 || cres[c]->dims().size() == cdims[c]->size();
    if( cn[c] > 1 ) for( unsigned k=0; k<cdims[c]->size(); k++ ) ok &= cres[c]->dims()[k] == (*cdims[c])[k];
  }
  vc_check(ok,"the results of the children are left as they were");
}
template<class T> static int run (T &f,Result::Ref &ref,const Refs &refs) { try { return f.T::getResult(ref,refs,*mkrequest(),false); } catch( ... ) { return -1; } }
static void codes (int code,const Result &r)
{
  bool fail = true, data = false, missing = true;
  for( int i=0; i<nplanes(r); i++ ) { bool f = plane(r,i)->isFail(), v = plane(r,i)->hasValue(); fail &= f; data |= v; missing &= !f && !v; }
  vc_check((code == Node::RES_FAIL) == fail,"the code is a fail exactly when all planes are");
  vc_check(!missing || code == Node::RES_MISSING,"missing data is reported when all planes are missing");
  vc_check(!data || !(code & Node::RES_MISSING),"missing data is not reported when some plane has data");
}
// ---- Selector
VC_PROOF(select_multi)
{
  TSelector &f = mknode<TSelector>(vt_sel,1); Refs &refs = *new Refs(1); Result::Ref &ref = *new Result::Ref;
  int n = vc_split("n",1,2), m = vc_split("m",0,2), s[2];
  mkchild(refs,0,n,0,true);
  for( int i=0; i<m; i++ ) s[i] = vc_split("sel",-1,n);
  vec(f.selection_,m,s); f.multi_ = true;
  int code = run(f,ref,refs);
  vc_check(code != -1 && ref.valid(),"a result is returned");
  if( !m )
  {
    vc_check(ref.deref_p() == cres[0] && !code,"an empty selection returns the result of the child");
    return;
  }
  vc_check(nplanes(*ref) == m,"one plane per selected element");
  for( int i=0; i<m; i++ )
    if( s[i] < 0 || s[i] >= n ) vc_check(plane(*ref,i)->isFail(),"an invalid selection gives a fail");
    else vc_check(plane(*ref,i) == cvs[0][s[i]],"the selected planes, in the order of the selection");
  codes(code,*ref);
  unchanged();
  vc_cover("end");
}
// rank and dimensions, selection; enumerates the planes of the slice
static LoShape * mkdims (int rank,int maxdim)
{
  LoShape *d = new LoShape; d->resize(rank); static const char *nm[3] = { "dim0","dim1","dim2" };
  for( int i=0; i<rank; i++ ) (*d)[i] = vc_split(nm[i],1,maxdim);
  return d;
}
static int slice (const LoShape &d,const int *s,int *at)
{
  int rank = d.size(), n = 0, idx[3];
  for( idx[0]=0; idx[0]<d[0]; idx[0]++ ) if( s[0] < 0 || s[0] == idx[0] )
    for( idx[1]=0; idx[1]<(rank > 1 ? d[1] : 1); idx[1]++ ) if( rank < 2 || s[1] < 0 || s[1] == idx[1] )
      for( idx[2]=0; idx[2]<(rank > 2 ? d[2] : 1); idx[2]++ ) if( rank < 3 || s[2] < 0 || s[2] == idx[2] )
      { int o = 0; for( int k=0; k<rank; k++ ) o = o*d[k]+idx[k]; at[n++] = o; }
  return n;
}
static void sel_dims (const LoShape &d,const int *s,const LoShape &out,int n)
{
  int rank = 0; for( unsigned i=0; i<d.size(); i++ ) if( s[i] < 0 ) rank = i+1;
  if( n <= 1 ) { vc_check(out.size() == 0,"a single plane is a scalar"); return; }
  bool ok = int(out.size()) == rank;
  for( int i=0; i<rank; i++ ) ok &= out[i] == (s[i] < 0 ? d[i] : 1);
  vc_check(ok,"the dimensions are those of the slice");
}
static void select_slice (int rank,int maxdim)
{
  TSelector &f = mknode<TSelector>(vt_sel,1); Refs &refs = *new Refs(1); Result::Ref &ref = *new Result::Ref;
  LoShape &d = *mkdims(rank,maxdim); int s[3], at[MAXP]; bool bad = false;
  vc_assume(product(d) > 1);
  mkchild(refs,0,product(d),&d,false);
  for( int i=0; i<rank; i++ ) { static const char *nm[3] = { "sel0","sel1","sel2" }; s[i] = vc_split(nm[i],-1,d[i]); bad |= s[i] >= d[i]; }
  vec(f.selection_,rank,s); f.multi_ = false;
  int code = run(f,ref,refs);
  if( bad ) { vc_check(code == -1,"a selection out of range is an error"); return; }
  vc_check(code == 0 && ref.valid(),"a result is returned");
  int n = slice(d,s,at);
  vc_check(nplanes(*ref) == n,"exactly the planes of the slice");
  for( int i=0; i<n && i<nplanes(*ref); i++ ) vc_check(plane(*ref,i) == cvs[0][at[i]],"the planes of the slice, in order");
  sel_dims(d,s,ref->dims(),n);
  unchanged();
  vc_cover("end");
}
VC_PROOF(select_slice2) { select_slice(2,3); }
VC_PROOF(select_slice3) { select_slice(3,2); }
// ---- Composer
VC_PROOF(compose)
{
  TComposer &f = mknode<TComposer>(vt_com,2); Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  int n0 = vc_split("n0",0,2), n1 = vc_split("n1",0,2), n = n0+n1;
  mkchild(refs,0,n0,0,true); mkchild(refs,1,n1,0,true);
  int d[2] = { n/2,2 }; bool dims = vc_split("dims",0,1);
  if( dims ) vc_assume(n == 4);
  vec(f.dims_,dims ? 2 : 0,d);
  int code = run(f,ref,refs);
  vc_check(code != -1 && ref.valid() && nplanes(*ref) == n,"all planes of all children");
  for( int i=0; i<n; i++ ) vc_check(plane(*ref,i) == (i < n0 ? cvs[0][i] : cvs[1][i-n0]),"the planes of the children, one child after the other");
  if( dims ) vc_check(ref->dims().size() == 2 && ref->dims()[0] == n/2 && ref->dims()[1] == 2,"in the dimensions specified");
  else vc_check(n <= 1 || (ref->dims().size() == 1 && ref->dims()[0] == n),"as a vector");
  if( n ) codes(code,*ref);
  unchanged();
  vc_cover("end");
}
static void compose_tensor (int k0,int k1,int k2)
{
  TComposer &f = mknode<TComposer>(vt_com,3); Refs &refs = *new Refs(3); Result::Ref &ref = *new Result::Ref;
  // every child is empty, a scalar or a tensor of the same dimensions
  int k[3] = { k0,k1,k2 }, nt = 1, zero = 0, n[3];
  LoShape &d = *new LoShape; d.resize(2); d[0] = 1; d[1] = 2;
  for( int c=0; c<3; c++ ) { n[c] = k[c] == 2 ? 2 : k[c]; if( k[c] == 2 ) nt = 2; mkchild(refs,c,n[c],k[c] == 2 ? &d : 0,2); }
  vec(f.dims_,1,&zero);
  int code = run(f,ref,refs);
  vc_check(code != -1 && ref.valid() && nplanes(*ref) == 3*nt,"all planes of all children");
  for( int c=0; c<3; c++ ) for( int j=0; j<nt; j++ )
  {
    const VellSet *vs = plane(*ref,c*nt+j);
    if( !n[c] ) vc_check(!vs->isFail() && !vs->hasValue(),"empty planes for a child without data");
    else vc_check(vs == cvs[c][n[c] == nt ? j : 0],"the planes of the children, scalars repeated");
  }
  const LoShape &rd = ref->dims();
  if( nt == 2 ) vc_check(rd.size() == 3 && rd[0] == 3 && rd[1] == 1 && rd[2] == 2,"children along the first dimension");
  else vc_check(rd.size() == 1 && rd[0] == 3,"children along the first dimension");
  if( k[0]+k[1]+k[2] ) codes(code,*ref);
  unchanged();
  vc_cover("end");
}
VC_PROOF(compose_tensor0) { int b = vc_split("k1",0,2), c = vc_split("k2",0,2); compose_tensor(0,b,c); }
VC_PROOF(compose_tensor1) { int b = vc_split("k1",0,2), c = vc_split("k2",0,2); compose_tensor(1,b,c); }
VC_PROOF(compose_tensor2) { int b = vc_split("k1",0,1), c = vc_split("k2",0,2); compose_tensor(2,b,c); }
// ---- Paster
VC_PROOF(paste)
{
  TPaster &f = mknode<TPaster>(vt_pas,2); Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  int n = vc_split("n",1,3), n1 = vc_split("n1",1,2), m = vc_split("m",0,2), s[2]; bool bad = false;
  mkchild(refs,0,n,0,false); mkchild(refs,1,n1,0,false);
  for( int i=0; i<m; i++ ) { s[i] = vc_split("sel",-1,3); bad |= s[i] < 0 || s[i] >= n; }
  vec(f.selection_,m,s); f.multi_ = true;
  int code = run(f,ref,refs);
  if( m && (bad || m != n1) ) { vc_check(code == -1,"an invalid selection is an error"); unchanged(); return; }
  vc_check(code == 0 && ref.valid() && nplanes(*ref) == n,"as many planes as the first child");
  for( int i=0; i<n; i++ )
  {
    const VellSet *e = cvs[0][i];
    for( int j=0; j<m; j++ ) if( s[j] == i ) e = cvs[1][j];
    vc_check(plane(*ref,i) == e,"selected planes are replaced, others are kept");
  }
  unchanged();
  vc_cover("end");
}
static void paste_slice (int rank,int maxdim)
{
  TPaster &f = mknode<TPaster>(vt_pas,2); Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  LoShape &d = *mkdims(rank,maxdim); int s[3], at[MAXP]; bool bad = false;
  vc_assume(product(d) > 1);
  mkchild(refs,0,product(d),&d,false);
  for( int i=0; i<rank; i++ ) { static const char *nm[3] = { "sel0","sel1","sel2" }; s[i] = vc_split(nm[i],-1,d[i]-1); }
  int n = slice(d,s,at);
  // a child of the shape of the slice
  int r1 = 0; for( int i=0; i<rank; i++ ) if( s[i] < 0 ) r1 = i+1;
  LoShape &d1 = *new LoShape; d1.resize(r1); for( int i=0; i<r1; i++ ) d1[i] = s[i] < 0 ? d[i] : 1;
  if( r1 ) vc_assume(n > 1);
  mkchild(refs,1,n,n > 1 ? &d1 : 0,false);
  vec(f.selection_,rank,s); f.multi_ = false;
  int code = run(f,ref,refs);
  vc_check(code == 0 && ref.valid() && nplanes(*ref) == cn[0],"as many planes as the first child");
  for( int i=0; i<cn[0]; i++ )
  {
    const VellSet *e = cvs[0][i];
    for( int j=0; j<n; j++ ) if( at[j] == i ) e = cvs[1][j];
    vc_check(plane(*ref,i) == e,"the planes of the slice are replaced, others are kept");
  }
  unchanged();
  vc_cover("end");
}
VC_PROOF(paste_slice2) { paste_slice(2,3); }
VC_PROOF(paste_slice3) { paste_slice(3,2); }
// ---- Transpose
static void transpose (int rank,int maxdim)
{
  TTranspose &f = mknode<TTranspose>(vt_tra,1); Refs &refs = *new Refs(1); Result::Ref &ref = *new Result::Ref;
  LoShape &d = *mkdims(rank,maxdim);
  int n = product(d);
  bool tens = vc_split("tensor",0,1);
  f.tensor_ = tens; f.conj_ = false;
  mkchild(refs,0,n,n > 1 ? &d : 0,false);
  int code = run(f,ref,refs);
  vc_check(code == 0 && ref.valid() && nplanes(*ref) == n,"as many planes as before");
  if( n < 2 ) { vc_check(plane(*ref,0) == cvs[0][0],"a scalar stays as it is"); return; }
  const LoShape &o = ref->dims(); bool ok;
  if( rank == 1 )
  {
    ok = tens ? o.size() == 1 && o[0] == n : o.size() == 2 && o[0] == 1 && o[1] == n;
    for( int i=0; i<n; i++ ) ok &= plane(*ref,i) == cvs[0][i];
    vc_check(ok,"a vector becomes a row");
    return;
  }
  int nx = d[rank-2], ny = d[rank-1], nmat = n/(nx*ny);
  if( rank == 2 && tens && ny == 1 ) ok = o.size() == 2 && o[0] == nx && o[1] == ny;
  else if( nx == 1 ) ok = int(o.size()) == rank-1 && o[rank-2] == ny;
  else ok = int(o.size()) == rank && o[rank-2] == ny && o[rank-1] == nx;
  if( rank == 3 ) ok &= o[0] == d[0];
  vc_check(ok,"the last two dimensions are exchanged");
  ok = true;
  for( int k=0; k<nmat; k++ ) for( int i=0; i<ny; i++ ) for( int j=0; j<nx; j++ ) ok &= plane(*ref,k*nx*ny+i*nx+j) == cvs[0][k*nx*ny+j*ny+i];
  vc_check(ok,"every matrix is transposed");
  unchanged();
  vc_cover("end");
}
VC_PROOF(transpose) { int r = vc_split("rank",1,2); transpose(r,4); }
VC_PROOF(transpose3) { transpose(3,2); }
// ---- Stripper
VC_PROOF(strip)
{
  TStripper &f = mknode<TStripper>(vt_str,1); Refs &refs = *new Refs(1); Result::Ref &ref = *new Result::Ref;
  int n = vc_split("n",1,2); bool sp[2] = {}, fl[2] = {};
  mkchild(refs,0,n,0,true);
  for( int i=0; i<n; i++ ) if( cst[0][i] == VALUE )
  {
    if( (sp[i] = vc_split("spid",0,1)) ) vsspid(cvs[0][i],5);
    if( (fl[i] = vc_split("hasflags",0,1)) ) vsflags(cvs[0][i],3+i);
  }
  int code = run(f,ref,refs);
  vc_check(code == 0 && ref.valid() && nplanes(*ref) == n,"as many planes as before");
  for( int i=0; i<n; i++ )
  {
    const VellSet *vs = plane(*ref,i);
    if( !sp[i] ) { vc_check(vs == cvs[0][i],"planes without parameters are kept"); continue; }
    vc_check(!vs->isFail() && vs->hasValue() && !vs->numSpids(),"perturbed values are stripped");
    vc_check(vs->hasValue() && tag(vs->pvalue_->deref()) == 1+i,"the value is kept");
    vc_check(has_flags(vs) == fl[i] && (!fl[i] || flags_of(vs) == 3+i),"the flags are kept");
  }
  bool ok = nplanes(*cres[0]) == n; for( int i=0; i<n; i++ ) ok &= plane(*cres[0],i) == cvs[0][i] && cvs[0][i]->numSpids() == sp[i];
  vc_check(ok,"the result of the child is left as it was");
  vc_cover("end");
}
// ---- MergeFlags
static int ownflags[3][MAXP]; static bool has[3][MAXP];
static void mergechild (Refs &refs,int c,int n,const LoShape *d)
{
  static const char *nm[2] = { "hasflags0","hasflags1" }, *fm[2] = { "flags0","flags1" };
  mkchild(refs,c,n,d,false);
  for( int i=0; i<n; i++ ) { has[c][i] = vc_split(nm[c],0,1); ownflags[c][i] = 0; if( has[c][i] ) { int f = vc_i32(fm[c]); ownflags[c][i] = f; vsflags(cvs[c][i],f); } }
}
static void kept (const Result &r,int i) { vc_check(plane(r,i)->hasValue() && tag(plane(r,i)->pvalue_->deref()) == 1+i,"values are kept"); }
static void sources (int nc)
{
  bool ok = true;
  for( int c=0; c<nc; c++ ) for( int i=0; i<cn[c]; i++ ) ok = ok & (plane(*cres[c],i) == cvs[c][i]) & (has_flags(cvs[c][i]) == has[c][i]) & (flags_of(cvs[c][i]) == ownflags[c][i]);
  vc_check(ok,"the flags of the children are left as they were");
}
VC_PROOF(merge_one)
{
  TMergeFlags &f = mknode<TMergeFlags>(vt_mer,1); Refs &refs = *new Refs(1); Result::Ref &ref = *new Result::Ref;
  int n = vc_split("n",0,3), mask = vc_i32("mask"); 
  mergechild(refs,0,n,0); vec(f.flagmask_,1,&mask);
  int code = run(f,ref,refs), all = 0; bool any = false;
  vc_check(code == 0 && ref.valid() && nplanes(*ref) == n,"as many planes as before");
  for( int i=0; i<n; i++ ) { any |= has[0][i]; all |= ownflags[0][i]&mask; }
  for( int i=0; i<n; i++ )
  {
    const VellSet *vs = plane(*ref,i); kept(*ref,i);
    if( n > 1 && any && mask ) vc_check(has_flags(vs) && flags_of(vs) == all,"every plane gets the flags of all planes under the mask");
    else vc_check(has_flags(vs) == has[0][i] && flags_of(vs) == ownflags[0][i],"nothing to merge");
  }
  sources(1);
  vc_cover("end");
}
static void merge_two (int n0,int n1,bool all)
{
  TMergeFlags &f = mknode<TMergeFlags>(vt_mer,2); Refs &refs = *new Refs(2); Result::Ref &ref = *new Result::Ref;
  int mask[2] = { vc_i32("mask0"),vc_i32("mask1") };
  f.merge_all_ = all;
  mergechild(refs,0,n0,0); mergechild(refs,1,n1,0); vec(f.flagmask_,2,mask);
  int code = run(f,ref,refs);
  if( !all && n0 > 1 && n1 > 1 && n0 != n1 && mask[1] ) { vc_check(code == -1,"different dimensions are an error"); return; }
  vc_check(code == 0 && ref.valid() && nplanes(*ref) == n0,"as many planes as the first child");
  for( int i=0; i<n0; i++ )
  {
    int e = ownflags[0][i]; const VellSet *vs = plane(*ref,i); bool any = has[0][i];
    for( int j=0; j<n1; j++ ) if( mask[1] && has[1][j] && (all || n1 == 1 || n0 == 1 || i == j) ) { e |= ownflags[1][j]&mask[1]; any = true; }
    vc_check(has_flags(vs) == any && flags_of(vs) == e,"the flags of the planes of the other children are merged under their masks");
    kept(*ref,i);
  }
  sources(2);
  vc_cover("end");
}
VC_PROOF(merge_two) { int a = vc_split("n0",0,2), b = vc_split("n1",0,3); vc_assume(a+b < 5); merge_two(a,b,false); }
VC_PROOF(merge_all) { int a = vc_split("n0",1,2), b = vc_split("n1",0,2); merge_two(a,b,true); }
