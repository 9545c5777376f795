// results as tables of planes: contracts of the accessors of results and vellsets (only in the verifier; natively the real
// classes are used).  A vellset is known by a table entry: state, value (a number), flags, parameters.
#ifndef VC_PLANES_H
#define VC_PLANES_H
#include "../contracts/node.h"
enum { VALUE, FAIL, MISSING };
static const int MAXP = 16, MAXR = 12;
struct TestVells : public Vells { virtual CountedRefTarget * clone (int,int) const; };
extern void *vt_tvells[] asm("_ZTV9TestVells");
extern "C" __attribute__((used)) void emit_vt_vells () { new TestVells; }
static Vells * mkvells (int t)
{
#ifdef VC_NATIVE
  return new Vells(double(t));
#else
  Vells *v = raw<TestVells>(vt_tvells); v->itsElemSize = t; return v;
#endif
}
static Vells * mkflags (int t)
{
#ifdef VC_NATIVE
  return new Vells(Vells::Shape(1),VellsFlagType(t),true);
#else
  return mkvells(t);
#endif
}
CountedRefTarget * TestVells::clone (int,int) const { return mkvells(itsElemSize); }
#ifdef VC_NATIVE
static int tag (const Vells &v) { return v.isFlags() ? v.getScalar<VellsFlagType>() : (int)v.as<double>(); }
#else
static int tag (const Vells &v) { return v.itsElemSize; }
#endif
extern "C" void stub_vells_ctor (Vells *r) { memset((void*)r,0,sizeof(Vells)); *reinterpret_cast<void***>(r) = vt_tvells + 2; }
extern "C" void stub_vells_copy (Vells *r,const Vells &v,int,int) { stub_vells_ctor(r); r->itsElemSize = v.itsElemSize; }
extern "C" void stub_vells_dtor (Vells *) {}
extern "C" void stub_mergeflags (Vells::Ref &f,const Vells &g,int mask)
{ if( !mask ) return; int old = f.valid() ? tag(*f) : 0; f.detach(); f.attach(mkvells(old | (tag(g)&mask))); }

// results
struct Planes { const Result *r; int n; const VellSet *pl[MAXP]; const Cells *cells; int verified; };
static Planes tab[MAXR]; static int ntab;
struct PlaneResult : public Result
{
  virtual TypeId objectType () const { return TpMeqResult; }
  virtual CountedRefTarget * clone (int,int) const;
  virtual void validateContent (bool) {}
};
extern void *vt_planes[] asm("_ZTV11PlaneResult");
extern "C" __attribute__((used)) void emit_vt_planes () { new PlaneResult; }
static Planes & planes (const Result *r)
{ for( int i=0; i<ntab; i++ ) if( tab[i].r == r ) return tab[i]; vc_stub_requires(false,"a known result"); return tab[0]; }
static void newplanes (Result *r,int n,const LoShape *dims)
{
  memset((void*)r,0,sizeof(Result)); *reinterpret_cast<void***>(r) = vt_planes + 2;
  new (&r->dims_) LoShape; 
  if( n > 1 ) { if( dims ) r->dims_ = *dims; else { r->dims_.resize(1); r->dims_[0] = n; } }
  vc_stub_requires(ntab < MAXR && n >= 0 && n <= MAXP,"few results and planes");
  tab[ntab].r = r; tab[ntab].n = n; tab[ntab].cells = 0; tab[ntab].verified = 0; for( int i=0; i<n; i++ ) tab[ntab].pl[i] = 0;
  ntab++;
}
static Result * mkplanes (int n,const LoShape *dims)
{
#ifdef VC_NATIVE
  return dims ? new Result(*dims) : new Result(n);
#else
  Result *r = raw<PlaneResult>(0); newplanes(r,n,dims); return r;
#endif
}
CountedRefTarget * PlaneResult::clone (int,int) const
{
  Planes &p = planes(this);
  Result *r = mkplanes(p.n,&dims_);
  Planes &q = planes(r); for( int i=0; i<p.n; i++ ) q.pl[i] = p.pl[i]; q.cells = p.cells;
  return r;
}
static int product (const LoShape &d) { int n = 1; for( unsigned i=0; i<d.size(); i++ ) n *= d[i]; return n; }
extern "C" void stub_res_ctor (Result *r,int n) { newplanes(r,n,0); }
extern "C" void stub_res_dims (Result *r,const LoShape &d) { newplanes(r,product(d),&d); }
extern "C" int stub_numvs (const Result *r) { return planes(r).n; }
extern "C" const VellSet * stub_vs (const Result *r,int i)
{ Planes &p = planes(r); vc_stub_requires(i >= 0 && i < p.n && p.pl[i],"the plane exists"); return p.pl[i]; }
extern "C" int stub_setdims (Result *r,const LoShape &d)
{
  Planes &p = planes(r); int n = product(d);
  if( n != p.n ) throw 1;
  if( n > 1 ) r->dims_ = d; else r->dims_.resize(0);
  return n;
}
extern "C" const VellSet * stub_setvs_r (Result *r,int i,const VellSet &vs,int) { Planes &p = planes(r); vc_stub_requires(i >= 0 && i < p.n,"the plane exists"); p.pl[i] = &vs; (new VellSet::Ref)->attach(&vs); return &vs; }
extern "C" const VellSet * stub_setvs_p (Result *r,int i,const VellSet *vs,int) { return stub_setvs_r(r,i,*vs,0); }
extern "C" const VellSet * stub_setvs_ref (Result *r,int i,const VellSet::Ref &vs,int) { return stub_setvs_r(r,i,*vs,0); }
extern "C" void stub_verify (Result *r,bool) { planes(r).verified++; }
extern "C" void stub_setcells (Result *r,const Cells *c,int,bool) { planes(r).cells = c; }

// vellsets
struct TestVellSet : public VellSet {};
extern void *vt_tvs[] asm("_ZTV11TestVellSet");
extern "C" __attribute__((used)) void emit_vt_tvs () { new TestVellSet; }
struct VS { const VellSet *vs; int state, value, flags, nvalue, nerr, nfails, np, nspid; bool hasflags, fresh; const VellSet *from; double pert[2][4]; int spid[4], pval[2][4]; double num, pnum[2][4], weight; int nset[2][4], nweights; };
static VS vst[64]; static int nvst;
static VS & vsinfo (const VellSet *vs)
{ for( int i=0; i<nvst; i++ ) if( vst[i].vs == vs ) return vst[i]; vc_stub_requires(false,"a known vellset"); return vst[0]; }
static VellSet * newvs ()
{
  VellSet *vs = raw<TestVellSet>(vt_tvs); vc_stub_requires(nvst < 64,"few vellsets");
  vst[nvst].vs = vs; vst[nvst].state = MISSING; vst[nvst].fresh = true; nvst++;
  return vs;
}
extern "C" VellSet * stub_newvs (Result *r,int i,int n,int np) { VellSet *vs = newvs(); vsinfo(vs).nspid = n; vs->numspids_ = n; vs->spids_ = vsinfo(vs).spid; vsinfo(vs).np = np; vs->pset_.resize(np); for( int k=0; k<np && k<2; k++ ) vs->pset_[k].pert = vsinfo(vs).pert[k]; stub_setvs_r(r,i,*vs,0); return vs; }
extern "C" void stub_vs_ctor (VellSet *vs,int,int np) { memset((void*)vs,0,sizeof(VellSet)); *reinterpret_cast<void***>(vs) = vt_tvs + 2; vst[nvst].vs = vs; vst[nvst].state = MISSING; vst[nvst].fresh = true; vst[nvst].np = np; vs->pset_.resize(np); for( int k=0; k<np && k<2; k++ ) vs->pset_[k].pert = vst[nvst].pert[k]; nvst++; }
// copy on write: planes of a result are shared
extern "C" VellSet * stub_vswr (Result *r,int i)
{
  Planes &p = planes(r); vc_stub_requires(i >= 0 && i < p.n && p.pl[i],"the plane exists");
  VS &o = vsinfo(p.pl[i]); if( o.fresh ) return const_cast<VellSet*>(o.vs);
  VellSet *vs = newvs(); VS &n = vsinfo(vs);
  n = o; n.vs = vs; n.fresh = true; n.from = o.vs;
  vs->is_fail_ = o.vs->is_fail_; vs->numspids_ = o.vs->numspids_; vs->spids_ = o.vs->spids_; vs->pset_ = o.vs->pset_;
  vs->pvalue_ = o.vs->pvalue_; vs->pflags_ = o.vs->pflags_; vs->pweights_ = o.vs->pweights_;
  p.pl[i] = vs;
  return vs;
}
extern "C" void stub_setflags (VellSet *vs,const Vells::Ref &f)
{ VS &o = vsinfo(vs); vc_stub_requires(o.fresh && f.valid(),"flags of a writable vellset"); o.hasflags = true; o.flags = tag(*f); vs->pflags_ = new Vells::Ref; vs->pflags_->attach(mkvells(o.flags)); }
extern "C" Vells * stub_setvalue (VellSet *vs,const Vells &v)
{ VS &o = vsinfo(vs); vc_stub_requires(o.fresh,"value of a writable vellset"); o.state = VALUE; o.value = tag(v); o.nvalue++; vs->pvalue_ = new Vells::Ref; vs->pvalue_->attach(mkvells(o.value)); return 0; }
extern "C" void stub_adderror (VellSet *vs,const std::exception &) { VS &o = vsinfo(vs); vc_stub_requires(o.fresh,"fail of a writable vellset"); vs->is_fail_ = true; o.state = FAIL; o.nerr++; }
static VellSet * mkvs (int state,int t)
{
#ifdef VC_NATIVE
  VellSet *vs = new VellSet(0,1); new VellSet::Ref(vs);
  vst[nvst].vs = vs; vst[nvst++].state = state;
  if( state == VALUE ) vs->setValue(new Vells(double(t)));
  else if( state == FAIL ) vs->addFail(LOFAR::Exception("fail"));
#else
  VellSet *vs = newvs();
  vs->is_fail_ = state == FAIL;
  if( state == VALUE ) { vs->pvalue_ = new Vells::Ref; vs->pvalue_->attach(mkvells(t)); }
#endif
  VS &o = vsinfo(vs); o.state = state; o.value = t; o.fresh = false; o.from = vs;
  return vs;
}
static void vsflags (VellSet *vs,int f)
{
  VS &o = vsinfo(vs); o.hasflags = true; o.flags = f;
#ifdef VC_NATIVE
  vs->setDataFlags(mkflags(f));
#else
  vs->pflags_ = new Vells::Ref; vs->pflags_->attach(mkvells(f));
#endif
}
static void vsspid (VellSet *vs,int s)
{
  VS &o = vsinfo(vs); o.nspid = 1;
#ifdef VC_NATIVE
  vs->setSpids(vector<int>(1,s)); vs->setPerturbation(0,1.0,0); vs->setPerturbedValue(0,new Vells(7.0),0);
#else
  vs->numspids_ = 1; vs->spids_ = new int(s);
#endif
}
// planes of a result, for contracts
static int nplanes (const Result &r)
{
#ifdef VC_NATIVE
  return r.numVellSets();
#else
  return planes(&r).n;
#endif
}
static const VellSet * plane (const Result &r,int i)
{
#ifdef VC_NATIVE
  return &r.vellSet(i);
#else
  return planes(&r).pl[i];
#endif
}
static void setplane (Result &r,int i,VellSet *vs)
{
#ifdef VC_NATIVE
  r.setVellSet(i,static_cast<const VellSet*>(vs));
#else
  planes(&r).pl[i] = vs;
#endif
}
static bool has_flags (const VellSet *vs) { return vs->pflags_ != 0; }
static int flags_of (const VellSet *vs) { return vs->pflags_ ? tag(vs->pflags_->deref()) : 0; }
#endif
