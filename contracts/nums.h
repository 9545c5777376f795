// values as numbers: contracts of the arithmetic of Vells (scalars here; element-wise for arrays, proved as C15), of the values
// and perturbed values of a vellset and of its fails.  Only in the verifier; natively the real classes are used.
#ifndef VC_NUMS_H
#define VC_NUMS_H
#include "../contracts/planes.h"
#include <math.h>
struct NumVells : public Vells { virtual CountedRefTarget * clone (int,int) const; };
extern void *vt_nvells[] asm("_ZTV8NumVells");
extern "C" __attribute__((used)) void emit_vt_nvells () { new NumVells; }
#ifdef VC_NATIVE
static double num (const Vells &v) { return v.as<double>(); }
static bool same (double a,double b) { return fabs(a-b) <= 1e-9*(1+fabs(a)+fabs(b)) || (a != a && b != b) || fabs(a) > 1e100 || fabs(b) > 1e100; }
static Vells * mknum (double x) { return new Vells(x); }
#else
static double & num (const Vells &v) { return *const_cast<double*>(reinterpret_cast<const double*>(&v.itsArray)); }
static bool same (double a,double b) { return a == b; }
static Vells * mknum (double x) { Vells *v = raw<NumVells>(vt_nvells); num(*v) = x; return v; }
#endif
CountedRefTarget * NumVells::clone (int,int) const { return mknum(num(*this)); }
#ifndef VC_NATIVE
alignas(Vells) static char null_mem[sizeof(Vells)], unity_mem[sizeof(Vells)];
#define null_vells_ (*(Vells*)null_mem)
#define unity_vells_ (*(Vells*)unity_mem)
static void setnum (Vells *r,double x) { memset((void*)r,0,sizeof(Vells)); *reinterpret_cast<void***>(r) = vt_nvells + 2; num(*r) = x; }
extern "C" void num_ctor (Vells *r) { setnum(r,0); }
extern "C" void num_ctor_d (Vells *r,double x) { setnum(r,x); }
extern "C" void num_copy (Vells *r,const Vells &v,int,int) { double x = num(v); int t = v.itsElemSize; setnum(r,x); r->itsElemSize = t; }
extern "C" Vells * num_assign (Vells *r,const Vells &v) { num(*r) = num(v); r->itsElemSize = v.itsElemSize; return r; }
extern "C" bool num_isnull (const Vells *v) { return num(*v) == 0; }
extern "C" bool num_isunity (const Vells *v) { return num(*v) == 1; }
extern "C" const Vells * num_null () { setnum(&null_vells_,0); return &null_vells_; }
extern "C" const Vells * num_unity () { setnum(&unity_vells_,1); return &unity_vells_; }
static double modulo_of (double);
extern "C" void num_remainder (Vells *r,const Vells &a,const Vells &) { setnum(r,modulo_of(num(a))); }
extern "C" void num_add (Vells *r,const Vells *a,const Vells &b) { setnum(r,num(*a)+num(b)); }
extern "C" void num_sub (Vells *r,const Vells *a,const Vells &b) { setnum(r,num(*a)-num(b)); }
extern "C" void num_mul (Vells *r,const Vells *a,const Vells &b) { setnum(r,num(*a)*num(b)); }
extern "C" void num_div (Vells *r,const Vells *a,const Vells &b) { setnum(r,num(*a)/num(b)); }
extern "C" void num_neg (Vells *r,const Vells *a) { setnum(r,-num(*a)); }
extern "C" Vells * num_iadd (Vells *r,const Vells &b) { double x = num(*r)+num(b); num(*r) = x; return r; }
extern "C" Vells * num_isub (Vells *r,const Vells &b) { double x = num(*r)-num(b); num(*r) = x; return r; }
extern "C" Vells * num_imul (Vells *r,const Vells &b) { double x = num(*r)*num(b); num(*r) = x; return r; }
extern "C" Vells * num_idiv (Vells *r,const Vells &b) { double x = num(*r)/num(b); num(*r) = x; return r; }
extern "C" Vells * num_ior (Vells *r,const Vells &b) { r->itsElemSize |= b.itsElemSize; return r; }
extern "C" void num_and (Vells *r,const Vells *a,int m) { int t = a->itsElemSize & m; setnum(r,0); r->itsElemSize = t; }
#endif
// values and perturbed values of the vellsets of results
extern "C" void num_setvalue (VellSet *vs,Vells::Ref &v,int)
{ VS &o = vsinfo(vs); vc_stub_requires(o.fresh && v.valid(),"value of a writable vellset"); o.state = VALUE; o.nvalue++; o.num = num(*v); vs->pvalue_ = new Vells::Ref; vs->pvalue_->attach(mknum(num(*v))); }
extern "C" void num_setnpert (VellSet *vs,int n) { vc_stub_requires(n >= 0 && n <= 2,"few perturbation sets"); if( n && vs->pset_.size() && (int)vs->pset_.size() != n ) throw 1; vsinfo(vs).np = n; vs->pset_.resize(n); for( int i=0; i<n; i++ ) vs->pset_[i].pert = vsinfo(vs).pert[i]; }
extern "C" void num_setspids (VellSet *vs,const std::vector<int> &s)
{ VS &o = vsinfo(vs); vc_stub_requires(o.fresh && s.size() <= 4,"few parameters"); if( vs->numspids_ && vs->numspids_ != (int)s.size() ) throw 1; o.nspid = s.size(); for( unsigned i=0; i<s.size(); i++ ) o.spid[i] = s[i]; vs->numspids_ = s.size(); vs->spids_ = o.spid; }
extern "C" void num_setpert (VellSet *vs,int i,double x,int ip)
{ VS &o = vsinfo(vs); vc_stub_requires(o.fresh && i >= 0 && i < o.nspid && ip >= 0 && ip < o.np,"perturbation in range"); o.pert[ip][i] = x; }
extern "C" void num_setpv (VellSet *vs,int i,Vells::Ref &v,int ip,int)
{ VS &o = vsinfo(vs); vc_stub_requires(o.fresh && v.valid() && i >= 0 && i < o.nspid && ip >= 0 && ip < o.np,"perturbed value in range"); VS &s = o; s.pnum[ip][i] = num(*v); s.nset[ip][i]++; }
extern "C" const Vells * num_getpv (const VellSet *vs,int i,int ip)
{ VS &o = vsinfo(vs); vc_stub_requires(o.state == VALUE && i >= 0 && i < o.nspid && ip >= 0 && ip < o.np,"the perturbed value exists"); return mknum(o.pnum[ip][i]); }
extern "C" int num_numfails (const VellSet *vs) { return vs->is_fail_ ? 2 : 0; }
extern "C" void num_getfail (ObjRef *r,const VellSet *,int i) { memset((void*)r,0,sizeof(ObjRef)); }
extern "C" void num_addfail (VellSet *vs,const ObjRef &) { VS &o = vsinfo(vs); vc_stub_requires(o.fresh,"fail of a writable vellset"); vs->is_fail_ = true; o.state = FAIL; o.nfails++; }
extern "C" int num_resfails (const Result *r) { Planes &p = planes(r); int n = 0; for( int i=0; i<p.n; i++ ) n += p.pl[i]->isFail(); return n; }
static double modulo_of (double x) { return x > 0 ? 0.5*x+3 : x < 0 ? 0.5*x-3 : 0; }   // stands for any odd function
extern "C" bool num_iscomplex (const Vells *) { return false; }
extern "C" void num_setweights (VellSet *vs,const Vells::Ref &w) { VS &o = vsinfo(vs); vc_stub_requires(o.fresh && w.valid(),"weights of a writable vellset"); o.nweights++; o.weight = num(*w); }
extern "C" void num_vs_dtor (VellSet *) {}
extern "C" void num_clearflags (VellSet *vs) { VS &o = vsinfo(vs); vc_stub_requires(o.fresh,"flags of a writable vellset"); o.hasflags = false; vs->pflags_ = 0; }
// a vellset with a main value and parameters
struct In { int state, n, np, spid[2], flags; double x, px[2][2], pert[2][2]; bool hasflags; VellSet *vs; };
static VellSet * mkin (In &in)
{
#ifdef VC_NATIVE
  VellSet *vs = new VellSet(0,in.np); new VellSet::Ref(vs);
  vst[nvst].vs = vs; vst[nvst++].state = in.state;
  if( in.state == VALUE )
  {
    vs->setValue(mknum(in.x));
    if( in.np ) vs->setNumPertSets(in.np);
    vs->setSpids(vector<int>(in.spid,in.spid+in.n));
    for( int i=0; i<in.n; i++ ) for( int ip=0; ip<in.np; ip++ ) { vs->setPerturbation(i,in.pert[ip][i],ip); vs->setPerturbedValue(i,mknum(in.px[ip][i]),ip); }
    if( in.hasflags ) vs->setDataFlags(mkflags(in.flags));
  }
  else if( in.state == FAIL ) { vs->addFail(LOFAR::Exception("fail 1")); vs->addFail(LOFAR::Exception("fail 2")); }
#else
  VellSet *vs = newvs();
  VS &o = vsinfo(vs); o.state = in.state; VS &s = o;
  vs->is_fail_ = in.state == FAIL;
  if( in.state == VALUE )
  {
    vs->pvalue_ = new Vells::Ref; vs->pvalue_->attach(mknum(in.x)); s.num = in.x;
    o.np = in.np; o.nspid = in.n;
    for( int i=0; i<in.n; i++ ) { o.spid[i] = in.spid[i]; for( int ip=0; ip<in.np; ip++ ) { o.pert[ip][i] = in.pert[ip][i]; s.pnum[ip][i] = in.px[ip][i]; } }
    vs->numspids_ = in.n; vs->spids_ = o.spid; vs->pset_.resize(in.np); for( int ip=0; ip<in.np; ip++ ) vs->pset_[ip].pert = o.pert[ip];
    if( in.hasflags ) { o.hasflags = true; o.flags = in.flags; vs->pflags_ = new Vells::Ref; vs->pflags_->attach(mkvells(in.flags)); }
  }
#endif
  VS &v = vsinfo(vs); v.fresh = false; v.from = vs; in.vs = vs;
  return vs;
}
// what is in a vellset, for contracts
static double value_of (const VellSet *vs) { return num(vs->getValue()); }
static double pvalue_of (const VellSet *vs,int i,int ip)
{
#ifdef VC_NATIVE
  return num(vs->getPerturbedValue(i,ip));
#else
  return vsinfo(vs).pnum[ip][i];
#endif
}
static bool pvalue_set (const VellSet *vs,int i,int ip)
{
#ifdef VC_NATIVE
  return true;
#else
  return vsinfo(vs).nset[ip][i] > 0;
#endif
}
static int fails_of (const VellSet *vs)
{
#ifdef VC_NATIVE
  return vs->numFails();
#else
  return vsinfo(vs).fresh ? vsinfo(vs).nfails : 2;
#endif
}
static int npsets_of (const VellSet *vs) { return vs->pset_.size(); }
#endif
