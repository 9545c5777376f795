// @property C19
// @sources MEQ/src/Polc.cc MEQ/src/Funklet.cc MEQ/src/Domain.cc MEQ/src/Vells.cc MEQ/src/VellSet.cc MEQ/src/Axis.cc DMI/src/NumArray.cc DMI/src/Record.cc DMI/src/HIID.cc DMI/src/Container.cc DMI/src/BObj.cc DMI/src/CountedRefTarget.cc DMI/src/CountedRefBase.cc DMI/src/SmartBlock.cc TimBase/src/Exception.cc
// @libs meq
// @option * nosummary=1 unroll=250
// @stub * _ZN3DMI8TypeInfo4findENS_8AtomicIDE stub_typeinfo
// @stub * _ZN3DMI13NumArrayFuncs21allocateArrayWithDataEiPvS1_RK10VariVector stub_alloc_array
// @stub * _ZN3DMI13NumArrayFuncs19assignDataReferenceEiPvS1_RK10VariVector stub_assign_ref
// @stub * _ZN3DMI13NumArrayFuncs21destroyPlacementArrayEiiPv stub_destroy_array
// @stub * _ZN3Meq7VellSet8setValueERN3DMI10CountedRefINS_5VellsEEEi vs_setvalue
// @stub * _ZN3Meq7VellSet17setPerturbedValueEiRN3DMI10CountedRefINS_5VellsEEEii vs_setpv
// @stub * _ZN3DMI9ContainerixERKNS_4HIIDE hk_index
// @stub * _ZN3DMI9Container4HookD2Ev hk_dtor
// @stub * _ZN3DMI9Container4HookD1Ev hk_dtor
// @stub * _ZNK3DMI9Container4Hook10get_vectorIbEEbRSt6vectorIT_SaIS4_EE hk_get
// @stub * _ZNK3DMI9Container4Hook7replaceEv hk_replace
// @stub * _ZNK3DMI9Container4HookaSIbEEvRKSt6vectorIT_SaIS4_EE hk_assign
// @stub * _ZNK3DMI6Record8hasFieldERKNS_4HIIDE hk_has
// @stub * _ZN3DMI3VecC1ENS_8AtomicIDEiPKvS1_ cap_vec
// @stub * MEQ/src/Polc.cc::_ZN3MeqL6novermEii exact_noverm
// @stub * _ZN3Meq7Funklet9setOffsetEid set_offset
// @stub * _ZN3Meq7Funklet8setScaleEid set_scale
// @stub evaluate_setup _ZN3Meq7VellSet14setNumPertSetsEi ev_npert
// @stub evaluate_setup _ZN3Meq7VellSet8setSpidsERKSt6vectorIiSaIiEE ev_spids
// @stub evaluate_setup _ZN3Meq7VellSet16setPerturbationsERKSt6vectorIdSaIdEEi ev_perts
// @stub evaluate_setup _ZN3Meq7VellSet15setPerturbationEidi ev_pert
// @stub coeff_shape _ZN3Meq4Polc8setCoeffERKN3DMI8NumArrayE cap_setcoeff
// @verifies poly_1d;poly_1d_pert1;poly_1d_pert2;poly_2d;poly_2d_3x2;poly_2d_2x3;poly_2d_pert;poly_2d_mask;poly_2d_many;poly_const;poly_domain Meq::Polc::do_evaluate
// @verifies coeff_shape Meq::Polc::setCoeffShape
// @verifies update_plain;update_constrained;update_limits Meq::Polc::do_update; Meq::Funklet::update
// @verifies solvable_mask;solvable_2d Meq::Funklet::makeSolvable; Meq::Polc::makeSolvable; Meq::Funklet::clearSolvable
// @verifies coeff_index Meq::Funklet::getCoeffIndex
// @verifies transform_const;transform_1d;transform_1d2;transform_2d Meq::Polc::changeSolveDomain; Meq::Polc::transformCoeff
// @verifies evaluate_setup Meq::Funklet::evaluate
// @assume noverm(n,m) is the binomial coefficient (computed through logarithms in the code); setOffset and setScale store their argument; the hooks of the record hold what was stored; VellSet::setValue and setPerturbedValue take over the Vells they are given
// polynomials: value and perturbed values, update and change of the shape of the coefficients
#include "../contracts/vells.h"
#include "../contracts/node.h"
#include <MEQ/Polc.h>
#include <MEQ/Cells.h>
struct TPolc : public Polc {};
struct TCells : public Cells {};
extern void *vt_polc[] asm("_ZTV5TPolc"), *vt_cells[] asm("_ZTV6TCells");
extern "C" __attribute__((used)) void emit_vts () { new TPolc; new TCells; }
// what an evaluation sets
static Vells *val = 0, *pv[2][6];
static int nval = 0, npv[2][6];
extern "C" void vs_setvalue (VellSet *,Vells::Ref &r,int) { Vells::Ref *k = new Vells::Ref; k->xfer(r); val = k->dewr_p(); nval++; }
extern "C" void vs_setpv (VellSet *,int i,Vells::Ref &r,int ip,int)
{ vc_stub_requires(i >= 0 && i < 6 && ip >= 0 && ip < 2,"perturbed value in range"); Vells::Ref *k = new Vells::Ref; k->xfer(r); pv[ip][i] = k->dewr_p(); npv[ip][i]++; }
// a polynomial with given coefficients
static TPolc & mkpolc (const LoShape &shape,const double *c,const int *axes,const double *off,const double *sc,int nax)
{
  DMI::NumArray *arr = new DMI::NumArray(Tpdouble,shape);
  int n = arr->size();
  double *d = static_cast<double*>(arr->getDataPtr());
  for( int i=0; i<n; i++ ) d[i] = c[i];
#ifdef VC_NATIVE
  TPolc &p = *new TPolc;
#else
  TPolc &p = *raw<TPolc>(vt_polc);
#endif
  p.pcoeff_ = new DMI::NumArray::Ref; p.pcoeff_->attach(arr);
  p.domain_.attach(*new Domain);    // valid everywhere
  p.axes_.assign(axes,axes+nax); p.offsets_.assign(off,off+nax); p.scales_.assign(sc,sc+nax);
  return p;
}
static TCells & mkcells (int n0,const double *g0,int n1,const double *g1)
{
#ifdef VC_NATIVE
  TCells &c = *new TCells;
#else
  TCells &c = *raw<TCells>(vt_cells);
#endif
  int n[2] = {n0,n1}; const double *g[2] = {g0,g1};
  c.shape_ = *new LoShape(n0 ? n0 : 1,n1 ? n1 : 1); c.defined_.resize(2);
  Domain &d = *new Domain;
  for( int a=0; a<2; a++ )
  {
    c.defined_[a] = n[a] != 0;
    new (&c.grid_[a]) LoVec_double(n[a]);
    for( int i=0; i<n[a]; i++ ) c.grid_[a](i) = g[a][i];
    if( n[a] ) { d.defined_[a] = true; d.range_[a][0] = g[a][0]-1; d.range_[a][1] = g[a][n[a]-1]+1; }
  }
  c.domain_.attach(d);
  return c;
}
static const char *gname[2][3] = {{"t0","t1","t2"},{"f0","f1","f2"}}, *cname[6] = {"c0","c1","c2","c3","c4","c5"}, *pname[6] = {"p0","p1","p2","p3","p4","p5"};
static void grids (double g[2][3],int n0,int n1)
{
  int n[2] = {n0,n1};
  for( int a=0; a<2; a++ ) for( int i=0; i<n[a]; i++ ) { g[a][i] = vc_f64(gname[a][i]); if( i ) vc_assume(g[a][i-1] < g[a][i]); }
}
static VellSet & mkvs (int nsp,int np)
{
  for( int ip=0; ip<2; ip++ ) for( int i=0; i<6; i++ ) { pv[ip][i] = 0; npv[ip][i] = 0; }
  val = 0; nval = 0;
#ifdef VC_NATIVE
  VellSet &vs = *new VellSet(0,np);
  if( nsp ) { std::vector<int> s; for( int i=0; i<nsp; i++ ) s.push_back(i); vs.setSpids(s); }
#else
  VellSet &vs = *raw<VellSet>(0);
#endif
  return vs;
}
static void readback (VellSet &vs,int nsp,int np)
{
#ifdef VC_NATIVE
  val = 0; nval = 0;
  if( vs.hasValue() ) { val = const_cast<Vells*>(&vs.getValue()); nval = 1; }
  for( int i=0; i<nsp; i++ ) for( int ip=0; ip<np; ip++ ) { pv[ip][i] = const_cast<Vells*>(&vs.getPerturbedValue(i,ip)); npv[ip][i] = 1; }
#endif
}
#ifdef VC_NATIVE
static bool same (double a,double b) { return fabs(a-b) <= 1e-9*(1+fabs(a)+fabs(b)) || fabs(a) > 1e100 || fabs(b) > 1e100 || a != a || b != b; }
#else
static bool same (double a,double b) { return a == b; }
#endif
// a polynomial in one variable
static void poly1 (int form,int nc,int ng,int np,int mask)
{
  int ax = vc_split("axis",0,1);
  double c[3], pert[3], g[2][3], off[2], sc[2];
  for( int i=0; i<nc; i++ ) { c[i] = vc_f64(cname[i]); pert[i] = vc_f64(pname[i]); }
  grids(g,ax ? 2 : ng,ax ? ng : 2);
  off[0] = off[1] = np ? 0 : vc_f64("offset"); sc[0] = sc[1] = np ? 1 : vc_f64("scale");
  int axes[2] = {ax,1-ax}; if( form == 2 ) { axes[0] = 1-ax; axes[1] = ax; }
  LoShape &shape = form == 0 ? *new LoShape(nc) : form == 1 ? *new LoShape(nc,1) : *new LoShape(1,nc);
  TPolc &p = mkpolc(shape,c,axes,off,sc,form ? 2 : 1);
  TCells &cells = mkcells(ax ? 2 : ng,g[0],ax ? ng : 2,g[1]);
  std::vector<int> &idx = *new std::vector<int>(nc); std::vector<double> &pp = *new std::vector<double>(pert,pert+nc);
  int nsp = 0;
  for( int i=0; i<nc; i++ ) idx[i] = i == 2 || mask&(1<<i) ? nsp++ : -1;
  VellSet &vs = mkvs(nsp,np);
  p.do_evaluate(vs,cells,pp,idx,np);
  readback(vs,nsp,np);
  vc_check(nval == 1 && val->nelements() == ng,"a polynomial in one variable has a value for each cell of its axis");
  vc_check(val->shape().size() == 2 && val->shape()[ax] == ng && val->shape()[1-ax] == 1,"the value varies along the axis of the polynomial only");
  for( int i=0; i<ng; i++ )
  {
    double x = (g[ax][i]-off[0])*(sc[0] != 0 ? 1./sc[0] : 1.);
    double sum = nc == 3 ? (c[2]*x+c[1])*x+c[0] : c[1]*x+c[0];
    vc_check(same(val->begin<double>()[i],sum),"the value is the polynomial at the centre of the cell, shifted and scaled");
    for( int k=0; k<nc; k++ ) if( idx[k] >= 0 )
      for( int ip=0; ip<np; ip++ )
      {
        double d = pert[k]*(k == 0 ? 1 : k == 1 ? x : x*x);
        vc_check(npv[ip][idx[k]] == 1 && pv[ip][idx[k]]->nelements() == ng,"every solvable coefficient has a perturbed value");
        vc_check(same(pv[ip][idx[k]]->begin<double>()[i],sum+(ip ? -d : d)),"a perturbed value is the polynomial with that coefficient perturbed (the other way in the second set)");
      }
  }
  vc_cover("end");
}
VC_PROOF(poly_1d) { int form = vc_split("form",0,2); poly1(form,vc_split("ncoeff",2,3),vc_split("ngrid",1,2),0,0); } // n coefficients as n, n x 1, 1 x n
VC_PROOF(poly_1d_pert1) { poly1(vc_split("form",0,2),2,2,2,3); }
VC_PROOF(poly_1d_pert2) { int np = vc_split("perturb",1,2); poly1(0,3,1,np,vc_split("mask",0,3)); }

// a polynomial in two variables: over the product of the grids, whichever way round its axes are
static void poly2 (int ncx,int ncy,int n0,int n1,int np,int mask)
{
  int swap = vc_split("swap",0,1), nc = ncx*ncy;
  double c[6], pert[6], g[2][3], off[2] = {0,0}, sc[2] = {1,1};
  for( int i=0; i<nc; i++ ) { c[i] = vc_f64(cname[i]); pert[i] = np ? vc_f64(pname[i]) : 0; }
  grids(g,n0,n1);
  if( !np ) { off[0] = vc_f64("offset0"); off[1] = vc_f64("offset1"); sc[0] = vc_split("zero0",0,1) ? 0 : 2; sc[1] = vc_split("zero1",0,1) ? 0 : 4; }
  int axes[2] = {swap,1-swap};
  TPolc &p = mkpolc(*new LoShape(ncx,ncy),c,axes,off,sc,2);
  TCells &cells = mkcells(n0,g[0],n1,g[1]);
  std::vector<int> &idx = *new std::vector<int>(nc); std::vector<double> &pp = *new std::vector<double>(pert,pert+nc);
  int nsp = 0;
  for( int i=0; i<nc; i++ ) idx[i] = mask&(1<<i) ? nsp++ : -1;
  VellSet &vs = mkvs(nsp,np);
  p.do_evaluate(vs,cells,pp,idx,np);
  readback(vs,nsp,np);
  vc_check(nval == 1 && val->shape().size() == 2 && val->shape()[0] == n0 && val->shape()[1] == n1,"a polynomial in two variables has a value for each cell");
  for( int a=0; a<n0; a++ )
    for( int b=0; b<n1; b++ )
    {
      double gx = swap ? g[1][b] : g[0][a], gy = swap ? g[0][a] : g[1][b];
      double x = (gx-off[0])*(sc[0] != 0 ? 1/sc[0] : 1), y = (gy-off[1])*(sc[1] != 0 ? 1/sc[1] : 1);
      double sum = 0, px = 1;
      for( int i=0; i<ncx; i++ )
      {
        double t = c[i*ncy+ncy-1];
        for( int j=ncy-2; j>=0; j-- ) t = t*y+c[i*ncy+j];
        sum += t*px; px *= x;
      }
      vc_check(same(val->begin<double>()[a*n1+b],sum),"the value at a cell is the polynomial at the centre of that cell");
      for( int k=0; k<nc; k++ ) if( idx[k] >= 0 )
        for( int ip=0; ip<np; ip++ )
        {
          double pwx = 1, pwy = 1;
          for( int i=0; i<k/ncy; i++ ) pwx *= x;
          for( int j=0; j<k%ncy; j++ ) pwy *= y;
          double d = pert[k]*pwy*pwx;
          vc_check(npv[ip][idx[k]] == 1 && pv[ip][idx[k]]->nelements() == n0*n1,"every solvable coefficient has a perturbed value");
          vc_check(same(pv[ip][idx[k]]->begin<double>()[a*n1+b],sum+(ip ? -d : d)),"a perturbed value is the polynomial with that coefficient perturbed (the other way in the second set)");
        }
    }
  vc_cover("end");
}
VC_PROOF(poly_2d) { int n0 = vc_split("n0",1,2); poly2(2,2,n0,n0 == 1 ? 2 : vc_split("n1",1,2),0,0); }
VC_PROOF(poly_2d_3x2) { poly2(3,2,1,1,0,0); }
VC_PROOF(poly_2d_2x3) { poly2(2,3,1,1,0,0); }
VC_PROOF(poly_2d_pert) { poly2(2,2,2,2,2,15); }
VC_PROOF(poly_2d_mask) { poly2(2,2,1,2,1,vc_split("mask",1,14)); }
VC_PROOF(poly_2d_many)   // many coefficients
{
  double c[24], g[2][3]; int axes[2] = {0,1}; double off[2] = {0,0}, sc[2] = {1,1};
  for( int i=0; i<24; i++ ) c[i] = 0;
  c[23] = vc_f64("c23");
  g[0][0] = g[1][0] = 1;
  TPolc &p = mkpolc(*new LoShape(2,12),c,axes,off,sc,2);
  std::vector<int> &idx = *new std::vector<int>(24,-1); std::vector<double> &pp = *new std::vector<double>(24,vc_f64("pert"));
  idx[23] = 0;
  VellSet &vs = mkvs(1,1);
  p.do_evaluate(vs,mkcells(1,g[0],1,g[1]),pp,idx,1);
  readback(vs,1,1);
  vc_check(nval == 1 && same(val->begin<double>()[0],c[23]) && same(pv[0][0]->begin<double>()[0],c[23]+pp[23]),"a polynomial may have any number of coefficients");
  vc_cover("end");
}
// a single coefficient
VC_PROOF(poly_const)
{
  double c = vc_f64("c0"), pert = vc_f64("p0"); int axes[2] = {0,1}; double off[2] = {0,0}, sc[2] = {1,1}, g[1] = {1};
  int np = vc_split("perturb",0,2), form = vc_split("form",1,2);
  TPolc &p = mkpolc(form == 1 ? *new LoShape(1) : *new LoShape(1,1),&c,axes,off,sc,form);
  std::vector<int> &idx = *new std::vector<int>(1,0); std::vector<double> &pp = *new std::vector<double>(1,pert);
  VellSet &vs = mkvs(1,np);
  p.do_evaluate(vs,mkcells(1,g,0,g),pp,idx,np);
  readback(vs,1,np);
  vc_check(nval == 1 && val->nelements() == 1 && same(val->begin<double>()[0],c),"a constant is a constant");
  for( int ip=0; ip<np; ip++ ) vc_check(npv[ip][0] == 1 && same(pv[ip][0]->begin<double>()[0],c+(ip ? -pert : pert)),"a perturbed constant");
  vc_cover("end");
}
// a polynomial with a domain is evaluated at the cells within the domain
VC_PROOF(poly_domain)
{
  int ax = vc_split("axis",0,1);
  double c[2] = {vc_f64("c0"),vc_f64("c1")}, g[2][3], off[1] = {0}, sc[1] = {1}; int axes[1] = {ax};
  grids(g,ax ? 1 : 2,ax ? 2 : 1);
  TPolc &p = mkpolc(*new LoShape(2),c,axes,off,sc,1);
  Domain &d = *new Domain;
  double lo[2], hi[2]; bool def[2];
  const char *nlo[2] = {"lo0","lo1"}, *nhi[2] = {"hi0","hi1"}, *ndef[2] = {"def0","def1"}, *npos[2] = {"pos0","pos1"};
  for( int a=0; a<2; a++ ) { def[a] = vc_split(ndef[a],0,1); lo[a] = vc_f64(nlo[a]); hi[a] = vc_f64(nhi[a]); vc_assume(lo[a] < hi[a]); if( def[a] ) { d.defined_[a] = true; d.range_[a][0] = lo[a]; d.range_[a][1] = hi[a]; } }
  bool in[2] = {true,true};
  if( def[ax] ) for( int i=0; i<2; i++ )
  {
    int pos = vc_split(npos[i],0,2);    // below, within, above
    double x = g[ax][i];
    if( pos == 0 ) vc_assume(x < lo[ax]); else if( pos == 1 ) vc_assume(x >= lo[ax] && x <= hi[ax]); else vc_assume(x > hi[ax]);
    in[i] = pos == 1;
  }
  p.domain_.attach(d);
  std::vector<int> &idx = *new std::vector<int>(2,-1); std::vector<double> &pp = *new std::vector<double>(2,0.);
  VellSet &vs = mkvs(0,0);
  TCells &cells = ax ? mkcells(1,g[0],2,g[1]) : mkcells(2,g[0],1,g[1]);
  p.do_evaluate(vs,cells,pp,idx,0);
  readback(vs,0,0);
  int n = in[0] + in[1];
  if( n ) { vc_check(nval == 1 && val->nelements() == n,"there is a value for each cell within the domain of the polynomial along its axis"); }
  else vc_check(nval == 0,"no value when no cell is within the domain of the polynomial");
  if( n == 2 || (n == 1 && in[0]) ) vc_check(same(val->begin<double>()[0],c[0]+c[1]*g[ax][0]),"the value at the first cell");
  if( n == 2 || (n == 1 && in[1]) ) vc_check(same(val->begin<double>()[n-1],c[0]+c[1]*g[ax][1]),"the value at the last cell");
  vc_cover("end");
}
// the coefficients of a polynomial given another shape
static void readcoeff (TPolc &p,LoShape &shape,double *c)
{
  const DMI::NumArray &a = p.coeff(); shape = a.shape();
  const double *d = static_cast<const double*>(a.getConstDataPtr());
  for( int i=0; i<a.size(); i++ ) c[i] = d[i];
}
extern "C" void cap_setcoeff (Polc *p,const DMI::NumArray &a)
{
  DMI::NumArray *n = new DMI::NumArray(Tpdouble,a.shape());
  const double *d = static_cast<const double*>(a.getConstDataPtr()); double *e = static_cast<double*>(n->getDataPtr());
  int N = n->size();
  for( int i=0; i<N; i++ ) e[i] = d[i];
  p->pcoeff_ = new DMI::NumArray::Ref; p->pcoeff_->attach(n);
}
VC_PROOF(coeff_shape)
{
  int r0 = vc_split("rank",1,2), r1 = vc_split("newrank",1,2);
  int x0 = vc_split("nx",1,3), y0 = r0 == 2 ? vc_split("ny",1,3) : 1, x1 = vc_split("newnx",1,3), y1 = r1 == 2 ? vc_split("newny",1,3) : 1;
  double c[9], e[9]; const char *nm[9] = {"c0","c1","c2","c3","c4","c5","c6","c7","c8"};
  for( int i=0; i<x0*y0; i++ ) c[i] = vc_f64(nm[i]);
  int axes[2] = {0,1}; double off[2] = {0,0}, sc[2] = {1,1};
  TPolc &p = mkpolc(r0 == 1 ? *new LoShape(x0) : *new LoShape(x0,y0),c,axes,off,sc,2);
  LoShape &want = r1 == 1 ? *new LoShape(x1) : *new LoShape(x1,y1), &got = *new LoShape;
  p.setCoeffShape(want);
  readcoeff(p,got,e);
  vc_check(got == want,"the coefficients have the shape asked for");
  for( int i=0; i<x1; i++ )
    for( int j=0; j<y1; j++ )
      vc_check(e[i*y1+j] == (i < x0 && j < y0 ? c[i*y0+j] : 0),"a coefficient of the new shape is the coefficient of the same orders before, zero if there was none");
  vc_cover("end");
}
// update of the solvable coefficients
static TPolc & mkupd (int nc,double *c,std::vector<int> &idx,double *v,int &nsp)
{
  const char *vn[3] = {"v0","v1","v2"};
  for( int i=0; i<nc; i++ ) { c[i] = vc_f64(cname[i]); v[i] = vc_f64(vn[i]); }
  int mask = vc_split("mask",0,7); nsp = 0;
  for( int i=0; i<nc; i++ ) idx[i] = mask&(1<<i) ? nsp++ : -1;
  int axes[1] = {0}; double off[1] = {0}, sc[1] = {1};
  return mkpolc(*new LoShape(nc),c,axes,off,sc,1);
}
static double absv (double x) { return x < 0 ? -x : x; }
static double clamp (double x,double lo,double hi) { double t = hi < x ? hi : x; return t < lo ? lo : t; }
VC_PROOF(update_plain)
{
  int nc = vc_split("ncoeff",1,3), nsp; double c[3], v[3], e[3];
  std::vector<int> &idx = *new std::vector<int>(nc);
  TPolc &p = mkupd(nc,c,idx,v,nsp);
  bool pos = vc_split("positive",0,1);
  p.spidInx_ = idx;
  p.update(v,pos);
  LoShape &s = *new LoShape; readcoeff(p,s,e);
  for( int i=0; i<nc; i++ )
  {
    double x = idx[i] >= 0 ? c[i]+v[idx[i]] : c[i];
    vc_check(same(e[i],pos && nc == 1 && idx[i] >= 0 ? absv(x) : x),"an update adds to each solvable coefficient its own increment and leaves the others alone");
  }
  vc_cover("end");
}
VC_PROOF(update_constrained)
{
  int nc = vc_split("ncoeff",1,2), nsp; double c[3], v[3], e[3];
  std::vector<int> &idx = *new std::vector<int>(nc);
  TPolc &p = mkupd(nc,c,idx,v,nsp);
  bool pos = vc_split("positive",0,1);
  std::vector<double> &lim = *new std::vector<double>(2); lim[0] = vc_f64("lo"); lim[1] = vc_f64("hi"); vc_assume(lim[0] <= lim[1]);
  p.spidInx_ = idx;
  p.update(v,lim,pos);
  LoShape &s = *new LoShape; readcoeff(p,s,e);
  for( int i=0; i<nc; i++ )
  {
    double x = idx[i] >= 0 ? c[i]+v[idx[i]] : c[i];
    if( nc == 1 && idx[i] >= 0 ) { x = clamp(x,lim[0],lim[1]); if( pos ) x = absv(x); }
    vc_check(same(e[i],x),"an update of a constant stays within its limits");
  }
  vc_cover("end");
}
VC_PROOF(update_limits)
{
  int nc = vc_split("ncoeff",1,3), nsp, nlo = vc_split("nlow",0,2), nhi = vc_split("nhigh",0,2); double c[3], v[3], e[3];
  std::vector<int> &idx = *new std::vector<int>(nc);
  TPolc &p = mkupd(nc,c,idx,v,nsp);
  bool pos = vc_split("positive",0,1);
  std::vector<double> &lo = *new std::vector<double>(nlo), &hi = *new std::vector<double>(nhi);
  const char *nl[2] = {"lo0","lo1"}, *nh[2] = {"hi0","hi1"};
  for( int i=0; i<nlo; i++ ) lo[i] = vc_f64(nl[i]);
  for( int i=0; i<nhi; i++ ) { hi[i] = vc_f64(nh[i]); if( i < nlo ) vc_assume(lo[i] <= hi[i]); }
  p.spidInx_ = idx;
  p.update(v,lo,hi,pos);
  LoShape &s = *new LoShape; readcoeff(p,s,e);
  for( int i=0; i<nc; i++ )
  {
    double x = idx[i] >= 0 ? c[i]+v[idx[i]] : c[i];
    if( idx[i] >= 0 )
    {
      if( i < nhi && hi[i] < x ) x = hi[i];
      if( i < nlo && x < lo[i] ) x = lo[i];
      if( pos && nc == 1 ) x = absv(x);
    }
    vc_check(same(e[i],x),"an update of each coefficient stays within the limits of that coefficient");
  }
  vc_cover("end");
}
// which coefficients are solvable, and their numbers and perturbations
static bool hasmask = false; static int umask[6], numask = 0, pubmask[6], npubmask = 0;
extern "C" void hk_index (void *h,DMI::Container *,const HIID &) { memset(h,0,sizeof(DMI::Container::Hook)); }
extern "C" void hk_dtor (void *) {}
extern "C" bool hk_get (void *,std::vector<bool> &v) { if( !hasmask ) return false; v.resize(numask); for( int i=0; i<numask; i++ ) v[i] = umask[i]; return true; }
extern "C" void *hk_replace (void *h) { return h; }
extern "C" void hk_assign (void *,const std::vector<bool> &v) { hasmask = true; numask = npubmask = v.size(); for( int i=0; i<npubmask; i++ ) umask[i] = pubmask[i] = v[i]; }
extern "C" bool hk_has (const void *,const HIID &) { return hasmask; }
static void setmask (TPolc &p,int n,int m)
{
  hasmask = true; numask = n;
  std::vector<bool> &v = *new std::vector<bool>(n);
  for( int i=0; i<n; i++ ) { umask[i] = (m>>i)&1; v[i] = umask[i]; }
#ifdef VC_NATIVE
  static_cast<DMI::Record&>(p)[FCoeffMask].replace() = v;
#endif
}
static void solvable (TPolc &p,int nc,const int *want,int spid0,double pert,int ret)
{
  int n = 0;
  for( int i=0; i<nc; i++ ) n += want[i];
  vc_check(ret == n && (int)p.spids_.size() == n && (int)p.spid_perts_.size() == n,"one parameter for each solvable coefficient");
  vc_check((int)p.spidInx_.size() == nc && (int)p.parm_perts_.size() == nc,"every coefficient is accounted for");
  n = 0;
  for( int i=0; i<nc; i++ )
  {
    vc_check(p.spidInx_[i] == (want[i] ? n : -1),"a coefficient has a parameter exactly when it is solvable");
    vc_check(p.parm_perts_[i] == pert,"the perturbation of a coefficient");
    if( want[i] ) { vc_check(p.spids_[n] == spid0+n && p.spid_perts_[n] == pert,"parameters are numbered from the first, in order, each with the perturbation of its coefficient"); n++; }
  }
}
VC_PROOF(solvable_mask)
{
  int nc = vc_split("ncoeff",1,4), m = vc_split("mask",-1,15); vc_assume(m < 1<<nc);
  double c[6]; for( int i=0; i<nc; i++ ) c[i] = vc_f64(cname[i]);
  int axes[1] = {0}; double off[1] = {0}, sc[1] = {1};
  TPolc &p = mkpolc(*new LoShape(nc),c,axes,off,sc,1);
  hasmask = false; if( m >= 0 ) setmask(p,nc,m);
  p.pertValue_ = vc_f64("pert");
  int spid0 = vc_i32("spid"); vc_assume(spid0 >= 0 && spid0 < 1000000);
  int ret = p.makeSolvable(spid0), want[6];
  for( int i=0; i<nc; i++ ) want[i] = m < 0 || (m>>i)&1;
  solvable(p,nc,want,spid0,p.pertValue_,ret);
  p.clearSolvable();
  vc_check(!p.isSolvable() && p.spidInx_.empty(),"no longer solvable");
  vc_cover("end");
}
VC_PROOF(solvable_2d)
{
  int nx = vc_split("nx",1,3), ny = vc_split("ny",1,3), nc = nx*ny, user = vc_split("user",0,2);   // no mask, a mask, a mask for another shape
  vc_assume(nc <= 6);
  double c[6], e[6]; for( int i=0; i<nc; i++ ) c[i] = vc_f64(cname[i]);
  int axes[2] = {0,1}; double off[2] = {0,0}, sc[2] = {1,1};
  TPolc &p = mkpolc(*new LoShape(nx,ny),c,axes,off,sc,2);
  hasmask = false;
  if( user == 1 ) setmask(p,nc,5); else if( user == 2 ) { vc_assume(nc >= 4); setmask(p,nc-1,5); }
  p.pertValue_ = vc_f64("pert");
  int spid0 = vc_i32("spid"); vc_assume(spid0 >= 0 && spid0 < 1000000);
  int ret = p.makeSolvable(spid0), want[6], mx = (nx > ny ? nx : ny)-1;
  for( int i=0; i<nc; i++ ) want[i] = user == 1 ? (5>>i)&1 : nc < 4 || i/ny+i%ny <= mx;
  solvable(p,nc,want,spid0,p.pertValue_,ret);
  LoShape &s = *new LoShape; readcoeff(p,s,e);
  for( int i=0; i<nc; i++ ) vc_check(e[i] == (want[i] || user == 1 ? c[i] : 0),"coefficients that are not solved for because their order is too high are zero, others unchanged");
  vc_cover("end");
}
static int idxshape[2]; static int nidx = 0;
extern "C" void cap_vec (DMI::Vec *,int,int n,const void *d,int) { nidx = n; idxshape[0] = ((const int*)d)[0]; idxshape[1] = ((const int*)d)[1]; }
VC_PROOF(coeff_index)
{
  int nx = vc_split("nx",1,3), ny = vc_split("ny",0,3), nc = nx*(ny ? ny : 1), m = vc_split("mask",1,63);
  vc_assume(nc <= 6 && m < 1<<nc);
  double c[6]; for( int i=0; i<nc; i++ ) c[i] = 0;
  int axes[2] = {0,1}; double off[2] = {0,0}, sc[2] = {1,1};
  TPolc &p = mkpolc(ny ? *new LoShape(nx,ny) : *new LoShape(nx),c,axes,off,sc,2);
  int n = 0;
  std::vector<int> &idx = *new std::vector<int>(nc); for( int i=0; i<nc; i++ ) idx[i] = (m>>i)&1 ? n++ : -1;
  p.spidInx_ = idx;
  for( int i=0; i<nc; i++ ) if( idx[i] >= 0 )
  {
    nidx = 0;
    DMI::Vec *v = p.getCoeffIndex(idx[i]);
#ifdef VC_NATIVE
    nidx = v->size(); for( int j=0; j<2; j++ ) idxshape[j] = (*v)[j].as<int>();
#endif
    vc_check(nidx == 2 && idxshape[0] == i/(ny ? ny : 1) && idxshape[1] == i%(ny ? ny : 1),"the orders of the coefficient that a parameter stands for");
  }
  vc_cover("end");
}
// a change of the domain that is solved over does not change the polynomial
extern "C" double exact_noverm (int n,int m) { double r = 1; for( int i=1; i<=m; i++ ) r = r*(n-m+i)/i; return r; }
extern "C" int set_offset (Funklet *f,int i,double x) { if( f->offsets_.size() <= (unsigned)i ) return 0; f->offsets_[i] = x; return 1; }
extern "C" int set_scale (Funklet *f,int i,double x) { if( f->scales_.size() <= (unsigned)i ) return 0; f->scales_[i] = x; return 1; }
static double polyval (TPolc &p,const double *c,int nx,int ny,const double *t)
{
  double x[2] = {0,0}, s = 0, px = 1;
  for( int a=0; a<p.rank(); a++ ) x[a] = (t[p.axes_[a]]-p.offsets_[a])/(p.scales_[a] != 0 ? p.scales_[a] : 1);
  for( int i=0; i<nx; i++ )
  {
    double py = 1;
    for( int j=0; j<ny; j++ ) { s += c[i*ny+j]*px*py; py *= x[1]; }
    px *= x[0];
  }
  return s;
}
static void transform (int rank,int nx,int ny,bool full)
{
  int nc = nx*ny, swap = vc_split("swap",0,1), def = vc_split("domain",0,3), over = vc_split("overload",0,1);
  double c[6], e[6], t[2] = {vc_f64("t"),vc_f64("f")};
  for( int i=0; i<nc; i++ ) c[i] = vc_f64(cname[i]);
  int axes[2] = {swap,1-swap}; double off[2] = {vc_f64("off0"),vc_f64("off1")}, sc[2] = {vc_split("noscale",0,1) ? 0. : 2.,4};
  TPolc &p = mkpolc(rank == 1 ? *new LoShape(nx) : *new LoShape(nx,ny),c,axes,off,sc,rank);
  double lo[2] = {vc_f64("lo0"),vc_f64("lo1")};
  Domain &d = *new Domain, &sd = *new Domain;
  for( int a=0; a<2; a++ )
  {
    if( def&(1<<a) ) { d.defined_[a] = true; d.range_[a][0] = lo[a]; d.range_[a][1] = lo[a]+8*(a+1); }
    sd.defined_[a] = true; sd.range_[a][0] = -1; sd.range_[a][1] = 1;
  }
  p.domain_.attach(d);
  double before = polyval(p,c,nx,ny,t);
  std::vector<double> &sv = *new std::vector<double>(2); sv[0] = -1; sv[1] = 1;
  if( over ) p.changeSolveDomain(sd); else p.changeSolveDomain(sv);
  LoShape &s = *new LoShape; readcoeff(p,s,e);
  vc_check(same(polyval(p,e,nx,ny,t),before),"the polynomial is the same function after a change of the solve domain");
  bool all = true;
  for( int a=0; a<rank; a++ ) all = all && (def&(1<<axes[a]));
  if( all ) for( int a=0; a<rank; a++ )
    vc_check(p.scales_[a] == 4*(axes[a]+1) && same(p.offsets_[a],lo[axes[a]]+4*(axes[a]+1)),"the domain of the polynomial is mapped to the solve domain");
  vc_cover("end");
}
VC_PROOF(transform_const) { transform(vc_split("rank",1,2),1,1,true); }
VC_PROOF(transform_1d) { transform(1,vc_split("nx",2,3),1,true); }
VC_PROOF(transform_1d2) { int nx = vc_split("nx",1,2); transform(2,nx,3-nx,true); }
VC_PROOF(transform_2d) { transform(2,2,2,true); }
// evaluation sets up the parameters and perturbations of the vellset
struct EPolc : public Polc
{
  virtual void do_evaluate (VellSet &,const Cells &,const std::vector<double> &,const std::vector<int> &,int) const;
};
extern void *vt_epolc[] asm("_ZTV5EPolc");
extern "C" __attribute__((used)) void emit_vt_epolc () { new EPolc; }
static int evcalls = 0, evpert = -1; static const std::vector<double> *evperts; static const std::vector<int> *evidx; static const Cells *evcells; static const VellSet *evvs;
void EPolc::do_evaluate (VellSet &vs,const Cells &c,const std::vector<double> &p,const std::vector<int> &i,int np) const
{ evcalls++; evpert = np; evperts = &p; evidx = &i; evcells = &c; evvs = &vs; }
static int snp = 0, sns = -1, sspid[4]; static double spert[2][4];
extern "C" void ev_npert (VellSet *,int n) { snp = n; }
extern "C" void ev_spids (VellSet *,const std::vector<int> &s) { sns = s.size(); for( int i=0; i<sns; i++ ) sspid[i] = s[i]; }
extern "C" void ev_perts (VellSet *,const std::vector<double> &v,int ip) { vc_stub_requires(ip >= 0 && ip < snp && (int)v.size() == sns,"perturbations of every parameter"); for( int i=0; i<sns; i++ ) spert[ip][i] = v[i]; }
extern "C" void ev_pert (VellSet *,int i,double x,int ip) { vc_stub_requires(i >= 0 && i < sns && ip >= 0 && ip < snp,"perturbation in range"); spert[ip][i] = x; }
VC_PROOF(evaluate_setup)
{
  int n = vc_split("nspid",0,3), mp = vc_split("perturb",0,2);
#ifdef VC_NATIVE
  EPolc &p = *new EPolc;
#else
  EPolc &p = *raw<EPolc>(vt_epolc);
#endif
  double pt[3]; int sp[3]; const char *sn[3] = {"s0","s1","s2"};
  for( int i=0; i<n; i++ ) { pt[i] = vc_f64(pname[i]); sp[i] = vc_i32(sn[i]); if( i ) vc_assume(sp[i] > sp[i-1]); }
  p.spids_.assign(sp,sp+n); p.spid_perts_.assign(pt,pt+n); p.spidInx_.assign(4,0); p.parm_perts_.assign(4,1.);
  double g[1] = {1};
  TCells &cells = mkcells(1,g,1,g);
#ifdef VC_NATIVE
  VellSet &vs = *new VellSet(0,0);
#else
  VellSet &vs = *raw<VellSet>(0);
#endif
  p.evaluate(vs,cells,mp);
#ifdef VC_NATIVE
  snp = vs.numPertSets(); sns = vs.numSpids();
  for( int i=0; i<sns && i<3; i++ ) { sspid[i] = vs.getSpid(i); for( int ip=0; ip<snp; ip++ ) spert[ip][i] = vs.getPerturbation(i,ip); }
#endif
  int want = n ? mp : 0;
  vc_check(evcalls == 1 && evvs == &vs && evcells == &cells && evperts == &p.parm_perts_ && evidx == &p.spidInx_,"the funklet is evaluated once, on the cells");
  vc_check(evpert == want,"perturbed values are asked for exactly when they are wanted and there are parameters");
  if( want )
  {
    vc_check(snp == want && sns == n,"perturbation sets and parameters of the vellset");
    for( int i=0; i<n; i++ )
      for( int ip=0; ip<want; ip++ )
        vc_check(sspid[i] == sp[i] && spert[ip][i] == (ip ? -pt[i] : pt[i]),"each parameter with its perturbation, the opposite one in the second set");
  }
  vc_cover("end");
}
