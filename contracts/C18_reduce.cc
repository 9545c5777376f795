// @property C18
// @sources MeqNodes/src/ReductionFunction.cc MEQ/src/Function.cc MEQ/src/Node.cc MEQ/src/TensorFunction.cc MEQ/src/VellsSlicer.cc MEQ/src/VellsSlicerWithFlags.cc MEQ/src/Vells.cc MEQ/src/VellSet.cc MEQ/src/Axis.cc DMI/src/NumArray.cc DMI/src/HIID.cc DMI/src/Container.cc DMI/src/BObj.cc DMI/src/CountedRefTarget.cc DMI/src/CountedRefBase.cc DMI/src/SmartBlock.cc TimBase/src/Exception.cc
// @libs meqnodes meq
// @option reduce_.* nosummary=1
// @stub * _ZN3DMI8TypeInfo4findENS_8AtomicIDE stub_typeinfo
// @stub * _ZN3DMI13NumArrayFuncs21allocateArrayWithDataEiPvS1_RK10VariVector stub_alloc_array
// @stub * _ZN3DMI13NumArrayFuncs19assignDataReferenceEiPvS1_RK10VariVector stub_assign_ref
// @stub * _ZN3DMI13NumArrayFuncs21destroyPlacementArrayEiiPv stub_destroy_array
// @stub * _ZN3DMI8NumArray14make_referenceEPvbRK10VariVectorS4_RKS0_ stub_make_reference
// @verifies allflagged ReductionFunction::isAllFlagged
// @verifies reduce_single;reduce_multi;reduce_axes ReductionFunction::evaluateFlags
// @verifies reduce_apply_r1;reduce_apply_r2;reduce_apply_r3;reduce_apply_c1;reduce_apply_w1;reduce_apply_w2;reduce_apply_w3 ReductionFunction::apply
// flags of nodes that reduce arrays: the result is flagged where all of the input is flagged
#include "../contracts/vells.h"
#include "../contracts/node.h"
#include <MeqNodes/ReductionFunction.h>
#include <MEQ/VellsSlicer.h>
#include <MEQ/VellsSlicerWithFlags.h>
// contract of NumArray::make_reference: the current slice is a reference (its elements are at the strides of the slice, so
// that nobody may go through them one after the other: they are not accessible here at all)
extern "C" void stub_make_reference (DMI::NumArray *,void *,bool,const LoShape &,const LoShape &,const DMI::NumArray &) {}
struct RdNode : public ReductionFunction { RdNode () : ReductionFunction(-1) {} };
extern void *vt_rd[] asm("_ZTV6RdNode");
extern "C" __attribute__((used)) void emit_vt_rd () { new RdNode; }
static RdNode & rdnode ()
{
#ifdef VC_NATIVE
  return *new RdNode;
#else
  return *raw<RdNode>(vt_rd);
#endif
}
// flags of any number of points
VC_PROOF(allflagged)
{
  uint64_t n = vc_size("n"); vc_assume(n >= 1);
  FT *x = vc_array<FT>("flags",n);
  FT mask = vc_i32("mask");
#ifdef VC_NATIVE
  Vells &v = *new Vells(Shape(int(n)),0,false);
  for( uint64_t i=0; i<n; i++ ) v.begin<FT>()[i] = x[i];
#else
  Vells &v = *new Vells(*new DMI::NumArray);
  v.itsShape = Shape(int(n)); v.itsSize = n; v.itsScaType = typeIdOf(FT); v.itsElemSize = sizeof(FT); v.itsArrayData = (char*)x; v.itsArrayValid = true;
#endif
  FT r = rdnode().isAllFlagged(v,mask);
  bool all = vc_forall(0,n,[&](uint64_t i){ return (x[i]&mask) != 0; });
  vc_check(r == (all ? mask : 0),"flags reduced to one: set (to the mask) exactly when every point has one of the flags of the mask");
  vc_cover("end");
}
// a child of a node: a vellset with flags
static Vells & mkfl (int n,const FT *x)
{
  Vells &v = *new Vells(Shape(n),0,false);
  for( int i=0; i<n; i++ ) v.begin<FT>()[i] = x[i];
  return v;
}
static VellSet * mkchild (Vells *fl)
{
#ifdef VC_NATIVE
  VellSet *vs = new VellSet(0,1); new VellSet::Ref(vs);
  vs->setValue(new Vells(1.));
  if( fl ) vs->setDataFlags(Vells::Ref(fl));
#else
  VellSet *vs = raw<VellSet>(0);
  vs->pvalue_ = new Vells::Ref; vs->pvalue_->attach(new Vells(1.,Shape(1),true));
  if( fl ) { vs->pflags_ = new Vells::Ref; vs->pflags_->attach(fl); }
#endif
  return vs;
}
static const Request & request ()
{
#ifdef VC_NATIVE
  return *new Request;
#else
  return *mkrequest();
#endif
}
static void children (int nch,int maxn)
{
  RdNode &node = rdnode();
  node.flagmask_.resize(nch);
  std::vector<const VellSet*> &pvs = *new std::vector<const VellSet*>(nch,(const VellSet*)0);
  int sz[2] = {0,0}; FT x[2][2], mask[2]; bool has[2];
  const char *nm[2][2] = {{"f00","f01"},{"f10","f11"}}; const char *ns[2] = {"n0","n1"}, *nk[2] = {"kind0","kind1"}, *nmk[2] = {"mask0","mask1"};
  for( int c=0; c<nch; c++ )
  {
    int kind = vc_split(nk[c],0,2);   // absent, without flags, with flags
    mask[c] = vc_i32(nmk[c]); node.flagmask_[c] = mask[c];
    has[c] = kind == 2;
    if( kind == 2 )
    {
      sz[c] = vc_split(ns[c],1,maxn);
      for( int i=0; i<sz[c]; i++ ) x[c][i] = vc_i32(nm[c][i]);
      pvs[c] = mkchild(&mkfl(sz[c],x[c]));
    }
    else if( kind == 1 ) pvs[c] = mkchild(0);
  }
  if( nch == 2 ) vc_assume(!has[0] || !has[1] || sz[0] == sz[1] || sz[0] == 1 || sz[1] == 1);
  Vells::Ref out;
  node.evaluateFlags(out,request(),*new LoShape(1),pvs);
  // oracle
  if( nch == 1 )
  {
    bool all = has[0];
    for( int i=0; i<sz[0]; i++ ) all = all & ((x[0][i]&mask[0]) != 0);
    FT got = out.valid() ? out->getScalar<FT>() : 0;
    vc_check(!out.valid() || out->nelements() == 1,"one child: the flags of a reduced value are a single flag");
    vc_check(got == (all ? mask[0] : 0),"one child: the result is flagged exactly when all of the child is");
  }
  else
  {
    int n = sz[0] > sz[1] ? sz[0] : sz[1]; if( !n ) n = 1;
    FT tot = (has[0] ? mask[0] : 0) | (has[1] ? mask[1] : 0);
    int no = out.valid() ? out->nelements() : 1;
    for( int i=0; i<n; i++ )
    {
      bool all = true;
      for( int c=0; c<2; c++ ) all = all & (has[c] && (x[c][sz[c] == 1 ? 0 : i]&mask[c]) != 0);
      FT got = out.valid() ? const_cast<const Vells&>(*out).begin<FT>()[no == 1 ? 0 : i] : 0;
      vc_check(got == (all ? tot : 0),"several children: a point of the result is flagged exactly when it is flagged in every child");
    }
  }
  vc_cover("end");
}
VC_PROOF(reduce_single) { children(1,2); }
VC_PROOF(reduce_multi) { children(2,2); }
// reduction along axes: each point of the result covers a slice of the child
VC_PROOF(reduce_axes)
{
  RdNode &node = rdnode();
  FT mask = vc_i32("mask");
  node.flagmask_.resize(1); node.flagmask_[0] = mask;
  int axes = vc_split("axes",1,3);     // first, second, both
  if( axes&1 ) node.reduction_axes_.push_back(0);
  if( axes&2 ) node.reduction_axes_.push_back(1);
  int nx = vc_split("nx",1,2), ny = vc_split("ny",1,2);
  Vells &v = *new Vells(Shape(nx,ny),0,false);
  FT x[2][2];
  const char *nm[2][2] = {{"f00","f01"},{"f10","f11"}};
  for( int i=0; i<nx; i++ ) for( int j=0; j<ny; j++ ) v.begin<FT>()[i*ny+j] = x[i][j] = vc_i32(nm[i][j]);
  std::vector<const VellSet*> &pvs = *new std::vector<const VellSet*>(1,(const VellSet*)0);
  bool has = vc_bool("has_flags");
  pvs[0] = mkchild(has ? &v : 0);
  Vells::Ref out;
  node.evaluateFlags(out,request(),*new LoShape(1),pvs);
  for( int i=0; i<(axes&1 ? 1 : nx); i++ )
    for( int j=0; j<(axes&2 ? 1 : ny); j++ )
    {
      bool all = has;
      for( int k=0; k<(axes&1 ? nx : 1); k++ ) for( int l=0; l<(axes&2 ? ny : 1); l++ ) all = all & ((x[i+k][j+l]&mask) != 0);
      FT got = 0;
      if( out.valid() )
      {
        const Vells &o = *out;
        int ox = o.extent(0), oy = o.extent(1);
        vc_check((ox == 1 || ox == nx) && (oy == 1 || oy == ny),"reduction along axes: shape of the flags");
        got = o.begin<FT>()[(ox == 1 ? 0 : i)*oy + (oy == 1 ? 0 : j)];
      }
      vc_check(got == (all ? mask : 0),"reduction along axes: a point of the result is flagged exactly when all of its slice is");
    }
  vc_cover("end");
}
// values are reduced slice by slice: the function is called with the elements (and flags) of each slice, in order, and its
// results are the elements of the result
static struct { int axes,nx,ny,fk,call; double x[2][2]; FT f[2][2],mask; bool cplx,ws; } rd;
static int slicepos (int call,int k,int &i,int &j)
{
  // call: number of the slice; k: number of the element of the slice
  bool ix = !(rd.axes&1), jx = !(rd.axes&2);
  int ny = jx ? rd.ny : 1;
  i = ix ? call/ny : 0; j = jx ? call%ny : 0;
  if( rd.axes == 3 ) { i = k/rd.ny; j = k%rd.ny; }
  else if( rd.axes == 1 ) i = k;
  else j = k;
  return 0;
}
static int slicelen () { return (rd.axes&1 ? rd.nx : 1)*(rd.axes&2 ? rd.ny : 1); }
static double element (const Vells &v,int k) { return rd.cplx ? v.begin<dcomplex>()[k].imag() : v.begin<double>()[k]; }
static void check_slice (const Vells &v,FT mask)
{
  vc_check(mask == rd.mask,"reduction of a slice: flag mask");
  int len = slicelen();
  vc_check(v.nelements() == len && v.isComplex() == rd.cplx,"reduction of a slice: number of elements");
  vc_check(v.hasDataFlags() == (rd.fk != 0),"reduction of a slice: flags come along");
  for( int k=0; k<len; k++ )
  {
    int i,j; slicepos(rd.call,k,i,j);
    vc_check(element(v,k) == rd.x[i][j],"reduction of a slice: its elements, in order");
  }
  if( rd.fk )
  {
    const Vells &f = v.dataFlags();
    int fl = (rd.axes&1 && rd.fk == 1 ? rd.nx : 1)*(rd.axes&2 ? rd.ny : 1);
    vc_check(f.nelements() == fl,"reduction of a slice: number of flags");
    for( int k=0; k<len; k++ )
    {
      int i,j; slicepos(rd.call,k,i,j);
      int fi = rd.fk == 1 ? i : 0;
      vc_check(f.begin<FT>()[fl == len ? k : rd.axes == 1 || fl == 1 ? 0 : k%rd.ny] == rd.f[fi][j],"reduction of a slice: its flags, in order");
    }
  }
}
static Vells reduce1 (const Vells &v,FT mask) { check_slice(v,mask); return rd.cplx ? Vells(dcomplex(3,10+rd.call++)) : Vells(double(10+rd.call++)); }
static Vells reduce2 (const Vells &v,const LoShape &s,FT mask)
{
  check_slice(v,mask);
  vc_check(s.size() == 2 && s[0] == (rd.axes&1 || rd.nx == 1 ? 5 : 1) && s[1] == (rd.axes&2 || rd.ny == 1 ? 7 : 1),"reduction of a slice: the shape to which a slice counts");
  return Vells(double(10+rd.call++));      // (a real number also for complex arguments)
}
static void apply (bool cplx,bool ws,int axes,int nx=2,int ny=2)
{
  RdNode &node = rdnode();
  rd.cplx = cplx; rd.ws = ws; rd.call = 0;
  rd.axes = axes;
  if( rd.axes&1 ) node.reduction_axes_.push_back(0);
  if( rd.axes&2 ) node.reduction_axes_.push_back(1);
  rd.nx = nx; rd.ny = ny;
  rd.fk = vc_split("flags",0,2);     // none, of the shape of the data, collapsed along the first axis
  rd.mask = vc_i32("mask");
  Shape shp(rd.nx,rd.ny);
  Vells &v = cplx ? *new Vells(dcomplex(0),shp,false) : *new Vells(0.,shp,false);
  for( int i=0; i<rd.nx; i++ ) for( int j=0; j<rd.ny; j++ )
  {
    double x = rd.x[i][j] = vc_f64("x"); vc_assume(x == x);
    if( cplx ) v.begin<dcomplex>()[i*rd.ny+j] = dcomplex(1,x); else v.begin<double>()[i*rd.ny+j] = x;
  }
  if( rd.fk )
  {
    int fx = rd.fk == 1 ? rd.nx : 1;
    Vells &f = *new Vells(Shape(fx,rd.ny),0,false);
    for( int i=0; i<fx; i++ ) for( int j=0; j<rd.ny; j++ ) f.begin<FT>()[i*rd.ny+j] = rd.f[i][j] = vc_i32("f");
    v.setDataFlags(f);
  }
  const Vells &r = *new Vells(ws ? node.apply(reduce2,v,LoShape(5,7),rd.mask) : node.apply(reduce1,v,rd.mask));
  int ox = rd.axes&1 ? 1 : rd.nx, oy = rd.axes&2 ? 1 : rd.ny;
  vc_check(rd.call == ox*oy,"reduction along axes: one slice for each element of the result");
  vc_check(r.extent(0) == ox && r.extent(1) == oy && r.nelements() == ox*oy,"reduction along axes: shape of the result");
  vc_check(r.isComplex() == (cplx && !ws),"reduction along axes: type of the result");
  for( int k=0; k<ox*oy; k++ )
    vc_check((r.isComplex() ? r.begin<dcomplex>()[k].imag() : r.begin<double>()[k]) == 10+k,"reduction along axes: the elements of the result are those of the slices");
  vc_cover("end");
}
VC_PROOF(reduce_apply_r1) { apply(false,false,1); }
VC_PROOF(reduce_apply_r2) { apply(false,false,2); }
VC_PROOF(reduce_apply_r3) { apply(false,false,3); }
VC_PROOF(reduce_apply_c1) { apply(true,false,1); }
VC_PROOF(reduce_apply_w1) { apply(true,true,1); }
VC_PROOF(reduce_apply_w2) { apply(false,true,2); }
VC_PROOF(reduce_apply_w3) { apply(true,true,3); }
VC_PROOF(reduce_apply_thin1) { apply(false,true,vc_split("axes",1,3),1,2); }
VC_PROOF(reduce_apply_thin2) { apply(false,true,vc_split("axes",1,3),2,1); }
