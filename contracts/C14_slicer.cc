// @property C14
// @sources MEQ/src/VellsSlicer.cc MEQ/src/VellsSlicerWithFlags.cc MEQ/src/Vells.cc DMI/src/NumArray.cc DMI/src/Container.cc DMI/src/BObj.cc DMI/src/CountedRefTarget.cc DMI/src/CountedRefBase.cc DMI/src/SmartBlock.cc
// @libs meq
// @option * nosummary=1
// @verifies slicer1 ConstVellsSlicer0::init; ConstVellsSlicer0::incr; Vells::DimCounter::init; Vells::DimCounter::incr
// @verifies flagged22 ConstVellsSlicerWithFlags0::init; ConstVellsSlicerWithFlags0::incr
// @verifies refvells ConstVellsSlicer0::initRefVells
// @stub * _ZN3DMI8TypeInfo4findENS_8AtomicIDE stub_typeinfo
// @stub * _ZN3DMI8NumArray4initERK10VariVectoriNS_8AtomicIDE stub_init
// @stub * _ZN3Meq5Vells17_init_static_implEv stub_initstatic
// @stub * _ZN3DMI13NumArrayFuncs21destroyPlacementArrayEiiPv stub_destroy_array
// @stub slicer.* _ZN3Meq17ConstVellsSlicer012initRefVellsEv stub_refvells
// @stub refvells.* _ZN3DMI8NumArray14make_referenceEPvbRK10VariVectorS4_RKS0_ stub_make_reference
// @stub flagged.* _ZN3Meq26ConstVellsSlicerWithFlags012initRefVellsEv stub_refvells_wf
#include "../contracts/vells.h"
#include <MEQ/VellsSlicer.h>
#include <MEQ/VellsSlicerWithFlags.h>
static const int R = Axis::MaxAxis;
static int nref;            // how often the array for the current slice was made (not counted natively)
#ifdef VC_NATIVE
#define NREF(n) true
#else
#define NREF(n) (nref == n)
#endif
extern "C" void stub_refvells (ConstVellsSlicer0 *) { nref++; }
extern "C" void stub_refvells_wf (ConstVellsSlicerWithFlags0 *) { nref++; }
static int ext (const Shape &s,int i) { return i < int(s.size()) ? s[i] : 1; }
extern "C" void stub_initstatic () {}
extern "C" void stub_init (DMI::NumArray *a,const LoShape &shape,int,DMI::TypeId) { a->itsShape = shape; a->itsArrayData = new char[64]; a->itsArrayValid = true; }
// an array of the given shape (without data: slicers only compute addresses)
static Vells & array (const Shape &s,int elsize)
{
#ifdef VC_NATIVE
  double total = 1; for( size_t i=0; i<s.size(); i++ ) total *= s[i];
  vc_assume(total < 1e7);
  return elsize == 4 ? *new Vells(s,0,true) : elsize == 8 ? *new Vells(0.,s,true) : *new Vells(dcomplex(0),s,true);
#else
  Vells &v = *new Vells(*new DMI::NumArray);
  v.itsShape = s; v.itsElemSize = elsize; v.itsArrayValid = true; v.itsArrayData = new char[64];
  return v;
#endif
}
// a slicer as its constructor makes it, but for the array that refers to the current slice
template<class S> static S * mkslicer ()
{
#ifdef VC_NATIVE
  return new S;
#else
  S *p = static_cast<S*>(::operator new(sizeof(S)));
  memset((void*)p,0,sizeof(S));
  new (&p->shape_) Shape; new (&p->strides_) Shape; new (&p->ns_shape_) Shape;
  return p;
#endif
}
static ConstVellsSlicerWithFlags0 * mkslicer_wf ()
{
  ConstVellsSlicerWithFlags0 *p = mkslicer<ConstVellsSlicerWithFlags0>();
#ifndef VC_NATIVE
  new (&p->flag_shape_) Shape; new (&p->flag_strides_) Shape;
#endif
  return p;
}
// any choice of different axes (they may lie beyond the rank), in any order
static int pick_axes (int *axes,int rank,int maxn)
{
  int n = vc_split("naxes",1,maxn);
  unsigned used = 0;
  for( int i=0; i<n; i++ )
  {
    int a = vc_split("axis",0,rank);      // rank: an axis beyond the array
    if( a == rank ) a = rank+i;
    vc_assume(!(used&(1u<<a))); used |= 1u<<a;
    axes[i] = a;
  }
  return n;
}
static void sym_shape (Shape &s,int rank,const char *name)
{
  s.resize(rank);
  unsigned total = 1;
  for( int i=rank-1; i>=0; i-- )
  {
    int n = vc_i32(name); vc_assume(n >= 1);
    s[i] = n;
    total *= n; vc_assume(total >= 1 && total < 1u<<27);        // (sizes and strides, in bytes, are 32 bit numbers)
  }
}
// any position of the counter that has a successor: axis d advances, the faster ones tick over
static int sym_position (Vells::DimCounter &c)
{
  int d = vc_split("advances",0,R-1); vc_assume(d < c.rank_);
  for( int i=0; i<c.rank_; i++ )      // (the counter has its axes in reverse order)
  {
    int n = c.shape_[i];
    int k = c.counter_[i] = i < d ? n-1 : vc_i32("position");
    vc_assume(k >= 0 && k < n);
    if( i == d ) vc_assume(k+1 < n);
  }
  return d;
}
static void slicer (int rank)
{
  Shape &s = *new Shape; sym_shape(s,rank,"shape");
  static const int sizes[3] = { 4,8,16 };
  int elsize = sizes[vc_split("type",0,2)];
  Vells &v = array(s,elsize);
  int axes[R*2]; int n = pick_axes(axes,rank,rank < 3 ? rank : 3);
  ConstVellsSlicer0 &sl = *mkslicer<ConstVellsSlicer0>();
  nref = 0;
  sl.init(v,false,axes,n);
  vc_check(NREF(1) && sl.pdata_ == v.itsArrayData && sl.valid(),"the first slice starts at the begin of the data");
  unsigned stride[R], sz = 1, mask = 0;
  for( int i=rank-1; i>=0; i-- ) { stride[i] = sz; sz *= s[i]; }
  vc_check(int(sl.shape_.size()) == n && int(sl.strides_.size()) == n,"rank of the slice");
  for( int i=0; i<n; i++ )
  {
    vc_check(sl.shape_[i] == ext(s,axes[i]),"the slice spans the axes asked for");
    vc_check(ext(s,axes[i]) == 1 || unsigned(sl.strides_[i]) == stride[axes[i]],"the strides of the slice are those of its axes");
    if( axes[i] < rank ) mask |= 1u<<axes[i];
  }
  for( int i=0; i<rank; i++ )
    vc_check(ext(sl.ns_shape_,i) == (mask&(1u<<i) ? 1 : s[i]),"the slicer iterates over all axes that are not sliced");
  vc_check(sl.counter_.rank() <= rank,"no further axes are iterated");
  if( !sl.counter_.rank() ) { vc_check(!sl.incr() && !sl.valid(),"a single slice"); return; }
  // any step from any position
  int last = vc_split("last",0,1);
  if( last )
  {
    for( int i=0; i<sl.counter_.rank_; i++ ) sl.counter_.counter_[i] = sl.counter_.shape_[i]-1;
    vc_check(!sl.incr() && !sl.valid() && NREF(1),"the slicer ends after the last slice");
    return;
  }
  int d = sl.counter_.rank_ - 1 - sym_position(sl.counter_);
#ifdef VC_NATIVE
  for( int i=0; i<sl.counter_.rank_; i++ ) sl.pdata_ += long(sl.counter_.counter_[sl.counter_.rank_-1-i])*stride[i]*elsize;
#endif
  char *p0 = sl.pdata_;
  bool res = sl.incr();
  vc_check(res && NREF(2) && sl.valid(),"there is a further slice");
  // the expected advance: position(c) is the sum of c[i]*stride[i], c[d] has advanced by one and all faster axes went back from 
  // n[i]-1 to 0, that is by (n[i]-1)*stride[i] = stride[i-1]-stride[i]
  unsigned delta = stride[d];
  for( int i=d+1; i<rank; i++ )
    if( !(mask&(1u<<i)) ) delta -= stride[i-1] - stride[i];
  vc_check(sl.pdata_ - p0 == long(int(delta))*elsize,"the next slice starts at the position of its first element");
  vc_cover("end");
}
VC_PROOF(slicer1) { slicer(1); }
VC_PROOF(slicer2) { slicer(2); }
VC_PROOF(slicer3) { slicer(3); }
VC_PROOF(slicer4) { slicer(4); }

// -------------------------------------------------------------------------------- slicers of arrays with flags
// The data and the flags of an array may have different ranks, and each may be collapsed (extent 1) along an axis along which
// the other is not.  The slicer then walks through both, each with its own strides.
static void flagged (int rv,int rf,int k0=-1,int maxn=2)
{
  int rank = rv > rf ? rv : rf;
  Shape &vs = *new Shape, &fs = *new Shape;
  vs.resize(rv); fs.resize(rf);
  int ns[R]; unsigned vstr[R],fstr[R], vt = 1, ft = 1;
  for( int i=rank-1; i>=0; i-- )
  {
    ns[i] = vc_i32("extent"); vc_assume(ns[i] >= 2);
    int k = !i && k0 >= 0 ? k0 : vc_split("collapsed",0,3);          // which of data and flags have the axis
    int v = (k&1) ? ns[i] : 1, f = (k&2) ? ns[i] : 1;
    if( i < rv ) vs[i] = v; else vc_assume(v == 1);
    if( i < rf ) fs[i] = f; else vc_assume(f == 1);
    if( !k ) ns[i] = 1;
    vstr[i] = vt; fstr[i] = ft;
    vt *= v; ft *= f;
    vc_assume(vt >= 1 && vt < 1u<<27 && ft >= 1 && ft < 1u<<27);
  }
  bool wf = rf > 0;
  Vells &v = array(vs,8);
  Vells &f = wf ? array(fs,4) : v;
  if( wf ) v.setDataFlags(f);
  int axes[R*2]; int n = pick_axes(axes,rank,rank < maxn ? rank : maxn);
  ConstVellsSlicerWithFlags0 &sl = *mkslicer_wf();
  nref = 0;
  sl.init(v,axes,n);
  vc_check(NREF(1) && sl.pdata_ == v.itsArrayData && sl.valid(),"the first slice starts at the begin of the data");
  if( wf ) vc_check(sl.pflags_ == f.itsArrayData,"the first slice starts at the begin of the flags");
  unsigned mask = 0;
  for( int i=0; i<n; i++ )
  {
    int a = axes[i];
    vc_check(sl.shape_[i] == ext(vs,a) && sl.flag_shape_[i] == (wf ? ext(fs,a) : 1),"the slice spans the axes asked for");
    vc_check(ext(vs,a) == 1 || unsigned(sl.strides_[i]) == vstr[a],"the strides of the slice are those of its axes");
    vc_check(!wf || ext(fs,a) == 1 || unsigned(sl.flag_strides_[i]) == fstr[a],"the strides of the flags are those of their axes");
    if( a < rank ) mask |= 1u<<a;
  }
  for( int i=0; i<rank; i++ )
    vc_check(ext(sl.ns_shape_,i) == (mask&(1u<<i) ? 1 : ns[i]),"the slicer iterates over all axes of data and flags that are not sliced");
  vc_check(sl.counter_.rank() <= rank,"no further axes are iterated");
  if( vc_split("last",0,1) )
  {
    for( int i=0; i<sl.counter_.rank_; i++ ) sl.counter_.counter_[i] = sl.counter_.shape_[i]-1;
    vc_check(!sl.incr() && !sl.valid() && NREF(1),"the slicer ends after the last slice");
    return;
  }
  int d = sl.counter_.rank_ - 1 - sym_position(sl.counter_);
#ifdef VC_NATIVE
  for( int i=0; i<sl.counter_.rank_; i++ )
  {
    long c = sl.counter_.counter_[sl.counter_.rank_-1-i];
    if( ext(vs,i) > 1 ) sl.pdata_ += c*vstr[i]*8;
    if( wf && ext(fs,i) > 1 ) sl.pflags_ += c*fstr[i]*4;
  }
#endif
  char *p0 = sl.pdata_; const char *f0 = sl.pflags_;
  bool res = sl.incr();
  vc_check(res && NREF(2) && sl.valid(),"there is a further slice");
  // (see above: along an axis that is collapsed the position is 0)
  unsigned vd = 0, fd = 0;
  for( int i=d; i<rank; i++ )
    if( !(mask&(1u<<i)) )
    {
      if( ext(vs,i) > 1 ) vd += i == d ? vstr[i] : vstr[i]-vstr[i-1];
      if( ext(fs,i) > 1 ) fd += i == d ? fstr[i] : fstr[i]-fstr[i-1];
    }
  vc_check(sl.pdata_ - p0 == long(int(vd))*8,"the data of the next slice start at the position of its first element");
  if( wf ) vc_check(sl.pflags_ - f0 == long(int(fd))*4,"the flags of the next slice start at the position of its first element");
  vc_cover("end");
}
VC_PROOF(flagged10) { flagged(1,0); }
VC_PROOF(flagged11) { flagged(1,1); }
VC_PROOF(flagged20) { flagged(2,0); }
VC_PROOF(flagged12) { flagged(1,2); }
VC_PROOF(flagged21) { flagged(2,1); }
VC_PROOF(flagged22) { flagged(2,2); }
VC_PROOF(flagged3_0) { flagged(3,3,0,1); }
VC_PROOF(flagged3_1) { flagged(3,3,1,1); }
VC_PROOF(flagged3_2) { flagged(3,3,2,1); }
VC_PROOF(flagged3_3) { flagged(3,3,3,1); }
VC_PROOF(flagged32_0) { flagged(3,2,1,2); }
VC_PROOF(flagged32_3) { flagged(3,2,3,2); }

// -------------------------------------------------------------------------------- the array presented for a slice
#ifndef VC_NATIVE
struct Ref { const void *self,*data; bool wr; const Shape *shape,*strides; const DMI::NumArray *other; };
static Ref refs[4]; static int nrefs;
extern "C" void stub_make_reference (DMI::NumArray *self,void *data,bool wr,const LoShape &shape,const LoShape &strides,const DMI::NumArray &other)
{ refs[nrefs++] = Ref{self,data,wr,&shape,&strides,&other}; }
VC_PROOF(refvells)
{
  Shape &s = *new Shape; s.resize(1); s[0] = 4;
  Vells &v = array(s,8);
  ConstVellsSlicer0 &sl = *mkslicer<ConstVellsSlicer0>();
  sl.pvells0_ = &v; sl.writable_ = vc_bool("writable"); sl.pdata_ = v.itsArrayData + 8*vc_split("pos",0,3);
  nrefs = 0;
  sl.initRefVells();
  const DMI::NumArray *a = &sl.vells_,*other = &v;
  vc_check(nrefs == 1 && refs[0].self == a && refs[0].data == sl.pdata_ && refs[0].wr == sl.writable_ &&
           refs[0].shape == &sl.shape_ && refs[0].strides == &sl.strides_ && refs[0].other == other,
           "the current slice is presented as a reference to the elements at the current position; writable only for writable slicers");
  vc_cover("end");
}
#endif
