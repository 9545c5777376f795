// @property C13
// @sources MEQ/src/Vells.cc DMI/src/NumArray.cc DMI/src/Container.cc DMI/src/BObj.cc DMI/src/CountedRefTarget.cc DMI/src/CountedRefBase.cc
// @libs meq
// @verifies broadcast2a Meq::Vells::computeStrides
// @verifies broadcast4a Meq::Vells::computeStrides
// @verifies in_place_a Meq::Vells::canApplyInPlace
// @verifies own_strides Meq::Vells::computeStrides
// @verifies compatible Meq::Vells::isCompatible; Meq::Vells::isCongruent
// @verifies merge Meq::Axis::mergeShape
// @verifies axis_shapes Meq::Axis::addAxisToShape; Meq::Axis::vectorShape; Meq::Axis::matrixShape; Meq::Axis::degenerateShape
// @verifies counter Meq::Vells::DimCounter::incr; Meq::Vells::DimCounter::init
// @option * nosummary=1
#include <vc.h>
#include <MEQ/TID-Meq.h>
#include <MEQ/Vells.h>
using namespace Meq;
typedef Vells::Shape Shape;
static const int R = Axis::MaxAxis;
// any shape of the given rank, any extents from 1
static void sym_shape (Shape &s,int rank,const char *name)
{
  s.resize(rank);
  for( int i=0; i<rank; i++ ) { int n = vc_i32(name); vc_assume(n >= 1); s[i] = n; }
}
// a Vells of the given rank, any extents, real or complex (no data)
struct SymVells
{
  Vells *v; int cplx;
  SymVells (int rank,const char *name)
  {
    v = new Vells(*new DMI::NumArray);
    sym_shape(v->itsShape,rank,name);
    cplx = vc_split("complex",0,1);
    v->itsScaType = cplx ? Tpdcomplex : Tpdouble;
  }
};
static Vells::Strides *new_strides () { return reinterpret_cast<Vells::Strides*>(new int[R]); }
static int ext (const Shape &s,int i) { return i < int(s.size()) ? s[i] : 1; }
// strides of one argument over an output of the given rank (both in the order fastest axis first): advancing 
// along axes 0..d together must lead from the last element of the sub-array spanned by axes below d to the next 
// element along axis d (or back to the beginning of the sub-array, if the argument is constant along d)
static void check_strides (const Vells::Strides &st,const Shape &s,int rank)
{
  unsigned sum = 0, sub = 1;
  for( int d=0; d<rank; d++ )
  {
    int n = ext(s,rank-1-d);
    unsigned expect = n>1 ? 1u : 1u - sub;
    vc_check(sum + st[d] == expect,"strides: a step along axis d leads to the next element of the argument, or back to the begin of the sub-array along which it is constant");
    sum = expect; sub *= n;
  }
}
static void broadcast2 (int lo,int hi)
{
  int r0 = vc_split("rank0",lo,hi), r1 = vc_split("rank1",0,R);
  Shape &a = *new Shape, &b = *new Shape, &out = *new Shape;
  sym_shape(a,r0,"a"); sym_shape(b,r1,"b");
  int rank = r0 > r1 ? r0 : r1;
  bool compat = true;
  for( int i=0; i<rank; i++ )
    compat = compat & ( (ext(a,i) == 1) | (ext(b,i) == 1) | (ext(a,i) == ext(b,i)) );
  Vells::Strides *st = new Vells::Strides[2];
  std::string &name = *new std::string("op");
  bool threw = false;
  try { Vells::computeStrides(out,st,a,b,name); } catch( ... ) { threw = true; }
  vc_check(threw == !compat,"combining two shapes fails exactly if they differ along an axis along which both vary");
  if( !threw )
  {
    vc_check(int(out.size()) == rank,"broadcast: rank of the result");
    for( int i=0; i<rank; i++ )
      vc_check(out[i] == (ext(a,i) > 1 ? ext(a,i) : ext(b,i)),"broadcast: the result varies along every axis along which an argument varies");
    check_strides(st[0],a,rank);
    check_strides(st[1],b,rank);
  }
  vc_cover("end");
}
VC_PROOF(broadcast2a) { broadcast2(0,2); }
VC_PROOF(broadcast2b) { broadcast2(3,4); }
VC_PROOF(broadcast2c) { broadcast2(5,6); }
VC_PROOF(broadcast2d) { broadcast2(7,8); }
// two arguments and their flags
static void broadcast4 (int lo,int hi,bool which)
{
  int r0 = vc_split("rank0",lo,hi), r1 = vc_split("rank1",0,2), r2 = vc_split("rank2",0,2), r3 = vc_split("rank3",0,2);
  int r[4] = { r0,r1,r2,r3 };
  Shape &out = *new Shape;
  const Shape *s[4];
  int rank = 0;
  for( int i=0; i<4; i++ ) { Shape *p = new Shape; sym_shape(*p,r[i],"n"); s[i] = p; if( r[i] > rank ) rank = r[i]; }
  bool compat = true;
  for( int i=0; i<rank; i++ )
    for( int j=0; j<4; j++ ) for( int k=0; k<j; k++ )
      compat = compat & ( (ext(*s[j],i) == 1) | (ext(*s[k],i) == 1) | (ext(*s[j],i) == ext(*s[k],i)) );
  if( !which ) vc_assume(compat);
  Vells::Strides *st = new Vells::Strides[4];
  std::string &name = *new std::string("op");
  bool threw = false;
  try { Vells::computeStrides(out,st,4,s,name); } catch( ... ) { threw = true; }
  vc_check(threw == !compat,"combining shapes fails exactly if two of them differ along an axis along which both vary");
  if( !threw && !which )
  {
    vc_check(int(out.size()) == rank,"broadcast: rank of the result");
    for( int i=0; i<rank; i++ )
    {
      int n = 1;
      for( int j=0; j<4; j++ ) n = ext(*s[j],i) > n ? ext(*s[j],i) : n;
      vc_check(out[i] == n,"broadcast: the result varies along every axis along which an argument varies");
    }
    for( int j=0; j<4; j++ ) check_strides(st[j],*s[j],rank);
  }
  vc_cover("end");
}
VC_PROOF(broadcast4a) { broadcast4(0,1,false); }
VC_PROOF(broadcast4b) { broadcast4(2,2,false); }
VC_PROOF(broadcast4c) { broadcast4(0,2,true); }
// an argument of an operation updating its target in place
static void in_place (int lo,int hi,bool which)
{
  int r0 = vc_split("rank0",lo,hi), r1 = vc_split("rank1",0,which?R:hi);
  SymVells a(r0,"a"), b(r1,"b");
  const Shape &sa = a.v->itsShape, &sb = b.v->itsShape;
  bool fits = r0 >= r1 && !(a.cplx == 0 && b.cplx == 1), ok = true, compat = true;
  for( int i=r0-1; i>=0; i-- )
  {
    int n = ext(sa,i), m = ext(sb,i);
    ok = ok & ( (m == 1) | (n == m) );
    compat = compat & ( (m == 1) | (n == m) | (n == 1) );
  }
  if( !which ) vc_assume(fits & ok);
  Vells::Strides &st = *new_strides();
  std::string &name = *new std::string("op");
  bool threw = false, r = false;
  try { r = a.v->canApplyInPlace(*b.v,st,name); } catch( ... ) { threw = true; }
  if( which )
  {
    if( !threw ) vc_check(r == (fits & ok),"in place: possible exactly if the argument varies along no further axis (and is not complex while the target is real)");
    else vc_check(fits & !compat,"in place: fails only for incompatible shapes");
  }
  else check_strides(st,sb,r0);
  vc_cover("end");
}
VC_PROOF(in_place_a) { in_place(0,5,false); }
VC_PROOF(in_place_b) { in_place(6,8,false); }
VC_PROOF(in_place_c) { in_place(0,8,true); }
// the strides of a Vells of its own: plain row-major layout
VC_PROOF(own_strides)
{
  int r = vc_split("rank",0,R);
  Shape &s = *new Shape; sym_shape(s,r,"s");
  Vells::Strides &st = *new_strides();
  int tot = Vells::computeStrides(st,s);
  unsigned sub = 1;
  for( int i=R-1; i>=0; i-- )
    if( i >= r ) vc_check(st[i] == 0,"own strides: axes beyond the rank do not move");
    else { vc_check(st[i] == int(sub),"own strides: row-major layout"); sub *= s[i]; }
  vc_check(tot == int(sub) && tot == s.product(),"own strides: number of elements");
  vc_cover("end");
}
VC_PROOF(compatible)
{
  int r0 = vc_split("rank0",0,R), r1 = vc_split("rank1",0,R);
  Shape &a = *new Shape, &b = *new Shape;
  sym_shape(a,r0,"a"); sym_shape(b,r1,"b");
  bool sub = true, cong = r0 == r1;
  for( int i=0; i<r0 && i<r1; i++ )
  {
    sub = sub & ( (a[i] == 1) | (a[i] == b[i]) );
    cong = cong & ( (a[i] == b[i]) | (a[i] == 1) | (b[i] == 1) );
  }
  vc_check(Vells::isCompatible(a,b) == sub,"compatible: constant or equal along every common axis");
  vc_check(Vells::isCongruent(a,b) == cong,"congruent: equal or constant along every axis");
  vc_cover("end");
}
VC_PROOF(merge)
{
  int r0 = vc_split("rank0",0,R), r1 = vc_split("rank1",0,R);
  Shape &a = *new Shape, &b = *new Shape, &o = *new Shape;
  sym_shape(a,r0,"a"); sym_shape(b,r1,"b");
  o = a;
  int rank = r0 > r1 ? r0 : r1;
  bool compat = true;
  for( int i=0; i<rank; i++ )
    compat = compat & ( (ext(a,i) == 1) | (ext(b,i) == 1) | (ext(a,i) == ext(b,i)) );
  bool r = Axis::mergeShape(a,b);
  vc_check(r == compat,"mergeShape: succeeds exactly for compatible shapes");
  if( r )
  {
    vc_check(int(a.size()) == rank,"mergeShape: rank of the result");
    for( int i=0; i<rank; i++ )
      vc_check(a[i] == (ext(o,i) > 1 ? ext(o,i) : ext(b,i)),"mergeShape: the result varies along every axis along which either shape varies");
  }
  vc_cover("end");
}
VC_PROOF(axis_shapes)
{
  int r = vc_split("rank",0,R), ax = vc_split("axis",0,R-1);
  int n = vc_i32("n");
  Shape &a = *new Shape, &o = *new Shape;
  sym_shape(a,r,"a"); o = a;
  Axis::addAxisToShape(a,ax,n);
  vc_check(int(a.size()) == (r > ax ? r : ax+1),"addAxisToShape: rank");
  for( int i=0; i<int(a.size()); i++ ) vc_check(a[i] == (i == ax ? n : ext(o,i)),"addAxisToShape: only the given axis changes");
  Shape &v = *new Shape(Axis::vectorShape(ax,n));
  vc_check(int(v.size()) == ax+1,"vectorShape: rank");
  for( int i=0; i<int(v.size()); i++ ) vc_check(v[i] == (i == ax ? n : 1),"vectorShape: varies along the given axis only");
  int iy = vc_split("iy",0,R-1), m = vc_i32("m");
  if( iy != ax )
  {
    Shape &w = *new Shape(Axis::matrixShape(ax,iy,n,m));
    vc_check(int(w.size()) == (ax > iy ? ax : iy)+1,"matrixShape: rank");
    for( int i=0; i<int(w.size()); i++ ) vc_check(w[i] == (i == ax ? n : i == iy ? m : 1),"matrixShape: varies along the two axes only");
  }
  vc_cover("end");
}
VC_PROOF(counter)
{
  int rank = vc_split("rank",0,R);
  Shape &s = *new Shape; sym_shape(s,rank,"s");
  Vells::DimCounter &c = *new Vells::DimCounter(s);
  vc_check(c.valid() && c.rank() == rank,"counter: initially valid");
  for( int i=0; i<rank; i++ )
    vc_check(c.shape(i) == s[i] && c.counter(i) == 0,"counter: starts at the first element");
  // any position
  int old[R];
  for( int i=0; i<rank; i++ )
  {
    int k = vc_i32("c"); vc_assume(k >= 0 && k < s[i]);
    c.counter_[rank-1-i] = old[i] = k;
  }
  int nd = c.incr();
  // row-major successor
  int j = rank-1;
  bool carry = true; int dims = 0;
  for( ; j >= 0; j-- )
  {
    int e = carry ? (old[j]+1 < s[j] ? old[j]+1 : 0) : old[j];
    dims += carry;
    vc_check(c.counter(j) == e,"counter: moves to the next position, last axis fastest");
    carry = carry & (old[j]+1 >= s[j]);
  }
  vc_check(nd == (carry ? 0 : dims),"counter: reports the number of axes advanced, 0 after the last position");
  vc_check(c.valid() == !carry,"counter: valid until the last position");
  vc_cover("end");
}
