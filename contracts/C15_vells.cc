// @property C15
// @sources MEQ/src/Vells.cc DMI/src/NumArray.cc DMI/src/Container.cc DMI/src/BObj.cc DMI/src/CountedRefTarget.cc DMI/src/CountedRefBase.cc DMI/src/SmartBlock.cc
// @libs meq
// @stub * _ZN3DMI8TypeInfo4findENS_8AtomicIDE stub_typeinfo
// @stub * _ZN3DMI13NumArrayFuncs21allocateArrayWithDataEiPvS1_RK10VariVector stub_alloc_array
// @stub * _ZN3DMI13NumArrayFuncs19assignDataReferenceEiPvS1_RK10VariVector stub_assign_ref
// @stub * _ZN3DMI13NumArrayFuncs21destroyPlacementArrayEiiPv stub_destroy_array
// @option * mode=bounded
#include "../contracts/vells.h"
using namespace VellsMath;
static const int N[3] = { 2,3,2 };
// shapes of rank 1 and 2, every pattern of constant and varying axes: 6 cases
static const Shape & mkshape (int code)
{
  Shape &s = *new Shape;
  if( code < 2 ) { s.resize(1); s[0] = code ? N[0] : 1; }
  else { s.resize(2); code -= 2; s[0] = code&1 ? N[0] : 1; s[1] = code&2 ? N[1] : 1; }
  return s;
}
static int ext (const Shape &s,int i) { return i < int(s.size()) ? s[i] : 1; }
// position of the element for output position (i,j)
static int at (const Shape &s,int i,int j)
{
  if( s[0] == 1 ) i = 0;
  if( s.size() < 2 ) return i;
  return i*s[1] + (s[1] == 1 ? 0 : j);
}
static void fill (double &x,const char *name) { x = vc_f64(name); }
static void fill (dcomplex &x,const char *name) { double re = vc_f64(name); double im = vc_f64(name); x = dcomplex(re,im); }
static void fill (int &x,const char *name) { x = vc_i32(name); }
static Vells * alloc (const Shape &s,double *) { return new Vells(double(0),s,false); }
static Vells * alloc (const Shape &s,dcomplex *) { return new Vells(dcomplex(0),s,false); }
static Vells * alloc (const Shape &s,int *) { return new Vells(s,0,false); }
static bool eq (double a,double b) { return a == b; }
static bool eq (int a,int b) { return a == b; }
static bool eq (const dcomplex &a,const dcomplex &b) { return (a.real() == b.real()) & (a.imag() == b.imag()); }
// an array of values with arbitrary contents
template<class T> struct Arg
{
  Vells *v; const Shape &s; T *x; int n;
  Arg (const Shape &sh,const char *name) : s(sh)
  {
    v = alloc(s,(T*)0); n = s.product(); x = new T[n];
    T *p = v->begin<T>();
    for( int i=0; i<n; i++ ) { fill(x[i],name); p[i] = x[i]; }
  }
  const T & operator () (int i,int j) const { return x[at(s,i,j)]; }
  // the argument itself is not changed by an operation
  void same () const
  {
    const T *p = const_cast<const Vells*>(v)->begin<T>();
    bool ok = v->shape() == s;
    for( int i=0; i<n; i++ ) ok = ok & eq(p[i],x[i]);
    vc_check(ok,"operands are not modified");
  }
};
// the value of a result at a position, converted to type T
template<class T> static T value (const Vells &v,int i,int j);
template<> double value<double> (const Vells &v,int i,int j)
{ vc_check(v.isReal(),"the result is real"); return v.begin<double>()[at(v.shape(),i,j)]; }
template<> int value<int> (const Vells &v,int i,int j)
{ vc_check(v.isFlags(),"the result is a flag array"); return v.begin<int>()[at(v.shape(),i,j)]; }
template<> dcomplex value<dcomplex> (const Vells &v,int i,int j)
{
  vc_check(v.isReal() || v.isComplex(),"the result is numeric");
  if( v.isReal() ) return dcomplex(v.begin<double>()[at(v.shape(),i,j)],0);
  return v.begin<dcomplex>()[at(v.shape(),i,j)];
}
template<class A,class B> struct Prom { typedef dcomplex T; };
template<> struct Prom<double,double> { typedef double T; };
template<> struct Prom<int,int> { typedef int T; };
static bool compatible (const Shape &a,const Shape &b)
{
  for( int i=0; i<2; i++ ) if( ext(a,i) != 1 && ext(b,i) != 1 && ext(a,i) != ext(b,i) ) return false;
  return true;
}
// every position of the broadcast of two shapes, and the shape of the result
template<class F> static void each (const Shape &a,const Shape &b,const F &f)
{
  int ni = ext(a,0) > ext(b,0) ? ext(a,0) : ext(b,0), nj = ext(a,1) > ext(b,1) ? ext(a,1) : ext(b,1);
  for( int i=0; i<ni; i++ ) for( int j=0; j<nj; j++ ) f(i,j);
}
static void check_covers (const Vells &r,const Shape &a,const Shape &b)
{
  const Shape &s = r.shape();
  for( int i=0; i<2; i++ ) vc_check(ext(s,i) == (ext(a,i) > 1 ? ext(a,i) : ext(b,i)),"the result varies along every axis along which an argument varies");
}
// generic element-wise contract of a binary operation
template<class TR,class A,class B,class OP,class REF> static void binary (const OP &op,const REF &ref,int maxcode=5,bool shortcut=false)
{
  Arg<A> a(mkshape(vc_split("shape_a",0,maxcode)),"a");
  Arg<B> b(mkshape(vc_split("shape_b",0,maxcode)),"b");
  Vells &r = *new Vells(op(*a.v,*b.v));
  each(a.s,b.s,[&](int i,int j) { vc_check(eq(value<TR>(r,i,j),ref(a(i,j),b(i,j))),"binary operation: every element is the function of the elements of the arguments at the same position"); });
  if( !shortcut ) check_covers(r,a.s,b.s);
  a.same(); b.same();
  vc_cover("end");
}
#define BIN(name,TR,A,B,expr,refexpr,...) VC_PROOF(name) \
  { binary<TR,A,B>([](const Vells &x,const Vells &y)->Vells{ return expr; },[](const A &x,const B &y)->TR{ return refexpr; },##__VA_ARGS__); }
typedef dcomplex cx;
BIN(sub_rr,double,double,double,x-y,x-y)
BIN(sub_rc,cx,double,cx,x-y,x-y)
BIN(sub_cr,cx,cx,double,x-y,x-y)
BIN(sub_cc,cx,cx,cx,x-y,x-y)
BIN(div_rr,double,double,double,x/y,x/y)
BIN(div_cc,cx,cx,cx,x/y,x/y,3)
BIN(add_rr,cx,double,double,x+y,cx(x+y),5,true)
BIN(add_rc,cx,double,cx,x+y,x+y,3,true)
BIN(add_cc,cx,cx,cx,x+y,x+y,3,true)
BIN(mul_rr,cx,double,double,x*y,cx(x*y),5,true)
BIN(mul_cr,cx,cx,double,x*y,x*y,3,true)
BIN(mul_cc,cx,cx,cx,x*y,x*y,3,true)
BIN(pow_rr,double,double,double,VellsMath::pow(x,y),std::pow(x,y))
BIN(tocomplex_rr,cx,double,double,VellsMath::tocomplex(x,y),cx(x,y))
BIN(atan2_rr,double,double,double,VellsMath::atan2(x,y),std::atan2(x,y))
BIN(fmod_rr,double,double,double,VellsMath::fmod(x,y),std::fmod(x,y))
BIN(remainder_rr,double,double,double,VellsMath::remainder(x,y),std::remainder(x,y))
BIN(or_ff,int,int,int,x|y,x|y)
BIN(and_ff,int,int,int,x&y,x&y)
BIN(xor_ff,int,int,int,x^y,x^y)
// unary operations
template<class TR,class A,class OP,class REF> static void unary (const OP &op,const REF &ref,int maxcode=5)
{
  Arg<A> a(mkshape(vc_split("shape",0,maxcode)),"a");
  Vells &r = *new Vells(op(*a.v));
  vc_check(r.shape() == a.s,"unary operation: the result has the shape of the argument");
  each(a.s,a.s,[&](int i,int j) { vc_check(eq(value<TR>(r,i,j),ref(a(i,j))),"unary operation: every element is the function of the element of the argument at the same position"); });
  a.same();
  vc_cover("end");
}
#define UNA(name,TR,A,expr,refexpr,...) VC_PROOF(name) \
  { unary<TR,A>([](const Vells &x)->Vells{ return expr; },[](const A &x)->TR{ return refexpr; },##__VA_ARGS__); }
UNA(neg_r,double,double,-x,-x)
UNA(neg_c,cx,cx,-x,-x)
UNA(not_f,int,int,~x,~x)
#define BOTH(f) UNA(f##_r,double,double,VellsMath::f(x),std::f(x),3) UNA(f##_c,cx,cx,VellsMath::f(x),std::f(x),3)
BOTH(cos) BOTH(cosh) BOTH(exp) BOTH(log) BOTH(sin) BOTH(sinh) BOTH(sqrt) BOTH(tan) BOTH(tanh)
#define REALF(f) UNA(f##_r,double,double,VellsMath::f(x),std::f(x),3)
REALF(ceil) REALF(floor) REALF(acos) REALF(asin) REALF(atan)
#define POW(f,e) UNA(f##_r,double,double,VellsMath::f(x),e,1) UNA(f##_c,cx,cx,VellsMath::f(x),e,1)
POW(sqr,x*x) POW(pow2,x*x) POW(pow3,x*x*x) POW(pow4,(x*x)*(x*x)) POW(pow5,(x*x)*(x*x)*x) POW(pow6,(x*x*x)*(x*x*x)) POW(pow7,(x*x*x)*(x*x*x)*x) POW(pow8,((x*x)*(x*x))*((x*x)*(x*x)))
UNA(abs_r,double,double,VellsMath::abs(x),std::fabs(x))
UNA(abs_c,double,cx,VellsMath::abs(x),std::abs(x))
UNA(fabs_r,double,double,VellsMath::fabs(x),std::fabs(x))
UNA(fabs_c,double,cx,VellsMath::fabs(x),std::abs(x))
UNA(norm_r,double,double,VellsMath::norm(x),x*x)
UNA(norm_c,double,cx,VellsMath::norm(x),x.real()*x.real()+x.imag()*x.imag())
UNA(arg_r,double,double,VellsMath::arg(x),(x<0?M_PI:0))
UNA(arg_c,double,cx,VellsMath::arg(x),std::arg(x))
UNA(real_r,double,double,VellsMath::real(x),x)
UNA(real_c,double,cx,VellsMath::real(x),x.real())
UNA(imag_r,double,double,VellsMath::imag(x),0*x)
UNA(imag_c,double,cx,VellsMath::imag(x),x.imag())
UNA(conj_r,double,double,VellsMath::conj(x),x)
UNA(conj_c,cx,cx,VellsMath::conj(x),std::conj(x))
UNA(or_fs,int,int,x|5,x|5)
UNA(and_fs,int,int,6&x,x&6)
UNA(xor_fs,int,int,x^3,x^3)
// the difference of two angles, each within one turn, is brought back to half a turn
VC_PROOF(posdiff_rr)
{
  Arg<double> a(mkshape(vc_split("shape_a",0,3)),"a"), b(mkshape(vc_split("shape_b",0,3)),"b");
  Vells &r = *new Vells(VellsMath::posdiff(*a.v,*b.v));
  each(a.s,b.s,[&](int i,int j)
  {
    double d = a(i,j) - b(i,j), e = value<double>(r,i,j);
    bool near = (d >= -3*M_PI) & (d <= 3*M_PI);
    vc_check(!near | ((e >= -M_PI - 1e-9) & (e <= M_PI + 1e-9)),"posdiff: lies within half a turn");
    vc_check((e == d) | (e == d + 2*M_PI) | (e == d - 2*M_PI),"posdiff: is the difference up to a full turn");
  });
  a.same(); b.same();
  vc_cover("end");
}
// operations in place: the target becomes what the binary operation gives
template<class TR,class A,class B,class OP,class REF> static void inplace (const OP &op,const REF &ref,int maxcode=3)
{
  Arg<A> a(mkshape(vc_split("shape_a",0,maxcode)),"a");
  Arg<B> b(mkshape(vc_split("shape_b",0,maxcode)),"b");
  Vells &other = *new Vells(*a.v);          // another holder of the same data
  Vells &r = op(*a.v,*b.v);
  vc_check(&r == a.v,"in-place operation: yields its target");
  each(a.s,b.s,[&](int i,int j) { vc_check(eq(value<TR>(r,i,j),ref(a(i,j),b(i,j))),"in-place operation: every element of the target is combined with the element of the argument at the same position"); });
  b.same();
  a.v = &other; a.same();
  vc_cover("end");
}
#define INP(name,TR,A,B,OPER,...) VC_PROOF(name) \
  { inplace<TR,A,B>([](Vells &x,const Vells &y)->Vells&{ return x OPER##= y; },[](const A &x,const B &y)->TR{ return TR(x OPER y); },##__VA_ARGS__); }
INP(in_add_rr,cx,double,double,+)
INP(in_add_cr,cx,cx,double,+)
INP(in_add_rc,cx,double,cx,+)
INP(in_add_cc,cx,cx,cx,+)
INP(in_sub_rr,cx,double,double,-)
INP(in_sub_cr,cx,cx,double,-)
INP(in_sub_rc,cx,double,cx,-)
INP(in_mul_rr,cx,double,double,*)
INP(in_mul_cc,cx,cx,cx,*)
INP(in_div_rr,double,double,double,/)
INP(in_or,int,int,int,|)
INP(in_and,int,int,int,&)
INP(in_xor,int,int,int,^)
VC_PROOF(in_scalar_flag)
{
  Arg<int> a(mkshape(vc_split("shape",0,5)),"a");
  int k = vc_i32("k"), w = vc_split("op",0,2);
  Vells &other = *new Vells(*a.v);
  if( w == 0 ) *a.v |= k; else if( w == 1 ) *a.v &= k; else *a.v ^= k;
  each(a.s,a.s,[&](int i,int j) { vc_check(value<int>(*a.v,i,j) == (w==0 ? a(i,j)|k : w==1 ? a(i,j)&k : a(i,j)^k),"flag operation with a constant"); });
  a.v = &other; a.same();
  vc_cover("end");
}
// reductions: over every sample of the given shape whose flags do not match the mask
template<class T> struct Flagged
{
  Arg<T> a; Arg<int> f; int mask; bool fl;
  Flagged (int maxcode,const char *name) : a(mkshape(vc_split("shape_data",0,maxcode)),name), f(mkshape(vc_split("shape_flags",0,maxcode)),"flags")
  {
    fl = vc_split("has_flags",0,1);
    if( fl ) a.v->setDataFlags(f.v);
    mask = fl ? vc_i32("mask") : -1;
  }
  bool flagged (int i,int j) const { return fl && (f(i,j) & mask); }
};
static int umax (int a,int b) { return a > b ? a : b; }
VC_PROOF(reduce_sum)
{
  Flagged<double> d(3,"x");
  Shape &s = *new Shape(2,3);
  int w = vc_split("func",0,1);
  double e = 0; int n = 0;
  // (flags are tested once, outside of the sum)
  for( int i=0; i<2; i++ ) for( int j=0; j<3; j++ ) if( !d.flagged(i,j) ) { e += d.a(i,j); n++; }
  if( w == 0 ) vc_check(VellsMath::sum(*d.a.v,s,d.mask).as<double>() == e,"sum: over all samples of the shape that are not flagged");
  else vc_check(VellsMath::nelements(*d.a.v,s,d.mask).as<double>() == n,"nelements: number of samples of the shape that are not flagged");
  d.a.same();
  vc_cover("end");
}
VC_PROOF(reduce_product)
{
  Flagged<double> d(1,"x");
  Shape &s = *new Shape(2);
  double e = 1;
  for( int i=0; i<2; i++ ) if( !d.flagged(i,0) ) e *= d.a(i,0);
  vc_check(VellsMath::product(*d.a.v,s,d.mask).as<double>() == e,"product: over all samples of the shape that are not flagged");
  vc_cover("end");
}
VC_PROOF(reduce_minmax)
{
  Flagged<double> d(3,"x");
  int w = vc_split("func",0,1);
  each(d.a.s,d.a.s,[&](int i,int j){ vc_assume((d.a(i,j) > -1e300) & (d.a(i,j) < 1e300)); });
  double r = w == 0 ? VellsMath::min(*d.a.v,d.mask).as<double>() : VellsMath::max(*d.a.v,d.mask).as<double>();
  bool any = false, hit = false, all = true;
  each(d.a.s,d.fl ? d.f.s : d.a.s,[&](int i,int j)
  {
    if( !d.flagged(i,j) ) { double x = d.a(i,j); any = true; hit = hit | (r == x); all = all & (w == 0 ? r <= x : r >= x); }
  });
  vc_check(!any | (hit & all),"min, max: the extremal element that is not flagged");
  vc_cover("end");
}
VC_PROOF(reduce_mean)
{
  Flagged<double> d(3,"x");
  double r = VellsMath::mean(*d.a.v,d.mask).as<double>();
  double e = 0; int n = 0;
  each(d.a.s,d.fl ? d.f.s : d.a.s,[&](int i,int j){ if( !d.flagged(i,j) ) { e += d.a(i,j); n++; } });
  // elements along axes along which nothing varies count once
  vc_check(n == 0 ? r == 0 : r*n == e,"mean: over all elements that are not flagged");
  vc_cover("end");
}
VC_PROOF(reduce_complex)
{
  Flagged<cx> d(1,"x");
  Shape &s = *new Shape(2);
  cx e(0,0); int n = 0;
  for( int i=0; i<2; i++ ) if( !d.flagged(i,0) ) { e += d.a(i,0); n++; }
  vc_check(eq(VellsMath::sum(*d.a.v,s,d.mask).as<cx>(),e),"sum: over all samples of the shape that are not flagged");
  vc_check(VellsMath::nelements(*d.a.v,s,d.mask).as<double>() == n,"nelements: number of samples of the shape that are not flagged");
  vc_cover("end");
}
// min and max of two arrays with flags: a flagged argument does not count
VC_PROOF(minmax_flagged)
{
  Flagged<double> a(1,"a"), b(1,"b");
  int w = vc_split("func",0,1);
  Vells &r = *new Vells(w == 0 ? VellsMath::min(*a.a.v,*b.a.v,a.mask,b.mask) : VellsMath::max(*a.a.v,*b.a.v,a.mask,b.mask));
  for( int i=0; i<2; i++ )
  {
    if( i == 1 && a.a.s[0] == 1 && b.a.s[0] == 1 && !(a.fl && a.f.s[0] == 2) && !(b.fl && b.f.s[0] == 2) ) break;
    double x = a.a(i,0), y = b.a(i,0), v = value<double>(r,i,0);
    bool fa = a.flagged(i,0), fb = b.flagged(i,0);
    double e = fa ? (fb ? x : y) : fb ? x : w == 0 ? (y < x ? y : x) : (x < y ? y : x);
    vc_check(v == e,"min, max of two arrays: the extremal element, flagged ones do not count");
  }
  a.a.same(); b.a.same();
  vc_cover("end");
}
// merging of flags
static void merge_flags (int have,int minb,int maxb)
{
  Arg<int> a(mkshape(vc_split("shape_a",0,have?5:0)),"a"), b(mkshape(vc_split("shape_b",minb,maxb)),"b");
  bool shared = have && vc_split("shared",0,1);
  int full = vc_split("full_mask",0,1);
  int mask = full ? VellsFullFlagMask : vc_i32("mask");
  Vells::Ref &ref = *new Vells::Ref, &holder = *new Vells::Ref;
  if( have ) { ref.attach(a.v); if( shared ) holder.copy(ref); }
  Vells::Ref &bref = *new Vells::Ref(b.v);
  Vells::mergeFlags(ref,*b.v,mask);
  if( !mask )
    vc_check(ref.valid() == have,"mergeFlags: a zero mask does nothing");
  else
  {
    vc_check(ref.valid(),"mergeFlags: yields flags");
    if( ref.valid() )
      each(have ? a.s : b.s,b.s,[&](int i,int j)
      { vc_check(value<int>(*ref,i,j) == ((have ? a(i,j) : 0) | (b(i,j) & mask)),"mergeFlags: the masked flags are added at every position"); });
  }
  if( have && shared ) { Vells *v = const_cast<Vells*>(&*holder); a.v = v; a.same(); }
  b.same();
  vc_cover("end");
}
VC_PROOF(merge_flags_1) { merge_flags(1,0,3); }
VC_PROOF(merge_flags_2) { merge_flags(1,4,5); }
VC_PROOF(merge_flags_0) { merge_flags(0,0,5); }
