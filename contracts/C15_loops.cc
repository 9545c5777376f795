// @property C15
// @sources MEQ/src/Vells.cc DMI/src/NumArray.cc DMI/src/Container.cc DMI/src/BObj.cc DMI/src/CountedRefTarget.cc DMI/src/CountedRefBase.cc DMI/src/SmartBlock.cc
// @libs meq
// @stub * _ZN3DMI8TypeInfo4findENS_8AtomicIDE stub_typeinfo
// @stub * _ZN3DMI8NumArray4initERK10VariVectoriNS_8AtomicIDE stub_init
// @stub * _ZN3DMI8NumArray12makeWritableEv stub_nop
// @stub * _ZN3DMI13NumArrayFuncs21destroyPlacementArrayEiiPv stub_destroy_array
// element-wise loops over arrays of any length
#include "../contracts/vells.h"
typedef dcomplex Cx;
// contract of NumArray::init (checked on small shapes in C15_vells.cc): storage of its own for as many elements as the shape has
extern "C" void stub_init (DMI::NumArray *a,const LoShape &shape,int,DMI::TypeId)
{
  a->itsShape = shape;
  a->itsSize = shape.product();
  a->itsArrayData = a->itsScaType == Tpdouble ? (char*)vc_array<double>("result",a->itsSize) : a->itsScaType == Tpint ? (char*)vc_array<int>("result",a->itsSize) : (char*)vc_array<Cx>("result",a->itsSize);
  a->itsArrayValid = true;
}
extern "C" void stub_nop (DMI::NumArray *) {}
template<class T> struct Arg
{
  Vells *v; uint64_t n; T *x;
  Arg (const char *name,const char *size,bool one=false,uint64_t least=1)
  {
    n = one ? 1 : vc_size(size); vc_assume(n >= (one ? 1 : least));
#ifdef VC_NATIVE
    v = alloc((T*)0,Shape(int(n)));
    T *p = vc_array<T>(name,n);
    for( uint64_t i=0; i<n; i++ ) v->begin<T>()[i] = p[i];
    x = p;
#else
    v = new Vells(*new DMI::NumArray);
    v->itsShape = Shape(int(n)); v->itsSize = n; v->itsScaType = typeIdOf(T); v->itsElemSize = sizeof(T);
    x = vc_array<T>(name,n);
    v->itsArrayData = (char*)x; v->itsArrayValid = true;
#endif
  }
  static Vells * alloc (double *,const Shape &s) { return new Vells(0.,s,false); }
  static Vells * alloc (Cx *,const Shape &s) { return new Vells(Cx(0),s,false); }
  static Vells * alloc (int *,const Shape &s) { return new Vells(s,0,false); }
};
static bool eq (double a,double b) { return a == b; }
static bool eq (int a,int b) { return a == b; }
static bool eq (const Cx &a,const Cx &b) { return (a.real() == b.real()) & (a.imag() == b.imag()); }
// unary operations: every element, arrays of any length
template<class TR,class A,class OP,class REF> static void unary (const OP &op,const REF &ref)
{
  Arg<A> a("a","n");
  const Vells &r = *new Vells(op(*a.v));
  vc_check(r.nelements() == int(a.n),"unary operation: the result has the shape of the argument");
  const TR *p = r.begin<TR>();
  vc_check(vc_forall(0,a.n,[&](uint64_t i){ return eq(p[i],ref(a.x[i])); }),"unary operation: every element is the function of the element of the argument at the same position");
  vc_cover("end");
}
#define UNA(name,TR,A,expr,refexpr) VC_PROOF(name) \
  { unary<TR,A>([](const Vells &x)->Vells{ return expr; },[](const A &x)->TR{ return refexpr; }); }
typedef Cx cx;
using namespace VellsMath;
UNA(all_neg_r,double,double,-x,-x)
UNA(all_neg_c,cx,cx,-x,-x)
UNA(all_not_f,int,int,~x,~x)
#define BOTH(f) UNA(all_##f##_r,double,double,VellsMath::f(x),std::f(x)) UNA(all_##f##_c,cx,cx,VellsMath::f(x),std::f(x))
BOTH(cos) BOTH(cosh) BOTH(exp) BOTH(log) BOTH(sin) BOTH(sinh) BOTH(sqrt) BOTH(tan) BOTH(tanh)
#define REALF(f) UNA(all_##f##_r,double,double,VellsMath::f(x),std::f(x))
REALF(ceil) REALF(floor) REALF(acos) REALF(asin) REALF(atan)
#define POW(f,e) UNA(all_##f##_r,double,double,VellsMath::f(x),e)
POW(sqr,x*x) POW(pow2,x*x) POW(pow3,x*x*x) POW(pow4,(x*x)*(x*x)) POW(pow5,(x*x)*(x*x)*x) POW(pow6,(x*x*x)*(x*x*x)) POW(pow7,(x*x*x)*(x*x*x)*x) POW(pow8,((x*x)*(x*x))*((x*x)*(x*x)))
UNA(all_abs_r,double,double,VellsMath::abs(x),std::fabs(x))
UNA(all_abs_c,double,cx,VellsMath::abs(x),std::abs(x))
UNA(all_fabs_r,double,double,VellsMath::fabs(x),std::fabs(x))
UNA(all_norm_r,double,double,VellsMath::norm(x),x*x)
UNA(all_norm_c,double,cx,VellsMath::norm(x),x.real()*x.real()+x.imag()*x.imag())
UNA(all_arg_r,double,double,VellsMath::arg(x),(x<0?M_PI:0))
UNA(all_arg_c,double,cx,VellsMath::arg(x),std::arg(x))
UNA(all_real_c,double,cx,VellsMath::real(x),x.real())
UNA(all_imag_c,double,cx,VellsMath::imag(x),x.imag())
UNA(all_conj_c,cx,cx,VellsMath::conj(x),std::conj(x))
UNA(all_or_fs,int,int,x|5,x|5)
UNA(all_and_fs,int,int,6&x,x&6)
UNA(all_xor_fs,int,int,x^3,x^3)
// binary operations: arrays of any (same) length, or one of them constant
template<class TR,class A,class B,class OP,class REF> static void binary (const OP &op,const REF &ref,int maxw=2)
{
  int w = vc_split("which_is_constant",0,maxw);
  Arg<A> a("a",w == 1 ? "one" : "n",w == 1,2);
  Arg<B> b("b",w == 2 ? "one" : "n",w == 2,2);
  vc_assume(w || a.n == b.n);
  uint64_t n = w == 1 ? b.n : a.n;
  const Vells &r = *new Vells(op(*a.v,*b.v));
  vc_check(r.nelements() == int(n),"binary operation: shape of the result");
  const TR *p = r.begin<TR>();
  vc_check(vc_forall(0,n,[&](uint64_t i){ return eq(p[i],ref(a.x[w == 1 ? 0 : i],b.x[w == 2 ? 0 : i])); }),"binary operation: every element");
  vc_cover("end");
}
#define BIN(name,TR,A,B,expr,refexpr) VC_PROOF(name) \
  { binary<TR,A,B>([](const Vells &x,const Vells &y)->Vells{ return expr; },[](const A &x,const B &y)->TR{ return refexpr; }); }
BIN(all_sub_rr,double,double,double,x-y,x-y)
BIN(all_sub_rc,cx,double,cx,x-y,x-y)
BIN(all_sub_cr,cx,cx,double,x-y,x-y)
BIN(all_sub_cc,cx,cx,cx,x-y,x-y)
BIN(all_div_rr,double,double,double,x/y,x/y)
BIN(all_div_cc,cx,cx,cx,x/y,x/y)
BIN(all_pow_rr,double,double,double,VellsMath::pow(x,y),std::pow(x,y))
BIN(all_tocomplex_rr,cx,double,double,VellsMath::tocomplex(x,y),cx(x,y))
BIN(all_atan2_rr,double,double,double,VellsMath::atan2(x,y),std::atan2(x,y))
BIN(all_fmod_rr,double,double,double,VellsMath::fmod(x,y),std::fmod(x,y))
BIN(all_remainder_rr,double,double,double,VellsMath::remainder(x,y),std::remainder(x,y))
BIN(all_or_ff,int,int,int,x|y,x|y)
BIN(all_and_ff,int,int,int,x&y,x&y)
BIN(all_xor_ff,int,int,int,x^y,x^y)
// add and mul keep a constant argument of zero, one (or anything of the right type) as it is: two varying arguments
#define BINV(name,TR,A,B,expr,refexpr) VC_PROOF(name) \
  { binary<TR,A,B>([](const Vells &x,const Vells &y)->Vells{ return expr; },[](const A &x,const B &y)->TR{ return refexpr; },0); }
BINV(all_add_rr,double,double,double,x+y,x+y)
BINV(all_add_rc,cx,double,cx,x+y,x+y)
BINV(all_add_cc,cx,cx,cx,x+y,x+y)
BINV(all_mul_rr,double,double,double,x*y,x*y)
BINV(all_mul_rc,cx,double,cx,x*y,x*y)
BINV(all_mul_cc,cx,cx,cx,x*y,x*y)
// operations in place: target and argument of the same length, or constant argument
template<class A,class B,class OP,class REF> static void inplace (const OP &op,const REF &ref,bool maybe_constant=true)
{
  bool constant = maybe_constant && vc_split("argument_is_constant",0,1);
  Arg<A> a("a","n",false,2);
  Arg<B> b("b",constant ? "one" : "n",constant,2);
  vc_assume(constant || a.n == b.n);
  const A *old = a.x;
#ifndef VC_NATIVE
  // the target's data is another array with the same contents
  A *x = vc_array<A>("target",a.n);
  vc_assume(vc_forall(0,a.n,[&](uint64_t i){ return eq(x[i],old[i]); }));
  a.v->itsArrayData = (char*)x;
#endif
  const Vells &r = op(*a.v,*b.v);
  vc_check(&r == a.v && r.nelements() == int(a.n),"in-place operation: yields its target");
  const A *p = r.begin<A>();
  vc_check(vc_forall(0,a.n,[&](uint64_t i){ return eq(p[i],ref(old[i],b.x[constant ? 0 : i])); }),"in-place operation: every element of the target is combined with the element of the argument at the same position");
  vc_cover("end");
}
#define INP(name,A,B,OPER,...) VC_PROOF(name) \
  { inplace<A,B>([](Vells &x,const Vells &y)->Vells&{ return x OPER##= y; },[](const A &x,const B &y)->A{ return A(x OPER y); },##__VA_ARGS__); }
INP(all_in_add_rr,double,double,+)
INP(all_in_add_cr,cx,double,+)
INP(all_in_add_cc,cx,cx,+)
INP(all_in_sub_rr,double,double,-)
INP(all_in_sub_cr,cx,double,-)
INP(all_in_sub_cc,cx,cx,-)
// (a constant argument of zero is a special case, see C15_vells.cc)
INP(all_in_mul_rr,double,double,*,false)
INP(all_in_div_rr,double,double,/)
INP(all_in_or,int,int,|)
INP(all_in_and,int,int,&)
INP(all_in_xor,int,int,^)
