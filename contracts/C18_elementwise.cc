// @property C18
// @sources MeqNodes/src/Abs.cc MeqNodes/src/Acos.cc MeqNodes/src/Arg.cc MeqNodes/src/Asin.cc MeqNodes/src/Atan.cc MeqNodes/src/Ceil.cc MeqNodes/src/Conj.cc MeqNodes/src/Cos.cc MeqNodes/src/Cosh.cc MeqNodes/src/Exp.cc MeqNodes/src/Fabs.cc MeqNodes/src/Floor.cc MeqNodes/src/Imag.cc MeqNodes/src/Log.cc MeqNodes/src/Pow2.cc MeqNodes/src/Pow3.cc MeqNodes/src/Pow4.cc MeqNodes/src/Pow5.cc MeqNodes/src/Pow6.cc MeqNodes/src/Pow7.cc MeqNodes/src/Pow8.cc MeqNodes/src/Real.cc MeqNodes/src/Sin.cc MeqNodes/src/Sinh.cc MeqNodes/src/Sqr.cc MeqNodes/src/Sqrt.cc MeqNodes/src/Tan.cc MeqNodes/src/Tanh.cc MeqNodes/src/Invert.cc MeqNodes/src/Negate.cc MeqNodes/src/Atan2.cc MeqNodes/src/FMod.cc MeqNodes/src/Pow.cc MeqNodes/src/ToComplex.cc MeqNodes/src/Polar.cc MeqNodes/src/Divide.cc MeqNodes/src/Add.cc MeqNodes/src/Subtract.cc MeqNodes/src/Multiply.cc MeqNodes/src/WSum.cc MeqNodes/src/WMean.cc MeqNodes/src/Mean.cc MeqNodes/src/Min.cc MeqNodes/src/Max.cc MeqNodes/src/Sum.cc MeqNodes/src/Product.cc MeqNodes/src/Rms.cc MeqNodes/src/StdDev.cc MeqNodes/src/NElements.cc MeqNodes/src/Norm.cc MeqNodes/src/ReductionFunction.cc MEQ/src/TensorFunction.cc MEQ/src/Axis.cc MEQ/src/Function.cc MEQ/src/Node.cc DMI/src/HIID.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc TimBase/src/Exception.cc
// @libs meqnodes meq
// @option * nosummary=1
// @stub * _ZN3Meq6ResultC1Ei stub_res_ctor
// @stub * _ZN3Meq6ResultC1ERK10VariVector stub_res_dims
// @stub * _ZN3Meq6ResultD2Ev stub_result_dtor
// @stub * _ZNK3Meq6Result11numVellSetsEv stub_numvs
// @stub * _ZNK3Meq6Result7vellSetEi stub_vs
// @stub * _ZN3Meq6Result9vellSetWrEi stub_vswr
// @stub * _ZN3Meq6Result10setVellSetEiRKNS_7VellSetEi stub_setvs_r
// @stub * _ZN3Meq6Result10setVellSetEiPKNS_7VellSetEi stub_setvs_p
// @stub * _ZN3Meq6Result10setVellSetEiRKN3DMI10CountedRefINS_7VellSetEEEi stub_setvs_ref
// @stub * _ZN3Meq6Result10setVellSetEiRN3DMI10CountedRefINS_7VellSetEEEi stub_setvs_ref
// @stub * _ZN3Meq6Result13setNewVellSetEiii stub_newvs
// @stub * _ZNK3Meq6Result8numFailsEv num_resfails
// @stub * _ZN3Meq7VellSetC1Eii stub_vs_ctor
// @stub * _ZN3Meq7VellSetD2Ev num_vs_dtor
// @stub * _ZN3Meq7VellSet12setDataFlagsERKN3DMI10CountedRefINS_5VellsEEE stub_setflags
// @stub * _ZN3Meq7VellSet14clearDataFlagsEv num_clearflags
// @stub * _ZN3Meq7VellSet8setValueERN3DMI10CountedRefINS_5VellsEEEi num_setvalue
// @stub * _ZN3Meq7VellSet14setNumPertSetsEi num_setnpert
// @stub * _ZN3Meq7VellSet8setSpidsERKSt6vectorIiSaIiEE num_setspids
// @stub * _ZN3Meq7VellSet15setPerturbationEidi num_setpert
// @stub * _ZN3Meq7VellSet17setPerturbedValueEiRN3DMI10CountedRefINS_5VellsEEEii num_setpv
// @stub * _ZNK3Meq7VellSet17getPerturbedValueEii num_getpv
// @stub * _ZNK3Meq7VellSet8numFailsEv num_numfails
// @stub * _ZNK3Meq7VellSet7getFailEi num_getfail
// @stub * _ZN3Meq7VellSet7addFailERKN3DMI10CountedRefINS1_4BObjEEE num_addfail
// @stub * _ZN3Meq5Vells10mergeFlagsERN3DMI10CountedRefIS0_EERKS0_i stub_mergeflags
// @stub * _ZN3Meq5VellsC1Ev num_ctor
// @stub * _ZN3Meq5VellsC1Ed num_ctor_d
// @stub * _ZN3Meq5VellsC2Ed num_ctor_d
// @stub * _ZN3Meq5VellsC1ERKS0_ii num_copy
// @stub * _ZN3Meq5VellsaSERKS0_ num_assign
// @stub * _ZN3Meq5VellsD1Ev stub_vells_dtor
// @stub * _ZN3Meq5VellsD2Ev stub_vells_dtor
// @stub * _ZNK3Meq5Vells6isNullEv num_isnull
// @stub * _ZNK3Meq5Vells7isUnityEv num_isunity
// @stub * _ZN3Meq5Vells4NullEv num_null
// @stub * _ZN3Meq5Vells5UnityEv num_unity
// @stub * _ZNK3Meq5VellsplERKS0_ num_add
// @stub * _ZNK3Meq5VellsmiERKS0_ num_sub
// @stub * _ZNK3Meq5VellsmlERKS0_ num_mul
// @stub * _ZNK3Meq5VellsdvERKS0_ num_div
// @stub * _ZNK3Meq5VellsngEv num_neg
// @stub * _ZN3Meq5VellspLERKS0_ num_iadd
// @stub * _ZN3Meq5VellsmIERKS0_ num_isub
// @stub * _ZN3Meq5VellsmLERKS0_ num_imul
// @stub * _ZN3Meq5VellsdVERKS0_ num_idiv
// @stub * _ZNK3Meq5VellsanEi num_and
// @stub * _ZN3Meq9VellsMath3absERKNS_5VellsE fun_abs
// @stub * _ZN3Meq9VellsMath4acosERKNS_5VellsE fun_acos
// @stub * _ZN3Meq9VellsMath3argERKNS_5VellsE fun_arg
// @stub * _ZN3Meq9VellsMath4asinERKNS_5VellsE fun_asin
// @stub * _ZN3Meq9VellsMath4atanERKNS_5VellsE fun_atan
// @stub * _ZN3Meq9VellsMath4ceilERKNS_5VellsE fun_ceil
// @stub * _ZN3Meq9VellsMath4conjERKNS_5VellsE fun_conj
// @stub * _ZN3Meq9VellsMath3cosERKNS_5VellsE fun_cos
// @stub * _ZN3Meq9VellsMath4coshERKNS_5VellsE fun_cosh
// @stub * _ZN3Meq9VellsMath3expERKNS_5VellsE fun_exp
// @stub * _ZN3Meq9VellsMath4fabsERKNS_5VellsE fun_fabs
// @stub * _ZN3Meq9VellsMath5floorERKNS_5VellsE fun_floor
// @stub * _ZN3Meq9VellsMath4imagERKNS_5VellsE fun_imag
// @stub * _ZN3Meq9VellsMath3logERKNS_5VellsE fun_log
// @stub * _ZN3Meq9VellsMath4pow2ERKNS_5VellsE fun_pow2
// @stub * _ZN3Meq9VellsMath4pow3ERKNS_5VellsE fun_pow3
// @stub * _ZN3Meq9VellsMath4pow4ERKNS_5VellsE fun_pow4
// @stub * _ZN3Meq9VellsMath4pow5ERKNS_5VellsE fun_pow5
// @stub * _ZN3Meq9VellsMath4pow6ERKNS_5VellsE fun_pow6
// @stub * _ZN3Meq9VellsMath4pow7ERKNS_5VellsE fun_pow7
// @stub * _ZN3Meq9VellsMath4pow8ERKNS_5VellsE fun_pow8
// @stub * _ZN3Meq9VellsMath4realERKNS_5VellsE fun_real
// @stub * _ZN3Meq9VellsMath3sinERKNS_5VellsE fun_sin
// @stub * _ZN3Meq9VellsMath4sinhERKNS_5VellsE fun_sinh
// @stub * _ZN3Meq9VellsMath3sqrERKNS_5VellsE fun_sqr
// @stub * _ZN3Meq9VellsMath4sqrtERKNS_5VellsE fun_sqrt
// @stub * _ZN3Meq9VellsMath3tanERKNS_5VellsE fun_tan
// @stub * _ZN3Meq9VellsMath4tanhERKNS_5VellsE fun_tanh
// @stub * _ZN3Meq9VellsMath5atan2ERKNS_5VellsES3_ fun_atan2
// @stub * _ZN3Meq9VellsMath4fmodERKNS_5VellsES3_ fun_fmod
// @stub * _ZN3Meq9VellsMath3powERKNS_5VellsES3_ fun_pow
// @stub * _ZN3Meq9VellsMath9tocomplexERKNS_5VellsES3_ fun_tocomplex
// @stub * _ZN3Meq9VellsMath5polarERKNS_5VellsES3_ fun_polar
// @stub * _ZN3Meq9VellsMath4meanERKNS_5VellsEi red_mean
// @stub * _ZN3Meq9VellsMath3minERKNS_5VellsEi red_min
// @stub * _ZN3Meq9VellsMath3maxERKNS_5VellsEi red_max
// @stub * _ZN3Meq9VellsMath3sumERKNS_5VellsERK10VariVectori red_sum
// @stub * _ZN3Meq9VellsMath7productERKNS_5VellsERK10VariVectori red_product
// @stub * _ZN3Meq9VellsMath9nelementsERKNS_5VellsERK10VariVectori red_nelements
// @stub * _ZN3Meq9VellsMath3minERKNS_5VellsES3_ii fun_min
// @stub * _ZN3Meq9VellsMath3maxERKNS_5VellsES3_ii fun_max
// @stub * _ZN3Meq8Function13evaluateFlagsERN3DMI10CountedRefINS_5VellsEEERKNS_7RequestERK10VariVectorRKSt6vectorIPKNS_7VellSetESaISF_EE fun_flags
// @verifies unary_functions Meq::Abs::evaluate; Meq::Acos::evaluate; Meq::Arg::evaluate; Meq::Asin::evaluate; Meq::Atan::evaluate; Meq::Ceil::evaluate; Meq::Conj::evaluate; Meq::Cos::evaluate; Meq::Cosh::evaluate; Meq::Exp::evaluate; Meq::Fabs::evaluate; Meq::Floor::evaluate; Meq::Imag::evaluate; Meq::Log::evaluate; Meq::Pow2::evaluate; Meq::Pow3::evaluate; Meq::Pow4::evaluate; Meq::Pow5::evaluate; Meq::Pow6::evaluate; Meq::Pow7::evaluate; Meq::Pow8::evaluate; Meq::Real::evaluate; Meq::Sin::evaluate; Meq::Sinh::evaluate; Meq::Sqr::evaluate; Meq::Sqrt::evaluate; Meq::Tan::evaluate; Meq::Tanh::evaluate
// @verifies binary_functions Meq::Atan2::evaluate; Meq::FMod::evaluate; Meq::Pow::evaluate; Meq::ToComplex::evaluate; Meq::Polar::evaluate
// @verifies negate;invert;divide Meq::Negate::evaluate; Meq::Invert::evaluate; Meq::Divide::evaluate
// @verifies add;multiply;subtract Meq::Add::evaluate; Meq::Multiply::evaluate; Meq::Subtract::evaluate
// @verifies wsum;wmean Meq::WSum::evaluate; Meq::WMean::evaluate; Meq::WMean::NormWeights
// @verifies mean;extrema Meq::Mean::evaluate; Meq::Min::evaluate; Meq::Max::evaluate
// @verifies reductions Meq::Sum::evaluate; Meq::Product::evaluate; Meq::NElements::evaluate; Meq::Rms::evaluate; Meq::StdDev::evaluate
// @verifies norm Meq::Norm::evaluateTensors
// @verifies multiply_flags Meq::Multiply::evaluateFlags
// @assume the operators and functions of Vells compute what they say (proved as C15)
#include "../contracts/nums.h"
#include <MeqNodes/TID-MeqNodes.h>
#include <MeqNodes/Abs.h>
#include <MeqNodes/Acos.h>
#include <MeqNodes/Arg.h>
#include <MeqNodes/Asin.h>
#include <MeqNodes/Atan.h>
#include <MeqNodes/Ceil.h>
#include <MeqNodes/Conj.h>
#include <MeqNodes/Cos.h>
#include <MeqNodes/Cosh.h>
#include <MeqNodes/Exp.h>
#include <MeqNodes/Fabs.h>
#include <MeqNodes/Floor.h>
#include <MeqNodes/Imag.h>
#include <MeqNodes/Log.h>
#include <MeqNodes/Pow2.h>
#include <MeqNodes/Pow3.h>
#include <MeqNodes/Pow4.h>
#include <MeqNodes/Pow5.h>
#include <MeqNodes/Pow6.h>
#include <MeqNodes/Pow7.h>
#include <MeqNodes/Pow8.h>
#include <MeqNodes/Real.h>
#include <MeqNodes/Sin.h>
#include <MeqNodes/Sinh.h>
#include <MeqNodes/Sqr.h>
#include <MeqNodes/Sqrt.h>
#include <MeqNodes/Tan.h>
#include <MeqNodes/Tanh.h>
#include <MeqNodes/Invert.h>
#include <MeqNodes/Negate.h>
#include <MeqNodes/Atan2.h>
#include <MeqNodes/FMod.h>
#include <MeqNodes/Pow.h>
#include <MeqNodes/ToComplex.h>
#include <MeqNodes/Polar.h>
#include <MeqNodes/Divide.h>
#include <MeqNodes/Add.h>
#include <MeqNodes/Subtract.h>
#include <MeqNodes/Multiply.h>
#include <MeqNodes/WSum.h>
#include <MeqNodes/WMean.h>
#include <MeqNodes/Mean.h>
#include <MeqNodes/Min.h>
#include <MeqNodes/Max.h>
#include <MeqNodes/Sum.h>
#include <MeqNodes/Product.h>
#include <MeqNodes/Rms.h>
#include <MeqNodes/StdDev.h>
#include <MeqNodes/NElements.h>
#include <MeqNodes/Norm.h>
struct TAbs : public Abs { TAbs () {} };
extern void *vt_Abs[] asm("_ZTV4TAbs");
struct TAcos : public Acos { TAcos () {} };
extern void *vt_Acos[] asm("_ZTV5TAcos");
struct TArg : public Arg { TArg () {} };
extern void *vt_Arg[] asm("_ZTV4TArg");
struct TAsin : public Asin { TAsin () {} };
extern void *vt_Asin[] asm("_ZTV5TAsin");
struct TAtan : public Atan { TAtan () {} };
extern void *vt_Atan[] asm("_ZTV5TAtan");
struct TCeil : public Ceil { TCeil () {} };
extern void *vt_Ceil[] asm("_ZTV5TCeil");
struct TConj : public Conj { TConj () {} };
extern void *vt_Conj[] asm("_ZTV5TConj");
struct TCos : public Cos { TCos () {} };
extern void *vt_Cos[] asm("_ZTV4TCos");
struct TCosh : public Cosh { TCosh () {} };
extern void *vt_Cosh[] asm("_ZTV5TCosh");
struct TExp : public Exp { TExp () {} };
extern void *vt_Exp[] asm("_ZTV4TExp");
struct TFabs : public Fabs { TFabs () {} };
extern void *vt_Fabs[] asm("_ZTV5TFabs");
struct TFloor : public Floor { TFloor () {} };
extern void *vt_Floor[] asm("_ZTV6TFloor");
struct TImag : public Imag { TImag () {} };
extern void *vt_Imag[] asm("_ZTV5TImag");
struct TLog : public Log { TLog () {} };
extern void *vt_Log[] asm("_ZTV4TLog");
struct TPow2 : public Pow2 { TPow2 () {} };
extern void *vt_Pow2[] asm("_ZTV5TPow2");
struct TPow3 : public Pow3 { TPow3 () {} };
extern void *vt_Pow3[] asm("_ZTV5TPow3");
struct TPow4 : public Pow4 { TPow4 () {} };
extern void *vt_Pow4[] asm("_ZTV5TPow4");
struct TPow5 : public Pow5 { TPow5 () {} };
extern void *vt_Pow5[] asm("_ZTV5TPow5");
struct TPow6 : public Pow6 { TPow6 () {} };
extern void *vt_Pow6[] asm("_ZTV5TPow6");
struct TPow7 : public Pow7 { TPow7 () {} };
extern void *vt_Pow7[] asm("_ZTV5TPow7");
struct TPow8 : public Pow8 { TPow8 () {} };
extern void *vt_Pow8[] asm("_ZTV5TPow8");
struct TReal : public Real { TReal () {} };
extern void *vt_Real[] asm("_ZTV5TReal");
struct TSin : public Sin { TSin () {} };
extern void *vt_Sin[] asm("_ZTV4TSin");
struct TSinh : public Sinh { TSinh () {} };
extern void *vt_Sinh[] asm("_ZTV5TSinh");
struct TSqr : public Sqr { TSqr () {} };
extern void *vt_Sqr[] asm("_ZTV4TSqr");
struct TSqrt : public Sqrt { TSqrt () {} };
extern void *vt_Sqrt[] asm("_ZTV5TSqrt");
struct TTan : public Tan { TTan () {} };
extern void *vt_Tan[] asm("_ZTV4TTan");
struct TTanh : public Tanh { TTanh () {} };
extern void *vt_Tanh[] asm("_ZTV5TTanh");
struct TInvert : public Invert { TInvert () {} };
extern void *vt_Invert[] asm("_ZTV7TInvert");
struct TNegate : public Negate { TNegate () {} };
extern void *vt_Negate[] asm("_ZTV7TNegate");
struct TAtan2 : public Atan2 { TAtan2 () {} };
extern void *vt_Atan2[] asm("_ZTV6TAtan2");
struct TFMod : public FMod { TFMod () {} };
extern void *vt_FMod[] asm("_ZTV5TFMod");
struct TPow : public Pow { TPow () {} };
extern void *vt_Pow[] asm("_ZTV4TPow");
struct TToComplex : public ToComplex { TToComplex () {} };
extern void *vt_ToComplex[] asm("_ZTV10TToComplex");
struct TPolar : public Polar { TPolar () {} };
extern void *vt_Polar[] asm("_ZTV6TPolar");
struct TDivide : public Divide { TDivide () {} };
extern void *vt_Divide[] asm("_ZTV7TDivide");
struct TAdd : public Add { TAdd () {} };
extern void *vt_Add[] asm("_ZTV4TAdd");
struct TSubtract : public Subtract { TSubtract () {} };
extern void *vt_Subtract[] asm("_ZTV9TSubtract");
struct TMultiply : public Multiply { TMultiply () {} };
extern void *vt_Multiply[] asm("_ZTV9TMultiply");
struct TWSum : public WSum { TWSum () {} };
extern void *vt_WSum[] asm("_ZTV5TWSum");
struct TWMean : public WMean { TWMean () {} };
extern void *vt_WMean[] asm("_ZTV6TWMean");
struct TMean : public Mean { TMean () {} };
extern void *vt_Mean[] asm("_ZTV5TMean");
struct TMin : public Min { TMin () {} };
extern void *vt_Min[] asm("_ZTV4TMin");
struct TMax : public Max { TMax () {} };
extern void *vt_Max[] asm("_ZTV4TMax");
struct TSum : public Sum { TSum () {} };
extern void *vt_Sum[] asm("_ZTV4TSum");
struct TProduct : public Product { TProduct () {} };
extern void *vt_Product[] asm("_ZTV8TProduct");
struct TRms : public Rms { TRms () {} };
extern void *vt_Rms[] asm("_ZTV4TRms");
struct TStdDev : public StdDev { TStdDev () {} };
extern void *vt_StdDev[] asm("_ZTV7TStdDev");
struct TNElements : public NElements { TNElements () {} };
extern void *vt_NElements[] asm("_ZTV10TNElements");
struct TNorm : public Norm { TNorm () {} };
extern void *vt_Norm[] asm("_ZTV5TNorm");
extern "C" __attribute__((used)) void emit_nodes () { new TAbs; new TAcos; new TArg; new TAsin; new TAtan; new TCeil; new TConj; new TCos; new TCosh; new TExp; new TFabs; new TFloor; new TImag; new TLog; new TPow2; new TPow3; new TPow4; new TPow5; new TPow6; new TPow7; new TPow8; new TReal; new TSin; new TSinh; new TSqr; new TSqrt; new TTan; new TTanh; new TInvert; new TNegate; new TAtan2; new TFMod; new TPow; new TToComplex; new TPolar; new TDivide; new TAdd; new TSubtract; new TMultiply; new TWSum; new TWMean; new TMean; new TMin; new TMax; new TSum; new TProduct; new TRms; new TStdDev; new TNElements; new TNorm; }
template<class T> static T & mknode (void **vt,int n)
{
  T *f = raw<T>(vt);
#ifdef VC_NATIVE
  f = new T;
#endif
  f->child_indices_.resize(n); f->children_.child_labels_.resize(n);
  for( int i=0; i<n; i++ ) f->children_.child_labels_[i] = HIID(AtomicID(i));
  return *f;
}
// natively a complex value counts as one number, too
static double number (const Vells &v)
{
#ifdef VC_NATIVE
  if( v.isComplex() ) return v.as<dcomplex>().real() + 7*v.as<dcomplex>().imag();
#endif
  return num(v);
}
// the functions of values are not interpreted (injective stand-ins in the verifier, the real ones natively)
#ifndef VC_NATIVE
extern "C" void fun_abs (Vells *r,const Vells &a) { setnum(r,num(a)+1000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_acos (Vells *r,const Vells &a) { setnum(r,num(a)+2000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_arg (Vells *r,const Vells &a) { setnum(r,num(a)+3000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_asin (Vells *r,const Vells &a) { setnum(r,num(a)+4000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_atan (Vells *r,const Vells &a) { setnum(r,num(a)+5000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_ceil (Vells *r,const Vells &a) { setnum(r,num(a)+6000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_conj (Vells *r,const Vells &a) { setnum(r,num(a)+7000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_cos (Vells *r,const Vells &a) { setnum(r,num(a)+8000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_cosh (Vells *r,const Vells &a) { setnum(r,num(a)+9000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_exp (Vells *r,const Vells &a) { setnum(r,num(a)+10000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_fabs (Vells *r,const Vells &a) { setnum(r,num(a)+11000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_floor (Vells *r,const Vells &a) { setnum(r,num(a)+12000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_imag (Vells *r,const Vells &a) { setnum(r,num(a)+13000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_log (Vells *r,const Vells &a) { setnum(r,num(a)+14000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_pow2 (Vells *r,const Vells &a) { setnum(r,num(a)+15000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_pow3 (Vells *r,const Vells &a) { setnum(r,num(a)+16000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_pow4 (Vells *r,const Vells &a) { setnum(r,num(a)+17000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_pow5 (Vells *r,const Vells &a) { setnum(r,num(a)+18000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_pow6 (Vells *r,const Vells &a) { setnum(r,num(a)+19000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_pow7 (Vells *r,const Vells &a) { setnum(r,num(a)+20000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_pow8 (Vells *r,const Vells &a) { setnum(r,num(a)+21000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_real (Vells *r,const Vells &a) { setnum(r,num(a)+22000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_sin (Vells *r,const Vells &a) { setnum(r,num(a)+23000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_sinh (Vells *r,const Vells &a) { setnum(r,num(a)+24000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_sqr (Vells *r,const Vells &a) { setnum(r,num(a)+25000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_sqrt (Vells *r,const Vells &a) { setnum(r,num(a)+26000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_tan (Vells *r,const Vells &a) { setnum(r,num(a)+27000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_tanh (Vells *r,const Vells &a) { setnum(r,num(a)+28000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_atan2 (Vells *r,const Vells &a,const Vells &b) { setnum(r,num(a)+2*num(b)+100000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_fmod (Vells *r,const Vells &a,const Vells &b) { setnum(r,num(a)+2*num(b)+200000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_pow (Vells *r,const Vells &a,const Vells &b) { setnum(r,num(a)+2*num(b)+300000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_tocomplex (Vells *r,const Vells &a,const Vells &b) { setnum(r,num(a)+2*num(b)+400000); }
#endif
#ifndef VC_NATIVE
extern "C" void fun_polar (Vells *r,const Vells &a,const Vells &b) { setnum(r,num(a)+2*num(b)+500000); }
#endif
static double f_abs (double x)
{
#ifdef VC_NATIVE
  return fabs(x);
#else
  return x+1000;
#endif
}
static double f_acos (double x)
{
#ifdef VC_NATIVE
  return ::acos(x);
#else
  return x+2000;
#endif
}
static double f_arg (double x)
{
#ifdef VC_NATIVE
  return (x < 0 ? M_PI : 0.);
#else
  return x+3000;
#endif
}
static double f_asin (double x)
{
#ifdef VC_NATIVE
  return ::asin(x);
#else
  return x+4000;
#endif
}
static double f_atan (double x)
{
#ifdef VC_NATIVE
  return ::atan(x);
#else
  return x+5000;
#endif
}
static double f_ceil (double x)
{
#ifdef VC_NATIVE
  return ::ceil(x);
#else
  return x+6000;
#endif
}
static double f_conj (double x)
{
#ifdef VC_NATIVE
  return x;
#else
  return x+7000;
#endif
}
static double f_cos (double x)
{
#ifdef VC_NATIVE
  return ::cos(x);
#else
  return x+8000;
#endif
}
static double f_cosh (double x)
{
#ifdef VC_NATIVE
  return ::cosh(x);
#else
  return x+9000;
#endif
}
static double f_exp (double x)
{
#ifdef VC_NATIVE
  return ::exp(x);
#else
  return x+10000;
#endif
}
static double f_fabs (double x)
{
#ifdef VC_NATIVE
  return fabs(x);
#else
  return x+11000;
#endif
}
static double f_floor (double x)
{
#ifdef VC_NATIVE
  return ::floor(x);
#else
  return x+12000;
#endif
}
static double f_imag (double x)
{
#ifdef VC_NATIVE
  return 0.;
#else
  return x+13000;
#endif
}
static double f_log (double x)
{
#ifdef VC_NATIVE
  return ::log(x);
#else
  return x+14000;
#endif
}
static double f_pow2 (double x)
{
#ifdef VC_NATIVE
  return x*x;
#else
  return x+15000;
#endif
}
static double f_pow3 (double x)
{
#ifdef VC_NATIVE
  return x*x*x;
#else
  return x+16000;
#endif
}
static double f_pow4 (double x)
{
#ifdef VC_NATIVE
  return x*x*x*x;
#else
  return x+17000;
#endif
}
static double f_pow5 (double x)
{
#ifdef VC_NATIVE
  return x*x*x*x*x;
#else
  return x+18000;
#endif
}
static double f_pow6 (double x)
{
#ifdef VC_NATIVE
  return x*x*x*x*x*x;
#else
  return x+19000;
#endif
}
static double f_pow7 (double x)
{
#ifdef VC_NATIVE
  return x*x*x*x*x*x*x;
#else
  return x+20000;
#endif
}
static double f_pow8 (double x)
{
#ifdef VC_NATIVE
  return x*x*x*x*x*x*x*x;
#else
  return x+21000;
#endif
}
static double f_real (double x)
{
#ifdef VC_NATIVE
  return x;
#else
  return x+22000;
#endif
}
static double f_sin (double x)
{
#ifdef VC_NATIVE
  return ::sin(x);
#else
  return x+23000;
#endif
}
static double f_sinh (double x)
{
#ifdef VC_NATIVE
  return ::sinh(x);
#else
  return x+24000;
#endif
}
static double f_sqr (double x)
{
#ifdef VC_NATIVE
  return x*x;
#else
  return x+25000;
#endif
}
static double f_sqrt (double x)
{
#ifdef VC_NATIVE
  return ::sqrt(x);
#else
  return x+26000;
#endif
}
static double f_tan (double x)
{
#ifdef VC_NATIVE
  return ::tan(x);
#else
  return x+27000;
#endif
}
static double f_tanh (double x)
{
#ifdef VC_NATIVE
  return ::tanh(x);
#else
  return x+28000;
#endif
}
static double f_atan2 (double x,double y)
{
#ifdef VC_NATIVE
  return ::atan2(x,y);
#else
  return x+2*y+100000;
#endif
}
static double f_fmod (double x,double y)
{
#ifdef VC_NATIVE
  return ::fmod(x,y);
#else
  return x+2*y+200000;
#endif
}
static double f_pow (double x,double y)
{
#ifdef VC_NATIVE
  return ::pow(x,y);
#else
  return x+2*y+300000;
#endif
}
static double f_tocomplex (double x,double y)
{
#ifdef VC_NATIVE
  return x+7*y;
#else
  return x+2*y+400000;
#endif
}
static double f_polar (double x,double y)
{
#ifdef VC_NATIVE
  return x*::cos(y)+7*x*::sin(y);
#else
  return x+2*y+500000;
#endif
}
typedef std::vector<const Vells*> Vals;
static LoShape & shape0 () { LoShape &s = *new LoShape; s.resize(1); s[0] = 1; return s; }
static const char *vn[4] = { "v0","v1","v2","v3" };
// up to n values; missing data is split if allowed
static double x[4]; static bool has[4];
static Vals & vals (int n,bool missing)
{
  Vals &v = *new Vals(n);
  for( int i=0; i<n; i++ ) { x[i] = vc_f64(vn[i]); has[i] = !missing || vc_split("present",0,1); v[i] = has[i] ? mknum(x[i]) : 0; }
  return v;
}
static void kept (const Vals &v) { bool ok = true; for( unsigned i=0; i<v.size(); i++ ) if( v[i] ) ok &= same(num(*v[i]),x[i]); vc_check(ok,"the values of the children are left as they were"); }
template<class T> static void unary (void **vt,double (*f)(double),double lo,double hi)
{
  T &n = mknode<T>(vt,1); Vals &v = vals(1,false);
#ifdef VC_NATIVE
  vc_assume(x[0] >= lo && x[0] <= hi);
#endif
  Vells *r = new Vells(n.evaluate(*mkrequest(),shape0(),v));
  vc_check(same(number(*r),f(x[0])),"the node computes the function it is named after, of its child");
  kept(v);
}
template<class T> static void binary (void **vt,double (*f)(double,double))
{
  T &n = mknode<T>(vt,2); Vals &v = vals(2,false);
#ifdef VC_NATIVE
  vc_assume(x[0] > 0 && x[1] > 0);
#endif
  Vells *r = new Vells(n.evaluate(*mkrequest(),shape0(),v));
  vc_check(same(number(*r),f(x[0],x[1])),"the node computes the function it is named after, of its children in order");
  kept(v);
}
VC_PROOF(unary_functions)
{
  switch( vc_split("node",0,27) )
  {
    case 0: unary<TAbs>(vt_Abs,f_abs,-1000000000.0,1000000000.0); break;
    case 1: unary<TAcos>(vt_Acos,f_acos,-1,1); break;
    case 2: unary<TArg>(vt_Arg,f_arg,1e-09,1000000000.0); break;
    case 3: unary<TAsin>(vt_Asin,f_asin,-1,1); break;
    case 4: unary<TAtan>(vt_Atan,f_atan,-1000000000.0,1000000000.0); break;
    case 5: unary<TCeil>(vt_Ceil,f_ceil,-1000000000.0,1000000000.0); break;
    case 6: unary<TConj>(vt_Conj,f_conj,-1000000000.0,1000000000.0); break;
    case 7: unary<TCos>(vt_Cos,f_cos,-1000000000.0,1000000000.0); break;
    case 8: unary<TCosh>(vt_Cosh,f_cosh,-1000000000.0,1000000000.0); break;
    case 9: unary<TExp>(vt_Exp,f_exp,-1000000000.0,1000000000.0); break;
    case 10: unary<TFabs>(vt_Fabs,f_fabs,-1000000000.0,1000000000.0); break;
    case 11: unary<TFloor>(vt_Floor,f_floor,-1000000000.0,1000000000.0); break;
    case 12: unary<TImag>(vt_Imag,f_imag,-1000000000.0,1000000000.0); break;
    case 13: unary<TLog>(vt_Log,f_log,0.001,1000000000.0); break;
    case 14: unary<TPow2>(vt_Pow2,f_pow2,-1000000000.0,1000000000.0); break;
    case 15: unary<TPow3>(vt_Pow3,f_pow3,-1000000000.0,1000000000.0); break;
    case 16: unary<TPow4>(vt_Pow4,f_pow4,-1000000000.0,1000000000.0); break;
    case 17: unary<TPow5>(vt_Pow5,f_pow5,-1000000000.0,1000000000.0); break;
    case 18: unary<TPow6>(vt_Pow6,f_pow6,-1000000000.0,1000000000.0); break;
    case 19: unary<TPow7>(vt_Pow7,f_pow7,-1000000000.0,1000000000.0); break;
    case 20: unary<TPow8>(vt_Pow8,f_pow8,-1000000000.0,1000000000.0); break;
    case 21: unary<TReal>(vt_Real,f_real,-1000000000.0,1000000000.0); break;
    case 22: unary<TSin>(vt_Sin,f_sin,-1000000000.0,1000000000.0); break;
    case 23: unary<TSinh>(vt_Sinh,f_sinh,-1000000000.0,1000000000.0); break;
    case 24: unary<TSqr>(vt_Sqr,f_sqr,-1000000000.0,1000000000.0); break;
    case 25: unary<TSqrt>(vt_Sqrt,f_sqrt,0,1000000000.0); break;
    case 26: unary<TTan>(vt_Tan,f_tan,-1000000000.0,1000000000.0); break;
    case 27: unary<TTanh>(vt_Tanh,f_tanh,-1000000000.0,1000000000.0); break;
  }
  vc_cover("value");
}
VC_PROOF(binary_functions)
{
  switch( vc_split("node",0,4) )
  {
    case 0: binary<TAtan2>(vt_Atan2,f_atan2); break;
    case 1: binary<TFMod>(vt_FMod,f_fmod); break;
    case 2: binary<TPow>(vt_Pow,f_pow); break;
    case 3: binary<TToComplex>(vt_ToComplex,f_tocomplex); break;
    case 4: binary<TPolar>(vt_Polar,f_polar); break;
  }
  vc_cover("value");
}
#ifndef VC_NATIVE
// reductions and functions under flag masks
extern "C" void red_mean (Vells *r,const Vells &a,int m) { bool flagged = a.hasDataFlags() && (tag(a.dataFlags())&m); setnum(r,flagged ? 0 : num(a)+2000000+m); }
extern "C" void red_min (Vells *r,const Vells &a,int m) { setnum(r,num(a)+3000000+m); }
extern "C" void red_max (Vells *r,const Vells &a,int m) { setnum(r,num(a)+4000000+m); }
extern "C" void red_sum (Vells *r,const Vells &a,const LoShape &,int m) { setnum(r,num(a)+5000000+m); }
extern "C" void red_product (Vells *r,const Vells &a,const LoShape &,int m) { setnum(r,num(a)+6000000+m); }
extern "C" void red_nelements (Vells *r,const Vells &a,const LoShape &,int m) { setnum(r,num(a)+7000000+m); }
extern "C" void fun_min (Vells *r,const Vells &a,const Vells &b,int,int) { setnum(r,num(a) < num(b) ? num(a) : num(b)); }
extern "C" void fun_max (Vells *r,const Vells &a,const Vells &b,int,int) { setnum(r,num(a) > num(b) ? num(a) : num(b)); }
#endif
static int flags_called;
extern "C" void fun_flags (Function *,Vells::Ref &,const Request &,const LoShape &,const std::vector<const VellSet*> &) { flags_called++; }
static double red (int id,double v,int m)
{
#ifdef VC_NATIVE
  return id == 7 ? 1 : v;
#else
  return v+1000000*id+m;
#endif
}
static double sqr_ (double v) { return f_sqr(v); }
#define RESULT(n) Vells &r = *new Vells(n.evaluate(*mkrequest(),shape0(),v))
VC_PROOF(negate) { TNegate &n = mknode<TNegate>(vt_Negate,1); Vals &v = vals(1,false); RESULT(n); vc_check(same(num(r),-x[0]),"the negative of the child"); kept(v); vc_cover("value"); }
VC_PROOF(invert) { TInvert &n = mknode<TInvert>(vt_Invert,1); Vals &v = vals(1,false); vc_assume(x[0] != 0); RESULT(n); vc_check(same(num(r),1/x[0]),"the inverse of the child"); kept(v); vc_cover("value"); }
VC_PROOF(divide) { TDivide &n = mknode<TDivide>(vt_Divide,2); Vals &v = vals(2,false); vc_assume(x[1] != 0); RESULT(n); vc_check(same(num(r),x[0]/x[1]),"the first child divided by the second"); kept(v); vc_cover("value"); }
VC_PROOF(add)
{
  int k = vc_split("children",0,4); TAdd &n = mknode<TAdd>(vt_Add,k); Vals &v = vals(k,true); RESULT(n);
  double s = 0; for( int i=0; i<k; i++ ) if( has[i] ) s += x[i];
  vc_check(same(num(r),s),"the sum of all children that have data"); kept(v); vc_cover("value");
}
VC_PROOF(multiply)
{
  int k = vc_split("children",0,4); TMultiply &n = mknode<TMultiply>(vt_Multiply,k); Vals &v = vals(k,true); RESULT(n);
  double s = 1; for( int i=0; i<k; i++ ) if( has[i] ) s *= x[i];
  vc_check(same(num(r),s),"the product of all children that have data"); kept(v); vc_cover("value");
}
VC_PROOF(subtract)
{
  int k = vc_split("children",1,4); TSubtract &n = mknode<TSubtract>(vt_Subtract,k); Vals &v = vals(k,false); RESULT(n);
  double s = x[0]; for( int i=1; i<k; i++ ) s -= x[i];
  vc_check(same(num(r),s),"the first child minus all others"); kept(v); vc_cover("value");
}
static double w[4];
static void weights (std::vector<double> &wt,int m) { static const char *wn[4] = { "w0","w1","w2","w3" }; new (&wt) std::vector<double>(m); for( int i=0; i<m; i++ ) wt[i] = w[i] = vc_f64(wn[i]); }
VC_PROOF(wsum)
{
  int k = vc_split("children",1,3), m = vc_split("one_weight",0,1) ? 1 : k; TWSum &n = mknode<TWSum>(vt_WSum,k); Vals &v = vals(k,false); weights(n.weights,m); RESULT(n);
  double s = 0; for( int i=0; i<k; i++ ) s += x[i]*w[m == 1 ? 0 : i];
  vc_check(same(num(r),s),"the weighted sum of the children"); kept(v); vc_cover("value");
}
VC_PROOF(wmean)
{
  int k = vc_split("children",1,3), m = vc_split("weights",0,2); m = m < 2 ? m : k;
  TWMean &n = mknode<TWMean>(vt_WMean,k); Vals &v = vals(k,false); weights(n.weights,m);
  double t = 0; for( int i=0; i<m; i++ ) t += w[i]; if( m > 1 ) vc_assume(t != 0);
  for( int e=0; e<2; e++ )
  {
    RESULT(n);
    double s = 0; for( int i=0; i<k; i++ ) s += m > 1 ? x[i]*w[i] : x[i];
    vc_check(same(num(r)*(m > 1 ? t : k),s),"the weighted mean of the children, at every evaluation");
  }
  kept(v); vc_cover("value");
}
static void masks (ReductionFunction &n,int k) { n.flagmask_.resize(k); for( int i=0; i<k; i++ ) n.flagmask_[i] = i+1; }
VC_PROOF(mean)
{
  int k = vc_split("children",1,3); TMean &n = mknode<TMean>(vt_Mean,k); Vals &v = vals(k,k > 1); masks(n,k); RESULT(n);
  if( k == 1 ) vc_check(same(num(r),red(2,x[0],1)),"the mean of the only child, under its flag mask");
  else { double s = 0; int m = 0; for( int i=0; i<k; i++ ) if( has[i] ) { s += x[i]; m++; } vc_check(same(m ? num(r)*m : num(r),s),"the mean of all children that have data"); }
  kept(v); vc_cover("value");
}
template<class T> static void extremum (void **vt,bool max)
{
  int k = vc_split("children",1,3); T &n = mknode<T>(vt,k); Vals &v = vals(k,k > 1); masks(n,k); RESULT(n);
  if( k == 1 ) { vc_check(same(num(r),red(max ? 4 : 3,x[0],1)),"the extremum of the only child, under its flag mask"); return; }
  bool any = false, hit = false, bound = true;
  for( int i=0; i<k; i++ ) if( has[i] ) { any = true; hit = hit | same(num(r),x[i]); bound = bound & (same(num(r),x[i]) | (max ? num(r) > x[i] : num(r) < x[i])); }
  vc_check(any ? hit & bound : num(r) == 0,"the extremum of all children that have data");
  kept(v); vc_cover("value");
}
VC_PROOF(extrema) { if( vc_split("max",0,1) ) extremum<TMax>(vt_Max,true); else extremum<TMin>(vt_Min,false); }
VC_PROOF(reductions)
{
  int c = vc_split("node",0,4); Vals &v = vals(1,false);
  if( c == 0 ) { TSum &n = mknode<TSum>(vt_Sum,1); masks(n,1); RESULT(n); vc_check(same(num(r),red(5,x[0],1)),"the sum of the child, under its flag mask"); }
  if( c == 1 ) { TProduct &n = mknode<TProduct>(vt_Product,1); masks(n,1); RESULT(n); vc_check(same(num(r),red(6,x[0],1)),"the product of the child, under its flag mask"); }
  if( c == 2 ) { TNElements &n = mknode<TNElements>(vt_NElements,1); masks(n,1); RESULT(n); vc_check(same(num(r),red(7,x[0],1)),"the number of elements of the child, under its flag mask"); }
  if( c >= 3 )
  {
    // (flagged points do not take part: the mean of no points is 0)
    int f = vc_i32("flags"); bool wf = vc_bool("has_flags"); bool flagged = wf & ((f&1) != 0);
    if( wf ) { vc_assume(x[0] > 1 && x[0] < 1000); const_cast<Vells*>(v[0])->setDataFlags(mkflags(f)); }
    double m = flagged ? 0 : red(2,x[0],1), m2 = flagged ? 0 : red(2,sqr_(x[0]),1);
    if( c == 3 ) { TRms &n = mknode<TRms>(vt_Rms,1); masks(n,1); RESULT(n); vc_check(same(num(r),f_sqrt(m2)),"the root of the mean of the square, of points that are not flagged"); }
    if( c == 4 ) { TStdDev &n = mknode<TStdDev>(vt_StdDev,1); masks(n,1); RESULT(n); vc_check(same(num(r),f_sqrt(m2-sqr_(m))),"the root of the mean of the square minus the square of the mean, of points that are not flagged"); }
  }
  kept(v); vc_cover("value");
}
VC_PROOF(nelements_multi)
{
  int k = vc_split("children",2,3); TNElements &n = mknode<TNElements>(vt_NElements,k); Vals &v = vals(k,false); masks(n,k); RESULT(n);
  double s = 0; for( int i=0; i<k; i++ ) s += red(7,x[i],i+1);
  vc_check(same(num(r),s),"the number of elements of all children, each under its own flag mask"); kept(v); vc_cover("value");
}
VC_PROOF(norm)
{
  int k = vc_split("elements",1,4); TNorm &n = mknode<TNorm>(vt_Norm,1);
  std::vector<Vells> &o = *new std::vector<Vells>(1); std::vector<Vals> &args = *new std::vector<Vals>(1); Vals &v = vals(k,false);
  args[0] = v;
  n.evaluateTensors(o,args);
  double s = 0; for( int i=0; i<k; i++ ) s += sqr_(x[i]);
  vc_check(same(num(o[0]),f_sqrt(s)),"the root of the sum of the squares of all elements"); kept(v);
  std::vector<const LoShape*> &d = *new std::vector<const LoShape*>(1);
  vc_check(n.getResultDims(d).size() == 0,"the norm is a scalar");
  vc_cover("value");
}
VC_PROOF(multiply_flags)
{
  int k = vc_split("children",1,3); TMultiply &n = mknode<TMultiply>(vt_Multiply,k);
  std::vector<const VellSet*> &pv = *new std::vector<const VellSet*>(k); bool anynull = false;
  static In in[3];
  n.flagmask_.resize(k);
  for( int i=0; i<k; i++ )
  {
    n.flagmask_[i] = -1;
    in[i].state = vc_split("state",0,1) ? VALUE : MISSING; 
    if( in[i].state == VALUE ) { in[i].x = vc_split("null",0,1) ? 0 : 2; in[i].hasflags = true; in[i].flags = 4; }
    pv[i] = vc_split("given",0,1) ? mkin(in[i]) : 0;
    anynull |= pv[i] && (in[i].state == MISSING || in[i].x == 0);
  }
  Vells::Ref &out = *new Vells::Ref;
  n.evaluateFlags(out,*mkrequest(),shape0(),pv);
#ifdef VC_NATIVE
  bool any = false; for( int i=0; i<k; i++ ) any |= pv[i] && in[i].hasflags;
  vc_check(out.valid() == (any && !anynull),"a product with a null is not flagged, any other is flagged as its children are");
#else
  vc_check(flags_called == !anynull,"a product with a null is not flagged, any other is flagged as its children are");
#endif
  vc_cover("flags");
}
