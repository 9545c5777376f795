// Contract-language intrinsics.  Interpreted by the VC generator (vc/engine.py) on LLVM IR; implemented
// natively (vc/vc_native.cc) to replay a counterexample on the real, natively compiled code.
#ifndef VC_H
#define VC_H
#include <cstddef>
#include <cstdint>
#include <type_traits>
extern "C" {
  // symbolic inputs (replayed by name)
  int32_t  vc_i32 (const char *name);
  uint32_t vc_u32 (const char *name);
  int64_t  vc_i64 (const char *name);
  uint64_t vc_u64 (const char *name);
  uint8_t  vc_u8  (const char *name);
  bool     vc_bool(const char *name);
  double   vc_f64 (const char *name);
  // an array length: symbolic and unbounded (< 2^28) in proof mode; enumerated 0..bound in bounded mode
  uint64_t vc_size (const char *name);
  // a value in [lo,hi], enumerated by case split in every mode (complete)
  int64_t  vc_split (const char *name,int64_t lo,int64_t hi);
  // fresh heap array of n elements with symbolic contents; kind: 0=int of elsize bytes, 1=double
  void *   vc_array_raw (const char *name,uint64_t n,uint64_t elsize,int kind);
  // contracts
  void vc_assume (bool);                       // precondition of the function under contract
  void vc_check  (bool,const char *label);     // postcondition / lemma obligation
  void vc_lemma  (bool,const char *label);     // as vc_check; the proved fact is then available to later obligations
  void vc_cover  (const char *label);          // vacuity guard: this point must be reachable
  void vc_stub_requires (bool,const char *label); // precondition of a contract used at a call site
  bool vc_quant  (int isforall,uint64_t lo,uint64_t hi,bool (*fn)(const void*,uint64_t),const void *ctx);
  void vc_havoc_i32 (void *p,const char *name);
  bool vc_symbolic_mode ();                    // true when interpreted symbolically
  int32_t vc_locks_held ();                    // number of mutex locks held (0 when run natively)
  void vc_trace (const char *name,int64_t v);
  // declares that a loop cut with an unbounded trip count is expected here (documentation only)
  void *vc_opaque_ptr (const char *name);
}
namespace std { template<class T> class complex; }
template<class T> struct vc_is_complex { enum { value = 0 }; };
template<class T> struct vc_is_complex<std::complex<T>> { enum { value = 1 }; };
template<class T> inline T *vc_array (const char *name,uint64_t n)
{ return static_cast<T*>(vc_array_raw(name,n,sizeof(T),std::is_floating_point<T>::value?1:vc_is_complex<T>::value?2:0)); }
template<class F> inline bool vc_forall (uint64_t lo,uint64_t hi,const F &f)
{ return vc_quant(1,lo,hi,[](const void *c,uint64_t i)->bool{ return (*static_cast<const F*>(c))(i); },&f); }
template<class F> inline bool vc_exists (uint64_t lo,uint64_t hi,const F &f)
{ return vc_quant(0,lo,hi,[](const void *c,uint64_t i)->bool{ return (*static_cast<const F*>(c))(i); },&f); }
// a proof obligation group: verified function by function
#define VC_PROOF(name) extern "C" void PROOF__##name ()
inline bool implies (bool a,bool b) { return !a || b; }
#endif
