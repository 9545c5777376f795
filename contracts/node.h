// nodes, requests and results as raw objects: zeroed memory with the virtual table of a test class; only the members
// that the functions under contract use are given values.  (The constructors build state records and are not under contract.)
#ifndef VC_NODE_H
#define VC_NODE_H
#include <vc.h>
#include <cstring>
#include <cstdlib>
#include <new>
#include <MEQ/TID-Meq.h>
#include <MEQ/Node.h>
#include <MEQ/Forest.h>
#include <MEQ/MeqVocabulary.h>
using namespace Meq;
template<class T> inline T * raw (void **vtable)
{
  char *p = static_cast<char*>(::operator new(sizeof(T)));
  memset(p,0,sizeof(T));
  if( vtable ) *reinterpret_cast<void***>(p) = vtable + 2;
  return reinterpret_cast<T*>(p);
}
// a result is an object whose clones are new objects
static int nclones = 0;
struct TestResult : public Result
{
  virtual TypeId objectType () const { return TpMeqResult; }
  virtual CountedRefTarget * clone (int,int) const;
  virtual void validateContent (bool) {}
};
extern void *vt_result[] asm("_ZTV10TestResult");
static const Result *clone_origin = 0;
static Result *last_clone = 0;
extern "C" __attribute__((used)) inline void emit_vt_result () { new TestResult; }
// contract of the constructor and destructor of results (only in the verifier)
extern "C" __attribute__((used)) inline void stub_result_ctor (Result *r,int) { memset((void*)r,0,sizeof(Result)); *reinterpret_cast<void***>(r) = vt_result + 2; }
extern "C" __attribute__((used)) inline void stub_result_dtor (Result *) {}
#ifdef VC_NATIVE
inline Result * mkresult () { return new TestResult; }
#else
inline Result * mkresult () { return raw<TestResult>(vt_result); }
#endif
CountedRefTarget * TestResult::clone (int,int) const { nclones++; clone_origin = this; return last_clone = mkresult(); }

struct TestRequest : public Request { virtual TypeId objectType () const { return TpMeqRequest; } virtual void validateContent (bool) {} };
extern void *vt_request[] asm("_ZTV11TestRequest");
extern "C" __attribute__((used)) inline void emit_vt_request () { new TestRequest; }
#ifdef VC_NATIVE
inline Request * mkrequest () { return new TestRequest; }
#else
inline Request * mkrequest () { return raw<TestRequest>(vt_request); }
#endif
#endif
