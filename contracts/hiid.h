// symbolic HIIDs: any length (unbounded), any contents, any spare capacity
#ifndef VC_HIID_H
#define VC_HIID_H
#include <vc.h>
#include <DMI/HIID.h>
#include <cstdlib>
using namespace DMI;
// gives h the n elements at p (p must be a heap block of n+spare elements)
inline void hiid_set (HIID &h,int *p,uint64_t n,uint64_t spare)
{
  HIID_Base &v = h;
#ifdef VC_NATIVE
  // the real container owns memory of its own allocator
  HIID_Base tmp; tmp.reserve(n+spare); v.swap(tmp);
  v.resize(n);
  for( uint64_t i=0; i<n; i++ ) v[i] = AtomicID(p[i]);
#else
  v._M_impl._M_start = reinterpret_cast<AtomicID*>(p);
  v._M_impl._M_finish = reinterpret_cast<AtomicID*>(p)+n;
  v._M_impl._M_end_of_storage = reinterpret_cast<AtomicID*>(p)+n+spare;
#endif
}
struct SymHIID : public HIID
{
  uint64_t n0;            // length
  int *old;               // contents at construction
  SymHIID (const char *szname,const char *name,uint64_t nmax=1<<20)
  {
    uint64_t n = vc_size(szname);
    vc_assume(n<=nmax);
    init(n,name);
  }
  // any length, with a case split on the lengths below 'cases' (complete: the last case is "cases or more")
  SymHIID (const char *szname,const char *name,int cases,uint64_t nmax)
  {
    uint64_t n = vc_split("len",0,cases);
    if( n == (uint64_t)cases )
    {
      n = vc_size(szname);
      vc_assume(n>=(uint64_t)cases && n<=nmax);
    }
    init(n,name);
  }
  SymHIID (uint64_t n,const char *name)
  { init(n,name); }
  void init (uint64_t n,const char *name)
  {
    n0 = n;
    int *p = vc_array<int>(name,n);
    hiid_set(*this,p,n,0);
  }
};
// element i of a HIID, 0 ("no index") past its end
inline int at0 (const HIID &h,uint64_t i)
{ return i < h.size() ? h[i].aid : 0; }
inline int el (const HIID &h,uint64_t i)
{ return (&h.front())[i].aid; }
inline bool same_seq (const HIID &a,const HIID &b)
{
  return a.size() == b.size() && vc_forall(0,a.size(),[&](uint64_t i){ return el(a,i) == el(b,i); });
}
#endif
