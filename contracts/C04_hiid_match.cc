// @property C04
// @sources DMI/src/HIID.cc
// @libs dmi
// @verifies matches DMI::HIID::matches
// @verifies subsetOf DMI::HIID::subsetOf
// @verifies prefixedBy DMI::HIID::prefixedBy
#include "../contracts/hiid.h"
static const int ANY=-1, WILD=-2;
static inline bool mt (int a,int b) { return a == b || a == ANY || b == ANY; }
// reference semantics: up to the first "*" of either id all indices match; without one the lengths agree, or the longer id goes on with "*"
static bool ref_matches (const HIID &a,const HIID &b)
{
  uint64_t n = a.size(), m = b.size(), lim = n<m ? n : m;
  for( uint64_t i=0; i<lim; i++ )
  {
    if( el(a,i) == WILD || el(b,i) == WILD )
      return true;
    if( !mt(el(a,i),el(b,i)) )
      return false;
  }
  if( n == m ) return true;
  return n<m ? el(b,n) == WILD : el(a,m) == WILD;
}
VC_PROOF(matches)
{
  SymHIID a("na","a"), b("nb","b");
  bool r = a.matches(b);
  vc_check(r == ref_matches(a,b),"matches: agrees with the wildcard semantics");
  vc_cover("end");
}
VC_PROOF(matches_self)
{
  SymHIID a("na","a");
  vc_check(a.matches(a),"matches: reflexive");
  vc_cover("end");
}
VC_PROOF(matches_sym)
{
  SymHIID a("na","a"), b("nb","b");
  vc_check(a.matches(b) == b.matches(a),"matches: symmetric");
  vc_cover("end");
}
// other may have one extra wildcard
static bool ref_subset (const HIID &a,const HIID &b)
{
  uint64_t n = a.size(), m = b.size(), lim = n<m ? n : m;
  for( uint64_t i=0; i<lim; i++ )
  {
    int x = el(a,i), y = el(b,i);
    if( y == WILD ) return true;
    if( x == WILD ) return false;
    if( y != ANY && x != y ) return false;
  }
  return n == m || (n<m && el(b,n) == WILD);
}
VC_PROOF(subsetOf)
{
  SymHIID a("na","a"), b("nb","b");
  vc_check(a.subsetOf(b) == ref_subset(a,b),"subsetOf: agrees with the wildcard semantics");
  vc_cover("end");
}
static bool concrete (const HIID &c)
{ return vc_forall(0,c.size(),[&](uint64_t i){ return el(c,i) != ANY && el(c,i) != WILD; }); }
// the meaning of "subset": everything that matches the narrower id matches the wider one
VC_PROOF(subset_sound)
{
  SymHIID a("na","a"), b("nb","b"), c("nc","c");
  vc_assume(concrete(c));
  if( a.subsetOf(b) && ref_matches(c,a) )
    vc_check(ref_matches(c,b),"subsetOf: every id matching the subset matches the superset");
  vc_cover("end");
}
VC_PROOF(prefixedBy)
{
  SymHIID a("na","a",2,1<<20), b("nb","b",2,1<<20);
  bool r = a.prefixedBy(b);
  if( concrete(a) )
  {
    if( concrete(b) )
      vc_check(r == (b.size() <= a.size() && vc_forall(0,b.size(),[&](uint64_t i){ return el(a,i) == el(b,i); })),"prefixedBy: true exactly for a prefix");
  }
  vc_cover("end");
}
