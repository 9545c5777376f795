// @property C03
// @sources DMI/src/HIID.cc
// @libs dmi
// @verifies equal DMI::HIID::operator==; DMI::HIID::operator!=
// @verifies less DMI::HIID::operator<
#include "../contracts/hiid.h"
static bool ref_less (const HIID &a,const HIID &b)
{
  uint64_t n = a.size(), m = b.size(), lim = n<m ? n : m;
  for( uint64_t i=0; i<lim; i++ )
  {
    if( el(a,i) < el(b,i) ) return true;
    if( el(a,i) > el(b,i) ) return false;
  }
  return n < m;
}
VC_PROOF(equal)
{
  SymHIID a("na","a"), b("nb","b");
  bool r = a == b;
  vc_check(r == same_seq(a,b),"==: true exactly for identical sequences");
  vc_check((a != b) == !r,"!=: negation of ==");
  vc_cover("end");
}
VC_PROOF(less)
{
  SymHIID a("na","a"), b("nb","b");
  vc_check((a<b) == ref_less(a,b),"<: lexicographic order");
  vc_cover("end");
}
VC_PROOF(irreflexive)
{
  SymHIID a("na","a");
  SymHIID b(a.n0,"b");
  vc_assume(same_seq(a,b));
  vc_check(!(a<a) && !(a<b),"<: irreflexive");
  vc_check(a == b && a == a,"==: reflexive");
  vc_cover("end");
}
// strict total order, consistent with equality: what std::map<HIID,...> and every keyed container rely on
VC_PROOF(total)
{
  SymHIID a("na","a"), b("nb","b");
  bool l = a<b, g = b<a, e = a == b;
  vc_check(int(l)+int(g)+int(e) == 1,"exactly one of <, >, == holds");
  vc_cover("end");
}
// p is the first position at which a and b differ (or the shorter one ends); it always exists and is unique
static bool first_diff (const HIID &a,const HIID &b,uint64_t p)
{
  if( p > a.size() || p > b.size() ) return false;
  if( p < a.size() && p < b.size() && el(a,p) == el(b,p) ) return false;
  return vc_forall(0,p,[&](uint64_t i){ return el(a,i) == el(b,i); });
}
static bool less_at (const HIID &a,const HIID &b,uint64_t p)
{ return p < b.size() && (p == a.size() || el(a,p) < el(b,p)); }
VC_PROOF(less_at_first_difference)
{
  SymHIID a("na","a"), b("nb","b");
  uint64_t p = vc_u64("p");
  vc_assume(first_diff(a,b,p));
  vc_check((a<b) == less_at(a,b,p),"<: decided by the first difference");
  vc_cover("end");
}
// (uses the previous contract for a<b and b<c)
VC_PROOF(transitive)
{
  SymHIID a("na","a"), b("nb","b"), c("nc","c");
  uint64_t p = vc_u64("p"), q = vc_u64("q");
  vc_assume(first_diff(a,b,p));
  vc_assume(first_diff(b,c,q));
  vc_assume(less_at(a,b,p) && less_at(b,c,q));
  uint64_t r = p<q ? p : q;
  vc_lemma(first_diff(a,c,r),"the first difference of a and c is the earlier of the two");
  vc_lemma(less_at(a,c,r),"<: transitive");
  vc_cover("end");
}
VC_PROOF(copies)
{
  SymHIID a("na","a",2,1<<20);
  int extra = vc_i32("extra"); vc_assume(extra >= 0 && extra < 100);
  HIID b(a,extra);
  vc_check(b == a && a == b,"a copy equals the original");
  HIID c;
  c = a;
  vc_check(c == a,"an assigned id equals the original");
  vc_cover("end");
}
