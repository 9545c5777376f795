// @property C05
// @sources DMI/src/HIID.cc
// @libs dmi
// @verifies concat DMI::HIID::add; DMI::HIID::operator|=
// @verifies subId DMI::HIID::subId
// @verifies pop_front DMI::HIID::pop_front
// @verifies pop_index DMI::HIID::popLeadIndex; DMI::HIID::popTrailIndex
// @verifies slashes DMI::HIID::popLeadSlashes; DMI::HIID::findFirstSlash
// @verifies splitAtSlash DMI::HIID::splitAtSlash
// @verifies push_front DMI::HIID::push_front
// @verifies packing DMI::HIID::pack; DMI::HIID::unpack; DMI::HIID::packSize
#include "../contracts/hiid.h"
#include <cstring>
static const int SLASH = -3;
#define EACH(lo,hi,cond) vc_forall(lo,hi,[&](uint64_t i){ return (cond); })
VC_PROOF(concat)
{
  SymHIID a("na","a",2,1<<20), b("nb","b",2,1<<20);
  SymHIID o(a.n0,"a0");
  vc_assume(same_seq(a,o));
  a |= b;
  vc_check(a.size() == o.size()+b.size(),"|=: lengths add up");
  vc_check(EACH(0,o.n0,el(a,i) == el(o,i)),"|=: the left part is kept");
  uint64_t n = o.n0;
  vc_check(EACH(0,b.n0,el(a,n+i) == el(b,i)),"|=: the right part follows");
  vc_cover("end");
}
VC_PROOF(concat_one)
{
  SymHIID a("na","a",2,1<<20);
  SymHIID o(a.n0,"a0");
  vc_assume(same_seq(a,o));
  int x = vc_i32("x");
  a.add(AtomicID(x));
  vc_check(a.size() == o.size()+1,"add: one more index");
  vc_check(EACH(0,o.n0,el(a,i) == el(o,i)),"add: the left part is kept");
  vc_check(el(a,o.n0) == x,"add: the new index is last");
  vc_cover("end");
}
VC_PROOF(subId)
{
  SymHIID a("na","a");
  int first = vc_i32("first"), last = vc_i32("last");
  int n = a.size();
  vc_assume(first >= -n && first <= n && last >= -n-1 && last < n);
  HIID s = a.subId(first,last);
  if( first < 0 ) first += n;     // negative positions count from the end
  int stop = last < 0 ? n+last+1 : last+1;
  vc_check((int)s.size() == (stop>first ? stop-first : 0),"subId: length");
  vc_check(EACH(0,s.size(),el(s,i) == el(a,first+i)),"subId: copies the requested indices");
  vc_cover("end");
}
VC_PROOF(pop_front)
{
  SymHIID a("na","a");
  SymHIID o(a.n0,"a0");
  vc_assume(same_seq(a,o));
  unsigned n = vc_u32("n"); vc_assume(n < (1u<<30));
  a.pop_front(n);
  uint64_t left = o.n0 > n ? o.n0-n : 0;
  vc_check(a.size() == left,"pop_front: removes n indices");
  vc_check(EACH(0,left,el(a,i) == el(o,n+i)),"pop_front: keeps the rest in order");
  vc_cover("end");
}
VC_PROOF(pop_index)
{
  SymHIID a("na","a",1,1<<20);
  SymHIID o(a.n0,"a0");
  vc_assume(same_seq(a,o));
  bool lead = vc_bool("lead");
  uint64_t n = o.n0;
  if( lead )
  {
    int r = a.popLeadIndex();
    bool is = n != 0 && el(o,0) >= 0;
    vc_check(r == (is ? el(o,0) : 0),"popLeadIndex: returns a leading index");
    vc_check(a.size() == (is ? n-1 : n),"popLeadIndex: removes only a leading index");
    vc_check(EACH(0,a.size(),el(a,i) == el(o,i+(is?1:0))),"popLeadIndex: the rest is kept");
  }
  else
  {
    int r = a.popTrailIndex();
    bool is = n != 0 && el(o,n-1) >= 0;
    vc_check(r == (is ? el(o,n-1) : 0),"popTrailIndex: returns a trailing index");
    vc_check(a.size() == (is ? n-1 : n),"popTrailIndex: removes only a trailing index");
    vc_check(EACH(0,a.size(),el(a,i) == el(o,i)),"popTrailIndex: the rest is kept");
  }
  vc_cover("end");
}
VC_PROOF(slashes)
{
  SymHIID a("na","a");
  SymHIID o(a.n0,"a0");
  vc_assume(same_seq(a,o));
  int pos = a.findFirstSlash();
  if( pos < 0 )
    vc_check(pos == -1 && EACH(0,o.n0,el(o,i) != SLASH),"findFirstSlash: -1 only without a slash");
  else
    vc_check(pos < (int)o.n0 && el(o,pos) == SLASH && EACH(0,pos,el(o,i) != SLASH),"findFirstSlash: the first slash");
  vc_cover("end");
}
VC_PROOF(lead_slashes)
{
  SymHIID a("na","a");
  SymHIID o(a.n0,"a0");
  vc_assume(same_seq(a,o));
  int n = a.popLeadSlashes();
  vc_check(n >= 0 && n <= (int)o.n0 && a.size() == o.n0-n,"popLeadSlashes: count");
  vc_check(EACH(0,n,el(o,i) == SLASH) && EACH(0,a.size(),el(a,i) == el(o,i+n)),"popLeadSlashes: removes slashes, keeps the rest");
  vc_check(a.empty() || el(a,0) != SLASH,"popLeadSlashes: no leading slash is left");
  vc_cover("end");
}
VC_PROOF(splitAtSlash)
{
  SymHIID a("na","a");
  SymHIID o(a.n0,"a0");
  vc_assume(same_seq(a,o));
  HIID s = a.splitAtSlash();
  uint64_t k = s.size();
  vc_check(k <= o.n0 && EACH(0,k,el(s,i) == el(o,i) && el(o,i) != SLASH),"splitAtSlash: the part before the slash");
  if( k == o.n0 )
    vc_check(a.empty(),"splitAtSlash: everything taken without a slash");
  else
    vc_check(el(o,k) == SLASH && a.size() == o.n0-k-1 && EACH(0,a.size(),el(a,i) == el(o,i+k+1)),"splitAtSlash: the part after the slash remains");
  vc_cover("end");
}
VC_PROOF(push_front)
{
  SymHIID a("na","a",2,1<<20);
  SymHIID o(a.n0,"a0");
  vc_assume(same_seq(a,o));
  unsigned n = vc_split("n",0,3); int x = vc_i32("x");
  a.push_front(AtomicID(x),n);
  vc_check(a.size() == o.n0+n,"push_front: length");
  vc_check(EACH(0,n,el(a,i) == x),"push_front: new indices come first");
  vc_check(EACH(0,o.n0,el(a,i+n) == el(o,i)),"push_front: the old indices follow");
  vc_cover("end");
}
VC_PROOF(packing)
{
  SymHIID a("na","a",2,1<<20);
  uint64_t n = a.n0;
  uint64_t room = vc_u64("room"); vc_assume(room >= 4*n && room < (1ul<<40));
  int *blk = vc_array<int>("blk",n);
  size_t nleft = room;
  size_t sz = a.pack(blk,nleft);
  vc_check(sz == 4*n && sz == a.packSize() && nleft == room-sz,"pack: size accounting");
  HIID b;
  b.unpack(blk,sz);
  vc_check(b.size() == n && EACH(0,n,el(b,i) == el(a,i)),"unpack(pack(id)) == id");
  vc_cover("end");
}
