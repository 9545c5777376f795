// @property C07
// @sources MEQ/src/RequestId.cc DMI/src/HIID.cc
// @libs meq
// @verifies diffMask Meq::RqId::diffMask
// @verifies maskedCompare Meq::RqId::maskedCompare
// @verifies maskSubId Meq::RqId::maskSubId
// @verifies incrSubId Meq::RqId::incrSubId
// @verifies setSubId Meq::RqId::setSubId
// @verifies lemma_incr_changes Meq::RqId::incrSubId; Meq::RqId::diffMask
#include "../contracts/hiid.h"
#include <MEQ/RequestId.h>
using namespace Meq;
static const int NB = RQIDM_NBITS;
static const int FULL = (1<<NB)-1;

// bit i of the difference mask is set iff the indices differ (missing indices count as 0)
VC_PROOF(diffMask)
{
  SymHIID a("na","a"), b("nb","b");
  int m = RqId::diffMask(a,b);
  vc_check((m&~FULL) == 0,"diffMask: only RQIDM_NBITS bits are used");
  for( int i=0; i<NB; i++ )
    vc_check(((m>>i)&1) == (at0(a,i) != at0(b,i)),"diffMask: bit set iff the index differs");
  vc_cover("end");
}
VC_PROOF(maskedCompare)
{
  SymHIID a("na","a"), b("nb","b");
  int mask = vc_i32("mask");
  bool r = RqId::maskedCompare(a,b,mask);
  bool eq = true;
  for( int i=0; i<NB; i++ )
    if( (mask>>i)&1 ) eq &= at0(a,i) == at0(b,i);
  bool expect = mask == 0 || (a.size() != 0 && b.size() != 0 && eq);
  vc_check(r == expect,"maskedCompare: true iff all masked indices agree (empty id never matches a non-null mask)");
  vc_cover("end");
}
VC_PROOF(maskSubId)
{
  SymHIID a("na","a");
  int mask = vc_i32("mask");
  HIID o(a);
  RqId::maskSubId(o,mask);
  if( !mask )
    vc_check(o.size() == 1 && el(o,0) == 0,"maskSubId: null mask clears the id");
  else
  {
    vc_check(o.size() == a.size(),"maskSubId: length is kept");
    vc_check(vc_forall(0,a.size(),[&](uint64_t i){ return el(o,i) == (i < (uint64_t)NB && !((mask>>(i&31))&1) ? 0 : el(a,i)); }),
        "maskSubId: exactly the unmasked indices are zeroed");
  }
  vc_cover("end");
}
static int width (int mask)
{ int w=0; for( int m=mask; m != 0; m >>= 1 ) w++; return w; }
VC_PROOF(incrSubId)
{
  SymHIID a("na","a",NB,1<<20);
  int mask = vc_i32("mask");
  vc_assume(mask >= 0 && mask <= FULL);
  HIID o(a);
  RqId::incrSubId(o,mask);
  vc_check(o.size() >= a.size(),"incrSubId: never shortens the id");
  vc_check(o.size() == a.size() || ((mask>>(o.size()-1)) == 1),"incrSubId: extends exactly to the highest masked index");
  for( int i=0; i<NB; i++ )
    vc_check(at0(o,i) == (int)((unsigned)at0(a,i) + ((mask>>i)&1)),"incrSubId: masked indices are incremented, others kept");
  vc_check(vc_forall(NB,a.size(),[&](uint64_t i){ return el(o,i) == el(a,i); }),"incrSubId: indices beyond the mask are kept");
  vc_cover("end");
}
VC_PROOF(setSubId)
{
  SymHIID a("na","a",NB,1<<20);
  int mask = vc_i32("mask"), value = vc_i32("value");
  vc_assume(mask >= 0 && mask <= FULL);
  HIID o(a);
  RqId::setSubId(o,mask,value);
  vc_check(o.size() >= a.size(),"setSubId: never shortens the id");
  vc_check(o.size() == a.size() || ((mask>>(o.size()-1)) == 1),"setSubId: extends exactly to the highest masked index");
  for( int i=0; i<NB; i++ )
    vc_check(at0(o,i) == (((mask>>i)&1) ? value : at0(a,i)),"setSubId: masked indices take the value, others are kept");
  vc_check(vc_forall(NB,a.size(),[&](uint64_t i){ return el(o,i) == el(a,i); }),"setSubId: indices beyond the mask are kept");
  vc_cover("end");
}
// an increment is always visible as exactly that difference: the guarantee that a changed state is never mistaken for the old one
VC_PROOF(lemma_incr_changes)
{
  SymHIID a("na","a",NB,1<<20);
  int mask = vc_i32("mask");
  vc_assume(mask >= 0 && mask <= FULL);
  HIID o(a);
  RqId::incrSubId(o,mask);
  vc_check(RqId::diffMask(a,o) == mask,"incrSubId then diffMask gives back exactly the mask");
  vc_check(RqId::diffMask(o,a) == mask,"diffMask is symmetric");
  vc_check(RqId::diffMask(a,a) == 0,"an id never differs from itself");
  vc_cover("end");
}
