// @property C12
// @sources MEQ/src/Domain.cc DMI/src/Record.cc DMI/src/Container.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/HIID.cc DMI/src/BObj.cc
// @libs meq
// @stub * _ZN3DMI6Record8addFieldERKNS_4HIIDERNS_10CountedRefINS_4BObjEEEi stub_addField
// @stub * _ZN3DMI3VecC1ENS_8AtomicIDEiPKvS1_ stub_Vec
// @stub * _ZN3DMI3VecD1Ev stub_VecD
// @stub * _ZN3Meq4Axis15resetDefaultMapEv stub_resetMap
// @stub * _ZN3Meq4Axis10getAxisIdsERN3DMI10CountedRefINS1_4BObjEEE stub_getAxisIds
// @assume Record::addField stores the given object under the given key and touches nothing else of the domain; DMI::Vec(type,n,data) copies the data (both under contract as stubs, their bodies are outside this check)
// @verifies defineAxis Meq::Domain::defineAxis
// @verifies envelope Meq::Domain::envelope; Meq::Domain::defineAxis
// @verifies expandToEnvelope Meq::Domain::expandToEnvelope; Meq::Domain::defineAxis
// @verifies superset Meq::Domain::supersetOfProj
// @verifies equality Meq::Domain::operator==
#include <vc.h>
#include <MEQ/Domain.h>
#include <MEQ/Axis.h>
using namespace Meq;
static const int NA = Axis::MaxAxis;
static double pub[2]; static const HIID *pubkey = 0; static int npub = 0; static const double *pubdata; static int pubn;
extern "C" void *stub_addField (DMI::Record *,const HIID &id,void *,int)
{ pubkey = &id; npub++; if( pubdata ) { pub[0] = pubdata[0]; pub[1] = pubdata[1]; } pubdata = 0; static long dummy[16]; return dummy; }
struct Dummy : public DMI::BObj
{ 
  DMI::CountedRefTarget *clone (int,int) const { return new Dummy; } 
  DMI::TypeId objectType () const { return DMI::TypeId(0); }
  int fromBlock (DMI::BlockSet &) { return 0; }
  int toBlock (DMI::BlockSet &) const { return 0; }
};
extern "C" void stub_Vec (DMI::Vec *v,int,int n,const void *data,int)
{ new (static_cast<void*>(v)) Dummy; pubdata = (const double*)data; pubn = n; }
extern "C" void stub_VecD (DMI::Vec *) {}
extern "C" void stub_resetMap () {}
extern "C" void stub_getAxisIds (void *) {}

// a domain with any axes defined over any proper segments
struct SymDomain : public Domain
{
  SymDomain (const char *d,const char *a,const char *b)
  {
    for( int i=0; i<NA; i++ )
    {
      defined_[i] = vc_bool(d);
      range_[i][0] = range_[i][1] = 0;
      double x0 = vc_f64(a), x1 = vc_f64(b);
      if( defined_[i] )
      {
        vc_assume(x0 < x1);
        range_[i][0] = x0; range_[i][1] = x1;
      }
    }
  }
};
VC_PROOF(defineAxis)
{
  Axis::_default_mapping = vc_bool("defmap");
  SymDomain &d = *new SymDomain("def","lo","hi");
  Domain &old = *new Domain; 
  for( int i=0; i<NA; i++ ) { old.defined_[i] = d.defined_[i]; old.range_[i][0] = d.range_[i][0]; old.range_[i][1] = d.range_[i][1]; }
  int ax = vc_split("axis",-1,NA);
  double a = vc_f64("a"), b = vc_f64("b");
  bool threw = false;
  pubkey = 0;
  try { d.defineAxis(ax,a,b); } catch( ... ) { threw = true; }
  vc_check(threw == (ax<0 || ax>=NA),"defineAxis: fails exactly for an axis number out of range");
  for( int i=0; i<NA; i++ )
    if( i != ax )
      vc_check(d.defined_[i] == old.defined_[i] && d.range_[i][0] == old.range_[i][0] && d.range_[i][1] == old.range_[i][1],"defineAxis: other axes are left alone");
  if( !threw )
  {
    double lo = a < b ? a : b, hi = a < b ? b : a;
    vc_check(d.isDefined(ax) && d.start(ax) < d.end(ax),"defineAxis: the axis becomes a proper segment");
    vc_check(d.end(ax) == hi && (a == b || d.start(ax) == lo),"defineAxis: the segment runs from the smaller to the larger bound");
    if( vc_symbolic_mode() && Axis::_default_mapping )
      vc_check(pubkey == &Axis::_name_map[ax] && pub[0] == d.start(ax) && pub[1] == d.end(ax) && pubn == 2,"defineAxis: the record field of the axis holds the segment");
  }
  vc_check(vc_locks_held() == 0,"locks are released");
  vc_cover("end");
}
static void check_envelope (const Domain &out,const Domain &a,const Domain &b)
{
  for( int i=0; i<NA; i++ )
  {
    vc_check(out.isDefined(i) == (a.isDefined(i) || b.isDefined(i)),"envelope: defined along exactly the axes of either domain");
    if( a.isDefined(i) && b.isDefined(i) )
    {
      vc_check(out.start(i) == (a.start(i) < b.start(i) ? a.start(i) : b.start(i)),"envelope: starts at the earlier start");
      vc_check(out.end(i) == (a.end(i) > b.end(i) ? a.end(i) : b.end(i)),"envelope: ends at the later end");
    }
    else if( a.isDefined(i) )
      vc_check(out.start(i) == a.start(i) && out.end(i) == a.end(i),"envelope: an axis of one domain only is taken over");
    else if( b.isDefined(i) )
      vc_check(out.start(i) == b.start(i) && out.end(i) == b.end(i),"envelope: an axis of one domain only is taken over");
  }
}
VC_PROOF(envelope)
{
  SymDomain &a = *new SymDomain("da","a0","a1"), &b = *new SymDomain("db","b0","b1");
  Domain &out = *new Domain(Domain::envelope(a,b));
  check_envelope(out,a,b);
  vc_cover("end");
}
VC_PROOF(expandToEnvelope)
{
  SymDomain &a = *new SymDomain("da","a0","a1"), &b = *new SymDomain("db","b0","b1");
  Domain &old = *new Domain;
  for( int i=0; i<NA; i++ ) { old.defined_[i] = a.defined_[i]; old.range_[i][0] = a.range_[i][0]; old.range_[i][1] = a.range_[i][1]; }
  a.expandToEnvelope(b);
  check_envelope(a,old,b);
  vc_check(vc_locks_held() == 0,"locks are released");
  vc_cover("end");
}
VC_PROOF(superset)
{
  SymDomain &a = *new SymDomain("da","a0","a1"), &b = *new SymDomain("db","b0","b1");
  bool r = a.supersetOfProj(b), e = true;
  for( int i=0; i<NA; i++ )
    if( a.isDefined(i) )
      e = e && b.isDefined(i) && a.start(i) <= b.start(i) && a.end(i) >= b.end(i);
  vc_check(r == e,"supersetOfProj: every axis of the superset is an axis of the other domain, with a segment that covers it");
  vc_check(a.supersetOfProj(a),"supersetOfProj: reflexive");
  vc_cover("end");
}
VC_PROOF(equality)
{
  SymDomain &a = *new SymDomain("da","a0","a1"), &b = *new SymDomain("db","b0","b1");
  bool e = true;
  for( int i=0; i<NA; i++ )
    e = e && a.isDefined(i) == b.isDefined(i) && (!a.isDefined(i) || (a.start(i) == b.start(i) && a.end(i) == b.end(i)));
  vc_check((a == b) == e,"two domains are equal exactly when they have the same axes and segments");
  vc_check((a != b) == !e,"inequality is the negation of equality");
  vc_cover("end");
}
