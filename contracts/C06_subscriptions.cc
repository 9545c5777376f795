// @property C06
// @sources OCTOPUSSY/src/Subscriptions.cc OCTOPUSSY/src/MsgAddress.cc DMI/src/HIID.cc
// @libs octopussy
// @option * nosummary=1 timeout=20000
// @stub set_.* _ZNK3DMI4HIID8subsetOfERKS0_ stub_subset
// @stub set_.* _ZNK3DMI4HIID7matchesERKS0_ stub_matches
// @verifies set_add Subscriptions::add; Subscriptions::matches
// @verifies set_remove Subscriptions::remove
// @verifies set_merge Subscriptions::merge; Subscriptions::clear
// @verifies wire Subscriptions::pack; Subscriptions::unpack; HIID::pack; HIID::unpack
// @assume (set_*) HIID::matches and subsetOf by contract: if a is a subset of b, everything concrete that matches a matches b; the relation is reflexive (proved for the real functions as C04)
#include <vc.h>
#include <new>
#include <cstring>
#include "../contracts/stl.h"
#include <OCTOPUSSY/Subscriptions.h>
using namespace Octopussy;

typedef Subscriptions::SubElement Elem;
static const int N = 3;                 // entries in the list
// ---------------------------------------------------------------------- the set of messages that a list of subscriptions selects
// Ids and scopes are named by tags.  A message with any concrete id and sender is described by the entries it matches:
static bool M[N+2],MS[N+2];            // the message matches mask t / its sender matches scope t
static bool S[N+2][N+2],SS[N+2][N+2];  // mask (scope) a is a subset of b
static const int MSG = 100, FROM = 200;
static int tag (const HIID &id) { return id[0].id(); }
extern "C" bool stub_subset (const HIID *a,const HIID &b)
{
  int x = tag(*a), y = tag(b);
  bool scope = x >= FROM;
  vc_stub_requires(scope == (y >= FROM),"masks are compared to masks and scopes to scopes");
  return scope ? SS[x-FROM-1][y-FROM-1] : S[x-1][y-1];
}
extern "C" bool stub_matches (const HIID *a,const HIID &b)
{
  int x = tag(*a), y = tag(b);
  if( x == FROM || x == MSG ) { int z = x; x = y; y = z; }
  vc_stub_requires(y == (x >= FROM ? FROM : MSG),"the id is matched to the masks and the sender to the scopes");
  return y == FROM ? MS[x-FROM-1] : M[x-1];
}
static bool samelen = false;
static HIID & mask (int t) { HIID &h = *new HIID; int len = samelen ? 2 : t+1; h.resize(len); for( int i=0; i<len; i++ ) h[i] = DMI::AtomicID(t+1); return h; }
static MsgAddress & scope (int t) { return *new MsgAddress(DMI::AtomicID(FROM+1+t),DMI::AtomicID(1),DMI::AtomicID(2),DMI::AtomicID(3)); }
static Message & message ()
{
  char *p = static_cast<char*>(::operator new(sizeof(Message)));
  memset(p,0,sizeof(Message));
  Message *m = reinterpret_cast<Message*>(p);
  new (&m->id_) HIID(DMI::AtomicID(MSG)); new (&m->from_) MsgAddress(DMI::AtomicID(FROM)); new (&m->to_) MsgAddress;
  return *m;
}
static void relations (int n)
{
  for( int i=0; i<n; i++ ) { M[i] = vc_bool("matches"); MS[i] = vc_bool("smatches"); }
  for( int i=0; i<n; i++ )
    for( int j=0; j<n; j++ )
    {
      S[i][j] = i == j || vc_bool("subset"); SS[i][j] = i == j || vc_bool("ssubset");
      vc_assume(!(S[i][j] && M[i]) || M[j]);
      vc_assume(!(SS[i][j] && MS[i]) || MS[j]);
    }
}
static size_t esize (const Elem &e) { return e.mask.size()*4 + e.scope.size()*4 + 2*sizeof(size_t); }
static size_t total (const Subscriptions &s)
{
  size_t sz = sizeof(size_t);
  for( Subscriptions::CSSI i = s.subs.begin(); i != s.subs.end(); i++ ) sz += esize(*i);
  return sz;
}
static void fill (Subscriptions &s,int from,int to)
{
  for( int i=from; i<to; i++ ) { Elem e = { mask(i),scope(i) }; s.subs.push_back(e); }
  s.pksize = total(s);
}
#ifndef VC_NATIVE
VC_PROOF(set_add)
{
  int n = vc_split("n",0,N);
  relations(n+1);
  Subscriptions &s = *new Subscriptions; fill(s,0,n);
  Message &m = message();
  bool before = false;
  for( int i=0; i<n; i++ ) before |= M[i] && MS[i];
  vc_check(s.matches(m) == before,"a message is selected exactly when an entry matches its id and its sender");
  bool res = s.add(mask(n),scope(n));
  bool after = s.matches(m);
  vc_check(after == (before || (M[n] && MS[n])),"after adding a subscription exactly the messages are selected that were selected or match it");
  vc_check(res || after == before,"reports whether anything has changed");
  vc_check(s.packSize() == total(s),"the size of the packed list is kept");
  vc_check(s.size() <= n+1,"at most one entry is added");
  vc_cover("end");
}
VC_PROOF(set_remove)
{
  int n = vc_split("n",0,N);
  relations(n+1);
  Subscriptions &s = *new Subscriptions; fill(s,0,n);
  bool res = s.remove(mask(n));
  int left = 0;
  Subscriptions::CSSI it = s.subs.begin();
  for( int i=0; i<n; i++ )
    if( !S[i][n] )
    {
      left++;
      vc_check(it != s.subs.end() && tag(it->mask) == i+1 && tag(it->scope) == FROM+1+i,"all other subscriptions are kept");
      ++it;
    }
  vc_check(it == s.subs.end() && s.size() == left,"exactly the subscriptions to subsets of the id are removed");
  vc_check(res == (left < n),"reports whether anything was removed");
  vc_check(s.packSize() == total(s),"the size of the packed list is kept");
  vc_cover("end");
}
VC_PROOF(set_merge)
{
  samelen = true;
  int n = vc_split("n",0,1), k = vc_split("other",0,2);
  relations(n+k);
  Subscriptions &s = *new Subscriptions, &o = *new Subscriptions; fill(s,0,n); fill(o,n,n+k);
  Message &m = message();
  bool a = s.matches(m), b = o.matches(m);
  bool res = s.merge(o);
  vc_check(s.matches(m) == (a || b),"merging selects the messages of both lists");
  vc_check(o.size() == k && o.matches(m) == b,"the list merged from is not changed");
  vc_check(res || s.matches(m) == a,"reports whether anything has changed");
  vc_check(s.packSize() == total(s),"the size of the packed list is kept");
  s.clear();
  vc_check(!s.matches(m) && !s.size() && s.packSize() == sizeof(size_t),"a cleared list selects nothing");
  vc_cover("end");
}
#endif
// ---------------------------------------------------------------------- the same on real ids (small ones), for any contents
static int WILD (int k) { return k == 0 ? AidAny.id() : AidWildcard.id(); }
static HIID & realid (const char *name,int maxlen)
{
  HIID &h = *new HIID; int n = vc_split("len",1,maxlen); h.resize(n);
  for( int i=0; i<n; i++ ) h[i] = DMI::AtomicID(vc_i32(name));
  return h;
}
static MsgAddress & realscope (bool concrete)
{
  MsgAddress &a = *new MsgAddress;
  for( int i=0; i<4; i++ )
  {
    int x = i < 2 ? vc_i32("addr") : 5;
    vc_assume(!concrete || (x != AidAny.id() && x != AidWildcard.id()));
    a[i] = DMI::AtomicID(x);
  }
  return a;
}
static bool concrete (const HIID &h)
{
  for( uint i=0; i<h.size(); i++ ) if( h[i] == AidAny || h[i] == AidWildcard ) return false;
  return true;
}
static Subscriptions & reallist (int n)
{
  Subscriptions &s = *new Subscriptions;
  for( int i=0; i<n; i++ ) { Elem e = { realid("mask",2),realscope(false) }; s.subs.push_back(e); }
  s.pksize = total(s);
  return s;
}
static Message & realmsg ()
{
  Message &m = message();
  m.id_ = realid("id",2); m.from_ = realscope(true);
  vc_assume(concrete(m.id_));
  return m;
}
VC_PROOF(real_add)
{
  Subscriptions &s = reallist(1);
  Message &m = realmsg();
  HIID &id = realid("newmask",2); MsgAddress &sc = realscope(false);
  bool before = s.matches(m);
  bool res = s.add(id,sc);
  vc_check(s.matches(m) == (before || (m.id().matches(id) && m.from().matches(sc))),
           "after adding a subscription exactly the messages are selected that were selected or match it");
  vc_check(res || s.matches(m) == before,"reports whether anything has changed");
  vc_check(s.packSize() == total(s),"the size of the packed list is kept");
  vc_cover("end");
}
// ---------------------------------------------------------------------- the list as it is sent to other processes
VC_PROOF(wire)
{
  int n = vc_split("n",0,2);
  Subscriptions &s = *new Subscriptions;
  for( int i=0; i<n; i++ ) { Elem e = { realid("mask",3),realscope(false) }; s.subs.push_back(e); }
  s.pksize = total(s);
  size_t sz = s.packSize(), extra = vc_split("extra",0,1)*8;
  char *block = vc_array<char>("block",sz+extra);
  size_t nleft = sz+extra;
  vc_check(s.pack(block,nleft) == sz && nleft == extra,"the list is packed into as many bytes as announced");
  Subscriptions &t = *new Subscriptions;
  if( vc_split("occupied",0,1) ) { Elem e = { mask(0),scope(0) }; t.subs.push_back(e); }
  t.unpack(block,sz);
  vc_check(t.size() == n && t.packSize() == sz,"as many entries are unpacked");
  Subscriptions::CSSI a = s.subs.begin(),b = t.subs.begin();
  for( ; a != s.subs.end(); ++a,++b )
  {
    bool same = a->mask.size() == b->mask.size() && a->scope.size() == b->scope.size();
    for( uint i=0; same && i<a->mask.size(); i++ ) same = a->mask[i].id() == b->mask[i].id();
    for( uint i=0; same && i<a->scope.size(); i++ ) same = a->scope[i].id() == b->scope[i].id();
    vc_check(same,"every entry is unpacked as it was packed");
  }
  vc_cover("end");
}
VC_PROOF(wire_short)
{
  Subscriptions &s = *new Subscriptions;
  int n = vc_split("n",0,2);
  for( int i=0; i<n; i++ ) { Elem e = { realid("mask",2),realscope(false) }; s.subs.push_back(e); }
  s.pksize = total(s);
  size_t sz = s.packSize(), have = vc_split("have",0,26)*4;
  vc_assume(have < sz);
  char *block = new char[have];
  bool failed = false;
  size_t nleft = have;
  try { s.pack(block,nleft); } catch( std::exception & ) { failed = true; }
  vc_check(failed,"packing into a block that is too small fails (and does not write beyond it)");
  vc_cover("end");
}
VC_PROOF(corrupt)
{
  static const size_t sizes[] = { 0,8,1000,4,16,20 };
  size_t sz = vc_split("size",0,7)*8;
  size_t *block = new size_t[8];
  for( int i=0; i<8; i++ ) block[i] = 0x500000005;
  block[0] = vc_split("n",0,2);
  for( int i=0; i<int(block[0])*2; i++ ) block[1+i] = sizes[vc_split("esize",0,block[0] == 1 ? 5 : 2)];
  Subscriptions &t = *new Subscriptions;
  bool failed = false;
  try { t.unpack(block,sz); } catch( std::exception & ) { failed = true; }
  size_t need = 8;
  if( !failed )
  {
    vc_check(sz >= 8 && t.size() == int(block[0]),"a block is unpacked into as many entries as it says");
    need = total(t);
    vc_check(need == sz && t.packSize() == sz,"only a block whose size is that of its entries is accepted");
  }
  vc_cover("end");
}
// ---------------------------------------------------------------------- addresses
VC_PROOF(address)
{
  DMI::AtomicID c(vc_i32("wpc")),i(vc_i32("inst")),p(vc_i32("proc")),h(vc_i32("host"));
  MsgAddress &a = *new MsgAddress(c,i,p,h);
  vc_check(a.size() == 4 && a.wpclass() == c && a.inst() == i && a.process() == p && a.host() == h,"an address consists of its four parts");
  WPID &w = *new WPID(a.wpid());
  vc_check(w.size() == 2 && w.wpclass() == c && w.inst() == i,"the work process id of an address");
  HIID &peer = *new HIID(a.peerid());
  vc_check(peer.size() == 2 && peer[0] == p && peer[1] == h,"the peer id of an address");
  MsgAddress &b = *new MsgAddress(w,p,h);
  vc_check(b.size() == 4 && b.wpclass() == c && b.inst() == i && b.process() == p && b.host() == h,"an address made from a work process id");
  MsgAddress &l = *new MsgAddress(c,i);
  vc_check(l.size() == 4 && l.process() == AidLocal && l.host() == AidLocal,"addresses are local unless said otherwise");
  const HIID &id = a;
  MsgAddress &d = *new MsgAddress(id);
  vc_check(d.size() == 4 && d[0] == c && d[1] == i && d[2] == p && d[3] == h,"an address made from its id");
  int n = vc_split("n",0,5); HIID &bad = *new HIID; bad.resize(n);
  bool failed = false;
  try { MsgAddress e(bad); } catch( std::exception & ) { failed = true; }
  vc_check(failed == (n != 4),"an id of another length is not an address");
  vc_cover("end");
}
