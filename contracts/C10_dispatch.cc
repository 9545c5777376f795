// @property C10
// @sources OCTOPUSSY/src/Dispatcher.cc OCTOPUSSY/src/WPInterface.cc OCTOPUSSY/src/Message.cc OCTOPUSSY/src/Subscriptions.cc DMI/src/HIID.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc DMI/src/BlockSet.cc DMI/src/Timestamp.cc TimBase/src/Exception.cc
// @libs octopussy
// @option * nosummary=1 timeout=20000
// @stub wp_.* _ZN9Octopussy10Dispatcher4sendERN3DMI10CountedRefINS_7MessageEEERKNS_10MsgAddressE stub_send
// @stub (poll|attach|detach) _ZN9Octopussy11WPInterface7do_initEv stub_init
// @stub (poll|attach|detach) _ZN9Octopussy11WPInterface8do_startEv stub_start
// @stub (poll|attach|detach) _ZN9Octopussy11WPInterface7do_stopEv stub_stop
// @stub poll _ZN9Octopussy11WPInterface15getPollPriorityEm stub_priority
// @stub (poll|detach) _ZN9Octopussy10Dispatcher14rebuildSignalsEPNS_11WPInterfaceE stub_rebuild
// @stub poll _ZN9Octopussy11WPInterface7do_pollEm stub_poll
// @verifies send Dispatcher::send; Dispatcher::enqueue; WPInterface::enqueue; Subscriptions::matches
// @verifies wp_send WPInterface::send
// @verifies wp_publish WPInterface::publish
// @verifies attach Dispatcher::attach
// @verifies detach Dispatcher::detach
// @verifies poll Dispatcher::poll
// @assume (poll) WPInterface::getPollPriority, do_poll by their contracts (proved as poll_priority, poll_message, poll_event)
// @assume (detach) Dispatcher::rebuildSignals by contract (proved as C11 rebuild_signals)
// @assume (attach, detach) WPInterface::do_init, do_start, do_stop are only recorded
#include <vc.h>
#include <new>
#include <cstring>
#include "../contracts/stl.h"
#include "../contracts/octo.h"
#include "../contracts/dsp.h"
static int any (int x) { return x == AidAny.id() || x == AidPublish.id(); }
VC_PROOF(send)
{
  Dispatcher &d = mkdsp();
  static const int cls[] = { 10,10,11 }, ins[] = { 0,1,0 };
  TestWP *w[3];
  bool sub[3],gw[3];
  for( int i=0; i<3; i++ )
  {
    w[i] = &addwp(d,cls[i],ins[i]);
    sub[i] = i && vc_split("subscribed",0,1);
    if( sub[i] ) { Subscriptions::SubElement e = { HIID(AidWildcard),MsgAddress(AidAny,AidAny,AidAny,AidAny) }; w[i]->subscriptions.subs.push_back(e); }
    gw[i] = i == 2 && vc_split("gateway",0,1);
    if( gw[i] ) { d.gateways[w[i]->wpid_] = w[i]; w[i]->forward = vc_bool("forwards"); }
  }
  Message *m = mkmessage(AidHello,0x100);
  Message::Ref &ref = *new Message::Ref(m,DMI::ANONWR);
  m->from_ = MsgAddress(DMI::AtomicID(10),DMI::AtomicID(1),DMI::AtomicID(PROC),DMI::AtomicID(HOST));
  int c = vc_i32("class"), i = vc_i32("instance"), p = vc_i32("process"), h = vc_i32("host");
  vc_assume(c != AidWildcard.id() && i != AidWildcard.id());
  MsgAddress &to = *new MsgAddress(DMI::AtomicID(c),DMI::AtomicID(i),DMI::AtomicID(p),DMI::AtomicID(h));
  int res = d.send(ref,to);
  bool local = (h == HOST || h == AidAny.id() || h == AidWildcard.id()) && (p == PROC || p == AidAny.id() || p == AidWildcard.id());
  bool remote = h != HOST || p != PROC;
  int total = 0;
  for( int k=0; k<3; k++ )
  {
    bool cm = c == cls[k] || c == AidAny.id(), im = i == ins[k] || i == AidAny.id();
    int n = local && ((cm && im) || (c == AidPublish.id() && sub[k]));
    n += remote && gw[k] && w[k]->forward;
    total += n;
    vc_check(int(w[k]->queue_.size()) == n,"a message goes, once, to exactly the addressee, those selected by a broadcast, or the subscribers of a published one; a forwarder gets it if it has to leave the process");
    if( n ) vc_check(w[k]->queue_.front().mref.target_ == m && w[k]->needRepoll_,"the work process is asked to look at the message");
  }
  vc_check(res == total,"the number of deliveries is returned");
  vc_check(m->ref_count_ == 1+total,"all receivers share the message");
  vc_check(!total || d.repoll,"the dispatcher polls the receivers");
  vc_check(m->to() == to,"the message carries its destination");
  vc_cover("end");
}
// ---------------------------------------------------------------------- sending and publishing by a work process
static const MsgAddress *sent_to; static Message *sent; static int nsent;
extern "C" int stub_send (Dispatcher *,Message::Ref &ref,const MsgAddress &to)
{
  nsent++; sent = (new Message::Ref(ref))->target_ ? static_cast<Message*>(const_cast<DMI::CountedRefTarget*>(ref.target_)) : 0; sent_to = new MsgAddress(to);
  return 17;
}
#ifndef VC_NATIVE
static void checksent (TestWP &w,Message *m,int state,int res)
{
  vc_check(nsent == 1 && (!m || sent == m) && res == 17,"the message is given to the dispatcher, once");
  vc_check(sent->from() == w.address_ && sent->hops() == 0 && sent->state() == state,"the message carries its sender and the state of the sender; it has made no hops");
}
VC_PROOF(wp_send)
{
  nsent = 0;
  TestWP &w = addwp(mkdsp(),10,3);
  w.state_ = vc_i32("state");
  int a[4];
  static const char *nm[] = { "class","instance","process","host" };
  for( int k=0; k<4; k++ ) a[k] = vc_i32(nm[k]);
  MsgAddress to = MsgAddress(DMI::AtomicID(a[0]+0),DMI::AtomicID(a[1]+0),DMI::AtomicID(a[2]+0),DMI::AtomicID(a[3]+0));
  bool byid = vc_split("byid",0,1);
  Message *m = 0; int res;
  if( byid ) { int pri = vc_i32("priority"); res = w.send(HIID(AidHello),to,0,pri); vc_check(sent->id().size() == 1 && sent->id()[0] == AidHello && sent->priority() == pri,"a message with the id and the priority is sent"); }
  else
  {
    m = mkmessage(AidHello,5); m->hops_ = vc_i32("hops");
    Message::Ref &ref = *new Message::Ref(m,DMI::ANONWR);
    res = w.send(ref,to);
  }
  checksent(w,m,w.state_,res);
  vc_check((*sent_to)[0].id() == a[0] && (*sent_to)[1].id() == a[1],"the destination is the one given");
  vc_check((*sent_to)[2].id() == (a[2] == AidLocal.id() ? PROC : a[2]) && (*sent_to)[3].id() == (a[3] == AidLocal.id() ? HOST : a[3]),"'local' stands for the host and process of the sender");
  vc_cover("end");
}
VC_PROOF(wp_publish)
{
  nsent = 0;
  TestWP &w = addwp(mkdsp(),10,3);
  w.state_ = vc_i32("state");
  int scope = vc_i32("scope"), flags = vc_i32("flags");
  bool byid = vc_split("byid",0,1);
  Message *m = 0; int res;
  if( byid ) { int pri = vc_i32("priority"); res = w.publish(HIID(AidHello),flags,scope,pri); vc_check(sent->id().size() == 1 && sent->id()[0] == AidHello && sent->priority() == pri,"a message with the id and the priority is published"); }
  else
  {
    m = mkmessage(AidHello,5); m->hops_ = vc_i32("hops");
    Message::Ref &ref = *new Message::Ref(m,DMI::ANONWR);
    res = w.publish(ref,flags,scope);
  }
  checksent(w,m,w.state_,res);
  vc_check((*sent_to)[0] == AidPublish && (*sent_to)[1] == AidPublish,"the destination is all subscribers");
  vc_check((*sent_to)[2].id() == (scope < Message::HOST ? PROC : AidAny.id()) && (*sent_to)[3].id() == (scope < Message::GLOBAL ? HOST : AidAny.id()),
           "the message is published in the process, on the host, or everywhere, as asked for");
  vc_cover("end");
}
// ---------------------------------------------------------------------- attaching and detaching
static int ninit,nstart,nstop; static bool startres; static WPInterface *started,*stopped;
extern "C" void stub_init (WPInterface *) { ninit++; }
extern "C" bool stub_start (WPInterface *w) { vc_stub_requires(ninit > nstart,"a work process is initialized before it is started"); nstart++; started = w; return startres; }
extern "C" void stub_stop (WPInterface *w) { nstop++; stopped = w; }
VC_PROOF(attach)
{
  ninit = nstart = 0; startres = vc_bool("start");
  Dispatcher &d = mkdsp();
  d.running = vc_bool("running");
  int n0 = vc_split("earlier",0,2);      // work processes of the class attached before
  d.wp_instances[DMI::AtomicID(10)] = n0;
  for( int i=0; i<n0; i++ ) if( vc_split("present",0,1) ) addwp(d,10,i);
  int others = d.wps.size();
  addwp(d,11,1);
  TestWP &w = mkwp(DMI::AtomicID(10)); w.dsp_ = 0;
  w.address_ = MsgAddress(DMI::AtomicID(10));
  WPRef &ref = *new WPRef(w,DMI::ANONWR);
  bool before = d.repoll;
  const MsgAddress &a = d.attach(ref);
  vc_check(&a == &w.address_ && a[0].id() == 10 && (a[1].id() < 0 || a[1].id() >= n0) && a[2].id() == PROC && a[3].id() == HOST,"the work process gets an address that was not used before");
  vc_check(w.wpid_.size() == 2 && w.wpid_[0].id() == 10 && w.wpid_[1] == a[1] && w.dsp_ == &d,"and knows it");
  vc_check(int(d.wps.size()) == others+2 && d.wps.find(w.wpid_) != d.wps.end() && d.wps.find(w.wpid_)->second.target_ == &w,"messages to this address go to it");
  vc_check(ninit == (d.running ? 1 : 0) && nstart == ninit && (!nstart || started == &w),"it is started when the dispatcher is running");
  vc_check(d.repoll == (before || (d.running && startres)),"and polled if it asks for it");
  TestWP &w2 = mkwp(DMI::AtomicID(10)); w2.dsp_ = 0;
  w2.address_ = MsgAddress(DMI::AtomicID(10));
  const MsgAddress &a2 = d.attach(*new WPRef(w2,DMI::ANONWR));
  vc_check(a2[0].id() == 10 && (a2[1].id() < 0 || a2[1].id() > n0) && int(d.wps.size()) == others+3,"the next one gets another address");
  vc_cover("end");
}
VC_PROOF(poll)
{
  Dispatcher &d = mkdsp();
  int n = vc_split("n",0,3);
  TestWP *w[3]; int pri[3]; bool again[3];
  for( int i=0; i<n; i++ )
  {
    w[i] = &addwp(d,10,i);
    w[i]->fd = pri[i] = vc_i32("priority"); vc_assume(pri[i] >= -1);
    w[i]->result = again[i] = vc_bool("again");
    w[i]->flags = vc_split("throws",0,1);
  }
  d.running = true; d.repoll = true; d.poll_depth = -1; Dispatcher::stop_polling = false;
  ulong tick = d.tick;
  d.poll(0);
  int best = -1, cnt = 0;
  for( int i=0; i<n; i++ ) if( pri[i] >= 0 ) { cnt++; if( best < 0 || pri[i] > pri[best] ) best = i; }
  int np = 0; bool thrown = false, more = cnt > 1;
  for( int i=0; i<n; i++ )
  {
    vc_check(w[i]->nrecv <= 1 && (!w[i]->nrecv || pri[i] == pri[best]),"a work process with the highest priority is polled, once");
    if( w[i]->nrecv ) { np++; thrown = w[i]->flags; more |= !thrown && again[i]; vc_check(d.wps.find(w[i]->wpid_) == d.wps.end() ? thrown : !thrown,"a work process is detached exactly if it fails"); }
    else vc_check(d.wps.find(w[i]->wpid_) != d.wps.end(),"no other work process is detached");
  }
  vc_check(np == (best >= 0),"exactly one work process is polled, if any needs it");
  vc_check(d.repoll == more,"polling goes on exactly if others need it or the one polled asks for it");
  vc_check(d.poll_depth == -1 && d.tick == tick+1,"a poll is counted");
  vc_cover("end");
}
static WPInterface *rebuilt;
extern "C" void stub_rebuild (Dispatcher *,WPInterface *w) { rebuilt = w; }
extern "C" int stub_priority (WPInterface *w,ulong) { return static_cast<TestWP*>(w)->fd; }
extern "C" bool stub_poll (WPInterface *w,ulong)
{
  TestWP *t = static_cast<TestWP*>(w);
  t->nrecv++;
  if( t->flags ) throw 1;
  return t->result;
}
VC_PROOF(detach)
{
  nstop = 0; rebuilt = 0;
  Dispatcher &d = mkdsp();
  TestWP &w = addwp(d,10,0), &o = addwp(d,10,1);
  bool gw = vc_split("gateway",0,1);
  if( gw ) { d.gateways[w.wpid_] = &w; d.gateways[o.wpid_] = &o; }
  int nt = vc_split("timeouts",0,2), ni = vc_split("inputs",0,2), mt = 0, mi = 0;
  int fds[2]; bool mine[2];
  for( int i=0; i<nt; i++ ) { bool m = vc_split("mine",0,1); mt += m; d.timeouts.push_back(mktimeout(m ? w : o)); }
  for( int i=0; i<ni; i++ ) { mine[i] = vc_split("mine",0,1); mi += mine[i]; fds[i] = 3+2*i; d.inputs.push_back(mkinput(mine[i] ? w : o,fds[i],EV_FDREAD)); }
  bool delay = vc_split("delay",0,1);
  new Octopussy::WPRef(w,DMI::SHARED);           // (somebody keeps it)
  d.detach(&w,delay);
  vc_check(d.wps.size() == 1 && d.wps.find(o.wpid_) != d.wps.end(),"exactly the work process is detached");
  vc_check(d.gateways.size() == (gw ? 1 : 0) && (!gw || d.gateways.find(o.wpid_) != d.gateways.end()),"and is no forwarder any more");
  vc_check(rebuilt == &w,"its signals are removed");
  vc_check(int(d.timeouts.size()) == nt-mt && int(d.inputs.size()) == ni-mi,"none of its timeouts and inputs are left");
  for( Dispatcher::TOILI i = d.timeouts.begin(); i != d.timeouts.end(); i++ ) vc_check(i->pwp == &o,"those of others are kept");
  for( Dispatcher::IILI i = d.inputs.begin(); i != d.inputs.end(); i++ ) vc_check(i->pwp == &o,"those of others are kept");
  for( int i=0; i<ni; i++ ) vc_check(bool(FD_ISSET(fds[i],&d.fds_watched.r)) == !mine[i],"exactly the descriptors left are watched");
  if( delay ) vc_check(!nstop && d.detached_wps.size() == 1 && d.detached_wps.top().target_ == &w && w.dsp_ == &d,"with a delay the work process is kept until the next poll");
  else vc_check(nstop == 1 && stopped == &w && !w.dsp_ && d.detached_wps.empty(),"the work process is stopped, once");
  vc_cover("end");
}
#endif
