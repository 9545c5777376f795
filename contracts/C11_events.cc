// @property C11
// @sources OCTOPUSSY/src/Dispatcher.cc OCTOPUSSY/src/WPInterface.cc OCTOPUSSY/src/Message.cc OCTOPUSSY/src/Subscriptions.cc DMI/src/HIID.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc DMI/src/BlockSet.cc DMI/src/Timestamp.cc TimBase/src/Exception.cc
// @libs octopussy
// @option * nosummary=1 timeout=20000 unroll=80
// @stub (remove|add)_signal _ZN9Octopussy10Dispatcher14rebuildSignalsEPNS_11WPInterfaceE stub_rebuild
// @verifies timeouts Dispatcher::checkEvents; Dispatcher::enqueue
// @verifies add_timeout Dispatcher::addTimeout
// @verifies remove_timeout Dispatcher::removeTimeout; WPInterface::dequeue
// @verifies one_input Dispatcher::checkEvents
// @verifies two_inputs Dispatcher::checkEvents
// @verifies add_input Dispatcher::addInput; Dispatcher::rebuildInputs
// @verifies remove_input Dispatcher::removeInput; Dispatcher::rebuildInputs
// @verifies one_signal Dispatcher::checkEvents
// @verifies two_signals Dispatcher::checkEvents
// @verifies remove_signal Dispatcher::removeSignal
// @verifies rebuild_signals Dispatcher::rebuildSignals
// @assume the clock, select(2), sigaction(2) and the sets of signals by reference implementations (contracts/dsp.h); one thread
#include <vc.h>
#include <new>
#include <cstring>
#include "../contracts/stl.h"
#include "../contracts/octo.h"
#include "../contracts/dsp.h"
typedef DMI::Timestamp Timestamp;
static const int M = 2;
static Timestamp anytime (const char *s,const char *u)
{
  long a = vc_i64(s), b = vc_i64(u);
  vc_assume(a >= 0 && a < 1L<<40 && b >= 0 && b < 1000000);
  return Timestamp(a,b);
}
static bool le (const Timestamp &a,const Timestamp &b) { return a.sec() < b.sec() || (a.sec() == b.sec() && a.usec() <= b.usec()); }
static bool null (const Timestamp &t) { return !t.sec() && !t.usec(); }
// is c = a+b?
static bool sum (const Timestamp &c,const Timestamp &a,const Timestamp &b)
{
  bool carry = a.usec()+b.usec() >= 1000000;
  return c.sec() == a.sec()+b.sec()+carry && c.usec() == a.usec()+b.usec()-(carry ? 1000000 : 0);
}
// messages in the queue with the id of the event
static int queued (TestWP &w,const HIID &id)
{
  int n = 0;
  for( WPInterface::CMQI i = w.queue_.begin(); i != w.queue_.end(); i++ ) if( i->mref->id() == id ) n++;
  return n;
}
// ---------------------------------------------------------------------- timeouts
VC_PROOF(timeouts)
{
  Dispatcher &d = mkdsp();
  TestWP *w[M] = { &addwp(d,10,0),&addwp(d,10,1) };
  Timestamp now = anytime("now","nowus");
  clock_sec = now.sec(); clock_usec = now.usec();
  d.next_select = Timestamp(0L,0L);
  int n = vc_split("n",0,M);
  Timestamp next[M],period[M]; bool once[M];
  for( int i=0; i<n; i++ )
  {
    Dispatcher::TimeoutInfo &t = mktimeout(*w[i]);
    t.next = next[i] = anytime("next","nextus"); t.period = period[i] = anytime("period","periodus");
    vc_assume(!null(period[i]));
    once[i] = vc_split("once",0,1); t.flags = once[i] ? EV_ONESHOT : 0;
    d.timeouts.push_back(t);
  }
  d.next_to = anytime("wakeup","wakeupus");
  for( int i=0; i<n; i++ ) vc_assume(!null(d.next_to) && le(d.next_to,next[i]));
  d.checkEvents();
  Dispatcher::TOILI it = d.timeouts.begin();
  for( int i=0; i<n; i++ )
  {
    bool due = le(next[i],now);
    vc_check(int(w[i]->queue_.size()) == due,"a timeout fires, once, exactly when it is due");
    if( due && once[i] ) continue;
    vc_check(it != d.timeouts.end() && it->pwp == w[i],"a timeout is removed exactly if it has fired and is a one-shot one");
    vc_check(due ? sum(it->next,now,period[i]) : it->next == next[i],"it fires again after its period");
    vc_check(!null(d.next_to) && le(d.next_to,it->next),"the next check is not later than any timeout");
    ++it;
  }
  vc_check(it == d.timeouts.end(),"a one-shot timeout is removed after it has fired");
  vc_cover("end");
}
VC_PROOF(add_timeout)
{
  Dispatcher &d = mkdsp();
  TestWP &w = addwp(d,10,0);
  Timestamp now = anytime("now","nowus"), period = anytime("period","periodus");
  clock_sec = now.sec(); clock_usec = now.usec();
  d.next_to = anytime("wakeup","wakeupus");
  Timestamp before = d.next_to;
  int flags = vc_i32("flags"), pri = vc_i32("priority");
  bool failed = false;
  try { d.addTimeout(&w,period,HIID(AidHello),flags,pri); } catch( std::exception & ) { failed = true; }
  vc_check(failed == (null(period)),"a timeout needs a period");
  if( failed ) { vc_check(d.timeouts.empty(),"a failed operation changes nothing"); return; }
  vc_check(d.timeouts.size() == 1,"the timeout is added");
  Dispatcher::TimeoutInfo &t = d.timeouts.front();
  vc_check(t.pwp == &w && sum(t.next,now,period) && t.period == period && t.flags == flags,"it fires after its period");
  const HIID &id = t.msg->id();
  vc_check(id.size() == 3 && id[0] == AidEvent && id[1] == AidTimeout && id[2] == AidHello && t.msg->priority() == pri,"with a message for the timeout of the given priority");
  vc_check(!null(d.next_to) && le(d.next_to,t.next) && (null(before) || le(d.next_to,before)),"the next check is not later than any timeout");
  vc_cover("end");
}
VC_PROOF(remove_timeout)
{
  Dispatcher &d = mkdsp();
  TestWP *w[M] = { &addwp(d,10,0),&addwp(d,10,1) };
  // two timeouts with the same id of different work processes, or two of one
  int who[M],id[M];
  for( int i=0; i<M; i++ )
  {
    who[i] = vc_split("who",0,1); id[i] = vc_i32("id"); vc_assume(id[i] != AidAny.id() && id[i] != AidWildcard.id());
    Dispatcher::TimeoutInfo &t = mktimeout(*w[who[i]],HIID(DMI::AtomicID(id[i])));
    t.id = DMI::AtomicID(id[i]);
    d.timeouts.push_back(t);
    if( vc_split("pending",0,1) ) { w[who[i]]->queue_.push_back(WPInterface::QueueEntry()); WPInterface::QueueEntry &q = w[who[i]]->queue_.back(); q.mref = t.msg; }
  }
  vc_assume(!(who[0] == who[1] && id[0] == id[1]));
  int rid = vc_i32("removed"); vc_assume(rid != AidAny.id() && rid != AidWildcard.id());
  bool res = d.removeTimeout(w[0],HIID(DMI::AtomicID(rid)));
  int left = 0; bool any = false;
  Dispatcher::TOILI it = d.timeouts.begin();
  for( int i=0; i<M; i++ )
  {
    HIID eid = AidEvent|AidTimeout|DMI::AtomicID(id[i]);
    if( who[i] == 0 && id[i] == rid ) { any = true; vc_check(!queued(*w[0],eid),"a removed timeout is not delivered any more"); continue; }
    vc_check(it != d.timeouts.end() && it->pwp == w[who[i]] && it->id[0].id() == id[i],"all other timeouts are kept");
    ++it;
  }
  vc_check(it == d.timeouts.end() && res == any,"exactly the timeout of the work process is removed");
  vc_cover("end");
}
// ---------------------------------------------------------------------- inputs
static const int FD[M] = { 3,5 };
static const int FL[4] = { EV_FDREAD,EV_FDWRITE,EV_FDREAD|EV_FDWRITE,EV_FDALL };
static int ready[M];       // events on the descriptors
static int nselect;
extern "C" int select (int,fd_set *r,fd_set *w,fd_set *x,struct timeval *)
{
  int n = 0; nselect++;
  for( int i=0; i<M; i++ )
  {
    if( FD_ISSET(FD[i],r) ) { if( ready[i]&EV_FDREAD ) n++; else FD_CLR(FD[i],r); }
    if( FD_ISSET(FD[i],w) ) { if( ready[i]&EV_FDWRITE ) n++; else FD_CLR(FD[i],w); }
    if( FD_ISSET(FD[i],x) ) { if( ready[i]&EV_FDEXCEPTION ) n++; else FD_CLR(FD[i],x); }
  }
  return n;
}
static void watched (Dispatcher &d)
{
  int want[M] = {}, mx = -1;
  for( Dispatcher::IILI i = d.inputs.begin(); i != d.inputs.end(); i++ )
    for( int k=0; k<M; k++ ) if( i->fd == FD[k] ) { want[k] |= i->flags; if( FD[k] > mx ) mx = FD[k]; }
  for( int k=0; k<M; k++ )
    vc_check(bool(FD_ISSET(FD[k],&d.fds_watched.r)) == bool(want[k]&EV_FDREAD) && bool(FD_ISSET(FD[k],&d.fds_watched.w)) == bool(want[k]&EV_FDWRITE)
             && bool(FD_ISSET(FD[k],&d.fds_watched.x)) == bool(want[k]&EV_FDEXCEPTION),"exactly the events asked for are watched");
  vc_check(mx < 0 || d.max_fd > mx,"all descriptors are watched");
}
static int stateof (TestWP &w,int fd)
{
  int s = -1;
  HIID id = AidEvent|AidInput|DMI::AtomicID(fd);
  for( WPInterface::CMQI i = w.queue_.begin(); i != w.queue_.end(); i++ ) if( i->mref->id() == id ) { vc_check(s < 0,"an undelivered input event is not repeated"); s = i->mref->state(); }
  return s;
}
static void inputs (int n)
{
  Dispatcher &d = mkdsp();
  TestWP &w = addwp(d,10,0);
  d.next_to = Timestamp(0L,0L); d.next_select = Timestamp(0L,0L);
  int fl[M],pend[M]; bool once[M];
  for( int i=0; i<n; i++ )
  {
    fl[i] = n == 1 ? FL[vc_split("flags",0,3)] : FL[2*i]; once[i] = vc_split("once",0,1);
    Dispatcher::InputInfo &in = mkinput(w,FD[i],fl[i]|(once[i] ? EV_ONESHOT : 0));
    pend[i] = 0;
    if( n == 1 && vc_split("pending",0,1) )    // an event has not been delivered yet
    {
      pend[i] = EV_FDWRITE;
      Message *m = mkmessage(in.msg->id(),1); m->state_ = pend[i];
      in.last_mref.attach(m,DMI::ANONWR); in.last_msg = m;
      w.queue_.push_back(WPInterface::QueueEntry()); w.queue_.back().mref = in.last_mref;
    }
    d.inputs.push_back(in);
    ready[i] = n > 1 ? EV_FDREAD*vc_split("ready",0,1) : FL[vc_split("ready",0,3)]*vc_split("any",0,1);
  }
  d.rebuildInputs();
  watched(d);
  d.checkEvents();
  Dispatcher::IILI it = d.inputs.begin();
  for( int i=0; i<n; i++ )
  {
    int ev = fl[i]&ready[i], s = stateof(w,FD[i]);
    vc_check(s == (ev|pend[i] ? ev|pend[i] : -1),"the work process gets the events it has asked for, and no others, in one message until it is delivered");
    if( ev && once[i] ) continue;
    vc_check(it != d.inputs.end() && it->fd == FD[i] && (it->flags&EV_FDALL) == fl[i],"an input is kept until it has fired once if it is a one-shot one");
    ++it;
  }
  vc_check(it == d.inputs.end(),"a one-shot input is removed after it has fired");
  watched(d);
  vc_cover("end");
}
VC_PROOF(one_input) { inputs(1); }
VC_PROOF(two_inputs) { inputs(2); }
VC_PROOF(add_input)
{
  Dispatcher &d = mkdsp();
  TestWP &w = addwp(d,10,0), &o = addwp(d,10,1);
  int have = vc_split("have",0,2);     // none; of this work process; of another one
  int old = FL[vc_split("old",0,3)]|EV_ONESHOT*vc_split("oldonce",0,1);
  if( have ) { d.inputs.push_back(mkinput(have == 1 ? w : o,FD[0],old)); d.rebuildInputs(); }
  int fl = FL[vc_split("flags",0,3)]*vc_split("any",0,1)|vc_split("once",0,1), pri = vc_i32("priority");
  int fd = vc_split("fd",0,1) ? FD[0] : -1;
  bool failed = false;
  try { d.addInput(&w,fd,fl,pri); } catch( std::exception & ) { failed = true; }
  vc_check(failed == (fd < 0 || !(fl&EV_FDALL)),"an input needs a descriptor and events");
  if( failed ) { vc_check(d.inputs.size() == (have ? 1 : 0),"a failed operation changes nothing"); return; }
  vc_check(d.inputs.size() == (have == 2 ? 2 : 1),"a work process has one input for a descriptor");
  Dispatcher::InputInfo &in = d.inputs.front();
  vc_check(in.pwp == &w && in.fd == fd && (in.flags&EV_FDALL) == ((fl|(have == 1 ? old : 0))&EV_FDALL) && (in.flags&EV_ONESHOT) == (fl&EV_ONESHOT),"events are added to those asked for before");
  const HIID &id = in.msg->id();
  vc_check(id.size() == 3 && id[0] == AidEvent && id[1] == AidInput && id[2].id() == fd && in.msg->priority() == pri,"a message for the input of the given priority is sent");
  if( have == 2 ) vc_check(d.inputs.back().pwp == &o && d.inputs.back().flags == old,"the inputs of others are not changed");
  watched(d);
  vc_cover("end");
}
VC_PROOF(remove_input)
{
  Dispatcher &d = mkdsp();
  TestWP &w = addwp(d,10,0), &o = addwp(d,10,1);
  int n = vc_split("n",0,M), fl[M]; bool mine[M],pend[M];
  for( int i=0; i<n; i++ )
  {
    fl[i] = FL[i ? 0 : vc_split("flags",0,3)]; mine[i] = vc_split("mine",0,1);
    TestWP &x = mine[i] ? w : o;
    Dispatcher::InputInfo &in = mkinput(x,FD[i],fl[i]|(i ? EV_ONESHOT : 0));
    pend[i] = i == 0 && vc_split("pending",0,1);
    if( pend[i] )
    {
      Message *m = mkmessage(in.msg->id(),1); m->state_ = fl[i];
      in.last_mref.attach(m,DMI::ANONWR); in.last_msg = m;
      x.queue_.push_back(WPInterface::QueueEntry()); x.queue_.back().mref = in.last_mref;
    }
    d.inputs.push_back(in);
  }
  d.rebuildInputs();
  int which = vc_split("which",0,2);           // one of the descriptors, or all
  int fd = which < 2 ? FD[which] : -1;
  int rem = FL[vc_split("removed",0,2)];
  bool res = d.removeInput(&w,fd,rem);
  bool any = false;
  Dispatcher::IILI it = d.inputs.begin();
  for( int i=0; i<n; i++ )
  {
    int left = fl[i];
    if( mine[i] && (fd < 0 || fd == FD[i]) ) { any = true; left &= fd < 0 ? 0 : ~rem; }
    if( pend[i] ) vc_check(stateof(mine[i] ? w : o,FD[i]) == left,"removed events are not delivered any more, others are");
    if( !left ) continue;
    vc_check(it != d.inputs.end() && it->fd == FD[i] && it->pwp == (mine[i] ? &w : &o) && (it->flags&EV_FDALL) == left,"exactly the events given are removed from the input of the work process");
    ++it;
  }
  vc_check(it == d.inputs.end(),"an input without events is removed");
  vc_check(res == any,"reports whether there was such an input");
  watched(d);
  vc_cover("end");
}
// ---------------------------------------------------------------------- signals
static Dispatcher::SignalInfo & mksignal (TestWP &w,int sig,int flags)
{
  Dispatcher::SignalInfo &s = *new Dispatcher::SignalInfo(&w,DMI::AtomicID(sig),1);
  s.signum = sig; s.flags = flags; s.msg().setState(0);
  return s;
}
static int addsig (Dispatcher &d,int sig,Dispatcher::SignalInfo &s) { d.signal_map.insert(Dispatcher::SMPair(sig,s)); return 0; }
static void signals (int n)
{
  Dispatcher &d = mkdsp();
  static const int SIG[2] = { 10,12 };
  TestWP *w[M] = { &addwp(d,10,0),&addwp(d,10,1) };
  d.next_to = Timestamp(0L,0L); d.next_select = Timestamp(0L,0L);
  int sg[M],fl[M]; bool pend[M];
  for( int i=0; i<n; i++ )
  {
    sg[i] = SIG[n > 1 && vc_split("signal",0,1)]; fl[i] = n > 1 ? EV_ONESHOT*vc_split("once",0,1) : vc_split("flags",0,7);
    pend[i] = n == 1 && !(fl[i]&(EV_DISCRETE|EV_IGNORE)) && vc_split("pending",0,1);
    Dispatcher::SignalInfo &s = mksignal(*w[i],sg[i],fl[i]);
    if( pend[i] )
    {
      Message *m = mkmessage(s.msg->id(),1); m->state_ = 1;
      s.last_mref.attach(m,DMI::ANONWR); s.last_msg = m;
      w[i]->queue_.push_back(WPInterface::QueueEntry()); w[i]->queue_.back().mref = s.last_mref;
    }
    addsig(d,sg[i],s);
  }
  bool raised[2] = { bool(vc_split("raised",0,1)),bool(vc_split("raised2",0,1)) };
  sigemptyset(&Dispatcher::raisedSignals);
  for( int k=0; k<2; k++ ) if( raised[k] ) sigaddset(&Dispatcher::raisedSignals,SIG[k]);
  d.checkEvents();
  int left = 0;
  for( int i=0; i<n; i++ )
  {
    bool hit = raised[sg[i] == 12];
    HIID id = AidEvent|AidSignal|DMI::AtomicID(sg[i]);
    vc_check(queued(*w[i],id) == (pend[i] || (hit && !(fl[i]&EV_IGNORE))),"a signal that was raised is delivered, once, to the work processes that have asked for it and do not ignore it");
    int cnt = 0;
    for( Dispatcher::SMI s = d.signal_map.begin(); s != d.signal_map.end(); s++ ) if( s->second.pwp == w[i] ) cnt++;
    vc_check(cnt == !(hit && (fl[i]&EV_ONESHOT)),"a registration is removed exactly if the signal was raised and it is a one-shot one");
    left += cnt;
  }
  vc_check(int(d.signal_map.size()) == left,"no other registration appears");
  vc_check(!sigismember(&Dispatcher::raisedSignals,10) && !sigismember(&Dispatcher::raisedSignals,12),"a signal is processed once");
  vc_cover("end");
}
VC_PROOF(one_signal) { signals(1); }
VC_PROOF(two_signals) { signals(2); }
static int nrebuilt;
extern "C" void stub_rebuild (Dispatcher *,WPInterface *w) { vc_stub_requires(!w,"no work process is removed"); nrebuilt++; }
VC_PROOF(remove_signal)
{
  nrebuilt = 0;
  Dispatcher &d = mkdsp();
  TestWP *w[M] = { &addwp(d,10,0),&addwp(d,10,1) };
  int n = vc_split("n",0,M), sg[M],who[M],q[M] = {};
  for( int i=0; i<n; i++ )
  {
    sg[i] = 10+vc_split("signal",0,1); who[i] = vc_split("who",0,1);
    vc_assume(!i || sg[0] != sg[1] || who[0] != who[1]);
    Dispatcher::SignalInfo &s = mksignal(*w[who[i]],sg[i],0);
    if( vc_split("pending",0,1) ) { q[i] = 1; w[who[i]]->queue_.push_back(WPInterface::QueueEntry()); w[who[i]]->queue_.back().mref = s.msg; }
    addsig(d,sg[i],s);
  }
  int rem = vc_split("all",0,1) ? -1 : 10;
  bool res = d.removeSignal(w[0],rem);
  int gone = 0;
  for( int i=0; i<n; i++ )
  {
    bool r = !who[i] && (rem < 0 || sg[i] == rem);
    gone += r;
    int cnt = 0;
    for( Dispatcher::SMI s = d.signal_map.begin(); s != d.signal_map.end(); s++ ) if( s->second.pwp == w[who[i]] && s->first == sg[i] ) cnt++;
    vc_check(cnt == !r,"exactly the registrations of the work process for the signal (or all signals) are removed");
    HIID id = AidEvent|AidSignal|DMI::AtomicID(sg[i]);
    vc_check(queued(*w[who[i]],id) == (r ? 0 : q[i]),"removed signals are not delivered any more, others are");
  }
  vc_check(int(d.signal_map.size()) == n-gone && res == (gone > 0) && (!gone || nrebuilt || !vc_symbolic_mode()),"reports whether anything was removed");
  vc_cover("end");
}
static const int SG[2] = { 14,12 };
static void OTHER (int,siginfo_t*,void*) {}
VC_PROOF(rebuild_signals)
{
  Dispatcher &d = mkdsp();
  TestWP *w[M] = { &addwp(d,10,0),&addwp(d,10,1) };
  int n = vc_split("n",0,M), sg[M];
  for( int i=0; i<n; i++ ) { sg[i] = SG[vc_split("signal",0,1)]; addsig(d,sg[i],mksignal(*w[i],sg[i],0)); }
  sigemptyset(&Dispatcher::allSignals);
  // other handlers are installed, or that of the dispatcher
  for( int k=0; k<2; k++ ) { handler[SG[k]] = OTHER; Dispatcher::orig_sigaction[SG[k]] = 0; }
  if( vc_split("handled",0,1) )
  {
    sigaddset(&Dispatcher::allSignals,SG[0]); handler[SG[0]] = Dispatcher::signalHandler;
    Dispatcher::orig_sigaction[SG[0]] = new struct sigaction; Dispatcher::orig_sigaction[SG[0]]->sa_sigaction = OTHER;
  }
  bool rem = vc_split("remove",0,1);
  d.rebuildSignals(rem ? w[0] : 0);
  bool want[2] = {};
  int left = 0;
  for( int i=0; i<n; i++ ) if( !rem || i ) { want[sg[i] == 12] = true; left++; }
  vc_check(int(d.signal_map.size()) == left,"exactly the registrations of the work process are removed");
  vc_check(handler[SG[0]] == (want[0] ? Dispatcher::signalHandler : OTHER) && handler[SG[1]] == (want[1] ? Dispatcher::signalHandler : OTHER),"exactly the signals that work processes have asked for are handled; the former handlers are restored");
  vc_cover("end");
}
