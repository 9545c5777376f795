// @property C10
// @sources OCTOPUSSY/src/WPInterface.cc OCTOPUSSY/src/Message.cc OCTOPUSSY/src/Subscriptions.cc DMI/src/HIID.cc DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc DMI/src/BObj.cc DMI/src/BlockSet.cc TimBase/src/Exception.cc
// @libs octopussy
// @option * nosummary=1 timeout=20000
// @verifies enqueue WPInterface::enqueue; WPInterface::notifyOfRepoll
// @verifies enqueue_front WPInterface::enqueueFront
// @verifies dequeue_id WPInterface::dequeue(id)
// @verifies dequeue_pos WPInterface::dequeue(pos)
// @verifies search WPInterface::searchQueue; WPInterface::compareHeadOfQueue
// @verifies poll_priority WPInterface::getPollPriority; WPInterface::queueLocked
// @verifies poll_message WPInterface::do_poll
// @verifies poll_event WPInterface::do_poll
// @verifies deliver_message WPInterface::deliver
// @verifies deliver_event WPInterface::deliver
// @assume deliveries: one thread; the handlers of a work process (receive, timeout, input, signal) may put a further message into the queue
#include <vc.h>
#include <new>
#include <cstring>
#include "../contracts/stl.h"
#include "../contracts/octo.h"
static const int N = 3;
static int np;              // messages in the queue
static int pri[N+1];        // and their priorities
static Message *msg[N+1];
// (of a message that may be gone)
static int prio (const Message *m) { for( int i=0; i<=np; i++ ) if( msg[i] == m ) return pri[i]; return -1; }
// any queue of up to n messages, in the order of their priorities
static TestWP & anyqueue (int n)
{
  TestWP &w = mkwp(AidWP);
  np = vc_split("n",0,n);
  for( int i=0; i<np; i++ )
  {
    pri[i] = vc_i32("priority"); vc_assume(!i || pri[i] <= pri[i-1]);
    msg[i] = mkmessage(DMI::AtomicID(i+1),pri[i]);
    push(w,msg[i],pri[i],i);
  }
  w.needRepoll_ = vc_bool("repoll");
  return w;
}
static Message::Ref & newmessage (const HIID &id)
{
  pri[np] = vc_i32("newpriority");
  msg[np] = mkmessage(id,pri[np]);
  return *new Message::Ref(msg[np],DMI::ANONWR);
}
// the queue consists of exactly the messages m[0..n-1], in this order
static bool consists (TestWP &w,Message **m,int n)
{
  if( int(w.queue().size()) != n ) return false;
  int k = 0;
  for( WPInterface::CMQI i = w.queue_.begin(); i != w.queue_.end(); i++,k++ )
    if( i->mref.target_ != m[k] || i->priority != prio(m[k]) ) return false;
  return true;
}
static bool inserted (TestWP &w,int at)
{
  Message *exp[N+1]; int k = 0;
  for( int i=0; i<=np; i++ ) { if( i == at ) exp[k++] = msg[np]; if( i < np ) exp[k++] = msg[i]; }
  return consists(w,exp,np+1);
}
static bool removed (TestWP &w,int at)
{
  Message *exp[N+1]; int k = 0;
  for( int i=0; i<np; i++ ) if( i != at ) exp[k++] = msg[i];
  return consists(w,exp,k);
}
// the place of a new message: after all messages of its or a higher priority
static int place (int p) { int at = 0; while( at < np && pri[at] >= p ) at++; return at; }
VC_PROOF(enqueue)
{
  TestWP &w = anyqueue(N);
  Message::Ref &r = newmessage(AidEvent);
  int flags = vc_split("flags",0,3); bool rep = w.needRepoll_;
  int res = w.enqueue(r,77,flags);
  int at = place(pri[np]);
  vc_check(inserted(w,at),"a message is put after all messages of its or a higher priority and before all others, which keep their order");
  vc_check(res == (at ? -1 : pri[np]),"returns the priority when the message is the new head of the queue");
  vc_check(w.needRepoll_ == (rep || (!at && !(flags&WPInterface::ENQ_NOREPOLL))),"a poll is asked for when the head of the queue has changed, unless told not to");
  vc_check(msg[np]->ref_count_ == 2,"the message is held by its sender and the queue");
  vc_cover("end");
}
VC_PROOF(enqueue_front)
{
  TestWP &w = anyqueue(N);
  Message::Ref &r = newmessage(AidEvent);
  bool set = vc_split("set",0,1); bool rep = w.needRepoll_;
  w.enqueueFront(r,77,set);
  int at = 0; while( at < np && pri[at] > pri[np] ) at++;
  vc_check(inserted(w,at),"a message is put back before all messages of its or a lower priority, which keep their order");
  vc_check(w.needRepoll_ == (rep || (!at && set)),"a poll is asked for when the head of the queue has changed, unless told not to");
  vc_cover("end");
}
VC_PROOF(dequeue_id)
{
  TestWP &w = anyqueue(N);
  // each message has the id or not
  bool hit[N]; int first = -1, nhit = 0;
  for( int i=0; i<np; i++ )
  {
    hit[i] = vc_split("hit",0,1);
    msg[i]->id_ = hit[i] ? AidEvent : AidWP;
    if( hit[i] ) { nhit++; if( first < 0 ) first = i; }
  }
  Message::Ref *out = vc_split("out",0,1) ? new Message::Ref : 0;
  Message *exp[N]; int k = 0;
  for( int i=0; i<np; i++ ) if( out ? i != first : !hit[i] ) exp[k++] = msg[i];
  bool rep = w.needRepoll_;
  bool res = w.dequeue(HIID(AidEvent),out);
  vc_check(consists(w,exp,k),out ? "exactly the first message with the id is removed" : "exactly the messages with the id are removed");
  if( out ) vc_check(first < 0 ? !out->valid() : out->valid() && out->deref_p() == msg[first],"the message is given to the caller");
  vc_check(res == w.needRepoll_ && (!rep || res),"returns whether a poll is needed");
  vc_check(!(np && hit[0] && k) || res,"a poll is asked for when the head of the queue has changed");
  for( int i=0; i<np; i++ ) if( !hit[i] ) vc_check(msg[i]->ref_count_ == 1,"the messages left are held once");
  vc_cover("end");
}
VC_PROOF(dequeue_pos)
{
  TestWP &w = anyqueue(N);
  int pos = vc_split("pos",0,N);
  Message::Ref *out = vc_split("out",0,1) ? new Message::Ref : 0;
  bool failed = false, res = false, rep = w.needRepoll_;
  try { res = w.dequeue(pos,out); } catch( std::exception & ) { failed = true; }
  vc_check(failed == (pos >= np),"fails exactly beyond the end of the queue");
  if( failed ) { vc_check(removed(w,-1),"a failed operation removes nothing"); return; }
  vc_check(removed(w,pos),"exactly the message at the position is removed");
  if( out ) vc_check(out->valid() && out->deref_p() == msg[pos] && msg[pos]->ref_count_ == 1,"the message is given to the caller");
  vc_check(res == (rep || (!pos && np > 1)) && w.needRepoll_ == res,"a poll is asked for when the head of the queue has changed");
  vc_cover("end");
}
VC_PROOF(search)
{
  TestWP &w = anyqueue(N);
  bool hit[N];
  for( int i=0; i<np; i++ ) { hit[i] = vc_split("hit",0,1); msg[i]->id_ = hit[i] ? AidEvent : AidWP; }
  vc_assume(np > 0);
  int pos = vc_split("pos",0,N-1); vc_assume(pos < np);
  int exp = -1;
  for( int i=np-1; i>=pos; i-- ) if( hit[i] ) exp = i;
  Message::Ref *out = vc_split("out",0,1) ? new Message::Ref : 0;
  vc_check(w.searchQueue(HIID(AidEvent),pos,out) == exp,"finds the first message with the id from the position on");
  if( out ) vc_check(exp < 0 ? !out->valid() : out->valid() && out->deref_p() == msg[exp],"refers to the message found");
  vc_check(removed(w,-1),"the queue is not changed");
  vc_cover("end");
}
VC_PROOF(poll_priority)
{
  TestWP &w = anyqueue(2);
  for( int i=0; i<np; i++ ) vc_assume(pri[i] > -1000 && pri[i] < 1<<28);
  w.full_lock = vc_bool("full"); w.receive_lock = vc_bool("receiving"); w.polling_enabled = vc_bool("enabled");
  bool event = vc_split("event",0,1);
  if( np ) msg[0]->id_ = event ? AidEvent : AidWP;
  ulong t0 = vc_u32("tick0"), dt = vc_u32("age"); vc_assume(dt < 1u<<28);
  if( np ) w.queue_.front().tick = t0;
  int p = w.getPollPriority(t0+dt);
  bool can = np && w.polling_enabled && w.needRepoll_ && !w.full_lock && (!w.receive_lock || event);
  vc_check(p == (can ? (pri[0] > 0 ? pri[0] : 0)+int(dt) : -1),"the priority for polling is that of the head of the queue and its age; none if there is nothing to deliver now");
  vc_cover("end");
}
// ---------------------------------------------------------------------- delivery of the head of the queue
static void handler_may_enqueue (TestWP &w)
{
  w.extra = vc_split("handler_enqueues",0,1) ? &newmessage(AidWP) : 0;
}
// the queue after the delivery: 'gone' messages (0 or 1: the head) were removed, and the handler has possibly enqueued another one
static void check_queue (TestWP &w,bool keep,bool requeue)
{
  // simulate by the contracts of enqueue and enqueueFront on arrays
  Message *q[N+2]; int n = 0;
  for( int i=1; i<np; i++ ) q[n++] = msg[i];
  Message *head = msg[0];
  struct Ins { static void put (Message **q,int &n,Message *m,bool front)
  {
    int at = 0; while( at < n && (front ? prio(q[at]) > prio(m) : prio(q[at]) >= prio(m)) ) at++;
    for( int i=n; i>at; i-- ) q[i] = q[i-1];
    q[at] = m; n++;
  } };
  if( w.head_stays )         // (the head stayed in the queue while it was delivered)
  {
    if( w.extra )
    {
      for( int i=n; i>0; i-- ) q[i] = q[i-1];
      q[0] = head; n++;
      Ins::put(q,n,msg[np],false);
      if( !keep || requeue )
      {
        int at = 0; while( q[at] != head ) at++;
        for( int i=at; i+1<n; i++ ) q[i] = q[i+1];
        n--;
        if( requeue ) Ins::put(q,n,head,false);
      }
    }
    else if( requeue ) Ins::put(q,n,head,false);
    else if( keep ) { for( int i=n; i>0; i-- ) q[i] = q[i-1]; q[0] = head; n++; }
  }
  else
  {
    if( w.extra ) Ins::put(q,n,msg[np],false);
    if( keep ) Ins::put(q,n,head,!requeue);
  }
  vc_check(consists(w,q,n),"an accepted message is gone, one on hold stays where it is, one requeued follows all of its priority; no other message is lost, repeated or overtaken");
}
static void message (bool mt)
{
  TestWP &w = anyqueue(2);
  vc_assume(np > 0);
  w.head_stays = !mt;
  w.needRepoll_ = true;
  w.autoCatch_ = vc_split("catch",0,1);
  w.running = true;
  handler_may_enqueue(w);
  for( int i=0; i<=np; i++ ) if( i < np || w.extra ) msg[i]->id_ = HIID(AidWP)|AidHello;   // (all alike)
  static const int results[] = { Message::ACCEPT,Message::HOLD,Message::REQUEUE };
  w.result = results[vc_split("result",0,2)];
  if( mt )
  {
    Thread::Mutex::Lock lock(w.queue_cond);
    w.deliver(lock);
  }
  else
    w.do_poll(99);
  vc_check(w.nrecv == 1 && w.received == msg[0] && !w.ntimeout && !w.ninput && !w.nsignal,"the head of the queue is received, once");
  check_queue(w,w.result != Message::ACCEPT,w.result == Message::REQUEUE);
  vc_check(!w.receive_lock,"further messages can be received");
  bool headchanged = w.queue_.size() && w.queue_.front().mref.target_ != msg[0];
  vc_check(!headchanged || w.needRepoll_,"a poll is asked for when another message has become the head of the queue");
  vc_cover("end");
}
VC_PROOF(poll_message) { message(false); }
VC_PROOF(deliver_message) { message(true); }
static void event (bool mt)
{
  TestWP &w = anyqueue(2);
  vc_assume(np > 0);
  w.head_stays = !mt; w.needRepoll_ = true; w.running = true;
  w.autoCatch_ = vc_split("catch",0,1);
  int kind = vc_split("kind",0,2), arg = vc_i32("arg");
  msg[0]->id_ = HIID(AidEvent)|(kind == 0 ? AidTimeout : kind == 1 ? AidInput : AidSignal)|DMI::AtomicID(arg);
  msg[0]->state_ = vc_i32("state");
  int state = msg[0]->state_;
  // the dispatcher remembers the event until it is delivered
  bool held = vc_split("held",0,1);
  Message::Ref *last = held ? new Message::Ref(w.queue_.front().mref) : 0;
  handler_may_enqueue(w);
  w.result = vc_split("result",0,2);      // (ACCEPT, HOLD, REQUEUE: events are never kept)
  if( mt ) { Thread::Mutex::Lock lock(w.queue_cond); w.deliver(lock); }
  else w.do_poll(99);
  vc_check(!w.nrecv && w.ntimeout == (kind == 0) && w.ninput == (kind == 1 && state) && w.nsignal == (kind == 2),
           "an event is delivered once, to its handler; a pending input that has been removed is not");
  vc_check(kind == 0 ? w.toid.size() == 1 && w.toid[0] == DMI::AtomicID(arg) : kind == 1 ? !state || (w.fd == arg && w.flags == state) : w.signum == arg,
           "the handler gets the id of the timeout, the descriptor and its state, or the signal");
  if( kind == 1 && !state ) w.extra = 0;  // (no handler was called)
  check_queue(w,false,false);
  if( last ) vc_check(last->valid() && last->isOnlyRef() && last->deref_p() == msg[0],"after the delivery the dispatcher can tell that the event is not pending any more");
  vc_cover("end");
}
VC_PROOF(poll_event) { event(false); }
VC_PROOF(deliver_event) { event(true); }
