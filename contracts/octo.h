// messages and work processes as raw objects (see node.h); natively they are made by their constructors
#ifndef VC_OCTO_H
#define VC_OCTO_H
#include <OCTOPUSSY/OctopussyConfig.h>
#include <OCTOPUSSY/WPInterface.h>
#include <OCTOPUSSY/Dispatcher.h>
#include <DMI/AID-DMI.h>
#include <OCTOPUSSY/AID-OCTOPUSSY.h>
using namespace Octopussy;
using LOFAR::Thread::Mutex;
struct TestWP : public WPInterface
{
  TestWP () : WPInterface(DMI::AtomicID(1)) {}
  int nrecv,ntimeout,ninput,nsignal, fd,flags,signum, result; const Message *received; HIID toid; bool head_stays,forward;
  Message::Ref *extra;
  void more () { if( extra ) enqueue(*extra,5); }
  virtual int receive (Message::Ref &m) { nrecv++; received = m.deref_p(); more(); return result; }
  virtual int timeout (const HIID &id) { ntimeout++; toid = id; more(); return result; }
  virtual int input (int f,int fl) { ninput++; fd = f; flags = fl; more(); return result; }
  virtual int signal (int s) { nsignal++; signum = s; more(); return result; }
  virtual bool willForward (const Message &) const { return forward; }
};
struct TestMessage : public Message
{
  virtual TypeId objectType () const { return TpOctopussyMessage; }
  virtual CountedRefTarget * clone (int,int) const;
};
extern void *vt_wp[] asm("_ZTV6TestWP");
extern void *vt_msg[] asm("_ZTV11TestMessage");

extern "C" __attribute__((used)) inline void emit_vt_octo () { new TestWP; new TestMessage; }
inline Message * mkmessage (const HIID &id,int pri);
#ifdef VC_NATIVE
CountedRefTarget * TestMessage::clone (int,int) const { return 0; }
#else
CountedRefTarget * TestMessage::clone (int,int) const
{
  Message *m = mkmessage(id_,priority_);
  m->state_ = state_; m->to_ = to_; m->from_ = from_; m->hops_ = hops_;
  return m;
}
#endif
inline Message * mkmessage (const HIID &id,int pri)
{
#ifdef VC_NATIVE
  Message *m = new Message(id,pri);
#else
  char *p = static_cast<char*>(::operator new(sizeof(TestMessage)));
  memset(p,0,sizeof(TestMessage));
  *reinterpret_cast<void***>(p) = vt_msg + 2;
  Message *m = reinterpret_cast<TestMessage*>(p);
  new (&m->id_) HIID(id); new (&m->to_) MsgAddress; new (&m->from_) MsgAddress;
  new (&m->payload_set) BlockSet;
  m->priority_ = pri;
#endif
  return m;
}
#ifndef VC_NATIVE
static char dsp_mem[sizeof(Dispatcher)];
#endif
inline TestWP & mkwp (DMI::AtomicID wpc)
{
  static DMI::AtomicID host(7),proc(8);
#ifdef VC_NATIVE
  TestWP *w = new TestWP;
  w->nrecv = w->ntimeout = w->ninput = w->nsignal = 0; w->extra = 0; w->needRepoll_ = false; w->running = false;
  static void *dsp = calloc(1,sizeof(Dispatcher));
  w->dsp_ = static_cast<Dispatcher*>(dsp);
#else
  char *p = static_cast<char*>(::operator new(sizeof(TestWP)));
  memset(p,0,sizeof(TestWP));
  *reinterpret_cast<void***>(p) = vt_wp + 2;
  TestWP *w = reinterpret_cast<TestWP*>(p);
  new (&w->queue_) WPInterface::MessageQueue;
  new (&w->subscriptions) Subscriptions;
  new (&w->toid) HIID;
  w->polling_enabled = true;
  w->dsp_ = reinterpret_cast<Dispatcher*>(dsp_mem);
#endif
  return *w;
}
inline void push (WPInterface &w,Message *m,int pri,ulong tick)
{
  w.queue_.push_back(WPInterface::QueueEntry());
  WPInterface::QueueEntry &qe = w.queue_.back();
  qe.mref.attach(m,DMI::ANONWR); qe.priority = pri; qe.tick = tick;
}
#endif
