// a raw dispatcher (see octo.h)
#ifndef VC_DSP_H
#define VC_DSP_H
#include <signal.h>
#include <sys/time.h>
#include <sys/select.h>
// the clock, the sets of signals and the signal handlers of the process
static long clock_sec = 1000,clock_usec = 0;
typedef void (*Handler)(int,siginfo_t*,void*);
static Handler handler[_NSIG];
extern "C" {
int gettimeofday (struct timeval *tv,void *) noexcept { tv->tv_sec = clock_sec; tv->tv_usec = clock_usec; return 0; }
#ifndef VC_NATIVE
int sigemptyset (sigset_t *s) noexcept { s->__val[0] = 0; return 0; }
int sigaddset (sigset_t *s,int n) noexcept { s->__val[0] |= 1UL<<(n-1); return 0; }
int sigismember (const sigset_t *s,int n) noexcept { if( n <= 0 ) return -1; return (s->__val[0]>>(n-1))&1; }
#endif
int sigaction (int sig,const struct sigaction *sa,struct sigaction *old) noexcept
{
  if( old ) old->sa_sigaction = handler[sig];
  if( sa ) handler[sig] = sa->sa_sigaction;
  return 0;
}
}
static const int HOST = 7, PROC = 8;

inline Dispatcher & mkdsp ()
{
  static void *mem = ::operator new(sizeof(Dispatcher));
  memset(mem,0,sizeof(Dispatcher));
  Dispatcher *d = static_cast<Dispatcher*>(mem);
  new (&d->address) MsgAddress(AidDispatcher,DMI::AtomicID(0),DMI::AtomicID(PROC),DMI::AtomicID(HOST));
  new (&d->wps) std::map<WPID,Octopussy::WPRef>;
  new (&d->gateways) std::map<WPID,WPInterface*>;
  new (&d->wp_instances) std::map<DMI::AtomicID,int>;
  new (&d->timeouts) Dispatcher::TOIL;
  new (&d->inputs) Dispatcher::IIL;
  new (&d->signal_map) Dispatcher::SigMap;
  new (&d->detached_wps) std::stack<Octopussy::WPRef>;
  new (&d->attached_wps) std::stack<Octopussy::WPRef>;
#ifdef VC_NATIVE
  new (&d->wpmutex) Mutex; new (&d->tomutex) Mutex; new (&d->inpmutex) Mutex; new (&d->sigmutex) Mutex; new (&d->fds_watched_mutex) Mutex;
  new (&d->repoll_cond) LOFAR::Thread::Condition; new (&d->startup_cond) LOFAR::Thread::Condition;
#endif
  d->poll_depth = -1;
  return *d;
}
inline TestWP & addwp (Dispatcher &d,int cls,int inst)
{
  TestWP &w = mkwp(DMI::AtomicID(cls));
  w.dsp_ = &d;
  new (&w.address_) MsgAddress(DMI::AtomicID(cls),DMI::AtomicID(inst),DMI::AtomicID(PROC),DMI::AtomicID(HOST));
  new (&w.wpid_) WPID(DMI::AtomicID(cls),DMI::AtomicID(inst));
  d.wps[w.wpid_].attach(w,DMI::ANONWR);
  return w;
}
inline Dispatcher::TimeoutInfo & mktimeout (TestWP &w,const HIID &id = AidHello,int pri = 1)
{
  Dispatcher::TimeoutInfo &t = *new Dispatcher::TimeoutInfo(&w,id,pri);
  t.id = id; t.flags = 0;
  return t;
}
inline Dispatcher::InputInfo & mkinput (TestWP &w,int fd,int flags)
{
  Dispatcher::InputInfo &i = *new Dispatcher::InputInfo(&w,DMI::AtomicID(fd),1);
  i.fd = fd; i.flags = flags;
  return i;
}
#endif
