// two references under the operation, two (or more) targets, any number of further references
#ifndef VC_REFS_H
#define VC_REFS_H
#include <vc.h>
#include <DMI/CountedRefBase.h>
#include <DMI/CountedRefTarget.h>
#include <DMI/DMI.h>
using namespace DMI;
static const int MAXT = 8;
struct Tgt;
static Tgt *objs[MAXT];
static bool dead[MAXT];
static int  cloned_from[MAXT];
static int  nobj = 0;
struct Tgt : public CountedRefTarget
{
  int id, payload;
  Tgt () { id = nobj++; objs[id] = this; payload = 0; cloned_from[id] = -1; }
  Tgt (const Tgt &other) : CountedRefTarget(other)
  { id = nobj++; objs[id] = this; payload = other.payload; cloned_from[id] = other.id; }
  virtual ~Tgt () { dead[id] = true; }
  virtual CountedRefTarget *clone (int = 0,int = 0) const { return new Tgt(*this); }
};
static inline CountedRefTarget *clone_of (Tgt *t)
{
  for( int i=0; i<nobj; i++ ) if( !dead[i] && cloned_from[i] == t->id ) return objs[i];
  return 0;
}
struct World
{
  CountedRefBase *r[2];
  Tgt *t[2];
  bool alias;                 // the operation uses the same reference twice
  int  ext[2];                // references to the targets held elsewhere
  bool anon0[2];
  bool att0[2];               // attached before the operation
  CountedRefTarget *ta0,*tb0;
  bool locked_a,locked_b,shared_a,shared_b,writable_a,writable_b;
  CountedRefBase & a () { return *r[0]; }
  CountedRefBase & b () { return alias ? *r[0] : *r[1]; }
  World ()
  {
    nobj = 0;
    for( int i=0; i<2; i++ )
    {
      t[i] = new Tgt; r[i] = new CountedRefBase;
      ext[i] = vc_i32("ext"); vc_assume(ext[i] >= 0 && ext[i] < (1<<30));
      t[i]->ref_count_ = ext[i];
      t[i]->anon_ = anon0[i] = vc_bool("anon");
      t[i]->payload = vc_i32("payload");
    }
    // 0: empty, 1: attached to the first target, 2: to the second
    for( int i=0; i<2; i++ )
    {
      int p = vc_split("points",0,2);
      if( p )
      {
        r[i]->target_ = t[p-1]; t[p-1]->ref_count_++;
        r[i]->locked_ = vc_bool("locked"); r[i]->writable_ = vc_bool("writable"); r[i]->shared_ = vc_bool("shared");
      }
    }
    alias = vc_bool("alias");
    // a target which nobody refers to and which is owned by the references does not exist any more
    for( int i=0; i<2; i++ ) vc_assume(t[i]->ref_count_ > 0 || !anon0[i]);
    for( int i=0; i<2; i++ ) att0[i] = t[i]->ref_count_ > 0;
    ta0 = a().target_; tb0 = b().target_;
    locked_a = a().locked_; locked_b = b().locked_; shared_a = a().shared_; shared_b = b().shared_; writable_a = a().writable_; writable_b = b().writable_;
  }
  Tgt *fresh () { return new Tgt; }
  // the invariant again
  void check (bool threw,CountedRefBase *extra=0,bool =false)
  {
    for( int i=0; i<nobj; i++ )
    {
      CountedRefTarget *p = objs[i];
      int n = i<2 ? ext[i] : 0;
      for( int j=0; j<2; j++ ) if( r[j]->target_ == p ) n++;
      if( extra && extra->target_ == p ) n++;
      if( dead[i] )
        vc_check(n == 0 && (i>=2 || anon0[i]),"a target is destroyed only when nobody refers to it, and only if owned");
      else
      {
        vc_check(p->ref_count_ == n,"the count of a target is the number of references attached to it");
        vc_check(n > 0 || !p->anon_,"an owned target without references is destroyed");
        if( i<2 && n > 0 && att0[i] )
          vc_check(p->anon_ == anon0[i],"ownership of an attached target does not change");
      }
    }
    for( int j=0; j<2; j++ )
      if( !r[j]->target_ ) vc_check(!r[j]->locked_ && !r[j]->shared_ && !r[j]->writable_,"an empty reference has no flags");
    vc_check(vc_locks_held() == 0,"all mutexes are released");
    if( threw )
    {
      vc_check(a().target_ == ta0 && b().target_ == tb0,"a failed operation leaves the references attached");
      vc_check(a().locked_ == locked_a && b().locked_ == locked_b,"a failed operation leaves the locks alone");
    }
  }
};
#endif
