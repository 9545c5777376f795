// @property C02
// @sources DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc
// @libs dmi
// @option * locks=1
// @verifies write_isolation DMI::CountedRefBase::getTargetWr; DMI::CountedRefBase::privatize; DMI::CountedRefBase::cloneTarget
// @verifies write_after_copy DMI::CountedRefBase::copy; DMI::CountedRefBase::getTargetWr
// @verifies privatize DMI::CountedRefBase::privatize; DMI::CountedRefBase::cloneTarget
// @verifies writability DMI::CountedRefBase::attach; DMI::CountedRefBase::copy; DMI::CountedRefBase::xfer; DMI::CountedRefBase::change
#include "../contracts/refs.h"
#include <DMI/CountedRef.h>

static inline int seen (CountedRefBase &r) { return static_cast<const Tgt*>(r.getTarget())->payload; }

// a write through one reference is never seen through another one, unless the writer was declared shared
VC_PROOF(write_isolation)
{
  World w;
  vc_assume(w.ta0 != 0 && !w.alias);
  int pay[2] = { w.t[0]->payload, w.t[1]->payload };
  Tgt *old = static_cast<Tgt*>(w.ta0);
  int oldp = old->payload, v = vc_i32("v"), n0 = old->ref_count_;
  bool only = n0 == 1;
  Tgt *p = static_cast<Tgt*>(w.a().getTargetWr());
  vc_check(w.a().target_ == p,"write access: the pointer is the target of the reference");
  vc_check(p->payload == oldp,"write access: contents are those seen before");
  p->payload = v;
  if( !w.shared_a )
  {
    vc_check(p->ref_count_ == 1,"write access: the object written to belongs to this reference alone");
    for( int i=0; i<2; i++ )
      if( !dead[i] && (objs[i] != p) ) vc_check(objs[i]->payload == pay[i],"write access: other objects are unchanged");
    if( !only )
      vc_check(p != old && !dead[old->id] && old->payload == oldp && old->ref_count_ == n0-1,"write access: a target with other references is copied first");
    if( w.tb0 )
      vc_check(w.b().target_ == w.tb0 && seen(w.b()) == pay[w.tb0 == w.t[1]],"a write is not seen through any other reference");
  }
  else
    vc_check(p == old && old->payload == v && old->ref_count_ == n0,"shared write access: all references see the write");
  if( !w.writable_a && !w.shared_a )
    vc_check(p != old,"a read-only reference never writes to the target it was given");
  vc_cover("end");
}
// the copy of a reference sees the same contents; then writes on either side are isolated from the other
VC_PROOF(write_after_copy)
{
  World w;
  vc_assume(!w.alias && w.tb0 != 0 && !w.locked_a);
  vc_assume(!w.shared_b);
  int flags = vc_i32("flags"), depth = vc_i32("depth");
  vc_assume(!(flags&DMI::SHARED) && !((flags&DMI::DEEP || depth>0) && flags&DMI::READONLY && 0));
  int v = vc_i32("v"), u = vc_i32("u"), p0 = static_cast<Tgt*>(w.tb0)->payload;
  w.a().copy(w.b(),flags,depth);
  vc_check(seen(w.a()) == p0 && seen(w.b()) == p0,"a copy sees the same contents");
  static_cast<Tgt*>(w.a().getTargetWr())->payload = v;
  vc_check(seen(w.a()) == v && seen(w.b()) == p0,"a write through the copy is not seen through the original");
  static_cast<Tgt*>(w.b().getTargetWr())->payload = u;
  vc_check(seen(w.a()) == v && seen(w.b()) == u,"a write through the original is not seen through the copy");
  vc_cover("end");
}
VC_PROOF(privatize)
{
  World w;
  vc_assume(w.ta0 != 0 && !w.alias);
  int flags = vc_i32("flags"), depth = vc_i32("depth");
  Tgt *old = static_cast<Tgt*>(w.ta0);
  int oldp = old->payload;
  bool need = !old->anon_ || old->ref_count_ != 1 || !w.writable_a || depth>0 || flags&DMI::DEEP;
  bool res = w.a().privatize(flags,depth);
  Tgt *p = static_cast<Tgt*>(w.a().target_);
  vc_check(p->anon_ && p->ref_count_ == 1 && w.a().writable_,"privatize: owned, writable, referred to by nobody else");
  vc_check(p->payload == oldp,"privatize: same contents");
  vc_check(res == need && (p != old) == need,"privatize: copies exactly when needed (or when a deep copy is requested)");
  vc_check(w.a().locked_ == bool(flags&DMI::LOCKED ? 1 : flags&DMI::UNLOCKED ? 0 : need ? 0 : w.locked_a),"privatize: lock as requested");
  vc_check(w.a().shared_ == bool(flags&DMI::SHARED ? 1 : flags&DMI::COW ? 0 : need ? 0 : w.shared_a),"privatize: sharing as requested");
  if( w.tb0 )
    vc_check(w.b().target_ == w.tb0,"privatize: other references are left alone");
  vc_cover("end");
}
// a reference becomes directly writable only by an explicit request of its creator
VC_PROOF(writability)
{
  World w;
  vc_assume(!w.alias && !w.locked_a && !w.locked_b && w.tb0 != 0);
  int flags = vc_i32("flags");
  vc_assume(!(flags&DMI::DEEP));
  int op = vc_split("op",0,3);
  bool sb = w.shared_b, wb = w.writable_b;
  if( op == 0 )
    w.a().copy(w.b(),flags);
  else if( op == 1 )
    w.a().xfer(w.b(),flags);
  else if( op == 2 )
  {
    w.b().change(flags);
    vc_check(w.b().shared_ == bool(flags&DMI::SHARED ? 1 : flags&DMI::COW ? 0 : sb),"change: sharing as requested, else kept");
    vc_check(w.b().writable_ == (wb && !(flags&DMI::READONLY)),"change: read-only if requested, never more writable");
    vc_check(w.b().locked_ == bool(flags&DMI::LOCKED),"change: lock as requested");
    vc_check(w.b().target_ == w.tb0,"change: keeps the target");
  }
  else
  {
    vc_assume((flags&DMI::OWNERSHIP_MASK) != DMI::AUTOCLONE);
    w.a().attach(w.t[0],flags);
    if( w.ta0 != w.t[0] )
    {
      vc_check(w.a().shared_ == bool(flags&DMI::SHARED),"attach: shared exactly if requested");
      vc_check(w.a().writable_ == (w.t[0]->anon_ || !(flags&DMI::READONLY)),"attach: an external target attached as read-only is not writable");
      vc_check(w.a().locked_ == bool(flags&DMI::LOCKED),"attach: lock as requested");
    }
  }
  if( op < 2 )
  {
    vc_check(w.a().shared_ == bool(flags&DMI::SHARED ? 1 : flags&DMI::COW ? 0 : sb),"copy/xfer: sharing as requested, else inherited");
    vc_check(w.a().writable_ == wb,"copy/xfer: writability is inherited");
    vc_check(w.a().locked_ == bool(flags&DMI::LOCKED),"copy/xfer: lock as requested");
  }
  vc_cover("end");
}
