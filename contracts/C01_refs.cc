// @property C01
// @sources DMI/src/CountedRefBase.cc DMI/src/CountedRefTarget.cc
// @libs dmi
// @option * locks=1
// @verifies copy DMI::CountedRefBase::copy(const CountedRefBase&,int,int)
// @verifies xfer DMI::CountedRefBase::xfer(CountedRefBase&,int,int)
// @verifies copy_nested DMI::CountedRefBase::copy; DMI::CountedRefBase::xfer
// @verifies xfer_nested DMI::CountedRefBase::xfer
// @verifies attach DMI::CountedRefBase::attach
// @verifies detach DMI::CountedRefBase::detach
// @verifies privatize DMI::CountedRefBase::privatize; DMI::CountedRefBase::cloneTarget
#include "../contracts/refs.h"

// The invariant: the count of every target is the number of references attached to it (the two references under the
// operation plus any number of others), an owned target is alive iff it has references, an attached reference has a live target.
VC_PROOF(copy)
{
  World w;
  int flags = vc_i32("flags"), depth = vc_i32("depth");
  bool threw = false;
  try { w.a().copy(w.b(),flags,depth); } catch( ... ) { threw = true; }
  w.check(threw);
  if( !w.alias && !threw && w.tb0 && !(flags&DMI::DEEP) && depth<=0 )
    vc_check(w.a().target_ == w.tb0 && w.b().target_ == w.tb0,"copy: both references see the same target");
  if( threw )
    vc_check(w.locked_a,"copy: fails only for a locked reference");
  vc_cover("end");
}
VC_PROOF(xfer)
{
  World w;
  int flags = vc_i32("flags"), depth = vc_i32("depth");
  bool threw = false;
  try { w.a().xfer(w.b(),flags,depth); } catch( ... ) { threw = true; }
  w.check(threw);
  if( !threw && !w.alias )
  {
    vc_check(!w.b().target_,"xfer: the source is left empty");
    if( !(flags&DMI::DEEP) && depth<=0 )
      vc_check(w.a().target_ == w.tb0,"xfer: the destination takes over the target");
  }
  if( threw )
    vc_check(w.locked_a || w.locked_b,"xfer: fails only for locked references");
  vc_cover("end");
}
VC_PROOF(detach)
{
  World w;
  bool threw = false;
  try { w.a().detach(); } catch( ... ) { threw = true; }
  w.check(threw);
  vc_check(threw == (w.locked_a && w.ta0),"detach: fails exactly for a locked reference");
  if( !threw )
    vc_check(!w.a().target_,"detach: leaves an empty reference");
  vc_cover("end");
}
VC_PROOF(destructor)
{
  World w;
  CountedRefBase *r = new CountedRefBase;
  r->copy(w.a());
  bool lk = vc_bool("lk");
  if( lk ) r->lock();
  delete r;
  w.check(false);
  vc_cover("end");
}
VC_PROOF(assign)
{
  World w;
  bool threw = false;
  try { w.a() = w.b(); } catch( ... ) { threw = true; }
  w.check(threw);
  if( !threw )
    vc_check(w.a().target_ == w.tb0 && w.b().target_ == w.tb0,"assignment: both references see the same target");
  vc_cover("end");
}
VC_PROOF(copy_construct)
{
  World w;
  int flags = vc_i32("flags"), depth = vc_i32("depth");
  bool threw = false;
  {
    CountedRefBase *r = 0;
    try { r = new CountedRefBase(w.a(),flags,depth); } catch( ... ) { threw = true; }
    if( !threw )
    {
      w.check(false,r);
      if( w.ta0 && flags&DMI::XFER )
        vc_check(!w.a().target_,"copy construction with XFER empties the source");
      else if( w.ta0 )
        vc_check(w.a().target_ == w.ta0,"copy construction keeps the source attached");
    }
    else
      w.check(true);
  }
  vc_check(!threw || (w.locked_a && flags&DMI::XFER),"copy construction fails only for the transfer of a locked reference");
  vc_cover("end");
}
VC_PROOF(privatize)
{
  World w;
  int flags = vc_i32("flags"), depth = vc_i32("depth");
  bool threw = false;
  try { w.a().privatize(flags,depth); } catch( ... ) { threw = true; }
  w.check(threw,0,true);
  vc_check(threw == !w.ta0,"privatize: fails exactly for an empty reference");
  vc_cover("end");
}
VC_PROOF(getTargetWr)
{
  World w;
  bool threw = false;
  try { w.a().getTargetWr(); } catch( ... ) { threw = true; }
  w.check(threw,0,true);
  vc_check(threw == !w.ta0,"write access: fails exactly for an empty reference");
  vc_cover("end");
}
VC_PROOF(attach)
{
  World w;
  int flags = vc_i32("flags");
  int which = vc_split("which",0,2);
  bool threw = false;
  Tgt *t = which == 2 ? w.fresh() : w.t[which];
  try { w.a().attach(t,flags); } catch( ... ) { threw = true; }
  w.check(threw);
  vc_check(!threw || w.locked_a,"attach: fails only for a locked reference");
  if( !threw )
  {
    bool unattached = which == 2 || !w.att0[which];
    bool clone = unattached && (flags&DMI::OWNERSHIP_MASK) == DMI::AUTOCLONE;
    vc_check(clone ? w.a().target_ == clone_of(t) : w.a().target_ == t,"attach: attaches to the requested target (or its clone)");
    if( unattached )
      vc_check(w.a().target_->anon_ == (clone || (flags&DMI::OWNERSHIP_MASK) != DMI::EXTERNAL),"attach: owned unless attached as external");
  }
  vc_cover("end");
}
// the references handed to copy() and transfer may live inside the target which the destination lets go of
struct Holder : public Tgt
{
  CountedRefBase inner;
  virtual CountedRefTarget *clone (int = 0,int = 0) const { return new Holder(*this); }
};
struct Nested
{
  CountedRefBase *r; Holder *h; Tgt *t; int exth,extt,hid,tid;
  Nested ()
  {
    nobj = 0;
    h = new Holder; t = new Tgt; r = new CountedRefBase;
    exth = vc_i32("exth"); vc_assume(exth >= 0 && exth < (1<<30)); 
    extt = vc_i32("extt"); vc_assume(extt >= 0 && extt < (1<<30));
    hid = h->id; tid = t->id;
    h->anon_ = t->anon_ = true;
    h->ref_count_ = exth+1; t->ref_count_ = extt+1;
    r->target_ = h; r->writable_ = vc_bool("writable"); r->shared_ = vc_bool("shared");
    h->inner.target_ = t; h->inner.writable_ = vc_bool("iwritable"); h->inner.shared_ = vc_bool("ishared");
  }
  void check (bool xfer)
  {
    vc_check(r->target_ == t && !dead[tid],"the destination is attached to a live target");
    vc_check(dead[hid] == (exth == 0),"the old target is destroyed iff this was its last reference");
    vc_check(t->ref_count_ == extt + 1 + (exth && !xfer),"the count of the new target is right");
    if( exth )
      vc_check(h->inner.target_ == (xfer ? (CountedRefTarget*)0 : t) && h->ref_count_ == exth,"the old target lives on for the others");
  }
};
VC_PROOF(copy_nested)
{
  Nested w;
  w.r->copy(w.h->inner);
  w.check(false);
  vc_cover("end");
}
VC_PROOF(xfer_nested)
{
  Nested w;
  w.r->xfer(w.h->inner);
  w.check(true);
  vc_cover("end");
}
