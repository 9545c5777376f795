#ifndef VC_VELLS_H
#define VC_VELLS_H
#include <vc.h>
#include <MEQ/TID-Meq.h>
#include <MEQ/Vells.h>
#include <DMI/TypeInfo.h>
using namespace Meq;
typedef Vells::Shape Shape;
typedef VellsFlagType FT;
// contracts assumed on dependencies (only in the verifier; natively the real code runs):
// the registry of types knows the sizes of the element types used here
extern "C" const DMI::TypeInfo & stub_typeinfo (DMI::TypeId t)
{
  size_t n = t == Tpdcomplex ? 16 : t == Tpdouble ? 8 : t == Tpint ? 4 : 0;
  vc_stub_requires(n != 0,"type known to the registry stub");
  return *new DMI::TypeInfo(DMI::TypeInfo::NUMERIC,n);
}
// the blitz array object that accompanies the data is not modelled (it refers to the data, the functions under
// contract do not use it)
extern "C" void * stub_alloc_array (int,void *where,void *,const LoShape &) { return where; }
extern "C" void stub_assign_ref (int,void *,void *,const LoShape &) {}
extern "C" void stub_destroy_array (int,int,void *) {}
#endif
