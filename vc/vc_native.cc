// Native implementation of the contract intrinsics: replays a verifier counterexample on the natively compiled real code.
//   usage: replay <proof-name> <replay-file>      exit 0 = obligations hold, 1 = an obligation fails, 77 = precondition not met
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <string>
#include <fstream>
#include <typeinfo>
#include <unistd.h>
static std::map<std::string,std::string> vals;
static std::map<std::string,int> cnt;
static std::string nm (const char *n)
{
  int c = cnt[n]++;
  return c ? std::string(n)+"#"+std::to_string(c) : std::string(n);
}
static bool fuzz = false;
// self test of a contract on the unchanged code (VC_FUZZ=seed): inputs which are not given get small random values
static const char * get (const std::string &n,long lo=-1,long hi=3)
{
  auto it = vals.find(n);
  if( it == vals.end() && fuzz )
    it = vals.insert(std::make_pair(n,std::to_string(rand()%8 ? lo + rand()%(hi-lo+1) : (long)rand()))).first;
  return it == vals.end() ? "0" : it->second.c_str();
}
extern "C" {
  int32_t  vc_i32 (const char *n) { return (int32_t)strtoull(get(nm(n)),0,0); }
  uint32_t vc_u32 (const char *n) { return (uint32_t)strtoull(get(nm(n)),0,0); }
  int64_t  vc_i64 (const char *n) { return (int64_t)strtoull(get(nm(n)),0,0); }
  uint64_t vc_u64 (const char *n) { return strtoull(get(nm(n)),0,0); }
  uint8_t  vc_u8  (const char *n) { return (uint8_t)strtoull(get(nm(n)),0,0); }
  bool     vc_bool(const char *n) { return strtoull(get(nm(n),0,1),0,0) != 0; }
  double   vc_f64 (const char *n) { return strtod(get(nm(n)),0); }
  uint64_t vc_size (const char *n) { uint64_t x = strtoull(get(nm(n),0,4),0,0); return fuzz ? x%7 : x; }
  int64_t  vc_split (const char *n,int64_t lo,int64_t hi) { int64_t x = strtoll(get(nm(n),lo,hi),0,0); return fuzz && (x < lo || x > hi) ? lo : x; }
  void *   vc_array_raw (const char *n0,uint64_t n,uint64_t es,int kind)
  {
    std::string n1 = nm(n0);
    if( n > (1<<24) ) { printf("ASSUME array too large for replay\n"); fflush(stdout); _exit(77); }
    char *p = (char*)malloc(n*es ? n*es : 1);
    memset(p,0,n*es);
    for( uint64_t i=0; i<n; i++ )
    {
      if( kind == 2 )
      {
        double d = strtod(get(n1+".re["+std::to_string(i)+"]"),0); memcpy(p+i*es,&d,8);
        d = strtod(get(n1+".im["+std::to_string(i)+"]"),0); memcpy(p+i*es+8,&d,8);
        continue;
      }
      const char *v = get(n1+"["+std::to_string(i)+"]");
      if( kind && es == 8 ) { double d = strtod(v,0); memcpy(p+i*es,&d,8); }
      else if( kind && es == 4 ) { float d = strtod(v,0); memcpy(p+i*es,&d,4); }
      else { uint64_t x = strtoull(v,0,0); memcpy(p+i*es,&x,es < 8 ? es : 8); }
    }
    return p;
  }
  void vc_assume (bool c) { if( !c ) { printf("ASSUME violated\n"); fflush(stdout); _exit(77); } }
  void vc_check (bool c,const char *l) { if( !c ) { printf("FAIL %s\n",l); fflush(stdout); _exit(1); } }
  void vc_lemma (bool c,const char *l) { vc_check(c,l); }
  void vc_cover (const char *) {}
  void vc_stub_requires (bool c,const char *l) { vc_check(c,l); }
  bool vc_quant (int isf,uint64_t lo,uint64_t hi,bool (*fn)(const void*,uint64_t),const void *ctx)
  {
    for( uint64_t i=lo; i<hi; i++ )
      if( fn(ctx,i) != bool(isf) ) return !isf;
    return isf;
  }
  void vc_havoc_i32 (void *,const char *) {}
  bool vc_symbolic_mode () { return false; }
  void vc_trace (const char *n,int64_t v) { printf("TRACE %s = %lld\n",n,(long long)v); }
  void *vc_opaque_ptr (const char *n) { nm(n); return calloc(1,1<<16); }
  int32_t vc_locks_held () { return 0; }
}
int main (int argc,char *argv[])
{
  if( argc < 2 ) return 2;
  if( getenv("VC_FUZZ") ) { fuzz = true; srand(atoi(getenv("VC_FUZZ"))); }
  if( argc > 2 )
  {
    std::ifstream f(argv[2]);
    std::string line;
    while( std::getline(f,line) )
    {
      if( line.empty() || line[0] == '#' ) continue;
      size_t p = line.find(' ');
      if( p != std::string::npos ) vals[line.substr(0,p)] = line.substr(p+1);
    }
  }
  void (*fn)() = (void(*)())dlsym(RTLD_DEFAULT,(std::string("PROOF__")+argv[1]).c_str());
  if( !fn ) { printf("no such proof %s\n",argv[1]); return 2; }
  try { fn(); }
  catch( std::exception &e ) { printf("FAIL exception escapes: %s\n",e.what()); fflush(stdout); _exit(1); }
  catch( ... ) { printf("FAIL exception escapes\n"); fflush(stdout); _exit(1); }
  printf("HOLDS\n"); fflush(stdout);
  _exit(0);
}
