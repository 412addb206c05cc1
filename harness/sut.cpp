// The library under test: every public function of /repo reached through a C table.
// Built with varying compilers and flags, together with the generated array functions.
#include "vdtMath.h"
#include "stdwrap.h"
#include "identity.h"
#include "sut.h"

// how the scalar functions are called: 0 one opaque call per element, 1 through a function pointer, 2 inlined in a plain loop
#ifndef SUT_MODE
#define SUT_MODE 0
#endif
#if SUT_MODE == 2
#define BARRIER(v)
#else
#define BARRIER(v) asm volatile("" : "+m"(v))
#endif
#if SUT_MODE == 1
#define PTR1(F,T) T (*volatile fp)(T) = vdt::F; T (*g)(T) = fp;
#define PTR2(F,T) T (*volatile fp)(T,T) = vdt::F; T (*g)(T,T) = fp;
#define PTR12(F,T) void (*volatile fp)(const T,T&,T&) = vdt::F; void (*g)(const T,T&,T&) = fp;
#define CALL(F) g
#else
#define PTR1(F,T)
#define PTR2(F,T)
#define PTR12(F,T)
#define CALL(F) vdt::F
#endif

#define S1(F,T) static void s_##F(const void*a,const void*,void*o,void*,size_t n){ \
  PTR1(F,T) const T*x=(const T*)a; T*r=(T*)o; for(size_t i=0;i<n;++i){ T v=x[i]; BARRIER(v); v=CALL(F)(v); BARRIER(v); r[i]=v; } }
#define S2(F,T) static void s_##F(const void*a,const void*b,void*o,void*,size_t n){ \
  PTR2(F,T) const T*x=(const T*)a; const T*y=(const T*)b; T*r=(T*)o; for(size_t i=0;i<n;++i){ T v=x[i]; T w=y[i]; BARRIER(v); BARRIER(w); v=CALL(F)(v,w); BARRIER(v); r[i]=v; } }
#define S12(F,T) static void s_##F(const void*a,const void*,void*o,void*o2,size_t n){ \
  PTR12(F,T) const T*x=(const T*)a; T*r=(T*)o; T*q=(T*)o2; for(size_t i=0;i<n;++i){ T v=x[i],s,c; BARRIER(v); CALL(F)(v,s,c); BARRIER(s); BARRIER(c); r[i]=s; q[i]=c; } }
#define A1(F,V,T) static void a_##F(const void*a,const void*,void*o,void*,size_t n){ vdt::V((uint32_t)n,(const T*)a,(T*)o); }
#define A2(F,V,T) static void a_##F(const void*a,const void*b,void*o,void*,size_t n){ vdt::V((uint32_t)n,(const T*)a,(const T*)b,(T*)o); }

#define LIST1(X) X(exp) X(log) X(sin) X(cos) X(tan) X(tanh) X(asin) X(acos) X(atan) X(isqrt) X(approx_isqrt) X(inv) X(approx_inv)
#define DEF1(F) S1(fast_##F,double) A1(fast_##F,fast_##F##v,double) S1(fast_##F##f,float) A1(fast_##F##f,fast_##F##fv,float)
LIST1(DEF1)
S2(fast_atan2,double) A2(fast_atan2,fast_atan2v,double)
S2(fast_atan2f,float) A2(fast_atan2f,fast_atan2fv,float)
S12(fast_sincos,double) S12(fast_sincosf,float)
#define LISTP(X) X(isqrt) X(inv) X(identity)
#define DEFP(F) S1(F,double) A1(F,F##v,double) S1(F##f,float) A1(F##f,F##fv,float)
LISTP(DEFP)
S2(identity2D,double) A2(identity2D,identity2Dv,double)
S2(identity2Df,float) A2(identity2Df,identity2Dfv,float)
// array functions over the standard library ones
#define LISTM(X) X(exp) X(log) X(sin) X(cos) X(tan) X(tanh) X(asin) X(acos) X(atan)
#define DEFM(F) A1(F,F##v,double) A1(F##f,F##fv,float)
LISTM(DEFM)
A2(atan2,atan2v,double) A2(atan2f,atan2fv,float)

#define E1(F) {"fast_" #F,0,1,1,s_fast_##F,a_fast_##F},{"fast_" #F "f",1,1,1,s_fast_##F##f,a_fast_##F##f},
#define EP(F) {#F,0,1,1,s_##F,a_##F},{#F "f",1,1,1,s_##F##f,a_##F##f},
#define EM(F) {#F,0,1,1,0,a_##F},{#F "f",1,1,1,0,a_##F##f},
static const SutFn fns[]={
  LIST1(E1)
  {"fast_atan2",0,2,1,s_fast_atan2,a_fast_atan2},{"fast_atan2f",1,2,1,s_fast_atan2f,a_fast_atan2f},
  {"fast_sincos",0,1,2,s_fast_sincos,0},{"fast_sincosf",1,1,2,s_fast_sincosf,0},
  LISTP(EP)
  {"identity2D",0,2,1,s_identity2D,a_identity2D},{"identity2Df",1,2,1,s_identity2Df,a_identity2Df},
  LISTM(EM)
  {"atan2",0,2,1,0,a_atan2},{"atan2f",1,2,1,0,a_atan2f},
};
static const SutTable table={ (int)(sizeof(fns)/sizeof(fns[0])), fns };
extern "C" __attribute__((visibility("default"))) const SutTable *sut_table(){ return &table; }
