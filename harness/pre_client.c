/* An ordinary C program's use of the standard functions; knows nothing of the library under test. */
#include <math.h>
#include <stddef.h>
#define C1(F,T) static void c_##F(const void*a,const void*b,void*o,size_t n){ const T*x=a; T*r=o; (void)b; for(size_t i=0;i<n;++i) r[i]=F(x[i]); }
#define C2(F,T) static void c_##F(const void*a,const void*b,void*o,size_t n){ const T*x=a; const T*y=b; T*r=o; for(size_t i=0;i<n;++i) r[i]=F(x[i],y[i]); }
#define L1(X) X(asin) X(acos) X(atan) X(cos) X(exp) X(log) X(sin) X(tan) X(tanh)
#define O1(X) X(sqrt) X(floor) X(ceil) X(fabs) X(cbrt) X(sinh) X(cosh) X(asinh) X(acosh) X(atanh) X(exp2) X(expm1) X(log2) X(log10) X(log1p) X(tgamma) X(erf) X(erfc) X(round) X(trunc) X(rint) X(nearbyint) X(logb)
#define O2(X) X(pow) X(fmod) X(hypot) X(remainder) X(copysign) X(fmin) X(fmax) X(nextafter) X(fdim)
#define D1(F) C1(F,double) C1(F##f,float)
#define D2(F) C2(F,double) C2(F##f,float)
L1(D1) D2(atan2) O1(D1) O2(D2)
struct Client { const char*name; int prec,nin,replaced; void(*f)(const void*,const void*,void*,size_t); };
#define E1(F) {#F,0,1,1,c_##F},{#F "f",1,1,1,c_##F##f},
#define EO(F) {#F,0,1,0,c_##F},{#F "f",1,1,0,c_##F##f},
#define EO2(F) {#F,0,2,0,c_##F},{#F "f",1,2,0,c_##F##f},
const struct Client client[]={ L1(E1) {"atan2",0,2,1,c_atan2},{"atan2f",1,2,1,c_atan2f}, O1(EO) O2(EO2) {0,0,0,0,0} };
