// Table of the functions under test exported by a library built from /repo (sut.cpp).
#ifndef SUT_H
#define SUT_H
#include <cstddef>
#include <cstdint>
extern "C" {
typedef void (*sut_scal_t)(const void *a, const void *b, void *o, void *o2, size_t n);
struct SutFn {
  const char *name;   // name of the scalar function without namespace, e.g. fast_expf
  int prec;           // 0 double, 1 float
  int nin, nout;
  sut_scal_t scal;    // one scalar call per element, not vectorised
  sut_scal_t arr;     // one call of the array function (null if there is none)
};
struct SutTable { int n; const SutFn *fn; };
typedef const SutTable *(*sut_table_t)();
}
#endif
