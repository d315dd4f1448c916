#pragma once
#include <stdint.h>
typedef struct { const char* name; int start, len, sgn, kind /* 0 plain 1 integer 2 decimal */; __int128 f, o; __float128 fd, od; double eps; int bits; } PS;
typedef struct {
  const char* name; int nsig; const PS* sig;
  void (*unpack)(void*, const uint8_t*, int);
  void (*pack)(void*, uint8_t*);
  uint64_t (*get)(const void*, int); void (*set)(void*, int, uint64_t);
  __int128 (*pi_get)(const void*, int); void (*pi_set)(void*, int, __int128);
  double (*pd_get)(const void*, int); void (*pd_set)(void*, int, double);
} PM;
extern const PM g_pm[]; extern const int g_npm;
