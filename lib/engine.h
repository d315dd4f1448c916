// Descriptors of one generated driver; the glue (written by harness.py) fills them in.
#pragma once
#include <stdint.h>
#include <stddef.h>
typedef struct {
  const char* name;
  int start, len, order, sgn;   // as in the DBC file; order 1 = Intel
} SD;
typedef struct {
  const char* name;
  uint32_t id; int ide, dlc, nsig, overlap;
  const SD* sig;
  unsigned size;
  uint32_t (*unpack)(void*, const uint8_t*, uint8_t);
  uint32_t (*pack)(void*, uint8_t* data, uint8_t* len, uint8_t* ide, uint32_t* id);
  uint64_t (*get)(const void*, int);
  void (*set)(void*, int, uint64_t);
  uint32_t c_id, c_ide, c_dlc;
  long double (*pget)(const void*, int);        // physical companions, null without SIGFLOAT
  void (*mon)(const void*, uint32_t*);          // monitor: {dlc_error, last_cycle, frame_cnt, roll_error, csm_error}, null without monitors
} MD;
extern uint32_t v_tick;
extern uint64_t v_calls;                        // hash of the monitor functions called
extern const MD g_msgs[];
extern const int g_nmsgs;
extern const unsigned g_init;
extern const unsigned g_maxdlc;
