/* Contexts and operations of the preemption explorer (engine_iso.c). */
#include <stdint.h>
#define ISO_MAXOBJ 16384
typedef struct { uint32_t ret, tick; uint8_t dlc, len, ide, pad; uint64_t log; uint8_t in[80]; uint8_t out[112]; _Alignas(16) uint8_t obj[ISO_MAXOBJ]; } Ctx;
typedef struct Op { const char* name; int kind; /* 0 unpack, 1 pack, 2 receive */ int frame; unsigned size, outcap; uint32_t id; void (*f)(Ctx*, const struct Op*); } Op;
extern const Op g_ops[]; extern const int g_nops; extern const int g_framedlc[];
void iso_mon(const void* mon, unsigned long size, uint32_t msgid);
