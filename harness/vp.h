#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include "__fc_builtin.h"

/* Markers read back by fc/vp.ml.  None of them has an effect. */
/*@ assigns \nothing; */ void vp_fail(const char* name);
/*@ assigns \nothing; */ void vp_possible(const char* name);
/*@ assigns \nothing; */ void vp_reached(const char* name);

/* obligation: on every abstract path reaching this point, c holds */
#define VP_CHECK(c, name) do { vp_reached(name); if (!(c)) { vp_fail(name); } } while (0)
/* this point must not be reached */
#define VP_NEVER(name) vp_fail(name)
/* behaviour that must stay possible */
#define VP_POSSIBLE(c, name) do { if (c) { vp_possible(name); } } while (0)
/* path is outside the explored domain: discard */
#define VP_DISCARD() do { while (1) ; } while (0)
#define VP_ASSUME(c) do { if (!(c)) { while (1) ; } } while (0)

#define ND_U8() ((uint8_t)Frama_C_interval(0, 255))
static inline int vp_nd_bool(void) { return Frama_C_interval_split(0, 1); }
static inline int vp_nd(int lo, int hi) { return Frama_C_interval(lo, hi); }
static inline int vp_nd_split(int lo, int hi) { return Frama_C_interval_split(lo, hi); }
static inline void vp_fill(void* p, size_t n) { if (n) Frama_C_make_unknown((char*)p, n); }
#endif
