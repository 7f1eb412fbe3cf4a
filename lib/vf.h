/* vf.h -- shared by CBMC specs and by native (replay/search) harnesses.
 *
 * A "body" is an executable statement of a property: it draws its inputs with
 * the vf_* choice functions, calls the real code and states the property with
 * VF_CHECK().  Natively the choices come from a replay file, an enumeration or
 * a seeded generator; under CBMC (-DVF_CBMC) they are nondeterministic. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>

#ifdef VF_CBMC
# define VF_REACH(id) do { _Bool vf_reach_; if (vf_reach_) __CPROVER_assert(0, "VF_REACH " id); } while (0)
#else
uint64_t vf_choice(uint64_t n);             /* 0 .. n-1 (n==0: full 64 bit) */
uint64_t vf_u64(void);                      /* interesting or random 64 bit */
static inline uint64_t vf_range(uint64_t lo, uint64_t hi) { return lo + vf_choice(hi - lo + 1); }
static inline uint8_t vf_u8(void) { return (uint8_t)vf_choice(256); }
static inline int vf_bool(void) { return (int)vf_choice(2); }
int vf_enumerating(void);                   /* non-zero in the exhaustive phase */
/* n characters, each drawn from alphabet (NUL-terminated, or nalpha chars) */
void vf_str(char *buf, size_t n, const char *alphabet);
void vf_bytes(void *buf, size_t n);
void vf_fail(const char *file, int line, const char *msg, ...);
void vf_skip(void);                         /* input outside the property's domain */
# define VF_CHECK(c, ...) do { if (!(c)) vf_fail(__FILE__, __LINE__, __VA_ARGS__); } while (0)
# define VF_ASSUME(c) do { if (!(c)) vf_skip(); } while (0)
typedef struct { const char *name; void (*fn)(void); int enumerate; } VfBody;
extern VfBody vf_bodies[];                  /* terminated by a NULL name */
/* exact-size heap buffers: ASan sees one byte too many or too few */
void *vf_alloc(size_t n);                   /* freed after the iteration */
char *vf_dup(const char *s, size_t n);      /* n bytes + NUL, exact */
#endif
#endif
