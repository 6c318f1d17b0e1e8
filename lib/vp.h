/*
 * Harness interface. The same text is executed symbolically (VP_VSE: our IR-level
 * executor; VP_CBMC: CBMC) and natively, when a counterexample or a sampled path is
 * replayed against the compiled code.
 */
#ifndef VP_H
#define VP_H

#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

/* Symbolic inputs. In a replay they are read back, in order, from a file. */
uint64_t vp_u64(void);
uint64_t vp_range(uint64_t lo, uint64_t hi);  /* any value of lo..hi, both included */
uint64_t vp_choose(uint64_t lo, uint64_t hi); /* the same, but the path splits over every value */
uint64_t vp_conc(uint64_t v);                 /* splits the path over the values v can take */
bool vp_bool(void);
int vp_int(int lo, int hi);
void vp_observe(uint64_t v); /* compared between the symbolic execution and the replay of a sampled path */

#if defined(VP_VSE)
  void __vse_assume(int c);
  void __vse_assert(int c, const char *msg);
  void __vse_end(void);
  #define VP_ASSERT(c, msg) __vse_assert(!!(c), msg)
  #define VP_ASSUME(c) __vse_assume(!!(c))
  #define VP_END() __vse_end()
#elif defined(VP_CBMC)
  #ifdef VP_WITNESS
    #define VP_ASSERT(c, msg) ((void)(c))
    #define VP_END() __CPROVER_assert(0, "vp-witness: end of the harness reached")
  #else
    #define VP_ASSERT(c, msg) __CPROVER_assert((c), "vp: " msg)
    #define VP_END() ((void)0)
  #endif
  #define VP_ASSUME(c) __CPROVER_assume(c)
#else
  void vp_native_assert(int c, const char *msg, const char *file, int line);
  void vp_native_assume(int c);
  void vp_native_end(void);
  #define VP_ASSERT(c, msg) vp_native_assert(!!(c), msg, __FILE__, __LINE__)
  #define VP_ASSUME(c) vp_native_assume(!!(c))
  #define VP_END() vp_native_end()
#endif

/* Makes memory inaccessible (on) or accessible again (off). Not available to CBMC. */
void vp_guard(void *p, size_t n, bool on);

/* Cooperative threads; the schedule is a symbolic input. Not available to CBMC. */
int vp_spawn(void (*fn)(void *), void *arg);
void vp_yield(void);
void vp_wait(int *flag); /* blocks until *flag is not 0 */
int vp_self(void);

/*
 * What the code under test has spent (jobs with "measure"): vp_work counts instructions and copied words (in a
 * replay: branches and copied words), vp_depth is how deep the stack has been since the last question, in frames
 * (in a replay: in units of 64 bytes).
 */
uint64_t vp_work(void);
uint64_t vp_depth(void);

/* Environment state (vp_env.c). */
extern long vp_live;             /* heap blocks handed out and not yet released */
extern size_t vp_bytes;         /* the sum of the sizes requested for them */
extern unsigned long vp_nalloc;  /* allocation requests so far */
extern bool vp_abort_ok;         /* may the code under test end the process now? */
extern bool vp_may_fail;         /* may an allocation request fail now? */
extern bool vp_failed;           /* an allocation request has failed */

#endif
