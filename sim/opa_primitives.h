/* The few operations of OpenPA that OSHMPI uses (src/openpa is an empty submodule here).  The threads of a simulated PE
 * change at scheduling points only, so plain accesses are atomic; each is a scheduling point of its own. */
#ifndef OPA_PRIMITIVES_H
#define OPA_PRIMITIVES_H
void sim_point_threads(const char *);
typedef struct { volatile int v; } OPA_int_t;
static inline int OPA_load_int(const OPA_int_t *p) { sim_point_threads("load"); return p->v; }
static inline void OPA_store_int(OPA_int_t *p, int v) { sim_point_threads("store"); p->v = v; }
static inline int OPA_cas_int(OPA_int_t *p, int o, int n) { sim_point_threads("cas"); int x = p->v; if (x == o) p->v = n; return x; }
static inline void OPA_incr_int(OPA_int_t *p) { sim_point_threads("incr"); p->v++; }
static inline void OPA_decr_int(OPA_int_t *p) { sim_point_threads("decr"); p->v--; }
static inline int OPA_fetch_and_incr_int(OPA_int_t *p) { sim_point_threads("finc"); return p->v++; }
#endif
