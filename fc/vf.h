/* Vocabulary of the harnesses. */
#ifndef VF_H
#define VF_H
#include "__fc_builtin.h"
#include "argtable3.h"
#include "argtable3_private.h"

/* VF(id, cond, "text"): obligation of property <id>.  A state in which cond
 * may be false makes the call below reachable; the driver turns that into a
 * violation of <id>. */
#define VF(id, cond, text) do { if (!(cond)) Frama_C_show_each_VFFAIL(id, text, vf_cid); } while (0)
/* bracket the analysed behaviour: one abstract state per input class goes in,
 * and at least as many must come out */
extern int vf_cid;               /* number of the input class, set by the scenario */
#define VF_BEGIN() Frama_C_show_each_VFBEGIN(vf_cid)
#define VF_END() Frama_C_show_each_VFEND(vf_cid)
void Frama_C_show_each_VFFAIL(const char *id, const char *text, int cls);
void Frama_C_show_each_VFBEGIN(int cls);
void Frama_C_show_each_VFEND(int cls);
/* a scenario declared with shards=N is analysed N times, each time for the
 * choices v with v % N == shard */
extern int vf_shard, vf_nshards;
#define VF_SHARD(v) do { if ((v) % vf_nshards != vf_shard) vf_stop(); } while (0)
/*@ assigns \nothing; ensures \false; */
void vf_stop(void);

int vf_nd(void);                 /* any int, one abstract value          */
#define vf_choose(lo, hi) Frama_C_interval_split((lo), (hi)) /* lo..hi, one abstract state per value */
int vf_range(int lo, int hi);    /* lo..hi, one abstract state for all   */
char vf_anychar(void);           /* any non-NUL char                     */

/* allocation bookkeeping (ghost) */
extern long vf_live;        /* blocks allocated and not released */
extern long vf_allocs;      /* allocation requests so far        */
extern long vf_fail_at;     /* request number that fails, 0 = none */
extern size_t vf_abs_base, vf_abs_size;
extern int vf_failed;       /* a request was refused             */
extern int vf_panicked;
/* process effects (ghost) */
extern int vf_printed;      /* characters written to stdio without fputs/fwrite request */
extern int vf_exited;       /* exit/abort reached */
extern int vf_allow_exit;
extern char vf_out[4096];   /* what fputs & co. wrote */
extern unsigned vf_outlen;
extern FILE *vf_fp;        /* the caller's stream */
/* setjmp model: 0 = only the direct return, 1 = only the error return, 2 = both */
extern int vf_setjmp_mode;
extern int vf_longjmps_allowed;
/* strtol mode 1: any digits stand for every value of lo..hi */
extern int vf_strftime_mode;
extern int vf_strtol_mode, vf_strtol_used;
extern long vf_strtol_lo, vf_strtol_hi;
extern int vf_env_posix;    /* POSIXLY_CORRECT set? */
#endif
