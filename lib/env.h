#ifndef VF_ENV_H
#define VF_ENV_H
extern unsigned vf_live, vf_allocs, vf_failed, vf_frees;
extern int vf_oom;
extern unsigned vf_fail_at;
extern int vf_nocalloc;
#endif
extern unsigned vf_switches;
void vf_interfere(void);   /* supplied by the harness: one operation of the other thread */
void vf_sched(void);       /* a point where the other thread may run */
