// Environment of the code under test: SysV IPC, files, clock, processes. The same source runs inside
// the symbolic executor (as fx_X for every undefined X) and in the native replay (symbols redefined).
#pragma once
#include "sym.h"
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
// ---- files
void env_put_file(const char *name, const void *data, size_t n);       // create (natively also on disk, in the scratch directory)
long env_get_file(const char *name, void *buf, size_t cap);            // content as written, -1 if absent
int env_file_count(void); int env_open_fds(void);                                             // files that exist in memory
void env_mkdir(const char *name);
FILE *env_mem_file(const void *data, size_t n);                       // FILE on bytes, positioned at the start; writes append
long env_mem_content(FILE *f, void *buf, size_t cap);                 // all bytes written/held
void env_set(const char *name, const char *value);                    // getenv
// ---- faults: kinds in env_faults may fail, at most env_fault_budget times
enum { F_MKSTEMP = 1, F_WRITE = 2, F_CLOSE = 4, F_MSGSND = 8, F_OPEN = 16, F_READ = 32, F_STAT = 64, F_UNLINK = 128, F_MSGGET = 256, F_SEMOP = 512, F_NANOSLEEP = 1024, F_SHORTWRITE = 2048, F_MSGRCV = 4096, F_FOPEN = 8192 };
extern unsigned env_faults; extern int env_fault_budget; extern int env_fault_hit;
// ---- message queues
struct env_msg { long mtype; size_t n; char *d; struct env_msg *next; };
extern int env_queue_cap;                                             // messages per queue
int env_q_len(int id); int env_q_exists(int id);
struct env_msg *env_q_at(int id, int i);                              // i-th queued message
void env_q_push(int id, long mtype, const void *d, size_t n);         // d: bytes after mtype
void env_q_clear(int id);
int env_q_created(void);                                              // queues ever created
extern int (*env_on_empty)(int id, long typ);                         // 1: message added, retry; <0: -errno; 0: would block for ever -> path ends
extern void (*env_on_rcv)(int id, long typ);                          // called before each receive
extern int (*env_on_full)(int id);                                    // same, for blocking send
extern int (*env_on_msgsnd)(int id, const void *p, size_t n, int flg); // called before each send: 0 normal, <0 -errno
extern int env_snd_blocking, env_snd_calls, env_rcv_calls;
// ---- semaphores
extern int env_lock_depth, env_lock_ops;                              // semaphores currently held
extern void (*env_on_lock)(int id); extern void (*env_on_unlock)(int id);
// ---- processes, clock
extern int env_pid; extern long env_now_ns; extern long env_slept_ns;
extern int (*env_on_kill)(int pid, int sig); extern void (*env_on_exit)(int code); extern void (*env_on_clock)(void); extern void (*env_on_sleep)(void);
extern int (*env_on_fork)(void); extern void (*env_on_exec)(const char *file, char *const *argv); extern int (*env_on_wait)(int pid, int *status, int options); extern int (*env_on_system)(const char *cmd);
// ---- threads of the process (std::thread): run one at a time, switched where they wait and, up to env_preempt times, at any lock or IPC call
extern int env_preempt; void env_yield(int free); int env_threads(void); int env_thread(void); int env_waiting_threads(void); int env_thread_waits(int i); int env_thread_done(int i);
extern int env_foreign_rm;                                            // removals of IPC objects that are nobody's of this system (id 0)
int env_sem_exists(int id); int env_shm_exists(int id); int env_sems_created(void); int env_shms_created(void);
extern void (*env_on_call)(const char *name);                         // before every IPC call (to end the process there)
void env_process_died(void);                                          // locks held are given back (SEM_UNDO)
extern int env_rand; extern int fx_fmt_exact; // 1: printf formats symbolic numbers digit by digit (forks), else they print as 0
void *env_shm_ptr(int i); size_t env_shm_size(int i);
int *fx_errno(void);
#ifdef __cplusplus
}
#endif
