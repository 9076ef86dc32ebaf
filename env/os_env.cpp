#include <limits.h>
#include "env.h"
#include <errno.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/ipc.h>
#include <sys/msg.h>
#include <sys/sem.h>
#include <sys/time.h>
#include <stdarg.h>
#include <time.h>
#include <fcntl.h>
#include <chrono>
#include <thread>
#ifdef NATIVE
#include <string>
#include <unistd.h>
#endif
extern "C" {
#ifdef NATIVE
int *fx_errno(void) { return &errno; }
#else
static int errno_;
int *fx_errno(void) { return &errno_; }
#endif
void (*env_on_call)(const char *); static void call(const char *n) { if (env_on_call) env_on_call(n); } int env_foreign_rm;
static int err(int e) { *fx_errno() = e; return -1; }
unsigned env_faults; int env_fault_budget, env_fault_hit;
static int fault(unsigned k, const char *name) {
  if (!(env_faults & k) || env_fault_budget <= 0) return 0;
  if (sym_bool(name)) { env_fault_budget--; env_fault_hit++; return 1; }
  return 0;
}
// ------------------------------------------------------------------ files
struct fxfile { char name[64]; char *d; size_t n, cap; int used, dir; };
static fxfile files[32];
static const char *nodot(const char *n) { while (n[0] == '.' && n[1] == '/') { n += 2; while (*n == '/') n++; } return n; }
static fxfile *ffind(const char *n) { n = nodot(n); for (auto &f : files) if (f.used && !strcmp(nodot(f.name), n)) return &f; return nullptr; }
static fxfile *fnew(const char *n) { for (auto &f : files) if (!f.used) { if (strlen(n) >= sizeof f.name) return nullptr; f.used = 1; f.dir = 0; strcpy(f.name, n); f.d = nullptr; f.n = f.cap = 0; return &f; } return nullptr; }
static void fwr(fxfile *f, size_t at, const void *p, size_t n) {
  if (at + n > f->cap) { size_t c = (at + n) * 2 + 64; char *d = (char *)malloc(c); if (f->n) memcpy(d, f->d, f->n); free(f->d); f->d = d; f->cap = c; }
  if (n) memcpy(f->d + at, p, n);
  if (at + n > f->n) f->n = at + n;
}
void env_put_file(const char *name, const void *data, size_t n) {
  fxfile *f = ffind(name); if (!f) f = fnew(name); f->n = 0; fwr(f, 0, data, n);
#ifdef NATIVE
  if (name[0] != '/') { for (const char *p = strchr(name, '/'); p; p = strchr(p + 1, '/')) mkdir(std::string(name, p - name).c_str(), 0700); FILE *o = fopen(name, "wb"); if (o) { fwrite(data, 1, n, o); fclose(o); } }
#endif
}
void env_mkdir(const char *name) { fxfile *f = fnew(name); f->dir = 1;
#ifdef NATIVE
  if (name[0] != '/') mkdir(name, 0700);
#endif
}
long env_get_file(const char *name, void *buf, size_t cap) {
#ifdef NATIVE
  if (name[0] != '/') { FILE *i = fopen(name, "rb"); if (!i) return -1; long r = fread(buf, 1, cap, i); fclose(i); return r; }
#endif
  fxfile *f = ffind(name); if (!f) return -1; size_t n = f->n < cap ? f->n : cap; memcpy(buf, f->d, n); return f->n;
}
int env_file_count(void) { int n = 0; for (auto &f : files) n += f.used && !f.dir; return n; }
int fx_fs_exists(const char *n) { return ffind(n) != nullptr; }
int fx_fs_isdir(const char *n) { fxfile *f = ffind(n); return f && f->dir; }
long fx_fs_size(const char *n) { fxfile *f = ffind(n); return f && !f->dir ? (long)f->n : -1; }
// open handles: descriptors and FILEs
struct fxh { fxfile *f; fxfile anon; size_t pos; int used, append; };
static fxh hs[16];
static fxh *hnew() { for (auto &h : hs) if (!h.used) { memset(&h, 0, sizeof h); h.used = 1; return &h; } return nullptr; }
void *fx_io_open(const char *name, const char *mode) {
  if (fault(F_FOPEN, "fault fopen")) { err(EACCES); return nullptr; }
  if (!strncmp(name, "/dev/null/", 10)) { err(ENOTDIR); return nullptr; }
  fxfile *f = ffind(name); if (f && f->dir) { err(EISDIR); return nullptr; }
  if (!f) { if (mode[0] == 'r') { err(ENOENT); return nullptr; } f = fnew(name); if (!f) { err(ENOSPC); return nullptr; } }
  else if (mode[0] == 'w') f->n = 0;
  fxh *h = hnew(); if (!h) { err(EMFILE); return nullptr; } h->f = f; h->append = mode[0] == 'a'; return h;
}
int fx_io_close(void *v) { ((fxh *)v)->used = 0; return 0; }
size_t fx_io_read(void *v, void *p, size_t n) { fxh *h = (fxh *)v; size_t k = h->pos < h->f->n ? h->f->n - h->pos : 0; if (k > n) k = n; if (k) memcpy(p, h->f->d + h->pos, k); h->pos += k; return k; }
int fx_io_getc(void *v) { fxh *h = (fxh *)v; if (h->pos >= h->f->n) return -1; return (unsigned char)h->f->d[h->pos++]; }
size_t fx_io_write(void *v, const void *p, size_t n) { fxh *h = (fxh *)v; if (h->append) h->pos = h->f->n; fwr(h->f, h->pos, p, n); h->pos += n; return n; }
size_t fx_io_size(void *v) { return ((fxh *)v)->f->n; }
#ifdef NATIVE
FILE *env_mem_file(const void *data, size_t n) { FILE *f = fopen("memfile", "w+b"); unlink("memfile"); if (n) fwrite(data, 1, n, f); rewind(f); return f; }
long env_mem_content(FILE *f, void *buf, size_t cap) { fflush(f); rewind(f); return fread(buf, 1, cap, f); }
#else
FILE *env_mem_file(const void *data, size_t n) { fxh *h = hnew(); h->f = &h->anon; fwr(h->f, 0, data, n); h->pos = 0; return (FILE *)h; }
long env_mem_content(FILE *f, void *buf, size_t cap) { fxh *h = (fxh *)f; size_t n = h->f->n < cap ? h->f->n : cap; if (n) memcpy(buf, h->f->d, n); h->pos = h->f->n; return n; }
#endif
static int tmpseq;
int fx_mkstemp(char *t) {
  if (fault(F_MKSTEMP, "fault mkstemp")) return err(EMFILE);
  size_t n = strlen(t); sym_check(n >= 6 && !strcmp(t + n - 6, "XXXXXX"), "mkstemp template");
  for (int i = 0; i < 6; i++) t[n - 6 + i] = 'a'; t[n - 1] = 'a' + tmpseq++ % 26; t[n - 2] = 'a' + tmpseq / 26;
  fxfile *f = fnew(t); fxh *h = hnew(); if (!f || !h) return err(EMFILE); h->f = f; return 100 + (int)(h - hs);
}
int fx_open(const char *name, int fl, ...) {
  if (fault(F_OPEN, "fault open")) return err(EMFILE);
  fxfile *f = ffind(name); if (!f) { if (!(fl & O_CREAT)) return err(ENOENT); f = fnew(name); if (!f) return err(ENOSPC); } else if ((fl & O_CREAT) && (fl & O_EXCL)) return err(EEXIST);
  if (fl & O_TRUNC) f->n = 0;
  fxh *h = hnew(); if (!h) return err(EMFILE); h->f = f; h->append = !!(fl & O_APPEND); return 100 + (int)(h - hs);
}
static fxh *hfd(int fd) { return fd >= 100 && fd < 116 && hs[fd - 100].used ? &hs[fd - 100] : nullptr; }
ssize_t fx_write(int fd, const void *p, size_t n) {
  if (fd == 1 || fd == 2) return n;
  fxh *h = hfd(fd); if (!h) return err(EBADF);
  if (fault(F_WRITE, "fault write")) return err(ENOSPC);
  if (fault(F_SHORTWRITE, "fault short write")) n = n / 2;
  fx_io_write(h, p, n); return n;
}
ssize_t fx_read(int fd, void *p, size_t n) { fxh *h = hfd(fd); if (!h) return err(EBADF); if (fault(F_READ, "fault read")) return err(EIO); return fx_io_read(h, p, n); }
int fx_close(int fd) { fxh *h = hfd(fd); if (!h) return err(EBADF); h->used = 0; if (fault(F_CLOSE, "fault close")) return err(EIO); return 0; }
int fx_unlink(const char *name) { if (fault(F_UNLINK, "fault unlink")) return err(EPERM); fxfile *f = ffind(name); if (!f) return err(ENOENT); f->used = 0;
#ifdef NATIVE
  if (name[0] != '/') unlink(name);
#endif
  return 0; }
int fx_rename(const char *a, const char *b) { fxfile *f = ffind(a); if (!f || strlen(b) >= sizeof f->name) return err(ENOENT); fxfile *o = ffind(b); if (o && o != f) o->used = 0; strcpy(f->name, b);
#ifdef NATIVE
  if (a[0] != '/' && b[0] != '/') { FILE *i = fopen(a, "rb"), *w = i ? fopen(b, "wb") : nullptr; int c; while (w && (c = fgetc(i)) != EOF) fputc(c, w); if (w) fclose(w); if (i) fclose(i); }
#endif
  return 0; }
FILE *fx_fdopen(int fd, const char *) { fxh *h = hfd(fd); if (!h) { err(EBADF); return nullptr; }
#ifdef NATIVE
  return fopen(h->f->name, "wb");
#else
  return (FILE *)h;
#endif
}
int fx_remove(const char *name) { return fx_unlink(name); }
int fx_access(const char *name, int) { return ffind(name) ? 0 : err(ENOENT); }
int fx_stat(const char *name, struct stat *st) { if (fault(F_STAT, "fault stat")) return err(EACCES); fxfile *f = ffind(name); if (!f) return err(ENOENT); memset(st, 0, sizeof *st); st->st_size = f->n; st->st_mode = f->dir ? S_IFDIR | 0700 : S_IFREG | 0600; return 0; }
int fx_fstat(int fd, struct stat *st) { fxh *h = hfd(fd); if (!h) return err(EBADF); memset(st, 0, sizeof *st); st->st_size = h->f->n; st->st_mode = S_IFREG | 0600; return 0; }
int env_open_fds(void) { int n = 0; for (auto &h : hs) n += h.used; return n; }
// ------------------------------------------------------------------ environment variables
static struct { const char *n, *v; } envs[24]; static int nenv;
void env_set(const char *n, const char *v) { for (int i = 0; i < nenv; i++) if (!strcmp(envs[i].n, n)) { envs[i].v = v; return; } envs[nenv].n = n; envs[nenv++].v = v; }
char *fx_getenv(const char *n) { for (int i = 0; i < nenv; i++) if (!strcmp(envs[i].n, n)) return (char *)envs[i].v; return nullptr; }
int fx_setenv(const char *n, const char *v, int) { env_set(strdup(n), strdup(v)); return 0; }
// ------------------------------------------------------------------ threads of the process: one runs at a time, switched at system calls and locks
static struct { int done; int *mutex; int sem, join, rcv; void *state; } T[8] = {{0, nullptr, -1, -1, -1, nullptr}}; static int nT = 1, cT; int env_preempt; static int sem_v(int id);
static int ready(int i) { return !T[i].done && !(T[i].mutex && *T[i].mutex) && !(T[i].sem >= 0 && sem_v(T[i].sem) <= 0) && !(T[i].join >= 0 && !T[T[i].join].done); }
static int any_rcv; static int can(int i) { return i != cT && ready(i) && (any_rcv || T[i].rcv < 0 || env_q_len(T[i].rcv) != 0); } // one that waits for a message is the last choice
static int others_ready(void) { int n = 0; for (int i = 0; i < nT; i++) n += can(i); return n; }
static int switch_to(int k) { for (int i = 0; i < nT; i++) if (can(i) && k-- == 0) { any_rcv = 0; cT = i; sym_thread_switch(i); return 1; } return 0; }
static void blocked(void) { any_rcv = 0; int n = others_ready(); if (!n) { any_rcv = 1; n = others_ready(); } if (!n) sym_fail(nT > 1 ? "no thread can go on" : "waits for ever for a lock this thread already holds"); int me = cT; switch_to(n > 1 ? sym_pick("next thread", 0, n - 1) : 0); cT = me; }
static int may_switch(int free) { int n; if (nT == 1 || (!free && env_preempt <= 0) || !(n = others_ready())) return 0; int k = sym_pick("thread", 0, n); if (!k) return 0; if (!free) env_preempt--; int me = cT; switch_to(k - 1); cT = me; return 1; }
void env_yield(int free) { may_switch(free); } int env_thread_waits(int i) { return i != cT && !T[i].done && (T[i].mutex || T[i].sem >= 0) && !ready(i); } int env_thread_done(int i) { return T[i].done; }
int env_threads(void) { return nT; } int env_thread(void) { return cT; }
int env_waiting_threads(void) { int n = 0; for (int i = 0; i < nT; i++) n += i != cT && !T[i].done && (T[i].mutex || T[i].sem >= 0) && !ready(i); return n; }
int fx_pthread_mutex_lock(int *m) { may_switch(0); if (*m == cT + 1) sym_fail("mutex locked twice by the same thread"); while (*m) { T[cT].mutex = m; blocked(); T[cT].mutex = nullptr; } *m = cT + 1; return 0; }
int fx_pthread_mutex_unlock(int *m) { if (*m != cT + 1) sym_fail("mutex unlocked that this thread does not hold"); *m = 0; may_switch(0); return 0; }
int fx_pthread_mutex_trylock(int *m) { may_switch(0); if (*m) return EBUSY; *m = cT + 1; return 0; }
int fx_pthread_rwlock_wrlock(int *m) { may_switch(0); if (nT == 1 && *m) sym_fail("rwlock locked twice by the same thread"); while (*m) { T[cT].mutex = m; blocked(); T[cT].mutex = nullptr; } *m = 1; return 0; }
int fx_pthread_rwlock_rdlock(int *m) { may_switch(0); if (nT == 1 && *m == 1) sym_fail("rwlock locked twice by the same thread"); while (*m == 1) { T[cT].mutex = m; blocked(); T[cT].mutex = nullptr; } *m -= 1; return 0; }
int fx_pthread_rwlock_unlock(int *m) { if (!*m) sym_fail("rwlock unlocked that is not locked"); if (*m == 1) *m = 0; else *m += 1; may_switch(0); return 0; }
}
static void thread_entry(void *p) { std::thread t; memcpy((void *)&t, &p, sizeof p); t.join(); T[cT].done = 1; blocked(); }
namespace std {
__attribute__((weak)) void thread::_M_start_thread(_State_ptr s, void (*)()) { if (nT >= 8) sym_fail("more threads than the model has"); int i = nT++; T[i].mutex = nullptr; T[i].sem = T[i].join = T[i].rcv = -1; T[i].state = s.release(); sym_thread_new(thread_entry, T[i].state); _M_id = id(i); may_switch(0); }
__attribute__((weak)) void thread::detach() { _M_id = id(); }
__attribute__((weak)) void thread::join() { uint64_t h = *(uint64_t *)&_M_id; if (h > 8) { ((_State *)h)->_M_run(); _M_id = id(); return; } while (!T[h].done) { T[cT].join = h; blocked(); T[cT].join = -1; } _M_id = id(); } // a state in place of a number: run it
}
extern "C" {
// ------------------------------------------------------------------ message queues
struct fxq { int used; env_msg *first; int len; };
static fxq qs[24]; static int nq; int env_queue_cap = 1000;
int (*env_on_empty)(int, long); void (*env_on_rcv)(int, long); int (*env_on_full)(int); int (*env_on_msgsnd)(int, const void *, size_t, int); int env_snd_blocking, env_snd_calls, env_rcv_calls;
static fxq *qget(int id) { int i = id - 1000; return i >= 0 && i < nq && qs[i].used ? &qs[i] : nullptr; }
int fx_msgget(key_t, int) { call("msgget"); if (fault(F_MSGGET, "fault msgget")) return err(ENOSPC); if (nq >= 24) return err(ENOSPC); qs[nq].used = 1; return 1000 + nq++; }
int env_q_created(void) { return nq; }
int env_q_exists(int id) { return qget(id) != nullptr; }
int env_q_len(int id) { fxq *q = qget(id); return q ? q->len : -1; }
env_msg *env_q_at(int id, int i) { fxq *q = qget(id); if (!q) return nullptr; env_msg *m = q->first; while (m && i--) m = m->next; return m; }
void env_q_push(int id, long t, const void *d, size_t n) { fxq *q = qget(id); if (!q) return; env_msg *m = (env_msg *)malloc(sizeof *m); m->mtype = t; m->n = n; m->d = (char *)malloc(n ? n : 1); if (n) memcpy(m->d, d, n); m->next = nullptr; env_msg **p = &q->first; while (*p) p = &(*p)->next; *p = m; q->len++; }
void env_q_clear(int id) { fxq *q = qget(id); if (q) { q->first = nullptr; q->len = 0; } }
int fx_msgsnd(int id, const void *p, size_t n, int fl) {
  may_switch(0); call("msgsnd"); env_snd_calls++; if (!(fl & IPC_NOWAIT)) env_snd_blocking++;
  if (env_on_msgsnd) { int r = env_on_msgsnd(id, p, n, fl); if (r < 0) return err(-r); }
  if (fault(F_MSGSND, "fault msgsnd")) return err(EINTR);
  fxq *q = qget(id); if (!q) return err(EINVAL);
  long t; memcpy(&t, p, sizeof t);
  if (t < 1 || n > 8192) return err(EINVAL);
  while (q->len >= env_queue_cap) {
    if (fl & IPC_NOWAIT) return err(EAGAIN);
    int r = env_on_full ? env_on_full(id) : 0;
    if (r < 0) return err(-r);
    if (r == 0) sym_end();
  }
  env_q_push(id, t, (const char *)p + sizeof(long), n); return 0;
}
ssize_t fx_msgrcv(int id, void *p, size_t n, long typ, int fl) {
  may_switch(0); call("msgrcv"); env_rcv_calls++; if (env_on_rcv) env_on_rcv(id, typ);
  if (fault(F_MSGRCV, "fault msgrcv")) return err(EINTR);
  int offered = nT == 1;
  while (true) {
    fxq *q = qget(id); if (!q) return err(EINVAL);
    env_msg **b = nullptr;
    for (env_msg **m = &q->first; *m; m = &(*m)->next)
      if (typ == 0 || (typ > 0 && ((fl & 020000) ? (*m)->mtype != typ : (*m)->mtype == typ))) { b = m; break; }
      else if (typ < 0 && (*m)->mtype <= (typ == LONG_MIN ? LONG_MAX : -typ) && (!b || (*m)->mtype < (*b)->mtype)) b = m;
    if (b) {
      env_msg *m = *b; size_t k = m->n; if (k > n) { if (!(fl & 010000)) return err(E2BIG); k = n; }
      memcpy(p, &m->mtype, sizeof(long)); if (k) memcpy((char *)p + sizeof(long), m->d, k); *b = m->next; q->len--; free(m->d); free(m); return k; }
    if (fl & IPC_NOWAIT) return err(ENOMSG);
    if (!offered) { offered = 1; T[cT].rcv = id; may_switch(1); T[cT].rcv = -1; continue; }
    offered = 0;
    int r = env_on_empty ? env_on_empty(id, typ) : 0;
    if (r < 0) return err(-r);
    if (r == 0) sym_end();
  }
}
int fx_msgctl(int id, int cmd, struct msqid_ds *ds) { call("msgctl"); if (id == 0 && cmd == IPC_RMID) { env_foreign_rm++; return 0; } fxq *q = qget(id); if (!q) return err(EINVAL); if (cmd == IPC_RMID) q->used = 0; else if (cmd == IPC_STAT && ds) { memset(ds, 0, sizeof *ds); ds->msg_qnum = q->len; } return 0; }
// ------------------------------------------------------------------ semaphores, shared memory
struct fxsem { int used, n, v[4], held[4]; long otime; }; static fxsem sems[8]; static int nsem;
static int sem_v(int i) { return sems[i].v[0]; } int env_lock_depth, env_lock_ops; void (*env_on_lock)(int); void (*env_on_unlock)(int);
int fx_semget(key_t, int n, int fl) { if (nsem >= 8 || n > 4) return err(ENOSPC); fxsem &s = sems[nsem]; s.used = 1; s.n = n; return 2000 + nsem++; }
int fx_semop(int id, struct sembuf *sb, size_t) {
  if (sb->sem_op < 0) may_switch(0); call("semop");
  int i = id - 2000; if (i < 0 || i >= nsem || !sems[i].used) return err(EINVAL);
  if (sb->sem_num >= sems[i].n) return err(EFBIG);
  if (sb->sem_op < 0 && fault(F_SEMOP, "fault semop")) return err(EINTR);
  int &v = sems[i].v[sb->sem_num]; bool init = sems[i].otime == 0; sems[i].otime = 1;
  if (sb->sem_op < 0) {
    if (v < -sb->sem_op) { if (sb->sem_flg & IPC_NOWAIT) return err(EAGAIN); if (nT == 1) sym_fail("waits for ever for a lock this process already holds"); while (v < -sb->sem_op) { T[cT].sem = i; blocked(); T[cT].sem = -1; } }
    v += sb->sem_op; env_lock_depth++; env_lock_ops++; sym_check(sb->sem_flg & SEM_UNDO, "the lock is given back if the process dies (SEM_UNDO)");
    if (env_on_lock) env_on_lock(id);
  } else if (!init) {
    sym_check(env_lock_depth > 0, "lock released that is not held");
    if (env_on_unlock) env_on_unlock(id);
    v += sb->sem_op; env_lock_depth--; may_switch(0);
  } else v += sb->sem_op;
  return 0;
}
int env_sem_exists(int id) { int i = id - 2000; return i >= 0 && i < nsem && sems[i].used; } int env_sems_created(void) { return nsem; }
void env_process_died(void) { for (int i = 0; i < nsem; i++) if (env_lock_depth > 0 && sems[i].v[0] == 0) { sems[i].v[0]++; env_lock_depth--; } }
int fx_semctl(int id, int num, int cmd, ...) { if (id == 0 && cmd == IPC_RMID) { env_foreign_rm++; return 0; } int i = id - 2000; if (i < 0 || i >= nsem || !sems[i].used) return err(EINVAL);
  va_list ap; va_start(ap, cmd);
  if (cmd == IPC_RMID) sems[i].used = 0; else if (cmd == IPC_STAT) { struct semid_ds *b = va_arg(ap, struct semid_ds *); memset(b, 0, sizeof *b); b->sem_otime = sems[i].otime; } else if (cmd == SETVAL) { sems[i].v[num] = va_arg(ap, int); }
  va_end(ap); return cmd == GETVAL ? sems[i].v[num] : 0; }
static struct { int key; size_t n; void *p; int used; } shms[4]; static int nshm;
int fx_shmget(key_t k, size_t n, int fl) { for (int i = 0; i < nshm; i++) if (k && shms[i].used && shms[i].key == k) { if (n > shms[i].n) return err(EINVAL); return 3000 + i; } if (nshm >= 4) return err(ENOSPC); shms[nshm].key = k; shms[nshm].n = n; shms[nshm].used = 1; return 3000 + nshm++; }
void *fx_shmat(int id, const void *, int) { int i = id - 3000; if (i < 0 || i >= nshm) { err(EINVAL); return (void *)-1; } if (!shms[i].p) shms[i].p = calloc(1, shms[i].n); return shms[i].p; }
int fx_shmdt(const void *) { return 0; }
int env_shm_exists(int id) { int i = id - 3000; return i >= 0 && i < nshm && shms[i].used; } int env_shms_created(void) { return nshm; }
int fx_shmctl(int id, int cmd, void *) { if (id == 0 && cmd == IPC_RMID) { env_foreign_rm++; return 0; } int i = id - 3000; if (i < 0 || i >= nshm || !shms[i].used) return err(EINVAL); if (cmd == IPC_RMID) shms[i].used = 0; return 0; }
void *env_shm_ptr(int i) { return i < nshm ? shms[i].p : nullptr; }
size_t env_shm_size(int i) { return i < nshm ? shms[i].n : 0; }
// ------------------------------------------------------------------ processes, clock
int env_pid = 4242; long env_now_ns = 1000000000000L; long env_slept_ns; int env_rand = 12345;
int (*env_on_fork)(void); void (*env_on_exec)(const char *, char *const *); int (*env_on_wait)(int, int *, int); int (*env_on_system)(const char *);
int fx_fork(void) { int r = env_on_fork ? env_on_fork() : -EAGAIN; return r < 0 ? err(-r) : r; }
int fx_execvp(const char *f, char *const *a) { if (env_on_exec) env_on_exec(f, a); return err(ENOENT); }
int fx_waitpid(int p, int *st, int o) { int r = env_on_wait ? env_on_wait(p, st, o) : -ECHILD; return r < 0 ? err(-r) : r; }
int fx_system(const char *c) { return env_on_system ? env_on_system(c) : -1; }
FILE *fx_freopen(const char *, const char *, FILE *f) { return f; }
int (*env_on_kill)(int, int); void (*env_on_exit)(int); void (*env_on_clock)(void); void (*env_on_sleep)(void);
int fx_getpid(void) { return env_pid; }
int fx_kill(int p, int s) { if (env_on_kill) { int r = env_on_kill(p, s); return r < 0 ? err(-r) : 0; } return p == env_pid ? 0 : err(ESRCH); }
void fx_exit(int c) { if (env_on_exit) env_on_exit(c); sym_end(); }
void fx__exit(int c) { fx_exit(c); }
static long now_() { if (env_on_clock) env_on_clock(); return env_now_ns; }
int fx_clock_gettime(clockid_t, struct timespec *t) { long n = now_(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
int fx_gettimeofday(struct timeval *t, void *) { long n = now_(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0; }
time_t fx_time(time_t *t) { time_t r = now_() / 1000000000; if (t) *t = r; return r; }
int fx_nanosleep(const struct timespec *r, struct timespec *) { env_slept_ns += r->tv_sec * 1000000000 + r->tv_nsec; env_now_ns += r->tv_sec * 1000000000 + r->tv_nsec; if (env_on_sleep) env_on_sleep(); if (fault(F_NANOSLEEP, "fault nanosleep")) return err(EINTR); return 0; }
int fx_clock_nanosleep(clockid_t, int, const struct timespec *r, struct timespec *q) { fx_nanosleep(r, q); return 0; }
unsigned fx_sleep(unsigned s) { env_now_ns += s * 1000000000L; env_slept_ns += s * 1000000000L; if (env_on_sleep) env_on_sleep(); return 0; }
int fx_usleep(unsigned u) { env_now_ns += u * 1000L; if (env_on_sleep) env_on_sleep(); return 0; }
int fx_rand(void) { return env_rand; }
void fx_srand(unsigned) {}
int fx_gethostname(char *b, size_t n) { strncpy(b, "fxhost", n); return 0; }
}
long fx_steady_ns() { return now_(); }
#ifndef NATIVE
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(fx_steady_ns())); } system_clock::time_point system_clock::now() noexcept { return time_point(duration(fx_steady_ns())); } } } }
#else
extern "C" long fx__ZNSt6chrono3_V212steady_clock3nowEv() { return fx_steady_ns(); }
extern "C" long fx__ZNSt6chrono3_V212system_clock3nowEv() { return fx_steady_ns(); }
#endif
