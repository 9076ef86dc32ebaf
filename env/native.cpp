// Native side of sym.h: runs one path of a harness on the real compiled code with the inputs the solver found.
// usage: prog CASE INPUTFILE   (lines "name<TAB>hex")
#include "env.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <exception>
extern "C" { int fx_fmt_exact; }
static int case_; static size_t pos; static std::vector<std::pair<std::string, std::string>> in;
static void out(int code) { fflush(stdout); _exit(code); }
extern "C" {
void sym_bytes(void *p, size_t n, const char *name) {
  if (pos >= in.size()) { printf("DESYNC inputs exhausted at %s\n", name); out(77); }
  if (in[pos].first.substr(0, in[pos].first.find('#')) != name || in[pos].second.size() != n) { printf("DESYNC want %s/%zu have %s/%zu\n", name, n, in[pos].first.c_str(), in[pos].second.size()); out(78); }
  memcpy(p, in[pos++].second.data(), n);
}
void sym_assume(int c) { if (!c) { printf("ASSUMPTION FALSE\n"); out(79); } }
void sym_check(int c, const char *m) { if (!c) { printf("CHECK FAILED: %s\n", m); out(66); } }
void sym_fail(const char *m) { printf("CHECK FAILED: %s\n", m); out(66); __builtin_unreachable(); }
void sym_observe(const char *n, const void *p, size_t k) { printf("OBS %s\t", n); for (size_t i = 0; i < k; i++) printf("%02x", ((const unsigned char *)p)[i]); printf("\n"); }
int sym_case(void) { return case_; }
void sym_reach(const char *) {}
uint64_t sym_concrete(uint64_t v) { return v; }
int sym_engine(void) { return 0; }
void sym_tag(const char *) {}
void sym_end(void) { out(0); __builtin_unreachable(); }
void sym_log(const char *s, uint64_t v) { printf("LOG %s %lu\n", s, v); }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sym_is_symbolic(uint64_t) { return 0; }
}
#include <pthread.h>
#include <semaphore.h>
static thread_local int own_; static sem_t sem_[16]; static int nthr_ = 1; struct start_ { void (*f)(void *); void *a; int id; };
static void *run_(void *p) { start_ s = *(start_ *)p; own_ = s.id; sem_wait(&sem_[s.id]); s.f(s.a); return nullptr; }
extern "C" int sym_thread_new(void (*f)(void *), void *a) { if (nthr_ == 1) sem_init(&sem_[0], 0, 0); int id = nthr_++; sem_init(&sem_[id], 0, 0); pthread_t t; pthread_create(&t, nullptr, run_, new start_{f, a, id}); return id; }
extern "C" void sym_thread_switch(int id) { if (id == own_) return; int me = own_; sem_post(&sem_[id]); while (sem_wait(&sem_[me])) ; }
int main(int argc, char **argv) {
  case_ = atoi(argv[1]); FILE *f = fopen(argv[2], "r"); if (!f) return 80;
  char *line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    if (line[n - 1] == '\n') line[--n] = 0;
    char *t = strchr(line, '\t'); if (!t) continue; std::string h(t + 1), v; for (size_t i = 0; i + 1 < h.size(); i += 2) v += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
    in.push_back({std::string(line, t - line), v});
  }
  fclose(f);
  try { harness_main(); } catch (const std::exception &e) { printf("UNCAUGHT %s\n", e.what()); out(67); } catch (...) { printf("UNCAUGHT\n"); out(67); }
  out(0);
}
