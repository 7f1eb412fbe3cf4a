/* Native driver for bodies: exhaustive small-scope phase, seeded random phase,
 * replay of a recorded choice sequence. */
#define _GNU_SOURCE
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include "vf.h"

#define MAXLOG 4096
typedef struct {
  uint64_t n; uint64_t val[MAXLOG]; uint64_t lim[MAXLOG];
  int body; int done; int enumerated; uint64_t iters, distinct, skipped; char msg[2048];
  uint64_t per_body[64];
  int exhausted[64];
} Shared;
static Shared *S;
static enum { REPLAY, RANDOM, ENUM } mode;
static uint64_t rp_val[MAXLOG], rp_n;
static uint64_t rng;
static int rp_enum;                   /* replay of a case of the exhaustive phase */
static jmp_buf skip_jmp;
static void *allocs[8192]; static int nallocs;

static uint64_t rnd(void) {           /* splitmix64 */
  uint64_t z = (rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
int vf_enumerating(void) { return mode == ENUM || (mode == REPLAY && rp_enum); }
uint64_t vf_choice(uint64_t n) {
  uint64_t v;
  if (S->n >= MAXLOG) vf_skip();
  if (mode == REPLAY) v = S->n < rp_n ? rp_val[S->n] : 0;
  else if (mode == ENUM) {
    v = S->n < rp_n ? rp_val[S->n] : 0;
  } else v = rnd();
  if (n) v %= n;
  S->val[S->n] = v; S->lim[S->n] = n; S->n++;
  return v;
}
static const uint64_t interesting[] = {
  0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 126, 127, 128, 129, 200, 254, 255, 256,
  257, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff, 0x10000, 0x10001, 0x7ffffffe, 0x7fffffff,
  0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0x100000000ull, 0x100000001ull,
  0x7ffffffffffffffeull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull,
  0xffffffffffffff80ull, 0xffffffffffff8000ull, 0xffffffff80000000ull,
  0xfffffffffffffffeull, 0xffffffffffffffffull };
#define NINT (sizeof(interesting)/sizeof(interesting[0]))
uint64_t vf_u64(void) {
  uint64_t k = vf_choice(vf_enumerating() ? 1 : 3);
  if (k == 0) return interesting[vf_choice(NINT)];
  if (k == 1) { uint64_t v = vf_choice(0); return v >> vf_choice(64); }
  return (1ull << vf_choice(64)) + vf_choice(5) - 2;
}
void vf_str(char *buf, size_t n, const char *alphabet) {
  size_t i, m = strlen(alphabet);
  for (i = 0; i < n; i++) buf[i] = alphabet[vf_choice(m)];
  buf[n] = 0;
}
void vf_bytes(void *buf, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = vf_u8(); }
void vf_fail(const char *file, int line, const char *msg, ...) {
  va_list ap; char b[1500];
  va_start(ap, msg); vsnprintf(b, sizeof(b), msg, ap); va_end(ap);
  const char *f = strrchr(file, '/');
  snprintf(S->msg, sizeof(S->msg), "%s:%d: %s", f ? f+1 : file, line, b);
  _exit(77);
}
void vf_skip(void) { longjmp(skip_jmp, 1); }
void *vf_alloc(size_t n) {
  if (nallocs >= 8192) vf_skip();
  void *p = malloc(n ? n : 1); if (!p) vf_skip();
  memset(p, 0xA5, n ? n : 1);
  return allocs[nallocs++] = p;
}
char *vf_dup(const char *s, size_t n) { char *p = vf_alloc(n+1); memcpy(p, s, n); p[n] = 0; return p; }
static void run_one(int b) {
  S->n = 0; S->body = b; S->msg[0] = 0; S->enumerated = vf_enumerating();
  alarm(30);
  if (setjmp(skip_jmp) == 0) vf_bodies[b].fn(); else S->skipped++;
  alarm(0);
  while (nallocs) free(allocs[--nallocs]);
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
static int nbodies(void) { int n = 0; while (vf_bodies[n].name) n++; return n; }

static uint8_t *seen; /* 2^22-bit bloom for distinct choice logs */
static void note_distinct(void) {
  uint64_t h = 1469598103934665603ull ^ (uint64_t)S->body;
  for (uint64_t i = 0; i < S->n; i++) { h ^= S->val[i]; h *= 1099511628211ull; h ^= h >> 29; }
  h &= (1u<<25)-1;
  if (!(seen[h>>3] & (1<<(h&7)))) { seen[h>>3] |= 1<<(h&7); S->distinct++; }
}
static void worker(uint64_t seed, double secs, double enumfrac, const char *only) {
  int nb = nbodies(), b, active = 0;
  seen = calloc(1, 1<<22);
  for (b = 0; b < nb; b++) if (!only || !strcmp(only, vf_bodies[b].name)) active++;
  double t0 = now(), eb = secs * enumfrac;
  int nenum = 0;
  for (b = 0; b < nb; b++) if (vf_bodies[b].enumerate && (!only || !strcmp(only, vf_bodies[b].name))) nenum++;
  mode = ENUM;
  for (b = 0; b < nb; b++) {
    if (!vf_bodies[b].enumerate || (only && strcmp(only, vf_bodies[b].name))) continue;
    double tb = now(); rp_n = 0;
    for (;;) {
      run_one(b); S->iters++; S->per_body[b]++; note_distinct();
      /* odometer */
      int64_t i = (int64_t)S->n - 1;
      while (i >= 0 && (S->lim[i] == 0 || S->val[i] + 1 >= S->lim[i])) i--;
      if (i < 0) { S->exhausted[b] = 1; break; }
      memcpy(rp_val, S->val, (i+1)*sizeof(uint64_t)); rp_val[i]++; rp_n = i+1;
      if ((S->per_body[b] & 63) == 0 && now() - tb > eb / nenum) break;
    }
  }
  mode = RANDOM;
  double t1 = now();
  secs -= (t1 - t0);
  if (secs < 0.3*eb) secs = 0.3*eb;
  for (b = 0; b < nb; b++) {
    if (only && strcmp(only, vf_bodies[b].name)) continue;
    double tb = now(); uint64_t k = 0;
    rng = seed * 0x9e3779b97f4a7c15ull + b;
    while (1) {
      run_one(b); S->iters++; S->per_body[b]++; k++; note_distinct();
      if ((k & 15) == 0 && now() - tb > secs / active) break;
    }
  }
  S->done = 1;
  _exit(0);
}
static int child(void (*fn)(void *), void *arg, const char *errfile) {
  pid_t p = fork();
  if (p == 0) {
    int fd = open(errfile ? errfile : "/dev/null", O_WRONLY|O_CREAT|O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    fn(arg); _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  return st;
}
struct warg { uint64_t seed; double secs, enumfrac; const char *only; };
static void do_worker(void *a) { struct warg *w = a; worker(w->seed, w->secs, w->enumfrac, w->only); }
static void do_replay(void *a) { mode = REPLAY; run_one(*(int *)a); S->done = 1; }

static void describe(int st, char *out, size_t n) {
  if (WIFSIGNALED(st)) snprintf(out, n, "%s", WTERMSIG(st) == SIGALRM ? "did not terminate (30 s)" : strsignal(WTERMSIG(st)));
  else if (WEXITSTATUS(st) == 77) snprintf(out, n, "property check failed: %s", S->msg);
  else snprintf(out, n, "aborted with exit status %d (sanitizer report or assertion)", WEXITSTATUS(st));
}
static int bad(int st) { return WIFSIGNALED(st) || WEXITSTATUS(st) != 0 || !S->done; }

int main(int argc, char **argv) {
  S = mmap(NULL, sizeof(*S), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if (argc >= 5 && !strcmp(argv[1], "search")) {
    /* search SEED SECONDS REPLAYFILE [only-body] */
    const char *rf = argv[4];
    struct warg w = { strtoull(argv[2], 0, 10), atof(argv[3]), 0.4, argc > 5 ? argv[5] : NULL };
    int st = child(do_worker, &w, NULL);
    printf("ITERS %llu\nDISTINCT %llu\nSKIPPED %llu\n", (unsigned long long)S->iters,
           (unsigned long long)S->distinct, (unsigned long long)S->skipped);
    for (int b = 0; vf_bodies[b].name && b < 64; b++)
      printf("BODY %s %llu %s\n", vf_bodies[b].name, (unsigned long long)S->per_body[b],
             S->exhausted[b] ? "exhausted" : "sampled");
    if (!bad(st)) return 0;
    /* confirm in a fresh process, then shrink a little */
    static uint64_t best[MAXLOG]; uint64_t bn = S->n; int body = S->body;
    char why[2100], why1[2100];
    memcpy(best, S->val, bn*sizeof(uint64_t)); describe(st, why1, sizeof(why1)); rp_enum = S->enumerated;
    int killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
    memcpy(rp_val, best, bn*sizeof(uint64_t)); rp_n = bn; S->done = 0;
    char ef[4096]; snprintf(ef, sizeof(ef), "%s.stderr", rf);
    st = child(do_replay, &body, ef);
    int confirmed = bad(st);
    if (killed && !confirmed) return 3;   /* ended from outside (memory): no answer */
    if (confirmed) {
      describe(st, why, sizeof(why));
      double t0 = now();
      for (int pass = 0; pass < 3; pass++)
        for (uint64_t i = 0; i < bn && now() - t0 < 10; i++) {
          uint64_t cand[3] = { 0, best[i]/2, best[i]-1 };
          for (int c = 0; c < 3; c++) {
            if (!best[i] || cand[c] >= best[i]) continue;
            memcpy(rp_val, best, bn*sizeof(uint64_t)); rp_n = bn; rp_val[i] = cand[c]; S->done = 0;
            int st2 = child(do_replay, &body, NULL);
            if (bad(st2) && !(WIFSIGNALED(st2) && WTERMSIG(st2) == SIGALRM)) { memcpy(best, S->val, S->n*sizeof(uint64_t)); bn = S->n; break; }
          }
        }
      memcpy(rp_val, best, bn*sizeof(uint64_t)); rp_n = bn; S->done = 0;
      st = child(do_replay, &body, ef);
      if (bad(st)) describe(st, why, sizeof(why));
    } else snprintf(why, sizeof(why), "%s (depends on earlier iterations; rerun search with the same seed)", why1);
    FILE *fp = fopen(rf, "w");
    fprintf(fp, "body %s\nwhy %s\nconfirmed %d\nenumerated %d\nchoices", vf_bodies[body].name, why, confirmed, rp_enum);
    for (uint64_t i = 0; i < bn; i++) fprintf(fp, " %llu", (unsigned long long)best[i]);
    fprintf(fp, "\n");
    fclose(fp);
    printf("FAIL %s: %s\n", vf_bodies[body].name, why);
    return 1;
  }
  if (argc >= 3 && !strcmp(argv[1], "replay")) {
    static char line[1<<20]; char name[256] = ""; FILE *fp = fopen(argv[2], "r");
    if (!fp) return 2;
    while (fgets(line, sizeof(line), fp)) {
      if (sscanf(line, "body %255s", name) == 1) continue;
      if (sscanf(line, "enumerated %d", &rp_enum) == 1) continue;
      if (!strncmp(line, "choices", 7)) {
        char *p = line + 7, *e;
        for (rp_n = 0; rp_n < MAXLOG; rp_n++) { uint64_t v = strtoull(p, &e, 10); if (e == p) break; rp_val[rp_n] = v; p = e; }
      }
    }
    fclose(fp);
    for (int b = 0; vf_bodies[b].name; b++)
      if (!strcmp(vf_bodies[b].name, name)) {
        char ef[4096], why[2100]; snprintf(ef, sizeof(ef), "%s.stderr", argv[2]);
        int st = child(do_replay, &b, ef);
        if (bad(st)) { describe(st, why, sizeof(why)); printf("FAIL %s: %s\n", name, why); return 1; }
        printf("OK %s\n", name); return 0;
      }
    return 2;
  }
  fprintf(stderr, "usage: search SEED SECS OUT [body] | replay FILE\n");
  return 2;
}
