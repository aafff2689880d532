/* LD_PRELOAD scheduler: forces worker counts, worker interleavings and signal positions on DREAM's real threads.
 *
 * The modules under test are compiled with -fsanitize=thread but linked against this file instead of the sanitizer's
 * runtime: every memory access of theirs calls in here and is a point where another worker can be let run or a signal
 * be raised.  Only one worker runs at a time (except in mode "free").
 *
 * DREAM_SCHED (read by dream_sched_begin, which the drivers call before each call):
 *   hw=N            what std::thread::hardware_concurrency returns
 *   mode=word,w=C.0.C.S.1   C lets the caller create the next worker, then a worker runs until its next access to a global variable of its module, in this order;
 *                   S raises the signal in the worker that runs next (or in the caller, when there is none)
 *                   (the caller goes on when pthread_create returns, or, with at=entry, waits before it)
 *   mode=rand,seed=N,gap=N   preemption after a random number of accesses (mean gap), more often at accesses to memory
 *                   another worker has used
 *   mode=free       no gating
 *   sig=X           raise the signal once this fraction (of the number of accesses made, while the signal was handled,
 *                   by the previous call) has been reached; sgn=INT|TERM|ABRT (if the call does not handle it: one it does)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#define MAXW 128
enum { OFF, WORD, RAND, FREE };
enum { SIG = -1, CREATE = -2 };       /* tokens of a word which are not workers */
enum { NONE = -1, CALLER = -3 };      /* turns which are not workers */

static volatile int armed;
static int mode, hw = -1, sgn = SIGINT;
static int anyint;      /* Octave: interrupts are noted whether or not the function handles them */
static double sigfrac = -1;
static long sigat = -1;
static int sigdone, sigcount;
static uint64_t rng;
static long gap = 1000, left, switches;
static short word[4096];
static int nword, pword, ncreate, atentry;
static volatile int callerwaits;      /* the caller is about to create a worker */
static pthread_t mainthr;
static volatile long handled_steps, last_handled;     /* accesses made while the signal was handled */
static volatile int handled[65];
static void *base_handler[65];

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static volatile int nw, nended, started, turn = -1, freerun;
static volatile int wstate[MAXW];      /* 1 waiting or running, 2 ended */
static volatile long progress;
static __thread int my = -1;
static __thread int inside;

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_mlock)(pthread_mutex_t *);
static int (*real_sigaction)(int, const struct sigaction *, struct sigaction *);
static sighandler_t (*real_signal)(int, sighandler_t);

static void init(void)
{
  if (real_create) return;
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  real_mlock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
  real_sigaction = dlsym(RTLD_NEXT, "sigaction");
  real_signal = dlsym(RTLD_NEXT, "signal");
  real_create = dlsym(RTLD_NEXT, "pthread_create");
}
__attribute__((constructor)) static void ctor(void) { init(); }

static uint64_t rnd(void)
{
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return rng;
}

/* ---- the module's global variables */
#define MAXR 256
static struct { uintptr_t lo, hi; } reg[MAXR];
static int nreg;
static const char *moddir;
static int cb(struct dl_phdr_info *i, size_t sz, void *d)
{
  (void) sz; (void) d;
  if (!i->dlpi_name || !moddir || !strstr(i->dlpi_name, moddir)) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W) && nreg < MAXR) {
      reg[nreg].lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      reg[nreg++].hi = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
    }
  return 0;
}
static void scan(void)
{
  nreg = 0;
  moddir = getenv("DREAM_SCHED_DIR");
  dl_iterate_phdr(cb, 0);
}
static int is_global(void *p)
{
  uintptr_t a = (uintptr_t) p;
  for (int i = 0; i < nreg; i++)
    if (a >= reg[i].lo && a < reg[i].hi) return 1;
  return 0;
}

/* ---- turns */
static int other(int not_me)
{
  int c[MAXW], n = 0;
  for (int i = 0; i < nw; i++) if (wstate[i] == 1 && i != not_me) c[n++] = i;
  if (callerwaits && (n == 0 || rnd() % (n + 2) == 0)) return CALLER;
  return n ? c[rnd() % n] : NONE;
}
static int lowest(void)
{
  for (int i = 0; i < nw; i++) if (wstate[i] == 1) return i;
  return NONE;
}
static int sigpend;
/* next worker of the word; tokens of workers that do not run are skipped */
static int from_word(void)
{
  while (pword < nword) {
    int t = word[pword++];
    if (t == SIG) { sigpend = 1; continue; }
    if (t == CREATE) { if (callerwaits) return CALLER; continue; }
    if (t < nw && wstate[t] == 1) return t;
  }
  return callerwaits ? CALLER : lowest();
}
static void wait_turn(int me)     /* mu held */
{
  long seen = progress;
  int idle = 0;
  while (turn != me && !freerun) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_nsec += 100000000;
    if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
    if (pthread_cond_timedwait(&cv, &mu, &ts) == ETIMEDOUT) {
      if (!started && nw > 0 && !callerwaits && turn < 0) {   /* nobody joins: start anyway */
        static int seen_nw;
        if (seen_nw == nw) { started = 1; turn = mode == WORD ? from_word() : other(-1); pthread_cond_broadcast(&cv); }
        seen_nw = nw;
      } else if (progress == seen) {
        if (++idle > 30) { freerun = 1; pthread_cond_broadcast(&cv); }   /* the one that runs is stuck */
      } else { seen = progress; idle = 0; }
    }
  }
}
static void hand_to(int to)
{
  if (to == my || to == NONE) return;
  real_mlock(&mu);
  turn = to;
  switches++;
  pthread_cond_broadcast(&cv);
  wait_turn(my);
  pthread_mutex_unlock(&mu);
}
/* one of the signals the call handles */
static int which(void)
{
  if (anyint && sgn == SIGINT) return SIGINT;
  if (handled[sgn]) return sgn;
  return handled[SIGINT] || anyint ? SIGINT : handled[SIGTERM] ? SIGTERM : handled[SIGABRT] ? SIGABRT : 0;
}
static void maybe_signal(void)
{
  int g = which();
  if (sigdone || !g) return;
  sigset_t bl;
  pthread_sigmask(SIG_SETMASK, 0, &bl);
  if (!sigismember(&bl, g)) {
    sigdone = 1;
    sigcount++;
    raise(g);
    return;
  }
  /* Octave blocks its asynchronous signals and takes them in a thread of its own, which notes the interrupt */
  volatile sig_atomic_t *st = dlsym(RTLD_DEFAULT, "octave_interrupt_state");
  sigdone = 1;
  if (g != SIGINT || !st) return;
  sigcount++;
  kill(getpid(), g);
  for (int i = 0; i < 2000 && *st <= 0; i++) usleep(500);
}

/* ---- memory shared between workers */
#define HB 16
static struct { uintptr_t a; short w; char wr, hot; } tab[1 << HB];
static int hot(void *p, int wr)
{
  uintptr_t a = (uintptr_t) p >> 2;
  unsigned h = (a * 0x9E3779B97F4A7C15ull) >> (64 - HB);
  if (tab[h].a != a) { tab[h].a = a; tab[h].w = my; tab[h].wr = wr; tab[h].hot = 0; return 0; }
  if (tab[h].w != my) {
    if (tab[h].wr || wr) tab[h].hot = 1;
    tab[h].w = my; tab[h].wr = wr;
  } else tab[h].wr |= wr;
  return tab[h].hot;
}

static void step(void *p, int wr)
{
  if (inside) return;
  inside = 1;
  if (my < 0) {
    if (pthread_equal(pthread_self(), mainthr) && !started && which()) {
      __sync_fetch_and_add(&handled_steps, 1);
      if (sigat >= 0 && handled_steps >= sigat) maybe_signal();
      if (mode == WORD && nw == 0 && is_global(p) && pword < nword) {
        if (word[pword] == SIG) { pword++; maybe_signal(); }
        else if (ncreate <= 1) pword++;         /* one worker: the caller itself */
      }
    }
    inside = 0;
    return;
  }
  progress++;
  if (which()) __sync_fetch_and_add(&handled_steps, 1);
  if (sigat >= 0 && !sigdone && handled_steps >= sigat) maybe_signal();
  if (freerun || mode == FREE || mode == OFF) { inside = 0; return; }
  if (mode == WORD) {
    if (is_global(p)) {
      hand_to(from_word());
      if (sigpend) { sigpend = 0; maybe_signal(); }
    }
  } else if (switches < 6000) {
    int h = hot(p, wr);
    if (--left <= 0 || (h && (rnd() & 3) == 0)) {
      left = 1 + rnd() % (2 * gap);
      hand_to(other(my));
    }
  }
  inside = 0;
}
#define ACC(p, wr) do { if (armed) step(p, wr); } while (0)

/* ---- threads */
struct start { void *(*f)(void *); void *a; int id; };
static void *run(void *v)
{
  struct start s = *(struct start *) v;
  free(v);
  my = s.id;
  if (mode != FREE) {
    real_mlock(&mu);
    if (started && turn == NONE) turn = my;
    wait_turn(my);
    pthread_mutex_unlock(&mu);
    inside = 1;
    if (sigpend) { sigpend = 0; maybe_signal(); }
    inside = 0;
  }
  void *r = 0;
  r = s.f(s.a);
  inside = 1;
  real_mlock(&mu);
  wstate[my] = 2;
  nended++;
  progress++;
  if (mode != FREE && turn == my) {
    turn = mode == WORD ? from_word() : other(my);
    if (turn == NONE && sigpend) { sigpend = 0; maybe_signal(); }
  }
  pthread_cond_broadcast(&cv);
  pthread_mutex_unlock(&mu);
  return r;
}

/* the workers created so far may go before the caller does */
static void let_workers(void)   /* mu held */
{
  if (freerun || started) return;
  callerwaits = 1;
  int to = mode == WORD ? from_word() : other(-1);
  if (to != CALLER && to != NONE) {
    turn = to;
    pthread_cond_broadcast(&cv);
    wait_turn(CALLER);
  }
  turn = CALLER;
  callerwaits = 0;
  if (sigpend) { sigpend = 0; maybe_signal(); }
}

int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a)
{
  init();
  if (!armed || nw >= MAXW || !pthread_equal(pthread_self(), mainthr)) return real_create(t, at, f, a);
  struct start *s = malloc(sizeof *s);
  s->f = f; s->a = a;
  real_mlock(&mu);
  if (nw == 0) scan();
  if (mode == WORD && !atentry && nw == 0 && pword < nword && word[pword] == CREATE) pword++;
  if ((mode == WORD && atentry) || (mode == RAND && nw > 0 && (rnd() & 1))) let_workers();
  s->id = nw;
  wstate[nw] = 1;
  nw++;
  pthread_mutex_unlock(&mu);
  int r = real_create(t, at, run, s);
  if (r) {
    real_mlock(&mu);
    wstate[s->id] = 2; nended++;
    pthread_mutex_unlock(&mu);
    free(s);
  }
  if ((mode == WORD && !atentry) || (mode == RAND && rnd() % 3 == 0)) {
    real_mlock(&mu);
    let_workers();
    pthread_mutex_unlock(&mu);
  }
  return r;
}

int pthread_join(pthread_t t, void **r)
{
  init();
  if (armed && pthread_equal(pthread_self(), mainthr)) {
    real_mlock(&mu);
    if (!started && nw > 0) {
      started = 1;
      turn = mode == WORD ? from_word() : other(-1);
      pthread_cond_broadcast(&cv);
    }
    pthread_mutex_unlock(&mu);
  }
  return real_join(t, r);
}

/* a worker that waits for a lock lets the others run */
int pthread_mutex_lock(pthread_mutex_t *m)
{
  init();
  if (!armed || my < 0 || inside || freerun || mode == FREE) return real_mlock(m);
  inside = 1;
  int n = 0;
  while (pthread_mutex_trylock(m)) {
    int o = other(my);
    if (o != NONE) hand_to(o); else usleep(100);
    if (freerun || ++n > 20000) { inside = 0; return real_mlock(m); }
  }
  inside = 0;
  return 0;
}

int get_nprocs(void)
{
  static int (*f)(void);
  if (armed && hw >= 0) return hw;
  if (!f) f = dlsym(RTLD_NEXT, "get_nprocs");
  return f();
}

/* ---- which signals the call under test handles */
static void note(int s)
{
  struct sigaction a;
  if (s < 1 || s > 64 || !armed) return;
  real_sigaction(s, 0, &a);
  handled[s] = (void *) a.sa_handler != base_handler[s] && a.sa_handler != SIG_DFL && a.sa_handler != SIG_IGN;
}
sighandler_t signal(int s, sighandler_t h)
{
  init();
  sighandler_t r = real_signal(s, h);
  note(s);
  return r;
}
int sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
  init();
  int r = real_sigaction(s, a, o);
  if (a) note(s);
  return r;
}

/* ---- called by the drivers */
void dream_sched_begin(void)
{
  init();
  const char *e = getenv("DREAM_SCHED");
  char buf[20000], *tok, *sv;
  armed = 0;
  hw = -1; mode = OFF; sgn = SIGINT; sigfrac = -1; sigat = -1; sigdone = sigcount = 0; gap = 1000; switches = 0;
  nword = pword = ncreate = atentry = 0; callerwaits = 0; nw = nended = started = freerun = 0; turn = -1; sigpend = 0; rng = 88172645463325252ull;
  memset((void *) handled, 0, sizeof handled);
  memset(tab, 0, sizeof tab);
  if (!e || !*e) return;
  snprintf(buf, sizeof buf, "%s", e);
  for (tok = strtok_r(buf, ",", &sv); tok; tok = strtok_r(0, ",", &sv)) {
    if (!strncmp(tok, "hw=", 3)) hw = atoi(tok + 3);
    else if (!strcmp(tok, "mode=word")) mode = WORD;
    else if (!strcmp(tok, "mode=rand")) mode = RAND;
    else if (!strcmp(tok, "mode=free")) mode = FREE;
    else if (!strcmp(tok, "at=entry")) atentry = 1;
    else if (!strncmp(tok, "seed=", 5)) { rng ^= (uint64_t) atol(tok + 5) * 0x9E3779B97F4A7C15ull; if (!rng) rng = 1; }
    else if (!strncmp(tok, "gap=", 4)) gap = atol(tok + 4);
    else if (!strncmp(tok, "sig=", 4)) sigfrac = atof(tok + 4);
    else if (!strcmp(tok, "sgn=TERM")) sgn = SIGTERM;
    else if (!strcmp(tok, "sgn=ABRT")) sgn = SIGABRT;
    else if (!strncmp(tok, "w=", 2)) {
      char *s2, *x;
      for (x = strtok_r(tok + 2, ".", &s2); x && nword < 4096; x = strtok_r(0, ".", &s2)) { ncreate += *x == 'C'; word[nword++] = *x == 'S' ? SIG : *x == 'C' ? CREATE : atoi(x); }
    }
  }
  if (mode == OFF) mode = FREE;
  for (int i = 0; i < 20; i++) rnd();
  left = 1 + rnd() % (2 * gap);
  int ss[3] = { SIGINT, SIGTERM, SIGABRT };
  for (int i = 0; i < 3; i++) { struct sigaction a; real_sigaction(ss[i], 0, &a); base_handler[ss[i]] = (void *) a.sa_handler; }
  mainthr = pthread_self();
  if (sigfrac >= 0) sigat = 1 + (long) (sigfrac * last_handled);
  handled_steps = 0;
  scan();
  anyint = dlsym(RTLD_DEFAULT, "octave_interrupt_state") != 0;
  armed = 1;
}

/* alive workers, signals raised, workers created, accesses made under a handler, switches */
void dream_sched_end(long *out)
{
  int was = armed;
  out[0] = out[1] = out[2] = out[3] = out[4] = 0;
  if (!was) return;
  real_mlock(&mu);
  out[0] = nw - nended; out[1] = sigcount; out[2] = nw; out[3] = handled_steps; out[4] = switches;
  freerun = 1;
  pthread_cond_broadcast(&cv);
  pthread_mutex_unlock(&mu);
  for (int i = 0; i < 500 && nended < nw; i++) usleep(10000);
  last_handled = handled_steps;
  armed = 0;
}

/* ---- the sanitizer's interface */
#define RW(n) \
  void __tsan_read##n(void *p) { ACC(p, 0); } void __tsan_write##n(void *p) { ACC(p, 1); } \
  void __tsan_unaligned_read##n(void *p) { ACC(p, 0); } void __tsan_unaligned_write##n(void *p) { ACC(p, 1); } \
  void __tsan_volatile_read##n(void *p) { ACC(p, 0); } void __tsan_volatile_write##n(void *p) { ACC(p, 1); } \
  void __tsan_unaligned_volatile_read##n(void *p) { ACC(p, 0); } void __tsan_unaligned_volatile_write##n(void *p) { ACC(p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { (void) n; ACC(p, 0); }
void __tsan_write_range(void *p, unsigned long n) { (void) n; ACC(p, 1); }
void __tsan_vptr_read(void **p) { ACC(p, 0); }
void __tsan_vptr_update(void **p, void *n) { (void) n; ACC(p, 1); }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_atomic_thread_fence(int o) { (void) o; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int o) { (void) o; }
#define AT(b, T) \
  T __tsan_atomic##b##_load(T *p, int o) { (void) o; ACC(p, 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(T *p, T v, int o) { (void) o; ACC(p, 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_exchange(T *p, T v, int o) { (void) o; ACC(p, 1); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(T *p, T v, int o) { (void) o; ACC(p, 1); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(T *p, T v, int o) { (void) o; ACC(p, 1); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(T *p, T v, int o) { (void) o; ACC(p, 1); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(T *p, T v, int o) { (void) o; ACC(p, 1); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_xor(T *p, T v, int o) { (void) o; ACC(p, 1); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_nand(T *p, T v, int o) { (void) o; ACC(p, 1); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(T *p, T *c, T v, int o, int f) { (void) o; (void) f; ACC(p, 1); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(T *p, T *c, T v, int o, int f) { (void) o; (void) f; ACC(p, 1); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
