// Scheduler, memory and hooks of the schedule check (C22).
//
// The observed code (the repository and the harness, compiled with -fsanitize=thread -fsanitize-coverage=trace-pc but not
// linked with a sanitizer) calls back here before every access and at every basic block.  Two threads are run one at a
// time; which one runs is decided here and nowhere else: at the counted steps, when a thread ends and when it has to wait.
// All memory comes from here: one region per thread, at fixed addresses and never handed out twice, so that an address
// means the same in all executions.
#include "sched.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <x86intrin.h>

extern "C" char __data_start, _end, __executable_start, etext;

namespace
{
constexpr uint64_t BASE = 0x100000000000ull, REGION = 1ull << 33;  // regions for memory, then the two stacks
constexpr int REGIONS = 4;  // 0: everybody else, 1, 2: the threads, 3: the objects they work on
constexpr uint64_t STACKS = BASE + REGIONS * REGION, STACK = 1ull << 26;
constexpr uint64_t SHADOW = 0x200000000000ull, GSHADOW = 0x210000000000ull, TOUCHED = 0x220000000000ull, STATE = 0x230000000000ull, COPY = 0x240000000000ull,
                   SITES = 0x250000000000ull;
enum : uint8_t
{
  WATCHED = 64
};

struct Thread
{
  sem_t go;
  pthread_t id;
  bool there, done, waiting;
  uint64_t steps, total, accesses, stop;
  uint64_t lastAtomic, spins;
  uint64_t nTouched;
  const sched::Body* body;
  std::string* result;
};
struct State
{
  bool up;
  uint64_t at[REGIONS];
  int objects;
  int lock0;
  bool active;
  sched::Mode mode;
  uint32_t perSite, first;
  int cur;
  size_t leg, nLegs;
  sched::Leg legs[16];
  Thread t[3];
  sem_t over;
  bool deadlock;
  uint64_t gs, ge;
  uint64_t fails;
  struct
  {
    pthread_once_t* o;
    int who;
  } once[64];
};
#define S (*(State*)STATE)
/** called by observed code, not by a library */
#define OURS ((uint64_t)__builtin_return_address(0) >= (uint64_t)&__executable_start && (uint64_t)__builtin_return_address(0) < (uint64_t)&etext)
__thread int me __attribute__((tls_model("initial-exec")));

void* reserve(uint64_t at, uint64_t n)
{
  void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)at)
  {
    static const char m[] = "cannot reserve memory\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(4);
  }
  return p;
}
bool ready;
void boot()
{
  if (ready)
    return;
  ready = true;
  reserve(BASE, REGIONS * REGION);
  reserve(STACKS, 2 * STACK);
  reserve(SHADOW, REGIONS * REGION / 8);
  reserve(GSHADOW, 1ull << 28);
  reserve(TOUCHED, 3ull << 30);
  reserve(STATE, 1 << 16);
  reserve(SITES, 2ull << 24);
  for (int i = 0; i < REGIONS; ++i)
    S.at[i] = BASE + i * REGION + 4096;
  S.gs = (uint64_t)&__data_start & ~63ull;
  S.ge = ((uint64_t)&_end + 63) & ~63ull;
  S.up = true;
}

// ---------------------------------------------------------------- memory
struct Head
{
  uint64_t size;
  uint32_t magic, off;
};
constexpr uint32_t LIVE = 0x11feb10c, DEAD = 0xdeadb10c;
uint64_t freeList[40];  // region 0 only: first block of each power of two
int cls(uint64_t n) { return n <= 32 ? 5 : 64 - __builtin_clzll(n - 1); }
void lock0()
{
  while (__atomic_exchange_n(&S.lock0, 1, __ATOMIC_ACQUIRE))
    syscall(SYS_sched_yield);
}
void unlock0() { __atomic_store_n(&S.lock0, 0, __ATOMIC_RELEASE); }

void* allot(uint64_t n, uint64_t align, bool zero, bool ours = false)
{
  boot();
  int k = me ? me : S.objects == 2 || (S.objects == 1 && ours) ? 3 : 0;
  if (align < 16)
    align = 16;
  if (n > REGION / 2)
    return nullptr;
  uint64_t p;
  if (k == 0)
  {
    int c = cls(n);
    lock0();
    if (align == 16 && freeList[c])
    {
      p = freeList[c];
      freeList[c] = *(uint64_t*)p;
      unlock0();
      Head* h = (Head*)(p - 16);
      h->size = n;
      h->magic = LIVE;
      if (zero)
        memset((void*)p, 0, n);
      return (void*)p;
    }
    p = (S.at[0] + 16 + align - 1) & ~(align - 1);
    S.at[0] = p + (1ull << c);
    if (S.at[0] > BASE + REGION)
      abort();
    unlock0();
  }
  else
  {
    if (k == 3)
      lock0();
    p = (S.at[k] + 16 + align - 1) & ~(align - 1);
    S.at[k] = p + ((n + 15) & ~15ull) + 16;
    if (S.at[k] > BASE + (k + 1) * REGION)
      abort();
    if (k == 3)
      unlock0();
  }
  Head* h = (Head*)(p - 16);
  h->size = n;
  h->magic = LIVE;
  return (void*)p;
}
void release(void* q)
{
  if (!q)
    return;
  uint64_t p = (uint64_t)q;
  if (p < BASE || p >= BASE + REGIONS * REGION)
    abort();
  Head* h = (Head*)(p - 16);
  if (h->magic != LIVE)
    abort();  // freed twice, or never handed out
  h->magic = DEAD;
  int k = me;
  if (k == 0 && p < BASE + REGION)
  {
    int c = cls(h->size);
    lock0();
    *(uint64_t*)p = freeList[c];
    freeList[c] = p;
    unlock0();
  }
  else if (k && h->size <= (1 << 20))
    memset(q, 0xdb, h->size);
}

// ---------------------------------------------------------------- scheduling
[[noreturn]] void finish()
{
  // leaves through the main thread
  S.active = false;
  sem_post(&S.over);
  for (;;)
    syscall(SYS_pause);
}
void switchTo(int k)
{
  int m = me;
  S.cur = k;
  if (S.t[k].there)
    sem_post(&S.t[k].go);
  while (sem_wait(&S.t[m].go) && errno == EINTR)
    ;
}
/** the stop of the thread that starts to run now */
void aim(int k)
{
  while (S.leg < S.nLegs && S.legs[S.leg].who != k)
    ++S.leg;
  S.t[k].stop = S.leg < S.nLegs ? S.legs[S.leg].stop : 0;
}
bool counts(Thread& t, uint64_t pc)
{
  ++t.total;
  uint32_t* site = (uint32_t*)(SITES + (uint64_t)(&t - S.t - 1) * (1 << 24));
  uint64_t i = (pc * 0x9e3779b97f4a7c15ull) >> 43;  // 21 bits
  while (site[2 * i] && site[2 * i] != (uint32_t)pc)
    i = (i + 1) & ((1 << 21) - 1);
  site[2 * i] = (uint32_t)pc;
  bool c = ++site[2 * i + 1] <= S.perSite || t.total <= S.first;
  return c;
}
void step(int m, uint64_t pc)
{
  Thread& t = S.t[m];
  if (!counts(t, pc))
    return;
  ++t.steps;
  S.fails = 0;
  if (t.stop && t.steps == t.stop)
  {
    int o = 3 - m;
    ++S.leg;
    if (S.t[o].there && !S.t[o].done)
    {
      aim(o);
      switchTo(o);
    }
  }
}
/** the running thread cannot go on; it runs again when the other one has to wait, too, or has ended */
void wait()
{
  int m = me, o = 3 - m;
  ++S.fails;
  bool other = S.t[o].there && !S.t[o].done;
  if (!other || S.fails > 100)
  {
    // a helper thread of a library may hold the lock
    if (S.fails > 20000)
    {
      S.deadlock = true;
      finish();
    }
    struct timespec t = { 0, 50000 };
    syscall(SYS_nanosleep, &t, nullptr);
    if (!other)
      return;
  }
  aim(o);
  switchTo(o);
}
/** the running thread lets the other one have a turn, if there is one */
void breathe()
{
  int m = me, o = 3 - m;
  if (S.t[o].there && !S.t[o].done)
  {
    aim(o);
    switchTo(o);
  }
}
void touch(int m, uint64_t unit, uint8_t* sh, uint8_t use)
{
  uint8_t f = use << (m == 1 ? 0 : 2);
  if (!(*sh & f))
  {
    *sh |= f;
    sched::Touch* l = (sched::Touch*)(TOUCHED + (uint64_t)m * (1ull << 30));
    l[S.t[m].nTouched++] = { unit, use };
  }
}
inline void access(uint64_t a, uint64_t n, bool write, uint64_t pc)
{
  if (!S.active)
    return;
  int m = me;
  bool helper = m == 0;  // a thread that the running call started: seen, but not scheduled
  if (helper)
  {
    m = S.cur;
    lock0();
  }
  ++S.t[m].accesses;
  uint8_t* base;
  uint64_t off;
  bool own = false;
  if (a - BASE < REGIONS * REGION)
  {
    off = a - BASE;
    base = (uint8_t*)SHADOW;
    own = off / REGION == (uint64_t)m;
  }
  else if (a >= S.gs && a < S.ge)
  {
    off = a - S.gs;
    base = (uint8_t*)GSHADOW;
  }
  else
  {
    if (helper)
      unlock0();
    return;
  }
  bool w = false;
  for (uint64_t i = off >> 3, e = (off + n - 1) >> 3; i <= e; ++i)
  {
    if (base[i] & WATCHED)
      w = true;
    if (!own)
      touch(m, (a - off) / 8 + i, base + i, write ? sched::WRITE : sched::READ);
  }
  if (helper)
    unlock0();
  else if (w && S.mode == sched::ACCESSES)
    step(m, pc);
}
inline void atomicAccess(uint64_t a, uint64_t n, bool write, uint64_t pc)
{
  access(a, n, write, pc);
  int m = me;
  if (m == 0 || !S.active)
    return;
  Thread& t = S.t[m];
  if (t.lastAtomic != a)
    t.lastAtomic = a, t.spins = 0;
  else if (++t.spins % 500 == 0)
  {
    // spinning
    if (t.spins > 5000000)
    {
      S.deadlock = true;
      finish();
    }
    breathe();
  }
}
void* main1(void* p)
{
  int m = (int)(intptr_t)p;
  me = m;
  Thread& t = S.t[m];
  while (sem_wait(&t.go) && errno == EINTR)
    ;
  std::string r = (*t.body)();
  t.done = true;
  int o = 3 - m;
  *t.result = r;
  if (S.t[o].there && !S.t[o].done)
  {
    aim(o);
    S.cur = o;
    sem_post(&S.t[o].go);
  }
  else
  {
    S.active = false;
    sem_post(&S.over);
  }
  for (;;)
    syscall(SYS_pause);  // the thread's memory stays as it is
  return nullptr;
}
template <class F>
F real(const char* name)
{
  return (F)dlsym(RTLD_NEXT, name);
}
int (*mutexf)(pthread_mutex_t*);
int (*trymutexf)(pthread_mutex_t*);
int (*rdf)(pthread_rwlock_t*);
int (*tryrdf)(pthread_rwlock_t*);
int (*wrf)(pthread_rwlock_t*);
int (*trywrf)(pthread_rwlock_t*);
void resolve()
{
  trymutexf = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  mutexf = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  tryrdf = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
  rdf = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
  trywrf = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
  wrf = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
}
__attribute__((constructor)) void fixedAddresses()
{
  boot();
  resolve();
  int p = personality(0xffffffff);
  if (!getenv("VF_SCHED_EXEC"))
  {
    setenv("VF_SCHED_EXEC", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);  // the linear algebra library must not use threads of its own
    setenv("OMP_NUM_THREADS", "1", 1);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE))
      personality(p | ADDR_NO_RANDOMIZE);
    {
      static char buf[1 << 17];
      FILE* f = fopen("/proc/self/cmdline", "r");
      size_t n = f ? fread(buf, 1, sizeof buf - 1, f) : 0;
      if (f)
        fclose(f);
      std::vector<char*> argv;
      for (size_t i = 0; i < n; i += strlen(buf + i) + 1)
        argv.push_back(buf + i);
      argv.push_back(nullptr);
      if (n)
        execv("/proc/self/exe", argv.data());
    }
  }
}
}  // namespace

namespace sched
{
int ownerOf(Unit u)
{
  uint64_t k = (u * 8 - BASE) / REGION;
  return k == 1 || k == 2 ? k : 0;
}
std::string where(Unit u)
{
  uint64_t a = u * 8;
  char b[200];
  if (a >= S.gs && a < S.ge)
  {
    Dl_info i;
    if (dladdr((void*)a, &i) && i.dli_sname)
      snprintf(b, sizeof b, "global %s", i.dli_sname);
    else
      snprintf(b, sizeof b, "global data +0x%lx", (unsigned long)(a - S.gs));
  }
  else
    snprintf(b, sizeof b, "memory of %s", a < BASE + REGION || a >= BASE + 3 * REGION ? "an object made before the calls" : a < BASE + 2 * REGION ? "the first call" : "the second call");
  return b;
}
void objects(int which)
{
  S.objects = which;
}
Outcome execute(const Body& one, const Body& two, const Order& o)
{
  Outcome out;
  S.mode = o.mode;
  S.perSite = o.perSite;
  S.first = o.first;
  S.nLegs = std::min<size_t>(o.legs.size(), 16);
  for (size_t i = 0; i < S.nLegs; ++i)
    S.legs[i] = o.legs[i];
  for (Unit u : o.watched)
  {
    uint64_t a = u * 8;
    if (a - BASE < REGIONS * REGION)
      ((uint8_t*)SHADOW)[(a - BASE) >> 3] |= WATCHED;
    else if (a >= S.gs && a < S.ge)
      ((uint8_t*)GSHADOW)[(a - S.gs) >> 3] |= WATCHED;
  }
  sem_init(&S.over, 0, 0);
  const Body* b[3] = { nullptr, &one, &two };
  for (int k = 1; k < 3; ++k)
  {
    Thread& t = S.t[k];
    memset(&t, 0, sizeof t);
    sem_init(&t.go, 0, 0);
    t.there = (bool)*b[k];
    t.body = b[k];
    t.result = &out.result[k];
    if (t.there)
    {
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstack(&at, (void*)(STACKS + (k - 1) * STACK), STACK);
      if (pthread_create(&t.id, &at, main1, (void*)(intptr_t)k))
        abort();
      pthread_attr_destroy(&at);
    }
  }
  // what libraries write is seen by comparison
  struct Piece
  {
    uint64_t from, n;
    uint8_t* shadow;
  } piece[2] = { { BASE + 3 * REGION, (S.at[3] - BASE - 3 * REGION + 63) & ~63ull, (uint8_t*)SHADOW + 3 * REGION / 8 }, { S.gs, S.ge - S.gs, (uint8_t*)GSHADOW } };
  if (o.compare)
  {
    reserve(COPY, piece[0].n + piece[1].n + 4096);
    memcpy((void*)COPY, (void*)piece[0].from, piece[0].n);
    memcpy((void*)(COPY + piece[0].n), (void*)piece[1].from, piece[1].n);
  }
  S.leg = 0;
  S.active = true;
  int first = S.nLegs ? S.legs[0].who : S.t[1].there ? 1 : 2;
  if (!S.t[first].there)
    first = 3 - first;
  aim(first);
  S.cur = first;
  sem_post(&S.t[first].go);
  while (sem_wait(&S.over) && errno == EINTR)
    ;
  S.active = false;
  if (o.compare)
  {
    int m = S.t[1].there ? 1 : 2;
    uint64_t copy = COPY;
    for (auto& p : piece)
    {
      const uint64_t *x = (uint64_t*)p.from, *y = (uint64_t*)copy;
      for (uint64_t i = 0; i < p.n / 8; ++i)
        if (x[i] != y[i] && !(p.shadow[i] & (WRITE << (m == 1 ? 0 : 2))))
        {
          uint64_t a = p.from + 8 * i;
          // not the runtime's own, the results', or the allocator's
          if (a >= (uint64_t)&freeList && a < (uint64_t)(&freeList + 1))
            continue;
          if (a == (uint64_t)&ready)
            continue;
          out.touched[m].push_back({ a / 8, LIBWRITE });
        }
      copy += p.n;
    }
    munmap((void*)COPY, piece[0].n + piece[1].n + 4096);
  }
  for (int k = 1; k < 3; ++k)
  {
    Thread& t = S.t[k];
    out.steps[k] = t.steps;
    out.total[k] = t.total;
    out.accesses[k] = t.accesses;
    out.bytes[k] = S.at[k] - BASE - k * REGION;
    Touch* l = (Touch*)(TOUCHED + (uint64_t)k * (1ull << 30));
    out.touched[k].insert(out.touched[k].end(), l, l + t.nTouched);
  }
  out.deadlock = S.deadlock;
  return out;
}
}  // namespace sched

// ---------------------------------------------------------------- the C library's functions
void* operator new(size_t n)
{
  void* p = allot(n, 16, false, OURS);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n)
{
  void* p = allot(n, 16, false, OURS);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
extern "C" {
void* malloc(size_t n) { return allot(n, 16, false, OURS); }
void* calloc(size_t n, size_t m)
{
  if (m && n > ~0ull / m)
    return nullptr;
  return allot(n * m, 16, true);
}
void free(void* p) { release(p); }
void* realloc(void* p, size_t n)
{
  if (!p)
    return malloc(n);
  void* q = allot(n, 16, false);
  uint64_t old = ((Head*)((uint64_t)p - 16))->size;
  memcpy(q, p, std::min<uint64_t>(old, n));
  release(p);
  return q;
}
void* memalign(size_t a, size_t n) { return allot(n, a, false); }
void* aligned_alloc(size_t a, size_t n) { return allot(n, a, false); }
int posix_memalign(void** p, size_t a, size_t n)
{
  *p = allot(n, a, false);
  return *p ? 0 : ENOMEM;
}
void* valloc(size_t n) { return allot(n, 4096, false); }
void* pvalloc(size_t n) { return allot((n + 4095) & ~4095ull, 4096, false); }
size_t malloc_usable_size(void* p) { return p ? ((Head*)((uint64_t)p - 16))->size : 0; }

#define LOCK(name, type, f, tryf)  \
  int name(type* m)                \
  {                                \
    if (!f)                        \
      resolve();                   \
    if (!me || !S.active)          \
      return f(m);                 \
    if (OURS)                      \
      access((uint64_t)m, 8, true, (uint64_t)__builtin_return_address(0)); \
    for (;;)                       \
    {                              \
      int r = tryf(m);             \
      if (r != EBUSY)              \
      {                            \
        S.fails = 0;               \
        return r;                  \
      }                            \
      wait();                      \
    }                              \
  }
LOCK(pthread_mutex_lock, pthread_mutex_t, mutexf, trymutexf)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_t, rdf, tryrdf)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_t, wrf, trywrf)

int sched_yield()
{
  if (me && S.active)
    breathe();
  else
    syscall(SYS_sched_yield);
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec* r)
{
  if (me && S.active)
  {
    breathe();
    return 0;
  }
  return syscall(SYS_nanosleep, t, r);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* r)
{
  if (me && S.active)
  {
    breathe();
    return 0;
  }
  return syscall(SYS_clock_nanosleep, c, fl, t, r) ? errno : 0;
}
int usleep(useconds_t)
{
  if (me && S.active)
    breathe();
  else
    syscall(SYS_sched_yield);
  return 0;
}
int pthread_once(pthread_once_t* o, void (*init)())
{
  int* p = (int*)o;
  for (;;)
  {
    int e = 0;
    int v = __atomic_load_n(p, __ATOMIC_ACQUIRE);
    if (v == 2)
      return 0;
    if (v == 0 && __atomic_compare_exchange_n(p, &e, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE))
    {
      try
      {
        init();
      }
      catch (...)
      {
        __atomic_store_n(p, 0, __ATOMIC_RELEASE);
        throw;
      }
      __atomic_store_n(p, 2, __ATOMIC_RELEASE);
      return 0;
    }
    if (me && S.active)
      wait();
    else
      syscall(SYS_sched_yield);
  }
}
int __cxa_guard_acquire(uint64_t* g)
{
  uint8_t* done = (uint8_t*)g;
  int* busy = (int*)g + 1;
  if (OURS)
    access((uint64_t)g, 8, true, (uint64_t)__builtin_return_address(0));
  for (;;)
  {
    if (__atomic_load_n(done, __ATOMIC_ACQUIRE))
      return 0;
    int e = 0;
    if (__atomic_compare_exchange_n(busy, &e, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE))
    {
      if (__atomic_load_n(done, __ATOMIC_ACQUIRE))
      {
        __atomic_store_n(busy, 0, __ATOMIC_RELEASE);
        return 0;
      }
      return 1;
    }
    if (me && S.active)
      wait();
    else
      syscall(SYS_sched_yield);
  }
}
void __cxa_guard_release(uint64_t* g)
{
  __atomic_store_n((uint8_t*)g, 1, __ATOMIC_RELEASE);
  __atomic_store_n((int*)g + 1, 0, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(uint64_t* g) { __atomic_store_n((int*)g + 1, 0, __ATOMIC_RELEASE); }

// ---------------------------------------------------------------- the hooks of the observed code
#define PC ((uint64_t)__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                            \
  void __tsan_read##n(void* p) { access((uint64_t)p, n, false, PC); }                    \
  void __tsan_write##n(void* p) { access((uint64_t)p, n, true, PC); }                    \
  void __tsan_unaligned_read##n(void* p) { access((uint64_t)p, n, false, PC); }          \
  void __tsan_unaligned_write##n(void* p) { access((uint64_t)p, n, true, PC); }          \
  void __tsan_volatile_read##n(void* p) { access((uint64_t)p, n, false, PC); }           \
  void __tsan_volatile_write##n(void* p) { access((uint64_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) access((uint64_t)p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if (n) access((uint64_t)p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access((uint64_t)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access((uint64_t)p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(b, T)                                                                                                                   \
  T __tsan_atomic##b##_load(const volatile T* p, int) { atomicAccess((uint64_t)p, b / 8, false, PC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int) { atomicAccess((uint64_t)p, b / 8, true, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }   \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { atomicAccess((uint64_t)p, b / 8, true, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { atomicAccess((uint64_t)p, b / 8, true, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { atomicAccess((uint64_t)p, b / 8, true, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { atomicAccess((uint64_t)p, b / 8, true, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { atomicAccess((uint64_t)p, b / 8, true, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }   \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { atomicAccess((uint64_t)p, b / 8, true, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { atomicAccess((uint64_t)p, b / 8, true, PC); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int)                                                   \
  {                                                                                                                                    \
    atomicAccess((uint64_t)p, b / 8, true, PC);                                                                                        \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                            \
  }                                                                                                                                    \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int)                                                     \
  {                                                                                                                                    \
    atomicAccess((uint64_t)p, b / 8, true, PC);                                                                                        \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                            \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __sanitizer_cov_trace_pc()
{
  int m = me;
  if (m && S.active && S.mode == sched::BLOCKS)
    step(m, PC);
}
}
