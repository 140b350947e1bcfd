// Scheduler, virtual time, decisions, heap, threads and synchronisation of rksim
#include "internal.h"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <queue>
#include <algorithm>
#include <math.h>
#include <fcntl.h>

Result *R;
bool g_replay;
std::map<uint64_t, uint64_t> g_rdec;
std::map<std::string, int64_t> g_rparam;
uint64_t g_seed;
SimCfg cfg;
int sim_verbose = 0;
Thr *cur;
std::vector<Thr *> thrs;

static void *host_sp;
static int in_event = 0;

// ---------------------------------------------------------------- PRNG
static inline uint64_t splitmix(uint64_t &s) { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static uint64_t hash_str(const char *s) { uint64_t h = 1469598103934665603ULL; while (*s) { h ^= (uint8_t)*s++; h *= 1099511628211ULL; } return h; }
static uint64_t kstate[K_COUNT], wlstate, kidx[K_COUNT];
uint64_t sim_rand(int k) { return splitmix(kstate[k]); }
uint64_t sim_randn(int k, uint64_t n) { return n ? sim_rand(k) % n : 0; }
static double sim_randf(int k) { return (sim_rand(k) >> 11) * (1.0 / 9007199254740992.0); }
uint64_t wl(uint64_t n) { uint64_t v = splitmix(wlstate); return n ? v % n : 0; }
double wlf(void) { return (splitmix(wlstate) >> 11) * (1.0 / 9007199254740992.0); }

void sim_hash(uint64_t v) { uint64_t h = R->hash; h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 29; R->hash = h; }
void sim_hash_bytes(const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; uint64_t h = n; size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, b + i, 8); h = (h ^ v) * 0x100000001b3ULL; h ^= h >> 31; } for (; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL; sim_hash(h); }

uint64_t sim_choose(int kind, uint64_t dflt, uint64_t drawn) {
    uint64_t key = ((uint64_t)kind << 56) | kidx[kind]++, v;
    if (g_replay) { auto it = g_rdec.find(key); v = it == g_rdec.end() ? dflt : it->second; }
    else v = drawn;
    R->nchoice[kind] = kidx[kind];
    if (v != dflt) {
        if (R->ndec < MAXDEC) R->dec[R->ndec++] = {key, v}; else R->dec_overflow = 1;
    }
    return v;
}

static void count_name(NamedCount *t, int *n, int max, const char *name, uint64_t add) {
    for (int i = 0; i < *n; i++) if (!strncmp(t[i].name, name, 39)) { t[i].n += add; return; }
    if (*n < max) { strncpy(t[*n].name, name, 39); t[*n].n = add; (*n)++; }
}
void sim_probe(const char *name, uint64_t n) { count_name(R->probe, &R->nprobe, 64, name, n); }
void sim_fault_note(const char *name) { count_name(R->fault, &R->nfault, 64, name, 1); }

// ---------------------------------------------------------------- parameters
static int64_t param_rec(const char *name, int64_t v, int64_t lo) {
    auto it = g_rparam.find(name);
    if (it != g_rparam.end()) v = it->second;
    for (int i = 0; i < R->nparam; i++) if (!strncmp(R->param[i].name, name, 39)) return R->param[i].val;
    if (R->nparam < 128) { ParamRec &r = R->param[R->nparam++]; strncpy(r.name, name, 39); r.val = v; r.lo = lo; }
    return v;
}
int64_t P(const char *name, int64_t lo, int64_t hi) {
    uint64_t s = g_seed ^ hash_str(name); splitmix(s);
    int64_t v = lo + (int64_t)(splitmix(s) % (uint64_t)(hi - lo + 1));
    v = param_rec(name, v, lo);
    return v < lo ? lo : v > hi ? hi : v;
}
bool Pbool(const char *name, double p) {
    uint64_t s = g_seed ^ hash_str(name); splitmix(s);
    double u = (splitmix(s) >> 11) * (1.0 / 9007199254740992.0);
    return param_rec(name, u < p ? 1 : 0, 0) != 0;
}

// ---------------------------------------------------------------- policy, time, budget
static struct { int pick; double p_sync; int bmode, bmax; bool shared; int amax; double p_wake; double pct_change; int victim; double victim_p; int step_ns; } pol;
static bool calm = false;
bool core_calm(void) { return calm; }
static ns_t g_time;
static int64_t wall_off_ns;
static int64_t budget, budget_start, pre_left;
static int64_t a_left = -1;                 // conflicting accesses until the next preemption; < 0: off
#define BINF 2000000
static const uint64_t AINF = 1ULL << 40;

struct Ev { ns_t t; uint64_t seq; int tid; uint64_t gen; std::function<void()> *fn; };
struct EvCmp { bool operator()(const Ev &a, const Ev &b) const { return a.t > b.t || (a.t == b.t && a.seq > b.seq); } };
static std::priority_queue<Ev, std::vector<Ev>, EvCmp> evq;
static uint64_t evseq;

static void flush_time(void) {
    int64_t used = budget_start - budget;
    if (used > 0) { g_time += used * pol.step_ns; R->steps += used; pre_left -= used; if (cur) cur->accesses += used; }
    budget_start = budget;
}
static void rebudget(void) {
    int64_t b = pre_left;
    if (!evq.empty()) { int64_t d = evq.top().t > g_time ? (int64_t)((evq.top().t - g_time) / pol.step_ns) + 1 : 1; if (d < b) b = d; }
    if (b < 1) b = 1;
    budget = budget_start = b;
}
ns_t sim_now(void) { int64_t used = budget_start - budget; return g_time + (used > 0 ? used * pol.step_ns : 0); }
int64_t sim_wall_ns(void) { return (int64_t)sim_now() + wall_off_ns; }
double sim_wall(void) { return (double)sim_wall_ns() * 1e-9; }
void sim_wall_jump(int64_t ns) { wall_off_ns += ns; }
void sim_wall_set(int64_t s) { wall_off_ns = s * 1000000000LL - (int64_t)sim_now(); }
void core_cost(ns_t ns) { flush_time(); g_time += ns; rebudget(); }
void core_call(int code, uint64_t a, uint64_t b) {
    R->calls++;
    sim_hash(((uint64_t)code << 48) ^ ((uint64_t)cur->id << 40) ^ a * 0x9E3779B97F4A7C15ULL ^ (b << 1));
    core_cost(300);
}
void sim_at(ns_t when, std::function<void()> fn) {
    flush_time();
    evq.push({when < g_time ? g_time : when, evseq++, -1, 0, new std::function<void()>(std::move(fn))});
    rebudget();
}
static void wake_thr(Thr *t, bool timed) { if (t->state == 2) { t->state = 1; t->woken = !timed; t->chan = nullptr; t->wake_gen++; } }
static void run_due(void) {
    while (!evq.empty() && evq.top().t <= g_time) {
        Ev e = evq.top(); evq.pop();
        if (e.fn) { in_event++; (*e.fn)(); in_event--; delete e.fn; }
        else { Thr *t = thrs[e.tid]; if (t->state == 2 && t->wake_gen == e.gen) wake_thr(t, true); }
    }
}

static uint64_t draw_budget(void) {
    if (calm) return 1000 + sim_randn(K_B, 100000);
    switch (pol.bmode) {
        case 0: return BINF;
        case 1: { int k = 1 + sim_randn(K_B, pol.bmax); return 1 + sim_randn(K_B, 1ULL << k); }
        default: if (sim_randf(K_B) < 0.7) return BINF; else { int k = 1 + sim_randn(K_B, pol.bmax); return 1 + sim_randn(K_B, 1ULL << k); }
    }
}
static void next_budget(void) { uint64_t d = draw_budget(); pre_left = (int64_t)sim_choose(K_B, BINF, d); if (pre_left < 1) pre_left = 1; if (pre_left > BINF) pre_left = BINF; }
static void next_a(void) {
    if (!pol.shared) { a_left = -1; return; }
    uint64_t d = calm ? AINF : ({ int k = sim_randn(K_A, pol.amax + 1); 1 + sim_randn(K_A, 1ULL << k); });
    uint64_t v = sim_choose(K_A, AINF, d);
    a_left = v < 1 ? 1 : v > AINF ? AINF : (int64_t)v;
}

// ---------------------------------------------------------------- switching
extern "C" void sim_swap(void **save, void *to);
__asm__(".text\n.globl sim_swap\n.type sim_swap,@function\nsim_swap:\n"
        "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
        "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
        "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n.size sim_swap,.-sim_swap\n");

static void finish(int st) { R->vtime = sim_now(); R->nthreads = (int)thrs.size(); R->status = st; _exit(0); }
std::string sim_thread_dump(void) {
    std::string s; char b[200];
    for (Thr *t : thrs) if (t->state != 3) {
        snprintf(b, sizeof b, "  t%d %s %s at %s%s\n", t->id, t->name.c_str(), t->state == 1 ? (t->stalled_until > sim_now() ? "stalled" : "runnable") : "blocked", t->where ? t->where : "?", t == cur ? " (current)" : "");
        s += b;
    }
    return s;
}
static bool atfail = false;
void sim_fail(const char *key, const char *fmt, ...) {
    if (!atfail) {
        atfail = true;
        strncpy(R->key, key, sizeof R->key - 1);
        va_list ap; va_start(ap, fmt); int n = vsnprintf(R->msg, sizeof R->msg - 2500, fmt, ap); va_end(ap);
        if (n < 0) n = 0; if (n > (int)sizeof R->msg - 2501) n = sizeof R->msg - 2501;
        snprintf(R->msg + n, sizeof R->msg - n, "\n[t=%.6f s]\n%s", sim_now() * 1e-9, sim_thread_dump().c_str());
        sim_hash(hash_str(key));
    }
    finish(ST_VIOLATION);
    abort();
}
void sim_harness_error(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, ap); va_end(ap);
    strcpy(R->key, "harness"); finish(ST_HARNESS); abort();
}
void sim_note(const char *fmt, ...) {
    if (!sim_verbose) return;
    char b[2000]; va_list ap; va_start(ap, fmt); int n = snprintf(b, 100, "[%12.6f t%d] ", sim_now() * 1e-9, cur ? cur->id : -1); n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n'; ssize_t r = write(2, b, n); (void)r;
}

static void switch_to(Thr *t) {
    if (t == cur) return;
    Thr *o = cur; o->err = errno; cur = t; R->switches++;
    if (t->stalled_until && t->stalled_until <= g_time) t->stalled_until = 0;
    sim_hash(0x5157ULL << 32 | (uint64_t)t->id << 16 | (R->steps & 0xffff));
    sim_swap(&o->sp, t->sp);
    errno = cur->err;
}

static bool ready(Thr *t) { return t->state == 1 && t->stalled_until <= g_time; }
static Thr *pick(bool must_leave, double stay) {
    // candidate list in id order
    Thr *c[512]; int n = 0; bool cur_ok = ready(cur);
    for (Thr *t : thrs) if (ready(t) && !(must_leave && t == cur)) c[n++] = t;
    if (n == 0) return cur_ok ? cur : nullptr;
    // default: stay if allowed, else round-robin successor
    Thr *d = nullptr;
    if (!must_leave && cur_ok) d = cur;
    else { for (int i = 0; i < n; i++) if (c[i]->id > cur->id) { d = c[i]; break; } if (!d) d = c[0]; }
    if (n == 1) return c[0];
    Thr *x = d;
    if (!g_replay) {
        if (!must_leave && cur_ok && sim_randf(K_S) >= stay) x = cur;
        else if (calm) x = d == cur ? c[sim_randn(K_S, n)] : d;
        else switch (pol.pick) {
            case 0: x = c[sim_randn(K_S, n)]; break;
            case 1: { Thr *r = nullptr; for (int i = 0; i < n; i++) if (c[i]->id > cur->id) { r = c[i]; break; } x = r ? r : c[0]; break; }
            case 2: {
                if (sim_randf(K_S) < pol.pct_change) cur->prio = sim_randf(K_S) * 0.1;
                for (int i = 0; i < n; i++) if (c[i]->prio > x->prio) x = c[i];
                break; }
            default: {                       // one victim thread rarely gets to run
                x = c[sim_randn(K_S, n)];
                if (x->id == pol.victim && sim_randf(K_S) > pol.victim_p) x = c[sim_randn(K_S, n)];
                break; }
        }
    }
    uint64_t v = sim_choose(K_S, 0, x == d ? 0 : (uint64_t)x->id + 1);
    if (v == 0) return d;
    for (int i = 0; i < n; i++) if ((uint64_t)c[i]->id + 1 == v) return c[i];
    return d;
}
static void check_limits(void) {
    if (R->steps > cfg.max_steps) { strcpy(R->key, "step-limit"); snprintf(R->msg, sizeof R->msg, "step limit at t=%.3f s\n%s", sim_now() * 1e-9, sim_thread_dump().c_str()); finish(cfg.steps_fatal ? ST_VIOLATION : ST_INCONCLUSIVE); }
    if (g_time > 1000 * SEC + cfg.max_vtime) { if (cfg.vtime_fatal) sim_fail("no-progress", "the run does not come to an end within %.0f simulated seconds", cfg.max_vtime * 1e-9); strcpy(R->key, "vtime-limit"); snprintf(R->msg, sizeof R->msg, "virtual time limit\n%s", sim_thread_dump().c_str()); finish(ST_INCONCLUSIVE); }
}
static ns_t dl_at; static char dl_key[96], dl_what[300];
static void advance(void) {
    // nothing can run: jump to the next event or end of a stall
    for (;;) {
        check_limits();
        ns_t nt = evq.empty() ? 0 : evq.top().t;
        for (Thr *t : thrs) if (t->state == 1 && t->stalled_until > g_time && (nt == 0 || t->stalled_until < nt)) nt = t->stalled_until;
        if (nt == 0) {
            if (dl_at) sim_fail(dl_key, "%s: every thread is blocked for ever", dl_what);
            sim_fail("deadlock", "every thread is blocked for ever");
        }
        if (nt > g_time) g_time = nt;
        run_due();
        for (Thr *t : thrs) if (ready(t)) return;
    }
}
static void maybe_stall(Thr *t = cur, double factor = 1) {
    if (calm || cfg.p_stall <= 0 || (t->harness && !cfg.stall_harness)) return;
    uint64_t v = 0;
    if (!g_replay && sim_randf(K_T) < (factor > 1 ? std::min(0.3, cfg.p_stall * factor) : cfg.p_stall)) {
        double lo = log((double)cfg.stall_lo), hi = log((double)cfg.stall_hi);
        v = (uint64_t)(exp(lo + (hi - lo) * sim_randf(K_T)) / 1000) + 1;
    }
    v = sim_choose(K_T, 0, v);
    if (v) { t->stalled_until = g_time + v * 1000; sim_fault_note("stall"); sim_note("stall %lu us", v); }
}
static void leave_current(void) {           // current thread cannot run (blocked, done or stalled)
    Thr *t = nullptr;
    for (;;) {
        run_due();
        bool any = false; for (Thr *q : thrs) if (ready(q)) { any = true; break; }
        if (any) { t = pick(!ready(cur), 1.0); if (t) break; }
        advance();
    }
    rebudget();
    switch_to(t);
}
void core_point(const char *where) {
    if (!cur || in_event) return;
    flush_time(); check_limits();
    cur->where = where;
    run_due();
    if (cur->nopreempt) { rebudget(); return; }
    maybe_stall();
    if (!ready(cur)) { leave_current(); return; }
    Thr *t = pick(false, pol.p_sync);
    if (pre_left <= 0) next_budget();
    rebudget();
    if (t != cur) switch_to(t);
}
bool core_wait(void *chan, ns_t deadline, const char *where) {
    flush_time();
    if (in_event) sim_harness_error("blocking in an event at %s", where);
    cur->where = where; cur->state = 2; cur->chan = chan; cur->woken = false; cur->wake_gen++;
    if (deadline) evq.push({deadline < g_time ? g_time : deadline, evseq++, cur->id, cur->wake_gen, nullptr});
    leave_current();
    return cur->woken;
}
void core_wake(void *chan, int n) {
    Thr *c[512]; int k = 0;
    for (Thr *t : thrs) if (t->state == 2 && t->chan == chan) c[k++] = t;
    if (n < 0) { for (int i = 0; i < k; i++) wake_thr(c[i], false); return; }
    while (n-- > 0 && k > 0) {
        int i = 0;
        if (k > 1) { i = (int)(sim_choose(K_S, 0, calm ? 0 : sim_randn(K_S, k)) % k); }
        wake_thr(c[i], false); for (int j = i; j + 1 < k; j++) c[j] = c[j + 1]; k--;
    }
}
void core_sleep_until(ns_t when, const char *where) {
    static int dummy;
    core_wait(&dummy, when, where);
}
// slow path of the access hook
static void __attribute__((noinline)) slow(void *ra) {
    if (!cur || in_event) { budget = budget_start = 1 << 30; return; }
    flush_time(); check_limits();
    bool timers = !evq.empty() && evq.top().t <= g_time;
    if (timers) run_due();
    if (cur->nopreempt) { if (pre_left <= 0) pre_left = 1000; rebudget(); return; }
    Thr *t = cur;
    if (pre_left <= 0) {
        next_budget();
        if (pre_left < BINF || !g_replay) {}
        cur->where = "code";
        maybe_stall();
        if (!ready(cur)) { R->preempts++; leave_current(); return; }
        t = pick(true, 1.0);
        if (t && t != cur) { R->preempts++; uint64_t h = ((uint64_t)ra * 0x9E3779B97F4A7C15ULL) >> 48; R->cov[h >> 3] |= 1 << (h & 7); }
    } else if (timers && pol.p_wake > 0) {
        cur->where = "code";
        t = pick(false, pol.p_wake);
    }
    rebudget();
    if (t && t != cur) switch_to(t);
}
extern char _end;
static struct Hot { uint16_t tid; uint8_t flags; } hot[1 << 16];     // flags: 1 written, 2 shared (read/write conflict seen)
static void __attribute__((noinline)) hot_access(const void *p, bool store, void *ra) {
    if ((uintptr_t)p - 0x10000000000ULL > 0x30000000000ULL && (uintptr_t)p >= (uintptr_t)&_end) return;   // the harness's own heap
    Hot &h = hot[((uintptr_t)p >> 2) & 0xffff];
    uint16_t id = (uint16_t)(cur->id + 1);
    if (h.tid && h.tid != id && (store || (h.flags & 1))) h.flags |= 2;
    h.tid = id; if (store) h.flags |= 1;
    if ((h.flags & 2) && --a_left <= 0) {
        next_a();
        if (in_event || cur->nopreempt) return;
        flush_time(); check_limits(); run_due();
        cur->where = "code (shared data)";
        maybe_stall();
        if (!ready(cur)) { R->preempts++; leave_current(); return; }
        Thr *t = pick(true, 1.0);
        rebudget();
        if (t && t != cur) { R->preempts++; uint64_t k = ((uint64_t)ra * 0x9E3779B97F4A7C15ULL) >> 48; R->cov[k >> 3] |= 1 << (k & 7); switch_to(t); }
    }
}

// ---------------------------------------------------------------- heap
// Bump allocator in a fixed arena; blocks are never reused in a run, so that every access to freed
// memory and every overrun is seen by the access hook. Shadow byte per 16 bytes: 1..16 live bytes,
// 0 never allocated / red zone, 0xFD freed.
static const uintptr_t ARENA = 0x10000000000ULL, ARENA_SZ = 16ULL << 30, SHADOW = 0x18000000000ULL;
static uintptr_t brk_;
static uint8_t *const shadow = (uint8_t *)SHADOW;
static int heap_fill = 0;
struct Hdr { uint64_t magic, size, pad0, pad1; };
static bool heap_check = false;

void heap_init(void) {
    if (mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)ARENA ||
        mmap((void *)SHADOW, ARENA_SZ >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)SHADOW) { perror("rksim: arena"); _exit(3); }
    brk_ = ARENA + 4096;
}
static std::vector<uintptr_t> blocks; static size_t live_blocks = 0, live_bytes = 0; static void *heap_ra = nullptr;
size_t sim_heap_live(size_t *bytes) { if (bytes) *bytes = live_bytes; return live_blocks; }
size_t sim_heap_mark(void) { return blocks.size(); }
std::string sim_heap_dump(size_t from) {   // blocks allocated since the mark and still live, by call site
    std::map<uint64_t, std::pair<size_t, size_t>> m; for (size_t i = from; i < blocks.size(); i++) { Hdr *h = (Hdr *)(blocks[i] - sizeof(Hdr)); if (h->magic == 0x52414d53494d4b52ULL) { auto &x = m[h->pad0]; x.first++; x.second += h->size; } }
    std::string o; for (auto &x : m) { char b[96]; snprintf(b, sizeof b, " %zu blocks of %zu bytes from %lx;", x.second.first, x.second.second, (unsigned long)x.first); o += b; } return o; }
size_t sim_heap_live_since(size_t from) { size_t n = 0; for (size_t i = from; i < blocks.size(); i++) if (((Hdr *)(blocks[i] - sizeof(Hdr)))->magic == 0x52414d53494d4b52ULL) n++; return n; }
static void *halloc(size_t n, size_t align) {
    if (align < 16) align = 16; if (!n) n = 1;
    uintptr_t p = (brk_ + sizeof(Hdr) + 32 + align - 1) & ~(align - 1);
    size_t r = (n + 15) & ~15ULL;
    if (n > ARENA_SZ || p + r + 64 > ARENA + ARENA_SZ) return nullptr;
    brk_ = p + r;
    Hdr *h = (Hdr *)(p - sizeof(Hdr)); h->magic = 0x52414d53494d4b52ULL; h->size = n; h->pad0 = (uint64_t)(uintptr_t)heap_ra; h->pad1 = blocks.size(); blocks.push_back(p); live_blocks++; live_bytes += n;
    uint8_t *s = shadow + ((p - ARENA) >> 4);
    memset(s, 16, n >> 4); if (n & 15) s[n >> 4] = n & 15;
    return (void *)p;
}
extern "C" void *sim_malloc(size_t n) { heap_ra = RA(); void *p = halloc(n, 16); if (!p) { errno = ENOMEM; return p; } if (heap_fill && n <= 65536) memset(p, 0xA5, n); return p; }
extern "C" void *sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; heap_ra = RA(); return halloc(n, 16); }
extern "C" int sim_posix_memalign(void **o, size_t al, size_t n) { heap_ra = RA(); void *p = halloc(n, al); if (!p) return ENOMEM; if (heap_fill && n <= 65536) memset(p, 0xA5, n); *o = p; return 0; }
extern "C" void *sim_aligned_alloc(size_t al, size_t n) { void *p = nullptr; return sim_posix_memalign(&p, al, n) ? nullptr : p; }
extern "C" void *sim_fftwf_malloc(size_t n) { void *p = nullptr; sim_posix_memalign(&p, 64, n); return p; }
extern "C" void sim_free(void *p) {
    if (!p) return;
    uintptr_t a = (uintptr_t)p;
    if (a < ARENA || a >= brk_) { if (a >= ARENA + ARENA_SZ || a < ARENA) free(p); else sim_fail("mem:bad-free", "free of a pointer that was never allocated"); return; }
    Hdr *h = (Hdr *)(a - sizeof(Hdr));
    if (h->magic == 0xdeadULL) sim_fail("mem:double-free", "double free of a block of %lu bytes (caller %p)", (unsigned long)h->size, RA());
    if (h->magic != 0x52414d53494d4b52ULL) sim_fail("mem:bad-free", "free of a pointer inside a block (caller %p)", RA());
    h->magic = 0xdeadULL; live_blocks--; live_bytes -= h->size;
    memset(shadow + ((a - ARENA) >> 4), 0xFD, (h->size + 15) >> 4);
    if (h->size > 262144) { uintptr_t x = (a + 4095) & ~4095ULL, y = (a + h->size) & ~4095ULL; if (y > x) madvise((void *)x, y - x, MADV_DONTNEED); }
}
extern "C" void sim_fftwf_free(void *p) { sim_free(p); }
extern "C" void *sim_realloc(void *p, size_t n) {
    if (!p) return sim_malloc(n);
    if (!n) { sim_free(p); return nullptr; }
    Hdr *h = (Hdr *)((uintptr_t)p - sizeof(Hdr));
    if (h->magic != 0x52414d53494d4b52ULL) sim_fail("mem:bad-realloc", "realloc of a freed or foreign block (caller %p)", RA());
    void *q = sim_malloc(n); memcpy(q, p, h->size < n ? h->size : n); sim_free(p); return q;
}
extern "C" char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); memcpy(p, s, n); return p; }

static const char *heap_bad(uintptr_t o, size_t n) {
    for (uintptr_t g = o >> 4, e = (o + n - 1) >> 4; g <= e; g++) {
        uint8_t s = shadow[g];
        uintptr_t last = g == e ? ((o + n - 1) & 15) : 15;
        if (s == 0xFD) return "freed memory";
        if (s == 0) return "memory outside any block";
        if (last >= s) return "memory past the end of a block";
    }
    return nullptr;
}
static void __attribute__((noinline)) heap_report(const void *p, size_t n, bool store, void *ra, const char *why) {
    char key[96]; snprintf(key, sizeof key, "mem:%s:%s", why[0] == 'f' ? "use-after-free" : "out-of-bounds", store ? "write" : "read");
    sim_fail(key, "%s of %zu bytes of %s, pc=%p", store ? "write" : "read", n, why, ra);
}
static inline void heap_acc(const void *p, size_t n, bool store, void *ra) {
    uintptr_t o = (uintptr_t)p - ARENA;
    if (o < ARENA_SZ && heap_check) {
        uint8_t s = shadow[o >> 4];
        if (__builtin_expect(((o & 15) + n > s) || s == 0xFD, 0)) { const char *w = heap_bad(o, n); if (w) heap_report(p, n, store, ra, w); }
    }
}
void heap_access(const void *p, size_t n, bool store) { if (n) heap_acc(p, n, store, RA()); }
#define ACC(p, n, st) do { void *ra_ = RA(); if (__builtin_expect(--budget < 0, 0)) slow(ra_); if (__builtin_expect(a_left >= 0, 0)) hot_access(p, st, ra_); heap_acc(p, n, st, ra_); } while (0)
extern "C" {
void __sanitizer_cov_load1(uint8_t *p) { ACC(p, 1, false); }
void __sanitizer_cov_load2(uint16_t *p) { ACC(p, 2, false); }
void __sanitizer_cov_load4(uint32_t *p) { ACC(p, 4, false); }
void __sanitizer_cov_load8(uint64_t *p) { ACC(p, 8, false); }
void __sanitizer_cov_load16(void *p) { ACC(p, 16, false); }
void __sanitizer_cov_store1(uint8_t *p) { ACC(p, 1, true); }
void __sanitizer_cov_store2(uint16_t *p) { ACC(p, 2, true); }
void __sanitizer_cov_store4(uint32_t *p) { ACC(p, 4, true); }
void __sanitizer_cov_store8(uint64_t *p) { ACC(p, 8, true); }
void __sanitizer_cov_store16(void *p) { ACC(p, 16, true); }

// bulk memory functions: checked against the heap, and not atomic (a preemption may fall inside)
static inline void bulk(const void *p, size_t n, bool st, void *ra) { if (!n) return; heap_acc(p, n > 16 ? 16 : n, st, ra); uintptr_t o = (uintptr_t)p - ARENA; if (n > 16 && o < ARENA_SZ && heap_check) { const char *w = heap_bad(o, n); if (w) heap_report(p, n, st, ra, w); } }
static inline void tick(const void *p, size_t n, bool st, void *ra) { budget -= (int64_t)(n >> 3); if (__builtin_expect(--budget < 0, 0)) slow(ra); if (__builtin_expect(a_left >= 0, 0)) hot_access(p, st, ra); }
void *sim_memcpy(void *d, const void *s, size_t n) {
    void *ra = RA(); bulk(s, n, false, ra); bulk(d, n, true, ra);
    if (n <= 256) { tick(s, n, false, ra); tick(d, n, true, ra); return memmove(d, s, n); }
    size_t step = n > 65536 ? 4096 : 256;
    for (size_t i = 0; i < n; i += step) { size_t k = n - i < step ? n - i : step; tick((char *)s + i, k, false, ra); tick((char *)d + i, k, true, ra); memcpy((char *)d + i, (char *)s + i, k); }
    return d;
}
void *sim_memmove(void *d, const void *s, size_t n) { void *ra = RA(); bulk(s, n, false, ra); bulk(d, n, true, ra); tick(s, n, false, ra); tick(d, n, true, ra); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) {
    void *ra = RA(); bulk(d, n, true, ra);
    if (c == 0 && n >= 1 << 20 && (uintptr_t)d >= ARENA && (uintptr_t)d + n <= brk_) {   // private anonymous memory: dropping whole pages zeroes them
        uintptr_t a = ((uintptr_t)d + 4095) & ~4095UL, e = ((uintptr_t)d + n) & ~4095UL;
        tick(d, 4096, true, ra); memset(d, 0, a - (uintptr_t)d); madvise((void *)a, e - a, MADV_DONTNEED); memset((void *)e, 0, (uintptr_t)d + n - e);
        return d;
    }
    size_t step = n > 65536 ? 65536 : 256;
    for (size_t i = 0; i < n; i += step) { size_t k = n - i < step ? n - i : step; tick((char *)d + i, k > 4096 ? k / 8 : k, true, ra); memset((char *)d + i, c, k); }
    return d;
}
char *sim_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; void *ra = RA(); bulk(s, n, false, ra); bulk(d, n, true, ra); tick(s, n, false, ra); tick(d, n, true, ra); memmove(d, s, n); return d; }
char *sim_stpcpy(char *d, const char *s) { size_t n = strlen(s) + 1; void *ra = RA(); bulk(s, n, false, ra); bulk(d, n, true, ra); tick(s, n, false, ra); tick(d, n, true, ra); memmove(d, s, n); return d + n - 1; }
char *sim_strncpy(char *d, const char *s, size_t m) { size_t n = strnlen(s, m); void *ra = RA(); bulk(s, n, false, ra); bulk(d, m, true, ra); tick(s, n, false, ra); tick(d, m, true, ra); memmove(d, s, n); memset(d + n, 0, m - n); return d; }
char *sim_strcat(char *d, const char *s) { size_t a = strlen(d), n = strlen(s) + 1; void *ra = RA(); bulk(d + a, n, true, ra); tick(s, n, false, ra); tick(d, n, true, ra); memmove(d + a, s, n); return d; }
int sim_vsnprintf(char *d, size_t m, const char *f, va_list ap) {
    void *ra = RA(); va_list a2; va_copy(a2, ap); int n = vsnprintf(d, m, f, ap); va_end(a2);
    size_t k = n < 0 ? 0 : (size_t)n + 1 < m ? (size_t)n + 1 : m; bulk(d, k, true, ra); tick(d, k, true, ra); return n;
}
int sim_snprintf(char *d, size_t m, const char *f, ...) {
    void *ra = RA(); va_list ap; va_start(ap, f); int n = vsnprintf(d, m, f, ap); va_end(ap);
    size_t k = n < 0 ? 0 : (size_t)n + 1 < m ? (size_t)n + 1 : m; bulk(d, k, true, ra); tick(d, k, true, ra); return n;
}
// the formatting buffer is shared by all simulated threads: take a copy before the first point where another may run
static int put_str(char *d, const char *t, int n, void *ra) {
    bulk(d, n + 1, true, ra); size_t m = (size_t)n + 1, h = m / 2;
    if (m > 65536) { memcpy(d, t, m); tick(d, m, true, ra); return n; }
    char *c = (char *)alloca(m); memcpy(c, t, m);
    tick(d, h, true, ra); memcpy(d, c, h); tick(d + h, m - h, true, ra); memcpy(d + h, c + h, m - h); return n;
}
int sim_vsprintf(char *d, const char *f, va_list ap) { void *ra = RA(); static char t[1 << 20]; int n = vsnprintf(t, sizeof t, f, ap); return put_str(d, t, n, ra); }
int sim_sprintf(char *d, const char *f, ...) {
    void *ra = RA(); va_list ap; va_start(ap, f); static char t[1 << 20]; int n = vsnprintf(t, sizeof t, f, ap); va_end(ap);
    if (n > (int)sizeof t - 1) n = sizeof t - 1;
    return put_str(d, t, n, ra);
}
}

// ---------------------------------------------------------------- threads
static const uintptr_t STACKS = 0x30000000000ULL; static const size_t STKSZ = 8 << 20, STKSTEP = 16 << 20;
static int stack_fill = 0;
static void thr_exit_now(void *ret) {
    flush_time();
    cur->ret = ret; cur->state = 3; cur->where = "finished";
    sim_hash(0xE417ULL << 32 | cur->id);
    core_wake(cur, -1);
    leave_current();
    abort();
}
static void thr_main(void) {
    errno = 0;
    void *r = nullptr;
    if (cur->hfn) cur->hfn(); else r = cur->fn(cur->arg);
    thr_exit_now(r);
}
static Thr *thr_new(bool harness) {
    if (thrs.size() >= 4000) sim_harness_error("too many threads");
    Thr *t = new Thr(); t->id = (int)thrs.size();
    uintptr_t lo = STACKS + (uintptr_t)t->id * STKSTEP + (STKSTEP - STKSZ);
    if (mmap((void *)lo, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)lo) sim_harness_error("stack map");
    if (stack_fill) memset((void *)(lo + STKSZ - 32768), 0xA5, 32768);
    uint64_t *sp = (uint64_t *)(lo + STKSZ - 64);
    *--sp = 0; *--sp = (uint64_t)thr_main; for (int i = 0; i < 6; i++) *--sp = 0;
    t->sp = sp; t->state = 1; t->harness = harness; t->where = "start"; t->prio = 0.2 + sim_randf(K_S) * 0.8;
    thrs.push_back(t);
    return t;
}
int sim_spawn(const char *name, std::function<void()> fn) { Thr *t = thr_new(true); t->name = name; t->hfn = std::move(fn); core_point("spawn"); return t->id; }
void sim_join(int id) { Thr *t = thrs[id]; while (t->state != 3) core_wait(t, 0, "harness join"); }
bool sim_thread_done(int id) { return thrs[id]->state == 3; }
int sim_self(void) { return cur->id; }
void sim_sleep_ns(ns_t ns) { core_sleep_until(sim_now() + (ns ? ns : 1), "harness sleep"); }
void sim_yield(void) { core_point("yield"); }
bool sim_wait_until(std::function<bool()> c, ns_t timeout, ns_t poll) { ns_t e = sim_now() + timeout; for (;;) { if (c()) return true; if (sim_now() >= e) return false; sim_sleep_ns(poll); } }
int sim_unjoined_threads(void) { int n = 0; for (Thr *t : thrs) if (!t->harness && t->state == 3 && !t->joined && !t->detached) { n++; sim_note("never joined: %s", t->name.c_str()); } return n; }
int sim_live_code_threads(void) { int n = 0; for (Thr *t : thrs) if (!t->harness && t->state != 3) n++; return n; }
void sim_atomic_begin(void) { cur->nopreempt++; }
void sim_atomic_end(void) { cur->nopreempt--; }
void sim_calm(void) { calm = true; flush_time(); for (Thr *t : thrs) t->stalled_until = 0; if (pol.bmode == 0) pol.bmode = 1; pre_left = 1000; rebudget(); }
void sim_kill_others(void) { for (Thr *t : thrs) if (t != cur) { t->state = 3; t->where = "killed"; } std::priority_queue<Ev, std::vector<Ev>, EvCmp> e; evq.swap(e); }
static uint64_t dl_gen;
void sim_deadline(ns_t within, const char *key, const char *what) {
    uint64_t g = ++dl_gen; dl_at = sim_now() + within; snprintf(dl_key, sizeof dl_key, "%s", key); snprintf(dl_what, sizeof dl_what, "%s", what);
    double s = within * 1e-9;
    sim_at(dl_at, [g, s] { if (g == dl_gen && dl_at) sim_fail(dl_key, "%s: not done within %.3f s", dl_what, s); });
}
void sim_deadline_clear(void) { dl_gen++; dl_at = 0; }

extern "C" {
enum { C_CREATE = 1, C_JOIN, C_LOCK, C_UNLOCK, C_SEMW, C_SEMP, C_SLEEP, C_TIME, C_COND, C_RW, C_EXIT };
static void name_thread(Thr *t) { char b[40]; snprintf(b, sizeof b, "fn@%p", (void *)t->fn); t->name = b; }
int sim_pthread_create(pthread_t *o, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    core_call(C_CREATE, thrs.size());
    if (cfg.p_thread_fail > 0 && sim_fault("thread create fails", cfg.p_thread_fail)) { maybe_stall(cur, 10); core_point("pthread_create"); return EAGAIN; }
    Thr *t = thr_new(false); t->fn = fn; t->arg = arg; name_thread(t);
    maybe_stall(t, 10);      // a thread may be slow to begin
    *o = (pthread_t)(t->id + 1);
    core_point("pthread_create");
    return 0;
}
int sim_pthread_join(pthread_t th, void **ret) {
    core_call(C_JOIN, (uint64_t)th);
    uint64_t id = (uint64_t)th - 1;
    if (th == 0 || id >= thrs.size()) sim_fail("join-invalid", "pthread_join of a thread that was never created (caller %p)", RA());
    Thr *t = thrs[id];
    if (t->joined) sim_fail("join-twice", "pthread_join of a thread already joined (caller %p)", RA());
    while (t->state != 3) core_wait(t, 0, "pthread_join");
    t->joined = true; if (ret) *ret = t->ret;
    core_point("pthread_join");
    return 0;
}
int sim_pthread_detach(pthread_t th) { uint64_t id = (uint64_t)th - 1; if (id < thrs.size()) thrs[id]->detached = true; return 0; }
// thread local variables of the code under test (compiled with -femulated-tls): one copy per simulated thread
struct EmuTls { size_t size, align; void *slot, *value; };
static std::map<std::pair<void *, int>, void *> emutls;
void *sim___emutls_get_address(struct EmuTls *c) {
    void *&p = emutls[{(void *)c, cur->id}];
    if (!p) { p = ::aligned_alloc(64, (c->size + 63) / 64 * 64); if (c->value) ::memcpy(p, c->value, c->size); else ::memset(p, 0, c->size); }
    return p;
}
pthread_t sim_pthread_self(void) { return (pthread_t)(cur->id + 1); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void sim_pthread_exit(void *r) { thr_exit_now(r); abort(); }
int sim_pthread_kill(pthread_t, int) { return 0; }
int sim_pthread_cancel(pthread_t) { sim_fail("unsupported", "pthread_cancel"); }
int sim_pthread_setaffinity_np(pthread_t, size_t, const void *) { return 0; }
int sim_sched_setaffinity(pid_t, size_t, const void *) { return 0; }
int sim_pthread_setname_np(pthread_t, const char *) { return 0; }
int sim_pthread_attr_init(pthread_attr_t *) { return 0; }
int sim_pthread_attr_destroy(pthread_attr_t *) { return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t *, int) { return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t *, size_t) { return 0; }
int sim_pthread_attr_setschedpolicy(pthread_attr_t *, int) { return 0; }
int sim_pthread_attr_setschedparam(pthread_attr_t *, const void *) { return 0; }
int sim_sched_yield(void) { core_call(C_SLEEP); core_cost(1000); core_point("sched_yield"); return 0; }

struct Mtx { uint32_t magic; int owner; int count; int kind; };     // inside pthread_mutex_t; all zero = unlocked
static void touch(void *p, void *ra) { heap_acc(p, 16, true, ra); }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); if (a) { int k; pthread_mutexattr_gettype(a, &k); ((Mtx *)m)->kind = k; } return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { touch(m, RA()); ((Mtx *)m)->magic = 0xdead; return 0; }
static int mlock(Mtx *m, ns_t dl, const char *w) {
    core_call(C_LOCK);
    core_point(w);
    if (m->owner == cur->id + 1) { if (m->kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; } if (m->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK; }
    while (m->owner) { if (!core_wait(m, dl, w) && dl && sim_now() >= dl) return ETIMEDOUT; }
    m->owner = cur->id + 1; m->count = 1;
    return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) { touch(m, RA()); return mlock((Mtx *)m, 0, "pthread_mutex_lock"); }
int sim_pthread_mutex_trylock(pthread_mutex_t *p) { touch(p, RA()); Mtx *m = (Mtx *)p; core_call(C_LOCK); core_point("trylock"); if (m->owner) { if (m->owner == cur->id + 1 && m->kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; } return EBUSY; } m->owner = cur->id + 1; m->count = 1; return 0; }
static ns_t abs_rt(const struct timespec *t) { int64_t v = (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec - wall_off_ns; return v < 1 ? 1 : (ns_t)v; }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return mlock((Mtx *)m, abs_rt(t), "timedlock"); }
int sim_pthread_mutex_unlock(pthread_mutex_t *p) {
    touch(p, RA());
    Mtx *m = (Mtx *)p; core_call(C_UNLOCK);
    if (m->owner != cur->id + 1) { sim_probe("unlock of a mutex not owned"); if (!m->owner) return m->kind == PTHREAD_MUTEX_ERRORCHECK ? EPERM : 0; }
    if (--m->count > 0) return 0;
    m->owner = 0; m->count = 0;
    core_wake(m, 1);
    core_point("pthread_mutex_unlock");
    return 0;
}
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *p, ns_t dl) {
    Mtx *m = (Mtx *)p; core_call(C_COND);
    m->owner = 0; m->count = 0; core_wake(m, 1);
    bool w = core_wait(c, dl, "pthread_cond_wait");
    while (m->owner) core_wait(m, 0, "pthread_cond_wait (mutex)");
    m->owner = cur->id + 1; m->count = 1;
    return w ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { cwait(c, m, 0); return 0; }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cwait(c, m, abs_rt(t)); }
int sim_pthread_cond_signal(pthread_cond_t *c) { core_call(C_COND); core_wake(c, 1); core_point("cond_signal"); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { core_call(C_COND); core_wake(c, -1); core_point("cond_broadcast"); return 0; }
struct Rw { int writer, readers; };
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { Rw *r = (Rw *)l; core_call(C_RW); core_point("rdlock"); while (r->writer) core_wait(r, 0, "rdlock"); r->readers++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { Rw *r = (Rw *)l; core_call(C_RW); core_point("wrlock"); while (r->writer || r->readers) core_wait(r, 0, "wrlock"); r->writer = 1; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l) { Rw *r = (Rw *)l; core_call(C_RW); if (r->writer) r->writer = 0; else if (r->readers) r->readers--; core_wake(r, -1); core_point("rwunlock"); return 0; }
int sim_pthread_spin_init(pthread_spinlock_t *l, int) { *(volatile int *)l = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *l) { core_call(C_LOCK); core_point("spin"); while (*(volatile int *)l) core_wait((void *)l, 0, "spin"); *(volatile int *)l = 1; return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *l) { if (*(volatile int *)l) return EBUSY; *(volatile int *)l = 1; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t *l) { *(volatile int *)l = 0; core_wake((void *)l, 1); core_point("spin"); return 0; }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { if (*(volatile int *)o == 0) { *(volatile int *)o = 1; f(); *(volatile int *)o = 2; core_wake((void *)o, -1); } else while (*(volatile int *)o == 1) core_wait((void *)o, 0, "once"); return 0; }
struct Bar { unsigned n, in, gen; };
int sim_pthread_barrier_init(pthread_barrier_t *b, const void *, unsigned n) { Bar *x = (Bar *)b; x->n = n; x->in = x->gen = 0; return 0; }
int sim_pthread_barrier_destroy(pthread_barrier_t *) { return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t *b) { Bar *x = (Bar *)b; core_call(C_COND); if (++x->in == x->n) { x->in = 0; x->gen++; core_wake(x, -1); core_point("barrier"); return PTHREAD_BARRIER_SERIAL_THREAD; } unsigned g = x->gen; while (g == x->gen) core_wait(x, 0, "barrier"); return 0; }

struct Sem { uint32_t magic; int value; int refs; int unlinked; };
struct NamedSem { Sem *s; };
static std::map<std::string, Sem *> named;
sem_t *sim_sem_open(const char *name, int fl, ...) {
    core_call(C_SEMP, hash_str(name));
    unsigned v = 0; va_list ap; va_start(ap, fl); if (fl & O_CREAT) { (void)va_arg(ap, int); v = va_arg(ap, unsigned); } va_end(ap);
    auto it = named.find(name);
    if (it != named.end()) { if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return SEM_FAILED; } it->second->refs++; return (sem_t *)it->second; }
    if (!(fl & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    Sem *s = (Sem *)sim_malloc(sizeof(sem_t)); s->magic = 0x5e; s->value = (int)v; s->refs = 1; s->unlinked = 0; named[name] = s;
    return (sem_t *)s;
}
int sim_sem_unlink(const char *n) { core_call(C_SEMP); auto it = named.find(n); if (it == named.end()) { errno = ENOENT; return -1; } Sem *s = it->second; named.erase(it); s->unlinked = 1; if (s->refs <= 0) sim_free(s); return 0; }
int sim_sem_close(sem_t *p) { touch(p, RA()); core_call(C_SEMP); Sem *s = (Sem *)p; if (--s->refs <= 0 && s->unlinked) sim_free(s); return 0; }
int sim_sem_init(sem_t *s, int, unsigned v) { Sem *x = (Sem *)s; x->magic = 0x5e; x->value = (int)v; return 0; }
int sim_sem_destroy(sem_t *) { return 0; }
int sim_sem_post(sem_t *s) { touch(s, RA()); Sem *x = (Sem *)s; core_call(C_SEMP); x->value++; core_wake(x, 1); core_point("sem_post"); return 0; }
int sim_sem_wait(sem_t *s) { touch(s, RA()); Sem *x = (Sem *)s; core_call(C_SEMW); core_point("sem_wait"); while (x->value <= 0) core_wait(x, 0, "sem_wait"); x->value--; return 0; }
int sim_sem_trywait(sem_t *s) { touch(s, RA()); Sem *x = (Sem *)s; core_call(C_SEMW); core_point("sem_trywait"); if (x->value <= 0) { errno = EAGAIN; return -1; } x->value--; return 0; }
int sim_sem_timedwait(sem_t *s, const struct timespec *t) { touch(s, RA()); Sem *x = (Sem *)s; ns_t dl = abs_rt(t); core_call(C_SEMW); core_point("sem_timedwait"); while (x->value <= 0) { if (sim_now() >= dl) { errno = ETIMEDOUT; return -1; } core_wait(x, dl, "sem_timedwait"); } x->value--; return 0; }
int sim_sem_getvalue(sem_t *s, int *v) { *v = ((Sem *)s)->value; return 0; }

// ---------------------------------------------------------------- time
static void do_sleep(ns_t ns, const char *w) {
    core_call(C_SLEEP, ns);
    uint64_t j = 0;
    if (!calm && cfg.p_jitter > 0) {
        uint64_t d = 0;
        if (!g_replay && sim_randf(K_J) < cfg.p_jitter) d = 1 + (uint64_t)(exp(log((double)cfg.jitter_hi / 1000.0) * sim_randf(K_J)));
        j = sim_choose(K_J, 0, d) * 1000;
    }
    if (ns == 0) ns = 1000;
    core_sleep_until(sim_now() + ns + j, w);
}
int sim_usleep(useconds_t us) { do_sleep((ns_t)us * 1000 + 50000, "usleep"); return 0; }
unsigned sim_sleep(unsigned s) { do_sleep((ns_t)s * SEC, "sleep"); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { if (t->tv_sec < 0 || t->tv_nsec < 0 || t->tv_nsec > 999999999) { errno = EINVAL; return -1; } do_sleep((ns_t)t->tv_sec * SEC + t->tv_nsec + 50000, "nanosleep"); return 0; }
static void put_ts(struct timespec *t, int64_t ns) { int64_t s = ns / 1000000000LL, r = ns % 1000000000LL; if (r < 0) { r += 1000000000LL; s--; } t->tv_sec = s; t->tv_nsec = r; }
int sim_clock_gettime(clockid_t c, struct timespec *t) { core_cost(30); put_ts(t, (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? sim_wall_ns() : (int64_t)sim_now()); return 0; }
int sim_clock_getres(clockid_t, struct timespec *t) { if (t) { t->tv_sec = 0; t->tv_nsec = 1; } return 0; }
int sim_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *) {
    int64_t v = (int64_t)t->tv_sec * 1000000000LL + t->tv_nsec, now = c == CLOCK_REALTIME ? sim_wall_ns() : (int64_t)sim_now();
    if (fl & TIMER_ABSTIME) v -= now; if (v < 0) v = 0; do_sleep((ns_t)v + 50000, "clock_nanosleep"); return 0;
}
int sim_gettimeofday(struct timeval *t, void *) { core_cost(30); struct timespec s; put_ts(&s, sim_wall_ns()); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t sim_time(time_t *o) { struct timespec s; core_cost(30); put_ts(&s, sim_wall_ns()); if (o) *o = s.tv_sec; return s.tv_sec; }
clock_t sim_clock(void) { return (clock_t)(sim_now() / 1000); }
int sim_getrusage(int, struct rusage *r) { memset(r, 0, sizeof *r); ns_t n = sim_now(); r->ru_utime.tv_sec = n / SEC; r->ru_utime.tv_usec = (n % SEC) / 1000; return 0; }
static uint64_t rnd_state = 12345;
int sim_rand_(void) { return (int)(splitmix(rnd_state) >> 33); }
void sim_srand_(unsigned s) { rnd_state = s; }
long sim_random_(void) { return (long)(splitmix(rnd_state) >> 33); }
double sim_drand48_(void) { return (splitmix(rnd_state) >> 11) * (1.0 / 9007199254740992.0); }
int sim_rand_r_(unsigned *s) { uint64_t x = *s; int v = (int)(splitmix(x) >> 33); *s = (unsigned)x; return v; }
void sim_exit(int c) { if (cfg.exit_ok) { sim_probe("exit() called"); core_sleep_until(sim_now() + 100000 * SEC, "exit"); } sim_fail("exit", "the library ended the whole process with exit(%d), caller %p", c, RA()); }
void sim_abort(void) { sim_fail("abort", "the library called abort(), caller %p", RA()); }
typedef void (*sh_t)(int);
sh_t sim_signal(int, sh_t) { return SIG_DFL; }
int sim_sigaction(int, const void *, void *) { return 0; }
int sim_raise(int) { return 0; }
}

bool sim_fault(const char *name, double p) {
    if (calm) return false;
    uint64_t d = (!g_replay && p > 0 && sim_randf(K_F) < p) ? 1 : 0;
    bool v = sim_choose(K_F, 0, d) != 0;
    if (v) { sim_fault_note(name); sim_note("fault: %s", name); }
    return v;
}
uint64_t sim_fault_n(const char *name, double p, uint64_t lo, uint64_t hi) {
    if (calm || hi < lo) return 0;
    uint64_t d = (!g_replay && p > 0 && sim_randf(K_F) < p) ? lo + sim_randn(K_F, hi - lo + 1) : 0;
    uint64_t v = sim_choose(K_F, 0, d);
    if (v) { if (v < lo) v = lo; if (v > hi) v = hi; sim_fault_note(name); sim_note("fault: %s %lu", name, v); }
    return v;
}

// ---------------------------------------------------------------- run
static void on_crash(int sig, siginfo_t *si, void *uc) {
    ucontext_t *u = (ucontext_t *)uc;
    void *pc = (void *)u->uc_mcontext.gregs[REG_RIP];
    if (sig == SIGALRM) { strcpy(R->key, "wall-limit"); snprintf(R->msg, sizeof R->msg, "real time limit at t=%.3f s, pc=%p\n%s", sim_now() * 1e-9, pc, sim_thread_dump().c_str()); R->status = ST_INCONCLUSIVE; _exit(0); }
    snprintf(R->key, sizeof R->key, "crash:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : "SIGILL");
    int n = snprintf(R->msg, sizeof R->msg, "signal %d at pc=%p in thread t%d", sig, pc, cur ? cur->id : -1);
    uint64_t *sp = (uint64_t *)u->uc_mcontext.gregs[REG_RSP];          // likely callers: return addresses into our text
    if ((uintptr_t)sp > STACKS && (uintptr_t)sp < STACKS + 300 * STKSTEP) for (int i = 0, k = 0; i < 400 && k < 6 && ((uintptr_t)(sp + i) & (STKSTEP - 1)) > 64; i++) if (sp[i] > 0x400000 && sp[i] < 0x2000000) { n += snprintf(R->msg + n, sizeof R->msg - n, " %p", (void *)sp[i]); k++; }
    snprintf(R->msg + n, sizeof R->msg - n, "\n%s", sim_thread_dump().c_str());
    (void)si;
    R->vtime = sim_now(); R->nthreads = (int)thrs.size(); R->status = ST_VIOLATION; _exit(0);
}
void core_init_run(uint64_t seed) {
    g_seed = seed;
    uint64_t s = seed ^ 0xABCDEF0123456789ULL;
    for (int k = 0; k < K_COUNT; k++) kstate[k] = splitmix(s);
    wlstate = seed ^ hash_str("workload"); splitmix(wlstate); rnd_state = seed ^ 77;
    R->hash = 0xcbf29ce484222325ULL;
    pol.pick = (int)P("_pick", 0, 3);
    static const double ps[] = {0.0, 0.05, 0.3, 1.0};
    pol.p_sync = ps[P("_psync", 0, 3)];
    pol.bmode = (int)P("_bmode", 0, 2);
    pol.bmax = (int)P("_bmax", 6, 20);
    pol.shared = Pbool("_shared", 0.5);
    pol.amax = (int)P("_amax", 2, 14);
    pol.p_wake = ps[P("_pwake", 0, 3)];
    pol.pct_change = 0.0005 * (double)P("_pct", 0, 20);
    pol.victim = (int)P("_victim", 1, 12);
    pol.victim_p = 0.02;
    static const int st[] = {2, 2, 1, 5, 20};
    pol.step_ns = st[P("_step", 0, 4)];
    heap_fill = Pbool("_fill", 0.5); stack_fill = Pbool("_sfill", 0.3);
    g_time = 1000 * SEC; wall_off_ns = 0;
    sim_wall_set(1700000000LL + (int64_t)(seed % 1000) * 3607);
}
void core_run(void (*fn)(void)) {
    static char alt[65536];
    stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa = {}; sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(sg, &sa, nullptr);
    next_budget(); if (pol.shared) next_a();
    Thr *t = thr_new(true); t->name = "main"; t->hfn = [fn] {
        fn();
        sim_hash(R->steps);
        finish(ST_PASS);
    };
    cur = t; rebudget();
    heap_check = true;
    sim_swap(&host_sp, t->sp);
}
struct HeapOff { HeapOff() { heap_check = false; } };
void sim_set_heap_check(bool on) { heap_check = on; }
