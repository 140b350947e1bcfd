#pragma once
#include "sim.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>

struct Decision { uint64_t key, val; };                    // key = kind << 56 | index
struct NamedCount { char name[40]; uint64_t n; };
struct ParamRec { char name[40]; int64_t val, lo; };
enum { ST_RUNNING, ST_PASS, ST_VIOLATION, ST_INCONCLUSIVE, ST_HARNESS };
#define MAXDEC 400000
#define COVBITS (1 << 16)
struct Result {
    volatile int status;
    char key[96];
    char msg[6000];
    volatile uint64_t hash;
    volatile uint64_t steps, switches, preempts, calls;
    volatile uint64_t vtime;
    int nparam, nfault, nprobe, nthreads;
    ParamRec param[128];
    NamedCount fault[64];
    NamedCount probe[64];
    uint64_t nchoice[K_COUNT];
    int ndec, dec_overflow;
    uint8_t cov[COVBITS / 8];                              // preemption sites (return addresses) hashed
    char wlog[4096];
    int wlog_len;
    Decision dec[MAXDEC];
};
extern Result *R;
extern bool g_replay;                                      // decisions come from g_rdec only
extern std::map<uint64_t, uint64_t> g_rdec;
extern std::map<std::string, int64_t> g_rparam;
extern uint64_t g_seed;

struct Thr {
    int id;
    void *sp;
    int state;                                             // 0 free 1 runnable 2 blocked 3 done
    void *chan;
    uint64_t wake_gen;
    bool woken;
    const char *where;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    std::function<void()> hfn;
    bool harness, joined, detached;
    std::string name;
    int err;
    double prio;
    ns_t stalled_until;
    uint64_t accesses;
    int nopreempt;
    void *ra;
};
extern Thr *cur;
extern std::vector<Thr *> thrs;

void core_point(const char *where);                        // scheduling point (may switch)
bool core_wait(void *chan, ns_t deadline, const char *where);   // true if woken, false on timeout (0 = no deadline)
void core_wake(void *chan, int n);                         // n < 0: all
void core_sleep_until(ns_t when, const char *where);
void core_call(int code, uint64_t a = 0, uint64_t b = 0);  // cost and hash of one library call
void core_cost(ns_t ns);
void core_init_run(uint64_t seed);
void core_run(void (*fn)(void));
bool core_calm(void);
void heap_init(void);
extern "C" void *sim_malloc(size_t n);
extern "C" void sim_free(void *p);
extern "C" void *sim_realloc(void *p, size_t n);
void os_init(void);
void heap_access(const void *p, size_t n, bool store);
#define RA() __builtin_return_address(0)
