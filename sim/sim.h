// rksim: deterministic simulator for RadarKit (see /verif/DESIGN.md)
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <sys/types.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

// ---- decisions -------------------------------------------------------------------------------
// Every nondeterministic choice goes through sim_choose(): the n-th choice of a kind is drawn from
// that kind's own PRNG stream, or, on replay, taken from the recorded list of non-default choices.
enum { K_S, K_B, K_A, K_T, K_J, K_F, K_N, K_COUNT };
// S who runs next; B accesses until the next preemption; A conflicting accesses until the next
// preemption; T stall; J timer lateness; F fault; N network segmentation and latency
uint64_t sim_choose(int kind, uint64_t dflt, uint64_t drawn);
uint64_t sim_rand(int kind);                       // raw draw of a kind's stream
uint64_t sim_randn(int kind, uint64_t n);          // [0, n)
bool sim_fault(const char *name, double p);        // true if this fault fires now (K_F), counted by name
uint64_t sim_fault_n(const char *name, double p, uint64_t lo, uint64_t hi);  // 0: no fault; else a value in [lo, hi]
void sim_fault_note(const char *name);             // count a scripted (workload-placed) fault

// ---- workload --------------------------------------------------------------------------------
int64_t P(const char *name, int64_t lo, int64_t hi);       // per-run parameter (recorded, shrunk towards lo)
bool Pbool(const char *name, double p);                    // per-run flag (shrunk towards 0)
uint64_t wl(uint64_t n);                                   // workload stream [0, n)
double wlf(void);                                          // workload stream [0, 1)

// ---- outcome ---------------------------------------------------------------------------------
[[noreturn]] void sim_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(c, key, ...) do { if (!(c)) sim_fail(key, __VA_ARGS__); } while (0)
[[noreturn]] void sim_harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_probe(const char *name, uint64_t n = 1);          // reach counter
void sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // verbose trace (never affects the run)
void sim_hash(uint64_t v);                                 // mix an observation into the trace hash
void sim_hash_bytes(const void *p, size_t n);
extern int sim_verbose;

// ---- time ------------------------------------------------------------------------------------
typedef uint64_t ns_t;
#define US 1000ULL
#define MS 1000000ULL
#define SEC 1000000000ULL
ns_t sim_now(void);
double sim_wall(void);
int64_t sim_wall_ns(void);
void sim_wall_jump(int64_t ns);
void sim_wall_set(int64_t epoch_s);
void sim_at(ns_t when, std::function<void()> fn);          // event (runs outside any thread; must not block)

// ---- threads ---------------------------------------------------------------------------------
int sim_spawn(const char *name, std::function<void()> fn); // harness thread; returns its id
void sim_join(int tid);
bool sim_thread_done(int tid);
void sim_sleep_ns(ns_t ns);                                // exact sleep of a harness thread
void sim_yield(void);
bool sim_wait_until(std::function<bool()> cond, ns_t timeout, ns_t poll = 1 * MS);
int sim_unjoined_threads(void);                             // threads made by the code under test, ended and never joined
int sim_live_code_threads(void);                           // threads made by the code under test, still running
std::string sim_thread_dump(void);
int sim_self(void);
void sim_deadline(ns_t within, const char *key, const char *what);   // liveness: fail if not cleared in time
void sim_deadline_clear(void);
void sim_calm(void);                                       // no more faults, stalls, jitter; fair scheduling from here on
void sim_kill_others(void);                                // process crash: no other thread runs any more
void sim_atomic_begin(void);                               // harness: no preemption inside
void sim_atomic_end(void);

// ---- configuration of a run (set by the scenario before it starts the code) --------------------
struct SimCfg {
    double p_stall = 0;            // per scheduling point
    ns_t stall_lo = 1 * MS, stall_hi = 200 * MS;
    double p_jitter = 0.2;         // per sleep
    ns_t jitter_hi = 5 * MS;
    uint64_t max_steps = 400000000ULL;
    bool steps_fatal = false;      // a run that reaches it is a violation (an endless loop)
    ns_t max_vtime = 3600 * SEC;
    bool vtime_fatal = true;       // reaching it is a violation (no progress), else the run is inconclusive
    bool heap_check = true;
    bool exit_ok = false;
    bool stall_harness = false;    // may harness threads be stalled / preempted for long too
    // disk
    double p_open_fail = 0, p_write_short = 0, p_write_fail = 0, p_disk_slow = 0;
    double p_read_fail = 0, p_read_short = 0, p_stat_fail = 0, p_unlink_fail = 0, p_dir_fail = 0;
    ns_t disk_slow_hi = 50 * MS;
    bool slow_reads = false;
    int64_t disk_capacity = -1;    // bytes, -1 unlimited
    bool readdir_shuffle = true;
    bool dt_unknown = false;
    // net
    double p_send_short = 0, p_recv_short = 0, p_lat_jitter = 0, p_eintr = 0, p_accept_fail = 0;
    double p_send_eagain = 0, p_sock_fail = 0;
    ns_t latency = 200 * US, latency_jitter = 20 * MS;
    int64_t sndbuf = 262144, rcvbuf = 262144;
    // sync
    double p_thread_fail = 0;
};
extern SimCfg cfg;

// ---- files -----------------------------------------------------------------------------------
bool vfs_exists(const std::string &path);
bool vfs_isdir(const std::string &path);
void vfs_mkdirs(const std::string &path);
void vfs_put(const std::string &path, const std::string &data, int64_t mtime_s);
void vfs_save(const std::string &path, const std::string &data, int how);       // now, in place or by a new file (how = 1)
void vfs_put_size(const std::string &path, uint64_t size, int64_t mtime_s);   // sparse content
const std::string &vfs_get(const std::string &path);
uint64_t vfs_size(const std::string &path);
int64_t vfs_used(void);
std::vector<std::string> vfs_list(const std::string &prefix);                 // files below a folder
std::vector<std::string> vfs_dirs(const std::string &prefix);
void vfs_remove(const std::string &path);
struct VfsOp { ns_t t; char op; std::string path; int tid; };     // 'u' unlink, 'r' rmtree, 'c' create, 'm' mkdir, 'w' close after write
extern std::vector<VfsOp> vfs_log;
extern std::function<void(const VfsOp &)> vfs_hook;               // called at each such operation, before it takes effect; must not block
int sim_open_fds(void);
int sim_open_streams(void);
std::string sim_fd_dump(void);
size_t sim_heap_live(size_t *bytes);                          // live blocks of the code under test
size_t sim_heap_mark(void); size_t sim_heap_live_since(size_t mark); std::string sim_heap_dump(size_t mark);
extern std::vector<std::string> sim_system_log;

// ---- network ---------------------------------------------------------------------------------
// Harness endpoints use these directly (they run as simulated threads).
int net_listen(int port, int backlog = 16);                      // harness server socket
int net_accept(int ls, ns_t timeout);                            // -1 on timeout
int net_connect(int port, ns_t timeout);                         // -1 refused / timeout
long net_send_all(int fd, const void *p, size_t n, ns_t timeout);// bytes sent (stops on error/timeout)
long net_recv_some(int fd, void *p, size_t n, ns_t timeout);     // >0 bytes, 0 EOF, -1 error, -2 timeout
void net_close(int fd);                                          // orderly (FIN)
void net_reset(int fd);                                          // RST both ways
void net_blackhole(int fd, bool on);                             // packets in both directions are held
void net_port_refuse(int port, bool on);
void net_port_blackhole(int port, bool on);
size_t net_rx_avail(int fd);
void net_set_buf(int fd, int64_t snd, int64_t rcv);
int net_listeners(int port);
// ICMP echo: the hook sees each datagram the code sends and schedules replies
struct IcmpSend { int sock; uint32_t ip; std::string data; ns_t t; };
extern std::function<void(const IcmpSend &)> icmp_hook;
bool icmp_open(int sock);
void icmp_deliver(int sock, uint32_t from_ip, const std::string &data, ns_t delay);
extern std::function<int(int sock)> icmp_send_error;             // nonzero errno: sendto fails
extern std::map<std::string, uint32_t> dns_table;                // host order ip; unknown names resolve to 127.0.0.1
extern bool dns_fail;

// ---- scenarios ---------------------------------------------------------------------------------
struct Scenario { const char *name; const char *property; void (*fn)(void); };
void sim_register(const Scenario &s);
#define SCENARIO(name_, prop_) static void scen_##name_(void); \
    static struct Reg_##name_ { Reg_##name_() { sim_register({#name_, prop_, scen_##name_}); } } reg_##name_; \
    static void scen_##name_(void)
