// Files, folders, streams, sockets and other system calls of rksim
#include "internal.h"
#include <stdarg.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/statvfs.h>
#include <poll.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include <time.h>
#include <set>
#include <deque>
#include <algorithm>
#include <netcdf.h>
#include <fftw3.h>

enum { C_OPEN = 32, C_CLOSE, C_READ, C_WRITE, C_STAT, C_REMOVE, C_MKDIR, C_DIR, C_SYSTEM, C_SOCKET, C_CONNECT, C_ACCEPT, C_SEND, C_RECV, C_SELECT, C_FOPEN, C_FCLOSE, C_NC, C_ICMP, C_CTL };

// ================================================================ VFS
struct Node { bool dir = false, virt = false; std::string data; uint64_t vsize = 0; int64_t mtime = 0, ctime = 0; long mns = 0; uint64_t ino = 0; int open = 0; bool unlinked = false; uint64_t size() const { return virt ? vsize : data.size(); } };
static std::map<std::string, Node *> fs;
static std::string cwd = "/home/radar";
std::vector<VfsOp> vfs_log;
std::vector<std::string> sim_system_log;
std::function<void(const VfsOp &)> vfs_hook;
static void vlog(char op, const std::string &p) { if (!cur) return; vfs_log.push_back({sim_now(), op, p, cur->id}); if (vfs_hook) { VfsOp o = vfs_log.back(); vfs_hook(o); } }
static std::string norm(const std::string &in) {
    std::string p = in.empty() || in[0] != '/' ? cwd + "/" + in : in;
    std::vector<std::string> parts; size_t i = 0;
    while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); std::string s = p.substr(i, j - i); if (s == "..") { if (!parts.empty()) parts.pop_back(); } else if (!s.empty() && s != ".") parts.push_back(s); i = j + 1; }
    std::string o; for (auto &s : parts) o += "/" + s; return o.empty() ? "/" : o;
}
static std::string parent(const std::string &p) { size_t k = p.rfind('/'); return k == 0 || k == std::string::npos ? "/" : p.substr(0, k); }
static Node *lookup(const std::string &p) { auto it = fs.find(p); return it == fs.end() ? nullptr : it->second; }
static int64_t now_s(void) { int64_t n = sim_wall_ns(); return n / 1000000000LL; }
static uint64_t ino_next;
static Node *mknode(const std::string &p, bool dir) { Node *n = new Node(); n->dir = dir; n->mtime = n->ctime = now_s(); fs[p] = n; return n; }
void vfs_mkdirs(const std::string &path) { std::string p = norm(path); for (size_t k = 1; k <= p.size(); k++) if (k == p.size() || p[k] == '/') { std::string s = p.substr(0, k); if (!lookup(s)) mknode(s, true); } }
static void vfs_init(void) { if (!fs.empty()) return; mknode("/", true); vfs_mkdirs("/tmp"); vfs_mkdirs("/home/radar"); vfs_mkdirs("/dev"); }
bool vfs_exists(const std::string &p) { return lookup(norm(p)) != nullptr; }
bool vfs_isdir(const std::string &p) { Node *n = lookup(norm(p)); return n && n->dir; }
void vfs_save(const std::string &path, const std::string &d, int how) {   // as an editor does: 0 in place, 1 by a new file, 2 in place with the same length
    std::string p = norm(path); if (how == 1) vfs_remove(path); vfs_put(path, d, now_s()); Node *n = lookup(p); n->mns = (long)(sim_wall_ns() % 1000000000LL); if (how == 1) n->ino = ++ino_next;
}
void vfs_put(const std::string &path, const std::string &d, int64_t mt) { std::string p = norm(path); vfs_mkdirs(parent(p)); Node *n = lookup(p); if (!n) n = mknode(p, false); n->data = d; n->virt = false; n->mtime = n->ctime = mt; }
void vfs_put_size(const std::string &path, uint64_t s, int64_t mt) { std::string p = norm(path); vfs_mkdirs(parent(p)); Node *n = lookup(p); if (!n) n = mknode(p, false); n->virt = true; n->vsize = s; n->mtime = n->ctime = mt; }
const std::string &vfs_get(const std::string &p) { static std::string e; Node *n = lookup(norm(p)); return n ? n->data : e; }
uint64_t vfs_size(const std::string &p) { Node *n = lookup(norm(p)); return n ? n->size() : 0; }
int64_t vfs_used(void) { int64_t s = 0; for (auto &k : fs) if (!k.second->dir) s += (int64_t)k.second->size(); return s; }
std::vector<std::string> vfs_list(const std::string &pre) { std::string p = norm(pre); if (p != "/") p += "/"; std::vector<std::string> o; for (auto it = fs.lower_bound(p); it != fs.end() && it->first.compare(0, p.size(), p) == 0; ++it) if (!it->second->dir) o.push_back(it->first); return o; }
std::vector<std::string> vfs_dirs(const std::string &pre) { std::string p = norm(pre); if (p != "/") p += "/"; std::vector<std::string> o; for (auto it = fs.lower_bound(p); it != fs.end() && it->first.compare(0, p.size(), p) == 0; ++it) if (it->second->dir) o.push_back(it->first); return o; }
static bool has_children(const std::string &p) { std::string q = p == "/" ? p : p + "/"; auto it = fs.lower_bound(q); return it != fs.end() && it->first.compare(0, q.size(), q) == 0; }
static void drop(const std::string &p) { auto it = fs.find(p); if (it == fs.end()) return; Node *n = it->second; fs.erase(it); n->unlinked = true; if (n->open == 0) delete n; }
void vfs_remove(const std::string &path) { std::string p = norm(path), q = p + "/"; std::vector<std::string> v; for (auto it = fs.lower_bound(q); it != fs.end() && it->first.compare(0, q.size(), q) == 0; ++it) v.push_back(it->first); for (auto &s : v) drop(s); drop(p); }

// ================================================================ sockets
struct Seg { ns_t t; std::string d; bool fin, rst; };
struct Pipe { std::string buf; size_t off = 0; std::deque<Seg> segs; int64_t inflight = 0; ns_t last = 0; int64_t cap = 524288; bool fin = false, reset = false, hold = false, rclosed = false, wclosed = false;
    size_t avail() const { return buf.size() - off; } int64_t space() const { int64_t s = cap - inflight - (int64_t)avail(); return s < 0 ? 0 : s; } };
enum { S_NEW, S_LISTEN, S_CONNECTING, S_CONNECTED, S_DEAD };
struct Sock;
struct Obj { int kind; int refs = 1; bool nonblock = false; virtual ~Obj() {} };
struct FileObj : Obj { Node *n; std::string path; off_t pos = 0; int flags; bool wrote = false; };
struct Sock : Obj { int id, state = S_NEW, so_error = 0, port = 0, type = SOCK_STREAM; bool harness = false; Pipe *rx = nullptr, *tx = nullptr; Sock *peer = nullptr; ns_t rcvtimeo = 0, sndtimeo = 0; std::deque<Sock *> acc; int backlog = 5; std::deque<std::pair<uint32_t, std::string>> dg; int lport = 0; bool hold = false; bool shut_wr = false; int64_t sndbuf = 0, rcvbuf = 0; };
static std::vector<Obj *> fdt(3, nullptr);
static std::vector<bool> fd_harness;
static std::map<int, Sock *> listeners;
static std::map<int, Sock *> socks;         // id -> icmp sockets for delivery
static int sock_seq = 0, eph = 40000;
static std::set<int> refuse_ports, hole_ports;
std::function<void(const IcmpSend &)> icmp_hook;
std::function<int(int)> icmp_send_error;
std::map<std::string, uint32_t> dns_table; bool dns_fail = false;
#define KF 1
#define KS 2
static int fd_new(Obj *o, bool harness = false) {
    // harness descriptors live high, so that the numbers the code sees do not depend on the harness
    size_t i = harness ? 600 : 3;
    for (; i < fdt.size() && fdt[i]; i++) if (!harness && i >= 590) { errno = EMFILE; return -1; }
    while (fdt.size() <= i) fdt.push_back(nullptr);
    while (fd_harness.size() < fdt.size()) fd_harness.push_back(false);
    fdt[i] = o; fd_harness[i] = harness; return (int)i;
}
static Obj *fd_get(int fd) { if (fd < 3 || (size_t)fd >= fdt.size() || !fdt[fd]) { errno = EBADF; return nullptr; } return fdt[fd]; }
static Sock *sk_get(int fd) { Obj *o = fd_get(fd); if (!o) return nullptr; if (o->kind != KS) { errno = ENOTSOCK; return nullptr; } return (Sock *)o; }
int sim_open_fds(void) { int n = 0; for (size_t i = 3; i < fdt.size(); i++) if (fdt[i] && !fd_harness[i]) n++; return n; }
std::string sim_fd_dump(void) { std::string s; for (size_t i = 3; i < fdt.size(); i++) if (fdt[i] && !fd_harness[i]) { s += " " + std::to_string(i) + "="; if (fdt[i]->kind == KF) s += ((FileObj *)fdt[i])->path; else s += "socket:" + std::to_string(((Sock *)fdt[i])->lport); } return s; }

struct Waiter { Thr *t; std::function<bool()> pred; };
static std::vector<Waiter *> waiters;
static void net_changed(void) { for (auto *w : waiters) if (w->t->state == 2 && w->pred()) core_wake((char *)w->t + 1, -1); }
// true: condition holds; false: time-out
static bool net_wait(std::function<bool()> pred, ns_t dl, const char *where) {
    Waiter w{cur, pred}; waiters.push_back(&w);
    bool ok = true;
    while (!pred()) { if (dl && sim_now() >= dl) { ok = false; break; } core_wait((char *)cur + 1, dl, where); }
    waiters.erase(std::find(waiters.begin(), waiters.end(), &w));
    return ok;
}
static void pump(Pipe *p) {
    if (p->hold) return;
    bool ch = false;
    while (!p->segs.empty() && p->segs.front().t <= sim_now()) {
        Seg &s = p->segs.front();
        p->inflight -= (int64_t)s.d.size();
        if (s.rst) p->reset = true;
        if (s.fin) p->fin = true;
        if (!p->rclosed) { if (p->off > 65536 && p->off == p->buf.size()) { p->buf.clear(); p->off = 0; } p->buf += s.d; }
        p->segs.pop_front(); ch = true;
    }
    if (ch) net_changed();
}
static ns_t lat(void) {
    uint64_t j = 0;
    if (cfg.p_lat_jitter > 0 && !core_calm()) { uint64_t d = 0; if (!g_replay && (sim_rand(K_N) >> 11) * (1.0 / 9007199254740992.0) < cfg.p_lat_jitter) d = 1 + sim_randn(K_N, cfg.latency_jitter / 1000); j = sim_choose(K_N, 0, d) * 1000; if (j) sim_fault_note("network delay"); }
    return cfg.latency + j;
}
static void push_seg(Pipe *p, const char *d, size_t n, bool fin, bool rst) {
    ns_t t = sim_now() + lat(); if (t < p->last) t = p->last; p->last = t;
    p->segs.push_back({t, std::string(d ? d : "", n), fin, rst}); p->inflight += (int64_t)n;
    sim_at(t, [p] { pump(p); });
}
static void pipe_send(Pipe *p, const char *d, size_t n) {
    size_t i = 0;
    while (i < n) {
        size_t k = n - i;
        if (cfg.p_lat_jitter > 0 && k > 1) { uint64_t v = sim_fault_n("segment split", cfg.p_lat_jitter * 0.5, 1, k - 1); if (v) k = v; }
        push_seg(p, d + i, k, false, false); i += k;
    }
}
static Sock *sk_new(void) { Sock *s = new Sock(); s->kind = KS; s->id = sock_seq++; return s; }
static void sk_pair(Sock *a, Sock *b) {
    Pipe *x = new Pipe(), *y = new Pipe(); a->tx = b->rx = x; b->tx = a->rx = y; a->peer = b; b->peer = a;
    x->cap = (a->sndbuf ? a->sndbuf : cfg.sndbuf) + (b->rcvbuf ? b->rcvbuf : cfg.rcvbuf); y->cap = (b->sndbuf ? b->sndbuf : cfg.sndbuf) + (a->rcvbuf ? a->rcvbuf : cfg.rcvbuf);
    x->last = y->last = sim_now();
}
static void sk_rst(Sock *s) {                 // abort towards the peer
    if (s->tx && !s->tx->wclosed) { s->tx->wclosed = true; push_seg(s->tx, nullptr, 0, false, true); }
    if (s->rx) s->rx->rclosed = true;
}
static void sk_close(Sock *s, bool abortive) {
    if (s->state == S_LISTEN) { if (listeners[s->port] == s) listeners.erase(s->port); for (Sock *q : s->acc) { q->state = S_DEAD; sk_rst(q); } s->acc.clear(); }
    if (s->tx) {
        if (abortive || s->rx->avail() || (s->rx->inflight > 0)) sk_rst(s);
        else if (!s->tx->wclosed) { s->tx->wclosed = true; push_seg(s->tx, nullptr, 0, true, false); }
        s->rx->rclosed = true; s->rx->buf.clear(); s->rx->off = 0;
    }
    s->state = S_DEAD; s->peer = nullptr; if (s->type != SOCK_STREAM) socks.erase(s->id);
    net_changed();
}
static bool can_read(Sock *s) { if (s->state == S_LISTEN) return !s->acc.empty(); if (s->type != SOCK_STREAM) return !s->dg.empty(); if (!s->rx) return s->state == S_NEW || s->so_error; return s->rx->avail() || s->rx->fin || s->rx->reset || s->state == S_DEAD; }
static bool can_write(Sock *s) { if (s->type != SOCK_STREAM) return true; if (s->state == S_CONNECTING) return false; if (!s->tx) return s->so_error || s->state == S_NEW; return s->rx->reset || s->tx->wclosed || s->tx->rclosed || s->tx->space() >= s->tx->cap / 3; }
// core of send; returns bytes or -errno
static long sk_send(Sock *s, const char *d, size_t n, bool dontwait, ns_t dl) {
    if (s->state == S_CONNECTING) return -EAGAIN;
    if (!s->tx) return -ENOTCONN;
    size_t done = 0; bool nb = s->nonblock || dontwait;
    if (!n) return 0;
    for (;;) {
        if (s->rx->reset) { s->rx->reset = true; return done ? (long)done : -(s->so_error ? EPIPE : (s->so_error = ECONNRESET)); }
        if (s->tx->wclosed || s->shut_wr) return done ? (long)done : -EPIPE;
        if (s->tx->rclosed && s->state == S_DEAD) return -EPIPE;
        int64_t sp = s->tx->space();
        if (sp > 0) {
            size_t k = std::min<size_t>(n - done, (size_t)sp);
            if (nb && !s->harness && k > 1) { uint64_t v = sim_fault_n("short send", cfg.p_send_short, 1, k - 1); if (v) k = v; }
            pipe_send(s->tx, d + done, k); done += k;
            if (nb || done == n) return (long)done;
            continue;
        }
        if (nb) { if (!done) sim_probe("send would block"); return done ? (long)done : -EAGAIN; }
        s->refs++; Sock *q = s;
        bool ok = net_wait([q] { return q->state == S_DEAD || q->rx->reset || q->tx->wclosed || q->tx->space() > 0; }, dl, "send");
        s->refs--;
        if (s->state == S_DEAD) { if (done) return done; return -EPIPE; }
        if (!ok) return done ? (long)done : -EAGAIN;
    }
}
static long sk_recv(Sock *s, char *d, size_t n, int flags, ns_t dl) {
    bool nb = s->nonblock || (flags & MSG_DONTWAIT);
    if (s->type != SOCK_STREAM) {
        if (s->dg.empty()) { if (nb) return -EAGAIN; Sock *q = s; if (!net_wait([q] { return !q->dg.empty() || q->state == S_DEAD; }, dl, "recv")) return -EAGAIN; if (s->dg.empty()) return -EBADF; }
        auto &m = s->dg.front(); size_t k = std::min(n, m.second.size()); memcpy(d, m.second.data(), k); if (!(flags & MSG_PEEK)) s->dg.pop_front(); return (long)k;
    }
    if (!s->rx) return s->state == S_CONNECTING ? -EAGAIN : -ENOTCONN;
    size_t done = 0;
    for (;;) {
        Pipe *p = s->rx;
        if (p->avail()) {
            size_t k = std::min(n - done, p->avail());
            if (k > 1 && !s->harness && !(flags & MSG_WAITALL)) { uint64_t v = sim_fault_n("short receive", cfg.p_recv_short, 1, k - 1); if (v) k = v; }
            memcpy(d + done, p->buf.data() + p->off, k);
            if (!(flags & MSG_PEEK)) { p->off += k; if (p->off == p->buf.size()) { p->buf.clear(); p->off = 0; } net_changed(); }
            done += k;
            if (!(flags & MSG_WAITALL) || done == n || (flags & MSG_PEEK)) return (long)done;
            continue;
        }
        if (p->reset) { if (done) return done; if (!s->so_error) { s->so_error = ECONNRESET; return -ECONNRESET; } return 0; }
        if (p->fin) return (long)done;
        if (nb) return done ? (long)done : -EAGAIN;
        s->refs++; Sock *q = s;
        bool ok = net_wait([q] { return q->state == S_DEAD || q->rx->avail() || q->rx->fin || q->rx->reset; }, dl, "recv");
        s->refs--;
        if (s->state == S_DEAD && !s->rx->avail()) return done ? (long)done : -ECONNRESET;
        if (!ok) return done ? (long)done : -EAGAIN;
    }
}

// ================================================================ faults on the disk
static bool disk_full(int64_t add) { return cfg.disk_capacity >= 0 && !core_calm() && vfs_used() + add > cfg.disk_capacity; }
static ns_t pending_delay;
static void disk_delay(const char *what) { if (cfg.p_disk_slow > 0) { uint64_t v = sim_fault_n("slow disk", cfg.p_disk_slow, 1, cfg.disk_slow_hi / 1000); if (v) pending_delay += v * 1000; } (void)what; }
static void take_delay(void) { if (pending_delay) { ns_t d = pending_delay; pending_delay = 0; core_sleep_until(sim_now() + d, "disk"); } }
static long node_write(FileObj *f, const char *d, size_t n, bool allow_short) {
    Node *N = f->n;
    if (f->flags & O_APPEND) f->pos = (off_t)N->size();
    int64_t grow = (int64_t)f->pos + (int64_t)n - (int64_t)N->size(); if (grow < 0) grow = 0;
    if (cfg.p_write_fail > 0 && sim_fault("write error (EIO)", cfg.p_write_fail)) return -EIO;
    if (grow && disk_full(grow)) { int64_t room = cfg.disk_capacity - vfs_used(); sim_fault_note("disk full"); if (room <= 0 || !allow_short || room >= (int64_t)n) return -ENOSPC; n = (size_t)room; }
    else if (allow_short && n > 1) { uint64_t v = sim_fault_n("short write", cfg.p_write_short, 1, n - 1); if (v) n = v; }
    if (N->virt) { N->virt = false; N->data.assign(N->vsize, 0); }
    if (N->data.size() < (size_t)f->pos + n) N->data.resize((size_t)f->pos + n);
    memcpy(&N->data[(size_t)f->pos], d, n); f->pos += (off_t)n; N->mtime = N->ctime = now_s(); N->mns = (long)(sim_wall_ns() % 1000000000LL); f->wrote = true;
    return (long)n;
}
static long node_read(FileObj *f, char *d, size_t n) {
    if (f->n->dir) return -EISDIR;
    if (cfg.slow_reads) disk_delay("read");
    if (cfg.p_read_fail > 0 && sim_fault("read error", cfg.p_read_fail)) return -EIO;
    size_t sz = f->n->size(); if ((size_t)f->pos >= sz) return 0;
    size_t k = std::min(n, sz - (size_t)f->pos);
    if (k > 1) { uint64_t v = sim_fault_n("short read", cfg.p_read_short, 1, k - 1); if (v) k = v; }
    if (f->n->virt) memset(d, 0, k); else memcpy(d, f->n->data.data() + f->pos, k);
    f->pos += (off_t)k; return (long)k;
}
static FileObj *file_open(const char *path, int flags, int *err) {
    std::string p = norm(path);
    if (p == "/dev/null") { }
    Node *n = lookup(p);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (cfg.p_open_fail > 0 && wr && sim_fault("open error", cfg.p_open_fail)) { *err = sim_randn(K_F, 2) ? EMFILE : EACCES; *err = EACCES; return nullptr; }
    if (n && n->dir && wr) { *err = EISDIR; return nullptr; }
    if (n && (flags & O_CREAT) && (flags & O_EXCL)) { *err = EEXIST; return nullptr; }
    if (!n) {
        if (!(flags & O_CREAT)) { *err = ENOENT; return nullptr; }
        Node *d = lookup(parent(p)); if (!d || !d->dir) { *err = ENOENT; return nullptr; }
        n = mknode(p, false); vlog('c', p);
    }
    if ((flags & O_TRUNC) && wr) { n->data.clear(); n->virt = false; n->vsize = 0; }
    FileObj *f = new FileObj(); f->kind = KF; f->n = n; n->open++; f->path = p; f->flags = flags; return f;
}
static void file_close(FileObj *f) { if (f->wrote) vlog('w', f->path); if (--f->n->open == 0 && f->n->unlinked) delete f->n; delete f; }
static int fd_close(int fd) {
    Obj *o = fd_get(fd); if (!o) return -1;
    fdt[fd] = nullptr;
    if (o->kind == KF) file_close((FileObj *)o); else { Sock *s = (Sock *)o; sk_close(s, false); /* the object stays, others may still wait on it */ }
    return 0;
}

static std::map<FILE *, int> streams;        // live streams -> fd (-1: file)
int sim_open_streams(void) { return (int)streams.size(); }
static void chk(FILE *f, const char *fn, void *ra) {
    if (f == stdin || f == stdout || f == stderr || streams.count(f)) return;
    if (!f) sim_fail("crash:null-stream", "%s on a null stream, caller %p", fn, ra);
    sim_fail("mem:closed-stream", "%s on a stream that is already closed, caller %p", fn, ra);
}

extern "C" {
// ---------------------------------------------------------------- descriptors
int sim_open(const char *path, int flags, ...) {
    core_call(C_OPEN); disk_delay("open"); take_delay(); core_point("open");
    int e = 0; FileObj *f = file_open(path, flags, &e); if (!f) { errno = e; return -1; }
    int fd = fd_new(f); if (fd < 0) file_close(f); sim_note("open %s -> %d", path, fd); return fd;
}
int sim_creat(const char *p, mode_t) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC); }
int sim_close(int fd) {
    core_call(C_CLOSE, fd); core_point("close");
    int r = fd_close(fd); if (r < 0 && fd >= 3) { sim_probe("close of a descriptor that is not open"); sim_note("close(%d): not open, caller %p", fd, RA()); } errno = r < 0 ? EBADF : errno; return r;
}
static ns_t dl_of(ns_t to) { return to ? sim_now() + to : 0; }
ssize_t sim_recv(int fd, void *b, size_t n, int fl);
ssize_t sim_send(int fd, const void *b, size_t n, int fl);
ssize_t sim_read(int fd, void *b, size_t n) {
    Obj *o = fd_get(fd); if (!o) return -1;
    if (o->kind == KS) return sim_recv(fd, b, n, 0);
    core_call(C_READ, fd, n); disk_delay("read"); take_delay(); core_point("read");
    if (!(o = fd_get(fd))) return -1;
    heap_access(b, n, true);
    long r = node_read((FileObj *)o, (char *)b, n); if (r < 0) { errno = (int)-r; return -1; } return r;
}
ssize_t sim_write(int fd, const void *b, size_t n) {
    if (fd == 1 || fd == 2) return (ssize_t)n;
    Obj *o = fd_get(fd); if (!o) { core_call(C_WRITE, fd, n); sim_probe("write to a descriptor that is not open"); return -1; }
    if (o->kind == KS) return sim_send(fd, b, n, 0);
    core_call(C_WRITE, fd, n); disk_delay("write"); take_delay(); core_point("write");
    if (!(o = fd_get(fd))) return -1;
    heap_access(b, n, false);
    long r = node_write((FileObj *)o, (const char *)b, n, true); if (r < 0) { errno = (int)-r; return -1; } sim_hash(r); return r;
}
struct iovec_ { void *b; size_t n; };
ssize_t sim_writev(int fd, const struct iovec_ *v, int k) { ssize_t t = 0; for (int i = 0; i < k; i++) { ssize_t r = sim_write(fd, v[i].b, v[i].n); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].n) break; } return t; }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { Obj *x = fd_get(fd); if (!x || x->kind != KF) return -1; FileObj *f = (FileObj *)x; off_t s = f->pos; f->pos = o; long r = node_read(f, (char *)b, n); f->pos = s; if (r < 0) { errno = -r; return -1; } return r; }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { Obj *x = fd_get(fd); if (!x || x->kind != KF) return -1; FileObj *f = (FileObj *)x; core_call(C_WRITE, fd, n); core_point("pwrite"); off_t s = f->pos; f->pos = o; long r = node_write(f, (const char *)b, n, true); f->pos = s; if (r < 0) { errno = -r; return -1; } return r; }
off_t sim_lseek(int fd, off_t o, int w) { Obj *x = fd_get(fd); if (!x) return -1; if (x->kind != KF) { errno = ESPIPE; return -1; } FileObj *f = (FileObj *)x; off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? f->pos : (off_t)f->n->size(); if (b + o < 0) { errno = EINVAL; return -1; } return f->pos = b + o; }
int sim_fsync(int fd) { Obj *x = fd_get(fd); if (!x) return -1; core_call(C_WRITE, fd); disk_delay("fsync"); take_delay(); core_point("fsync"); return 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_ftruncate(int fd, off_t n) { Obj *x = fd_get(fd); if (!x || x->kind != KF) return -1; FileObj *f = (FileObj *)x; if (f->n->virt) { f->n->vsize = n; return 0; } f->n->data.resize((size_t)n); return 0; }
static void fill_stat(Node *n, const std::string &p, struct stat *s) {
    memset(s, 0, sizeof *s); s->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | 0644; s->st_size = n->dir ? 4096 : (off_t)n->size(); s->st_mtim.tv_sec = n->mtime; s->st_mtim.tv_nsec = n->mns; s->st_ctim.tv_sec = n->ctime; s->st_atim.tv_sec = n->mtime; s->st_nlink = 1; s->st_blksize = 4096; s->st_blocks = (s->st_size + 511) / 512;
    uint64_t h = 7; for (char c : p) h = h * 131 + (uint8_t)c; s->st_ino = h + n->ino;
}
int sim_stat(const char *path, struct stat *s) {
    core_call(C_STAT); core_point("stat"); Node *n = lookup(norm(path)); if (!n) { errno = ENOENT; return -1; }
    if (cfg.p_stat_fail > 0 && !n->dir && sim_fault("stat error", cfg.p_stat_fail)) { errno = EIO; return -1; }
    fill_stat(n, path, s); return 0;
}
int sim_lstat(const char *p, struct stat *s) { return sim_stat(p, s); }
int sim_fstat(int fd, struct stat *s) { Obj *x = fd_get(fd); if (!x) return -1; if (x->kind != KF) { memset(s, 0, sizeof *s); s->st_mode = S_IFSOCK; return 0; } fill_stat(((FileObj *)x)->n, ((FileObj *)x)->path, s); return 0; }
int sim_access(const char *p, int) { core_call(C_STAT); core_point("access"); if (lookup(norm(p))) return 0; errno = ENOENT; return -1; }
int sim_unlink(const char *path) { core_call(C_REMOVE); core_point("unlink"); std::string p = norm(path); Node *n = lookup(p); if (!n) { errno = ENOENT; return -1; } if (n->dir) { errno = EISDIR; return -1; } if (cfg.p_unlink_fail > 0 && sim_fault("unlink error", cfg.p_unlink_fail)) { errno = EACCES; return -1; } vlog('u', p); drop(p); return 0; }
int sim_rmdir(const char *path) { core_call(C_REMOVE); core_point("rmdir"); std::string p = norm(path); Node *n = lookup(p); if (!n) { errno = ENOENT; return -1; } if (!n->dir) { errno = ENOTDIR; return -1; } if (has_children(p)) { errno = ENOTEMPTY; return -1; } vlog('r', p); drop(p); return 0; }
int sim_remove(const char *path) { Node *n = lookup(norm(path)); if (n && n->dir) return sim_rmdir(path); return sim_unlink(path); }
int sim_rename(const char *a, const char *b) { core_call(C_REMOVE); core_point("rename"); std::string p = norm(a), q = norm(b); Node *n = lookup(p); if (!n) { errno = ENOENT; return -1; } if (n->dir) { errno = EINVAL; return -1; } Node *d = lookup(parent(q)); if (!d) { errno = ENOENT; return -1; } if (lookup(q)) drop(q); fs.erase(p); fs[q] = n; vlog('c', q); return 0; }
int sim_mkdir(const char *path, mode_t) {
    core_call(C_MKDIR); core_point("mkdir"); std::string p = norm(path); if (lookup(p)) { errno = EEXIST; return -1; } Node *d = lookup(parent(p)); if (!d || !d->dir) { errno = ENOENT; return -1; }
    mknode(p, true); vlog('m', p); return 0;
}
int sim_chdir(const char *p) { std::string q = norm(p); Node *n = lookup(q); if (!n || !n->dir) { errno = ENOENT; return -1; } cwd = q; return 0; }
char *sim_getcwd(char *b, size_t n) { snprintf(b, n, "%s", cwd.c_str()); return b; }
int sim_chmod(const char *, mode_t) { return 0; }
int sim_statvfs(const char *, struct statvfs *s) { memset(s, 0, sizeof *s); s->f_bsize = s->f_frsize = 4096; s->f_blocks = 1 << 20; int64_t u = vfs_used() / 4096; s->f_bfree = s->f_bavail = s->f_blocks - u; return 0; }
struct SimDir { uint64_t magic; std::vector<std::pair<std::string, bool>> *v; size_t i; struct dirent de; };
DIR *sim_opendir(const char *path) {
    core_call(C_DIR); core_point("opendir"); std::string p = norm(path); Node *n = lookup(p); if (!n) { errno = ENOENT; return nullptr; } if (!n->dir) { errno = ENOTDIR; return nullptr; }
    if (cfg.p_dir_fail > 0 && sim_fault("opendir error", cfg.p_dir_fail)) { errno = EMFILE; return nullptr; }
    SimDir *d = (SimDir *)sim_malloc(sizeof(SimDir)); d->magic = 0xd1d1; d->i = 0; d->v = new std::vector<std::pair<std::string, bool>>();
    d->v->push_back({".", true}); d->v->push_back({"..", true});
    std::string q = p == "/" ? p : p + "/";
    for (auto it = fs.lower_bound(q); it != fs.end() && it->first.compare(0, q.size(), q) == 0; ++it) { std::string r = it->first.substr(q.size()); if (r.find('/') == std::string::npos && !r.empty()) d->v->push_back({r, it->second->dir}); }
    if (cfg.readdir_shuffle) { uint64_t s = g_seed; auto key = [s](const std::string &x) { uint64_t h = s | 1; for (char c : x) h = (h ^ (uint8_t)c) * 1099511628211ULL; return h ^ (h >> 29); }; std::stable_sort(d->v->begin(), d->v->end(), [&](const std::pair<std::string, bool> &a, const std::pair<std::string, bool> &b) { return key(a.first) < key(b.first); }); }
    return (DIR *)d;
}
struct dirent *sim_readdir(DIR *D) {
    SimDir *d = (SimDir *)D; heap_access(d, sizeof *d, true); core_call(C_DIR); if (d->i >= d->v->size()) return nullptr;
    auto &e = (*d->v)[d->i++]; memset(&d->de, 0, sizeof d->de); snprintf(d->de.d_name, sizeof d->de.d_name, "%s", e.first.c_str()); d->de.d_type = cfg.dt_unknown ? DT_UNKNOWN : e.second ? DT_DIR : DT_REG; d->de.d_ino = d->i; d->de.d_reclen = sizeof(struct dirent); return &d->de;
}
int sim_closedir(DIR *D) { SimDir *d = (SimDir *)D; heap_access(d, sizeof *d, true); delete d->v; sim_free(d); return 0; }
long sim_telldir(DIR *D) { return (long)((SimDir *)D)->i; }
void sim_seekdir(DIR *D, long i) { ((SimDir *)D)->i = (size_t)i; }
void sim_rewinddir(DIR *D) { ((SimDir *)D)->i = 0; }
int sim_scandir(const char *, void *, void *, void *) { sim_fail("unsupported", "scandir"); }
int sim_system(const char *cmd) {
    core_call(C_SYSTEM, strlen(cmd)); sim_system_log.push_back(cmd); sim_note("system: %s", cmd);
    core_sleep_until(sim_now() + 5 * MS, "system");
    std::vector<std::string> w; std::string t; char q = 0;
    for (const char *c = cmd; *c; c++) { if (q) { if (*c == q) q = 0; else t += *c; } else if (*c == '"' || *c == '\'') q = *c; else if (*c == ' ' || *c == ';' || *c == '&' || *c == '\n') { if (!t.empty()) w.push_back(t); t.clear(); } else t += *c; }
    if (!t.empty()) w.push_back(t);
    if (w.size() >= 2 && w[0] == "rm") for (size_t i = 1; i < w.size(); i++) if (w[i][0] != '-') { std::string p = norm(w[i]); if (lookup(p)) { if (lookup(p)->dir) { if (w[1][0] != '-' || (w[1].find('r') == std::string::npos && w[1].find('R') == std::string::npos)) continue; for (auto &f : vfs_list(p)) vlog('u', f); vlog('r', p); } else vlog('u', p); vfs_remove(p); } }
    if (w.size() >= 2 && w[0] == "mkdir") for (size_t i = 1; i < w.size(); i++) if (w[i][0] != '-') vfs_mkdirs(w[i]);
    return 0;
}

// ---------------------------------------------------------------- streams
static ssize_t ck_read(void *c, char *b, size_t n) { FileObj *f = (FileObj *)c; long r = node_read(f, b, n); if (r < 0) { errno = -r; return -1; } return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    FileObj *f = (FileObj *)c; size_t i = 0; disk_delay("write");
    while (i < n) { long r = node_write(f, b + i, n - i, true); if (r <= 0) { errno = (int)-r; return i ? (ssize_t)i : 0; } i += (size_t)r; }
    return (ssize_t)i;
}
static int ck_seek(void *c, off64_t *o, int w) { FileObj *f = (FileObj *)c; off_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? f->pos : (off_t)f->n->size(); if (b + *o < 0) return -1; f->pos = b + *o; *o = f->pos; return 0; }
struct CkFile { FileObj *f; int fd; };
static int ck_close(void *c) { FileObj *f = (FileObj *)c; for (size_t i = 3; i < fdt.size(); i++) if (fdt[i] == f) fdt[i] = nullptr; file_close(f); return 0; }
FILE *sim_fopen(const char *path, const char *mode) {
    core_call(C_FOPEN); disk_delay("fopen"); take_delay(); core_point("fopen");
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND; if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int e = 0; FileObj *f = file_open(path, fl, &e); if (!f) { errno = e; return nullptr; }
    int fd = fd_new(f); if (fd < 0) { file_close(f); return nullptr; }
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *s = fopencookie(f, mode, io); streams[s] = fd; sim_note("fopen %s %s -> %d", path, mode, fd); return s;
}
// stream over a socket: the descriptor number is the cookie, as in the real library
static ssize_t sk_ck_read(void *c, char *b, size_t n) { return sim_recv((int)(intptr_t)c, b, n, 0); }
static ssize_t sk_ck_write(void *c, const char *b, size_t n) { ssize_t r = sim_send((int)(intptr_t)c, b, n, 0); return r < 0 ? 0 : r; }
static int sk_ck_close(void *c) { return sim_close((int)(intptr_t)c); }
FILE *sim_fdopen(int fd, const char *mode) {
    core_call(C_FOPEN, fd); Obj *o = fd_get(fd); if (!o) return nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    if (o->kind == KS) io = {sk_ck_read, sk_ck_write, nullptr, sk_ck_close};
    FILE *s = fopencookie(o->kind == KS ? (void *)(intptr_t)fd : (void *)o, mode, io); streams[s] = fd; return s;
}
int sim_fileno(FILE *f) { if (f == stdin) return 0; if (f == stdout) return 1; if (f == stderr) return 2; chk(f, "fileno", RA()); return streams[f]; }
int sim_fclose(FILE *f) {
    core_call(C_FCLOSE); core_point("fclose"); chk(f, "fclose", RA());
    streams.erase(f); int r = fclose(f); take_delay(); return r;
}
FILE *sim_freopen(const char *, const char *, FILE *) { sim_fail("unsupported", "freopen"); }
FILE *sim_popen(const char *, const char *) { sim_fail("unsupported", "popen"); }
#define SW(f, fn) chk(f, fn, RA()); core_cost(100)
size_t sim_fread(void *b, size_t s, size_t n, FILE *f) { SW(f, "fread"); heap_access(b, s * n, true); size_t r = fread(b, s, n, f); take_delay(); return r; }
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *f) { SW(f, "fwrite"); heap_access(b, s * n, false); size_t r = fwrite(b, s, n, f); take_delay(); core_point("fwrite"); return r; }
char *sim_fgets(char *b, int n, FILE *f) { SW(f, "fgets"); if (n > 0) heap_access(b, n, true); if (f == stdin) return nullptr; char *r = fgets(b, n, f); take_delay(); return r; }
int sim_fgetc(FILE *f) { SW(f, "fgetc"); return f == stdin ? EOF : fgetc(f); }
int sim_getc(FILE *f) { return sim_fgetc(f); }
int sim_fputs(const char *s, FILE *f) { SW(f, "fputs"); int r = fputs(s, f); take_delay(); core_point("fputs"); return r; }
int sim_fputc(int c, FILE *f) { SW(f, "fputc"); int r = fputc(c, f); take_delay(); return r; }
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { SW(f, "vfprintf"); int r = vfprintf(f, fmt, ap); take_delay(); core_point("vfprintf"); return r; }
int sim_fprintf(FILE *f, const char *fmt, ...) { SW(f, "fprintf"); va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); take_delay(); core_point("fprintf"); return r; }
int sim_fflush(FILE *f) { core_call(C_WRITE); if (f) chk(f, "fflush", RA()); int r = fflush(f ? f : stdout); take_delay(); core_point("fflush"); return r; }
int sim_fseek(FILE *f, long o, int w) { SW(f, "fseek"); return fseek(f, o, w); }
int sim_fseeko(FILE *f, off_t o, int w) { SW(f, "fseeko"); return fseeko(f, o, w); }
long sim_ftell(FILE *f) { SW(f, "ftell"); return ftell(f); }
off_t sim_ftello(FILE *f) { SW(f, "ftello"); return ftello(f); }
void sim_rewind(FILE *f) { SW(f, "rewind"); rewind(f); }
int sim_feof(FILE *f) { SW(f, "feof"); return feof(f); }
int sim_ferror(FILE *f) { SW(f, "ferror"); return ferror(f); }
void sim_clearerr(FILE *f) { SW(f, "clearerr"); clearerr(f); }
int sim_ungetc(int c, FILE *f) { SW(f, "ungetc"); return ungetc(c, f); }
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { SW(f, "setvbuf"); return setvbuf(f, b, m, n); }
void sim_setbuf(FILE *f, char *b) { SW(f, "setbuf"); setbuf(f, b); }
int sim_fscanf(FILE *f, const char *fmt, ...) { SW(f, "fscanf"); if (f == stdin) return EOF; va_list ap; va_start(ap, fmt); int r = vfscanf(f, fmt, ap); va_end(ap); return r; }
int sim_fscanf99(FILE *f, const char *fmt, ...) { SW(f, "fscanf"); if (f == stdin) return EOF; va_list ap; va_start(ap, fmt); int r = vfscanf(f, fmt, ap); va_end(ap); return r; }
int sim_fscanf23(FILE *f, const char *fmt, ...) { SW(f, "fscanf"); if (f == stdin) return EOF; va_list ap; va_start(ap, fmt); int r = vfscanf(f, fmt, ap); va_end(ap); return r; }
ssize_t sim_getline(char **l, size_t *n, FILE *f) { SW(f, "getline"); char *t = nullptr; size_t m = 0; ssize_t r = getline(&t, &m, f); if (r >= 0) { if (!*l || *n < (size_t)r + 1) { *l = (char *)sim_realloc(*l, r + 1); *n = r + 1; } memcpy(*l, t, r + 1); } free(t); return r; }
int sim_isatty(int) { return 0; }

// ---------------------------------------------------------------- sockets
int sim_socket(int dom, int type, int proto) {
    core_call(C_SOCKET, type, proto); core_point("socket"); (void)dom;
    if (cfg.p_sock_fail > 0 && sim_fault("socket() fails", cfg.p_sock_fail)) { errno = EMFILE; return -1; }
    Sock *s = sk_new(); s->type = (type & 0xf); s->nonblock = type & SOCK_NONBLOCK;
    int fd = fd_new(s); if (fd < 0) { delete s; return -1; } if (s->type != SOCK_STREAM) socks[s->id] = s; return fd;
}
int sim_setsockopt(int fd, int lv, int opt, const void *v, socklen_t n) {
    Sock *s = sk_get(fd); if (!s) return -1;
    if (lv == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && n >= sizeof(struct timeval)) { const struct timeval *t = (const struct timeval *)v; ns_t x = (ns_t)t->tv_sec * SEC + (ns_t)t->tv_usec * 1000; if (opt == SO_RCVTIMEO) s->rcvtimeo = x; else s->sndtimeo = x; }
    return 0;
}
int sim_getsockopt(int fd, int lv, int opt, void *v, socklen_t *n) { Sock *s = sk_get(fd); if (!s) return -1; if (n && *n >= 4) { int *i = (int *)v; *i = 0; if (lv == SOL_SOCKET && opt == SO_ERROR) { *i = s->so_error; s->so_error = 0; } else if (opt == SO_SNDBUF) *i = (int)cfg.sndbuf; else if (opt == SO_RCVBUF) *i = (int)cfg.rcvbuf; *n = 4; } return 0; }
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (fd < 3) return 0;
    Obj *o = fd_get(fd); if (!o) return -1;
    if (cmd == F_GETFL) return (o->nonblock ? O_NONBLOCK : 0) | O_RDWR;
    if (cmd == F_SETFL) { o->nonblock = a & O_NONBLOCK; return 0; }
    return 0;
}
int sim_ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
    Obj *o = fd < 3 ? nullptr : fd_get(fd); if (!o) { errno = ENOTTY; return -1; }
    if (req == FIONBIO) { o->nonblock = *(int *)a != 0; return 0; }
    if (req == FIONREAD && o->kind == KS) { Sock *s = (Sock *)o; *(int *)a = s->rx ? (int)s->rx->avail() : 0; return 0; }
    errno = ENOTTY; return -1;
}
int sim_bind(int fd, const struct sockaddr *a, socklen_t) {
    core_call(C_SOCKET); Sock *s = sk_get(fd); if (!s) return -1; s->port = ntohs(((const struct sockaddr_in *)a)->sin_port);
    if (s->type == SOCK_STREAM && listeners.count(s->port)) { errno = EADDRINUSE; return -1; } return 0;
}
int sim_listen(int fd, int bl) { core_call(C_SOCKET); core_point("listen"); Sock *s = sk_get(fd); if (!s) return -1; s->state = S_LISTEN; s->backlog = bl < 1 ? 1 : bl; listeners[s->port] = s; return 0; }
static bool do_connect(Sock *s, int port, int *err) {      // starts; completion is an event
    s->state = S_CONNECTING; s->so_error = 0; s->lport = port;
    if (hole_ports.count(port)) return true;
    ns_t l = lat();
    s->refs++;
    sim_at(sim_now() + l, [s, port] {
        if (s->state != S_CONNECTING) return;
        if (hole_ports.count(port)) return;
        auto it = listeners.find(port);
        if (it == listeners.end() || refuse_ports.count(port)) { s->state = S_NEW; s->so_error = ECONNREFUSED; net_changed(); return; }
        Sock *L = it->second;
        if ((int)L->acc.size() > L->backlog) { s->state = S_NEW; s->so_error = ECONNREFUSED; net_changed(); return; }
        Sock *b = sk_new(); sk_pair(s, b); s->state = b->state = S_CONNECTED; b->lport = port; s->port = eph; b->port = eph++; L->acc.push_back(b); net_changed();
    });
    (void)err; return true;
}
int sim_connect(int fd, const struct sockaddr *a, socklen_t) {
    core_call(C_CONNECT, fd); core_point("connect");
    Sock *s = sk_get(fd); if (!s) return -1;
    if (s->state == S_CONNECTED) { errno = EISCONN; return -1; }
    if (s->state == S_CONNECTING) { errno = EALREADY; return -1; }
    if (a->sa_family != AF_INET) { errno = EAFNOSUPPORT; return -1; }
    int port = ntohs(((const struct sockaddr_in *)a)->sin_port); int e = 0; do_connect(s, port, &e);
    if (s->nonblock) { errno = EINPROGRESS; return -1; }
    ns_t to = s->sndtimeo ? s->sndtimeo : 127 * SEC;
    bool ok = net_wait([s] { return s->state != S_CONNECTING; }, sim_now() + to, "connect");
    if (!ok) { s->state = S_NEW; errno = s->sndtimeo ? EINPROGRESS : ETIMEDOUT; return -1; }
    if (s->state != S_CONNECTED) { errno = s->so_error ? s->so_error : ECONNREFUSED; s->so_error = 0; return -1; }
    return 0;
}
int sim_accept(int fd, struct sockaddr *a, socklen_t *n) {
    core_call(C_ACCEPT, fd); core_point("accept");
    Sock *L = sk_get(fd); if (!L) return -1; if (L->state != S_LISTEN) { errno = EINVAL; return -1; }
    if (cfg.p_accept_fail > 0 && !L->harness && !L->acc.empty() && sim_fault("accept fails", cfg.p_accept_fail)) { L->acc.front()->state = S_DEAD; sk_rst(L->acc.front()); L->acc.pop_front(); errno = ECONNABORTED; return -1; }
    if (L->acc.empty()) { if (L->nonblock) { errno = EAGAIN; return -1; } net_wait([L] { return !L->acc.empty() || L->state == S_DEAD; }, 0, "accept"); if (L->acc.empty()) { errno = EBADF; return -1; } }
    Sock *s = L->acc.front(); int nfd = fd_new(s); if (nfd < 0) return -1; L->acc.pop_front();
    if (a && n) { struct sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_port = htons((uint16_t)s->port); sa.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &sa, std::min<size_t>(*n, sizeof sa)); *n = sizeof sa; }
    return nfd;
}
int sim_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) { int r = sim_accept(fd, a, n); if (r >= 0 && (fl & SOCK_NONBLOCK)) fdt[r]->nonblock = true; return r; }
int sim_shutdown(int fd, int how) { core_call(C_CLOSE, fd); core_point("shutdown"); Sock *s = sk_get(fd); if (!s) return -1; if (!s->tx) { errno = ENOTCONN; return -1; } if (how != SHUT_RD && !s->tx->wclosed) { s->tx->wclosed = true; s->shut_wr = true; push_seg(s->tx, nullptr, 0, true, false); } if (how != SHUT_WR) { s->rx->fin = true; } net_changed(); return 0; }
ssize_t sim_send(int fd, const void *b, size_t n, int fl) {
    core_call(C_SEND, fd, n); core_point("send");
    Sock *s = sk_get(fd); if (!s) { sim_probe("send on a descriptor that is not open"); return -1; }
    heap_access(b, n, false);
    if (cfg.p_send_eagain > 0 && (s->nonblock || (fl & MSG_DONTWAIT)) && sim_fault("send would block (injected)", cfg.p_send_eagain)) { errno = EAGAIN; return -1; }
    long r = sk_send(s, (const char *)b, n, fl & MSG_DONTWAIT, s->sndtimeo ? sim_now() + s->sndtimeo : 0);
    sim_hash((uint64_t)r); if (r < 0) { errno = (int)-r; return -1; } return r;
}
ssize_t sim_recv(int fd, void *b, size_t n, int fl) {
    core_call(C_RECV, fd, n); core_point("recv");
    Sock *s = sk_get(fd); if (!s) { sim_probe("receive on a descriptor that is not open"); return -1; }
    heap_access(b, n, true);
    if (cfg.p_eintr > 0 && sim_fault("EINTR", cfg.p_eintr)) { errno = EINTR; return -1; }
    long r = sk_recv(s, (char *)b, n, fl, s->rcvtimeo ? sim_now() + s->rcvtimeo : 0);
    sim_hash((uint64_t)r); if (r < 0) { errno = (int)-r; return -1; } return r;
}
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t) {
    Sock *s = sk_get(fd); if (!s) { core_call(C_ICMP); sim_probe("send on a descriptor that is not open"); return -1; }
    if (s->type == SOCK_STREAM) return sim_send(fd, b, n, fl);
    core_call(C_ICMP, fd, n); core_point("sendto"); heap_access(b, n, false);
    if (icmp_send_error) { int e = icmp_send_error(s->id); if (e) { errno = e; return -1; } }
    if (icmp_hook) { IcmpSend m{s->id, a ? ntohl(((const struct sockaddr_in *)a)->sin_addr.s_addr) : 0, std::string((const char *)b, n), sim_now()}; icmp_hook(m); }
    return (ssize_t)n;
}
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *an) {
    Sock *s = sk_get(fd); if (!s) { core_call(C_ICMP); return -1; }
    if (s->type == SOCK_STREAM) return sim_recv(fd, b, n, fl);
    core_call(C_ICMP, fd, n); core_point("recvfrom"); heap_access(b, n, true);
    s = sk_get(fd); if (!s) return -1;
    uint32_t from = s->dg.empty() ? 0 : s->dg.front().first;
    long r = sk_recv(s, (char *)b, n, fl, s->rcvtimeo ? sim_now() + s->rcvtimeo : 0);
    if (r < 0) { errno = (int)-r; return -1; }
    if (a && an) { struct sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(from); memcpy(a, &sa, std::min<size_t>(*an, sizeof sa)); *an = sizeof sa; }
    return r;
}
struct msghdr_; ssize_t sim_recvmsg(int, struct msghdr_ *, int) { sim_fail("unsupported", "recvmsg"); }
ssize_t sim_sendmsg(int, const struct msghdr_ *, int) { sim_fail("unsupported", "sendmsg"); }
static bool fd_ready(int fd, bool wr) { Obj *o = fd < 3 || (size_t)fd >= fdt.size() ? nullptr : fdt[fd]; if (!o) return true; if (o->kind == KF) return true; return wr ? can_write((Sock *)o) : can_read((Sock *)o); }
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    core_call(C_SELECT, n); core_point("select");
    std::vector<std::pair<int, int>> want;
    for (int i = 0; i < n && i < FD_SETSIZE; i++) { bool a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w); if (a || b) { if (i >= 3 && !fd_get(i)) { errno = EBADF; return -1; } if (i < 3) continue; if (a) want.push_back({i, 0}); if (b) want.push_back({i, 1}); } }
    if (cfg.p_eintr > 0 && sim_fault("EINTR", cfg.p_eintr)) { errno = EINTR; return -1; }
    auto ready = [&] { for (auto &x : want) if (fd_ready(x.first, x.second)) return true; return false; };
    if (t) { ns_t d = (ns_t)t->tv_sec * SEC + (ns_t)t->tv_usec * 1000; if (d) net_wait(ready, sim_now() + d + 20000, "select"); }
    else net_wait(ready, 0, "select");
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
    int c = 0; for (auto &x : want) if (fd_ready(x.first, x.second)) { FD_SET(x.first, x.second ? w : r); c++; }
    if (t && c == 0) { t->tv_sec = 0; t->tv_usec = 0; }
    return c;
}
int sim_poll(struct pollfd *p, nfds_t n, int ms) {
    core_call(C_SELECT, n); core_point("poll");
    auto count = [&] { int c = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; int fd = p[i].fd; if (fd < 0) continue; if (fd >= 3 && ((size_t)fd >= fdt.size() || !fdt[fd])) { p[i].revents = POLLNVAL; c++; continue; } if (fd < 3) continue; if ((p[i].events & POLLIN) && fd_ready(fd, false)) p[i].revents |= POLLIN; if ((p[i].events & POLLOUT) && fd_ready(fd, true)) p[i].revents |= POLLOUT; if (fdt[fd]->kind == KS) { Sock *s = (Sock *)fdt[fd]; if (s->rx && s->rx->reset) p[i].revents |= POLLERR | POLLHUP; else if (s->rx && s->rx->fin && s->tx->wclosed) p[i].revents |= POLLHUP; } if (p[i].revents) c++; } return c; };
    if (ms) net_wait([&] { return count() > 0; }, ms < 0 ? 0 : sim_now() + (ns_t)ms * MS + 20000, "poll");
    return count();
}
struct hostent *sim_gethostbyname(const char *name) {
    static struct hostent h; static char *list[2]; static uint32_t ad; static char *al[1]; static char nm[256];
    core_call(C_CTL); core_point("gethostbyname"); if (dns_fail) { h_errno = TRY_AGAIN; return nullptr; }
    struct in_addr ia; auto it = dns_table.find(name);
    if (it != dns_table.end()) { if (!it->second) { h_errno = HOST_NOT_FOUND; return nullptr; } ad = htonl(it->second); } else if (inet_aton(name, &ia)) ad = ia.s_addr; else ad = htonl(0x7f000001);
    snprintf(nm, sizeof nm, "%s", name); list[0] = (char *)&ad; list[1] = nullptr; al[0] = nullptr; h.h_name = nm; h.h_aliases = al; h.h_addrtype = AF_INET; h.h_length = 4; h.h_addr_list = list; return &h;
}
struct hostent *sim_gethostbyname2(const char *n, int) { return sim_gethostbyname(n); }
int sim_getaddrinfo(const char *n, const char *svc, const struct addrinfo *, struct addrinfo **o) {
    struct hostent *h = sim_gethostbyname(n); if (!h) return EAI_NONAME; struct addrinfo *a = (struct addrinfo *)sim_malloc(sizeof *a + sizeof(struct sockaddr_in)); memset(a, 0, sizeof *a + sizeof(struct sockaddr_in)); struct sockaddr_in *s = (struct sockaddr_in *)(a + 1); s->sin_family = AF_INET; s->sin_port = htons(svc ? atoi(svc) : 0); memcpy(&s->sin_addr, h->h_addr_list[0], 4); a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addrlen = sizeof *s; a->ai_addr = (struct sockaddr *)s; *o = a; return 0;
}
void sim_freeaddrinfo(struct addrinfo *a) { sim_free(a); }
struct protoent *sim_getprotobyname(const char *n) { static struct protoent p; static char *al[1]; p.p_name = (char *)"icmp"; p.p_aliases = al; p.p_proto = !strcmp(n, "icmp") ? 1 : !strcmp(n, "tcp") ? 6 : 17; return &p; }
int sim_getpeername(int fd, struct sockaddr *a, socklen_t *n) { Sock *s = sk_get(fd); if (!s) return -1; if (!s->rx) { errno = ENOTCONN; return -1; } struct sockaddr_in sa = {}; sa.sin_family = AF_INET; sa.sin_port = htons((uint16_t)s->port); sa.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &sa, std::min<size_t>(*n, sizeof sa)); *n = sizeof sa; return 0; }
int sim_getsockname(int fd, struct sockaddr *a, socklen_t *n) { return sim_getpeername(fd, a, n); }
int sim_pipe(int *) { sim_fail("unsupported", "pipe"); }
int sim_socketpair(int, int, int, int *) { sim_fail("unsupported", "socketpair"); }
int sim_dup(int) { sim_fail("unsupported", "dup"); }

// TLS: a pass-through over the simulated socket (stub)
struct SimSSL { int fd; };
void *sim_TLS_client_method(void) { return (void *)1; }
void *sim_SSL_CTX_new(const void *) { return sim_malloc(16); }
void sim_SSL_CTX_free(void *p) { sim_free(p); }
void *sim_SSL_new(void *) { return sim_malloc(sizeof(SimSSL)); }
void sim_SSL_free(void *p) { sim_free(p); }
int sim_SSL_set_fd(void *s, int fd) { ((SimSSL *)s)->fd = fd; return 1; }
int sim_SSL_connect(void *) { return 1; }
int sim_SSL_clear(void *) { return 1; }
int sim_SSL_pending(const void *) { return 0; }
int sim_SSL_read(void *s, void *b, int n) { return (int)sim_recv(((SimSSL *)s)->fd, b, n, 0); }
int sim_SSL_write(void *s, const void *b, int n) { return (int)sim_send(((SimSSL *)s)->fd, b, n, 0); }
int sim_SSL_shutdown(void *) { return 1; }
int sim_SSL_get_error(void *, int) { return 5; }

// ---------------------------------------------------------------- misc
char *sim_getenv(const char *n) { static char home[] = "/home/radar"; return !strcmp(n, "HOME") ? home : nullptr; }
long sim_sysconf(int n) { return n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF ? 4 : n == _SC_PAGESIZE ? 4096 : n == _SC_CLK_TCK ? 100 : sysconf(n); }
pid_t sim_getpid(void) { return 4242; }
pid_t sim_getpgrp(void) { return 4242; }
pid_t sim_tcgetpgrp(int) { return 1; }
uid_t sim_getuid(void) { return 1000; }
int sim_gethostname(char *b, size_t n) { snprintf(b, n, "simradar"); return 0; }
int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); char b[64]; int r = vsnprintf(b, sizeof b, f, ap); va_end(ap); core_cost(200); return r; }
int sim_vprintf(const char *f, va_list ap) { char b[64]; int r = vsnprintf(b, sizeof b, f, ap); core_cost(200); return r; }
int sim_puts(const char *) { core_cost(200); return 1; }
int sim_putchar(int c) { core_cost(100); return c; }
void sim_perror(const char *) {}
fftwf_plan sim_fftwf_plan_dft_1d(int n, fftwf_complex *i, fftwf_complex *o, int s, unsigned) {
    // the planner may write into the arrays when measuring; estimate only, through private arrays
    return fftwf_plan_dft_1d(n, i, o, s, FFTW_ESTIMATE);
}
int sim_fftwf_import_wisdom_from_filename(const char *) { return 1; }
int sim_fftwf_export_wisdom_to_filename(const char *) { return 1; }

// ---------------------------------------------------------------- netCDF: the real library on a private real folder; files appear in the VFS on close
struct NcOpen { std::string vpath, rpath; bool wr; };
static std::map<int, NcOpen> ncs; static int nc_seq; extern char g_scratch[];
static std::string nc_real(void) { return std::string(g_scratch) + "/n" + std::to_string(nc_seq++); }
int sim_nc_create(const char *path, int mode, int *id) {
    core_call(C_NC); disk_delay("nc_create"); take_delay(); core_point("nc_create");
    int e = 0; if (mode & NC_NOCLOBBER) { if (lookup(norm(path))) return NC_EEXIST; }
    FileObj *f = file_open(path, O_CREAT | O_WRONLY | O_TRUNC, &e); if (!f) return e == ENOENT ? NC_ENOTNC : e;
    std::string vp = f->path; file_close(f);
    std::string rp = nc_real(); int r = nc_create(rp.c_str(), NC_CLOBBER | (mode & (NC_NETCDF4 | NC_CLASSIC_MODEL | NC_64BIT_OFFSET)), id); if (r == NC_NOERR) ncs[*id] = {vp, rp, true};
    core_cost(200 * US); return r;
}
int sim_nc_open(const char *path, int mode, int *id) {
    core_call(C_NC); core_point("nc_open"); Node *n = lookup(norm(path)); if (!n || n->dir) return ENOENT;
    std::string rp = nc_real(); FILE *f = fopen(rp.c_str(), "wb"); if (!f) sim_harness_error("scratch"); fwrite(n->data.data(), 1, n->data.size(), f); fclose(f);
    int r = nc_open(rp.c_str(), mode, id); if (r == NC_NOERR) ncs[*id] = {norm(path), rp, (mode & NC_WRITE) != 0}; else unlink(rp.c_str()); return r;
}
static int nc_done(int id, int r) {
    auto it = ncs.find(id); if (it == ncs.end()) return r;
    if (it->second.wr) {
        FILE *f = fopen(it->second.rpath.c_str(), "rb"); std::string d; if (f) { char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) d.append(b, k); fclose(f); }
        Node *n = lookup(it->second.vpath); if (n) { if (disk_full((int64_t)d.size())) { sim_fault_note("disk full"); d.resize(d.size() / 2); r = ENOSPC; } else if (cfg.p_write_fail > 0 && sim_fault("write error (EIO)", cfg.p_write_fail)) { d.resize(d.size() / 3); r = EIO; } n->data = d; n->mtime = n->ctime = now_s(); vlog('w', it->second.vpath); }
    }
    unlink(it->second.rpath.c_str()); ncs.erase(it); return r;
}
int sim_nc_close(int id) { core_call(C_NC); disk_delay("nc_close"); take_delay(); core_point("nc_close"); bool k = ncs.count(id); int r = nc_close(id); if (k) r = nc_done(id, r); core_cost(500 * US); return r; }
int sim_ncclose(int id) { return sim_nc_close(id); }
int sim_nc_abort(int id) { int r = nc_abort(id); auto it = ncs.find(id); if (it != ncs.end()) { unlink(it->second.rpath.c_str()); ncs.erase(it); } return r; }
int sim_nc_enddef(int id) { core_call(C_NC); core_point("nc_enddef"); return nc_enddef(id); }
int sim_nc_put_var_float(int id, int v, const float *p) { core_call(C_NC); core_point("nc_put_var"); core_cost(100 * US); if (cfg.p_write_fail > 0 && ncs.count(id) && ncs[id].wr && sim_fault("values not written (EIO)", cfg.p_write_fail / 10)) return EIO; return nc_put_var_float(id, v, p); }
}
int sim_open_nc(void) { return (int)ncs.size(); }

// ================================================================ harness endpoints
int net_listen(int port, int bl) { Sock *s = sk_new(); s->harness = true; s->port = port; s->state = S_LISTEN; s->backlog = bl; listeners[port] = s; return fd_new(s, true); }
int net_accept(int fd, ns_t to) { Sock *L = (Sock *)fdt[fd]; if (!net_wait([L] { return !L->acc.empty() || L->state == S_DEAD; }, sim_now() + to, "harness accept") || L->acc.empty()) return -1; Sock *s = L->acc.front(); L->acc.pop_front(); s->harness = true; return fd_new(s, true); }
int net_connect(int port, ns_t to) { Sock *s = sk_new(); s->harness = true; int e = 0; do_connect(s, port, &e); bool ok = net_wait([s] { return s->state != S_CONNECTING; }, sim_now() + to, "harness connect"); if (!ok || s->state != S_CONNECTED) { s->state = S_DEAD; return -1; } return fd_new(s, true); }
long net_send_all(int fd, const void *p, size_t n, ns_t to) { Sock *s = (Sock *)fdt[fd]; ns_t dl = sim_now() + to; long r = sk_send(s, (const char *)p, n, false, dl); return r < 0 ? 0 : r; }
long net_recv_some(int fd, void *p, size_t n, ns_t to) { Sock *s = (Sock *)fdt[fd]; long r = sk_recv(s, (char *)p, n, 0, sim_now() + to); if (r == -EAGAIN) return -2; return r < 0 ? -1 : r; }
void net_close(int fd) { fd_close(fd); }
void net_reset(int fd) { Sock *s = (Sock *)fdt[fd]; if (!s) return; fdt[fd] = nullptr; sk_close(s, true); }
void net_blackhole(int fd, bool on) { Sock *s = (Sock *)fdt[fd]; if (!s || !s->tx) return; s->tx->hold = s->rx->hold = on; if (!on) { pump(s->tx); pump(s->rx); net_changed(); } }
void net_port_refuse(int port, bool on) { if (on) refuse_ports.insert(port); else refuse_ports.erase(port); }
void net_port_blackhole(int port, bool on) { if (on) hole_ports.insert(port); else hole_ports.erase(port); }
size_t net_rx_avail(int fd) { Sock *s = (Sock *)fdt[fd]; return s && s->rx ? s->rx->avail() : 0; }
void net_set_buf(int fd, int64_t snd, int64_t rcv) { Sock *s = (Sock *)fdt[fd]; if (s->tx) s->tx->cap = snd; if (s->rx) s->rx->cap = rcv; }
int net_listeners(int port) { return listeners.count(port) ? 1 : 0; }
bool icmp_open(int sock) { return socks.count(sock) != 0; }
void icmp_deliver(int sock, uint32_t ip, const std::string &d, ns_t delay) { sim_at(sim_now() + delay, [sock, ip, d] { auto it = socks.find(sock); if (it == socks.end()) return; it->second->dg.push_back({ip, d}); net_changed(); }); }
void os_init(void) { vfs_init(); }
