// C09: packets arrive whole, in order and uncorrupted; C14: commands exactly once, in order, in isolation
#include "rk.h"
extern "C" int sim_shutdown(int fd, int how);
namespace {
const int PORT = 10000;
// ---- one connected peer, as the harness sees it: reads and parses frames
struct Frame { int type; std::string body; };
struct Peer {
    int fd = -1; std::string in; std::vector<Frame> frames; bool eof = false, err = false;
    void feed(bool framed) { if (!framed) return; for (;;) { if (in.size() < 16) return; RKNetDelimiter d; memcpy(&d, in.data(), 16); if (in.size() < 16 + (size_t)d.size) { CHECK(d.size < 4000000, "misframed", "a packet of type %d claims %u bytes", d.type, d.size); return; } frames.push_back({d.type, in.substr(16, d.size)}); in.erase(0, 16 + (size_t)d.size); } }
    long take(ns_t timeout, bool framed = true, size_t max = 65536) { std::vector<char> v(max); long r = net_recv_some(fd, v.data(), max, timeout); if (r > 0) { in.append(v.data(), (size_t)r); feed(framed); } else if (r == 0) eof = true; else if (r == -1) err = true; return r; }
};
std::string pattern(int who, int seq, size_t n) { char b[64]; snprintf(b, sizeof b, "<%d:%d:%zu>", who, seq, n); std::string s = b; while (s.size() < n) s += (char)('A' + (s.size() * 7 + (size_t)seq * 3 + (size_t)who) % 26); s.resize(std::max(n, strlen(b))); return s; }
RKServer *S;
}

// ================================================================ C09
namespace {
struct Sent { int who, seq, type; std::string body; ssize_t r; bool done = false; ns_t t0, t1; size_t total; };
struct Pk { std::deque<Sent> sent; RKOperator *op = nullptr; bool gone = false; int inuse = 0, seq[8] = {}; std::vector<ssize_t> sizes; double pace; bool plain; int maxsize; bool ended = false, mute = false; int order = 0; };
Pk *K;
size_t pick_size(void) { switch (wl(6)) { case 0: return 0; case 1: return 16 + wl(64); case 2: return 16 + wl(2000); default: return 16 + wl((uint64_t)K->maxsize); } }
void pk_send(RKOperator *O, int who) {
    size_t ix; int seq = K->seq[who]++; size_t n = pick_size(); int how = K->plain ? 3 : who == 0 ? (int)wl(2) + 3 : who == 1 ? (int)wl(2) : (int)wl(5);
    std::string body = how == 2 ? "" : pattern(who, seq, n); Sent s{who, seq, 0, body, 0}; s.t0 = sim_now(); ssize_t r = 0; s.total = 16 + body.size();
    s.type = how == 0 ? RKNetworkPacketTypeCommandResponse : how == 1 ? RKNetworkPacketTypePlainText : how == 2 ? RKNetworkPacketTypeBeacon : 'm';
    sim_atomic_begin(); K->sent.push_back(s); ix = K->sent.size() - 1; sim_atomic_end();
    if (how == 0) r = RKOperatorSendCommandResponse(O, body.c_str()); else if (how == 1) r = RKOperatorSendDelimitedString(O, body.c_str()); else if (how == 2) r = RKOperatorSendBeacon(O);
    else { RKNetDelimiter d = {}; RKNetDelimiter *p = who == 0 ? &O->delimTx : &d; p->type = 'm'; p->size = (uint32_t)body.size(); size_t a = wl(body.size() + 1), b = a + wl(body.size() - a + 1);
        if (K->plain) { if (how == 3) r = RKNetworkSendPackets(O->sid, p, (ssize_t)sizeof *p, body.data(), (ssize_t)a, body.data() + a, (ssize_t)(body.size() - a), NULL); }
        else if (how == 3) r = RKOperatorSendPackets(O, p, (ssize_t)sizeof *p, body.data(), (ssize_t)body.size(), NULL);
        else r = RKOperatorSendPackets(O, p, (ssize_t)sizeof *p, body.data(), (ssize_t)a, body.data() + a, (ssize_t)(b - a), body.data() + b, (ssize_t)(body.size() - b), NULL); }
    sim_atomic_begin(); Sent &z = K->sent[ix]; z.r = r; z.done = true; z.t1 = sim_now(); sim_atomic_end();
    sim_note("send %d:%d %zu -> %ld", who, seq, body.size(), (long)r);
    if (r >= 0) CHECK(r == (ssize_t)z.total, "result", "sending %zu bytes returned %ld", z.total, (long)r); else sim_probe("sends that failed");
}
int pk_w(RKOperator *O) { K->op = O; return 0; }
int pk_c(RKOperator *O) { if (K->mute) return 0; int n = 1 + (int)wl(3); while (n--) pk_send(O, 1); return 0; }
int pk_s(RKOperator *O) { static ns_t last; if (sim_now() < last) last = 0; if (!K->mute && sim_now() - last > (ns_t)(K->pace * MS)) { last = sim_now(); int n = 1 + (int)wl(4); while (n--) pk_send(O, 0); } return 0; }
int pk_t(RKOperator *O) { (void)O; K->gone = true; while (K->inuse) sim_sleep_ns(1 * MS); K->ended = true; return 0; }
}
SCENARIO(packets, "C09") {
    rk_quiet(); chaos(); cfg.max_vtime = 3000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 100 * MS);
    Pk k; K = &k; k.plain = Pbool("plain", 0.2); k.pace = (double[]){0, 1, 10, 100}[P("pace", 0, 3)]; k.maxsize = (int[]){100, 5000, 100000}[P("size", 0, 2)]; int extra = k.plain ? 0 : (int)P("senders", 0, 3), mode = (int)P("peer", 0, 5), buf = (int)P("buffers", 0, 3), n = (int)P("packets", 5, 60); static int64_t bs[] = {262144, 20000, 3000, 300};
    cfg.sndbuf = cfg.rcvbuf = bs[buf]; cfg.p_send_short = (double[]){0, 0.1, 0.6}[P("short", 0, 2)]; cfg.p_recv_short = 0.1; cfg.p_lat_jitter = (double[]){0, 0.2}[P("lat", 0, 1)]; cfg.p_eintr = Pbool("eintr", 0.3) ? 0.01 : 0; cfg.p_send_eagain = Pbool("eagain", 0.3) ? 0.2 : 0;
    if (k.maxsize > 50000 && bs[buf] < 3000) cfg.sndbuf = cfg.rcvbuf = 3000;
    S = RKServerInit(); RKServerSetName(S, "srv"); RKServerSetPort(S, PORT); S->timeoutSeconds = (int)P("timeout", 2, 5); int tmo = S->timeoutSeconds;
    RKServerSetWelcomeHandler(S, pk_w); RKServerSetCommandHandler(S, k.plain ? [](RKOperator *) { return 0; } : pk_c); RKServerSetStreamHandler(S, pk_s); RKServerSetTerminateHandler(S, pk_t);
    sim_deadline(30 * SEC, "blocked", "starting the server"); RKServerStart(S); sim_deadline_clear(); CHECK(S->state == RKServerStateActive, "start", "the server did not start");
    Peer p; for (int t = 0; t < 100 && p.fd < 0; t++) p.fd = net_connect(PORT, 5 * SEC); CHECK(p.fd >= 0, "connect", "cannot connect"); sim_wait_until([&] { return k.op != nullptr; }, 10 * SEC); CHECK(k.op, "welcome", "no welcome in 10 s");
    bool fini = false; std::vector<int> th;
    for (int x = 0; x < extra; x++) th.push_back(sim_spawn("sender", [&, x] { for (int q = 0; q < n * 2 && !fini; q++) { sim_atomic_begin(); bool ok = !k.gone; if (ok) k.inuse++; sim_atomic_end(); if (!ok) break; pk_send(k.op, 2 + x); k.inuse--; sim_sleep_ns((ns_t)wl(1 + (uint64_t)(k.pace * 2000)) * US + 10 * US); } }));
    int cmd = sim_spawn("commands", [&] { while (!fini) { if (net_send_all(p.fd, "go\n", 3, 2 * SEC) != 3) break; sim_sleep_ns((ns_t)(1 + wl(100)) * MS); } });
    // the peer: 0,1 reads along, 2 reads slowly, 3 pauses (short), 4 stops reading for longer than anyone waits, 5 leaves abruptly or is cut off
    sim_deadline(1500 * SEC, "blocked", "sending packets"); size_t want = (size_t)n; bool stopped = false; ns_t pause_end = 0;
    std::map<int, int> last; size_t checked = 0, beacons = 0, hit = 0; std::map<std::pair<int, int>, size_t> where; size_t scanned = 0;
    auto judge = [&] { for (; checked < p.frames.size(); checked++) { Frame &f = p.frames[checked]; if (f.type == RKNetworkPacketTypeBeacon) { CHECK(f.body.empty(), "corrupt", "a beacon with %zu bytes", f.body.size()); beacons++; continue; }
        for (; scanned < k.sent.size(); scanned++) where[{k.sent[scanned].who, k.sent[scanned].seq}] = scanned;
        int who = -1, seq = -1; size_t len = 0; CHECK(sscanf(f.body.c_str(), "<%d:%d:%zu>", &who, &seq, &len) == 3 && where.count({who, seq}), "misframed", "packet %zu of type %d with %zu bytes starts with '%.30s', which nobody sent", checked, f.type, f.body.size(), f.body.c_str()); Sent &s = k.sent[where[{who, seq}]];
        CHECK(s.body == f.body, "corrupt", "packet %d of sender %d arrived with %zu bytes, sent were %zu, and differs", seq, who, f.body.size(), s.body.size()); CHECK(s.type == f.type, "type", "packet %d of sender %d arrived as type %d, sent as %d", seq, who, f.type, s.type);
        if (last.count(who)) CHECK(seq > last[who], "order", "packet %d of sender %d arrived after packet %d", seq, who, last[who]);
        for (int q = last.count(who) ? last[who] + 1 : 0; q < seq; q++) { Sent &z = k.sent[where[{who, q}]]; if (z.type == RKNetworkPacketTypeBeacon) continue; CHECK(z.done && z.r < 0, "lost", "packet %d of sender %d, reported as sent (%ld), never arrived, but packet %d did", q, who, (long)z.r, seq); }
        CHECK(!(s.done && s.r < 0), "result", "packet %d of sender %d arrived whole but the sender was told %ld", seq, who, (long)s.r); last[who] = seq; hit++; } };
    while (p.frames.size() < want && !p.eof && !p.err) {
        size_t max = mode == 2 ? 1 + wl(300) : 65536; p.take(1 * SEC, true, max); judge();
        if (mode == 2) { sim_sleep_ns((ns_t)(1 + wl(20)) * MS); sim_probe("slow reads"); }
        if (mode == 3 && wl(20) == 0 && sim_now() > pause_end + 1 * SEC && net_rx_avail(p.fd) < 100) { sim_fault_note("peer pauses"); sim_sleep_ns((ns_t)(wlf() * 1.2 * SEC)); pause_end = sim_now(); }
        if ((mode == 4 || mode == 5) && p.frames.size() * 2 >= want && !stopped) { stopped = true; ns_t d = mode == 4 ? (ns_t)((wlf() * 3 + 0.2) * tmo * SEC) : 1 * SEC; sim_fault_note(mode == 4 ? "peer stops reading" : "peer cut off"); if (mode == 5) { if (wl(3) == 0) { net_blackhole(p.fd, true); sim_sleep_ns((ns_t)(wlf() * 2 * tmo * SEC)); net_blackhole(p.fd, false); } else { net_reset(p.fd); p.err = true; break; } } else sim_sleep_ns(d); }
    }
    fini = true; bool alive = !p.eof && !p.err;
    // senders finish; what was reported as sent on a connection that stays up has to arrive
    if (alive) { k.mute = true; for (int t : th) { while (!sim_thread_done(t)) { p.take(10 * MS); judge(); if (p.eof || p.err) break; } if (p.eof || p.err) break; } ns_t t0 = sim_now(); while (sim_now() - t0 < 8 * SEC && !p.eof && !p.err) { p.take(200 * MS); judge(); } alive = !p.eof && !p.err; }
    for (int t : th) { while (!sim_thread_done(t)) { sim_sleep_ns(5 * MS); } sim_join(t); } while (!sim_thread_done(cmd)) sim_sleep_ns(5 * MS); sim_join(cmd); sim_deadline_clear();
    if (alive) { CHECK(p.in.empty(), "incomplete", "%zu bytes of a packet that never completes on a connection that is up", p.in.size()); size_t sb = 0; for (; scanned < k.sent.size(); scanned++) where[{k.sent[scanned].who, k.sent[scanned].seq}] = scanned;
        for (Sent &s : k.sent) { if (!s.done) continue; if (s.type == RKNetworkPacketTypeBeacon) { sb += s.r > 0; continue; } if (s.r > 0) CHECK(last.count(s.who) && last[s.who] >= s.seq, "lost", "packet %d of sender %d was reported as sent (%ld) and never arrived", s.seq, s.who, (long)s.r); } CHECK(sb == beacons, "lost", "%zu beacons were sent, %zu arrived", sb, beacons); sim_probe("connections intact"); }
    else sim_probe("connections lost");
    if (mode <= 3 && !cfg.p_thread_fail && !alive && !k.plain) { // a peer that keeps reading is not dropped
        CHECK(mode == 2, "dropped", "the connection of a peer that reads all along was dropped after %zu packets", p.frames.size()); }
    sim_probe("packets delivered", (long)hit); sim_probe("beacons delivered", (long)beacons);
    if (!p.err) net_close(p.fd);
    sim_deadline(120 * SEC, "blocked", "stopping the server"); RKServerStop(S); RKServerWait(S); RKServerFree(S); sim_deadline_clear();
    sim_wait_until([&] { return sim_live_code_threads() == 0; }, 10 * SEC); CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); CHECK(sim_open_fds() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str());
    rk_quiet();
}

// ================================================================ C14
namespace {
struct Client { int id; Peer p; int sent = 0; int executed = 0; bool strict = true; int welcomes = 0, ends = 0; RKOperator *op = nullptr; int replies = 0, streams = 0; bool hung = false; std::vector<std::string> lines; std::vector<ns_t> when; };
struct Cm { std::deque<Client> cl; std::map<RKOperator *, int> owner; double work; bool streams, hangs; int inside[16] = {}, live = 0, maxlive = 0; ns_t worst = 0; int limit = 0; bool welcome = true; std::map<RKOperator *, int> opened; std::map<RKOperator *, ns_t> lasts; std::deque<ns_t> ends; };
Cm *C;
int cm_w(RKOperator *O) { sim_atomic_begin(); CHECK(!C->opened[O], "twice", "operator %d is welcomed while it is in service", O->iid); C->opened[O] = 1; C->owner[O] = -1; C->live++; C->maxlive = std::max(C->maxlive, C->live); int live = C->live; sim_atomic_end(); CHECK(live <= C->limit, "over", "%d operators at the same time, the limit is %d", live, C->limit); CHECK(O->iid >= 0 && O->iid < C->limit, "place", "operator number %d, the limit is %d", O->iid, C->limit); RKOperatorSendDelimitedString(O, "welcome"); return 0; }
int cm_c(RKOperator *O) {
    CHECK(O->cmd, "command", "the command handler is called without a command"); CHECK(!C->inside[O->iid]++, "overlap", "two commands of operator %d run at the same time", O->iid);
    CHECK(C->opened[O] == 1, "after", "a command runs after operator %d has ended", O->iid);
    std::string s = O->cmd; int id = -1, seq = -1; size_t len = 0; CHECK(sscanf(s.c_str(), "cmd %d %d %zu ", &id, &seq, &len) == 3 && id >= 0 && id < (int)C->cl.size(), "garbled", "the command '%.60s' (%zu), which nobody sent", s.c_str(), s.size()); Client &c = C->cl[id];
    CHECK(seq < (int)c.lines.size() && c.lines[seq] == s, "garbled", "command %d of client %d runs as '%.80s' (%zu characters)", seq, id, s.c_str(), s.size());
    int &ow = C->owner[O]; if (ow < 0) { ow = id; CHECK(!c.op, "twice", "client %d is handled by two operators", id); c.op = O; } CHECK(ow == id, "mixed", "the operator of client %d runs a command of client %d", ow, id);
    CHECK(seq == c.executed, seq < c.executed ? "twice" : "lost", "client %d's command %d runs when %d is next", id, seq, c.executed); c.executed++; sim_probe("commands run");
    if (C->work > 0) sim_sleep_ns((ns_t)(wlf() * C->work * MS)); else sim_yield();
    CHECK(O->cmd && s == O->cmd, "changed", "command %d of client %d changed while it ran, to '%.60s'", seq, id, O->cmd ? O->cmd : "(null)");
    char b[64]; snprintf(b, sizeof b, "reply %d %d", id, seq); RKOperatorSendCommandResponse(O, b);
    C->inside[O->iid]--; if (C->hangs && wl(40) == 0) { c.hung = true; RKOperatorHangUp(O); sim_probe("hang-ups"); } return 0; }
int cm_s(RKOperator *O) { if (sim_now() - C->lasts[O] < 20 * MS) return 0; C->lasts[O] = sim_now(); char b[64]; snprintf(b, sizeof b, "stream %d", C->owner[O]); RKOperatorSendDelimitedString(O, b); return 0; }
int cm_t(RKOperator *O) { sim_atomic_begin(); CHECK(C->opened[O] == 1, "twice", "operator %d is dismissed twice", O->iid); C->opened[O] = 0; C->live--; sim_atomic_end(); C->ends.push_back(sim_now()); return 0; }
}

SCENARIO(operators, "C14") {
    rk_quiet(); chaos(); cfg.max_vtime = 4000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 50 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 50 * MS);
    Cm c; C = &c; c.limit = (int)P("limit", 1, 6); int total = (int)P("clients", 1, 10); c.work = (double[]){0, 1, 30}[P("work", 0, 2)]; c.streams = Pbool("streams", 0.6); c.hangs = Pbool("hangs", 0.2); bool beacon = Pbool("beacon", 0.25), early = Pbool("stopearly", 0.25), clock = Pbool("clock", 0.3); int net = (int)P("net", 0, 3), mix = (int)P("mix", 0, 2);
    cfg.p_recv_short = (double[]){0, 0.2, 0.8}[P("short", 0, 2)]; cfg.p_lat_jitter = (double[]){0, 0.3}[P("lat", 0, 1)]; if (net == 1) cfg.p_accept_fail = 0.2; if (net == 2) cfg.p_thread_fail = 0.1; if (net == 3) cfg.p_eintr = 0.02; bool lossy = net == 1 || net == 2; cfg.p_send_short = cfg.p_recv_short; if (Pbool("small", 0.4)) cfg.sndbuf = cfg.rcvbuf = 2000;
    S = RKServerInit(); RKServerSetName(S, "srv"); RKServerSetPort(S, PORT); S->maxClient = c.limit; S->timeoutSeconds = beacon ? 6 : (int)P("timeout", 15, 30); if (beacon) S->options = RKServerOptionExpectBeacon;
    RKServerSetWelcomeHandler(S, cm_w); RKServerSetCommandHandler(S, cm_c); if (c.streams) RKServerSetStreamHandler(S, cm_s); RKServerSetTerminateHandler(S, cm_t);
    bool ok = false; for (int k = 0; k < 50 && !ok; k++) { sim_deadline(30 * SEC, "blocked", "starting the server"); RKServerStart(S); sim_deadline_clear(); ok = S->state == RKServerStateActive; } CHECK(ok, "start", "the server does not start");
    int pending = 0; bool quit = false, stopping = false; ns_t bound = 10 * SEC + (ns_t)(c.work * 50 * MS);
    auto line = [&](Client &x) { char b[64]; snprintf(b, sizeof b, "cmd %d %zu ", x.id, x.lines.size()); std::string s = b; size_t n = wl(8) == 0 ? 440 + wl(61) : 20 + wl(60); s += std::to_string(n) + " "; while (s.size() < n) s += (char)('a' + (s.size() * 3 + x.lines.size() + (size_t)x.id) % 26); x.lines.push_back(s); x.when.push_back(0); return s + (wl(4) == 0 ? "\r\n" : wl(6) == 0 ? "  \n" : "\n"); };
    auto replies = [&](Client &x) { for (; !x.p.frames.empty(); x.p.frames.erase(x.p.frames.begin())) { Frame &f = x.p.frames[0]; if (f.body == "welcome") { CHECK(!x.welcomes++, "twice", "client %d is welcomed twice", x.id); continue; } int id, seq; if (sscanf(f.body.c_str(), "reply %d %d", &id, &seq) == 2) { CHECK(id == x.id, "mixed", "client %d gets a reply for client %d", x.id, id); CHECK(seq == x.replies, seq < x.replies ? "twice" : "lost", "client %d gets the reply to command %d when %d is next", x.id, seq, x.replies); x.replies++; c.worst = std::max(c.worst, sim_now() - x.when[(size_t)seq]); continue; } if (sscanf(f.body.c_str(), "stream %d", &id) == 1) { CHECK(id == -1 || id == x.id, "mixed", "client %d gets the stream of client %d", x.id, id); x.streams++; continue; } sim_fail("misframed", "client %d gets '%.40s'", x.id, f.body.c_str()); } };
    enum { REFUSED, LOST, SERVED };
    auto enter = [&](Client &x) -> int { for (int tries = 0;; tries++) { CHECK(tries < 200, "connect", "client %d cannot connect", x.id); ns_t t0 = sim_now(); x.p = Peer(); x.p.fd = net_connect(PORT, 5 * SEC); if (x.p.fd < 0) { if (stopping) return LOST; CHECK(lossy || total > c.limit, "connect", "client %d is refused by the network", x.id); sim_sleep_ns(50 * MS); continue; }
            pending++; while (x.p.in.empty() && x.p.frames.empty() && !x.p.eof && !x.p.err) { x.p.take(1 * SEC, false); CHECK(stopping || sim_now() - t0 < 8 * SEC, "welcome", "client %d is neither welcomed nor refused in %.1f s", x.id, 1e-9 * (double)(sim_now() - t0)); if (stopping && sim_now() - t0 > 60 * SEC) break; }
            pending--; if (x.p.in.empty()) { net_close(x.p.fd); if (stopping) return LOST; CHECK(lossy, "dropped", "client %d is accepted and dropped without a word", x.id); sim_sleep_ns(20 * MS); continue; }
            if (x.p.in[0] == 'S') { while (!x.p.eof && !x.p.err && x.p.in.size() < 12) x.p.take(1 * SEC, false); CHECK(x.p.in.compare(0, 12, "Server busy.") == 0, "refusal", "client %d is refused with '%.20s'", x.id, x.p.in.c_str()); int busy = c.live + pending; for (ns_t e : c.ends) if (e + 3 * SEC > t0) busy++; CHECK(busy >= c.limit || stopping, "refusal", "client %d is refused with %d operators in service or just ended, the limit is %d", x.id, busy, c.limit); for (int q = 0; q < 5 && !x.p.eof && !x.p.err; q++) x.p.take(1 * SEC, false); CHECK(x.p.eof || x.p.err || stopping, "refusal", "a refused connection stays open"); net_close(x.p.fd); sim_probe("refusals"); return REFUSED; }
            x.p.feed(true); replies(x); return SERVED; } };
    auto push = [&](Client &x, const std::string &d) { size_t i = 0; for (; x.when.size() && x.when.back() == 0;) { for (auto &w : x.when) if (!w) w = sim_now(); } while (i < d.size()) { size_t n = wl(3) == 0 ? d.size() - i : 1 + wl(std::min<size_t>(d.size() - i, 1 + wl(300))); if (net_send_all(x.p.fd, d.data() + i, n, 20 * SEC) != (long)n) return false; i += n; if (wl(3) == 0) sim_sleep_ns((ns_t)wl(30) * MS); } return true; };
    // reads until so many replies are in; false: the connection is over
    auto await = [&](Client &x, size_t n, ns_t lim) { ns_t t0 = sim_now(); int st = x.streams; ns_t ts = t0; while ((size_t)x.replies < n) { x.p.take(100 * MS); replies(x); if (x.p.eof || x.p.err) return false; if (x.streams != st) { st = x.streams; ts = sim_now(); } if (stopping) { if (sim_now() - t0 > 100 * SEC) return false; continue; } CHECK(sim_now() - t0 < lim, "slow", "client %d has %d of %zu replies after %.1f s (%d of its commands ran)", x.id, x.replies, n, 1e-9 * (double)(sim_now() - t0), x.executed); CHECK(!c.streams || sim_now() - ts < bound, "slow", "client %d gets no stream for %.1f s", x.id, 1e-9 * (double)(sim_now() - ts)); } return true; };
    auto life = [&](Client &x, int kind) {
        int e = enter(x); if (e != SERVED) return e; sim_probe("connections served");
        ns_t lim = bound; auto over = [&](const char *what) { CHECK(stopping || x.hung, "dropped", "client %d, %s, is dropped: %zu commands sent, %d run, %d replies", x.id, what, x.lines.size(), x.executed, x.replies); };
        switch (kind) {
            case 0: { int n = 1 + (int)wl(20); while (n-- > 0) { int m = 1 + (int)wl(3); std::string d; while (m--) d += line(x); if (!push(x, d) || !await(x, x.lines.size(), lim)) { over("which reads along"); break; } sim_sleep_ns((ns_t)wl(wl(3) ? 50 : 2000) * MS); } sim_probe("ordinary clients"); net_close(x.p.fd); break; }
            case 1: { int n = 5 + (int)wl(40); std::string d; while (n--) d += line(x); if (!push(x, d) || !await(x, x.lines.size(), lim)) over("which sends many commands at once"); net_close(x.p.fd); sim_probe("bursts"); break; }
            case 2: { int n = 1 + (int)wl(30); std::string d; while (n--) d += line(x); if (wl(3) == 0) d += "cmd 9"; bool p = push(x, d); if (p) { sim_shutdown(x.p.fd, SHUT_WR); ns_t t0 = sim_now(); while (!x.p.eof && !x.p.err) { x.p.take(1 * SEC); replies(x); CHECK(sim_now() - t0 < lim + 20 * SEC, "slow", "client %d closed its end, and the server does not in %.1f s", x.id, 1e-9 * (double)(sim_now() - t0)); } if (!x.hung && !stopping) { CHECK(x.executed == (int)x.lines.size(), "lost", "client %d sent %zu commands and closed; %d were run", x.id, x.lines.size(), x.executed); sim_probe("half-closes"); } } net_close(x.p.fd); break; }
            case 3: { int n = (int)wl(12); std::string d; while (n--) d += line(x); std::string t = line(x); x.lines.pop_back(); x.when.pop_back(); d += t.substr(0, wl(t.size() - 2)); push(x, d); sim_sleep_ns((ns_t)wl(100) * MS); sim_fault_note("client vanishes"); net_reset(x.p.fd); break; }
            case 4: { int n = 30 + (int)wl(40); std::string d; while (n--) d += line(x); for (auto &w : x.when) w = sim_now(); sim_fault_note("client stops reading"); net_send_all(x.p.fd, d.data(), d.size(), 5 * SEC); ns_t until = sim_now() + (ns_t)(wlf() * 40 * SEC); while (sim_now() < until && !stopping) sim_sleep_ns(100 * MS); net_close(x.p.fd); break; }
            case 5: { ns_t t0 = sim_now(); ns_t d = (ns_t)(wlf() * 12 * SEC); while (sim_now() - t0 < d && !x.p.eof && !x.p.err && !stopping) { x.p.take(200 * MS); replies(x); } ns_t el = sim_now() - t0; if (x.p.eof || x.p.err) { CHECK(beacon || stopping, "dropped", "silent client %d is dropped after %.1f s", x.id, 1e-9 * (double)el); CHECK(stopping || el > 5 * SEC, "dropped", "silent client %d is dropped after only %.1f s", x.id, 1e-9 * (double)el); sim_probe("silent clients dropped"); } else CHECK(!beacon || el < 6 * SEC + bound, "beacon", "a silent client stays for %.1f s", 1e-9 * (double)el); net_close(x.p.fd); break; }
            case 6: { std::string d = line(x) + line(x); push(x, d); sim_fault_note("network cut"); net_blackhole(x.p.fd, true); sim_sleep_ns((ns_t)(wlf() * 20 * SEC)); net_blackhole(x.p.fd, false); net_reset(x.p.fd); break; }
            case 7: { std::string d = line(x); size_t n = 500 + wl(3000); std::string t; while (t.size() < n + 20) t += "cmd 0 0 "; d += t + "\n" + line(x); sim_fault_note("overlong line"); if (!push(x, d) || !await(x, 2, lim)) over("with a line too long"); net_close(x.p.fd); break; }
        }
        return (int)SERVED; };
    std::vector<int> th; for (int i = 0; i < 64; i++) { c.cl.emplace_back(); c.cl.back().id = i; } int next = 0, running = 0;
    static const int mixes[3][8] = {{0, 0, 1, 2, 0, 1, 2, 7}, {0, 0, 0, 4, 4, 6, 3, 1}, {0, 1, 2, 3, 4, 5, 6, 7}};
    sim_deadline(1500 * SEC, "blocked", "serving the clients");
    for (int i = 0; i < total; i++) { int kind = mixes[mix][wl(8)]; ns_t d = (ns_t)wl(wl(2) ? 100 : 5000) * MS; running++; th.push_back(sim_spawn("client", [&, kind, d] { sim_sleep_ns(d); for (int again = 0; again < 3 && next < 50; again++) { sim_atomic_begin(); int id = next++; sim_atomic_end(); int r = life(c.cl[(size_t)id], kind); if (r != REFUSED) break; sim_sleep_ns((ns_t)wl(3000) * MS); } running--; })); }
    if (clock) th.push_back(sim_spawn("clock", [&] { while (running > 0 && !quit) { sim_sleep_ns((ns_t)wl(3000) * MS); sim_fault_note("clock jump"); sim_wall_jump((int64_t)((wlf() - 0.5) * 20000 * (double)SEC)); } }));
    if (early) { sim_sleep_ns((ns_t)(wlf() * 6 * SEC)); stopping = true; sim_probe("stops under load"); }
    else { while (running > 0) sim_sleep_ns(50 * MS); sim_calm(); cfg.p_accept_fail = cfg.p_thread_fail = cfg.p_eintr = 0; lossy = false;
        // everybody has left: all places are free again
        ns_t t0 = sim_now(); while (c.live) { sim_sleep_ns(50 * MS); CHECK(sim_now() - t0 < (ns_t)S->timeoutSeconds * SEC + bound + 20 * SEC, "stuck", "%d operators remain %.1f s after their clients left", c.live, 1e-9 * (double)(sim_now() - t0)); }
        sim_sleep_ns(4 * SEC); c.hangs = false; size_t base = 50; std::vector<Client *> v; for (int i = 0; i < c.limit; i++) { Client &x = c.cl[base + (size_t)i]; total = 0; int r = enter(x); CHECK(r == SERVED, "place", "with all clients gone, %d of %d places can be taken", i, c.limit); v.push_back(&x); }
        Client &x = c.cl[63]; int r = enter(x); CHECK(r == REFUSED, "over", "client %d is served, the limit is %d", c.limit + 1, c.limit); for (Client *y : v) { std::string d = line(*y) + line(*y); CHECK(push(*y, d) && await(*y, 2, bound), "dropped", "a client of the second round is dropped"); } sim_probe("full houses"); for (Client *y : v) net_close(y->p.fd); }
    sim_deadline_clear(); quit = true; stopping = true;
    sim_deadline(200 * SEC, "blocked", "stopping the server"); RKServerStop(S); RKServerWait(S); sim_deadline_clear(); CHECK(c.live == 0, "stuck", "%d operators are in service after the server has ended", c.live); CHECK(net_listeners(PORT) == 0, "leak", "the port is still open after the server has ended");
    sim_deadline(300 * SEC, "blocked", "clients leaving"); for (int t : th) sim_join(t); sim_deadline_clear(); sim_calm(); cfg.p_accept_fail = cfg.p_thread_fail = cfg.p_eintr = 0; lossy = false;
    if (Pbool("restart", 0.4)) { stopping = false; c.hangs = false; sim_deadline(30 * SEC, "blocked", "starting the server again"); RKServerStart(S); sim_deadline_clear(); CHECK(S->state == RKServerStateActive, "restart", "the server does not start again"); Client &x = c.cl[62]; x = Client(); x.id = 62; int r = life(x, 1); CHECK(r == SERVED, "restart", "no service after a restart"); sim_probe("restarts"); sim_deadline(200 * SEC, "blocked", "stopping the server again"); stopping = true; RKServerStop(S); RKServerWait(S); sim_deadline_clear(); }
    sim_deadline(60 * SEC, "blocked", "freeing the server"); RKServerFree(S); sim_deadline_clear(); sim_wait_until([&] { return sim_live_code_threads() == 0; }, 10 * SEC); CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); CHECK(sim_unjoined_threads() == 0, "unjoined", "threads that were never joined are left"); CHECK(sim_open_fds() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str());
    rk_quiet();
}
