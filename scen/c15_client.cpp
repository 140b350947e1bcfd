// C15: a client receives every message whole, reconnects, and can always be stopped
#include "rk.h"
extern "C" int sim_shutdown(int fd, int how);
namespace {
const int PORT = 9100;
struct Msg { int type, sub; std::string body; };
struct Conn { int id; std::vector<Msg> sent; size_t got = 0; bool whole = false, closed = false; ns_t t0; };
struct Cl { RKClient *c = nullptr; int format; std::deque<Conn> conns; size_t cur = 0; double work; int initfail = 0; std::vector<int> initres; int inits = 0, exits = 0, inside = 0; bool live = false; ns_t last = 0; uint64_t delivered = 0; ns_t worst = 0; };
Cl *C;
std::string body(int id, int seq, size_t n, int format) { char b[64]; snprintf(b, sizeof b, "<%d:%d:%zu>", id, seq, n); std::string s = b; if (format == 2 && n == 0) return ""; n = std::max(n, s.size()); s.reserve(n); uint64_t x = (uint64_t)id * 977 + (uint64_t)seq * 131 + 1; while (s.size() < n) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; char ch = (char)(x >> 40); if (format == 0 && (ch == '\n' || ch == 0)) ch = '.'; s += ch; } s.resize(n); return s; }
int on_recv(RKClient *c) {
    CHECK(C->live, "late", "the receive handler runs while the client is not running"); CHECK(!C->inside++, "overlap", "two messages are handled at the same time");
    const char *p = (const char *)c->userPayload; size_t n; CHECK(p, "payload", "a message without a payload");
    if (C->format == 0) n = strlen(p); else n = C->format == 1 ? (size_t)c->blockLength : c->netDelimiter.size;
    CHECK(p[n] == 0, "terminate", "the payload of %zu bytes is not terminated", n);
    // the message of the oldest connection that has not been passed
    sim_atomic_begin(); bool ok = false; std::string why = "nobody sent it"; Msg m;
    for (size_t i = C->cur; i < C->conns.size(); i++) { Conn &x = C->conns[i]; if (x.got >= x.sent.size()) continue; m = x.sent[x.got]; bool same = m.body.size() == n && !memcmp(m.body.data(), p, n); if (C->format == 2) same = same && m.type == c->netDelimiter.type && m.sub == c->netDelimiter.subtype && c->netDelimiter.decodedSize == (uint32_t)x.got;
        if (same) { if (i > C->cur) { for (size_t j = C->cur; j < i; j++) C->conns[j].closed = true; C->cur = i; } x.got++; ok = true; break; } char b[300]; snprintf(b, sizeof b, "connection %zu has %zu messages sent, next is %zu with %zu bytes of type %d", i, x.sent.size(), x.got, m.body.size(), m.type); why = b; }
    sim_atomic_end();
    CHECK(ok, "message", "a message with %zu bytes of type %d starting with '%.24s' is delivered, %s", n, c->netDelimiter.type, n ? p : "", why.c_str());
    sim_note("got %zu", n); C->delivered++; C->last = sim_now(); sim_probe("messages delivered");
    if (C->work > 0) sim_sleep_ns((ns_t)(wlf() * C->work * MS)); else sim_yield();
    if (n) CHECK(!memcmp(m.body.data(), p, std::min(n, (size_t)4000)), "changed", "the payload changed while it was handled");
    if (n && wl(8) == 0) memset(c->userPayload, 'x', n);
    C->inside--; return 0; }
int on_init(RKClient *c) { C->inits++; sim_note("init"); CHECK(C->live, "late", "the greet handler runs while the client is not running"); bool f = C->initfail > 0; C->initres.push_back(f); if (f) { C->initfail--; sim_fault_note("greeting fails"); return 1; } RKNetworkSendPackets(c->sd, "hello\n", (ssize_t)6, NULL); return 0; }
int on_exit(RKClient *c) { C->exits++; CHECK(c->state == RKClientStateDisconnected, "exit", "the close handler runs in state %d", c->state); return 0; }
}
SCENARIO(client, "C15") {
    rk_quiet(); chaos(); cfg.max_vtime = 4000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 50 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 20 * MS);
    Cl k; C = &k; k.format = (int)P("format", 0, 2); k.work = (double[]){0, 2, 50}[P("work", 0, 2)]; bool blocking = Pbool("blocking", 0.5), greet = Pbool("greet", 0.6), clock = Pbool("clock", 0.3), giant = Pbool("giant", 0.04); int conns = (int)P("connections", 1, 6), rate = (int)P("rate", 0, 2), maxsize = (int[]){40, 3000, 60000}[P("size", 0, 2)], buf = (int)P("buffers", 0, 2);
    cfg.sndbuf = cfg.rcvbuf = (int64_t[]){262144, 8000, 300}[buf]; if (maxsize > 50000 && buf == 2) cfg.sndbuf = cfg.rcvbuf = 8000; if (giant) { cfg.sndbuf = cfg.rcvbuf = 262144; cfg.p_stall = 0; }
    cfg.p_recv_short = giant ? 0 : (double[]){0, 0.1, 0.7}[P("short", 0, 2)]; cfg.p_send_short = 0.05; cfg.p_lat_jitter = (double[]){0, 0.2}[P("lat", 0, 1)]; cfg.p_eintr = Pbool("eintr", 0.3) ? 0.02 : 0;
    RKClientDesc d; memset(&d, 0, sizeof d); strcpy(d.name, "cli"); strcpy(d.hostname, "peer"); d.port = PORT; d.type = RKNetworkSocketTypeTCP; d.format = k.format; d.blocking = blocking; d.reconnect = true; d.timeoutSeconds = (int)P("timeout", 2, 6); d.blockLength = k.format == 1 ? (int)(16 + wl((uint64_t)maxsize)) : 0; if (giant && k.format == 1) d.blockLength = RKMaximumPacketSize; int tmo = d.timeoutSeconds;
    dns_table["peer"] = 0x0a000001; RKClient *c = RKClientInitWithDesc(d); CHECK(c, "init", "no client"); k.c = c; RKClientSetReceiveHandler(c, on_recv); if (greet) RKClientSetGreetHandler(c, on_init); RKClientSetCloseHandler(c, on_exit); k.initfail = greet && wl(3) == 0 ? (int)wl(3) : 0;
    const ns_t slack = 3 * SEC + 200 * cfg.stall_hi + 100 * cfg.jitter_hi; // lateness of everything the simulator may add
    bool fini = false, stopping = false; int aux = -1; if (clock) aux = sim_spawn("clock", [&] { while (!fini) { sim_sleep_ns((ns_t)wl(3000) * MS); sim_fault_note("clock jump"); sim_wall_jump((int64_t)((wlf() - 0.5) * 20000 * (double)SEC)); } });
    // ---- the server: takes every connection at once, serves one that has not waited for long
    struct Acc { int fd; size_t ix; ns_t t; }; std::vector<Acc> waiting; size_t accepted = 0;
    int ls = -1; bool up = false; ns_t upsince = 0; auto open = [&] { if (ls < 0) { ls = net_listen(PORT); CHECK(ls >= 0, "harness", "cannot listen"); } net_port_refuse(PORT, false); net_port_blackhole(PORT, false); dns_fail = false; up = true; upsince = sim_now(); };
    auto drain = [&](int fd, std::string &in) { char b[4096]; while (net_rx_avail(fd) > 0) { long r = net_recv_some(fd, b, sizeof b, 1 * MS); if (r <= 0) return r; in.append(b, (size_t)r); } return 1L; };
    auto pings = [&](const std::string &in, bool complete) { size_t i = 0; if (greet && in.size() >= 6) { CHECK(in.compare(0, 6, "hello\n") == 0, "beacon", "the client starts with '%.20s'", in.c_str()); i = 6; } else if (greet) return; const std::string pg = "ping\r\n"; while (i < in.size()) { size_t n = std::min(pg.size(), in.size() - i); CHECK(in.compare(i, n, pg, 0, n) == 0, "beacon", "the client sends '%.20s'", in.c_str() + i); CHECK(n == pg.size() || !complete, "beacon", "an incomplete beacon"); i += n; if (n == pg.size()) sim_probe("beacons"); } };
    int acceptor = sim_spawn("acceptor", [&] { while (!fini) { int l = ls, fd = l < 0 ? -1 : net_accept(l, 10 * MS); if (fd >= 0) waiting.push_back({fd, accepted++, sim_now()}); else if (l < 0) sim_sleep_ns(5 * MS); } });
    int rounds = 0; bool done = false;
    auto serve = [&](bool last) { // one connection, from accept to its end
        int fd = -1; size_t io = 0; ns_t lim = (ns_t)(3 * (tmo + 1)) * SEC + 10 * SEC + slack; ns_t t0 = sim_now(); while (fd < 0 && !stopping) { sim_sleep_ns(1 * MS); while (!waiting.empty() && fd < 0) { Acc a = waiting.back(); waiting.pop_back(); if (sim_now() - a.t < 300 * MS) { fd = a.fd; io = a.ix; } else net_close(a.fd); } CHECK(fd >= 0 || sim_now() - t0 < lim, "reconnect", "the client has not connected %.1f s after the server is reachable", 1e-9 * (double)(sim_now() - t0)); } while (!waiting.empty()) { net_close(waiting.back().fd); waiting.pop_back(); } if (fd < 0) return;
        sim_probe("connections"); sim_note("accepted"); sim_atomic_begin(); k.conns.emplace_back(); Conn &x = k.conns.back(); x.id = (int)k.conns.size() - 1; x.t0 = sim_now(); sim_atomic_end(); size_t ix = k.conns.size() - 1; std::string in; if (greet) { sim_wait_until([&] { return k.initres.size() > io || stopping; }, 20 * SEC); if (stopping) { net_close(fd); return; } CHECK(k.initres.size() > io, "greet", "a connection without a greeting"); if (k.initres[io]) { char b[64]; ns_t ts = sim_now(); for (;;) { long r = net_recv_some(fd, b, sizeof b, 200 * MS); if (r == 0 || r == -1 || stopping) break; CHECK(sim_now() - ts < 5 * SEC + slack, "linger", "the client keeps a connection whose greeting failed"); } net_close(fd); return; } } CHECK(sim_open_fds() <= 1, "leak", "more than one descriptor open:%s", sim_fd_dump().c_str());
        int n = giant ? 1 + (int)wl(2) : 1 + (int)wl(last ? 8 : 30); int end = last ? 0 : (int)wl(8); bool cut = false; if (giant) n = 1;
        auto chunked = [&](const std::string &w) { size_t at = 0; bool slow = wl(4) == 0; while (at < w.size() && !stopping) { size_t m = giant ? w.size() : slow ? 1 + wl(std::max<size_t>(1, w.size() / 4)) : wl(3) ? w.size() : 1 + wl(w.size()); m = std::min(m, w.size() - at); long r = net_send_all(fd, w.data() + at, m, (ns_t)(tmo + 10) * SEC + slack); if (r != (long)m) { cut = true; return false; } at += m; if (at < w.size() && slow) sim_sleep_ns((ns_t)(wlf() * (double)700) * MS / 2); drain(fd, in); } return at == w.size(); };
        auto wire = [&](const Msg &m, size_t seq) { if (k.format == 0 || k.format == 1) return m.body; RKNetDelimiter dl; memset(&dl, 0, sizeof dl); dl.type = (uint16_t)m.type; dl.subtype = (uint16_t)m.sub; dl.size = (uint32_t)m.body.size(); dl.decodedSize = (uint32_t)seq; return std::string((char *)&dl, sizeof dl) + m.body; };
        for (int i = 0; i < n && !stopping; i++) { Conn &y = k.conns[ix]; size_t len = giant ? RKMaximumPacketSize - (k.format == 0) : wl(6) == 0 ? 0 : wl((uint64_t)maxsize); Msg m{(int)wl(200), (int)wl(100), ""}; if (k.format == 1) len = (size_t)d.blockLength; m.body = body(y.id, i, len, k.format); if (k.format == 1) m.body.resize((size_t)d.blockLength); if (k.format == 0) { if (giant) m.body.resize(RKMaximumPacketSize - 1); m.body += '\n'; } std::string w = wire(m, (size_t)i); sim_atomic_begin(); y.sent.push_back(m); sim_atomic_end(); // visible before its last byte can arrive
            if (!chunked(w)) break; if (rate == 1) sim_sleep_ns((ns_t)wl(50) * MS); if (rate == 2) sim_sleep_ns((ns_t)wl((uint64_t)std::min(tmo * 500, 1500)) * MS); if (drain(fd, in) <= 0) { cut = true; break; } }
        if (cut || stopping) { if (!stopping) { CHECK(tmo <= 0, "dropped", "the client dropped connection %zu, on which everything was in order, after %.1f s and %zu messages", ix, 1e-9 * (double)(sim_now() - k.conns[ix].t0), k.conns[ix].sent.size()); } net_close(fd); return; }
        sim_note("end %d", end); ns_t te = sim_now(); auto flush = [&](ns_t l) { ns_t t = sim_now(); while (k.conns[ix].got < k.conns[ix].sent.size() && !stopping) { sim_sleep_ns(5 * MS); drain(fd, in); CHECK(sim_now() - t < l, "lost", "message %zu of %zu is not delivered in %.1f s", k.conns[ix].got, k.conns[ix].sent.size(), 1e-9 * (double)(sim_now() - t)); } };
        ns_t fl = (k.format == 0 && maxsize > 5000 ? 90 : 5) * SEC + slack + (ns_t)((double)n * (k.work + 5) * 2) * MS;
        switch (end) {
            case 0: case 1: { // the server ends after the last message: everything has to arrive
                sim_shutdown(fd, SHUT_WR); char b[512]; for (;;) { long r = net_recv_some(fd, b, sizeof b, 500 * MS); if (r > 0) in.append(b, (size_t)r); if (r == 0 || r == -1 || stopping) break; CHECK(sim_now() - te < fl, "linger", "the client keeps a connection that has ended for %.1f s", 1e-9 * (double)(sim_now() - te)); } if (!stopping) { CHECK(k.conns[ix].got == k.conns[ix].sent.size(), "lost", "the server sent %zu messages and closed; %zu were delivered", k.conns[ix].sent.size(), k.conns[ix].got); pings(in, true); sim_probe("orderly ends"); } net_close(fd); break; }
            case 2: { Msg m{1, 1, body((int)ix, 9999, 30 + wl((uint64_t)maxsize), k.format)}; if (k.format == 1) m.body.resize((size_t)d.blockLength, 'q'); std::string w = wire(m, 9999); w.resize(1 + wl(std::min<size_t>(w.size() - 1, k.format == 2 && wl(2) ? 20 : w.size() - 1))); if (k.format == 1 && (int)w.size() >= d.blockLength) w.resize((size_t)d.blockLength - 1); sim_fault_note("ends within a message"); net_send_all(fd, w.data(), w.size(), 5 * SEC); flush(fl); sim_sleep_ns((ns_t)wl(300) * MS); drain(fd, in); if (wl(2)) net_reset(fd); net_close(fd); break; }
            case 3: { flush(fl); sim_fault_note("network cut"); net_blackhole(fd, true); sim_sleep_ns((ns_t)(tmo + 2) * SEC + slack); net_blackhole(fd, false); net_reset(fd); net_close(fd); break; }
            case 4: { flush(fl); sim_fault_note("server silent"); ns_t ts = sim_now(); char b[512]; for (;;) { long r = net_recv_some(fd, b, sizeof b, 200 * MS); if (r > 0) in.append(b, (size_t)r); if (r == 0 || r == -1 || stopping) break; CHECK(sim_now() - ts < (ns_t)(tmo + 3) * SEC + slack, "silent", "the client stays with a silent server for %.1f s", 1e-9 * (double)(sim_now() - ts)); } if (!stopping) CHECK(sim_now() - k.last > (ns_t)(tmo * 1000 - 200) * MS, "dropped", "the client leaves a silent server after %.1f s, the limit is %d s", 1e-9 * (double)(sim_now() - k.last), tmo); pings(in, true); net_close(fd); break; }
            case 5: { flush(fl); sim_fault_note("connection reset"); net_reset(fd); net_close(fd); break; }
            case 6: { sim_fault_note("oversized message"); flush(fl); std::string w; if (k.format == 2) { RKNetDelimiter dl; memset(&dl, 0, sizeof dl); dl.type = 's'; dl.size = wl(2) ? RKMaximumPacketSize + 1 + (uint32_t)wl(3) : wl(2) ? 0xFFFFFFFFu - (uint32_t)wl(3) : 0x80000000u + (uint32_t)wl(5); w = std::string((char *)&dl, sizeof dl) + std::string(100 + wl(1000), 'z'); } else w = std::string(20 + wl(50), 'z'); if (k.format == 1) w.resize(std::min<size_t>(w.size(), (size_t)d.blockLength - 1)); net_send_all(fd, w.data(), w.size(), 5 * SEC); ns_t ts = sim_now(); char b[512]; for (;;) { long r = net_recv_some(fd, b, sizeof b, 200 * MS); if (r == 0 || r == -1 || stopping) break; CHECK(sim_now() - ts < (ns_t)(tmo + 3) * SEC + slack, "oversized", "the client stays for %.1f s after a message that cannot be right", 1e-9 * (double)(sim_now() - ts)); } net_close(fd); break; }
            case 7: { flush(fl); sim_fault_note("stalls within a message"); Msg m{1, 1, body((int)ix, 9998, 60 + wl((uint64_t)maxsize), k.format)}; if (k.format == 1) m.body.resize((size_t)d.blockLength, 'q'); std::string w = wire(m, 9998); w.resize(1 + wl(w.size() - 1)); net_send_all(fd, w.data(), w.size(), 5 * SEC); ns_t ts = sim_now(); char b[512]; for (;;) { long r = net_recv_some(fd, b, sizeof b, 200 * MS); if (r == 0 || r == -1 || stopping) break; CHECK(sim_now() - ts < (ns_t)(tmo + 3) * SEC + slack, "silent", "the client waits %.1f s for the rest of a message", 1e-9 * (double)(sim_now() - ts)); } net_close(fd); break; } } };
    auto outage = [&] { int how = (int)wl(5); if (how == 0) return; up = false; sim_fault_note(how == 1 ? "server refuses" : how == 2 ? "server unreachable" : how == 3 ? "name lookup fails" : "server gone"); if (how == 1) net_port_refuse(PORT, true); else if (how == 2) net_port_blackhole(PORT, true); else if (how == 3) dns_fail = true; else { net_close(ls); ls = -1; } ns_t t = sim_now(), dur = (ns_t)(wlf() * 20 * SEC); while (sim_now() - t < dur && !stopping) sim_sleep_ns(50 * MS); open(); };
    bool late = Pbool("lateserver", 0.3), early = Pbool("stopearly", 0.5); if (!late) open(); else net_port_refuse(PORT, true);
    auto run = [&](int count) { return sim_spawn("server", [&, count] { if (!up) { sim_sleep_ns((ns_t)wl(8000) * MS); open(); } for (rounds = 0; rounds < count && !stopping; rounds++) { serve(rounds + 1 == count); if (!stopping && rounds + 1 < count && wl(2)) outage(); } done = true; }); };
    sim_deadline(60 * SEC, "blocked", "starting the client"); k.live = true; RKClientStart(c, wl(2) == 0); if (wl(10) == 0) RKClientStart(c, false); sim_deadline_clear();
    int th = run(conns); sim_deadline(2500 * SEC, "blocked", "serving");
    auto halt = [&](const char *what) { sim_deadline(6 * SEC + slack + (ns_t)(k.work * 2) * MS, "blocked", what); RKClientStop(c); sim_deadline_clear(); k.live = false; CHECK(!k.inside, "stop", "a handler is still running after the client has stopped"); CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); CHECK(sim_unjoined_threads() == 0, "unjoined", "threads that were never joined are left"); CHECK(sim_open_fds() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str()); };
    if (early) { ns_t t = (ns_t)(wlf() * wlf() * 30 * SEC), t0 = sim_now(); while (!done && sim_now() - t0 < t) sim_sleep_ns(10 * MS); if (wl(4) == 0) { net_port_blackhole(PORT, true); sim_sleep_ns((ns_t)wl(4000) * MS); } sim_probe("early stops"); } else { while (!done) sim_sleep_ns(20 * MS); }
    sim_deadline_clear(); if (early) { stopping = true; }
    halt("stopping the client"); CHECK(k.exits == 1, "exit", "the close handler ran %d times", k.exits); if (wl(4) == 0) halt("stopping the client twice");
    stopping = true; sim_deadline(60 * SEC + slack, "harness", "server leaving"); sim_join(th); sim_deadline_clear(); net_port_blackhole(PORT, false);
    if (Pbool("restart", 0.4)) { sim_calm(); cfg.p_eintr = 0; stopping = false; done = false; k.cur = k.conns.size(); k.initfail = 0; if (!giant) { open(); k.live = true; if (wl(2)) sim_sleep_ns((ns_t)wl(1000) * MS); 
            RKClientStart(c, false); th = run(2); sim_deadline(400 * SEC, "blocked", "serving after a restart"); while (!done) sim_sleep_ns(20 * MS); sim_deadline_clear(); sim_join(th); halt("stopping the client again"); sim_probe("restarts"); } }
    fini = true; if (aux >= 0) sim_join(aux); sim_join(acceptor); for (Acc &a : waiting) net_close(a.fd); sim_deadline(10 * SEC + slack, "blocked", "freeing the client"); RKClientFree(c); sim_deadline_clear(); if (ls >= 0) net_close(ls);
    sim_hash(k.delivered); rk_quiet();
}
