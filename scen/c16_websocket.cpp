// C16: messages cross the web-socket link whole, once and in order; pings are answered, the link comes back, and it can always be stopped
#include "rk.h"
#include <RadarKit/RKWebSocket.h>
namespace {
const int PORT = 8123;
const char *DIGEST = "O9QKgAZPEwFaLSqyFPYMHcGBp5g=";
struct Out { void *p; size_t n; uint64_t h; long begin, end; int state; };   // 0 waiting, 1 received, 2 refused, 3 passed over
struct In { std::string body; };
struct Conn { int id; bool garbage = false, good = false, opened = false, closed = false; std::vector<In> in; size_t got = 0, whole = 0; long openat = -1; };
struct St {
    RKWebSocket *w; std::deque<Out> out; long clk = 0, next = 0; size_t base = 0; std::deque<Conn> conns; int cur = -1; int opens = 0, closes = 0; bool up = false, live = false; int welcome = 0, reply = 0; ns_t upsince = 0; long refused = 0;
};
St *S;
std::string content(uint64_t id, size_t n) { std::string s(n, 0); uint64_t x = id * 0x9E3779B97F4A7C15ULL + 12345; for (size_t i = 0; i < n; i++) { if (i % 8 == 0) x = x * 6364136223846793005ULL + 1442695040888963407ULL; s[i] = (char)(x >> (8 * (i % 8))); } return s; }
size_t some_size(size_t most) { size_t r; switch (wl(8)) { case 0: r = 120 + wl(12); break; case 1: r = wl(4); break; case 2: r = 65530 + wl(12); break; case 3: r = wl(3000); break; case 4: r = 250 + wl(12); break; case 5: r = wl(20) ? wl(40000) : wl(200000); break; default: r = wl(100); } return std::min(r, most); }
void post(size_t n, bool text = false) {
    if (n == 0) n = 1; sim_atomic_begin(); long k = S->next++; std::string b; uint64_t h;
    for (bool dup = true; dup; n += dup ? 4 : 0) { b = content(1000000 + k, n); if (text) for (size_t i = 0, q = k; i < n; i++, q = q ? q / 26 : k) b[i] = (char)('a' + q % 26); h = bytes_hash(b.data(), n); dup = false; for (size_t i = S->base; i < S->out.size(); i++) if (S->out[i].state == 0 && S->out[i].n == n && S->out[i].h == h) dup = true; }   // no two that wait are alike
    char *p = (char *)malloc(n + (text ? 1 : 0)); memcpy(p, b.data(), n); if (text) p[n] = 0;
    S->out.push_back({p, n, h, ++S->clk, 0, 0}); size_t ix = S->out.size() - 1; int before = S->opens; bool wasup = S->up; sim_atomic_end();
    int r = RKWebSocketSend(S->w, p, text ? 0 : n); sim_probe("messages sent"); Out &o = S->out[ix]; o.end = ++S->clk;
    if (r) { CHECK(o.state == 0, "refused", "a message that was refused has arrived"); o.state = 2; sim_probe("messages refused"); long waiting = 0; for (size_t i = S->base; i < S->out.size(); i++) waiting += S->out[i].state == 0; CHECK(n > 1000000 || waiting > 900 || !wasup || !S->up || before != S->opens, "refused", "a message of %zu bytes is refused although only %ld are waiting", n, waiting); }
}
void on_open(RKWebSocket *w) {
    CHECK(S->live, "late", "the open handler runs while the link is not running"); CHECK(!S->up, "open-twice", "the link opens twice"); S->opens++; S->up = true; S->upsince = sim_now(); sim_note("open");
    Conn *c = nullptr; for (auto &x : S->conns) if (x.good && !x.opened && !x.closed) c = &x; CHECK(c, "open", "the link opens although the server has not agreed"); c->opened = true; c->openat = S->clk; S->cur = c->id; int k = S->welcome; for (int i = 0; i < k; i++) post(1 + wl(300)); }
void on_close(RKWebSocket *w) { CHECK(S->up, "close", "the close handler runs for a link that has not opened"); S->closes++; S->up = false; sim_note("closed"); }
void on_message(RKWebSocket *w, void *p, size_t n) {
    CHECK(S->up, "late", "a message is delivered on a link that is not open"); Conn &c = S->conns[S->cur]; if (c.garbage) return;
    sim_atomic_begin(); bool have = c.got < c.in.size(); std::string want = have ? c.in[c.got].body : ""; size_t at = c.got; c.got += have; sim_atomic_end();
    CHECK(have, "message", "a message of %zu bytes is delivered that nobody sent (%zu were)", n, at);
    size_t diff = 0; while (diff < std::min(n, want.size()) && ((const char *)p)[diff] == want[diff]) diff++;
    CHECK(n == want.size() && diff == n, "message", "message %zu of the connection has %zu bytes and is delivered as %zu bytes, the first difference is at byte %zu", at, want.size(), n, diff);
    CHECK(((const char *)p)[n] == 0, "terminate", "the message of %zu bytes is not terminated", n); sim_probe("messages delivered"); sim_note("message %zu", n);
    if (S->reply && wl(3) == 0) post(1 + wl(200)); if (wl(10) == 0) sim_sleep_ns(wl(30) * MS); }
}
SCENARIO(websocket, "C16") {
    rk_quiet(); chaos(); cfg.max_vtime = 4000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 50 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 20 * MS);
    St st; S = &st; int conns = (int)P("connections", 1, 5), buf = (int)P("buffers", 0, 2), rate = (int)P("rate", 0, 3), mode = (int)P("size", 0, 3); bool clock = Pbool("clock", 0.2), giant = Pbool("giant", 0.03), big = Pbool("big", 0.3), early = Pbool("stopearly", 0.5);
    size_t most = giant ? 1100000 : big ? 70000 : 5000; if (mode == 0) most = std::min<size_t>(most, 140); int burst = Pbool("burst", 0.1) ? 1300 : 20;
    cfg.sndbuf = cfg.rcvbuf = (int64_t[]){262144, 9000, 400}[buf]; if (most > 6000 && buf == 2) cfg.sndbuf = cfg.rcvbuf = 9000; if (giant) cfg.sndbuf = cfg.rcvbuf = 262144; if (most > 6000) cfg.p_stall = 0;
    cfg.p_recv_short = giant ? 0 : (double[]){0, 0.1, 0.7}[P("short", 0, 2)]; if (most > 6000) cfg.p_recv_short *= 0.1; cfg.p_send_short = 0.05; cfg.p_lat_jitter = (double[]){0, 0.2}[P("lat", 0, 1)]; cfg.p_eintr = Pbool("eintr", 0.3) ? 0.02 : 0;
    const ns_t slack = 3 * SEC + 200 * cfg.stall_hi + 100 * cfg.jitter_hi; st.welcome = (int)P("welcome", 0, 3); st.reply = Pbool("replies", 0.5);
    dns_table["hub"] = 0x0a000002; char host[64]; snprintf(host, sizeof host, (const char *[]){"hub:%d", "http://hub:%d", ":%d"}[P("host", 0, 2)], PORT); const char *path = (const char *[]){"/ws/radar/sim/", "/", NULL, ""}[P("path", 0, 3)]; std::string wantpath = path && *path ? path : "/";
    int secret = (int)P("secret", 0, 6); std::string key = "RadarHub123456789abcde"; if (secret == 1) { key = "abcdefghij0123456789AB"; vfs_put("radarkit-radarhub-secret", key + "\n", (int64_t)sim_wall()); } if (secret == 2) vfs_put("radarkit-radarhub-secret", "short\n", (int64_t)sim_wall());
    size_t heap0 = sim_heap_mark(); RKWebSocket *w = RKWebSocketInit(host, path); st.w = w; CHECK(w, "init", "no link"); double interval = 0.2 + wlf() * 5; RKWebSocketSetPingInterval(w, (float)interval); RKWebSocketSetVerbose(w, (int)P("verbose", 0, 3)); RKWebSocketSetOpenHandler(w, on_open); RKWebSocketSetCloseHandler(w, on_close); RKWebSocketSetMessageHandler(w, on_message);
    bool fini = false, stopping = false, done = false; int aux = -1; if (clock) aux = sim_spawn("clock", [&] { while (!fini) { sim_sleep_ns((ns_t)wl(3000) * MS); sim_fault_note("clock jump"); sim_wall_jump((int64_t)((wlf() - 0.5) * 20000 * (double)SEC)); } });
    // ---- the hub
    int ls = net_listen(PORT); CHECK(ls >= 0, "harness", "cannot listen"); std::deque<int> waiting; long attempts = 0; int acceptor = sim_spawn("acceptor", [&] { while (!fini) { int l = ls, fd = l < 0 ? -1 : net_accept(l, 10 * MS); if (fd >= 0) { waiting.push_back(fd); attempts++; } else if (l < 0) sim_sleep_ns(5 * MS); } });
    ns_t quiet_bound = (ns_t)(interval * 3 * SEC) + 5 * SEC + slack;
    auto serve = [&](bool last) {
        int fd = -1; ns_t t0 = sim_now(); while (fd < 0 && !stopping) { sim_sleep_ns(1 * MS); while (!waiting.empty() && fd < 0) { fd = waiting.front(); waiting.pop_front(); } CHECK(fd >= 0 || sim_now() - t0 < 45 * SEC + slack, "reconnect", "the link has not come back in %.1f s", 1e-9 * (double)(sim_now() - t0)); }
        if (fd < 0) return; sim_probe("connections"); std::string in; char b[8192]; bool dead = false;
        auto pull = [&](ns_t t) { long r = net_recv_some(fd, b, sizeof b, t); if (r > 0) in.append(b, (size_t)r); else if (r != -2) dead = true; return r; };
        t0 = sim_now(); while (in.find("\r\n\r\n") == std::string::npos && !dead && !stopping) { pull(100 * MS); CHECK(sim_now() - t0 < 10 * SEC + slack, "handshake", "no request after %.1f s", 1e-9 * (double)(sim_now() - t0)); }
        if (dead || stopping) { CHECK(stopping, "handshake", "the link gives up before its request is complete"); net_close(fd); return; }
        size_t e = in.find("\r\n\r\n"); std::string req = in.substr(0, e + 2); in.erase(0, e + 4);
        CHECK(req.compare(0, 4 + wantpath.size() + 11, "GET " + wantpath + " HTTP/1.1\r\n") == 0, "request", "the request starts with '%.60s'", req.c_str());
        for (auto h : {std::string("Upgrade: websocket\r\n"), std::string("Connection: Upgrade\r\n"), std::string("Sec-WebSocket-Key: ") + key + "==\r\n", std::string("Sec-WebSocket-Version: 13\r\n")}) CHECK(req.find("\r\n" + h) != std::string::npos, "request", "the request lacks '%s'", h.substr(0, h.size() - 2).c_str());
        CHECK(in.empty(), "request", "%zu bytes before the handshake is complete", in.size());
        // the answer
        sim_atomic_begin(); st.conns.emplace_back(); Conn &c = st.conns.back(); c.id = (int)st.conns.size() - 1; sim_atomic_end();
        int how = last ? (int)wl(3) : (int)wl(14); bool good = how < 8; std::string up = "Upgrade: websocket", co = "Connection: Upgrade", ac = std::string("Sec-WebSocket-Accept: ") + DIGEST, ex = "Server: sim", rep;
        if (secret == 1) ac = "Sec-WebSocket-Accept: somethingelsealtogetherxxxx="; if (how == 1) { up = "upgrade: WebSocket"; co = "connection: upgrade"; ac.replace(0, 20, "sec-websocket-accept"); } if (how == 2) ex = "X-Long: " + std::string(100 + wl(3000), 'q');
        std::vector<std::string> hs{up, co, ac, ex}; for (int i = 3; i > 0; i--) std::swap(hs[i], hs[wl(i + 1)]); rep = "HTTP/1.1 101 Switching Protocols\r\n";
        if (how == 8) { hs = {"HTTP/1.1 404 Not Found", "Content-Length: 0"}; rep = ""; } if (how == 9) { for (auto &h : hs) if (h == ac) h = "Sec-WebSocket-Accept: " + (wl(2) ? std::string("AAAAgAZPEwFaLSqyFPYMHcGBp5g=") : std::string(70 + wl(300), 'A')); if (secret == 1) for (auto &h : hs) if (h == up) h = "Upgrade: h2c"; }
        if (how == 10) for (auto &h : hs) if (h == up) h = "Upgrade: " + std::string(60 + wl(300), 'x');
        for (auto &h : hs) rep += h + "\r\n"; rep += "\r\n"; c.good = good;
        bool quick = good && wl(2); std::string wire; // what is to be sent and has not been
        auto frame = [&](int op, const std::string &s, bool fin) { std::string f; f += (char)((fin ? 0x80 : 0) | op); size_t n = s.size(); if (n < 126) f += (char)n; else if (n < 65536) { f += (char)126; f += (char)(n >> 8); f += (char)n; } else { f += (char)127; for (int i = 7; i >= 0; i--) f += (char)((uint64_t)n >> (8 * i)); } return f + s; };
        std::deque<std::string> pongs; std::vector<size_t> ends; size_t sentbytes = 0;
        auto message = [&](size_t n) { std::string s = wl(5) ? content((uint64_t)c.id * 1000 + c.in.size(), n) : std::string(n, 'A' + (char)(c.in.size() % 26)); int op = wl(2) ? 1 : 2; sim_atomic_begin(); c.in.push_back({s}); sim_atomic_end();
            if (wl(5)) { wire += frame(op, s, true); } else { int parts = 1 + (int)wl(4); size_t at = 0; sim_fault_note("message in several frames"); for (int i = 0; i <= parts; i++) { size_t m = i == parts ? n - at : wl(n - at + 1); wire += frame(i ? 0 : op, s.substr(at, m), i == parts); at += m; if (i < parts && wl(4) == 0) { std::string q = content(wl(1000), wl(126)); pongs.push_back(q); wire += frame(9, q, true); } } } ends.push_back(sentbytes + wire.size()); };
        auto ping = [&] { std::string q = content(wl(1000), wl(3) ? wl(126) : 0); pongs.push_back(q); wire += frame(9, q, true); sim_probe("pings sent"); };
        // what comes in from the link
        ns_t lastping = sim_now(), lastframe = sim_now(); long pingsgot = 0; bool broken = false;
        auto parse = [&] { size_t at = 0; if (c.garbage) { in.clear(); return; } for (;;) { if (in.size() - at < 2) break; unsigned char a = (unsigned char)in[at], l = (unsigned char)in[at + 1]; CHECK(a >> 4 == 8, "frame", "a frame starts with %02x %02x", a, l); CHECK(l & 0x80, "mask", "a frame is not masked"); size_t hd = 2; uint64_t n = l & 127; if (n == 126) { if (in.size() - at < 4) break; n = (uint64_t)(unsigned char)in[at + 2] << 8 | (unsigned char)in[at + 3]; hd = 4; CHECK(n > 125, "frame", "a length of %lu takes two bytes", (unsigned long)n); } else if (n == 127) { if (in.size() - at < 10) break; n = 0; for (int i = 0; i < 8; i++) n = n << 8 | (unsigned char)in[at + 2 + i]; hd = 10; CHECK(n > 65535 && n < 2000000, "frame", "a length of %lu takes eight bytes", (unsigned long)n); }
                if (in.size() - at < hd + 4 + n) break; const char *m = in.data() + at + hd; std::string p(m + 4, n); for (size_t i = 0; i < n; i++) p[i] ^= m[i % 4]; at += hd + 4 + n; int op = a & 15; lastframe = sim_now();
                if (op == 9) { pingsgot++; lastping = sim_now(); CHECK(n <= 125, "frame", "a ping of %lu bytes", (unsigned long)n); sim_probe("pings of the link"); if (wl(2)) wire += frame(10, p, true); }
                else if (op == 10) { CHECK(!pongs.empty() && pongs.front() == p, "pong", "a pong of %zu bytes is not the answer to the oldest of %zu pings, of %zu bytes", p.size(), pongs.size(), pongs.empty() ? 0 : pongs.front().size()); pongs.pop_front(); sim_probe("pongs"); }
                else { CHECK(op == 2, "frame", "a frame with opcode %d", op); auto &out = st.out; uint64_t h = bytes_hash(p.data(), n); size_t k = st.base; while (k < out.size() && !(out[k].state == 0 && out[k].n == n && out[k].h == h)) k++;
                    CHECK(k < out.size(), "content", "a message of %lu bytes arrives that was not sent, or not since the link has opened, or twice", (unsigned long)n); out[k].state = 1;
                    for (size_t j = st.base; j < out.size(); j++) if (out[j].state == 0 && out[j].end && out[j].end < out[k].begin) { CHECK(out[j].begin < c.openat, "order", "message %zu of %zu bytes arrives, message %zu of %zu bytes from before it has not", k, out[k].n, j, out[j].n); out[j].state = 3; } while (st.base < out.size() && out[st.base].state && out[st.base].end) st.base++;
                    sim_probe("messages received"); sim_hash(n); } }
            in.erase(0, at); };
        auto drain = [&] { while (!dead && net_rx_avail(fd) > 0) if (pull(1 * MS) <= 0) break; parse(); };
        auto push = [&](const std::string &s) { size_t at = 0; bool slow = wl(3) == 0; ns_t t = sim_now(); while (at < s.size() && !stopping && !dead) { size_t m = slow ? 1 + wl(std::max<size_t>(1, std::min<size_t>(s.size() / 3, 20000))) : wl(2) ? s.size() : 1 + wl(s.size()); m = std::min(m, s.size() - at); size_t o = 0; while (o < m && !stopping && !dead) { long r = net_send_all(fd, s.data() + at + o, std::min<size_t>(m - o, 2000), 20 * MS); if (r > 0) o += (size_t)r; if (r <= 0) { dead = r == -1 || dead; if (!dead) pull(1 * MS); CHECK(sim_now() - t < 120 * SEC + slack, "blocked", "the link has not read for %.1f s", 1e-9 * (double)(sim_now() - t)); } drain(); } at += m; sentbytes += m; if (slow && wl(2)) sim_sleep_ns(wl(60) * MS); } };
        auto flush = [&] { std::string s; s.swap(wire); push(s); };
        if (quick) { int n = 1 + (int)wl(3); for (int i = 0; i < n; i++) message(some_size(std::min<size_t>(most, 3000))); wire = rep + wire; } else wire = rep;
        if (how == 11) { rep.resize(wl(rep.size() - 3)); wire = rep; sim_fault_note("closes in the handshake"); } if (how == 12) { wire = ""; sim_fault_note("silent in the handshake"); } if (how == 13) { wire = rep = content(wl(1000), 1 + wl(5000)); sim_fault_note("garbage in the handshake"); if (rep.find("\r\n\r\n") == std::string::npos && wl(2)) wire = rep += "\r\n\r\n"; }
        flush();
        if (!good) { sim_fault_note("refused handshake"); ns_t t = sim_now(); if (how == 11) { net_close(fd); c.closed = true; return; } bool silent = how >= 12; while (!dead && !stopping) { pull(200 * MS); CHECK(in.empty(), "refused", "%zu bytes arrive although the handshake has failed", in.size()); CHECK(sim_now() - t < (silent ? 45 : 10) * SEC + slack, "refused", "the link stays with a server that has not agreed for %.1f s", 1e-9 * (double)(sim_now() - t)); } net_close(fd); c.closed = true; return; }
        t0 = sim_now(); while (!c.opened && !stopping && !dead) { sim_sleep_ns(2 * MS); drain(); CHECK(sim_now() - t0 < 5 * SEC + slack, "open", "the link has not opened %.1f s after the server has agreed", 1e-9 * (double)(sim_now() - t0)); }
        CHECK(stopping || !dead, "open", "the link hangs up after the server has agreed");
        int n = giant ? 1 + (int)wl(2) : (int)wl(25);
        for (int i = 0; i < n && !stopping && !dead; i++) { switch (wl(6)) { case 0: ping(); break; case 1: break; case 2: sim_sleep_ns(wl(rate == 3 ? 3000 : 200) * MS); break; default: message(giant && wl(2) ? 900000 + wl(140000) : some_size(most)); } if (wl(3)) flush(); if (wl(15) == 0) { sim_fault_note("server does not read"); ns_t t = sim_now(), d = wl(8000) * MS; while (sim_now() - t < d && !stopping) sim_sleep_ns(10 * MS); } drain(); }
        flush(); CHECK(stopping || !dead, "dropped", "the link has dropped connection %d on which everything was in order", c.id);
        int end = last ? 0 : (int)wl(7); auto settle = [&] { ns_t t = sim_now(); while (!stopping && !dead && (c.got < c.in.size() || !pongs.empty())) { sim_sleep_ns(5 * MS); flush(); drain(); CHECK(sim_now() - t < 60 * SEC + slack, "lost", "%zu of %zu messages are delivered and %zu pings have no answer after %.1f s", c.got, c.in.size(), pongs.size(), 1e-9 * (double)(sim_now() - t)); } CHECK(stopping || !dead, "dropped", "the link has dropped connection %d on which everything was in order", c.id); };
        switch (end) {
            case 0: case 1: { settle(); st.reply = st.reply && !last; if (last || wl(3) == 0) { done = last; ns_t t = sim_now(); // nothing more to send: everything arrives, then there are pings
                    while (!stopping && !dead) { sim_sleep_ns(5 * MS); drain(); flush(); bool all = true; if (!last) break; size_t k = st.base; for (; k < st.out.size() && all; k++) if (st.out[k].state == 0 && st.out[k].begin > c.openat) all = false; if (all) break; CHECK(sim_now() - t < 100 * SEC + slack, "lost", "message %zu of %zu has not arrived after %.1f s", k - 1, st.out.size(), 1e-9 * (double)(sim_now() - t)); }
                    long p0 = pingsgot; t = sim_now(); while (!stopping && !dead && pingsgot == p0) { sim_sleep_ns(5 * MS); drain(); if (!last) lastping = lastping; CHECK(sim_now() - std::max(t, lastframe) < quiet_bound, "ping", "no ping after %.1f s of silence, the interval is %.1f s", 1e-9 * (double)(sim_now() - t), interval); } CHECK(stopping || !dead, "dropped", "the link has dropped connection %d on which everything was in order", c.id); }
                if (last) { while (!stopping) { sim_sleep_ns(10 * MS); drain(); flush(); } net_close(fd); return; } if (wl(2)) { wire += frame(8, wl(2) ? std::string("\x03\xe8", 2) : "", true); flush(); sim_fault_note("server says goodbye"); ns_t t = sim_now(); while (!dead && !stopping) { pull(200 * MS); CHECK(sim_now() - t < 5 * SEC + slack, "goodbye", "the link stays %.1f s after the server has left", 1e-9 * (double)(sim_now() - t)); } } break; }
            case 2: { sim_fault_note("connection reset"); net_reset(fd); break; }
            case 3: { sim_fault_note("ends within a frame"); message(20 + wl(most)); std::string s = wire.substr(0, 1 + wl(wire.size() - 1)); wire = ""; push(s); break; }
            case 4: { sim_fault_note("frame that is too long"); settle(); std::string f; f += (char)0x82; f += (char)127; uint64_t n = wl(2) ? RKWebSocketFrameSize + wl(100) : wl(2) ? ~0ULL - wl(20) : (1ULL << (21 + wl(42))); for (int i = 7; i >= 0; i--) f += (char)(n >> (8 * i)); push(f + content(5, 100 + wl(500))); ns_t t = sim_now(); if (wl(2)) { size_t q = 0; while (!dead && !stopping && q++ < 600) { long r = net_send_all(fd, content(q, 2000).data(), 2000, 1 * SEC); if (r <= 0) dead = r == -1; drain(); } } while (!dead && !stopping) { pull(200 * MS); if (sim_now() - t > 20 * SEC) break; } c.closed = true; break; }
            case 5: { sim_fault_note("garbage"); settle(); c.garbage = true; push(content(wl(100000), 1 + wl(3000))); net_reset(fd); break; }
            case 6: { settle(); break; }
        }
        net_close(fd); c.closed = true;
    };
    auto outage = [&] { int how = (int)wl(5); if (how == 0) return; sim_fault_note(how == 1 ? "server refuses" : how == 2 ? "server unreachable" : how == 3 ? "name lookup fails" : "server gone"); if (how == 1) net_port_refuse(PORT, true); else if (how == 2) net_port_blackhole(PORT, true); else if (how == 3) dns_fail = true; else { net_close(ls); ls = -1; } ns_t t = sim_now(), dur = (ns_t)(wlf() * 30 * SEC); while (sim_now() - t < dur && !stopping) sim_sleep_ns(50 * MS); while (!waiting.empty()) { net_close(waiting.front()); waiting.pop_front(); } if (ls < 0) ls = net_listen(PORT); net_port_refuse(PORT, false); net_port_blackhole(PORT, false); dns_fail = false; };
    sim_deadline(60 * SEC, "blocked", "starting the link"); st.live = true; RKWebSocketStart(w); sim_deadline_clear();
    int th = sim_spawn("hub", [&] { if (wl(4) == 0) outage(); for (int r = 0; r < conns && !stopping; r++) { serve(r + 1 == conns); if (!stopping && r + 1 < conns && wl(3) == 0) outage(); } done = true; });
    std::vector<int> senders; int nsend = (int)P("senders", 1, 2); for (int k = 0; k < nsend; k++) senders.push_back(sim_spawn("sender", [&] { long total = 0; while (!stopping && !done && total < 400) { sim_sleep_ns(wl(rate == 0 ? 50 : rate == 1 ? 500 : 6000) * MS); if (!st.up && wl(4)) continue; int m = wl(6) ? 1 : 1 + (int)wl(burst); if (giant || big) m = std::min(m, 10); for (int i = 0; i < m && !stopping; i++) { size_t sz = giant && wl(8) == 0 ? 900000 + wl(160000) : m > 30 ? 1 + wl(100) : some_size(most); post(sz, wl(10) == 0 && sz < 5000); total++; if (wl(100) == 0) RKWebSocketWait(w); } } }));
    sim_deadline(3000 * SEC, "blocked", "the session"); if (early) { ns_t t = (ns_t)(wlf() * wlf() * 60 * SEC), t0 = sim_now(); while (!done && sim_now() - t0 < t) sim_sleep_ns(10 * MS); sim_probe("early stops"); if (wl(4) == 0) { net_port_blackhole(PORT, true); sim_sleep_ns((ns_t)wl(4000) * MS); } stopping = true; } else { while (!done) sim_sleep_ns(20 * MS); ns_t t0 = sim_now(); while (sim_now() - t0 < (ns_t)(wlf() * 30 * SEC)) sim_sleep_ns(20 * MS); }
    sim_deadline_clear(); sim_deadline(60 * SEC + slack, "blocked", "stopping the link"); RKWebSocketStop(w); sim_deadline_clear(); st.live = false; stopping = true;
    CHECK(!st.up && st.opens == st.closes, "close", "%d times open, %d times closed", st.opens, st.closes); CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); CHECK(sim_unjoined_threads() == 0, "unjoined", "threads that were never joined are left"); CHECK(sim_open_fds() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str());
    sim_deadline(200 * SEC + slack, "harness", "the hub leaves"); for (int s : senders) sim_join(s); sim_join(th); fini = true; sim_join(acceptor); if (aux >= 0) sim_join(aux); sim_deadline_clear();
    RKWebSocketFree(w); for (auto &o : st.out) free(o.p); CHECK(sim_heap_live_since(heap0) < 4096, "leak", "memory left: %s", sim_heap_dump(heap0).c_str());
}
