// C28: the hub gets the radar's health, scope samples and display rays whole, once and in order, every message is answered, and reporting can be started and stopped at any time
#include "rk.h"
#include <RadarKit/RKReporter.h>
namespace {
const int PORT = 8123;
const char *DIGEST = "O9QKgAZPEwFaLSqyFPYMHcGBp5g=";
struct Item { ns_t t; std::string frame; };                     // what was published, and the frame it makes (empty: not one to be sent)
struct Kind { const char *what; std::deque<Item> items; size_t next = 0; bool any = false; ns_t open = 0; uint32_t depth = 0; };   // next: first item that may come next
struct World { RKRadar *r; RKRadarDesc *d; Kind k[3]; bool run = true, calm = false; };
int16_t iq(uint64_t n, int c, uint32_t g, int q) { return (int16_t)((n * 2654435761u + (uint64_t)c * 40503 + g * 977 + (uint64_t)q * 31337) >> 3); }
uint8_t zv(uint64_t n, uint32_t g) { return (uint8_t)((n * 2654435761u + g * 7919) >> 5); }
}
SCENARIO(hub, "C28") {
    rk_quiet(); chaos(); cfg.max_vtime = 1500 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 20 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 20 * MS);
    World w; RKRadar *r = (RKRadar *)calloc(1, sizeof(RKRadar)); w.r = r; uint32_t pcap = 64u * (uint32_t)P("pcap", 1, 5), rcap = 32u * (uint32_t)P("rcap", 1, 9);
    RKRadarDesc *dd = new_desc(pcap, (uint32_t[]){40, 64, 400, 1000}[P("pdepth", 0, 3)]); r->desc = *dd; free(dd); w.d = &r->desc; w.d->rayBufferDepth = (uint32_t[]){20, 50, 300}[P("rdepth", 0, 2)]; w.d->healthBufferDepth = (uint32_t[]){10, 16, 30}[P("hdepth", 0, 2)];
    std::string name = (const char *[]){"Sim", "PX-1000", "raxpol", "A B"}[P("name", 0, 3)]; strcpy(w.d->name, name.c_str()); std::string pathway = name; for (auto &c : pathway) c = (char)tolower(c);
    RKRayBufferAlloc(&r->rays, rcap, w.d->rayBufferDepth); RKPulseBufferAlloc(&r->pulses, pcap, w.d->pulseBufferDepth); r->healths = (RKHealth *)calloc(w.d->healthBufferDepth, sizeof(RKHealth)); r->state = RKRadarStateLive;
    for (uint32_t k = 0; k < w.d->rayBufferDepth; k++) { RKRay *y = RKGetRayFromBuffer(r->rays, k); y->header.s = 0; y->header.i = (uint64_t)-(int64_t)w.d->rayBufferDepth + k; } for (uint32_t k = 0; k < w.d->pulseBufferDepth; k++) { RKPulse *p = RKGetPulseFromBuffer(r->pulses, k); p->header.s = 0; p->header.i = (uint64_t)-(int64_t)w.d->pulseBufferDepth + k; } for (uint32_t k = 0; k < w.d->healthBufferDepth; k++) r->healths[k].i = (uint64_t)-(int64_t)w.d->healthBufferDepth + k;
    w.k[0].what = "health"; w.k[1].what = "scope"; w.k[2].what = "ray"; w.k[0].depth = w.d->healthBufferDepth; w.k[1].depth = w.d->pulseBufferDepth; w.k[2].depth = w.d->rayBufferDepth;
    int hrate = (int)P("hrate", 0, 2), prate = (int)P("prate", 0, 3), rrate = (int)P("rrate", 0, 3), conns = (int)P("connections", 1, 4), verbose = (int)P("verbose", 0, 2); bool early = Pbool("stopearly", 0.3), again = Pbool("again", 0.5), running = Pbool("freerunning", 0.3), threadfail = Pbool("threadfail", 0.2), jumps = Pbool("clock", 0.2), tight = Pbool("tight", 0.3);
    cfg.sndbuf = cfg.rcvbuf = tight ? 9000 : 262144; cfg.p_send_short = 0.05; cfg.p_recv_short = 0.1 * (double)P("short", 0, 3); cfg.p_lat_jitter = 0.2; cfg.p_eintr = Pbool("eintr", 0.3) ? 0.01 : 0;
    const ns_t slack = 3 * SEC + 200 * cfg.stall_hi + 100 * cfg.jitter_hi; bool fini = false, stopping = false, done = false; std::vector<int> th;
    // ---- the radar
    th.push_back(sim_spawn("healths", [&] { uint64_t n = 0; while (w.run) { sim_sleep_ns(w.calm ? 50 * MS : (ns_t)wl(hrate == 0 ? 40 : hrate == 1 ? 400 : 1500) * MS); uint32_t k = (uint32_t)(n % w.d->healthBufferDepth); RKHealth *h = &r->healths[k]; if (w.calm) continue; CHECK(h->flag == RKHealthFlagVacant, "vacant", "the flag of a vacant slot for a health is %x", h->flag); std::string s = "{\"n\":" + std::to_string(n) + ",\"v\":\""; size_t len = wl(4) ? wl(300) : wl(3900); for (size_t i = 0; i < len; i++) s += (char)('a' + (n * 7 + i * (n % 5 + 1)) % 26); s += "\"}"; h->i += w.d->healthBufferDepth; strcpy(h->string, s.c_str()); sim_yield(); __sync_synchronize(); w.k[0].items.push_back({sim_now(), k % 2 ? std::string() : "\x03" + s}); h->flag = RKHealthFlagReady; uint32_t x = RKNextModuloS(k, w.d->healthBufferDepth); r->healths[x].i = r->healths[x].i; r->healths[x].flag = RKHealthFlagVacant; r->healths[x].string[0] = 0; __sync_synchronize(); r->healthIndex = x; n++; } }));
    th.push_back(sim_spawn("pulses", [&] { uint64_t n = 0; const uint32_t depth = w.d->pulseBufferDepth; while (w.run) { sim_sleep_ns(w.calm ? 50 * MS : (ns_t)(prate == 0 ? 300 + wl(1500) : prate == 1 ? 2000 + wl(8000) : prate == 2 ? wl(60000) : 100 + wl(500)) * US); if (w.calm) continue; int m = prate == 3 ? 1 + (int)wl(3) : 1; for (int j = 0; j < m; j++) {
        uint32_t k = (uint32_t)(n % depth), v = RKNextNModuloS(k, depth / 8, depth); RKGetPulseFromBuffer(r->pulses, v)->header.s = RKPulseStatusVacant; RKPulse *p = RKGetPulseFromBuffer(r->pulses, k); p->header.i += depth; p->header.s = RKPulseStatusVacant; r->pulseIndex = RKNextModuloS(k, depth); sim_yield();
        uint32_t gc = wl(8) ? 1 + (uint32_t)wl(pcap) : (uint32_t)wl(3); if (wl(20) == 0) gc = std::min(pcap, 199 + (uint32_t)wl(3)); p->header.gateCount = gc; uint32_t c = std::min(gc, 200u); bool send = k % 10 == 0; if (send) for (int ch = 0; ch < 2; ch++) { RKInt16C *x = RKGetInt16CDataFromPulse(p, (uint32_t)ch); for (uint32_t g = 0; g < gc; g++) { x[g].i = iq(n, ch, g, 0); x[g].q = iq(n, ch, g, 1); } }
        std::string f; if (send) { f.assign(1 + 8 * c, 0); f[0] = 5; int16_t *y = (int16_t *)malloc(8 * c + 8); for (uint32_t g = 0; g < c; g++) for (int q = 0; q < 4; q++) y[q * c + g] = g + 1 == c ? (q & 1 ? 1 : -1) : iq(n, q / 2, g, q & 1); memcpy(&f[1], y, 8 * c); free(y); }
        if (wl(4) == 0) sim_sleep_ns((ns_t)wl(2000) * US); __sync_synchronize(); w.k[1].items.push_back({sim_now(), f}); p->header.s = RKPulseStatusHasIQData | (wl(2) ? RKPulseStatusHasPosition : 0); n++; } } }));
    th.push_back(sim_spawn("rays", [&] { uint64_t n = 0; while (w.run) { sim_sleep_ns(w.calm ? 50 * MS : (ns_t)(rrate == 0 ? 2 + wl(20) : rrate == 1 ? 20 + wl(100) : rrate == 2 ? wl(500) : wl(3)) * MS); if (w.calm) continue; uint32_t k = (uint32_t)(n % w.d->rayBufferDepth); RKRay *y = RKGetRayFromBuffer(r->rays, k); CHECK(y->header.s == RKRayStatusVacant, "vacant", "the status of a vacant slot for a ray is %x", y->header.s); y->header.i += w.d->rayBufferDepth; uint32_t gc = wl(10) ? 1 + (uint32_t)wl(rcap) : (uint32_t)wl(2); y->header.gateCount = gc; y->header.startElevation = (float)(n * 37 % 90); y->header.endElevation = (float)(n * 41 % 90); y->header.startAzimuth = (float)(n * 131 % 360); y->header.endAzimuth = (float)((n * 131 + 1) % 360); int16_t an[4] = {(int16_t)(n * 37 % 90), (int16_t)(n * 41 % 90), (int16_t)(n * 131 % 360), (int16_t)((n * 131 + 1) % 360)}; y->header.baseProductList = RKBaseProductListUInt8ZVWDPR; uint8_t *z = RKGetUInt8DataFromRay(y, RKBaseProductIndexZ); for (uint32_t g = 0; g < gc; g++) z[g] = zv(n, g); uint32_t c = std::min(gc, 200u); std::string f(10 + c, 0); f[0] = 16; memcpy(&f[1], an, 8); memcpy(&f[10], z, c);
        y->header.s = RKRayStatusProcessing; sim_yield(); __sync_synchronize(); w.k[2].items.push_back({sim_now(), f}); y->header.s = RKRayStatusProcessed | RKRayStatusReady; uint32_t x = RKNextModuloS(k, w.d->rayBufferDepth); RKGetRayFromBuffer(r->rays, x)->header.s = RKRayStatusVacant; __sync_synchronize(); r->rayIndex = x; n++; } }));
    if (jumps) th.push_back(sim_spawn("clock", [&] { while (!fini) { sim_sleep_ns((ns_t)wl(3000) * MS); sim_fault_note("clock jump"); sim_wall_jump((int64_t)((wlf() - 0.5) * 20000 * (double)SEC)); } }));
    // ---- the reporter
    size_t heap0 = sim_heap_mark(); dns_table["hub"] = 0x0a000002; char host[64]; snprintf(host, sizeof host, wl(2) ? "hub:%d" : "http://hub:%d", PORT);
    RKReporter *e = RKReporterInitWithHost(host); CHECK(e, "init", "no reporter"); RKReporterSetVerbose(e, verbose); if (wl(4) == 0) { RKReporterStart(e); RKReporterStop(e); CHECK(sim_live_code_threads() == 0, "thread", "a reporter that knows no radar has threads"); } RKReporterSetRadar(e, r);
    // ---- the hub
    int ls = net_listen(PORT); std::deque<int> waiting; int acceptor = sim_spawn("acceptor", [&] { while (!fini) { int fd = net_accept(ls, 10 * MS); if (fd >= 0) waiting.push_back(fd); } });
    long served = 0, opened = 0;
    auto serve = [&](bool last) {
        int fd = -1; ns_t t0 = sim_now(); while (fd < 0 && !stopping) { sim_sleep_ns(1 * MS); while (!waiting.empty() && fd < 0) { fd = waiting.front(); waiting.pop_front(); } CHECK(fd >= 0 || sim_now() - t0 < 45 * SEC + slack, "reconnect", "the reporter has not come back in %.1f s", 1e-9 * (double)(sim_now() - t0)); }
        if (fd < 0) return; served++; std::string in; char b[8192]; bool dead = false; auto pull = [&](ns_t t) { long n = net_recv_some(fd, b, sizeof b, t); if (n > 0) in.append(b, (size_t)n); else if (n != -2) dead = true; return n; };
        t0 = sim_now(); while (in.find("\r\n\r\n") == std::string::npos && !dead && !stopping) { pull(100 * MS); CHECK(sim_now() - t0 < 10 * SEC + slack, "handshake", "no request after %.1f s", 1e-9 * (double)(sim_now() - t0)); } if (dead || stopping) { net_close(fd); return; }
        std::string get = "GET /ws/radar/" + pathway + "/ HTTP/1.1\r\n"; CHECK(in.compare(0, get.size(), get) == 0, "request", "the request starts with '%.60s'", in.c_str()); in.erase(0, in.find("\r\n\r\n") + 4);
        if (!last && wl(6) == 0) { sim_fault_note("refused handshake"); std::string no = "HTTP/1.1 404 Not Found\r\n\r\n"; net_send_all(fd, no.data(), no.size(), 1 * SEC); sim_sleep_ns(wl(500) * MS); net_close(fd); return; }
        std::string yes = std::string("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: ") + DIGEST + "\r\n\r\n"; sim_atomic_begin(); for (auto &k : w.k) { k.next = std::max(k.next, k.items.size() - std::min<size_t>(k.items.size(), 2)); k.any = false; } sim_atomic_end(); net_send_all(fd, yes.data(), yes.size(), 1 * SEC); ns_t topen = sim_now(), lastframe = sim_now(); bool stalled = false; long frames = 0; std::deque<std::string> replies; std::string wire; sim_probe("connections"); opened++;
        for (auto &k : w.k) k.open = sim_now() + slack;
        auto frame = [&](int op, const std::string &s) { wire += (char)(0x80 | op); size_t n = s.size(); if (n < 126) wire += (char)n; else { wire += (char)126; wire += (char)(n >> 8); wire += (char)n; } wire += s; };
        auto got = [&](const std::string &f0) { std::string f = f0;
            frames++; lastframe = sim_now(); int type = f.empty() ? -1 : (uint8_t)f[0]; sim_hash((uint64_t)f.size());
            if (frames == 1) { std::string want = "\x01{\"command\":\"radarConnect\", \"pathway\":\"" + pathway + "\", \"name\":\"" + name + "\"}"; CHECK(f == want, "introduce", "the first message of a connection has type %d and %zu bytes: '%.100s'", type, f.size(), f.c_str() + 1); return; }
            if (frames == 2) { CHECK(type == 2 && f.find("\"pathway\": \"" + pathway + "\"") != std::string::npos && f.find("\"control\": [") != std::string::npos && f[1] == '{' && f.size() > 4 && f.compare(f.size() - 2, 2, "]}") == 0, "introduce", "the second message of a connection has type %d and %zu bytes: '%.100s'", type, f.size(), f.c_str() + 1); return; }
            if (type == 16 && f.size() > 9) f[9] = 0; /* a filler */ if (type == 6) { CHECK(!replies.empty(), "reply", "a reply of %zu bytes to no message", f.size()); std::string want = replies.front().substr(0, RKMaximumStringLength - 3); CHECK(f.size() == want.size() + 2 && (f[1] == 'A' || f[1] == 'Q' || f[1] == 'N') && f.compare(2, std::string::npos, want) == 0, "reply", "a reply of %zu bytes to a message of %zu bytes: '%.40s' to '%.40s'", f.size(), replies.front().size(), f.c_str() + 1, replies.front().c_str()); replies.pop_front(); sim_probe("replies"); return; }
            int q = type == 3 ? 0 : type == 5 ? 1 : type == 16 ? 2 : -1; CHECK(q >= 0, "type", "a message of type %d with %zu bytes", type, f.size()); Kind &k = w.k[q]; size_t n = k.next; while (n < k.items.size() && k.items[n].frame != f) n++;
            if (n >= k.items.size()) { size_t old = 0; while (old < k.next && k.items[old].frame != f) old++; CHECK(old >= k.next, "order", "%s %zu arrives after %zu, or twice", k.what, old, k.next ? k.next - 1 : 0); CHECK(false, "content", "a %s of %zu bytes arrives that was never published: '%.60s'", k.what, f.size(), f.c_str() + 1); }
            if (k.any) for (size_t j = k.next; j < n; j++) if (!k.items[j].frame.empty()) { CHECK(k.items.size() - j > k.depth / 2 + 1 || stalled, "lost", "%s %zu arrives, %zu does not, of %zu", k.what, n, j, k.items.size()); break; }
            k.any = k.any || f.size() > 25; k.next = n + 1; sim_probe(q == 0 ? "healths" : q == 1 ? "scopes" : "rays"); };
        auto parse = [&] { size_t at = 0; for (;;) { if (in.size() - at < 2) break; unsigned char a = (unsigned char)in[at], l = (unsigned char)in[at + 1]; size_t hd = 2; uint64_t n = l & 127; if (n == 126) { if (in.size() - at < 4) break; n = (uint64_t)(unsigned char)in[at + 2] << 8 | (unsigned char)in[at + 3]; hd = 4; } CHECK((l & 127) != 127 && a >> 4 == 8 && l & 0x80, "frame", "a frame starts with %02x %02x", a, l); if (in.size() - at < hd + 4 + n) break; const char *m = in.data() + at + hd; std::string p(m + 4, n); for (size_t i = 0; i < n; i++) p[i] ^= m[i % 4]; at += hd + 4 + n; int op = a & 15; if (op == 2) got(p); else if (op == 9) frame(10, p); } in.erase(0, at); };
        auto pump = [&] { if (dead) return; if (net_rx_avail(fd) > 0 || wl(2)) pull(1 * MS); else sim_sleep_ns(1 * MS); while (!dead && net_rx_avail(fd) > 0) if (pull(1 * MS) <= 0) break; parse(); while (!wire.empty() && !dead) { long n = net_send_all(fd, wire.data(), std::min<size_t>(wire.size(), 2000), 1 * MS); if (n > 0) wire.erase(0, (size_t)n); else { dead = n == -1; break; } } };
        int quota = 0; auto say = [&] { std::string s; if (replies.size() > 30) return; int how = (int)wl(12); if (how == 0) { s = "Welcome to the hub"; frame(1, s); sim_probe("welcomes"); return; } size_t n = how == 1 ? 4080 + wl(30) : how == 2 ? 4000 + wl(20000) : how == 3 ? wl(2) : 1 + wl(100); for (size_t i = 0; i < n; i++) s += (char)('a' + (quota * 5 + i) % 23); quota++; frame(wl(2) ? 1 : 2, s); replies.push_back(s); sim_probe("messages"); };
        ns_t dur = (ns_t)((0.2 + wlf() * 3) * (double)SEC); t0 = sim_now();
        while (!stopping && !dead && sim_now() - t0 < dur) { pump(); if (wl(30) == 0) { int m = wl(4) ? 1 : 1 + (int)wl(20); while (m-- > 0) say(); } if (wl(400) == 0) { sim_fault_note("hub does not read"); ns_t t = sim_now(), dd2 = (ns_t)wl(wl(3) ? 1000 : 12000) * MS; stalled = true; while (sim_now() - t < dd2 && !stopping) sim_sleep_ns(10 * MS); } }
        CHECK(stopping || !dead, "dropped", "the reporter drops a connection that is in order");
        int end = last ? 0 : (int)wl(4);
        if (end < 2) { // everything that was published since the connection opened arrives, and every message has its reply
            if (!stopping && last) w.calm = true; t0 = sim_now(); size_t upto[3]; for (int q = 0; q < 3; q++) upto[q] = w.k[q].items.size();
            for (;;) { if (stopping || dead) break; pump(); bool all = replies.empty() && frames >= 2; size_t miss = 0; int mk = -1; for (int q = 0; q < 3; q++) { Kind &k = w.k[q]; for (size_t j = k.next; j < upto[q]; j++) if (!k.items[j].frame.empty() && k.items[j].t > topen + slack / 2 && k.items.size() - j < k.depth / 2 && !stalled) { all = false; miss = j; mk = q; } } if (all) { sim_probe("complete"); break; }
                CHECK(sim_now() - t0 < 20 * SEC + slack, mk < 0 ? "reply-lost" : "lost", "after %.1f s %zu messages (%zu bytes waiting) have no reply, %s %zu of %zu has not arrived", 1e-9 * (double)(sim_now() - t0), replies.size(), wire.size(), mk < 0 ? "nothing" : w.k[mk].what, miss, mk < 0 ? 0 : w.k[mk].items.size()); } CHECK(stopping || !dead, "dropped", "the reporter drops a connection that is in order");
            if (!stopping && !last) { int m = 20; t0 = sim_now(); size_t n0 = w.k[1].next; while (!stopping && !dead && w.k[1].next == n0 && sim_now() - t0 < 20 * SEC + slack) pump(); CHECK(stopping || dead || w.k[1].next != n0, "silent", "no scope samples in %.1f s while pulses go on", 1e-9 * (double)(sim_now() - t0)); (void)m; } }
        else if (end == 2) { sim_fault_note("connection reset"); net_reset(fd); return; }
        net_close(fd); sim_fault_note("hub leaves"); };
    bool failed = false;
    for (int round = 0; round < (again ? 2 : 1); round++) {
        stopping = done = false; w.calm = false;
        if (threadfail && round == 0) { cfg.p_thread_fail = 0.6; sim_deadline(20 * SEC + slack, "blocked", "starting the reporter"); RKReporterStart(e); sim_deadline_clear(); cfg.p_thread_fail = 0; if (!(e->state & RKEngineStateWantActive)) { failed = true; sim_probe("failed starts"); sim_deadline(20 * SEC + slack, "blocked", "stopping a reporter that has not started"); RKReporterStop(e); sim_deadline_clear(); CHECK(sim_live_code_threads() == 0, "thread", "threads left after a failed start:%s", sim_thread_dump().c_str()); sim_sleep_ns(20 * MS); while (!waiting.empty()) { net_close(waiting.front()); waiting.pop_front(); } RKReporterStart(e); } }
        else { sim_deadline(20 * SEC + slack, "blocked", "starting the reporter"); RKReporterStart(e); sim_deadline_clear(); }
        CHECK(e->state & RKEngineStateActive, "start", "the reporter has not started"); if (wl(4) == 0) RKReporterStart(e);
        int hub = sim_spawn("hub", [&] { if (wl(4) == 0) { sim_fault_note("no hub"); net_port_refuse(PORT, true); ns_t t = sim_now(); while (!stopping && sim_now() - t < 5 * SEC) sim_sleep_ns(50 * MS); net_port_refuse(PORT, false); } for (int q = 0; q < conns && !stopping; q++) serve(q + 1 == conns); done = true; });
        if (early) { ns_t t = (ns_t)(wlf() * wlf() * 20 * SEC), t0 = sim_now(); while (!done && sim_now() - t0 < t) sim_sleep_ns(5 * MS); sim_probe("early stops"); stopping = true; } else { sim_deadline(900 * SEC, "harness", "the session"); while (!done) sim_sleep_ns(20 * MS); sim_deadline_clear(); }
        bool lastround = round + 1 == (again ? 2 : 1), fr = lastround && running; sim_deadline(60 * SEC + slack, "blocked", "stopping the reporter"); if (fr) { sim_probe("freed while running"); RKReporterFree(e); e = nullptr; } else { RKReporterStop(e); if (wl(3) == 0) RKReporterStop(e); } sim_deadline_clear(); sim_probe("stops"); stopping = true;
        CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); CHECK(sim_unjoined_threads() == 0, "unjoined", "threads that were never joined are left"); CHECK(sim_open_fds() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str()); if (e) CHECK(!(e->state & (RKEngineStateActive | RKEngineStateWantActive)), "state", "the state is %x after the stop", (unsigned)e->state);
        sim_deadline(60 * SEC + slack, "harness", "the hub leaves"); sim_join(hub); sim_deadline_clear(); while (!waiting.empty()) { net_close(waiting.front()); waiting.pop_front(); }
    }
    (void)failed; if (e) RKReporterFree(e); CHECK(sim_heap_live_since(heap0) < 4096, "leak", "memory left: %s", sim_heap_dump(heap0).c_str()); fini = true; w.run = false; for (int t : th) sim_join(t); sim_join(acceptor);
    RKRayBufferFree(r->rays); RKPulseBufferFree(r->pulses); free(r->healths); free(r);
}
