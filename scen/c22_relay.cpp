// C22: what a relay receives from the remote radar goes to the local rings complete, in order, exactly once and unaltered
#include "rk.h"
extern "C" int sim_shutdown(int fd, int how);
namespace {
enum { ST, HE, PU, RA, NK };
const char *KN[] = {"status", "health", "pulse", "ray"};
struct Rec { std::string hdr, body; bool optional = false; int conn; };  // hdr: what the header has to be in the ring; body: payload after the header as sent
struct Kind { std::vector<Rec> sent; size_t next = 0; uint64_t delivered = 0; uint32_t index = 0, depth = 0; std::deque<std::pair<uint32_t, size_t>> hist; bool byflag; };
struct Slot { void *hdr; uint8_t *u8[16]; float *f[16]; RKInt16C *c[2]; };
struct Relay {
    RKRadarDesc *desc; uint32_t pcap, rcap; Kind k[NK]; RKStatus *status; RKHealth *health; RKBuffer pulses, rays; RKConfig *configs; uint32_t configIndex = 0;
    std::vector<Slot> ps, rs; int conn = 0; std::string lastS; bool saw = false; std::set<std::string> cmds, answers; uint64_t lines = 0; };
Relay *R;
std::string rnd(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)wl(256); return s; }
std::string noise(size_t n, uint64_t x) { std::string s(n, 0); for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; s[i] = (char)(x >> 40); } return s; }
// does the record in slot match
std::string differs(int t, uint32_t slot, const Rec &r) { char b[200];
    auto cmp = [&](const char *what, const void *got, const void *want, size_t n) -> std::string { if (n == 0 || !memcmp(got, want, n)) return ""; size_t i = 0; while (((const char *)got)[i] == ((const char *)want)[i]) i++; snprintf(b, sizeof b, "%s differs at byte %zu of %zu", what, i, n); return b; };
    if (t == ST) return cmp("the record", &R->status[slot], r.hdr.data(), sizeof(RKStatus));
    if (t == HE) { RKHealth *h = &R->health[slot]; std::string want = r.body.substr(0, std::min<size_t>(strlen(r.body.c_str()), RKMaximumStringLength - 1)); if (strnlen(h->string, RKMaximumStringLength) != want.size()) { snprintf(b, sizeof b, "it has %zu characters instead of %zu", strnlen(h->string, RKMaximumStringLength), want.size()); return b; } return cmp("the text", h->string, want.data(), want.size()); }
    if (t == PU) { Slot &s = R->ps[slot]; std::string e = cmp("the header", s.hdr, r.hdr.data(), sizeof(RKPulseHeader)); if (!e.empty()) return e; uint32_t g = ((const RKPulseHeader *)r.hdr.data())->gateCount, full = (uint32_t)(r.body.size() / 8); for (int c = 0; c < 2; c++) { e = cmp(c ? "channel V" : "channel H", s.c[c], r.body.data() + (size_t)c * full * 4, (size_t)g * 4); if (!e.empty()) return e; } return ""; }
    Slot &s = R->rs[slot]; std::string e = cmp("the header", s.hdr, r.hdr.data(), sizeof(RKRayHeader)); if (!e.empty()) return e; const RKRayHeader *h = (const RKRayHeader *)r.hdr.data(); uint32_t g = h->gateCount, full = 0, n8 = (uint32_t)__builtin_popcount(h->baseProductList & 0xFFFF), nf = (uint32_t)__builtin_popcount(h->baseProductList >> 16); full = n8 + nf ? (uint32_t)(r.body.size() / (n8 + 4 * nf)) : 0; const char *p = r.body.data();
    for (int j = 0; j < 16; j++) if (h->baseProductList >> j & 1) { snprintf(b, sizeof b, "display product %d", j); std::string w = b; e = cmp(w.c_str(), s.u8[j], p, g); if (!e.empty()) return e; p += full; }
    for (int j = 0; j < 16; j++) if (h->baseProductList >> (16 + j) & 1) { snprintf(b, sizeof b, "product %d", j); std::string w = b; e = cmp(w.c_str(), s.f[j], p, (size_t)g * 4); if (!e.empty()) return e; p += (size_t)full * 4; }
    return ""; }
uint32_t flag(int t, uint32_t s) { return t == ST ? R->status[s].flag : t == HE ? R->health[s].flag : t == PU ? ((RKPulseHeader *)R->ps[s].hdr)->s : ((RKRayHeader *)R->rs[s].hdr)->s; }
bool ready(int t, uint32_t f) { return t == ST ? f == RKStatusFlagReady : t == HE ? f == RKHealthFlagReady : t == PU ? f != RKPulseStatusVacant : (f & RKRayStatusReady) != 0; }
void take(int t, uint32_t slot, const char *how) { Kind &k = R->k[t]; std::string why = "nobody sent it"; bool ok = false;
    for (size_t i = k.next; i < k.sent.size() && !ok; i++) { std::string e = differs(t, slot, k.sent[i]); if (e.empty()) { k.hist.push_back({slot, i}); k.next = i + 1; ok = true; break; } if (i == k.next) why = e; if (!k.sent[i].optional) { // the next one is in a later connection
            int c = k.sent[i].conn; while (i + 1 < k.sent.size() && k.sent[i + 1].conn == c) i++; } }
    CHECK(ok, "record", "the %s record in slot %u, found by its %s, is not what the remote radar sent next (%zu of %zu): %s", KN[t], slot, how, k.next, k.sent.size(), why.c_str());
    k.delivered++; while (k.hist.size() + 3 > k.depth / 2) k.hist.pop_front(); sim_probe(t == ST ? "status records" : t == HE ? "health records" : t == PU ? "pulse records" : "ray records"); }
void history(int t) { Kind &k = R->k[t]; for (auto &h : k.hist) { std::string e = differs(t, h.first, k.sent[h.second]); CHECK(e.empty(), "changed", "the %s record in slot %u changed after it was delivered: %s", KN[t], h.first, e.c_str()); } }
std::string letters(RKStream s) { std::string o; int m = (int)(s & 15); if (m) o += (char)('0' + m - 1); struct { int bit; char c; } L[] = {{7, '!'}, {5, 'h'}, {8, 'i'}, {10, 'I'}, {16, 'z'}, {17, 'v'}, {18, 'w'}, {19, 'd'}, {20, 'p'}, {21, 'r'}, {22, 'k'}, {23, 's'}, {24, 't'}, {32, 'Z'}, {33, 'V'}, {34, 'W'}, {35, 'D'}, {36, 'P'}, {37, 'R'}, {38, 'K'}, {39, 'S'}, {40, 'T'}, {48, 'Y'}, {49, 'U'}, {50, 'X'}, {51, 'C'}, {52, 'O'}, {53, 'Q'}, {54, 'J'}, {55, 'A'}, {56, 'B'}, {57, 'H'}}; for (auto &l : L) if (s >> l.bit & 1) o += l.c; std::sort(o.begin(), o.end()); return o; }
RKStream rndstream() { if (wl(6) == 0) return 0; RKStream s = 0; static const int bits[] = {5, 7, 8, 10, 16, 17, 18, 19, 20, 21, 22, 23, 24, 32, 33, 34, 35, 36, 37, 38, 39, 40, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57}; for (int b : bits) if (wl(4) == 0) s |= 1ULL << b; if (wl(2)) s |= wl(10); return s; }
std::string delim(uint16_t type, size_t size) { RKNetDelimiter d; memset(&d, 0, sizeof d); d.type = type; d.size = (uint32_t)size; d.decodedSize = (uint32_t)size; return std::string((char *)&d, sizeof d); }
}
SCENARIO(relay, "C22") {
    rk_quiet(); chaos(); cfg.max_vtime = 3000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 50 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 20 * MS);
    Relay rr; R = &rr; rr.pcap = 64u * (uint32_t)P("pcap", 1, 3); rr.rcap = 32u * (uint32_t)P("rcap", 1, 3); int conns = (int)P("connections", 1, 5), port = Pbool("port", 0.3) ? 10007 : 10000, nread = (int)P("readerpace", 0, 2), mal = (int)P("malformed", 0, 2), buf = (int)P("buffers", 0, 2), nmax = (int)P("records", 5, 40); bool users = Pbool("users", 0.6), execs = Pbool("commands", 0.4), early = Pbool("stopearly", 0.35), late = Pbool("lateserver", 0.3), clock = Pbool("clock", 0.2);
    cfg.sndbuf = cfg.rcvbuf = (int64_t[]){262144, 8000, 700}[buf]; cfg.p_recv_short = (double[]){0, 0.1, 0.6}[P("short", 0, 2)]; cfg.p_send_short = 0.05; cfg.p_lat_jitter = (double[]){0, 0.2}[P("lat", 0, 1)]; cfg.p_eintr = Pbool("eintr", 0.3) ? 0.02 : 0;
    uint32_t depth = 8u * (uint32_t)P("depth", 1, 3);
    rr.desc = new_desc(rr.pcap, depth); rr.desc->statusBufferDepth = 6; rr.desc->healthBufferDepth = 7; rr.desc->rayBufferDepth = depth + 4; rr.desc->configBufferDepth = 5;
    uint32_t dp[] = {rr.desc->statusBufferDepth, rr.desc->healthBufferDepth, rr.desc->pulseBufferDepth, rr.desc->rayBufferDepth}; for (int t = 0; t < NK; t++) { rr.k[t].depth = dp[t]; rr.k[t].byflag = Pbool("byflag", 0.5); }
    rr.status = (RKStatus *)calloc(dp[ST], sizeof(RKStatus)); rr.health = (RKHealth *)calloc(dp[HE], sizeof(RKHealth)); rr.configs = (RKConfig *)calloc(rr.desc->configBufferDepth, sizeof(RKConfig)); RKPulseBufferAlloc(&rr.pulses, rr.pcap, dp[PU]); RKRayBufferAlloc(&rr.rays, rr.rcap, dp[RA]);
    for (uint32_t i = 0; i < dp[PU]; i++) { RKPulse *p = RKGetPulseFromBuffer(rr.pulses, i); p->header.s = 0; Slot s{}; s.hdr = &p->header; s.c[0] = RKGetInt16CDataFromPulse(p, 0); s.c[1] = RKGetInt16CDataFromPulse(p, 1); rr.ps.push_back(s); }
    for (uint32_t i = 0; i < dp[RA]; i++) { RKRay *p = RKGetRayFromBuffer(rr.rays, i); p->header.s = 0; Slot s{}; s.hdr = &p->header; for (int j = 0; j < 16; j++) { s.u8[j] = RKGetUInt8DataFromRay(p, (RKBaseProductIndex)j); s.f[j] = RKGetFloatDataFromRay(p, (RKBaseProductIndex)j); } rr.rs.push_back(s); }
    size_t mark = sim_heap_mark(); dns_table["remote"] = 0x0a000001;
    RKRadarRelay *e = RKRadarRelayInit(); CHECK(e, "init", "no relay"); RKRadarRelaySetVerbose(e, (int)wl(3)); RKRadarRelaySetEssentials(e, rr.desc, NULL, rr.status, &rr.k[ST].index, rr.configs, &rr.configIndex, rr.health, &rr.k[HE].index, rr.pulses, &rr.k[PU].index, rr.rays, &rr.k[RA].index); RKRadarRelaySetHost(e, port == 10000 ? "remote" : "remote:10007");
    const ns_t slack = 3 * SEC + 200 * cfg.stall_hi + 100 * cfg.jitter_hi; bool fini = false, stopping = false, calm = false; RKStream want = 0; ns_t wantat = 0;
    std::vector<int> aux; if (clock) aux.push_back(sim_spawn("clock", [&] { while (!fini) { sim_sleep_ns((ns_t)wl(4000) * MS); if (!calm) { sim_fault_note("clock jump"); sim_wall_jump((int64_t)((wlf() - 0.5) * 2000 * (double)SEC)); } } }));
    // ---- readers
    for (int t = 0; t < NK; t++) aux.push_back(sim_spawn(KN[t], [&, t] { Kind &k = rr.k[t]; uint32_t s = 0; bool vacant = false; /* seen at this slot, so that its flag is not of the last round */ while (!fini) { bool rd = ready(t, flag(t, s)); vacant = vacant || !rd; uint32_t ahead = (k.index + k.depth - s) % k.depth; bool got = (ahead > 0 && ahead + 1 < k.depth) || (ahead == 0 && k.byflag && vacant && rd); if (!got) { sim_sleep_ns((ns_t)(nread == 2 ? wl(300) : wl(1 + 3000)) * US); continue; }
            sim_atomic_begin(); uint32_t f = flag(t, s); CHECK(ready(t, f), "incomplete", "the %s ring has moved on to slot %u while slot %u has the flag 0x%x", KN[t], k.index, s, f); take(t, s, k.byflag ? "flag" : "index"); sim_atomic_end(); if (wl(8) == 0) history(t); s = (s + 1) % k.depth; vacant = false;
            if (nread == 1) sim_sleep_ns((ns_t)wl(5) * MS); else sim_yield(); } }));
    // ---- the remote radar
    struct Acc { int fd; ns_t t; }; std::vector<Acc> waiting; int ls = -1; bool up = false; auto open = [&] { if (ls < 0) { ls = net_listen(port); CHECK(ls >= 0, "harness", "cannot listen"); } net_port_refuse(port, false); net_port_blackhole(port, false); dns_fail = false; up = true; };
    int acceptor = sim_spawn("acceptor", [&] { while (!fini) { int l = ls, fd = l < 0 ? -1 : net_accept(l, 10 * MS); if (fd >= 0) waiting.push_back({fd, sim_now()}); else if (l < 0) sim_sleep_ns(5 * MS); } });
    std::string in; bool greeted = false; int curfd = -1; uint64_t ncmd = 0; std::deque<std::string> owed;
    auto lines = [&](int fd) { char b[4096]; while (net_rx_avail(fd) > 0) { long r = net_recv_some(fd, b, sizeof b, 1 * MS); if (r <= 0) return false; in.append(b, (size_t)r); } size_t n; while ((n = in.find("\r\n")) != std::string::npos) { std::string l = in.substr(0, n); in.erase(0, n + 2); rr.lines++;
            if (!greeted) { CHECK(l.compare(0, 2, "a ") == 0, "greet", "the relay starts with '%.40s'", l.c_str()); greeted = true; sim_probe("greetings"); continue; } if (l == "ping") continue; if (!l.empty() && l[0] == 's') { rr.lastS = l.substr(1); std::sort(rr.lastS.begin(), rr.lastS.end()); owed.push_back("stream"); sim_probe("stream requests"); continue; }
            CHECK(rr.cmds.count(l), "command", "the relay sends '%.60s', which is no command", l.c_str()); owed.push_back(l); sim_probe("commands relayed"); } return true; };
    auto getconn = [&]() { int fd = -1; ns_t lim = 2 * 20 * SEC + 10 * SEC + slack, t0 = sim_now(); while (fd < 0 && !stopping) { sim_sleep_ns(1 * MS); while (!waiting.empty() && fd < 0) { Acc a = waiting.back(); waiting.pop_back(); if (sim_now() - a.t < 300 * MS) fd = a.fd; else net_close(a.fd); } CHECK(fd >= 0 || sim_now() - t0 < lim, "reconnect", "the relay has not connected %.1f s after the remote radar is reachable", 1e-9 * (double)(sim_now() - t0)); } while (!waiting.empty()) { net_close(waiting.back().fd); waiting.pop_back(); } return fd; };
    auto send = [&](int fd, const std::string &w) { size_t at = 0; bool slow = !calm && wl(6) == 0; while (at < w.size() && !stopping) { size_t m = slow ? 1 + wl(std::max<size_t>(1, w.size() / 4)) : calm || wl(3) ? w.size() : 1 + wl(w.size()); m = std::min(m, w.size() - at); if (net_send_all(fd, w.data() + at, m, 40 * SEC + slack) != (long)m) return false; at += m; if (at < w.size() && slow) sim_sleep_ns((ns_t)(wlf() * 300) * MS); if (!lines(fd)) return false; } return at == w.size(); };
    auto record = [&](int t, bool over, std::string &wire) { Rec r; r.conn = rr.conn; uint64_t x = ((uint64_t)wl(1 << 30) << 20) + rr.k[t].sent.size(); std::string pay;
        if (t == ST) { RKStatus s; std::string q = rnd(sizeof s); memcpy(&s, q.data(), sizeof s); pay = q; s.flag = RKStatusFlagReady; r.hdr.assign((char *)&s, sizeof s); if (wl(8) == 0) pay += rnd(wl(20)); wire = delim(RKNetworkPacketTypeProcessorStatus, pay.size()) + pay; }
        if (t == HE) { size_t n = wl(5) == 0 ? wl(3) : over ? 4090 + wl(3000) : wl(4000); char b[40]; snprintf(b, sizeof b, "{%zu}", rr.k[t].sent.size()); pay = wl(12) ? b : ""; std::string z = noise(n, x); for (char &c : z) c = (char)(32 + (uint8_t)c % 90); pay += z; r.body = pay; if (wl(2)) pay.push_back(0); wire = delim(RKNetworkPacketTypeHealth, pay.size()) + pay; }
        if (t == PU) { RKPulseHeader h; std::string q = rnd(sizeof h); memcpy(&h, q.data(), sizeof h); h.i = rr.k[t].sent.size(); uint32_t g = over ? rr.pcap + 1 + (uint32_t)wl(wl(2) ? 5 : 500) : (uint32_t)wl(3) ? (uint32_t)wl(rr.pcap + 1) : rr.pcap; h.gateCount = g; h.downSampledGateCount = (uint32_t)wl(g + 1); h.capacity = wl(2) ? rr.pcap : (uint32_t)wl(100000); if (h.s == 0) h.s = 1; r.body = noise((size_t)g * 8, x); pay = std::string((char *)&h, sizeof h) + r.body; h.capacity = rr.pcap; h.gateCount = std::min(g, rr.pcap); h.downSampledGateCount = std::min(h.downSampledGateCount, rr.pcap); r.hdr.assign((char *)&h, sizeof h); r.optional = over; wire = delim(RKNetworkPacketTypePulseData, pay.size()) + pay; }
        if (t == RA) { RKRayHeader h; std::string q = rnd(sizeof h); memcpy(&h, q.data(), sizeof h); h.i = rr.k[t].sent.size(); uint32_t g = over ? rr.rcap + 1 + (uint32_t)wl(wl(2) ? 5 : 400) : wl(3) ? (uint32_t)wl(rr.rcap + 1) : rr.rcap; h.gateCount = (uint16_t)g; h.capacity = wl(2) ? rr.rcap : (uint32_t)wl(100000); uint32_t list = 0; int how = (int)wl(4); for (int j = 0; j < 10; j++) if (how < 3 && wl(2)) list |= 1u << j; if (how == 0) list = 0x3ff; if (how >= 2) for (int j = 0; j < 16; j++) if (wl(4) == 0) list |= 1u << (16 + j); h.baseProductList = list; size_t each = (size_t)__builtin_popcount(list & 0xffff) + 4 * (size_t)__builtin_popcount(list >> 16); r.body = noise(each * g, x); pay = std::string((char *)&h, sizeof h) + r.body; h.capacity = rr.rcap; h.gateCount = (uint16_t)std::min(g, rr.rcap); h.s = RKRayStatusProcessed | RKRayStatusReady; r.hdr.assign((char *)&h, sizeof h); r.optional = over; wire = delim(RKNetworkPacketTypeRayDisplay, pay.size()) + pay; }
        sim_atomic_begin(); rr.k[t].sent.push_back(r); sim_atomic_end(); };
    auto junk = [&](bool &fatal) { sim_fault_note("malformed record"); int how = (int)wl(11); fatal = false; std::string pay;
        switch (how) {
            case 0: pay = rnd(wl(sizeof(RKStatus))); return delim(RKNetworkPacketTypeProcessorStatus, pay.size()) + pay;
            case 1: pay = rnd(wl(sizeof(RKPulseHeader))); return delim(RKNetworkPacketTypePulseData, pay.size()) + pay;
            case 2: { RKPulseHeader h; memset(&h, 0, sizeof h); h.s = 3; h.gateCount = wl(3) == 0 ? 0xFFFFFFFFu - (uint32_t)wl(3) : wl(2) ? 0x20000000u + (uint32_t)wl(3) : (uint32_t)(20 + wl(5000)); pay = std::string((char *)&h, sizeof h); pay += rnd(wl(std::min<size_t>((size_t)h.gateCount * 8, 500))); return delim(RKNetworkPacketTypePulseData, pay.size()) + pay; }
            case 3: pay = rnd(wl(sizeof(RKRayHeader))); return delim(RKNetworkPacketTypeRayDisplay, pay.size()) + pay;
            case 4: { RKRayHeader h; memset(&h, 0, sizeof h); h.gateCount = (uint16_t)(1 + wl(wl(2) ? 65535 : rr.rcap)); h.baseProductList = wl(2) ? 0xFFFFFFFFu : 0x3ff; size_t each = h.baseProductList == 0x3ff ? 10 : 80; pay = std::string((char *)&h, sizeof h); pay += noise(wl(std::min<size_t>(each * h.gateCount, 20000)), 7); return delim(RKNetworkPacketTypeRayDisplay, pay.size()) + pay; }
            case 5: pay = rnd(wl(3) ? wl(64) : wl(sizeof(RKSweepHeader))); return delim(RKNetworkPacketTypeSweepHeader, pay.size()) + pay;
            case 6: pay = noise(wl(5000), wl(99)); return delim(RKNetworkPacketTypeSweepRay, pay.size()) + pay;
            case 7: pay = noise(wl(20000), wl(99)); for (char &c : pay) c |= 1; return delim(wl(2) ? RKNetworkPacketTypeControls : RKNetworkPacketTypeCommandResponse, pay.size()) + pay;
            case 8: pay = rnd(wl(40)); return delim((uint16_t)(200 + wl(60000)), pay.size()) + pay;
            case 9: pay = rnd(wl(100)); return delim(wl(2) ? RKNetworkPacketTypePlainText : RKNetworkPacketTypeRayData, pay.size()) + pay;
            default: fatal = true; return delim((uint16_t)wl(60), wl(2) ? 0xFFFFFFFFu : RKMaximumPacketSize + 1 + wl(100)) + rnd(wl(300)); } };
    auto sweep = [&]() { RKSweepHeader h; std::string q = rnd(sizeof h); memcpy(&h, q.data(), sizeof h); h.rayCount = (uint32_t)wl(4); return delim(RKNetworkPacketTypeSweepHeader, sizeof h) + std::string((char *)&h, sizeof h); };
    auto room = [&](int fd, int t) { Kind &k = rr.k[t]; // at most half of the ring of this connection are under way
        ns_t t0 = sim_now(); for (;;) { size_t out = 0; for (size_t i = k.sent.size(); i-- > k.next;) { if (k.sent[i].conn != rr.conn) break; if (!k.sent[i].optional) out++; else out++; } if (out < k.depth / 2 || stopping) return true; size_t opt = 0; for (size_t i = k.next; i < k.sent.size(); i++) opt += k.sent[i].optional; if (opt == out) return false; sim_sleep_ns(1 * MS); if (!lines(fd)) return false; CHECK(sim_now() - t0 < 20 * SEC + slack, "lost", "%zu %s records are on their way for %.1f s", out, KN[t], 1e-9 * (double)(sim_now() - t0)); } };
    auto behind = [&] { for (int t = 0; t < NK; t++) for (size_t i = rr.k[t].next; i < rr.k[t].sent.size(); i++) if (rr.k[t].sent[i].conn == rr.conn && !rr.k[t].sent[i].optional) return t; return -1; };
    auto answer = [&](int fd) { while (!owed.empty()) { char b[100]; snprintf(b, sizeof b, "ACK %llu. ", (unsigned long long)ncmd++); std::string a = b; a += std::string(wl(4) ? wl(100) : wl(8000), 'x'); owed.pop_front(); rr.answers.insert(a); if (!send(fd, delim(RKNetworkPacketTypeCommandResponse, a.size() + 1) + a + std::string(1, 0))) return false; } return true; };
    int rounds = 0; bool done = false;
    auto serve = [&](bool last) { int fd = getconn(); if (fd < 0) return; sim_probe("connections"); curfd = fd; greeted = false; in.clear(); rr.lastS.clear(); owed.clear(); rr.conn++; int n = 1 + (int)wl((uint64_t)(calm ? 8 : nmax)); bool ok = true, fatal = false;
        if (wl(2)) { ns_t t0 = sim_now(); while (!greeted && ok && !stopping) { sim_sleep_ns(2 * MS); ok = lines(fd); CHECK(sim_now() - t0 < 10 * SEC + slack, "greet", "the relay connects and does not introduce itself"); } }
        for (int i = 0; i < n && ok && !stopping; i++) { std::string w; if (!calm && mal && wl(mal == 1 ? 12 : 4) == 0) w = junk(fatal); else if (wl(9) == 0) w = delim(RKNetworkPacketTypeBeacon, 0); else if (wl(12) == 0) w = sweep(); else { int t = (int)wl(NK); if (!room(fd, t)) { ok = lines(fd); continue; } record(t, !calm && mal && wl(8) == 0, w); } ok = send(fd, w) && answer(fd); if (fatal) break; if (wl(4) == 0) sim_sleep_ns((ns_t)wl(40) * MS); if (ok) ok = lines(fd); }
        int end = last ? -1 : (int)wl(6); auto flush = [&] { ns_t t0 = sim_now(); int b; while ((b = behind()) >= 0 && !stopping) { sim_sleep_ns(3 * MS); if (!lines(fd)) { fatal = true; return; } if (!answer(fd)) return; CHECK(sim_now() - t0 < 10 * SEC + slack, "lost", "a %s record is not in the ring %.1f s after it was sent (%zu of %zu)", KN[b], 1e-9 * (double)(sim_now() - t0), rr.k[b].next, rr.k[b].sent.size()); } };
        auto gone = [&](ns_t lim, const char *what) { ns_t ts = sim_now(); char b[512]; for (;;) { long r = net_recv_some(fd, b, sizeof b, 200 * MS); if (r == 0 || r == -1 || stopping) break; CHECK(sim_now() - ts < lim, "linger", "the relay keeps a connection %s for %.1f s", what, 1e-9 * (double)(sim_now() - ts)); } };
        if (stopping) { net_close(fd); curfd = -1; return; }
        if (fatal) { gone(23 * SEC + slack, "that cannot be right"); net_close(fd); curfd = -1; return; }
        CHECK(ok || !calm, "dropped", "the relay dropped a connection on which everything was in order"); if (!ok) { net_close(fd); curfd = -1; return; }
        switch (end) {
            case 0: sim_shutdown(fd, SHUT_WR); gone(10 * SEC + slack, "that has ended"); if (!stopping) { ns_t t0 = sim_now(); while (behind() >= 0 && sim_now() - t0 < 5 * SEC + slack) sim_sleep_ns(5 * MS); int b = behind(); CHECK(b < 0, "lost", "the remote radar ended in order, a %s record is missing", KN[b]); sim_probe("orderly ends"); } break;
            case 1: { std::string w; int t = (int)wl(NK); record(t, false, w); rr.k[t].sent.pop_back(); w.resize(1 + wl(w.size() - 1)); sim_fault_note("ends within a record"); net_send_all(fd, w.data(), w.size(), 5 * SEC); sim_sleep_ns((ns_t)wl(300) * MS); if (wl(2)) net_reset(fd); break; }
            case 2: if (wl(2)) flush(); sim_fault_note("network cut"); net_blackhole(fd, true); sim_sleep_ns(22 * SEC + slack); net_blackhole(fd, false); net_reset(fd); break;
            case 3: flush(); sim_fault_note("remote silent"); gone(23 * SEC + slack, "with a silent remote radar"); break;
            case 4: if (wl(2)) flush(); sim_fault_note("connection reset"); net_reset(fd); break;
            case 5: { flush(); sim_fault_note("stalls within a record"); std::string w; int t = (int)wl(NK); record(t, false, w); rr.k[t].sent.pop_back(); w.resize(1 + wl(w.size() - 1)); net_send_all(fd, w.data(), w.size(), 5 * SEC); gone(23 * SEC + slack, "whose record is not finished"); break; }
            default: flush(); { // the streams the radar is asked for are the ones wanted here, once something has been heard
                ns_t t0 = sim_now(); for (;;) { if (stopping || fatal) break; sim_sleep_ns(20 * MS); if (!lines(fd)) break; if (!answer(fd)) break; if (greeted && rr.lastS == letters(want)) { sim_probe("streams agreed"); break; } if (wl(20) == 0 && !send(fd, delim(RKNetworkPacketTypeBeacon, 0))) break; CHECK(sim_now() < std::max(t0, wantat) + 6 * SEC + slack, "streams", "the relay asks for '%s' while '%s' is wanted", rr.lastS.c_str(), letters(want).c_str()); } } break; }
        net_close(fd); curfd = -1; };
    auto outage = [&] { int how = (int)wl(5); if (how == 0) return; up = false; sim_fault_note(how == 1 ? "remote refuses" : how == 2 ? "remote unreachable" : how == 3 ? "name lookup fails" : "remote gone"); if (how == 1) net_port_refuse(port, true); else if (how == 2) net_port_blackhole(port, true); else if (how == 3) dns_fail = true; else { net_close(ls); ls = -1; } ns_t t = sim_now(), dur = (ns_t)(wlf() * 15 * SEC); while (sim_now() - t < dur && !stopping) sim_sleep_ns(50 * MS); open(); };
    int lateness = late ? (int)wl(4) : 0; if (!late) open(); else if (lateness == 0) net_port_refuse(port, true); else if (lateness == 1) net_port_blackhole(port, true); else if (lateness == 2) dns_fail = true;
    auto run = [&](int count) { return sim_spawn("remote", [&, count] { if (!up) { sim_sleep_ns((ns_t)wl(8000) * MS); open(); } for (rounds = 0; rounds < count && !stopping; rounds++) { serve(rounds + 1 == count); if (!stopping && rounds + 1 < count && wl(2)) outage(); } done = true; }); };
    if (wl(8) == 0) CHECK(RKRadarRelayStop(e) != RKResultSuccess, "stop", "a relay that was not started stops"); if (wl(3) == 0) { want = rndstream(); RKRadarRelayUpdateStreams(e, want); }
    sim_deadline(3 * SEC + slack, "blocked", "starting the relay"); CHECK(RKRadarRelayStart(e) == RKResultSuccess, "start", "the relay does not start"); sim_deadline_clear(); bool live = true; int busy = 0;
    if (users) aux.push_back(sim_spawn("user", [&] { while (!fini) { sim_sleep_ns((ns_t)wl(wl(3) ? 300 : 8000) * MS); if (calm || stopping || !live) continue; RKStream s = rndstream(); want = s; wantat = sim_now() + 4 * SEC; busy++; ns_t t0 = sim_now(); RKRadarRelayUpdateStreams(e, s); busy--; wantat = sim_now(); CHECK(stopping || wantat - t0 < 12 * SEC + slack, "blocked", "changing streams takes %.1f s", 1e-9 * (double)(wantat - t0)); } }));
    if (execs) aux.push_back(sim_spawn("commander", [&] { static char resp[RKRadarRelayFeedbackCapacity]; int n = 0; while (!fini) { sim_sleep_ns((ns_t)wl(wl(3) ? 300 : 8000) * MS); if (calm || stopping || !live) continue; char b[60]; snprintf(b, sizeof b, "h%d %.*s", n++, (int)wl(30), "abcdefghijklmnopqrstuvwxyzabcdef"); rr.cmds.insert(b); resp[0] = 0; busy++; ns_t t0 = sim_now(); int r = RKRadarRelayExec(e, b, wl(8) ? resp : NULL); busy--; if (r == RKResultSuccess) sim_probe("commands answered"); CHECK(stopping || sim_now() - t0 < 12 * SEC + slack, "blocked", "a command takes %.1f s", 1e-9 * (double)(sim_now() - t0)); if (r == RKResultSuccess && resp[0] && !mal) CHECK(rr.answers.count(resp), "answer", "a command is answered '%.40s', which the remote radar did not say", resp); } }));
    int th = run(conns); ns_t begun = sim_now();
    auto halt = [&](const char *what) { sim_deadline(7 * SEC + slack, "blocked", what); int r = RKRadarRelayStop(e); sim_deadline_clear(); CHECK(r == RKResultSuccess, "stop", "stopping returns %d", r); live = false; for (int t = 0; t < NK; t++) history(t); };
    sim_deadline(2000 * SEC, "blocked", "serving"); if (early) { ns_t t = (ns_t)(wlf() * wlf() * 30 * SEC); while (!done && sim_now() - begun < t) sim_sleep_ns(10 * MS); if (wl(4) == 0) { net_port_blackhole(port, true); sim_sleep_ns((ns_t)wl(4000) * MS); } sim_probe("early stops"); stopping = true; } else while (!done) sim_sleep_ns(20 * MS); sim_deadline_clear();
    bool cut = early; halt("stopping the relay"); stopping = true; sim_deadline(60 * SEC + slack, "harness", "remote leaving"); sim_join(th); while (busy) sim_sleep_ns(10 * MS); sim_deadline_clear(); net_port_blackhole(port, false); if (wl(3) == 0) CHECK(RKRadarRelayStop(e) != RKResultSuccess, "stop", "a relay stops twice");
    if (cut || Pbool("restart", 0.3)) { // everything in order from now on: what is sent arrives
        calm = true; sim_calm(); cfg.p_eintr = 0; stopping = false; done = false; open(); sim_sleep_ns(1 * SEC); if (wl(2)) { want = rndstream(); RKRadarRelayUpdateStreams(e, want); } sim_deadline(3 * SEC + slack, "blocked", "starting the relay again"); CHECK(RKRadarRelayStart(e) == RKResultSuccess, "start", "the relay does not start again"); live = true; sim_deadline_clear(); th = run(2); sim_deadline(300 * SEC, "blocked", "serving after a restart"); while (!done) sim_sleep_ns(20 * MS); sim_join(th); sim_deadline_clear(); halt("stopping the relay again"); sim_probe("restarts"); }
    fini = true; for (int a : aux) sim_join(a); sim_join(acceptor); for (Acc &a : waiting) net_close(a.fd); sim_deadline(10 * SEC + slack, "blocked", "freeing the relay"); RKRadarRelayFree(e); sim_deadline_clear(); if (ls >= 0) net_close(ls);
    for (uint32_t i = 0; i < rr.desc->configBufferDepth; i++) CHECK(!rr.configs[i].waveform && !rr.configs[i].waveformDecimate && !rr.configs[i].userResource, "pointer", "the local configuration %u has addresses of the remote radar", i);
    CHECK(sim_open_fds() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str()); CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); if (sim_heap_live_since(mark)) sim_fail("leak", "memory left: %s", sim_heap_dump(mark).c_str());
    for (int t = 0; t < NK; t++) sim_hash(rr.k[t].delivered); rk_quiet();
}
