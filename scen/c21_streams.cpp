// C21: what an operator subscribes to is what it gets: whole records, in order, as published, and nothing else
#include "rk.h"
#include <memory>
extern "C" int sim_shutdown(int fd, int how);
namespace {
const int NP = 10; // base products Z V W D P R K Sh Sv Q, in the order of the bits
struct RayRec { RKRayHeader h; };
struct SweepRec { uint64_t first; uint32_t n, gc, list; uint64_t at; };
struct World {
    RKRadar *r; RKRadarDesc *d; bool dsp; uint32_t cc, pc, rcap, pcap, groups; uint32_t list; bool run = true, calm = false;
    std::vector<RKRayHeader> rays; std::vector<char> done; std::vector<RKPulseHeader> pulses; std::vector<std::string> healths; std::vector<RKStatus> statuses; std::vector<SweepRec> sweeps; uint64_t lines = 0;
    uint64_t sweepSeq = 0; int raypace, gcmode; bool sw; };
World *W;
float fval(uint64_t i, int j, uint32_t g) { return (float)((i * 31 + (uint64_t)j * 1009 + g * 7) % 8191); }
uint8_t uval(uint64_t i, int j, uint32_t g) { return (uint8_t)(i * 13 + (uint64_t)j * 101 + g * 3); }
int16_t cval(uint64_t i, int c, uint32_t g, int q) { return (int16_t)(i * 17 + (uint64_t)c * 555 + g * 5 + (uint64_t)q * 77); }
float yval(uint64_t i, int c, uint32_t g, int q) { return (float)((i * 19 + (uint64_t)c * 333 + g * 11 + (uint64_t)q * 5) % 2000); }
std::string hstr(uint64_t n) { char b[64]; snprintf(b, sizeof b, "{\"seq\":%llu,\"x\":\"", (unsigned long long)n); std::string s = b; size_t m = n % 5 == 0 ? 4000 : 10 + n * 37 % 200; while (s.size() < m) s += (char)('a' + (s.size() + n) % 26); return s + "\"}"; }
RKStream parse(const std::string &s) { RKStream f = 0; for (char c : s) { static const struct { char c; int bit; } L[] = {{'!', 7}, {'h', 5}, {'i', 8}, {'I', 10}, {'z', 16}, {'v', 17}, {'w', 18}, {'d', 19}, {'p', 20}, {'r', 21}, {'k', 22}, {'s', 23}, {'t', 24}, {'Z', 32}, {'V', 33}, {'W', 34}, {'D', 35}, {'P', 36}, {'R', 37}, {'K', 38}, {'S', 39}, {'T', 40}, {'Y', 48}, {'U', 49}, {'X', 50}, {'C', 51}, {'O', 52}, {'Q', 53}, {'J', 54}, {'A', 55}, {'B', 56}, {'H', 57}}; if (c >= '0' && c <= '8') f = (f & ~15ULL) | (RKStream)(c - '0' + 1); for (auto &l : L) if (l.c == c) f |= 1ULL << l.bit; } return f; }
uint32_t prods(RKStream s) { return (uint32_t)(s >> 32 & 0x3FF); }
uint32_t disps(RKStream s) { return (uint32_t)(s >> 16 & 0x3FF); }
uint32_t swps(RKStream s) { return (uint32_t)(s >> 48 & 0x3FF); }
// text streams that come without a delimiter are left out
bool clean(RKStream s) { int k = (int)(s & 15); return k != 6 && k != 7 && k != 8; }

struct Op {
    int id, fd = -1; std::string in; RKStream cur = 0, nxt = 0; bool changing = false, auth = false, authWait = false; int wantResp = 0; int mode = 0, mode2 = 0; bool dead = false;
    int64_t ray = -1, hl = -1, st = -1, sw = -1, tx = -1; bool rayFresh = true, hlFresh = true, stFresh = true, swFresh = true, txFresh = true; uint64_t rayFloor = 0, hlFloor = 0, stFloor = 0; std::map<std::string, bool> lapf; bool swLap = false; int64_t swFloor = 0, swAsk = 0; SweepRec lapSweep{}; const SweepRec *csw = nullptr; uint32_t cswRay = 0, cswList = 0; uint64_t frames = 0, nray = 0, nhl = 0, nst = 0, npu = 0, nsw = 0; bool taint = false; RKStream prev = 0;
    void fresh() { rayFresh = hlFresh = stFresh = swFresh = txFresh = true; swAsk = (int64_t)W->sweeps.size(); swFloor = swps(cur) ? std::max<int64_t>(sw + 1, swFloor) : swAsk; rayFloor = W->rays.size() > 2 * W->cc + 2 ? W->rays.size() - 2 * W->cc - 2 : 0; hlFloor = W->healths.size() > 2 ? W->healths.size() - 2 : 0; stFloor = W->statuses.size() > 2 ? W->statuses.size() - 2 : 0; }
    bool any(bool (*f)(RKStream)) { return f(cur) || (changing && (f(nxt))); }
    // consecutive, starting from what is current
    void order(const char *what, uint64_t i, int64_t &last, bool &fr, uint64_t floor, uint64_t published, uint64_t depth) {
        sim_note("op %d %s %llu (cur %llx nxt %llx ch %d floor %llu pub %llu)", id, what, (unsigned long long)i, (unsigned long long)cur, (unsigned long long)nxt, changing, (unsigned long long)floor, (unsigned long long)published); uint64_t next = (uint64_t)(last + 1); bool lapped = published >= depth + next - std::min<uint64_t>(next, 6) && last >= 0; if (last >= 0) lapped = published - std::min<uint64_t>(published, next) + 6 >= depth; else lapped = published - std::min<uint64_t>(published, floor) + 6 >= depth;
        bool &lap = lapf[what]; if (lapped) { sim_probe("lapped"); lap = true; last = (int64_t)i; fr = changing; return; }
        if (lap && (int64_t)i <= last) { /* a reader that has been lapped may run past the newest record: until it starts afresh */ last = (int64_t)i; if (fr && !changing) lap = false; fr = changing; return; } if (fr && !changing) lap = false;
        if (last >= 0) CHECK((int64_t)i > last, "order", "operator %d gets %s %llu after %lld", id, what, (unsigned long long)i, (long long)last);
        if (fr) CHECK(changing || i >= floor, "stale", "operator %d gets %s %llu first, it asked for the stream when %llu was current", id, what, (unsigned long long)i, (unsigned long long)floor); else CHECK((int64_t)i == last + 1, "gap", "operator %d gets %s %llu after %lld", id, what, (unsigned long long)i, (long long)last);
        last = (int64_t)i; fr = changing; }
    template <class H> void rayHeader(const H &h, uint32_t gc, float scale) { const RKRayHeader &p = W->rays[h.i]; CHECK(h.gateCount == gc && h.n == p.n && h.marker == p.marker && h.configIndex == p.configIndex && h.configSubIndex == p.configSubIndex && h.pulseCount == p.pulseCount && h.gateSizeMeters == p.gateSizeMeters * scale && h.sweepElevation == p.sweepElevation && h.sweepAzimuth == p.sweepAzimuth && h.startTime.tv_sec == p.startTime.tv_sec && h.startTimeDouble == p.startTimeDouble && h.endTimeDouble == p.endTimeDouble && h.startAzimuth == p.startAzimuth && h.startElevation == p.startElevation && h.endAzimuth == p.endAzimuth && h.endElevation == p.endElevation && h.fftOrder == p.fftOrder, "header", "operator %d gets ray %llu with another header", id, (unsigned long long)h.i); }
    uint32_t ratio() { return W->dsp ? std::max<uint32_t>(W->d->pulseCapacity / W->d->pulseToRayRatio / 500, 1) : 1; }
    bool product(RKStream s, const char *p, size_t n) { if (!prods(s)) return false; RKRayHeader h; if (n < sizeof h) return false; memcpy(&h, p, sizeof h); if (h.baseProductList != prods(s) << 16) return false; uint32_t q = ratio(); int c = __builtin_popcount(prods(s)); CHECK(h.i < W->rays.size() && W->done[h.i], "incomplete", "operator %d gets ray %llu, which is not complete", id, (unsigned long long)h.i); uint32_t gc = W->rays[h.i].gateCount / q; if (n != sizeof h + (size_t)c * gc * 4) return false; rayHeader(h, gc, (float)q); p += sizeof h;
        for (int j = 0; j < NP; j++) if (prods(s) >> j & 1) for (uint32_t g = 0; g < gc; g++, p += 4) { float v; memcpy(&v, p, 4); CHECK(v == fval(h.i, j, g * q), "data", "operator %d gets ray %llu with product %d gate %u = %g instead of %g", id, (unsigned long long)h.i, j, g, (double)v, (double)fval(h.i, j, g * q)); }
        order("ray", h.i, ray, rayFresh, rayFloor, W->rays.size(), W->d->rayBufferDepth); nray++; sim_probe("product rays"); return true; }
    bool display(RKStream s, const char *p, size_t n) { if (prods(s) || !disps(s)) return false; RKRayHeaderV1 h; if (n < sizeof h) return false; memcpy(&h, p, sizeof h); if (h.baseProductList != disps(s)) return false; uint32_t q = ratio(); int c = __builtin_popcount(disps(s)); CHECK(h.i < W->rays.size() && W->done[h.i], "incomplete", "operator %d gets ray %llu, which is not complete", id, (unsigned long long)h.i); uint32_t gc = W->rays[h.i].gateCount / q; if (n != sizeof h + (size_t)c * gc) return false; rayHeader(h, gc, (float)q); p += sizeof h;
        for (int j = 0; j < NP; j++) if (disps(s) >> j & 1) for (uint32_t g = 0; g < gc; g++, p++) CHECK((uint8_t)*p == uval(h.i, j, g * q), "data", "operator %d gets ray %llu with display product %d gate %u = %d instead of %d", id, (unsigned long long)h.i, j, g, (uint8_t)*p, uval(h.i, j, g * q));
        order("ray", h.i, ray, rayFresh, rayFloor, W->rays.size(), W->d->rayBufferDepth); nray++; sim_probe("display rays"); return true; }
    bool pulse(int m, const char *p, size_t n) { RKPulseHeader h; if (n < sizeof h) return false; memcpy(&h, p, sizeof h); CHECK(h.i < W->pulses.size(), "pulse", "operator %d gets pulse %llu, which has not been there", id, (unsigned long long)h.i); const RKPulseHeader &w = W->pulses[h.i]; uint32_t q = std::max<uint32_t>(W->d->pulseCapacity / 1000, 1), gc = m == 0 ? std::min<uint32_t>(w.gateCount, std::min<uint32_t>(4096, w.pulseWidthSampleCount + 10)) : m == 1 ? std::min<uint32_t>(4096, w.downSampledGateCount / q) : std::min<uint32_t>(4096, w.gateCount);
        if (n != sizeof h + 8 * (size_t)gc || h.gateCount != gc) return false; CHECK(h.azimuthDegrees == w.azimuthDegrees && h.elevationDegrees == w.elevationDegrees && h.timeDouble == w.timeDouble && h.downSampledGateCount == w.downSampledGateCount && h.pulseWidthSampleCount == w.pulseWidthSampleCount && h.configIndex == w.configIndex, "header", "operator %d gets pulse %llu with another header", id, (unsigned long long)h.i);
        const RKInt16C *y = (const RKInt16C *)(p + sizeof h); float sc = 1.0f / sqrtf((float)W->r->pulseEngine->filterAnchors[0][0].length); if (m < 2) for (int c = 0; c < 2; c++) for (uint32_t g = 0; g < gc; g++, y++) { int a, b; if (m == 0) { a = cval(h.i, c, g, 0); b = cval(h.i, c, g, 1); } else { a = (int16_t)(sc * yval(h.i, c, g * q, 0)); b = (int16_t)(sc * yval(h.i, c, g * q, 1)); } if (y->i != a || y->q != b) { CHECK(changing || mode != mode2, "data", "operator %d gets pulse %llu with channel %d gate %u = (%d, %d) instead of (%d, %d)", id, (unsigned long long)h.i, c, g, y->i, y->q, a, b); return false; } }
        npu++; sim_probe("pulses"); return true; }
    void frame(RKNetDelimiter &d, const char *p, size_t n) { frames++; char why[100]; auto wrong = [&](const char *what) { sim_fail("unwanted", "operator %d gets %s (type %d, %zu bytes), its streams are 0x%llx%s", id, what, d.type, n, (unsigned long long)cur, changing ? " (changing)" : ""); };
        RKStream c2 = changing ? nxt : cur;
        switch (d.type) {
            case RKNetworkPacketTypeBeacon: CHECK(n == 0, "beacon", "operator %d gets a beacon of %zu bytes", id, n); break;
            case RKNetworkPacketTypeCommandResponse: { std::string t(p, n); CHECK(wantResp > 0, "response", "operator %d gets a response it did not ask for: %.60s", id, t.c_str()); wantResp--; size_t k = t.find("\"streams\": 0x"); if (k != std::string::npos) { RKStream s = strtoull(t.c_str() + k + 13, NULL, 16); CHECK(changing && s == nxt, "mixed", "operator %d asked for the streams 0x%llx and the reply is 0x%llx", id, (unsigned long long)nxt, (unsigned long long)s); prev = cur; cur = nxt; changing = false; swFloor = swAsk; } else if (t.find("AScope mode to") != std::string::npos) { int m = atoi(t.c_str() + t.find("to ") + 3); CHECK(m == mode2, "mode", "operator %d is in mode %d instead of %d", id, m, mode2); mode = mode2; } else if (t.find("Buffer overview in") == std::string::npos) sim_fail("response", "operator %d gets the response %.80s", id, t.c_str()); break; }
            case RKNetworkPacketTypeControls: { std::string t(p, n); if (!auth && !authWait) wrong("controls"); CHECK(t.find("\"Radars\": [\"Sim\"]") != std::string::npos && t.find("\"Controls\": [") != std::string::npos && t.find("]}") != std::string::npos, "controls", "operator %d gets the controls %.100s", id, t.c_str()); auth = true; sim_probe("controls"); break; }
            case RKNetworkPacketTypeRayDisplay: { if (!(product(cur, p, n) || display(cur, p, n) || (changing && (product(nxt, p, n) || display(nxt, p, n))))) { uint32_t l = 0; if (n >= sizeof(RKRayHeader)) l = ((const RKRayHeader *)p)->baseProductList; snprintf(why, sizeof why, "a ray (list 0x%x / 0x%x)", l, n >= sizeof(RKRayHeaderV1) ? ((const RKRayHeaderV1 *)p)->baseProductList : 0); wrong(why); } break; }
            case RKNetworkPacketTypePulseData: { if (!((cur | c2) & RKStreamDisplayIQ)) wrong("a pulse"); if (!pulse(mode, p, n) && !(mode2 != mode && (pulse(mode2, p, n)))) sim_fail("pulse", "operator %d gets a pulse of %zu bytes which is of no mode it asked for", id, n); break; }
            case RKNetworkPacketTypeHealth: { if (!((cur | c2) & RKStreamHealthInJSON)) wrong("health"); std::string t(p, n); while (!t.empty() && (t.back() == '\r' || t.back() == '\n' || t.back() == 0)) t.pop_back(); size_t a = 0; while (a <= t.size()) { size_t b = t.find('\n', a); std::string l = t.substr(a, b == std::string::npos ? b : b - a); uint64_t k = l.compare(0, 7, "{\"seq\":") == 0 ? strtoull(l.c_str() + 7, NULL, 10) : ~0ULL; CHECK(k < W->healths.size() && l == W->healths[k], "data", "operator %d gets the health '%.60s', nobody published it", id, l.c_str()); order("health", k, hl, hlFresh, hlFloor, W->healths.size(), W->d->healthBufferDepth); nhl++; sim_probe("healths"); if (b == std::string::npos) break; a = b + 1; } break; }
            case RKNetworkPacketTypeProcessorStatus: { if (!((cur | c2) & RKStreamStatusProcessorStatus)) wrong("a status"); CHECK(n == sizeof(RKStatus), "size", "operator %d gets a status of %zu bytes", id, n); const RKStatus *s = (const RKStatus *)p; CHECK(s->i < W->statuses.size(), "data", "operator %d gets status %llu", id, (unsigned long long)s->i); uint64_t next = st < 0 ? stFloor : (uint64_t)st + 1; if (W->statuses.size() - std::min<uint64_t>(next, W->statuses.size()) + 4 < W->d->statusBufferDepth) CHECK(!memcmp(s, &W->statuses[s->i], sizeof *s), "data", "operator %d gets status %llu with other values", id, (unsigned long long)s->i); order("status", s->i, st, stFresh, stFloor, W->statuses.size(), W->d->statusBufferDepth); nst++; sim_probe("statuses"); break; }
            case RKNetworkPacketTypeSweepHeader: { if (!swps(cur) && !swps(c2)) wrong("a sweep"); CHECK(n == sizeof(RKSweepHeader), "size", "operator %d gets a sweep header of %zu bytes", id, n); CHECK(!csw || cswRay == csw->n, "sweep", "operator %d gets a sweep header after %u of %u rays", id, cswRay, csw ? csw->n : 0); const RKSweepHeader *h = (const RKSweepHeader *)p; const SweepRec *f = nullptr; uint64_t q = (uint64_t)h->startTime; for (auto &s : W->sweeps) if (W->rays[s.first].startTime.tv_sec == (long)q) f = &s; int64_t nk = swFresh ? std::max<int64_t>(0, swFloor - 1) : sw + 1, ns = (int64_t)W->sweeps.size(); if (nk < ns && (W->rays.size() - W->sweeps[(size_t)nk].first + 4 >= W->d->rayBufferDepth || ns - nk >= RKSweepScratchSpaceDepth - 1)) { sim_probe("lapped"); lapSweep = {W->sweeps[(size_t)nk].first, h->rayCount, h->gateCount, h->baseProductList, 0}; csw = &lapSweep; cswRay = 0; cswList = h->baseProductList; swFloor = std::max<int64_t>(swFloor, nk + 1); swFresh = true; swLap = true; break; } if (!f) { std::string l; for (auto &x : W->sweeps) l += " " + std::to_string(x.first); sim_fail("sweep", "operator %d gets the sweep of ray %lld (%u rays), sweeps are made from%s (%zu rays)", id, (long long)q - 1600000000, h->rayCount, l.c_str(), W->rays.size()); } uint32_t l1 = (swps(cur) << 16) & f->list, l2 = (swps(c2) << 16) & f->list; CHECK(h->baseProductList == l1 || h->baseProductList == l2, "sweep", "operator %d gets a sweep with the products 0x%x", id, h->baseProductList); CHECK(h->rayCount == f->n && h->gateCount == f->gc, "sweep", "operator %d gets a sweep of %u rays, %u gates instead of %u, %u", id, h->rayCount, h->gateCount, f->n, f->gc); csw = f; cswRay = 0; cswList = h->baseProductList; int64_t k = f - &W->sweeps[0]; CHECK(k > sw || swLap, "order", "operator %d gets sweep %lld after %lld", id, (long long)k, (long long)sw); if (!swFresh && (int64_t)W->sweeps.size() - sw < RKSweepScratchSpaceDepth - 1) CHECK(k == sw + 1, "gap", "operator %d gets sweep %lld after %lld", id, (long long)k, (long long)sw); sw = k; swFresh = changing; if (!changing) swLap = false; break; }
            case RKNetworkPacketTypeSweepRay: { CHECK(csw && cswRay < csw->n, "sweep", "operator %d gets a sweep ray outside of a sweep", id); RKRayHeader h; int c = __builtin_popcount(cswList); CHECK(n == sizeof h + (size_t)c * csw->gc * 4, "size", "operator %d gets a sweep ray of %zu bytes", id, n); memcpy(&h, p, sizeof h); uint64_t i = csw->first + cswRay; cswRay++; if (csw == &lapSweep || W->rays.size() - i + 4 >= W->d->rayBufferDepth) { sim_probe("lapped"); break; } CHECK(h.i == i, "sweep", "operator %d gets ray %llu of a sweep instead of %llu", id, (unsigned long long)h.i, (unsigned long long)i); CHECK(h.baseProductList == cswList, "sweep", "operator %d gets a sweep ray with the products 0x%x instead of 0x%x", id, h.baseProductList, cswList); rayHeader(h, W->rays[i].gateCount, 1); p += sizeof h;
                for (int j = 0; j < NP; j++) if (cswList >> (16 + j) & 1) for (uint32_t g = 0; g < csw->gc; g++, p += 4) { float v; memcpy(&v, p, 4); CHECK(v == fval(i, j, g), "data", "operator %d gets sweep ray %llu with product %d gate %u = %g instead of %g", id, (unsigned long long)i, j, g, (double)v, (double)fval(i, j, g)); } if (cswRay == csw->n) { nsw++; sim_probe("sweeps"); } break; }
            case RKNetworkPacketTypePlainText: { if (!((cur | c2) & RKStreamStatusMask)) wrong("text"); if (((cur & 15) == RKStreamStatusRays && !changing)) { std::string t(p, n); size_t a = 0; int64_t k; while ((a = t.find("ray#", a)) != std::string::npos) { k = atoll(t.c_str() + a + 4); a += 4; if (!txFresh && (int64_t)W->lines - tx < RKBufferSSlotCount - 3) CHECK(k == tx + 1, "gap", "operator %d gets text line %lld after %lld", id, (long long)k, (long long)tx); CHECK(k > tx || (int64_t)W->lines - k >= RKBufferSSlotCount - 3, "order", "operator %d gets text line %lld after %lld", id, (long long)k, (long long)tx); tx = k; txFresh = false; } } sim_probe("text"); break; }
            default: sim_fail("misframed", "operator %d gets a packet of type %d", id, d.type);
        } }
    // false: the connection has ended
    bool take(ns_t lim) { char b[8192]; long r = net_recv_some(fd, b, 1 + wl(sizeof b), lim); if (r == 0 || r == -1) return false; if (r > 0) in.append(b, (size_t)r); size_t o = 0; while (in.size() - o >= sizeof(RKNetDelimiter)) { RKNetDelimiter d; memcpy(&d, in.data() + o, sizeof d); CHECK(d.type >= RKNetworkPacketTypeBeacon && d.type <= RKNetworkPacketTypeSweepRay && d.size < 4000000, "misframed", "operator %d finds type %d size %u where a packet should begin", id, d.type, d.size); size_t n = d.type == RKNetworkPacketTypeBeacon ? 0 : d.size; if (in.size() - o < sizeof d + n) break; frame(d, in.data() + o + sizeof d, n); o += sizeof d + n; } in.erase(0, o); return true; }
    bool say(const std::string &c) { std::string l = c + (wl(2) ? "\r\n" : "\n"); if (wl(6) == 0 && l.size() > 3) { size_t k = 1 + wl(l.size() - 1); return net_send_all(fd, l.data(), k, 5 * SEC) == (long)k && (sim_sleep_ns((ns_t)wl(50) * MS), true) && net_send_all(fd, l.data() + k, l.size() - k, 5 * SEC) == (long)(l.size() - k); } return net_send_all(fd, l.data(), l.size(), 5 * SEC) == (long)l.size(); }
};
}
SCENARIO(streams, "C21") {
    rk_quiet(); chaos(); cfg.max_vtime = 2000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 20 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 20 * MS);
    World w; W = &w; w.dsp = Pbool("dsp", 0.7); w.cc = (uint32_t)P("cores", 1, 3); w.pc = (uint32_t)P("pulsecores", 1, 3); w.groups = (uint32_t)P("groups", 1, 3); int nops = (int)P("operators", 1, 4), port = 10000, buf = (int)P("buffers", 0, 2), moves = (int)P("changes", 1, 6); w.raypace = (int)P("pace", 0, 2); w.gcmode = (int)P("gates", 0, 2); w.sw = Pbool("sweeps", 0.5); bool texts = Pbool("texts", 0.4), clock = Pbool("clock", 0.2), early = Pbool("stopearly", 0.2), slow = Pbool("slow", 0.4);
    w.rcap = 32u * (uint32_t)P("rcap", 1, 3); w.pcap = 64u * (uint32_t)P("pcap", 1, 2); cfg.sndbuf = cfg.rcvbuf = (int64_t[]){262144, 20000, 2000}[buf]; cfg.p_recv_short = (double[]){0, 0.1, 0.5}[P("short", 0, 2)]; cfg.p_send_short = cfg.p_recv_short; cfg.p_lat_jitter = (double[]){0, 0.2}[P("lat", 0, 1)]; cfg.p_eintr = Pbool("eintr", 0.3) ? 0.02 : 0;
    w.d = new_desc(w.pcap, 32u * (uint32_t)P("pdepth", 1, 2)); RKRadar *r = (RKRadar *)calloc(1, sizeof(RKRadar)); w.r = r; w.d->rayBufferDepth = 40u * (uint32_t)P("rdepth", 1, 3); w.d->healthBufferDepth = 8u * (uint32_t)P("hdepth", 1, 3); w.d->statusBufferDepth = 12; w.d->configBufferDepth = 8;
    // ratios of down-sampling, which are from the description
    w.d->pulseCapacity = (uint32_t[]){w.pcap, 1000, 2048}[P("ratio", 0, 2)]; w.d->pulseToRayRatio = 1; w.d->initFlags = w.dsp ? RKInitFlagSignalProcessor : RKInitFlagRelay; r->desc = *w.d; w.d = &r->desc; r->state = RKRadarStateLive; strcpy(r->name, "Sim");
    RKRayBufferAlloc(&r->rays, w.rcap, w.d->rayBufferDepth); RKPulseBufferAlloc(&r->pulses, w.pcap, w.d->pulseBufferDepth); r->healths = (RKHealth *)calloc(w.d->healthBufferDepth, sizeof(RKHealth)); r->status = (RKStatus *)calloc(w.d->statusBufferDepth, sizeof(RKStatus)); r->configs = (RKConfig *)calloc(w.d->configBufferDepth, sizeof(RKConfig)); r->controls = (RKControl *)calloc(2, sizeof(RKControl)); r->controls[0].uid = 7; strcpy(r->controls[0].label, "Go"); strcpy(r->controls[0].command, "y"); r->controlCount = 1; for (uint32_t k = 0; k < w.d->configBufferDepth; k++) { r->configs[k].i = k; r->configs[k].startMarker = RKMarkerScanTypePPI; }
    for (uint32_t k = 0; k < w.d->rayBufferDepth; k++) RKGetRayFromBuffer(r->rays, k)->header.s = 0; for (uint32_t k = 0; k < w.d->pulseBufferDepth; k++) RKGetPulseFromBuffer(r->pulses, k)->header.s = 0; for (uint32_t k = 0; k < w.d->healthBufferDepth; k++) r->healths[k].i = (uint64_t)-(int64_t)w.d->healthBufferDepth + k;
    r->pulseEngine = RKPulseEngineInit(); r->pulseEngine->coreCount = (uint8_t)w.pc; r->pulseEngine->filterGroupCount = w.groups; r->momentEngine = RKMomentEngineInit(); r->momentEngine->coreCount = (uint8_t)w.cc; r->sweepEngine = RKSweepEngineInit(); r->positionEngine = RKPositionEngineInit(); r->healthEngine = RKHealthEngineInit(); r->rawDataRecorder = RKRawDataRecorderInit(); r->pulseRingFilterEngine = RKPulseRingFilterEngineInit(); r->steerEngine = RKSteerEngineInit(); if (!w.dsp) r->radarRelay = RKRadarRelayInit();
    r->sweepEngine->radarDescription = w.d; r->sweepEngine->configBuffer = r->configs; r->sweepEngine->verbose = 0; std::vector<RKComplex> flt(64); for (uint32_t g = 0; g < RKMaximumWaveformCount; g++) { r->pulseEngine->filterAnchors[g][0].length = 8; r->pulseEngine->filters[g][0] = flt.data(); }
    uint32_t q0 = std::max<uint32_t>(w.d->pulseCapacity / 500, 1); (void)q0; w.list = w.sw ? (uint32_t)(1 + wl(1023)) << 16 : 0x03FF0000;
    size_t mark = sim_heap_mark(); RKCommandCenter *C = RKCommandCenterInit(); CHECK(C, "init", "no command center"); RKCommandCenterSetVerbose(C, (int)wl(3)); RKCommandCenterSetPort(C, port); RKCommandCenterAddRadar(C, r);
    sim_deadline(30 * SEC, "blocked", "starting the command center"); RKCommandCenterStart(C); sim_deadline_clear(); CHECK(C->server->state == RKServerStateActive, "start", "the server does not start");
    std::vector<int> th; bool stopping = false; const ns_t slack = 3 * SEC + 200 * cfg.stall_hi + 100 * cfg.jitter_hi;
    // ---- the radar: rays, completed by as many workers as there are cores
    std::vector<std::deque<uint64_t>> todo(w.cc); w.rays.reserve(20000); w.sweeps.reserve(5000); uint32_t gc = w.rcap; std::vector<RKRay *> gathered; uint64_t gatherFirst = 0; uint32_t sweepLen = 2 + (uint32_t)wl(10); uint32_t inflight = 0;
    auto fill = [&](uint64_t i) { RKRay *y = RKGetRayFromBuffer(r->rays, (uint32_t)(i % w.d->rayBufferDepth)); uint32_t n = w.rays[i].gateCount; for (int j = 0; j < NP; j++) { float *f = RKGetFloatDataFromRay(y, (RKBaseProductIndex)j); uint8_t *u = RKGetUInt8DataFromRay(y, (RKBaseProductIndex)j); for (uint32_t g = 0; g < n; g++) { f[g] = fval(i, j, g); u[g] = uval(i, j, g); } if (j == 4) sim_yield(); } __sync_synchronize(); w.done[i] = 1; y->header.s = RKRayStatusProcessed | RKRayStatusReady; };
    auto newray = [&] { uint64_t i = w.rays.size(); if (w.gcmode == 2 && i % sweepLen == 0) gc = 1 + (uint32_t)wl(w.rcap); uint32_t k = (uint32_t)(i % w.d->rayBufferDepth); RKRay *y = RKGetRayFromBuffer(r->rays, k); RKRayHeader h; memset(&h, 0, sizeof h); h.capacity = w.rcap; h.s = RKRayStatusProcessing; h.i = i; h.n = i + 5; h.marker = (uint32_t)(i % sweepLen == 0 ? RKMarkerSweepBegin : 0); h.baseProductList = w.list; h.configIndex = (uint16_t)(i / sweepLen % w.d->configBufferDepth); h.gateCount = (uint16_t)gc; h.pulseCount = (uint16_t)(i % 50 + 3); h.gateSizeMeters = 30; h.sweepElevation = (float)(i % 20); h.sweepAzimuth = (float)(i % 7); h.startTime.tv_sec = (long)(1600000000 + i); h.startTimeDouble = (double)i + 0.25; h.endTime.tv_sec = (long)(1600000001 + i); h.endTimeDouble = (double)i + 0.5; h.startAzimuth = (float)(i % 360); h.startElevation = 1; h.endAzimuth = (float)((i + 1) % 360); h.endElevation = 2; h.fftOrder = 3; w.rays.push_back(h); w.done.push_back(0); y->header = h; return i; };
    auto advance = [&](uint64_t i) { uint32_t k = (uint32_t)((i + 1) % w.d->rayBufferDepth); RKRay *y = RKGetRayFromBuffer(r->rays, k); y->header.s = RKRayStatusVacant; __sync_synchronize(); r->rayIndex = k; };
    auto pace = [&] { sim_sleep_ns(w.raypace == 0 ? (ns_t)(1 + wl(20)) * MS : w.raypace == 1 ? (ns_t)wl(wl(20) == 0 ? 300 : 10) * MS : (ns_t)(5 + wl(80)) * MS); };
    th.push_back(sim_spawn("rays", [&] { while (w.run) { if (w.rays.size() > 15000) { sim_sleep_ns(10 * MS); continue; } uint64_t nxt = w.rays.size() + 1; if (nxt >= w.d->rayBufferDepth && !w.done[nxt - w.d->rayBufferDepth]) { sim_sleep_ns(2 * MS); continue; } uint64_t i = newray(); if (w.dsp) { todo[i % w.cc].push_back(i); inflight++; } else fill(i); advance(i);
            snprintf(r->momentEngine->rayStatusBuffer[w.lines % RKBufferSSlotCount], RKStatusStringLength, "ray#%llu is here", (unsigned long long)w.lines); w.lines++; r->momentEngine->rayStatusBufferIndex = (uint32_t)(w.lines % RKBufferSSlotCount); pace(); } }));
    if (w.dsp) for (uint32_t c = 0; c < w.cc; c++) th.push_back(sim_spawn("core", [&, c] { while (w.run || !todo[c].empty()) { if (todo[c].empty()) { sim_sleep_ns(1 * MS); continue; } uint64_t i = todo[c].front(); if (wl(4) == 0) sim_sleep_ns((ns_t)wl(wl(20) == 0 ? 400 : 10) * MS); fill(i); todo[c].pop_front(); inflight--; } }));
    if (w.dsp && w.sw) th.push_back(sim_spawn("sweeps", [&] { uint64_t at = 0; while (w.run) { if (w.rays.size() < at + sweepLen || ![&] { for (uint64_t i = at; i < at + sweepLen; i++) if (!w.done[i]) return false; return true; }()) { sim_sleep_ns(3 * MS); continue; } uint32_t x = r->sweepEngine->scratchSpaceIndex; RKSweepScratchSpace *s = &r->sweepEngine->scratchSpaces[x]; s->rayCount = sweepLen; uint32_t l = 0; for (uint32_t k = 0; k < sweepLen; k++) { s->rays[k] = RKGetRayFromBuffer(r->rays, (uint32_t)((at + k) % w.d->rayBufferDepth)); s->rayIds[k] = at + k; l |= w.rays[at + k].baseProductList; } w.sweeps.push_back({at, sweepLen, w.rays[at].gateCount, l, 0}); at += sweepLen; r->sweepEngine->scratchSpaceIndex = RKNextModuloS(x, RKSweepScratchSpaceDepth); RKSweepScratchSpace *ns = &r->sweepEngine->scratchSpaces[r->sweepEngine->scratchSpaceIndex]; ns->rayCount = 0; if (w.rays.size() > at + w.d->rayBufferDepth / 2) at = w.rays.size() / sweepLen * sweepLen; sim_sleep_ns((ns_t)wl(100) * MS); } }));
    th.push_back(sim_spawn("pulses", [&] { std::deque<uint64_t> raw; w.pulses.reserve(30000); while (w.run) { if (w.pulses.size() > 25000) { sim_sleep_ns(10 * MS); continue; } uint64_t i = w.pulses.size(); uint32_t k = (uint32_t)(i % w.d->pulseBufferDepth); RKPulse *p = RKGetPulseFromBuffer(r->pulses, k); p->header.s = RKPulseStatusVacant; __sync_synchronize(); RKPulseHeader h; memset(&h, 0, sizeof h); h.capacity = w.pcap; h.i = i; h.gateCount = w.gcmode == 0 ? w.pcap : 1 + (uint32_t)wl(w.pcap); h.downSampledGateCount = h.gateCount; h.pulseWidthSampleCount = 1 + (uint32_t)wl(40); h.azimuthDegrees = (float)(i % 360); h.elevationDegrees = (float)(i % 90); h.timeDouble = (double)i; h.configIndex = (uint16_t)(i % 8); w.pulses.push_back(h); p->header = h; sim_yield();
            for (int c = 0; c < 2; c++) { RKInt16C *x = RKGetInt16CDataFromPulse(p, (uint32_t)c); RKComplex *y = RKGetComplexDataFromPulse(p, (uint32_t)c); for (uint32_t g = 0; g < h.gateCount; g++) { x[g].i = cval(i, c, g, 0); x[g].q = cval(i, c, g, 1); y[g].i = yval(i, c, g, 0); y[g].q = yval(i, c, g, 1); } sim_yield(); } __sync_synchronize(); p->header.s = RKPulseStatusHasIQData | RKPulseStatusHasPosition | (w.dsp ? 0 : RKPulseStatusProcessed); r->pulseIndex = RKNextModuloS(k, w.d->pulseBufferDepth); raw.push_back(i);
            while (w.dsp && raw.size() > wl(2 * w.pc + 1)) { RKPulse *z = RKGetPulseFromBuffer(r->pulses, (uint32_t)(raw.front() % w.d->pulseBufferDepth)); __sync_fetch_and_or(&z->header.s, RKPulseStatusProcessed); raw.pop_front(); } sim_sleep_ns((ns_t)(wl(30)) * MS); } }));
    th.push_back(sim_spawn("healths", [&] { w.healths.reserve(5000); uint32_t pc = 200 + (uint32_t)wl(1000); while (w.run) { uint64_t n = w.healths.size(); uint32_t k = (uint32_t)(n % w.d->healthBufferDepth); RKHealth *h = &r->healths[k]; h->flag = RKHealthFlagVacant; __sync_synchronize(); h->i += w.d->healthBufferDepth; sim_yield(); w.healths.push_back(hstr(n)); strcpy(h->string, w.healths.back().c_str()); sim_yield(); __sync_synchronize(); h->flag = RKHealthFlagReady; uint32_t x = RKNextModuloS(k, w.d->healthBufferDepth); r->healths[x].flag = RKHealthFlagVacant; __sync_synchronize(); r->healthIndex = x; if (wl(3) == 0) { sim_sleep_ns((ns_t)wl(100) * MS); h->flag |= RKHealthFlagUsed; } sim_sleep_ns((ns_t)(50 + wl(pc)) * MS); } }));
    th.push_back(sim_spawn("statuses", [&] { w.statuses.reserve(5000); while (w.run) { uint64_t n = w.statuses.size(); uint32_t k = (uint32_t)(n % w.d->statusBufferDepth); RKStatus s; memset(&s, (int)(n * 7 & 127), sizeof s); s.i = n; s.flag = RKStatusFlagReady; RKStatus *d = &r->status[k]; d->flag = RKStatusFlagVacant; sim_yield(); RKStatus v = s; v.flag = RKStatusFlagVacant; *d = v; w.statuses.push_back(s); __sync_synchronize(); d->flag = RKStatusFlagReady; uint32_t x = RKNextModuloS(k, w.d->statusBufferDepth); r->status[x].flag = RKStatusFlagVacant; __sync_synchronize(); r->statusIndex = x; sim_sleep_ns((ns_t)(100 + wl(900)) * MS); } }));
    if (clock) th.push_back(sim_spawn("clock", [&] { while (!w.calm && w.run) { sim_sleep_ns((ns_t)wl(3000) * MS); if (w.calm || !w.run) break; sim_fault_note("clock jump"); sim_wall_jump((int64_t)((wlf() - 0.5) * 2000 * (double)SEC)); } }));
    // ---- operators
    std::vector<std::unique_ptr<Op>> ops; std::vector<int> oth; int settled = 0, alive = 0; bool finish = false, produced = false;
    auto rndstreams = [&]() -> std::string { std::string all = w.dsp ? "!hizvwdprkstZVWDPRKSTYUXCOQJABH" : "!hizvwdprkstZVWDPRKST", s; int m = (int)wl(5); if (m == 0) return ""; const char *pool = m == 1 ? "zvwdprkst" : m == 2 ? "ZVWDPRKST" : m == 3 ? "h!i" : all.c_str(); size_t n = strlen(pool), c = 1 + wl(n); for (size_t k = 0; k < c; k++) s += pool[wl(n)]; if (texts && w.dsp && wl(2) == 0) s += "012348"[wl(6)]; if (!w.sw) { std::string t; for (char ch : s) if (!strchr("YUXCOQJABH", ch)) t += ch; s = t; } return s; };
    auto subscribe = [&](Op &o, const std::string &s) -> bool { RKStream n = parse(s); if (!clean(n)) n &= ~15ULL; o.nxt = n; o.changing = true; o.fresh(); o.wantResp++; if (!o.say("s" + std::string(wl(2) ? " " : "") + s)) return false; ns_t t0 = sim_now(); while (o.changing) { if (!o.take(100 * MS)) return false; CHECK(stopping || sim_now() - t0 < slack + 30 * SEC, "response", "operator %d has no reply to its subscription after %.1f s", o.id, 1e-9 * (double)(sim_now() - t0)); if (stopping && sim_now() - t0 > 60 * SEC) return false; } sim_probe("subscriptions"); return true; };
    for (int k = 0; k < nops; k++) { ops.push_back(std::make_unique<Op>()); Op &o = *ops.back(); o.id = k; alive++; oth.push_back(sim_spawn("operator", [&, k] { Op &o = *ops[(size_t)k]; sim_sleep_ns((ns_t)wl(wl(2) ? 3000 : 100) * MS);
        auto join = [&]() -> bool { o = Op(); o.id = k; for (int t = 0; t < 60; t++) { o.fd = net_connect(port, 5 * SEC); if (o.fd >= 0) return true; if (stopping) return false; sim_sleep_ns(100 * MS); } return false; };
        auto lost = [&](const char *what) { CHECK(stopping, "dropped", "operator %d is dropped %s", k, what); };
        auto dwell = [&](ns_t d) -> bool { ns_t t0 = sim_now(); while (sim_now() - t0 < d) { if (stopping && sim_now() - t0 > 30 * SEC) return false; if (!o.take(50 * MS)) return false; if (slow && wl(60) == 0) { sim_fault_note("operator stops reading"); sim_sleep_ns((ns_t)wl(3000) * MS); } } return true; };
        bool ok = join(); CHECK(ok || stopping, "connect", "operator %d cannot connect", k);
        for (int m = 0; m < moves && ok && !stopping && !finish; m++) { int what = (int)wl(12);
            if (what < 8) { ok = subscribe(o, rndstreams()) && dwell((ns_t)wl(wl(3) ? 1500 : 5000) * MS); if (!ok) lost("while streaming"); }
            else if (what == 8 && w.dsp) { o.wantResp++; o.mode2 = (o.mode + 1) % 3; ok = o.say("x"); ns_t t0 = sim_now(); while (ok && o.mode != o.mode2) { ok = o.take(100 * MS); CHECK(stopping || sim_now() - t0 < slack + 30 * SEC, "response", "operator %d has no reply to the change of mode", k); if (stopping && sim_now() - t0 > 60 * SEC) ok = false; } if (!ok) lost("changing the mode"); }
            else if (what == 9 && w.dsp) { o.authWait = true; ok = o.say("a radarkit nopasswd") && dwell(500 * MS); if (!ok) lost("after authentication"); }
            else if (what == 10) { sim_fault_note("operator leaves"); if (wl(2)) net_reset(o.fd); else { net_close(o.fd); } sim_sleep_ns((ns_t)wl(2000) * MS); ok = join(); CHECK(ok || stopping, "connect", "operator %d cannot connect again", k); sim_probe("returns"); }
            else { ok = o.say("ping") && dwell((ns_t)wl(1000) * MS); if (!ok) lost("while idle"); } }
        // a last choice, then everything that is published arrives
        if (ok && !stopping) { std::string s = rndstreams(); if (wl(2)) s += w.dsp ? "Zh" : "zh"; ok = subscribe(o, s); if (!ok) lost("at last"); uint64_t r0 = w.rays.size(), h0 = w.healths.size(), s0 = w.statuses.size(); settled++; ns_t t1 = 0; while (ok && !stopping) { if (!o.take(50 * MS)) { ok = false; lost("at the end"); break; } if (finish && !t1) t1 = sim_now(); if (!t1) continue; int64_t want = (int64_t)w.rays.size() - (w.dsp ? 2 * (int64_t)w.cc : 1) - 1, wh = (int64_t)w.healths.size() - 2, ws = (int64_t)w.statuses.size() - 2;
                bool rr = !(prods(o.cur) || disps(o.cur)) || want <= (int64_t)r0 + 60 || o.ray >= want, hh = !(o.cur & RKStreamHealthInJSON) || wh <= (int64_t)h0 + 20 || o.hl >= wh, ss = !(o.cur & RKStreamStatusProcessorStatus) || ws <= (int64_t)s0 + 20 || o.st >= ws, pp = !(o.cur & RKStreamDisplayIQ) || o.npu > 0; if (!produced) continue; if (rr && hh && ss && pp) { if (w.dsp ? sim_now() - t1 > 3 * SEC : sim_now() - t1 > 1 * SEC) break; continue; }
                if (sim_now() - t1 >= slack + 40 * SEC) for (int u = 0; u < RKCommandCenterMaxConnections; u++) if (C->users[u].radar) sim_note("buffered %zu: type %d size %u, available %d", o.in.size(), o.in.size() > 12 ? *(uint16_t *)o.in.data() : 0, o.in.size() > 12 ? *(uint32_t *)(o.in.data() + 4) : 0, (int)net_rx_avail(o.fd)), sim_note("user %d streams %llx in progress %llx access %llx ray %u of %u last %.6f operator %d now %.6f", u, (unsigned long long)C->users[u].streams, (unsigned long long)C->users[u].streamsInProgress, (unsigned long long)C->users[u].access, C->users[u].rayIndex, r->rayIndex, C->users[u].timeLastOut, (int)C->users[u].serverOperator->state, sim_wall());
                CHECK(sim_now() - t1 < slack + 40 * SEC, "lost", "operator %d still misses%s%s%s%s after %.1f s: ray %lld of %lld, health %lld of %lld, status %lld of %lld, %llu pulses", k, rr ? "" : " rays", hh ? "" : " healths", ss ? "" : " statuses", pp ? "" : " pulses", 1e-9 * (double)(sim_now() - t1), (long long)o.ray, (long long)want, (long long)o.hl, (long long)wh, (long long)o.st, (long long)ws, (unsigned long long)o.npu); }
            if (ok && !stopping) sim_probe("complete to the end"); } else settled++;
        if (o.fd >= 0) net_close(o.fd); alive--; })); }
    sim_deadline(1200 * SEC, "blocked", "serving the operators");
    if (early) { sim_sleep_ns((ns_t)(wlf() * 8 * SEC)); stopping = true; sim_probe("stops under load"); }
    else { while (settled < nops) sim_sleep_ns(20 * MS); sim_calm(); slow = false; w.calm = true; cfg.p_eintr = 0; sim_sleep_ns((ns_t)wl(8000) * MS); if (!w.dsp) { RKStream all = 0; for (int k = 0; k < RKCommandCenterMaxConnections; k++) if (C->users[k].radar == r) all |= C->users[k].streams; CHECK(r->radarRelay->streams == all, "consolidate", "the relay asks for the streams 0x%llx, the operators want 0x%llx", (unsigned long long)r->radarRelay->streams, (unsigned long long)all); sim_probe("consolidated"); } w.run = false; sim_wait_until([&] { return inflight == 0; }, 20 * SEC); sim_sleep_ns(500 * MS); produced = true; finish = true; while (alive > 0) sim_sleep_ns(20 * MS); }
    sim_deadline_clear(); w.run = false; stopping = true; sim_deadline(200 * SEC, "blocked", "stopping the command center"); RKCommandCenterStop(C); sim_deadline_clear(); sim_deadline(200 * SEC, "blocked", "operators leaving"); for (int t : oth) sim_join(t); for (int t : th) sim_join(t); sim_deadline_clear();
    sim_calm(); sim_deadline(200 * SEC, "blocked", "freeing the command center"); RKCommandCenterFree(C); sim_deadline_clear(); sim_wait_until([&] { return sim_live_code_threads() == 0; }, 10 * SEC); CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); CHECK(sim_unjoined_threads() == 0, "unjoined", "threads that were never joined are left"); CHECK(sim_open_fds() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str()); size_t lk = sim_heap_live_since(mark); CHECK(lk == 0, "leak", "%zu allocations left:%s", lk, sim_heap_dump(mark).c_str());
    rk_quiet();
}
