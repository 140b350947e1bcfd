// C29: a live radar looks at itself a few times a second, reports what it is, and suspends itself when a value has been critical for long enough
#include "rk.h"
extern "C" { extern RKRadar *RKInitWithDesc(const RKRadarDesc); }
namespace {
enum { MAXIN = 20 };   // more inspections than this in a row
struct Snap { bool valid = false; uint32_t node, health, tweeta, ped, trx, status; uint64_t npos, npulse; bool record, filter; int host; uint32_t config; uint64_t z; ns_t t; };
struct World {
    RKRadar *r; bool fini[3] = {false, false, false}; int tid[3] = {-1, -1, -1}; std::function<void()> run[3]; uint64_t z = 0, zbad = 0; int slowz = 0; bool stopping = false;
    std::deque<char> moving; uint64_t npos = 0, npulse = 0, lasttweeta = 0; std::set<std::string> bad;   // moving: of each position, whether it differs from the one before by more than a little
} *W;
template <int D> void *dev_init(RKRadar *, void *) { W->tid[D] = sim_spawn(D == 0 ? "transceiver" : D == 1 ? "pedestal" : "relay", [] { W->run[D](); }); return (void *)(intptr_t)(100 + D); }
template <int D> int dev_exec(void *dev, const char *cmd, char *resp) {
    CHECK(dev == (void *)(intptr_t)(100 + D), "device", "command '%s' given to device %p", cmd, dev);
    if (!strcmp(cmd, "disconnect")) { W->fini[D] = true; sim_join(W->tid[D]); if (resp) strcpy(resp, "ACK." RKEOL); return RKResultSuccess; }
    if (D == 0 && !strcmp(cmd, "z")) { CHECK(!W->stopping, "suspend", "the radar is suspended while it stops"); W->z++; sim_probe("suspensions"); if (W->slowz) sim_sleep_ns((ns_t)wl((uint64_t)W->slowz) * MS); }
    if (resp) snprintf(resp, 64, "ACK. %.20s" RKEOL, cmd); return RKResultSuccess; }
template <int D> int dev_free(void *) { return RKResultSuccess; }
uint16_t csum(const std::string &s) { uint32_t a = 0; for (size_t i = 0; i + 1 < s.size(); i += 2) { uint16_t w; memcpy(&w, s.data() + i, 2); a += w; } if (s.size() & 1) a += (uint8_t)s.back(); a = (a >> 16) + (a & 0xffff); a += a >> 16; return (uint16_t)~a; }
// 0 no such value, 1 at least one, 2 cannot say
int has(const std::string &s, std::initializer_list<int> v) { if (s.empty()) return 0; if (W->bad.size() && s.find("torn") != std::string::npos) return 2; for (int k : v) for (std::string b : {"\"Enum\":" + std::to_string(k)}) for (size_t a = s.find(b); a != std::string::npos; a = s.find(b, a + 1)) if (!isdigit((unsigned char)s[a + b.size()])) return 1; return 0; }
struct Yes { bool t = false, f = false; void add(int h) { if (h != 0) t = true; if (h != 1) f = true; } void add(const Yes &o) { t |= o.t; f |= o.f; } };
std::string obj(const std::string &s, const std::string &key) { size_t a = s.find("\"" + key + "\":"); if (a == std::string::npos) return ""; a += key.size() + 3; size_t e = a; int n = 0; for (; e < s.size(); e++) { if (s[e] == '{' || s[e] == '[') n++; else if (s[e] == '}' || s[e] == ']') { if (n == 0) break; if (--n == 0) { e++; break; } } else if (s[e] == ',' && n == 0) break; } return s.substr(a, e - a); }
bool flag(const std::string &o, bool &ok) { size_t a = o.find("\"Value\":"); if (a == std::string::npos) { ok = false; return false; } a += 8; while (o[a] == ' ') a++; if (o.compare(a, 4, "true") == 0) return true; if (o.compare(a, 5, "false") != 0) ok = false; return false; }
int num(const std::string &o, bool &ok) { size_t a = o.find("\"Enum\":"); if (a == std::string::npos) { ok = false; return 0; } return atoi(o.c_str() + a + 7); }
double hz(const std::string &o, bool &ok) { size_t a = o.find("\"Value\":"); if (a == std::string::npos) { ok = false; return 0; } std::string x; for (a += 8; a < o.size() && o[a] != 'H'; a++) if (o[a] == '-' || o[a] == '.' || isdigit((unsigned char)o[a])) x += o[a]; if (a == o.size()) ok = false; return atof(x.c_str()); }
}
SCENARIO(inspector, "C29") {
    World world; W = &world; World &w = world; rk_quiet(); chaos(); cfg.max_vtime = 3000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 20 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 20 * MS);
    RKRadarDesc d; memset(&d, 0, sizeof d); d.initFlags = RKInitFlagAllocEverything | RKInitFlagSignalProcessor | RKInitFlagPulsePositionCombiner | RKInitFlagPositionSteerEngine; d.initFlags = (RKInitFlag)(d.initFlags | (uint32_t[]){0, RKInitFlagVerbose, RKInitFlagVeryVerbose}[P("verbose", 0, 2)]);
    d.pulseCapacity = 64; d.pulseToRayRatio = 1; d.pulseBufferDepth = (uint32_t[]){80, 120}[P("pulses", 0, 1)]; d.rayBufferDepth = d.pulseBufferDepth + 20; d.positionBufferDepth = (uint32_t[]){64, 100, 160}[P("positions", 0, 2)]; d.healthBufferDepth = (uint32_t[]){10, 25}[P("healths", 0, 1)]; d.configBufferDepth = 12; d.healthNodeCount = RKHealthNodeCount; d.statusBufferDepth = 10; d.controlCapacity = d.waveformCalibrationCapacity = 4;
    d.pulseSmoothFactor = 200; d.pulseTicsPerSecond = 1000000; d.positionSmoothFactor = 50; d.positionTicsPerSecond = 1000000; d.wavelength = 0.03; strcpy(d.name, "Sim"); strcpy(d.filePrefix, "SIM"); strcpy(d.dataPath, "data");
    uint32_t ip = 0x0a010001; for (const char *n : {"www.ou.edu", "8.8.8.8"}) dns_table[n] = ip++; vfs_mkdirs("/home/radar/data");
    RKRadar *r = RKInitWithDesc(d); CHECK(r, "init", "no radar"); rk_quiet(); w.r = r; d = r->desc; RKSetProcessingCoreCounts(r, 1, 1, 1); int net = (int)P("hosts", 0, 3); ns_t netchange = sim_now() + (ns_t)wl(20000) * MS;
    icmp_hook = [&](const IcmpSend &s) { int n = net; if (n == 3 && sim_now() > netchange) n = 2; if (n == 0 || n == 3 || (n == 1 && s.ip == 0x0a010001) || s.data.size() < 8) return; std::string o = s.data; o[0] = 0; o[2] = o[3] = 0; uint16_t c = csum(o); memcpy(&o[2], &c, 2); icmp_deliver(s.sock, s.ip, o, (ns_t)(1 + wl(30)) * MS); };
    // what goes on: the pedestal, the pulses, the relay
    bool trx = !Pbool("bare", 0.1), relay = !Pbool("norelay", 0.15), torn = Pbool("torn", 0.15), longtext = Pbool("long", 0.2); int motion = (int)P("motion", 0, 2); w.slowz = Pbool("slowz", 0.3) ? 600 : 0; int crit = (int)P("critical", 0, 4), eras = (int)P("pulsing", 0, 2);
    bool mv = motion != 1, high[3] = {false, false, false}, critical = false, quiet = false; int where = (int)wl(3); double az = 360 * wlf(), el = 3, step = 0.06 + (wl(2) ? wlf() * 3 : 0); bool rhi = wl(4) == 0; ns_t pgap = (ns_t)(10 + wl(30)) * MS, gap = (ns_t)(8 + wl(24)) * MS; bool pulses = eras != 1, positions = true;
    if (torn) w.bad.insert("torn");
    auto words = [&](int k, uint64_t serial, bool c, bool h) { std::string v = longtext && wl(3) == 0 ? std::string(100 + wl(500), 'v') : std::to_string(wl(100)), key = longtext && wl(5) == 0 ? "Temperature " + std::string(20 + wl(300), 'k') : "Temperature"; if (longtext && (v.size() > 99 || key.size() > 30)) sim_fault_note("long value"); std::string s = "{\"Count " + std::to_string(k) + "\":{\"Value\":\"" + std::to_string(serial) + "\",\"Enum\":0},\"" + key + " " + std::to_string(k) + "\":{\"Value\":\"" + v + "\",\"Enum\":" + std::to_string(c ? 4 : h ? 1 + (int)wl(2) : wl(4) == 0 ? -1 - (int)wl(2) : 0) + "}}";
        if (torn && wl(8) == 0) { sim_fault_note("torn report"); s.insert(1, "\"torn\":{\"Enum\":1}, "); if (wl(2)) s.resize(1 + wl(s.size())); else s.erase(2 + wl(s.size() - 3), 1 + wl(3)); if (s.find("torn") == std::string::npos) s = "{\"torn"; } return s; };
    uint64_t serial = 0; const RKHealthNode nodes[3] = {RKHealthNodeTweeta, RKHealthNodePedestal, RKHealthNodeTransceiver};
    auto report = [&](int k) { RKHealth *h = RKGetVacantHealth(r, nodes[k]); if (!h) return; std::string s = words(k, serial++, critical && where == k, high[k]); snprintf(h->string, sizeof h->string, "%s", s.c_str()); RKSetHealthReady(r, h); };
    w.run[0] = [&] { ns_t nh = 0; while (!w.fini[0]) { if (sim_now() >= nh) { nh = sim_now() + (ns_t)(50 + wl(150)) * MS; report(2); } if (!pulses) { sim_sleep_ns(5 * MS); continue; }
        RKPulse *p = RKGetVacantPulse(r); p->header.gateCount = 8; p->header.t = sim_now() / 1000; p->header.gateSizeMeters = 30; for (int c = 0; c < 2; c++) memset(RKGetInt16CDataFromPulse(p, c), (int)(w.npulse & 15), 8 * sizeof(RKInt16C)); RKSetPulseHasData(r, p); w.npulse++; sim_sleep_ns(gap); } };
    w.run[1] = [&] { ns_t nh = 0; while (!w.fini[1]) { if (sim_now() >= nh) { nh = sim_now() + (ns_t)(50 + wl(150)) * MS; report(1); } if (!positions) { sim_sleep_ns(5 * MS); continue; }
        RKPosition *p = RKGetVacantPosition(r); if (mv) { if (rhi) { el = fmod(el + step, 180.0); } else az = fmod(az + step, 360.0); } p->tic = sim_now() / 1000; p->elevationDegrees = (float)el; p->azimuthDegrees = (float)az >= 360.0f ? 0.0f : (float)az; p->sweepElevationDegrees = 3; p->flag |= RKPositionFlagAzimuthEnabled | RKPositionFlagElevationEnabled | RKPositionFlagScanActive | RKPositionFlagAzimuthSweep | RKPositionFlagElevationPoint; w.moving.push_back(mv); sim_atomic_begin(); RKSetPositionReady(r, p); w.npos++; sim_atomic_end(); sim_sleep_ns(pgap); } };
    w.run[2] = [&] { while (!w.fini[2]) { if (!quiet) { report(0); } sim_sleep_ns((ns_t)(60 + wl(160)) * MS); } };
    if (trx) RKSetTransceiver(r, nullptr, dev_init<0>, dev_exec<0>, dev_free<0>); RKSetPedestal(r, nullptr, dev_init<1>, dev_exec<1>, dev_free<1>); if (relay) RKSetHealthRelay(r, nullptr, dev_init<2>, dev_exec<2>, dev_free<2>);
    // each inspection is judged by what was there before and after it
    std::set<int> counts; bool counting = false; Snap pre, last; std::set<std::string> lastprf; uint64_t seen = 0; uint32_t depth = d.positionBufferDepth, hd = d.healthBufferDepth; bool done = false; ns_t lastt = 0; double prfmax = 0; bool hadpulse = false;
    auto snap = [&] { Snap s; s.valid = true; s.node = r->healthNodes[RKHealthNodeRadarKit].index; s.health = r->healthIndex; s.tweeta = r->healthNodes[RKHealthNodeTweeta].index; s.ped = r->healthNodes[RKHealthNodePedestal].index; s.trx = r->healthNodes[RKHealthNodeTransceiver].index; s.status = r->statusIndex; s.npos = w.npos; s.npulse = w.npulse; s.record = r->rawDataRecorder->record; s.filter = r->pulseRingFilterEngine->useFilter; s.host = r->hostMonitor->allReachable ? 0 : r->hostMonitor->anyReachable ? 1 : r->hostMonitor->allKnown ? 2 : -3; s.config = r->configIndex; s.z = w.z; s.t = sim_now(); return s; };
    auto range = [&](RKHealth *h, uint32_t a, uint32_t b, std::initializer_list<int> v, bool back) { Yes y; uint32_t n = (b + hd - a) % hd + (back ? 2 : 1); if (n > hd - 2) { y.t = y.f = true; return y; } for (uint32_t k = 0; k < n; k++) { RKHealth &x = h[(b + hd - 1 - k) % hd]; if (x.flag & RKHealthFlagReady) y.add(has(x.string, v)); else if (k == 0) continue; else y.add(0); } if (!y.t && !y.f) y.f = true; return y; };
    auto rate = [&](uint64_t n, uint32_t dep, const std::function<double(uint32_t)> &t, uint32_t idx, double &lo, double &hi) { uint32_t span = dep * 3 / 4; if (n < span + 4) return false; lo = 1e99; hi = 0; for (uint32_t k = 3; k < span; k++) { double dt = t((idx + 2 * dep - k) % dep) - t((idx + 2 * dep - k - 1) % dep); if (dt <= 0) return false; lo = std::min(lo, 1 / dt); hi = std::max(hi, 1 / dt); } return true; };
    auto judge = [&](const Snap &a, const Snap &b) {
        RKHealth &h = r->healthNodes[RKHealthNodeRadarKit].healths[a.node]; std::string s = h.string; sim_probe("inspections"); seen++; sim_note("report %s", s.c_str()); CHECK(h.flag & RKHealthFlagReady && !s.empty(), "report", "an inspection leaves a report of flag %x and %zu bytes", h.flag, s.size()); CHECK(s[0] == '{' && s.back() == '}' && s.size() < RKMaximumStringLength && std::count(s.begin(), s.end(), '{') == std::count(s.begin(), s.end(), '}') && std::count(s.begin(), s.end(), '"') % 2 == 0, "report", "the report is not whole: '%s'", s.c_str());
        CHECK((b.status + d.statusBufferDepth - a.status) % d.statusBufferDepth == 1 && r->status[a.status].flag & RKStatusFlagReady, "status", "%u status records for an inspection", (b.status + d.statusBufferDepth - a.status) % d.statusBufferDepth); CHECK(r->status[a.status].memoryUsage == r->memoryUsage && r->memoryUsage > 100000, "status", "a status record says %lu B are used", (unsigned long)r->status[a.status].memoryUsage);
        bool ok = true; auto is = [&](const char *key, bool val, int e) { std::string o = obj(s, key); bool v = flag(o, ok); int n = num(o, ok); return v == val && n == e; }; std::string o;
        // the pedestal
        int n8 = (int)depth / 2 + 2; Yes move; bool enough = a.npos >= (uint64_t)n8 + 2; if (!enough || a.npos == 0) move.t = move.f = true; else for (uint64_t k = a.npos - (uint64_t)n8; k < b.npos; k++) move.add(w.moving[k]); Yes ph = range(r->healthNodes[RKHealthNodePedestal].healths, a.ped, b.ped, {1, 2}, true); o = obj(s, "Pedestal"); int pe = num(o, ok); bool act = move.t && ph.f, sby = move.f || ph.t; if (b.npos == 0) CHECK(pe == RKStatusEnumInvalid, "pedestal", "no position yet, the pedestal is reported as %s", o.c_str()); else CHECK((pe == RKStatusEnumActive && act) || (pe == RKStatusEnumStandby && sby) || (pe == RKStatusEnumInvalid && !enough), "pedestal", "the pedestal %s%s%s, it is reported as %s", enough ? move.f ? move.t ? "has stopped or started" : "stands still" : "moves" : "is new", ph.t ? " with a value too high" : "", "", o.c_str());
        if (pe == RKStatusEnumActive) sim_probe("moving"); else if (enough) sim_probe("standing");
        // pulses
        Yes th = range(r->healthNodes[RKHealthNodeTransceiver].healths, a.trx, b.trx, {1, 2}, true); double lo, hi; o = obj(s, "Transceiver"); bool tv = flag(o, ok); int te = num(o, ok); std::string prf = obj(s, "Measured PRF"); double f = hz(prf, ok); bool full = a.npulse > d.pulseBufferDepth * 3 / 4 + 4; if (b.npulse == 0) CHECK(!tv, "transceiver", "no pulse yet, the transceiver is reported as %s", o.c_str()); if (full) CHECK(tv, "transceiver", "pulses come in, the transceiver is reported as %s", o.c_str()); if (tv) CHECK((te == RKStatusEnumNormal && th.f) || (te == RKStatusEnumStandby && th.t), "transceiver", "the transceiver%s is reported as %s", th.t ? " with a value too high" : "", o.c_str()); else CHECK(te == RKStatusEnumFault, "transceiver", "the transceiver is reported as %s", o.c_str());
        if (full && a.npulse + d.pulseBufferDepth / 8 > b.npulse && rate(a.npulse, d.pulseBufferDepth, [&](uint32_t i) { return RKGetPulseFromBuffer(r->pulses, i)->header.timeDouble; }, (uint32_t)(a.npulse % d.pulseBufferDepth), lo, hi)) { sim_probe("rates"); CHECK(f >= lo * 0.999 - 1 && f <= hi * 1.001 + 1, "prf", "the pulses come at %.1f - %.1f Hz, the report says %s", lo, hi, prf.c_str()); }
        int fe = num(prf, ok); if (a.config == b.config) { RKConfig *c = &r->configs[RKPreviousModuloS(a.config, d.configBufferDepth)]; double e = fabs(f * c->prt[0] - 1), u = c->prt[0] * 1.01 + 1e-3; if (e < 0.1 - u) { CHECK(fe == RKStatusEnumNormal, "prf", "%s of %.1f Hz", prf.c_str(), 1 / c->prt[0]); sim_probe("normal PRF"); } if (e > 0.1 + u) CHECK(fe == RKStatusEnumStandby, "prf", "%s of %.1f Hz", prf.c_str(), 1 / c->prt[0]); char t[80]; snprintf(t, sizeof t, "[%.3f,%.3f]", c->noise[0], c->noise[1]); CHECK(obj(s, "Noise") == t, "noise", "the noise is %s, reported as %s", t, obj(s, "Noise").c_str()); }
        o = obj(s, "Position Rate"); double pf = hz(o, ok); if (a.npos + depth / 8 > b.npos && rate(a.npos, depth, [&](uint32_t i) { return r->positions[i].timeDouble; }, (uint32_t)(a.npos % depth), lo, hi)) CHECK(pf >= lo * 0.999 - 1 && pf <= hi * 1.001 + 1, "position-rate", "the positions come at %.1f - %.1f Hz, the report says %s", lo, hi, o.c_str());
        // the relay
        o = obj(s, "Health Relay"); bool hv = flag(o, ok); int he = num(o, ok); Yes rh = range(r->healthNodes[RKHealthNodeTweeta].healths, a.tweeta, b.tweeta, {1, 2}, true); if (!relay) CHECK(!hv && he == RKStatusEnumNotWired, "relay", "there is no relay, it is reported as %s", o.c_str()); else if (r->healthRelay && last.valid) { uint64_t n0 = 0; (void)n0; uint32_t fresh = (a.tweeta + hd - last.tweeta) % hd; if (fresh && b.tweeta == a.tweeta) { CHECK(hv, "relay", "%u reports have come since the last inspection, the relay is reported as %s", fresh, o.c_str()); sim_probe("relay heard"); } if (hv) CHECK((he == RKStatusEnumNormal && rh.f) || (he == RKStatusEnumStandby && rh.t), "relay", "the relay%s is reported as %s", rh.t ? " with a value too high" : "", o.c_str()); else CHECK(he == RKStatusEnumFault || he == RKStatusEnumNotWired, "relay", "the relay is reported as %s", o.c_str()); if (quiet && w.lasttweeta && sim_now() > w.lasttweeta && sim_now() - w.lasttweeta > 1500 * MS + 40 * (cfg.stall_hi + cfg.jitter_hi) + (ns_t)w.slowz * MS) { CHECK(!hv, "relay", "the relay has been silent for %.1f s, it is reported as %s", 1e-9 * (double)(sim_now() - w.lasttweeta), o.c_str()); sim_probe("relay silent"); } }
        CHECK((a.record && is("Recorder", true, 0)) || (!b.record && is("Recorder", false, 1)) || a.record != b.record, "recorder", "the recorder is %s, reported as %s", a.record ? "on" : "off", obj(s, "Recorder").c_str()); CHECK((a.filter && is("Ring Filter", true, 0)) || (!b.filter && is("Ring Filter", false, 1)) || a.filter != b.filter, "filter", "the filter is %s, reported as %s", a.filter ? "on" : "off", obj(s, "Ring Filter").c_str());
        if (a.host == b.host) { CHECK(is("Internet", a.host == 0, a.host), "internet", "the hosts are %d, reported as %s", a.host, obj(s, "Internet").c_str()); if (a.host == 0) sim_probe("hosts reachable"); }
        CHECK(ok, "report", "the report lacks values: '%s'", s.c_str());
        // critical?
        Yes c = range(r->healths, a.health, b.health, {4}, true); uint64_t z = b.z - a.z; if (c.t && !c.f) sim_probe("critical inspections"); std::set<int> next; for (int k : counts) { if (c.f && z == 0) next.insert(0); if (c.t) { if (k >= MAXIN) { bool susp = pe == RKStatusEnumActive && trx; if (z == (susp ? 1u : 0u)) next.insert(0); } else if (z == 0) next.insert(k + 1); } }
        std::string hist; for (int k : counts) hist += " " + std::to_string(k); CHECK(!next.empty(), "suspend", "%s after%s critical inspections in a row, the health is %s, the pedestal %d", z ? "the radar is suspended" : "the radar is not suspended", hist.c_str(), c.t ? c.f ? "unclear" : "critical" : "not critical", pe); counts = next; if (counts.size() == 1 && *counts.begin() == 0 && c.t && !c.f) sim_probe(z ? "full counts" : "full counts, standing");
    };
    int obs = sim_spawn("observer", [&] { while (!done) { sim_sleep_ns(1 * MS); if (done) break; sim_atomic_begin(); RKSimpleEngine *e = r->systemInspector; if (e && (r->state & RKRadarStateLive) && r->active && (e->state & RKEngineStateSleep1)) { Snap s = snap(); if (!pre.valid || (s.node + hd - pre.node) % hd > 1) { if (pre.valid) sim_probe("missed"); counts.clear(); for (int k = 0; k <= MAXIN; k++) counts.insert(k); last.valid = false; lastt = 0; } else if (s.node != pre.node) { judge(pre, s); if (lastt && cfg.p_stall == 0 && w.slowz == 0) CHECK(sim_now() - lastt < 1 * SEC + 15 * cfg.jitter_hi, "slow", "%.2f s between two inspections", 1e-9 * (double)(sim_now() - lastt)); lastt = sim_now(); last = s; } pre = s; } sim_atomic_end(); } });
    const ns_t B = 60 * SEC + 2000 * (cfg.stall_hi + cfg.jitter_hi); if (Pbool("threadfail", 0.03)) cfg.p_thread_fail = 0.2; bool tf = cfg.p_thread_fail > 0;
    sim_deadline(B, "live-hang", "RKGoLive"); int k = RKGoLive(r); sim_deadline_clear(); cfg.p_thread_fail = 0; if (!tf) CHECK(k == RKResultSuccess, "live", "RKGoLive returns %d", k); ns_t start = sim_now(); uint64_t seen0 = seen; double want = 1000;
    auto config = [&] { sim_atomic_begin(); RKConfig *c = RKGetLatestConfig(r); CHECK(fabs(c->prt[0] * want - 1) < 1e-5, "config", "a PRF of %.1f Hz was set, the radar has a PRT of %g s", want, c->prt[0]); sim_atomic_end(); };
    if (k == RKResultSuccess && wl(2)) { RKSetPRF(r, 1000); config(); }
    // what happens to it
    ns_t run = (ns_t)(2000 + wl(crit ? 45000 : 12000)) * MS, nextc = sim_now() + (ns_t)wl(3000) * MS; if (k == RKResultSuccess) while (sim_now() - start < run) { sim_sleep_ns((ns_t)(1 + wl(60)) * MS);
        if (crit && sim_now() >= nextc) { critical = !critical; where = relay ? (int)wl(3) : 1 + (int)wl(2); if (where == 2 && !trx) where = 1; if (critical) sim_fault_note("critical value"); nextc = sim_now() + (ns_t)(critical ? (crit == 1 ? 4000 + wl(2500) : crit == 2 ? wl(12000) : crit == 3 ? 5000 + wl(20000) : wl(2) ? 4900 + wl(700) : wl(5300)) : crit == 4 ? 50 + wl(700) : wl(3000)) * MS; }
        if (motion == 2 && wl(100) == 0) { mv = !mv; sim_probe("motion changes"); } if (wl(150) == 0) high[wl(3)] = wl(2); if (eras && wl(eras == 1 ? 100 : 300) == 0) pulses = !pulses; if (wl(400) == 0) positions = !positions; if (wl(120) == 0) { bool q = quiet; quiet = wl(3) == 0; if (quiet && !q) w.lasttweeta = sim_now() + 300 * MS; }
        if (wl(80) == 0) switch (wl(6)) { case 0: RKRawDataRecorderSetRecord(r->rawDataRecorder, wl(2)); break; case 1: if (wl(2)) RKPulseRingFilterEngineEnableFilter(r->pulseRingFilterEngine); else RKPulseRingFilterEngineDisableFilter(r->pulseRingFilterEngine); break; case 2: want = (double)(uint32_t)((wl(2) ? 1 : 0.85 + 0.3 * wlf()) * 1e9 / (double)gap); RKSetPRF(r, (uint32_t)want); config(); break; case 3: RKAddConfig(r, RKConfigKeySystemNoise, wlf() * 10, wlf() * 1e4, RKConfigKeyNull); break; case 4: gap = (ns_t)(8 + wl(24)) * MS; break; case 5: if (net != 3) net = (int)wl(3); break; } }
    if (k == RKResultSuccess && seen > 0 && cfg.p_stall == 0 && w.slowz == 0) CHECK(seen - seen0 >= (uint64_t)(run / (600 * MS + 12 * cfg.jitter_hi)), "slow", "%lu inspections in %.1f s", (unsigned long)(seen - seen0), 1e-9 * (double)run); if (k == RKResultSuccess && !tf) CHECK(seen > 0 || cfg.p_stall > 0, "slow", "no inspection in %.1f s", 1e-9 * (double)run);
    done = true; sim_join(obs); uint64_t z = w.z; (void)z; sim_deadline(B + 60 * SEC, "stop-hang", "RKStop"); RKStop(r); sim_deadline_clear(); w.stopping = true; sim_probe("stops"); CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); uint32_t node = r->healthNodes[RKHealthNodeRadarKit].index; sim_sleep_ns(600 * MS); CHECK(r->healthNodes[RKHealthNodeRadarKit].index == node, "stop", "an inspection after the radar has stopped");
    sim_deadline(B, "free-hang", "RKFree"); RKFree(r); sim_deadline_clear(); CHECK(sim_live_code_threads() == 0, "thread", "threads left after the release:%s", sim_thread_dump().c_str()); CHECK(sim_unjoined_threads() == 0, "unjoined", "threads that were never joined are left"); icmp_hook = nullptr; sim_hash(seen);
}
