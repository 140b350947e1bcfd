// C20: the assembled pipeline turns every pulse into rays in order while it is live, and stops whole at any moment
#include "rk.h"
extern "C" { extern RKRadar *RKInitWithDesc(const RKRadarDesc); }
namespace {
struct Fed { RKPulse *p; uint32_t gates; uint64_t h[2]; int calls[2] = {0, 0}; bool has = false, late = false; };
struct Ray { uint64_t first, last; bool begin; };
struct World {
    RKRadar *r; uint32_t depth, ratio; std::deque<Fed> fed; std::vector<Ray> rays; bool values = true, exact = true, changed = false; uint64_t np = 0;
    void (*compress)(RKUserModule, RKCompressionScratch *); int (*moments)(RKMomentScratch *, RKPulse **, const uint16_t);
    bool transceiver = false, pedestal = false, health = false, fini[3] = {false, false, false}; int tid[3] = {-1, -1, -1}, freed[3] = {0, 0, 0}, inits[3] = {0, 0, 0}, discon[3] = {0, 0, 0}, failing = -1; bool pause = false, paused = false; int zcount = 0;
    std::function<void()> run[3];
    bool modules = false; std::set<void *> alive; int made = 0, gone = 0; void (*calibrate)(RKUserModule, RKMomentScratch *);
};
World *W;
int16_t xi(uint64_t id, uint32_t i, int c) { return (int16_t)((id * 7 + i * 3 + c * 11) % 400) - 200; }
int16_t xq(uint64_t id, uint32_t i, int c) { return (int16_t)(id % 97) + (int16_t)i - c; }
uint64_t raw(RKPulse *p, int c, uint32_t g) { return bytes_hash(RKGetInt16CDataFromPulse(p, c), g * sizeof(RKInt16C)); }
RKUserModule module_init(RKWaveform *v) { CHECK(v && v->count > 0, "module", "user module for no waveform"); W->made++; void *m = malloc(16); W->alive.insert(m); return m; }
void module_free(RKUserModule m) { CHECK(W->alive.erase(m), "module", "user module %p released that is none", m); W->gone++; free(m); }
void module_check(void *m, const char *what) { if (W->modules && m) CHECK(W->alive.count(m), "module", "%s with a user module that has been released", what); }
void calibrator(RKUserModule m, RKMomentScratch *s) { module_check(m, "calibrating"); if (wl(8) == 0) sim_yield(); W->calibrate(m, s); module_check(m, "calibrating"); }
void compressor(RKUserModule m, RKCompressionScratch *s) {
    RKPulse *p = s->pulse; uint64_t id = p->header.i; uint32_t st = p->header.s; 
    // which channel: the engine calls for the first, then for the second, each filter by filter
    CHECK(id < W->fed.size() && W->fed[id].p == p && W->fed[id].has, "compress-early", "pulse %lu is compressed although its data are not there yet (status %x)", (unsigned long)id, st);
    Fed &f = W->fed[id];
    CHECK(st & RKPulseStatusHasIQData && !(st & (RKPulseStatusProcessed | RKPulseStatusRingProcessed | RKPulseStatusHasPosition | RKPulseStatusSkipped)), "compress-late", "pulse %lu is compressed in status %x (np %lu calls %d)", (unsigned long)id, st, (unsigned long)W->np, f.calls[0]);
    for (int c = 0; c < 2; c++) CHECK(raw(p, c, f.gates) == f.h[c], "input", "the samples of pulse %lu, channel %d changed before it was compressed", (unsigned long)id, c);
    f.calls[0]++; module_check(m, "compressing"); if (wl(8) == 0) sim_yield();
    W->compress(m, s); module_check(m, "compressing");
    CHECK(p->header.i == id, "recycled", "the slot of pulse %lu was handed out again while it was compressed (np %lu, fl %lu)", (unsigned long)id, W->np, (unsigned long)W->zcount);
    for (int c = 0; c < 2; c++) CHECK(raw(p, c, f.gates) == f.h[c], "input", "the samples of pulse %lu, channel %d changed while it was compressed", (unsigned long)id, c);
}
int processor(RKMomentScratch *s, RKPulse **ps, const uint16_t n) {
    uint64_t a = ps[0]->header.i, b = ps[n - 1]->header.i;
    for (uint16_t k = 0; k < n; k++) {
        RKPulse *p = ps[k]; uint64_t id = a + k; uint32_t st = p->header.s; const uint32_t need = RKPulseStatusProcessed | RKPulseStatusRingProcessed | RKPulseStatusHasPosition;
        auto lapped = [&] { return !W->exact && (b < a || W->np + W->depth / 8 + 2 >= id + W->depth || (st & need) != need); };   // overload: the producer has come round and the slot is being reused
        if (lapped()) continue;
        CHECK(p->header.i == id, "order", "pulse %u of a ray is %lu, its first is %lu", k, (unsigned long)p->header.i, (unsigned long)a);
        CHECK((st & need) == need, "moments-early", "pulse %lu is used for moments in status %x (ray of %lu - %lu, next pulse %lu, depth %u)", (unsigned long)id, st, (unsigned long)a, (unsigned long)b, (unsigned long)W->np, W->depth);
        if (st & RKPulseStatusSkipped) continue;
        CHECK(st & RKPulseStatusCompressed, "moments-early", "pulse %lu is used for moments in status %x, neither compressed nor skipped", (unsigned long)id, st);
        if (id >= W->fed.size() || !W->values) continue;
        Fed &f = W->fed[id]; uint32_t g = p->header.downSampledGateCount, want = (f.gates + W->ratio - 1) / W->ratio;
        CHECK(g == want, "gates", "pulse %lu of %u gates, ratio %u, has %u gates when it is used for moments", (unsigned long)id, f.gates, W->ratio, g);
        for (int c = 0; c < 2; c++) { RKIQZ z = RKGetSplitComplexDataFromPulse(p, c); for (uint32_t o : {0u, g / 2, g - 1}) { double i = xi(id, o * W->ratio, c), q = xq(id, o * W->ratio, c); CHECK(fabs(z.i[o] - i) < 0.05 && fabs(z.q[o] - q) < 0.05 || lapped(), "values", "pulse %lu channel %d gate %u is %.2f%+.2fi when it is used for moments, it was acquired as %.0f%+.0fi (status %x, ray of %lu - %lu, next pulse %lu, depth %u)", (unsigned long)id, c, o, z.i[o], z.q[o], i, q, p->header.s, (unsigned long)a, (unsigned long)b, (unsigned long)W->np, W->depth); } }
        sim_probe("pulses in rays");
    }
    W->rays.push_back({a, b, (ps[0]->header.marker & RKMarkerSweepBegin) != 0});
    int k = W->moments(s, ps, n);
    for (uint16_t j = 0; j < n; j++) CHECK(!W->exact || ps[j]->header.i == a + j, "recycled", "the slot of pulse %lu was handed out again while its ray was computed", (unsigned long)(a + j));
    return k;
}
template <int D> void *dev_init(RKRadar *, void *) { W->inits[D]++; if (W->failing == D) { sim_fault_note("device that does not start"); return nullptr; } if (wl(3) == 0) sim_sleep_ns(wl(50) * MS); W->tid[D] = sim_spawn(D == 0 ? "transceiver" : D == 1 ? "pedestal" : "relay", [] { W->run[D](); }); return (void *)(intptr_t)(100 + D); }
template <int D> int dev_exec(void *dev, const char *cmd, char *resp) {
    CHECK(dev == (void *)(intptr_t)(100 + D), "device", "command '%s' given to device %p", cmd, dev);
    if (!strcmp(cmd, "disconnect")) { W->discon[D]++; W->fini[D] = true; sim_join(W->tid[D]); W->tid[D] = -1; if (resp) strcpy(resp, "ACK. Disconnected.\n"); }
    else { if (!strcmp(cmd, "z")) W->zcount++; if (resp) snprintf(resp, 64, "ACK. %.20s\n", cmd); }
    return RKResultSuccess;
}
template <int D> int dev_free(void *) { W->freed[D]++; return RKResultSuccess; }
}
SCENARIO(pipeline, "C20") {
    World world; W = &world; World &w = world;
    rk_quiet(); chaos(); cfg.max_vtime = 3000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 20 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 20 * MS);
    static const uint32_t pd[] = {80, 128, 240}, rd[] = {8, 40, 100}, sd[] = {64, 100, 160};
    RKRadarDesc d; memset(&d, 0, sizeof d); d.initFlags = RKInitFlagAllocEverything | RKInitFlagSignalProcessor | RKInitFlagPulsePositionCombiner | RKInitFlagPositionSteerEngine; d.initFlags = (RKInitFlag)(d.initFlags | (uint32_t[]){0, RKInitFlagVerbose, RKInitFlagVeryVerbose}[P("verbose", 0, 2)]);
    d.pulseCapacity = 64; d.pulseToRayRatio = 1 + (uint32_t)P("ratio", 0, 1); d.pulseBufferDepth = pd[P("pulses", 0, 2)]; d.rayBufferDepth = d.pulseBufferDepth + rd[P("rays", 0, 2)]; d.positionBufferDepth = sd[P("positions", 0, 2)]; d.healthBufferDepth = 10; d.configBufferDepth = 12; d.healthNodeCount = RKHealthNodeCount; d.statusBufferDepth = 10; d.controlCapacity = d.waveformCalibrationCapacity = 4;
    d.pulseSmoothFactor = 200; d.pulseTicsPerSecond = 1000000; d.positionSmoothFactor = 50; d.positionTicsPerSecond = 1000000; d.wavelength = 0.03; strcpy(d.name, "Sim"); strcpy(d.filePrefix, "SIM"); strcpy(d.dataPath, "data");
    for (const char *n : {"www.ou.edu", "8.8.8.8"}) dns_table[n] = 0x0a010001;
    vfs_mkdirs("/home/radar/data");
    size_t mark = sim_heap_mark(); RKRadar *r = RKInitWithDesc(d); CHECK(r, "init", "no radar"); rk_quiet(); w.r = r; w.depth = d.pulseBufferDepth; w.ratio = d.pulseToRayRatio; uint32_t cd = d.pulseBufferDepth;
    bool poll = Pbool("poll", 0.3);
    RKSetProcessingCoreCounts(r, (uint8_t)P("cores1", 1, 3), (uint8_t)P("cores2", 1, 3), (uint8_t)P("cores3", 1, 3)); r->pulseEngine->useSemaphore = !poll; r->momentEngine->useSemaphore = !poll; r->pulseRingFilterEngine->useSemaphore = !poll; RKSetRecordingLevel(r, (int)P("level", 0, 4));
    w.compress = r->pulseEngine->compressor; r->pulseEngine->compressor = compressor; w.calibrate = r->momentEngine->calibrator; w.modules = Pbool("modules", 0.3); if (w.modules) { RKSetUserModule(r, module_init, module_free, compressor, calibrator); RKSetWaveformToImpulse(r); } w.moments = r->momentEngine->momentProcessor; r->momentEngine->momentProcessor = processor;
    int load = (int)P("load", 0, 3), oper = (int)P("operator", 0, 3), pattern = (int)P("positions", 0, 2); bool crit = Pbool("critical", 0.1), over = load == 3; w.exact = !over;
    w.transceiver = !Pbool("bare", 0.15); w.pedestal = true; w.health = wl(3) != 0; if (Pbool("failing", 0.12)) w.failing = (int)wl(w.transceiver ? 3 : 2) + (w.transceiver ? 0 : 1); if (w.failing == 2) w.health = true;
    ns_t gap = (ns_t)(400 + wl(1600)) * US; uint32_t perray = 4 + (uint32_t)wl(12); if (gap * perray < 3 * MS) gap = 3 * MS / perray + 1; double az0 = 360 * wlf(), t0 = 0; auto az = [&](double t) { return fmod(az0 + (t - t0) / (1e-9 * (double)gap * perray), 360.0); };
    uint64_t lastpos = 0; std::vector<double> ptime; bool stopping = false; double posdone = -1;
    auto inflight = [&] { uint64_t k = 0; for (uint64_t i = w.np; i-- > 0 && w.np - i < cd * 7 / 8;) { RKPulse *q = w.fed[i].p; if (q->header.i == i && !(q->header.s & RKPulseStatusUsedForMoments)) k++; } return k; };
    w.run[0] = [&] { uint32_t gates = 1 + (uint32_t)wl(64); while (!w.fini[0]) {
        if (w.pause || (!w.transceiver && !(r->state & RKRadarStateLive))) { w.paused = true; sim_sleep_ns(5 * MS); continue; } w.paused = false;
        if (wl(200) == 0) gates = 1 + (uint32_t)wl(wl(4) ? 64 : 3);
        RKPulse *p = RKGetVacantPulse(r); uint64_t id = p->header.i;
        CHECK(id == w.np, "vacant-order", "the %luth vacant pulse has counter %lu", (unsigned long)w.np, (unsigned long)id);
        if (wl(20) == 0) sim_sleep_ns(std::min<ns_t>((ns_t)wl(10) * MS, gap * perray / 2));
        p->header.gateCount = gates; p->header.t = sim_now() / 1000; p->header.gateSizeMeters = 30; Fed f; f.p = p; f.gates = gates; w.fed.push_back(f);
        for (int c = 0; c < 2; c++) { RKInt16C *x = RKGetInt16CDataFromPulse(p, c); for (uint32_t i = 0; i < gates; i++) { x[i].i = xi(id, i, c); x[i].q = xq(id, i, c); } if (c == 0 && wl(30) == 0) sim_yield(); }
        for (int c = 0; c < 2; c++) w.fed.back().h[c] = raw(p, c, gates);
        w.fed.back().has = true; if (!(r->state & RKRadarStateLive)) w.fed.back().late = true; w.np++; RKSetPulseHasData(r, p); if (!(p->header.s & RKPulseStatusHasIQData) || !(r->state & RKRadarStateLive)) w.fed.back().late = true;
        ns_t g = gap; if (load == 1) g = wl(10) ? gap / 2 : gap * 6; else if (load == 2) g = wl(40) ? gap : (ns_t)wl(1000) * MS; else if (over) g = gap / std::max(1u, std::min(20u, cd / 4 / perray)); sim_sleep_ns(g);
        // never more than half a ring in flight, but in overload
        if (over) sim_wait_until([&] { return w.fini[0] || inflight() < cd * 13 / 16; }, 600 * SEC, 200 * US); else sim_wait_until([&] { return w.fini[0] || inflight() < cd / 2; }, 600 * SEC, 200 * US); } };
    w.run[1] = [&] { uint32_t last = ~0u; if (t0 == 0) t0 = 1e-9 * (double)sim_now(); while (!w.fini[1]) {
        RKPosition *p = RKGetVacantPosition(r); double t = 1e-9 * (double)sim_now(); p->tic = sim_now() / 1000; p->elevationDegrees = 3; p->azimuthDegrees = (float)az(t); p->sweepElevationDegrees = 3;
        p->flag |= RKPositionFlagAzimuthEnabled | RKPositionFlagElevationEnabled | RKPositionFlagScanActive | RKPositionFlagAzimuthSweep | RKPositionFlagElevationPoint; uint32_t lap = (uint32_t)((t - t0) / (1e-9 * (double)gap * perray) / 30); if (lap != last) { p->flag |= RKPositionFlagAzimuthComplete; last = lap; }
        RKSetPositionReady(r, p); lastpos++; if (wl(3) == 0) RKGetScanAction(r, p); sim_sleep_ns(pattern == 1 ? (ns_t)wl(16) * MS : pattern == 2 && wl(50) == 0 ? (ns_t)wl(500) * MS : 8 * MS); } };
    w.run[2] = [&] { uint64_t k = 0; while (!w.fini[2]) { RKHealth *h = RKGetVacantHealth(r, RKHealthNodeTweeta); if (h) { snprintf(h->string, sizeof h->string, "{\"Count\":{\"Value\":\"%lu\",\"Enum\":0},\"Temperature\":{\"Value\":\"%u\",\"Enum\":%d}}", (unsigned long)k++, (unsigned)wl(100), crit ? RKStatusEnumCritical : wl(9) == 0 ? RKStatusEnumHigh : 0); RKSetHealthReady(r, h); } sim_sleep_ns((ns_t)(100 + wl(400)) * MS); } };
    if (w.transceiver) RKSetTransceiver(r, nullptr, dev_init<0>, dev_exec<0>, dev_free<0>); RKSetPedestal(r, nullptr, dev_init<1>, dev_exec<1>, dev_free<1>); if (w.health) RKSetHealthRelay(r, nullptr, dev_init<2>, dev_exec<2>, dev_free<2>);
    const ns_t B = 60 * SEC + 2000 * (cfg.stall_hi + cfg.jitter_hi);
    sim_deadline(B, "live-hang", "RKGoLive"); int k = RKGoLive(r); sim_deadline_clear();
    if (w.failing >= 0) CHECK(k != RKResultSuccess, "live", "a device that fails to start is not reported"); else CHECK(k == RKResultSuccess, "live", "RKGoLive returns %d", k);
    int ext = -1; if (!w.transceiver && k == RKResultSuccess) ext = sim_spawn("pulses", [&] { w.run[0](); });
    int op = -1; bool quitop = false; auto gone = [&] { return quitop || stopping; };
    if (oper && k == RKResultSuccess) op = sim_spawn("operator", [&] { char s[RKMaximumPacketSize / 64]; while (!gone()) {
        sim_sleep_ns((ns_t)wl(oper == 3 ? 1500 : 150) * MS); if (gone()) break; s[0] = 0; sim_probe("operator actions");
        static const char *cmds[] = {"dn 0.5 0.7", "dn", "dq 0.2", "dt 3", "df 0", "r 1", "r 0", "r", "v pp 2,4 0 18", "t status", "p status", "dm", "b", "df 1 20", "df 2", "dm 0"};
        switch (wl(oper == 1 ? 3 : 6)) {
            case 0: RKSetPRF(r, 500 + (uint32_t)wl(1000)); break;
            case 1: { size_t c = wl(sizeof cmds / sizeof *cmds - (oper == 3 ? 0 : 3)); if (!w.transceiver && cmds[c][0] == 't') break; if (c >= 13) { w.values = false; if (c == 15) w.changed = true; } RKExecuteCommand(r, cmds[c], s); break; }
            case 2: RKSetRecordingLevel(r, (int)wl(5)); break;
            case 3: { RKWaveform *v = RKWaveformInitAsImpulse(); RKSetWaveform(r, v); RKWaveformFree(v); sim_probe("waveform changes"); break; }
            case 4: if (oper < 3) break; { w.values = false; RKWaveform *v = RKWaveformInitAsLinearFrequencyModulation(1e6, 0, 1e-6 * (1 + (double)wl(8)), 0.5e6); if (v) { RKSetWaveform(r, v); RKWaveformFree(v); sim_probe("waveform changes"); } break; }
            case 5: RKGetLatestPulse(r); RKGetLatestRay(r); RKGetLatestPosition(r); RKGetLatestHealth(r); break;
        } } });
    // rays come out in order, each complete
    uint64_t rn = 0; uint32_t rk = 0; int skipped = 0; double lt = 0; auto watch = [&] { if (w.changed) return; sim_atomic_begin(); while (rk != r->rayIndex) { RKRay *y = RKGetRayFromBuffer(r->rays, rk); if (y->header.s == RKRayStatusVacant) { sim_probe("rays released at once"); rn++; rk = RKNextModuloS(rk, d.rayBufferDepth); continue; } CHECK(y->header.s & RKRayStatusReady, "ray", "ray %lu is passed on in status %x", (unsigned long)rn, y->header.s); if (y->header.s & RKRayStatusSkipped) skipped++; else { CHECK(y->header.startTimeDouble >= lt - 1e-3, "ray-order", "ray %lu starts at %.6f, the one before at %.6f", (unsigned long)rn, y->header.startTimeDouble, lt); lt = y->header.startTimeDouble; sim_probe("rays"); } rn++; rk = RKNextModuloS(rk, d.rayBufferDepth); } sim_atomic_end(); };
    if (k == RKResultSuccess) {
        bool judge = wl(2); ns_t until = sim_now() + (judge ? (ns_t)(500 + wl(crit ? 20000 : 4000)) * MS : wl(3) ? (ns_t)wl(1500) * MS : 0);
        while (sim_now() < until) { sim_sleep_ns(3 * MS); watch(); }
        if (judge) { // all that was acquired gets through
            sim_calm(); sim_deadline(120 * SEC, "stuck", "all engines are running, yet pulses do not get through"); uint64_t n = w.np + 5; sim_wait_until([&] { watch(); return w.np > n; }, 100 * SEC, 3 * MS);
            quitop = true; if (op >= 0) { sim_join(op); op = -1; } n = w.np; w.pause = true; sim_wait_until([&] { watch(); return w.paused; }, 600 * SEC, 3 * MS); n = w.np;
            sim_wait_until([&] { watch(); for (uint64_t i = n; i-- > 0 && n - i <= cd * 3 / 4;) { RKPulse *q = w.fed[i].p; if (!(q->header.s & RKPulseStatusHasPosition)) return false; } return true; }, 600 * SEC, 3 * MS); sim_deadline_clear();
            sim_probe("pipelines drained");
            for (uint64_t i = n; i-- > 0 && n - i <= cd * 3 / 4;) { RKPulse *q = w.fed[i].p; const uint32_t need = RKPulseStatusHasIQData | RKPulseStatusProcessed | RKPulseStatusRingProcessed | RKPulseStatusHasPosition; CHECK(q->header.i == i && (q->header.s & need) == need, "incomplete", "pulse %lu of %lu has status %x after the pipeline has drained", (unsigned long)i, (unsigned long)n, q->header.s); }
            for (uint64_t i = 0; i < n; i++) { Fed &f = w.fed[i]; if (f.late) continue; if (!over && cfg.p_stall == 0) CHECK(f.calls[0] > 0, "lost", "pulse %lu was never compressed", (unsigned long)i); if (w.values) CHECK(f.calls[0] <= 1, "twice", "pulse %lu was compressed %d times", (unsigned long)i, f.calls[0]); }
            // the rays cover the pulses
            if (!w.changed && !over) { std::sort(w.rays.begin(), w.rays.end(), [](const Ray &a, const Ray &b) { return a.first < b.first; }); for (size_t i = 1; i < w.rays.size(); i++) { Ray &a = w.rays[i - 1], &b = w.rays[i]; CHECK(b.first >= a.last, "overlap", "two rays are computed from pulses %lu - %lu and %lu - %lu", (unsigned long)a.first, (unsigned long)a.last, (unsigned long)b.first, (unsigned long)b.last); if (b.first > a.last + 4 && !b.begin && !skipped)   // no ray is made of three pulses or less
                     sim_fail("gap", "no ray is computed from pulses %lu - %lu (rays of %lu - %lu and %lu - %lu, no sweep begins)", (unsigned long)a.last + 1, (unsigned long)b.first - 1, (unsigned long)a.first, (unsigned long)a.last, (unsigned long)b.first, (unsigned long)b.last); }
                if (cfg.p_stall == 0 && cfg.p_jitter == 0 && load == 0 && oper == 0 && perray >= 8) CHECK(skipped <= 2 + (int)rn / 10, "skipped", "%d of %lu rays skipped although the load is low", skipped, (unsigned long)rn); }
            w.pause = false; if (wl(2)) sim_sleep_ns(wl(100) * MS);
        }
    }
    stopping = true; sim_deadline(B, "stop-hang", "RKStop"); int q = RKStop(r); sim_deadline_clear(); sim_probe("stops");
    if (k == RKResultSuccess) CHECK(q == RKResultSuccess, "stop", "RKStop returns %d", q); else CHECK(q != RKResultSuccess, "stop", "RKStop of a radar that is not live returns success");
    CHECK(!(r->state & RKRadarStateLive) && !r->active, "stop", "the radar is still live after RKStop");
    if (ext >= 0) { w.fini[0] = true; sim_join(ext); }
    if (op >= 0) sim_join(op);
    for (int i = 0; i < 3; i++) if (w.inits[i] && w.failing != i) CHECK(w.discon[i] == 1, "device", "device %d was told to disconnect %d times", i, w.discon[i]);
    CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); CHECK(sim_open_fds() == 0 && sim_open_streams() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str());
    if (wl(3) == 0) { sim_deadline(B, "stop-hang", "second RKStop"); q = RKStop(r); sim_deadline_clear(); CHECK(q == RKResultEngineDeactivatedMultipleTimes, "again", "the second RKStop returns %d", q); }
    sim_deadline(B, "free-hang", "RKFree"); RKFree(r); sim_deadline_clear();
    for (int i = 0; i < 3; i++) CHECK(w.freed[i] == (w.inits[i] && w.failing != i ? 1 : 0), "device", "device %d was started %d times and released %d times", i, w.inits[i] - (w.failing == i), w.freed[i]);
    CHECK(sim_live_code_threads() == 0, "thread", "threads left after the release:%s", sim_thread_dump().c_str()); CHECK(sim_unjoined_threads() == 0, "unjoined", "threads that were never joined are left"); CHECK(sim_open_fds() == 0 && sim_open_streams() == 0, "leak", "descriptors left after the release:%s", sim_fd_dump().c_str());
    CHECK(w.alive.empty(), "module", "%d user modules made, %d released", w.made, w.gone);
    size_t left = sim_heap_live_since(mark); CHECK(left == 0, "memory", "%zu bytes left after the release:\n%s", left, sim_heap_dump(mark).c_str());
    for (Ray &y : w.rays) sim_hash(y.last); (void)ptime; (void)posdone;
}
