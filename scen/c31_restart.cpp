// C31: a soft restart of a live radar brings all engines back with their settings; what is acquired after it goes through, what was before it is gone
#include "rk.h"
extern "C" { extern RKRadar *RKInitWithDesc(const RKRadarDesc); extern int RKSoftRestart(RKRadar *); }
namespace {
struct World { RKRadar *r; bool fini[3] = {false, false, false}, restarting = false; int tid[3] = {-1, -1, -1}, busy[3] = {0, 0, 0}; std::function<void()> run[3]; uint64_t np = 0, npos = 0, nh = 0; std::vector<RKPulse *> fed; } *W;
template <int D> void *dev_init(RKRadar *, void *) { W->tid[D] = sim_spawn(D == 0 ? "transceiver" : D == 1 ? "pedestal" : "relay", [] { W->run[D](); }); return (void *)(intptr_t)(100 + D); }
template <int D> int dev_exec(void *, const char *cmd, char *resp) { if (!strcmp(cmd, "disconnect")) { W->fini[D] = true; sim_join(W->tid[D]); } if (resp) strcpy(resp, "ACK." RKEOL); return RKResultSuccess; }
template <int D> int dev_free(void *) { return RKResultSuccess; }
int16_t xi(uint64_t id, uint32_t i, int c) { return (int16_t)((id * 7 + i * 3 + c * 11) % 400) - 200; }
}
SCENARIO(restart, "C31") {
    World world; W = &world; World &w = world; rk_quiet(); chaos(); cfg.max_vtime = 3000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 20 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 20 * MS);
    RKRadarDesc d; memset(&d, 0, sizeof d); d.initFlags = RKInitFlagAllocEverything | RKInitFlagSignalProcessor | RKInitFlagPulsePositionCombiner | RKInitFlagPositionSteerEngine; d.initFlags = (RKInitFlag)(d.initFlags | (uint32_t[]){0, RKInitFlagVerbose, RKInitFlagVeryVerbose}[P("verbose", 0, 2)]);
    d.pulseCapacity = 64; d.pulseToRayRatio = 1; d.pulseBufferDepth = (uint32_t[]){80, 128}[P("pulses", 0, 1)]; d.rayBufferDepth = d.pulseBufferDepth + 20; d.positionBufferDepth = (uint32_t[]){64, 160}[P("positions", 0, 1)]; d.healthBufferDepth = 10; d.configBufferDepth = 12; d.healthNodeCount = RKHealthNodeCount; d.statusBufferDepth = 10; d.controlCapacity = d.waveformCalibrationCapacity = 4;
    d.pulseSmoothFactor = 200; d.pulseTicsPerSecond = 1000000; d.positionSmoothFactor = 50; d.positionTicsPerSecond = 1000000; d.wavelength = 0.03; strcpy(d.name, "Sim"); strcpy(d.filePrefix, "SIM"); strcpy(d.dataPath, "data");
    for (const char *n : {"www.ou.edu", "8.8.8.8"}) dns_table[n] = 0x0a010001; vfs_mkdirs("/home/radar/data");
    size_t mark = sim_heap_mark(); RKRadar *r = RKInitWithDesc(d); CHECK(r, "init", "no radar"); rk_quiet(); w.r = r; d = r->desc; uint32_t cd = d.pulseBufferDepth; bool poll = Pbool("poll", 0.3);
    RKSetProcessingCoreCounts(r, (uint8_t)P("cores1", 1, 3), (uint8_t)P("cores2", 1, 3), (uint8_t)P("cores3", 1, 3)); r->pulseEngine->useSemaphore = !poll; r->momentEngine->useSemaphore = !poll; r->pulseRingFilterEngine->useSemaphore = !poll;
    bool polite = !Pbool("impolite", 0.3), relay = Pbool("relay", 0.6); ns_t gap = (ns_t)(400 + wl(2600)) * US; uint32_t perray = 4 + (uint32_t)wl(12); if (gap * perray < 4 * MS) gap = 4 * MS / perray + 1; double az0 = 360 * wlf(), t0 = 1e-9 * (double)sim_now(); auto az = [&](double t) { return fmod(az0 + (t - t0) / (1e-9 * (double)gap * perray), 360.0); };
    bool pause = false; int paused[3] = {0, 0, 0}; auto held = [&](int k) { if ((polite && !(r->state & RKRadarStateLive)) || (pause && k == 0)) { paused[k] = 1; return true; } paused[k] = 0; return false; };
    auto inflight = [&] { uint64_t k = 0; for (uint64_t i = w.np; i-- > 0 && w.np - i < cd * 7 / 8;) { RKPulse *q = w.fed[i]; if (q->header.i == i && !(q->header.s & RKPulseStatusUsedForMoments)) k++; } return k; };
    w.run[0] = [&] { while (!w.fini[0]) { if (held(0)) { sim_sleep_ns(3 * MS); continue; } w.busy[0] = 1; if (held(0)) { w.busy[0] = 0; continue; } RKPulse *p = RKGetVacantPulse(r); if (polite) { CHECK(p->header.i == w.np, "vacant-order", "the %luth pulse since the restart has counter %lu", (unsigned long)w.np, (unsigned long)p->header.i); w.fed.push_back(p); }
        p->header.gateCount = 32; p->header.t = sim_now() / 1000; p->header.gateSizeMeters = 30; for (int c = 0; c < 2; c++) { RKInt16C *x = RKGetInt16CDataFromPulse(p, c); for (uint32_t i = 0; i < 32; i++) { x[i].i = xi(p->header.i, i, c); x[i].q = (int16_t)(i + (uint32_t)c); } }
        RKSetPulseHasData(r, p); w.np++; w.busy[0] = 0; sim_sleep_ns(gap); if (polite) sim_wait_until([&] { return w.fini[0] || !(r->state & RKRadarStateLive) || inflight() < cd / 2; }, 600 * SEC, 200 * US); } };
    w.run[1] = [&] { while (!w.fini[1]) { if (held(1)) { sim_sleep_ns(3 * MS); continue; } w.busy[1] = 1; if (held(1)) { w.busy[1] = 0; continue; } RKPosition *p = RKGetVacantPosition(r); if (p) { if (polite && r->state & RKRadarStateLive) CHECK(p->i == w.npos, "position-order", "the %luth position since the restart has counter %lu", (unsigned long)w.npos, (unsigned long)p->i); p->tic = sim_now() / 1000; p->elevationDegrees = 3; p->azimuthDegrees = (float)az(1e-9 * (double)sim_now()); p->sweepElevationDegrees = 3; p->flag |= RKPositionFlagAzimuthEnabled | RKPositionFlagElevationEnabled | RKPositionFlagScanActive | RKPositionFlagAzimuthSweep | RKPositionFlagElevationPoint; RKSetPositionReady(r, p); w.npos++; } w.busy[1] = 0; sim_sleep_ns(8 * MS); } };
    w.run[2] = [&] { uint64_t k = 0; while (!w.fini[2]) { if (held(2)) { sim_sleep_ns(3 * MS); continue; } w.busy[2] = 1; if (held(2)) { w.busy[2] = 0; continue; } RKHealth *h = RKGetVacantHealth(r, RKHealthNodeTweeta); if (h) { if (polite && r->state & RKRadarStateLive) CHECK(h->i == w.nh, "health-order", "the %luth health report since the restart has counter %lu", (unsigned long)w.nh, (unsigned long)h->i); snprintf(h->string, sizeof h->string, "{\"Count\":{\"Value\":\"%lu\",\"Enum\":0}}", (unsigned long)k++); RKSetHealthReady(r, h); w.nh++; } w.busy[2] = 0; sim_sleep_ns((ns_t)(50 + wl(200)) * MS); } };
    RKSetTransceiver(r, nullptr, dev_init<0>, dev_exec<0>, dev_free<0>); RKSetPedestal(r, nullptr, dev_init<1>, dev_exec<1>, dev_free<1>); if (relay) RKSetHealthRelay(r, nullptr, dev_init<2>, dev_exec<2>, dev_free<2>);
    if (wl(5) == 0) CHECK(RKSoftRestart(r) == RKResultRadarNotLive, "not-live", "a radar that is not live is restarted");
    const ns_t B = 60 * SEC + 2000 * (cfg.stall_hi + cfg.jitter_hi); sim_deadline(B, "live-hang", "RKGoLive"); int k = RKGoLive(r); sim_deadline_clear(); CHECK(k == RKResultSuccess, "live", "RKGoLive returns %d", k);
    int n = 1 + (int)wl(3); bool waves = wl(2);
    for (int round = 0; round <= n; round++) {
        // for a while, everything goes through
        ns_t run = (ns_t)wl(wl(3) ? 400 : 2500) * MS, t = sim_now(); char resp[RKMaximumStringLength]; while (sim_now() - t < run) { sim_sleep_ns((ns_t)(1 + wl(20)) * MS); if (wl(15) == 0) switch (wl(5)) { case 0: RKSetPRF(r, 500 + (uint32_t)wl(1000)); break; case 1: RKExecuteCommand(r, wl(2) ? "dn 0.5 0.7" : "dt 3", resp); break; case 2: if (waves) { RKWaveform *v = RKWaveformInitAsImpulse(); RKSetWaveform(r, v); RKWaveformFree(v); } break; case 3: RKRawDataRecorderSetRecord(r->rawDataRecorder, wl(2)); break; case 4: RKExecuteCommand(r, "df 0", resp); break; } }
        if (wl(2) || round == n) { // drained
            sim_calm(); sim_deadline(150 * SEC, "stuck", "all engines are running, yet pulses do not get through"); uint64_t m = w.np + 8; sim_wait_until([&] { return w.np > m; }, 100 * SEC, 3 * MS);
            if (polite) { pause = true; sim_wait_until([&] { return paused[0] && !w.busy[0]; }, 100 * SEC, 3 * MS); m = w.np; const uint32_t need = RKPulseStatusHasIQData | RKPulseStatusProcessed | RKPulseStatusRingProcessed | RKPulseStatusHasPosition; uint64_t from = m > cd * 3 / 4 ? m - cd * 3 / 4 : 0; sim_wait_until([&] { for (uint64_t i = from; i < m; i++) if ((w.fed[i]->header.s & need) != need) return false; return true; }, 600 * SEC, 3 * MS);
                for (uint64_t i = from; i < m; i++) { RKPulse *p = w.fed[i]; CHECK(p->header.i == i, "pulse", "pulse %lu is %lu", (unsigned long)i, (unsigned long)p->header.i); if (p->header.s & RKPulseStatusSkipped) { sim_probe("skipped"); continue; } CHECK(p->header.s & RKPulseStatusCompressed, "pulse", "pulse %lu has status %x after %d restarts", (unsigned long)i, p->header.s, round); for (int c = 0; c < 2; c++) { RKIQZ z = RKGetSplitComplexDataFromPulse(p, c); for (uint32_t g : {0u, 13u, 31u}) CHECK(fabs(z.i[g] - xi(i, g, c)) < 0.05 && fabs(z.q[g] - (float)(g + (uint32_t)c)) < 0.05, "values", "pulse %lu gate %u is %.2f%+.2fi, it was acquired as %d%+di, after %d restarts", (unsigned long)i, g, z.i[g], z.q[g], xi(i, g, c), (int)g + c, round); } sim_probe("pulses through"); }
                for (uint32_t k = 0; k < d.rayBufferDepth; k++) { RKRay *y = RKGetRayFromBuffer(r->rays, k); if (y->header.s & RKRayStatusReady) CHECK(y->header.i <= w.np, "ray-order", "a ray has number %lu although there were only %lu pulses since the restart", (unsigned long)y->header.i, (unsigned long)w.np); }
                pause = false; uint64_t r0 = r->rayIndex; if (wl(2)) { sim_wait_until([&] { return r->rayIndex != r0; }, 100 * SEC, 3 * MS); sim_probe("rays"); } }
            else { uint32_t q = r->rayIndex; sim_wait_until([&] { return r->rayIndex != q; }, 140 * SEC, 3 * MS); sim_probe("rays"); }
            uint32_t h = r->healthIndex, q = r->healthNodes[RKHealthNodeRadarKit].index; if (wl(2)) { sim_wait_until([&] { return r->healthIndex != h && r->healthNodes[RKHealthNodeRadarKit].index != q; }, 100 * SEC, 3 * MS); sim_probe("healths"); }
            sim_deadline_clear(); sim_probe("drained"); }
        if (round == n) break;
        // the restart
        sim_deadline_clear(); int threads = sim_live_code_threads(); bool record = r->rawDataRecorder->record, filter = r->pulseRingFilterEngine->useFilter; RKConfig c0 = *RKGetLatestConfig(r); auto mp = r->momentEngine->momentProcessor; double before = 1e-6 * (double)(sim_now() / 1000); (void)before; sim_fault_note("soft restart"); ns_t ts = sim_now();
        sim_deadline(B, "restart-hang", "RKSoftRestart"); w.restarting = true;
        int rr; if (polite) { // the devices notice that the radar is not live and start over
            int waiter = sim_spawn("devices", [&] { sim_wait_until([&] { return !(r->state & RKRadarStateLive) || !w.restarting; }, 600 * SEC, 20 * US); sim_wait_until([&] { return !w.busy[0]; }, 600 * SEC, 20 * US); w.np = 0; w.fed.clear(); sim_wait_until([&] { return !w.busy[1]; }, 600 * SEC, 20 * US); w.npos = 0; sim_wait_until([&] { return !w.busy[2]; }, 600 * SEC, 20 * US); w.nh = 0; }); rr = RKSoftRestart(r); w.restarting = false; (void)waiter; uint32_t ri = r->rayIndex, hi = r->healthIndex; sim_join(waiter); CHECK(ri <= w.np + 1, "ray-order", "%u rays after the restart, from %lu pulses", ri, (unsigned long)w.np); CHECK(hi <= 4 || sim_now() - ts > 3 * SEC, "health-order", "the radar comes back with %u healths", hi); }
        else { if (wl(2)) { char s[200] = ""; RKExecuteCommand(r, "dr", s); CHECK(!strncmp(s, "ACK", 3), "restart", "the reply is '%s'", s); rr = RKResultSuccess; } else rr = RKSoftRestart(r); w.restarting = false; }
        sim_deadline_clear(); sim_probe("restarts"); CHECK(rr == RKResultSuccess, "restart", "RKSoftRestart returns %d", rr); CHECK(r->state & RKRadarStateLive, "restart", "the radar is not live after the restart"); CHECK(sim_now() - ts < B, "restart", "slow");
        CHECK(sim_live_code_threads() == threads, "thread", "%d threads before the restart, %d after it:%s", threads, sim_live_code_threads(), sim_thread_dump().c_str());
        RKConfig *c1 = RKGetLatestConfig(r); CHECK(c1->prt[0] == c0.prt[0] && c1->noise[0] == c0.noise[0] && c1->noise[1] == c0.noise[1] && c1->SNRThreshold == c0.SNRThreshold && c1->waveform && !strcmp(c1->waveformName, c0.waveformName), "settings", "the configuration after the restart: PRT %g (%g), noise %g (%g), SNR %g (%g), waveform '%s' ('%s')", c1->prt[0], c0.prt[0], c1->noise[0], c0.noise[0], c1->SNRThreshold, c0.SNRThreshold, c1->waveformName, c0.waveformName);
        CHECK(r->rawDataRecorder->record == record && r->pulseRingFilterEngine->useFilter == filter && r->momentEngine->momentProcessor == mp, "settings", "the recorder, the filter or the method changed");
        for (RKEngineState s : {r->pulseEngine->state, r->pulseRingFilterEngine->state, r->positionEngine->state, r->momentEngine->state, r->healthEngine->state, r->healthLogger->state, r->rawDataRecorder->state, r->sweepEngine->state, r->systemInspector->state}) CHECK(s & RKEngineStateWantActive, "engine", "an engine is in state %x after the restart", s);
    }
    sim_deadline(B, "stop-hang", "RKStop"); RKStop(r); sim_deadline_clear(); sim_probe("stops"); CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); CHECK(sim_open_fds() == 0 && sim_open_streams() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str());
    sim_deadline(B, "free-hang", "RKFree"); RKFree(r); sim_deadline_clear(); CHECK(sim_live_code_threads() == 0, "thread", "threads left after the release:%s", sim_thread_dump().c_str()); CHECK(sim_unjoined_threads() == 0, "unjoined", "threads that were never joined are left"); size_t left = sim_heap_live_since(mark); CHECK(left == 0, "memory", "%zu bytes left after the release:\n%s", left, sim_heap_dump(mark).c_str()); sim_hash(w.np);
}
