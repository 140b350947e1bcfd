// C10: every engine can be started and stopped at any moment without hang or damage
#include "rk.h"
extern "C" { extern RKRadar *RKInitWithDesc(const RKRadarDesc); }
namespace {
struct Eng { const char *name; std::function<int()> start, stop; std::function<uint32_t()> state; bool on = false; int threads = 0; };
}
SCENARIO(startstop, "C10") {
    rk_quiet(); chaos(); cfg.max_vtime = 3000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 20 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 20 * MS);
    static const uint32_t pd[] = {80, 100, 160}, rd[] = {24, 40, 80}, sd[] = {64, 100, 160};
    RKRadarDesc d; memset(&d, 0, sizeof d); d.initFlags = RKInitFlagAllocEverything | RKInitFlagSignalProcessor | RKInitFlagPulsePositionCombiner | RKInitFlagPositionSteerEngine;
    d.pulseCapacity = 64; d.pulseToRayRatio = 1 + (uint32_t)P("ratio", 0, 1); d.pulseBufferDepth = pd[P("pulses", 0, 2)]; d.rayBufferDepth = rd[P("rays", 0, 2)]; d.positionBufferDepth = sd[P("positions", 0, 2)]; d.healthBufferDepth = 10; d.configBufferDepth = 12; d.healthNodeCount = RKHealthNodeCount; d.statusBufferDepth = 10; d.controlCapacity = d.waveformCalibrationCapacity = 4;
    d.pulseSmoothFactor = 200; d.pulseTicsPerSecond = 1000000; d.positionSmoothFactor = 50; d.positionTicsPerSecond = 1000000; d.wavelength = 0.03; strcpy(d.name, "Sim"); strcpy(d.filePrefix, "SIM"); strcpy(d.dataPath, "data");
    for (const char *n : {"www.ou.edu", "8.8.8.8"}) dns_table[n] = 0x0a010001;
    vfs_mkdirs("/home/radar/data"); int rounds = (int)P("rounds", 1, 3); bool tfail = Pbool("threadfail", 0.3), poll = Pbool("poll", 0.3), whole = Pbool("whole", 0.5);
    size_t mark = sim_heap_mark(); RKRadar *r = RKInitWithDesc(d); CHECK(r, "init", "no radar"); rk_quiet();
    RKSetProcessingCoreCounts(r, (uint8_t)P("cores1", 1, 3), (uint8_t)P("cores2", 1, 3), (uint8_t)P("cores3", 1, 3)); r->pulseEngine->useSemaphore = !poll; r->momentEngine->useSemaphore = !poll; r->pulseRingFilterEngine->useSemaphore = !poll; RKSetRecordingLevel(r, (int)P("level", 0, 2));
    const ns_t B = 8 * SEC + 200 * (cfg.stall_hi + cfg.jitter_hi);
    std::vector<Eng> es; auto add = [&](const char *n, std::function<int()> a, std::function<int()> b, std::function<uint32_t()> s) { es.push_back({n, a, b, s}); };
#define ENG(N, F, S) add(N, [r] { return (int)F##Start(r->S); }, [r] { return (int)F##Stop(r->S); }, [r] { return (uint32_t)r->S->state; })
    ENG("pulse", RKPulseEngine, pulseEngine); ENG("ring", RKPulseRingFilterEngine, pulseRingFilterEngine); ENG("position", RKPositionEngine, positionEngine); ENG("moment", RKMomentEngine, momentEngine); ENG("sweep", RKSweepEngine, sweepEngine); ENG("health", RKHealthEngine, healthEngine); ENG("healthlog", RKHealthLogger, healthLogger); ENG("recorder", RKRawDataRecorder, rawDataRecorder); ENG("files", RKFileManager, fileManager); ENG("steer", RKSteerEngine, steerEngine); ENG("hosts", RKHostMonitor, hostMonitor);
#undef ENG
    const uint32_t idle = RKEngineStateAllocated | RKEngineStateProperlyWired;
    auto shuffle = [&](std::vector<int> v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[wl(i)]); return v; };
    std::vector<int> all; for (size_t i = 0; i < es.size(); i++) all.push_back((int)i);
    auto start = [&](int i, bool must) { Eng &e = es[i]; int n = sim_live_code_threads(); sim_note("start %s", e.name); sim_deadline(B, "start-hang", e.name); int k = e.start(); sim_deadline_clear(); if (k == RKResultSuccess) { e.on = true; } else { CHECK(!must, "start", "%s does not start: %d", e.name, k); sim_probe("failed starts"); CHECK(sim_live_code_threads() <= n, "thread", "%s: threads left after a failed start:%s", e.name, sim_thread_dump().c_str()); CHECK(e.state() == idle, "state", "%s is in state %04x after a failed start", e.name, e.state()); } };
    auto again = [&](int i) { Eng &e = es[i]; sim_deadline(B, "stop-hang", e.name); int k = e.stop(); sim_deadline_clear(); CHECK(k != RKResultSuccess, "again", "%s, not running, reports success for another stop", e.name); CHECK(e.state() == idle, "state", "%s is in state %04x after another stop", e.name, e.state()); sim_probe("stops again"); };
    auto stop = [&](int i) { Eng &e = es[i]; if (!e.on) { if (wl(3) == 0) again(i); return; } sim_note("stop %s", e.name); sim_deadline(B, "stop-hang", e.name); int k = e.stop(); sim_deadline_clear(); e.on = false; sim_note("stopped %s", e.name); sim_probe("stops"); CHECK(k == RKResultSuccess, "stop", "stopping %s: %d", e.name, k); CHECK(e.state() == idle, "state", "%s is in state %04x after the stop", e.name, e.state()); bool any = false; for (Eng &x : es) any |= x.on; if (!any) CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); if (wl(4) == 0) again(i); };
    size_t base = 0; std::string basedump; uint32_t cd = d.pulseBufferDepth;
    for (int round = 0; round < rounds; round++) {
        if (round) { // what a soft restart resets
            r->statusIndex = r->healthIndex = r->positionIndex = r->pulseIndex = r->rayIndex = 0; for (uint32_t k = 0; k < r->desc.healthNodeCount; k++) r->healthNodes[k].index = 0;
            memset(r->healths, 0, r->desc.healthBufferDepth * sizeof(RKHealth)); for (uint32_t i = 0; i < r->desc.healthBufferDepth; i++) { r->healths[i].i = -(uint64_t)r->desc.healthBufferDepth + i; }
            for (uint32_t k = 0; k < r->desc.healthNodeCount; k++) { memset(r->healthNodes[k].healths, 0, r->desc.healthBufferDepth * sizeof(RKHealth)); for (uint32_t i = 0; i < r->desc.healthBufferDepth; i++) r->healthNodes[k].healths[i].i = -(uint64_t)r->desc.healthBufferDepth + i; }
            memset(r->positions, 0, r->desc.positionBufferDepth * sizeof(RKPosition)); for (uint32_t i = 0; i < r->desc.positionBufferDepth; i++) r->positions[i].i = -(uint64_t)r->desc.positionBufferDepth + i;
            RKClearPulseBuffer(r->pulses, r->desc.pulseBufferDepth); RKClearRayBuffer(r->rays, r->desc.rayBufferDepth); size_t b0 = 0, b1 = 0; sim_heap_live(&b0); RKSetWaveform(r, r->waveform); sim_heap_live(&b1); if (base && b1 > b0) base += b1 - b0; /* the replaced waveform is kept while configurations refer to it */ for (uint32_t i = 0; i < d.configBufferDepth; i++) { r->configs[i].waveform = r->waveform; r->configs[i].waveformDecimate = r->waveformDecimate; } sim_probe("restarts"); }
        bool full = whole || wl(2); std::vector<int> use; for (int i : all) if ((i == 8 || i == 10) ? wl(3) == 0 : full || wl(3)) use.push_back(i);
        if (tfail && wl(2)) { cfg.p_thread_fail = 0.3; for (int i : shuffle(use)) start(i, false); cfg.p_thread_fail = 0; for (int i : shuffle(use)) stop(i); for (Eng &e : es) e.on = false; CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); }
        r->state = (RKRadarState)(r->state | RKRadarStateLive);
        bool early = wl(3) == 0; if (!early) for (int i : shuffle(use)) start(i, true);
        // the world: pulses, positions and health reports at some pace, or none
        int pm = (int)wl(4), sm = (int)wl(4), hm = (int)wl(4); bool judge = full && !early && wl(2); if (judge) pm = sm = hm = 1; bool fini = false; uint64_t np = 0, fed = 0; ns_t gap = (ns_t)(500 + wl(1500)) * US; uint32_t perray = 4 + (uint32_t)wl(12); if (gap * perray < 3 * MS) gap = 3 * MS / perray + 1; uint32_t gates = 1 + (uint32_t)wl(64); double az0 = 360 * wlf(), t0 = 0; auto az = [&](double t) { return fmod(az0 + (t - t0) / (1e-9 * (double)gap * perray), 360.0); }; t0 = 1e-9 * (double)sim_now();
        int tp = sim_spawn("pulses", [&] { if (pm == 0) return; while (!fini) {
            sim_atomic_begin(); RKPulse *p = RKGetVacantPulse(r); p->header.gateCount = gates; p->header.t = sim_now() / 1000; p->header.timeDouble = 0; p->header.time.tv_sec = 0; p->header.gateSizeMeters = 30; for (int c = 0; c < 2; c++) { RKInt16C *x = RKGetInt16CDataFromPulse(p, c); for (uint32_t i = 0; i < gates; i++) { x[i].i = (int16_t)(100 + i); x[i].q = (int16_t)(fed % 7); } } sim_atomic_end();
            if (pm != 1 && wl(20) == 0) sim_sleep_ns((ns_t)wl(30) * MS); RKSetPulseHasData(r, p); np++;
            ns_t g = gap; if (pm == 2) g = wl(3) ? 20 * US : (ns_t)wl(40) * MS; else if (pm == 3) g = wl(40) ? gap : (ns_t)wl(2000) * MS; sim_sleep_ns(g);
            if (judge) sim_wait_until([&] { uint64_t k = 0; for (uint32_t j = 1; j <= cd / 2; j++) { RKPulse *q = RKGetPulseFromBuffer(r->pulses, (r->pulseIndex + cd - j) % cd); if (np >= j && !(q->header.s & RKPulseStatusUsedForMoments)) k++; } return k < cd / 2 || fini; }, 600 * SEC, 200 * US); } });
        int ts = sim_spawn("positions", [&] { if (sm == 0) return; uint32_t last = ~0u; while (!fini) { RKPosition *p = RKGetVacantPosition(r); double t = 1e-9 * (double)sim_now(); p->tic = sim_now() / 1000; p->elevationDegrees = 3; p->azimuthDegrees = (float)az(t); p->sweepElevationDegrees = 3; p->flag |= RKPositionFlagAzimuthEnabled | RKPositionFlagElevationEnabled | RKPositionFlagScanActive | RKPositionFlagAzimuthSweep | RKPositionFlagElevationPoint; uint32_t lap = (uint32_t)((t - t0) / (1e-9 * (double)gap * perray) / 30); if (lap != last) { p->flag |= RKPositionFlagAzimuthComplete; last = lap; } RKSetPositionReady(r, p); r->steerEngine->tic++; if (wl(3) == 0) RKSteerEngineGetAction(r->steerEngine, p); sim_sleep_ns(sm == 2 ? (ns_t)wl(8) * MS : sm == 3 && wl(50) == 0 ? (ns_t)wl(3000) * MS : 8 * MS); } });
        int th = sim_spawn("reports", [&] { if (hm == 0) return; uint64_t k = 0; while (!fini) { for (RKHealthNode n : {RKHealthNodeRadarKit, RKHealthNodePedestal, RKHealthNodeTransceiver}) { RKHealth *h = RKGetVacantHealth(r, n); if (hm != 1 && wl(10) == 0) sim_sleep_ns((ns_t)wl(300) * MS); snprintf(h->string, sizeof h->string, "{\"N%d\":{\"Value\":%lu,\"Enum\":0}}", (int)n, (unsigned long)k++); RKSetHealthReady(r, h); } sim_sleep_ns(hm == 2 ? (ns_t)wl(40) * MS : 200 * MS); } });
        if (early) { sim_sleep_ns((ns_t)wl(200) * MS); for (int i : shuffle(use)) start(i, true); }
        if (judge) { // it works as it did the first time
            sim_deadline(120 * SEC + 100 * B, "stuck", "all engines are running and fed"); sim_wait_until([&] { return np > 2 * cd; }, 3000 * SEC, 10 * MS); sim_wait_until([&] { int n = 0; for (uint32_t k = 0; k < d.rayBufferDepth; k++) n += !!(RKGetRayFromBuffer(r->rays, k)->header.s & RKRayStatusReady); return n > (int)d.rayBufferDepth / 2; }, 3000 * SEC, 10 * MS); uint64_t h0 = r->healthIndex; sim_wait_until([&] { return r->healthIndex != h0; }, 3000 * SEC, 10 * MS); sim_deadline_clear(); sim_probe("worked as the first time"); }
        else sim_sleep_ns(wl(3) == 0 ? (ns_t)wl(20) * MS : (ns_t)wl(3000) * MS);
        if (wl(4) == 0) { fini = true; sim_deadline_clear(); sim_sleep_ns((ns_t)wl(500) * MS); }
        bool last = round + 1 == rounds && wl(3) == 0; if (!last) for (int i : shuffle(use)) { if (wl(2)) sim_sleep_ns((ns_t)wl(100) * MS); stop(i); }
        fini = true; r->state = (RKRadarState)(r->state & ~RKRadarStateLive); sim_join(tp); sim_join(ts); sim_join(th);
        if (!last) { CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); CHECK(sim_open_fds() == 0 && sim_open_streams() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str()); size_t bytes = 0; sim_heap_live(&bytes); if (full) { if (base) CHECK(bytes <= base, "grow", "memory in use after the stop grows from %zu to %zu:\nbefore %s\nafter %s", base, bytes, basedump.c_str(), sim_heap_dump(mark).c_str()); else if (!tfail) { base = bytes; basedump = sim_heap_dump(mark); } } }
    }
    sim_deadline(20 * B, "free-hang", "releasing the radar"); RKFree(r); sim_deadline_clear(); CHECK(sim_live_code_threads() == 0, "thread", "threads left after the release:%s", sim_thread_dump().c_str()); int uj = sim_unjoined_threads(); CHECK(uj == 0, "unjoined", "%d threads were never joined: their stacks are never given back", uj); CHECK(sim_open_fds() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str()); CHECK(sim_heap_live_since(mark) == 0, "memory", "memory left:%s", sim_heap_dump(mark).c_str()); sim_probe("releases");
}
