// C02: overloaded or stalled compression skips pulses, never sticks, never mislabels, and recovers
#include "rk.h"
SCENARIO(overload, "C02") {
    rk_quiet(); cfg.max_vtime = 600 * SEC;
    static const uint32_t deps[] = {64, 100, 128, 200};
    uint32_t depth = deps[P("depth", 0, 3)], cap = 64;
    int cores = (int)P("cores", 1, 5), groups = (int)P("groups", 1, 4);
    static const double ps[] = {0.001, 0.01, 0.05}; static const int hi[] = {5, 50, 500};
    cfg.p_stall = ps[P("stalls", 0, 2)]; cfg.stall_lo = 100 * US; cfg.stall_hi = hi[P("stallms", 0, 2)] * MS; cfg.p_jitter = 0.3;
    RKRadarDesc *desc = new_desc(cap, depth);
    static RKConfig configs[4]; static uint32_t configIndex, pulseIndex; memset(configs, 0, sizeof configs); configIndex = pulseIndex = 0;
    RKBuffer buf; RKPulseBufferAlloc(&buf, cap, depth);
    RKFFTModule *fft = RKFFTModuleInit(cap, 0);
    RKPulseEngine *e = RKPulseEngineInit();
    RKPulseEngineSetEssentials(e, desc, fft, configs, &configIndex, buf, &pulseIndex);
    RKPulseEngineSetCoreCount(e, cores); e->useSemaphore = !Pbool("poll", 0.25);
    RKPulseEngineResetFilters(e);
    for (int g = 0; g < groups; g++) {
        RKComplex h[2] = {{(float)(g + 1), 0}, {0, 0}}; RKFilterAnchor a = RKFilterAnchorDefault; a.length = 1 + g % 2; a.maxDataLength = cap;
        RKPulseEngineSetGroupFilter(e, h, a, g, 0);
    }
    RKPulseEngineSetFilterGroupCount(e, groups);
    CHECK(RKPulseEngineStart(e) == RKResultSuccess, "start", "RKPulseEngineStart failed");
    int n1 = (int)(depth * P("rounds", 2, 6)), n2 = (int)(depth + depth / 2), n = n1 + n2, produced = 0, consumed = 0, gate = 40;
    bool phase2 = false; int skipped = 0, done1 = 0;
    int prod = sim_spawn("producer", [&] {
        int burst = 0, mode = (int)P("feed", 0, 2);
        for (int k = 0; k < n; k++) {
            if (k == n1) { sim_calm(); sim_deadline(60 * SEC, "stuck", "stalls are over, yet pulses are left neither processed nor skipped"); sim_wait_until([&] { return consumed == n1; }, 1000 * SEC); sim_deadline_clear(); phase2 = true; done1 = skipped; }
            int lim = phase2 ? depth / 4 : depth - depth / 8;
            while (produced - consumed >= lim) sim_sleep_ns(20 * US);
            if (phase2) sim_sleep_ns(300 * US);
            else if (mode == 1) { if (++burst % (int)(depth / 2) == 0) sim_sleep_ns(wl(30 * MS)); }
            else if (mode == 2) { if (wl(3) == 0) sim_sleep_ns(wl(100 * US)); }
            RKPulse *p = RKPulseEngineGetVacantPulse(e, RKPulseStatusProcessed);
            CHECK(p && p->header.i == (uint64_t)k, "vacant-order", "vacant pulse %d has counter %lu", k, p ? (unsigned long)p->header.i : 0UL);
            p->header.gateCount = gate; p->header.configIndex = 0; p->header.compressorDataType = RKCompressorOptionRKInt16C;
            for (int c = 0; c < 2; c++) { RKInt16C *r = RKGetInt16CDataFromPulse(p, c); for (int i = 0; i < gate; i++) { r[i].i = (int16_t)(k % 500 + 10 * i + c + 1); r[i].q = (int16_t)-i; } }
            produced = k + 1; p->header.s |= RKPulseStatusHasIQData;
        }
    });
    int bound = depth / 10 + cores + 2, late = -1;
    for (int k = 0; k < n; k++) {
        RKPulse *p;
        while (!(p = RKPulseEngineGetProcessedPulse(e, false))) { sim_sleep_ns(50 * US); if (phase2 && produced == n && late < 0) { late = 1; sim_deadline(30 * SEC, "stuck", "pulses left neither processed nor skipped"); } }
        uint32_t s = p->header.s; bool c = s & RKPulseStatusCompressed, k2 = s & RKPulseStatusSkipped;
        CHECK(p->header.i == (uint64_t)k, "order", "released pulse %d has counter %lu", k, (unsigned long)p->header.i);
        CHECK(s & RKPulseStatusProcessed && s & RKPulseStatusHasIQData && s & RKPulseStatusInspected, "undecided", "pulse %d released with status %04x", k, s);
        CHECK(c != k2, "both-or-neither", "pulse %d is %s (status %04x)", k, c ? "both compressed and skipped" : "neither compressed nor skipped", s);
        CHECK(p->header.gateCount <= (uint32_t)gate && p->header.gateCount + 1 >= (uint32_t)gate, "gate-count", "pulse %d: %d gates in, %u out", k, gate, p->header.gateCount);
        if (c) {
            int g = k % groups; sim_probe("compressed pulses");
            for (int ch = 0; ch < 2; ch++) { RKComplex *Y = RKGetComplexDataFromPulse(p, ch); for (uint32_t i = 0; i < p->header.gateCount; i += 7) { double ei = (k % 500 + 10 * i + ch + 1) * (g + 1.0), eq = -(double)i * (g + 1); CHECK(fabs(Y[i].i - ei) < 0.05 && fabs(Y[i].q - eq) < 0.05, "mislabelled", "pulse %d is presented as compressed but gate %u of channel %d is %.2f%+.2fi instead of %.0f%+.0fi", k, i, ch, Y[i].i, Y[i].q, ei, eq); } }
        } else { skipped++; sim_probe("skipped pulses"); if (k < n1 && k % (int)depth > 0) sim_probe("skips under load"); CHECK(k < n1 || k - n1 < bound, "no-recovery", "pulse %d, the %dth after the overload had ended and everything had drained, is still skipped", k, k - n1); }
        consumed = k + 1; sim_hash(s);
    }
    sim_deadline_clear(); sim_join(prod);
    CHECK((skipped > 0) == (e->almostFull > 0), "statistics", "%d pulses skipped but %u overflows counted", skipped, e->almostFull);
    sim_deadline(20 * SEC, "stop-hang", "RKPulseEngineStop");
    RKPulseEngineStop(e); sim_deadline_clear();
    CHECK(sim_live_code_threads() == 0, "threads-left", "threads left after stop:\n%s", sim_thread_dump().c_str());
    RKPulseEngineFree(e); RKFFTModuleFree(fft); RKPulseBufferFree(buf); free(desc); (void)done1;
}
