// C03: the clutter filter equals the recursive filter gate by gate, whatever the parallelism
#include "rk.h"
struct Pl { uint32_t g, r; bool skip, on; int filt; uint64_t i; };
SCENARIO(filter, "C03") {
    rk_quiet(); cfg.max_vtime = 600 * SEC; chaos();
    static const uint32_t deps[] = {12, 20, 33, 64};
    uint32_t depth = deps[P("depth", 0, 3)], cap = 64 * P("cap", 1, 4);
    int cores = (int)P("cores", 1, 6), n = (int)(depth * P("rounds", 1, 3)) + (int)P("extra", 0, 10);
    int gmode = (int)P("gates", 0, 3), ph = (int)P("phases", 1, 4);
    RKRadarDesc *desc = new_desc(cap, depth);
    static RKConfig configs[4]; static uint32_t configIndex, pulseIndex; memset(configs, 0, sizeof configs); configIndex = 1; pulseIndex = 0;
    RKBuffer buf; RKPulseBufferAlloc(&buf, cap, depth);
    uint32_t range = 1 + wl(cap + 20), g0 = 1 + wl(cap), g1 = 1 + wl(cap);
    configs[0].ringFilterGateCount = range;
    RKPulseRingFilterEngine *e = RKPulseRingFilterEngineInit();
    RKPulseRingFilterEngineSetEssentials(e, desc, configs, &configIndex, buf, &pulseIndex);
    RKPulseRingFilterEngineSetCoreCount(e, cores); e->useSemaphore = !Pbool("poll", 0.25);
    std::vector<RKIIRFilter> filts;
    auto newfilter = [&] {
        RKIIRFilter f; memset(&f, 0, sizeof f); int t = wl(4);
        if (t == 0) RKGetFilterCoefficients(&f, (RKFilterType)(RKFilterTypeElliptical1 + wl(5)));
        else {
            f.type = RKFilterTypeUserDefined; f.bLength = 1 + wl(8); f.aLength = 1 + wl(t == 1 ? 1 : 8); f.A[0].i = 1;
            for (uint32_t j = 0; j < f.bLength; j++) f.B[j].i = (float)(wlf() * 2 - 1);
            for (uint32_t j = 1; j < f.aLength; j++) f.A[j].i = (float)((wlf() * 2 - 1) * 0.8 / f.aLength);      // sum |a| < 1: stable
        }
        RKPulseRingFilterEngineSetFilter(e, &f); filts.push_back(f);
    };
    newfilter();
    bool on = !Pbool("off", 0.15); if (on) RKPulseRingFilterEngineEnableFilter(e); else RKPulseRingFilterEngineDisableFilter(e);
    CHECK(RKPulseRingFilterEngineStart(e) == RKResultSuccess, "start", "RKPulseRingFilterEngineStart failed");
    std::deque<Pl> pl(n); std::vector<std::vector<RKComplex>> in(n * 2);
    int produced = 0, consumed = 0, curf = 0; int limit = (int)P("load", 1, depth - 2);
    int prod = sim_spawn("producer", [&] {
        int slow = (int)P("prodslow", 0, 2), per = std::max(1, n / ph);
        for (int k = 0; k < n; k++) {
            if (k && k % per == 0) {                       // a change of the filter, of the range or of the switch, with the stage drained
                sim_wait_until([&] { return consumed == k; }, 300 * SEC, 100 * US);
                int w = wl(4);
                if (w == 0) { on = !on; if (on) RKPulseRingFilterEngineEnableFilter(e); else RKPulseRingFilterEngineDisableFilter(e); }
                else if (w == 1) { newfilter(); curf++; }
                else if (w == 2) { range = 1 + wl(cap + 20); configs[configIndex].ringFilterGateCount = range; configIndex = RKNextModuloS(configIndex, 4); }
                else { g0 = 1 + wl(cap); g1 = 1 + wl(cap); }
            }
            while (produced - consumed >= limit) sim_sleep_ns(20 * US);
            if (slow == 1 && wl(4) == 0) sim_sleep_ns(wl(2 * MS)); else if (slow == 2 && wl(20) == 0) sim_sleep_ns(wl(100 * MS));
            RKPulse *p = RKGetPulseFromBuffer(buf, k % depth);
            p->header.s = RKPulseStatusVacant; p->header.i = k;
            pulseIndex = (k + 1) % depth;
            Pl &a = pl[k]; a.i = k; a.skip = wl(12) == 0; a.on = on; a.filt = curf; a.r = range;
            a.g = gmode == 0 ? cap : gmode == 1 ? g0 : gmode == 2 ? (wl(6) == 0 ? g1 : g0) : (k % 2 ? g0 : g1);
            p->header.gateCount = p->header.downSampledGateCount = a.skip ? wl(cap) : a.g;
            for (int c = 0; c < 2; c++) {
                RKIQZ z = RKGetSplitComplexDataFromPulse(p, c); RKComplex *y = RKGetComplexDataFromPulse(p, c); auto &v = in[k * 2 + c]; v.resize(cap);
                for (uint32_t i = 0; i < cap; i++) { v[i].i = (float)((int)wl(2001) - 1000); v[i].q = (float)((int)wl(2001) - 1000); z.i[i] = v[i].i; z.q[i] = v[i].q; y[i] = v[i]; }
            }
            produced = k + 1;
            sim_yield();
            p->header.s |= RKPulseStatusHasIQData | RKPulseStatusInspected | (a.skip ? RKPulseStatusSkipped : RKPulseStatusCompressed);
            p->header.s |= RKPulseStatusProcessed;
        }
    });
    // reference: one state per channel and gate; a change of the filtered range restarts the filter
    struct St { cd x[8], y[8]; };
    std::vector<St> st(2 * cap); auto reset = [&] { for (auto &s : st) s = St(); }; uint32_t last = ~0u;
    uint64_t end = 0; bool fin = false;
    for (int k = 0; k < n; k++) {
        RKPulse *p = RKGetPulseFromBuffer(buf, k % depth);
        while (!(produced > k && p->header.i == (uint64_t)k && p->header.s & RKPulseStatusRingProcessed)) {
            sim_sleep_ns(50 * US + wl(100) * US);
            if (!fin && produced == n) { sim_calm(); sim_deadline(20 * SEC, "stuck", "all pulses handed over and no more faults, yet not all are released"); fin = true; }
            for (int j = k + 1; j < produced; j++) { RKPulse *q = RKGetPulseFromBuffer(buf, j % depth); if (q->header.i == (uint64_t)j && q->header.s & RKPulseStatusRingProcessed && !(p->header.s & RKPulseStatusRingProcessed)) sim_fail("order", "pulse %d released before pulse %d", j, k); break; }
        }
        Pl &a = pl[k]; uint32_t s = p->header.s;
        CHECK(!!(s & RKPulseStatusRingFiltered) == (a.on && !a.skip) && !!(s & RKPulseStatusRingSkipped) == (a.on && a.skip) && s & RKPulseStatusRingInspected, "status", "pulse %d (filter %s, %s) released with status %04x", k, a.on ? "on" : "off", a.skip ? "skipped" : "compressed", s);
        CHECK(p->header.downSampledGateCount == p->header.gateCount && (a.skip || p->header.gateCount == a.g), "header", "pulse %d: header changed", k);
        uint32_t r = a.skip ? 0 : std::min(a.g, a.r); bool f = a.on && !a.skip;
        if (!a.skip && r != last) { reset(); last = r; if (k) sim_probe("range changes"); }
        const RKIIRFilter &F = filts[a.filt];
        for (int c = 0; c < 2; c++) {
            RKIQZ z = RKGetSplitComplexDataFromPulse(p, c); RKComplex *y = RKGetComplexDataFromPulse(p, c); auto &v = in[k * 2 + c];
            for (uint32_t i = 0; i < cap; i++) {
                CHECK(y[i].i == v[i].i && y[i].q == v[i].q, "interleaved", "pulse %d channel %d gate %u: interleaved samples changed", k, c, i);
                if (!f || i >= r) { CHECK(z.i[i] == v[i].i && z.q[i] == v[i].q, f ? "out-of-range" : "unfiltered", "pulse %d channel %d gate %u (%s, range %u, %d workers): %.1f%+.1fi became %.3f%+.3fi", k, c, i, f ? "beyond the filtered range" : a.skip ? "skipped pulse" : "filter off", r, cores, v[i].i, v[i].q, z.i[i], z.q[i]); continue; }
                St &t = st[c * cap + i];
                for (int j = 7; j > 0; j--) { t.x[j] = t.x[j - 1]; t.y[j] = t.y[j - 1]; }
                t.x[0] = cd(v[i].i, v[i].q); cd o = 0; double mag = 0;      // mag: single-precision rounding of the largest terms, which may cancel
                for (uint32_t j = 0; j < F.bLength; j++) { o += (double)F.B[j].i * t.x[j]; mag += fabs(F.B[j].i) * std::abs(t.x[j]); }
                for (uint32_t j = 1; j < F.aLength; j++) { o -= (double)F.A[j].i * t.y[j]; mag += fabs(F.A[j].i) * std::abs(t.y[j]); }
                t.y[0] = o;
                double tol = 0.5 + 2e-4 * std::abs(o) + 2e-6 * mag;
                CHECK(fabs(z.i[i] - o.real()) <= tol && fabs(z.q[i] - o.imag()) <= tol, "sample", "pulse %d channel %d gate %u of %u (%d workers, %u b, %u a): %.3f%+.3fi, recursive filter gives %.3f%+.3fi", k, c, i, r, cores, F.bLength, F.aLength, z.i[i], z.q[i], o.real(), o.imag());
                t.y[0] = cd(z.i[i], z.q[i]);                // follow the single-precision output, the oracle is the recursion
            }
            if (f && r) sim_probe("filtered pulses");
        }
        if (!f) sim_probe("pulses passed unchanged");
        sim_hash(s); end ^= bytes_hash(RKGetSplitComplexDataFromPulse(p, 0).i, cap * 4) * (k + 1);
        CHECK((p->header.s & ~0u) == s, "status", "pulse %d: status changed from %04x to %04x after release", k, s, p->header.s);
        consumed = k + 1;
    }
    sim_hash(end);
    sim_deadline_clear(); sim_join(prod);
    sim_deadline(20 * SEC, "stop-hang", "RKPulseRingFilterEngineStop");
    CHECK(RKPulseRingFilterEngineStop(e) == RKResultSuccess, "stop", "RKPulseRingFilterEngineStop failed");
    sim_deadline_clear();
    CHECK(sim_live_code_threads() == 0, "threads-left", "threads left after stop:\n%s", sim_thread_dump().c_str());
    RKPulseRingFilterEngineFree(e); RKPulseBufferFree(buf); free(desc);
}
