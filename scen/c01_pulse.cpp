// C01: every pulse is compressed exactly once, correctly, in order (stage keeps up)
#include "rk.h"
struct In { uint32_t g; int type; bool single; uint32_t cfg; double t; int bank; std::vector<cd> x[2]; };
struct Filt { uint32_t L, in, out, max; std::vector<cd> h; };
SCENARIO(pulse, "C01") {
    rk_quiet(); cfg.max_vtime = 600 * SEC; chaos();
    cfg.stall_harness = Pbool("stallio", 0.5);
    static const uint32_t deps[] = {16, 24, 40, 64, 100};
    uint32_t depth = deps[P("depth", 0, 4)], cap = 64 * P("cap", 1, 4);
    int cores = (int)P("cores", 1, 5), groups = (int)P("groups", 1, 4), ratio = (int)P("ratio", 1, 4), rounds = (int)P("rounds", 1, 3);
    int n = depth * rounds + (int)P("extra", 0, 15);
    bool fixed = Pbool("fixedgates", 0.3), blocking = Pbool("blocking", 0.5);
    RKRadarDesc *desc = new_desc(cap, depth); desc->pulseToRayRatio = ratio;
    static RKConfig configs[4]; static uint32_t configIndex, pulseIndex; memset(configs, 0, sizeof configs); configIndex = pulseIndex = 0;
    RKBuffer buf; RKPulseBufferAlloc(&buf, cap, depth);
    RKFFTModule *fft = RKFFTModuleInit(cap, 0);
    RKPulseEngine *e = RKPulseEngineInit();
    RKPulseEngineSetEssentials(e, desc, fft, configs, &configIndex, buf, &pulseIndex);
    RKPulseEngineSetCoreCount(e, cores);
    e->useSemaphore = !Pbool("poll", 0.25);
    typedef std::vector<std::vector<Filt>> Bank; std::deque<Bank> banks; uint32_t gmin = 0; int began = 0, ended = 0;   // the banks so far; those whose change has begun and ended
    bool shorts = Pbool("shorts", 0.25), changes = Pbool("changes", 0.25), bywave = Pbool("bywave", 0.5), alone = true;
    auto install = [&](bool wave) {
        int ng = banks.empty() ? groups : 1 + (int)wl(4); Bank F(ng); RKWaveform *w = wave ? RKWaveformInitWithCountAndDepth(ng, cap) : nullptr;
        if (!wave) RKPulseEngineResetFilters(e);
        std::vector<std::vector<std::vector<RKComplex>>> H(ng); std::vector<std::vector<RKFilterAnchor>> A(ng);
        for (int g = 0; g < ng; g++) {
            int nf = (int)wl(4) == 0 ? 2 : 1; uint32_t blind = 0, need = 0; if (nf == 2) alone = false;
            for (int j = 0; j < nf; j++) {
                Filt f; f.L = 1 + wl(wl(2) ? 4 : cap / 8); f.in = wl(3) ? 0 : wl(cap / 8); f.out = j == 0 ? 0 : F[g][0].max; f.max = j + 1 < nf ? 1 + wl(cap / 3) : cap;
                std::vector<RKComplex> h(f.L); for (auto &c : h) { c.i = (float)(wlf() * 2 - 1); c.q = (float)(wlf() * 2 - 1); f.h.push_back(cd(c.i, c.q)); }
                RKFilterAnchor a = RKFilterAnchorDefault; a.length = f.L; a.inputOrigin = f.in; a.outputOrigin = f.out; a.maxDataLength = f.max;
                H[g].push_back(h); A[g].push_back(a); F[g].push_back(f); blind += f.L; need = std::max(need, std::max(f.in + f.L, f.out) + 1);
            }
            gmin = std::max(gmin, std::max(need, blind) + 2);
        }
        banks.push_back(F); began = (int)banks.size() - 1;
        for (int g = 0; g < ng; g++) { uint32_t at = 0; if (w) w->filterCounts[g] = (uint8_t)F[g].size(); for (size_t j = 0; j < F[g].size(); j++) {
            if (!w) { CHECK(RKPulseEngineSetGroupFilter(e, H[g][j].data(), A[g][j], g, (int)j) == RKResultSuccess, "set-filter", "RKPulseEngineSetGroupFilter refused a valid filter L=%u in=%u out=%u", F[g][j].L, F[g][j].in, F[g][j].out); continue; }
            at += (uint32_t)wl(4); A[g][j].origin = at; w->filterAnchors[g][j] = A[g][j]; memcpy(w->samples[g] + at, H[g][j].data(), H[g][j].size() * sizeof(RKComplex)); at += F[g][j].L; } }
        if (w) { CHECK(RKPulseEngineSetFilterByWaveform(e, w) == RKResultSuccess, "set-filter", "RKPulseEngineSetFilterByWaveform refused a valid waveform"); RKWaveformFree(w); } else RKPulseEngineSetFilterGroupCount(e, ng);
        ended = began; sim_probe("filter banks");
    };
    install(bywave); const int nbanks = changes ? 1 + (int)wl(4) : 0;
    if (gmin > cap) gmin = cap;
    CHECK(RKPulseEngineStart(e) == RKResultSuccess, "start", "RKPulseEngineStart failed");
    std::deque<In> ins(n);
    int produced = 0, consumed = 0; int limit = std::max(2, (int)(depth * (20 + 10 * (int)P("load", 0, 3)) / 100));
    int prod = sim_spawn("producer", [&] {
        int slow = (int)P("prodslow", 0, 3);
        for (int k = 0; k < n; k++) {
            while (produced - consumed >= limit) sim_sleep_ns(20 * US);
            if (slow == 1 || (slow == 2 && wl(4) == 0)) sim_sleep_ns(wl(2 * MS)); else if (slow == 3 && wl(20) == 0) sim_sleep_ns(wl(300 * MS));
            RKPulse *p = RKPulseEngineGetVacantPulse(e, wl(2) ? RKPulseStatusProcessed : 0);
            CHECK(p && p->header.i == (uint64_t)k, "vacant-order", "vacant pulse %d has counter %lu", k, p ? (unsigned long)p->header.i : 0UL);
            CHECK(p == RKGetPulseFromBuffer(buf, k % depth), "vacant-slot", "vacant pulse %d is not the next slot", k);
            sim_yield();                                   // the driver takes its time to fill the slot
            In &in = ins[k]; in.g = fixed ? cap : gmin >= cap ? cap : gmin + wl(cap - gmin + 1); if (shorts && wl(4) == 0) { in.g = wl(gmin + 1); sim_fault_note("short pulse"); } in.bank = ended;
            in.type = alone && !changes && wl(3) == 0 ? RKCompressorOptionRKComplex : RKCompressorOptionRKInt16C; in.single = wl(5) == 0; in.cfg = wl(4);
            if (in.single) in.type |= RKCompressorOptionSingleChannel;
            p->header.gateCount = in.g; p->header.compressorDataType = (RKCompressorOption)in.type; p->header.configIndex = in.cfg; p->header.t = 1000 * k;
            for (int c = 0; c < 2; c++) {
                RKInt16C *r = RKGetInt16CDataFromPulse(p, c); RKComplex *y = RKGetComplexDataFromPulse(p, c); in.x[c].resize(in.g);
                for (uint32_t i = 0; i < in.g; i++) { int a = (int)wl(4001) - 2000, b = (int)wl(4001) - 2000; in.x[c][i] = cd(a, b); if (in.type & RKCompressorOptionRKComplex) { y[i].i = a; y[i].q = b; r[i].i = r[i].q = 7; } else { r[i].i = a; r[i].q = b; y[i].i = y[i].q = 99; } }
            }
            sim_hash(bytes_hash(RKGetInt16CDataFromPulse(p, 0), 64));
            produced = k + 1;                              // counted before the flag, so that the bound holds
            p->header.s |= RKPulseStatusHasIQData;
        }
    });
    int changer = sim_spawn("changer", [&] { for (int q = 0; q < nbanks; q++) { sim_sleep_ns((ns_t)wl(wl(2) ? 3000 : 100000) * US); install(true); } });
    struct Held { int k; uint64_t h; RKPulse *p; };
    std::deque<Held> held;
    auto digest = [&](RKPulse *p) { uint64_t h = p->header.gateCount ^ (uint64_t)p->header.downSampledGateCount << 32; for (int c = 0; c < 2; c++) { h = h * 31 + bytes_hash(RKGetComplexDataFromPulse(p, c), cap * 8); h = h * 31 + bytes_hash(RKGetSplitComplexDataFromPulse(p, c).i, cap * 4) + bytes_hash(RKGetSplitComplexDataFromPulse(p, c).q, cap * 4); } return h; };
    bool fin = false;
    for (int k = 0; k < n; k++) {
        if (!fin && produced == n) { sim_calm(); sim_deadline(20 * SEC, "stuck", "all pulses handed over and no more faults, yet not all are released"); fin = true; }
        RKPulse *p = nullptr;
        if (blocking && produced > k) p = RKPulseEngineGetProcessedPulse(e, true);
        else { p = RKPulseEngineGetProcessedPulse(e, false); if (!p) { sim_sleep_ns(50 * US + wl(100) * US); k--; continue; } }
        In &in = ins[k];
        CHECK(p->header.i == (uint64_t)k && p == RKGetPulseFromBuffer(buf, k % depth), "order", "released pulse %d has counter %lu", k, (unsigned long)p->header.i);
        CHECK(p->header.s & RKPulseStatusProcessed && p->header.s & RKPulseStatusDownSampled, "unfinished", "pulse %d released with status %04x", k, p->header.s);
        CHECK(p->header.s & RKPulseStatusCompressed && !(p->header.s & RKPulseStatusSkipped), "skipped", "pulse %d status %04x: skipped although the stage kept up (outstanding <= %d of %u)", k, p->header.s, limit, depth);
        const int last = began; sim_atomic_begin();
        for (int v = in.bank; ; v++) { auto &G = banks[v][k % banks[v].size()]; bool bad = false; const char *key = ""; char msg[400] = "";
#define NEED(c, k_, ...) do { if (!bad && !(c)) { bad = true; key = k_; snprintf(msg, sizeof msg, __VA_ARGS__); } } while (0)
        uint32_t blind = 0; for (auto &f : G) blind += f.L;
        uint32_t left = in.g - std::min(in.g, blind - 1);
        NEED(p->header.gateCount == left, "gate-count", "pulse %d: %u gates in, filters %u, %u gates out", k, in.g, blind, p->header.gateCount);
        NEED(p->header.downSampledGateCount == (p->header.gateCount + ratio - 1) / ratio, "down-sampled-count", "pulse %d: %u gates, ratio %d, down-sampled to %u", k, p->header.gateCount, ratio, p->header.downSampledGateCount);
        CHECK(p->header.t == (uint64_t)(1000 * k) && p->header.configIndex == in.cfg, "header", "pulse %d: header changed", k);
        for (int c = 0; c < (in.single ? 1 : 2); c++) {
            RKComplex *Y = RKGetComplexDataFromPulse(p, c); RKIQZ Z = RKGetSplitComplexDataFromPulse(p, c);
            double ex = 0; for (auto &v : in.x[c]) ex = std::max(ex, std::abs(v));
            for (uint32_t o = 0; o < p->header.downSampledGateCount; o++) {
                uint32_t gate = o * ratio; int fi = G.size() == 2 && gate >= G[1].out ? 1 : 0; const Filt &f = G[fi]; uint32_t m0 = gate - f.out;
                CHECK(Y[o].i == Z.i[o] && Y[o].q == Z.q[o], "split", "pulse %d channel %d gate %u: interleaved and split values differ", k, c, o);
                if (m0 >= f.max || f.in + m0 + f.L > in.g) continue;       // reference needs every sample
                cd r = 0; double tol = 1e-3; for (uint32_t m = 0; m < f.L; m++) { r += in.x[c][f.in + m0 + m] * std::conj(f.h[m]); tol += 2e-5 * ex; }
                NEED(fabs(Y[o].i - r.real()) <= tol + 1e-5 * ex * f.L && fabs(Y[o].q - r.imag()) <= tol + 1e-5 * ex * f.L, "sample", "pulse %d (group %d, %u of %u gates, ratio %d) channel %d gate %u: %.3f%+.3fi, expected %.3f%+.3fi", k, (int)(k % banks[v].size()), o, p->header.downSampledGateCount, ratio, c, o, Y[o].i, Y[o].q, r.real(), r.imag());
                sim_probe("gates compared");
            }
        }
        if (!bad) break; if (v == last) { sim_atomic_end(); CHECK(false, key, "%s (of %d banks it may be of)", msg, last - in.bank + 1); } }
        sim_atomic_end();
        held.push_back({k, digest(p), p});
        consumed = k + 1; sim_hash(p->header.gateCount);
        // a released pulse must stay as it is until its slot is handed out again
        while (!held.empty() && (held.front().k + (int)depth / 8 <= k || (k == n - 1))) {
            Held h = held.front(); held.pop_front();
            if (produced <= h.k + (int)depth && h.k + (int)depth > produced + 1) CHECK(digest(h.p) == h.h, "late-write", "pulse %d was changed after it had been released", h.k);
        }
    }
    sim_deadline_clear(); sim_join(prod); sim_join(changer);
    CHECK(e->almostFull == 0, "skip-count", "stage reports %u overflows although it kept up", e->almostFull);
    sim_deadline(20 * SEC, "stop-hang", "RKPulseEngineStop");
    CHECK(RKPulseEngineStop(e) == RKResultSuccess, "stop", "RKPulseEngineStop failed");
    sim_deadline_clear();
    CHECK(sim_live_code_threads() == 0, "threads-left", "threads left after stop:\n%s", sim_thread_dump().c_str());
    RKPulseEngineFree(e); RKFFTModuleFree(fft); RKPulseBufferFree(buf); free(desc);
}
