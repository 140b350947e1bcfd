// C05: rays are made of consecutive pulses, in order, each once, completely written, or explicitly marked skipped
#include "rk.h"
namespace {
struct Call { uint64_t first, last; int count; bool intact; std::vector<float> z; };
struct Ctx { RKRadar *radar; RKMomentEngine *E; uint32_t depth, cap; int proc; double slow; bool overload; std::deque<Call> calls; RKMomentScratch *ref = nullptr; RKRay *tmp; uint64_t id0; } *G;
const int prods[] = {RKBaseProductIndexZ, RKBaseProductIndexV, RKBaseProductIndexW, RKBaseProductIndexD, RKBaseProductIndexP, RKBaseProductIndexR, RKBaseProductIndexSh, RKBaseProductIndexQ};
void take(RKRay *ray, std::vector<float> &z) { uint32_t n = ray->header.gateCount; z.clear(); for (int p : prods) { float *f = RKGetFloatDataFromRay(ray, (RKBaseProductIndex)p); z.insert(z.end(), f, f + n); } }
void calib(RKUserResource, RKMomentScratch *s) { for (uint32_t i = 0; i < s->capacity; i++) { for (int p = 0; p < 2; p++) s->S2Z[p][i] = s->config->systemZCal[p] + 0.01f * i; s->dcal[i] = s->config->systemDCal; s->pcal[i] = 0; } }
int run_proc(RKMomentScratch *s, RKPulse **pulses, const uint16_t n) {
    switch (G->proc) { case 1: return RKPulsePair(s, pulses, n); case 2: return RKMultiLag(s, pulses, n); case 3: return RKPulsePairHop(s, pulses, n); case 4: return RKPulsePairATSR(s, pulses, n); }
    uint64_t a = pulses[0]->header.i, b = pulses[n - 1]->header.i; for (uint32_t g = 0; g < s->gateCount; g++) { for (int p = 0; p < 2; p++) { s->S[p][g] = 1e6f; s->Q[p][g] = 1; s->Z[p][g] = (float)(a % 60); s->V[p][g] = (float)(n % 10); s->W[p][g] = (float)(b % 4); } s->ZDR[g] = 1; s->PhiDP[g] = 0.1f * (b % 20); s->RhoHV[g] = 0.9f; s->KDP[g] = 0.01f; }
    return n;
}
int proc(RKMomentScratch *s, RKPulse **pulses, const uint16_t n) {
    Call c; c.count = n; c.first = pulses[0]->header.i; c.last = pulses[n - 1]->header.i; CHECK(n >= 1 && n <= RKMaximumPulsesPerRay, "pulses", "a ray of %d pulses", n);
    for (int i = 0; i < n; i++) CHECK(pulses[i] == RKGetPulseFromBuffer(G->radar->pulses, (pulses[0]->header.i + i) % G->depth), "pulses", "pulse %d of a ray that starts at pulse %lu is at the wrong slot", i, (unsigned long)(c.first - G->id0));
    if (!G->overload && !G->E->almostFull) for (int i = 1; i < n - 1; i++) CHECK(!(pulses[i]->header.s & RKPulseStatusUsedForMoments), "release", "pulse %d of a ray of %d is released to the later stages before the ray is computed", i, n);
    int r = run_proc(s, pulses, n);
    if (G->slow > 0) sim_sleep_ns((ns_t)(wlf() * wlf() * G->slow * SEC));
    sim_atomic_begin(); c.intact = true; for (int i = 0; i < n; i++) c.intact &= pulses[i]->header.i == c.first + i && (pulses[i]->header.s & RKPulseStatusCompressed);
    if (c.intact && !G->overload && G->proc) {   // the same, alone: the result of a ray depends on its own pulses and configuration only
        RKPulse *E = pulses[n - 1]; RKConfig *cf = &G->radar->configs[E->header.configIndex]; RKMomentScratch *q = G->ref; q->config = cf; q->gateCount = std::min(pulses[0]->header.downSampledGateCount, E->header.downSampledGateCount); q->gateSizeMeters = E->header.gateSizeMeters; q->samplingAdjustment = 10.0f * log10f(q->gateSizeMeters / 150.0f) + 60.0f; q->velocityFactor = 0.25f * G->radar->desc.wavelength / cf->prt[0] / M_PI; q->widthFactor = G->radar->desc.wavelength / cf->prt[0] / (2.0f * sqrtf(2.0f) * M_PI); q->KDPFactor = 1.0f / pulses[0]->header.gateSizeMeters; q->userLagChoice = s->userLagChoice; q->fftModule = s->fftModule; calib(NULL, q); prepareScratch(q); RKNoiseFromConfig(q, pulses, n); run_proc(q, pulses, n); G->tmp->header.gateCount = q->gateCount; makeRayFromScratch(q, G->tmp); take(G->tmp, c.z);
    }
    G->calls.push_back(c); sim_atomic_end(); return r;
}
}
SCENARIO(rays, "C05") {
    rk_quiet(); chaos(); cfg.max_vtime = 3000 * SEC; Ctx ctx; G = &ctx; memset((void *)&ctx.radar, 0, sizeof ctx.radar);
    bool overload = Pbool("overload", 0.25), big = !overload && Pbool("big", 0.03); uint32_t cap = 64, depth = big ? 2600 + (uint32_t)wl(300) : (uint32_t)(overload ? 96 + P("depth", 0, 80) : 48 + P("depth", 0, 100)), rdepth = (uint32_t)(overload ? 2 * depth : P("raydepth", 6, 30)), cdepth = overload ? 250 : (uint32_t)(12 + P("cdepth", 0, 10));
    if (overload) { cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 20 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 20 * MS); }
    int n = big ? 3000 + (int)wl(3000) : (int)P("pulses", 60, overload ? 2500 : 700), cores = (int)P("cores", 1, 5); double prf = (double[]){100, 400, 1000, 4000}[P("prf", 0, 3)]; bool excl = Pbool("exclude", 0.3), getter = Pbool("getter", 0.3), polling = Pbool("polling", 0.3); if (overload && prf > 1000) prf = 1000; ctx.proc = (int)P("processor", 0, 4); if (big || overload) ctx.proc = 0; ctx.overload = overload; ctx.slow = overload ? depth / prf * (0.3 + 5 * wlf()) : wl(3) == 0 ? 0.05 : 0;
    RKRadar *radar = (RKRadar *)calloc(1, sizeof(RKRadar)); ctx.radar = radar; RKRadarDesc *desc = &radar->desc; memcpy(desc, new_desc(cap, depth), sizeof *desc); desc->configBufferDepth = cdepth; desc->rayBufferDepth = rdepth; radar->state = RKRadarStateLive; ctx.depth = depth; ctx.cap = cap;
    RKPulseBufferAlloc(&radar->pulses, cap, depth); for (uint32_t i = 0; i < depth; i++) RKGetPulseFromBuffer(radar->pulses, i)->header.i = -(uint64_t)depth + i;
    RKConfigBufferAlloc(&radar->configs, cdepth); for (uint32_t i = 0; i < cdepth; i++) radar->configs[i].i = -(uint64_t)cdepth + i + 1000; RKRayBufferAlloc(&radar->rays, cap, rdepth); RKBuffer tb; RKRayBufferAlloc(&tb, cap, 1); ctx.tmp = RKGetRayFromBuffer(tb, 0); RKMomentScratchAlloc(&ctx.ref, cap, 0, "ref");
    RKMomentEngine *E = RKMomentEngineInit(); ctx.E = E; radar->momentEngine = E; E->useSemaphore = !polling; RKMomentEngineSetVerbose(E, 0); RKMomentEngineSetCoreCount(E, cores); RKMomentEngineSetExcludeBoundaryPulses(E, excl); RKFFTModule *fft = RKFFTModuleInit(cap, 0);
    RKMomentEngineSetEssentials(E, desc, fft, radar->configs, &radar->configIndex, radar->pulses, &radar->pulseIndex, radar->rays, &radar->rayIndex); RKMomentEngineSetMomentProcessor(E, proc); RKMomentEngineSetCalibrator(E, calib, NULL);
    struct Pul { RKPulse *p; uint64_t id; RKPulseHeader h; int nconf; RKConfig c; int bin; bool ok; double t; }; std::deque<Pul> pul; struct Exp { int a, b; }; std::deque<Exp> exp; int passed = 0, cursor = 0; bool quit = false, pdone = false; int nconf = 0;
    struct Got { RKRayHeader h; std::vector<float> z; RKRay *slot; }; std::deque<Got> got; std::map<uint64_t, uint64_t> early;
    RKAddConfig(radar, RKConfigKeyPRF, 1000.0, RKConfigKeySystemNoise, 0.1, 0.1, RKConfigKeyNull); nconf++;
    CHECK(RKMomentEngineStart(E) == RKResultSuccess, "start", "start failed");
    auto rayhash = [&](RKRay *r) { RKRayHeader h = r->header; h.s &= RKRayStatusProcessed | RKRayStatusSkipped | RKRayStatusReady; return bytes_hash(&h, sizeof h) ^ bytes_hash(RKGetUInt8DataFromRay(r, (RKBaseProductIndex)0), RKBaseProductCount * cap * 5) * 31; };
    // model of the gatherer
    int mi1 = -1, mcount = 0, morigin = 0;
    auto model = [&](int k) { const Pul &x = pul[k]; if (x.h.marker & RKMarkerSweepBegin) { mcount = 0; mi1 = x.bin; } if (mcount == 0) morigin = k; bool end = x.h.marker & RKMarkerSweepEnd;
        if (mi1 != x.bin || mcount == RKMaximumPulsesPerRay - 1 || end) { mi1 = x.bin; if (excl && mcount > 1 && !end) mcount--; if (mcount > 0) { exp.push_back({morigin, morigin + mcount}); morigin = k; mcount = 0; } } mcount++; };
    auto used = [&](const Pul &x) { return x.p->header.i != x.id || (x.p->header.s & RKPulseStatusUsedForMoments); };
    auto gathered = [&](const Pul &x) { return x.p->header.i != x.id || x.p->header.positionIndex != (uint32_t)-1 || (x.p->header.s & RKPulseStatusUsedForMoments); };
    int prod = sim_spawn("pulses", [&] {
        double az = wlf() * 360, el = 1 + wlf() * 60, vaz = 0, vel = 0, t = 1000; int mode = 0, left = 0, inbin = 0, lastbin = -1, lastgate = 0, skipburst = 0; uint32_t gates = 32, scan = 0; bool active = false, end = false; double slow = depth / 3.0;
        for (int k = 0; k < n && !quit; k++) {
            bool begin = false;
            if (left-- <= 0) { int was = mode; mode = (int)wl(5); if (was && mode == was && wl(2)) mode = 0; left = 5 + (int)wl(big ? 4000 : 150); active = mode && wl(12); begin = active; vaz = vel = 0; double step = big && wl(3) ? 0 : 1.0 / (2 + wl(wl(4) ? 30 : 200)); if (wl(30) == 0) step = 1 + wlf() * 4; if (wl(2)) step = -step;
                if (mode == 1 || mode == 4) { scan = RKMarkerScanTypePPI; vaz = step; } else if (mode == 2) { scan = RKMarkerScanTypeRHI; vel = step / 2; } else if (mode == 3) { scan = RKMarkerScanTytpePoint; vaz = wl(2) ? step : 0; } else if (wl(2)) scan = 0;
                if (begin || wl(4) == 0) { RKAddConfig(radar, RKConfigKeySweepElevation, el, RKConfigKeySweepAzimuth, az, RKConfigKeyPositionMarker, scan | RKMarkerSweepMiddle | RKMarkerSweepBegin, RKConfigKeySystemZCal, wlf() * 10, wlf() * 10, RKConfigKeyPRF, 500.0 + wl(3) * 500, RKConfigKeyNull); nconf++; } }
            end = (active && left == 0 && wl(8)) || (!big && wl(300) == 0); if (!big && wl(400) == 0) { begin = true; active = true; }
            az += vaz; el += vel; if (el > 80 || el < 1) { vel = -vel; el += 2 * vel; } el = std::min(85.0, std::max(0.5, el)); az -= 360 * floor(az / 360);
            if (k - lastgate > (int)depth / 2 && !big && wl(200) == 0) lastgate = k, gates = 16 + (uint32_t)wl(48); if (wl(big ? 6000 : 150) == 0) skipburst = 1 + (int)wl(12);
            // never more in flight than the ring allows
            bool room = sim_wait_until([&] { if (quit) return true; while (passed < (int)pul.size() && gathered(pul[passed])) passed++; if ((int)pul.size() - passed >= (int)depth * 7 / 8 - 4) return false; if (overload) return E->business < (int)(rdepth - depth); int first = exp.size() > got.size() ? exp[got.size()].a : morigin; first = std::min(first, cursor); return (int)pul.size() - first < (int)depth * 7 / 8 - 4 && exp.size() - got.size() < rdepth - 3 && (exp.size() == got.size() || nconf - pul[exp[got.size()].a].nconf < (int)cdepth - 4); }, 1000 * SEC, MS); CHECK(room || quit || passed >= (int)pul.size(), "stuck", "pulse %d of %d is not looked at (status %x, position index %d, %d rays pending)", passed, (int)pul.size(), pul[passed].p->header.s, pul[passed].p->header.positionIndex, E->business);
            Pul x; RKPulse *p = RKGetVacantPulse(radar); x.p = p; x.id = p->header.i; if (k == 0) ctx.id0 = x.id; CHECK(p->header.positionIndex == (uint32_t)-1 , "harness", "position index not reset");
            p->header.gateCount = p->header.downSampledGateCount = gates; p->header.gateSizeMeters = 30; t += 1 / prf; p->header.timeDouble = t; p->header.time.tv_sec = (time_t)t; p->header.time.tv_usec = (suseconds_t)((t - floor(t)) * 1e6);
            p->header.configIndex = RKPreviousModuloS(radar->configIndex, cdepth); x.nconf = nconf; x.c = radar->configs[p->header.configIndex]; uint32_t sm = x.c.startMarker & RKMarkerScanTypeMask;
            for (int tries = 0;; tries++) { p->header.azimuthDegrees = (float)az; if (p->header.azimuthDegrees >= 360) p->header.azimuthDegrees = 0; p->header.elevationDegrees = (float)el; x.bin = sm == RKMarkerScanTypePPI ? (int)floorf(p->header.azimuthDegrees) : sm == RKMarkerScanTypeRHI ? (int)floorf(p->header.elevationDegrees) : (int)floorf(p->header.elevationDegrees) * 360 + (int)floorf(p->header.azimuthDegrees);
                if (x.bin != lastbin) { lastbin = x.bin; inbin = 0; } if (++inbin < slow || big || tries) break; if (sm == RKMarkerScanTypeRHI) el = el > 40 ? el - 1 : el + 1; else { az += 1; az -= 360 * floor(az / 360); } }
            p->header.marker = (active ? RKMarkerSweepMiddle : 0) | (begin ? RKMarkerSweepBegin : 0) | (end ? RKMarkerSweepEnd : 0) | scan; if (end) active = active && wl(2);
            RKPulseHeader full = p->header;
            // the header is complete with the position, the samples with the filters: until then, other things are there
            RKPulseHeader &w = p->header; w.azimuthDegrees = (float)wl(360); w.elevationDegrees = (float)wl(80); w.marker = wl(4) == 0 ? (RKMarker)(RKMarkerSweepBegin | RKMarkerSweepEnd) : 0;
            auto samples = [&] { if (ctx.proc) for (int q = 0; q < 2; q++) { RKIQZ z = RKGetSplitComplexDataFromPulse(p, q); uint64_t h = x.id * 0x9E3779B97F4A7C15ULL + q; for (uint32_t g = 0; g < gates; g++) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; z.i[g] = (float)((int)(h & 255) - 128) * 0.1f + 10; z.q[g] = (float)((int)(h >> 8 & 255) - 128) * 0.1f; } }
            };
            x.ok = skipburst-- <= 0; if (!x.ok) sim_fault_note("pulses skipped by the compression stage"); x.h = full; x.t = t; pul.push_back(x); if (!overload) model(k);
            bool posfirst = wl(2), slow2 = wl(20) == 0; for (int st = 0; st < 2; st++) { if (slow2) sim_yield(); if (slow2 && wl(5) == 0) sim_sleep_ns(wl(5) * MS);
                if ((st == 0) == posfirst) { w.azimuthDegrees = full.azimuthDegrees; w.elevationDegrees = full.elevationDegrees; w.marker = full.marker; sim_yield(); w.s |= RKPulseStatusHasPosition; }
                else { samples(); w.s |= RKPulseStatusHasIQData | RKPulseStatusInspected | (x.ok ? RKPulseStatusCompressed : RKPulseStatusSkipped) | RKPulseStatusDownSampled | RKPulseStatusProcessed | RKPulseStatusRingProcessed; } }
            if (wl(100) == 0) { sim_fault_note("pulse gap"); sim_sleep_ns(wl(300) * MS); } if (overload || wl(wl(2) ? 1 : 20) == 0) sim_sleep_ns((ns_t)(SEC / prf));
        }
        pdone = true;
    });
    int judged = 0, prevb = -1;
    auto deliver = [&](RKRay *r) {
        Got g; sim_atomic_begin(); g.h = r->header; g.slot = r; take(r, g.z); uint64_t h = rayhash(r); int i = (int)got.size(); CHECK(g.h.s & RKRayStatusReady, "ready", "ray %d is delivered but not ready (status %x)", i, g.h.s); auto e = early.find(i); CHECK(e == early.end() || e->second == h, "ready", "ray %d was marked ready before it was complete", i); early[i] = h;
        if (g.h.s & RKRayStatusSkipped) { float *f = RKGetFloatDataFromRay(r, (RKBaseProductIndex)0); for (uint32_t q = 0; q < RKBaseProductCount * cap; q++) CHECK(std::isnan(f[q]), "skipped", "ray %d is marked skipped but has data (%g at %u)", i, f[q], q); }
        int o = i - (int)rdepth / 2; if (o >= 0 && got[o].slot->header.i == got[o].h.i) { RKRayStatus s = got[o].slot->header.s; if (s & RKRayStatusReady) CHECK(early[o] == rayhash(got[o].slot), "late", "ray %d was changed after it had been delivered", o); } early.erase(o);
        got.push_back(g); sim_atomic_end(); };
    auto judge = [&] {
        for (; judged < (int)got.size(); judged++) {
            Got &g = got[judged]; int r = judged; CHECK(g.h.i == (uint64_t)r, "order", "ray %d has number %lu", r, (unsigned long)g.h.i); uint32_t s = g.h.s & ~(RKRayStatusConsumed | RKRayStatusStreamed); CHECK(s == (RKRayStatusReady | RKRayStatusProcessed) || s == (RKRayStatusReady | RKRayStatusSkipped), "status", "ray %d has status %x", r, g.h.s); bool valid = s & RKRayStatusProcessed; int a, b; Call c; bool have = false;
            if (!overload) { CHECK(r < (int)exp.size(), "order", "ray %d is delivered, the pulses make %d", r, (int)exp.size()); a = exp[r].a; b = exp[r].b; }
            else { if (!valid) { sim_probe("skipped rays"); continue; } a = -1; for (int k = 0; k < (int)pul.size(); k++) if (pul[k].t == g.h.startTimeDouble) { a = k; break; } CHECK(a >= 0, "pulses", "ray %d starts at time %.6f of no pulse", r, g.h.startTimeDouble); b = a + g.h.pulseCount - 1; CHECK(b < (int)pul.size(), "pulses", "ray %d of %d pulses from %d", r, g.h.pulseCount, a);
                CHECK(a >= prevb, "order", "ray %d of pulses %d to %d comes after a ray that ends at pulse %d", r, a, b, prevb); prevb = b;
                for (int k = a + 1; k <= b; k++) { CHECK(k == b || pul[k].bin == pul[a + 1].bin || (k == a + 1), "pulses", "ray %d of pulses %d to %d goes over a bin boundary at pulse %d", r, a, b, k); CHECK(!(pul[k].h.marker & RKMarkerSweepBegin) , "pulses", "ray %d of pulses %d to %d has a sweep beginning at %d", r, a, b, k); if (k < b) CHECK(!(pul[k].h.marker & RKMarkerSweepEnd), "pulses", "ray %d of pulses %d to %d has a sweep ending at %d", r, a, b, k); if (k < b && k > a) CHECK(pul[k].bin == pul[a].bin, "pulses", "ray %d of pulses %d to %d changes its bin at pulse %d", r, a, b, k); }
                bool fin = b + 1 >= (int)pul.size() || pul[b].bin != pul[a].bin || (pul[b].h.marker & RKMarkerSweepEnd) || (excl && pul[b + 1].bin != pul[a].bin); CHECK(fin, "pulses", "ray %d of pulses %d to %d lacks pulse %d of its bin", r, a, b, b + 1); }
            const Pul &A = pul[a], &B = pul[b]; double da = fabs(remainder((double)A.h.azimuthDegrees - B.h.azimuthDegrees, 360)), de = fabs((double)A.h.elevationDegrees - B.h.elevationDegrees); bool ok = true; for (int k = a; k <= b; k++) ok &= pul[k].ok; bool edge = fabs(da - 3) < 1e-3 || fabs(de - 3) < 1e-3, want = b - a + 1 > 3 && da < 3 && de < 3 && ok;
            if (!overload && !edge) CHECK(valid == want, want ? "lost" : "invalid", "ray %d of pulses %d to %d (%.2f, %.2f degrees, %s) is marked %s", r, a, b, da, de, ok ? "all compressed" : "some skipped", valid ? "valid" : "skipped");
            if (overload) CHECK(edge || want, "invalid", "ray %d of pulses %d to %d (%.2f, %.2f degrees, %s) is marked valid", r, a, b, da, de, ok ? "all compressed" : "some skipped");
            CHECK(g.h.startTimeDouble == A.t && g.h.endTimeDouble == B.t && !memcmp(&g.h.startTime, &A.h.time, sizeof g.h.startTime) && !memcmp(&g.h.endTime, &B.h.time, sizeof g.h.endTime), "header", "ray %d of pulses %d to %d is timed %.6f to %.6f instead of %.6f to %.6f", r, a, b, g.h.startTimeDouble, g.h.endTimeDouble, A.t, B.t);
            CHECK(g.h.startAzimuth == A.h.azimuthDegrees && g.h.endAzimuth == B.h.azimuthDegrees && g.h.startElevation == A.h.elevationDegrees && g.h.endElevation == B.h.elevationDegrees, "header", "ray %d of pulses %d to %d has azimuth %.3f to %.3f, elevation %.3f to %.3f instead of %.3f to %.3f, %.3f to %.3f", r, a, b, g.h.startAzimuth, g.h.endAzimuth, g.h.startElevation, g.h.endElevation, A.h.azimuthDegrees, B.h.azimuthDegrees, A.h.elevationDegrees, B.h.elevationDegrees);
            uint32_t m = 0; for (int k = a; k <= b; k++) m |= pul[k].h.marker; CHECK(g.h.marker == m, "header", "ray %d of pulses %d to %d has marker %x instead of %x", r, a, b, g.h.marker, m); CHECK(g.h.pulseCount == (uint32_t)(b - a + 1), "header", "ray %d of pulses %d to %d has a pulse count of %d", r, a, b, g.h.pulseCount);
            CHECK(g.h.configIndex == B.h.configIndex && g.h.gateCount == std::min(A.h.downSampledGateCount, B.h.downSampledGateCount) && g.h.gateSizeMeters == B.h.gateSizeMeters && g.h.sweepElevation == B.c.sweepElevation && g.h.sweepAzimuth == B.c.sweepAzimuth, "header", "ray %d of pulses %d to %d has configuration %d, %d gates, sweep %.3f %.3f instead of %d, %d, %.3f %.3f", r, a, b, g.h.configIndex, g.h.gateCount, g.h.sweepElevation, g.h.sweepAzimuth, B.h.configIndex, std::min(A.h.downSampledGateCount, B.h.downSampledGateCount), B.c.sweepElevation, B.c.sweepAzimuth);
            if (valid) { for (auto it = ctx.calls.begin(); it != ctx.calls.end(); ++it) if (it->first == A.id && it->last == B.id && it->count == b - a + 1) { c = *it; have = true; ctx.calls.erase(it); break; } CHECK(have, "pulses", "ray %d is not computed from pulses %d to %d", r, a, b); CHECK(c.intact, "invalid", "ray %d of pulses %d to %d is marked valid although its pulses were recycled before it was done", r, a, b);
                uint32_t G1 = g.h.gateCount; if (ctx.proc == 0) { for (uint32_t q = 0; q < G1; q++) { bool last = false; float wz = (float)(A.id % 60), wv = (float)((b - a + 1) % 10), ww = (float)(B.id % 4); (void)last; CHECK(g.z[q] == wz && g.z[G1 + q] == wv && g.z[2 * G1 + q] == ww, "data", "ray %d of pulses %d to %d has other data at gate %u: %g %g %g instead of %g %g %g", r, a, b, q, g.z[q], g.z[G1 + q], g.z[2 * G1 + q], wz, wv, ww); } }
                else if (!c.z.empty()) { CHECK(c.z.size() == g.z.size(), "data", "ray %d has another size", r); for (size_t q = 0; q < c.z.size(); q++) CHECK(!memcmp(&c.z[q], &g.z[q], 4), ctx.proc == 1 ? "data1" : ctx.proc == 2 ? "data2" : ctx.proc == 3 ? "data3" : "data4", "ray %d of pulses %d to %d has %g as product %d at gate %d, its pulses alone make %g", r, a, b, g.z[q], prods[q / G1], (int)(q % G1), c.z[q]); sim_probe("rays recomputed"); }
                sim_probe("valid rays"); if (m & RKMarkerSweepBegin) sim_probe("sweeps begun"); if (b - a + 1 == RKMaximumPulsesPerRay) sim_probe("rays of the maximum length"); } else sim_probe("skipped rays");
        } if (ctx.calls.size() > 300) ctx.calls.erase(ctx.calls.begin(), ctx.calls.begin() + 100); };
    uint32_t nx = 0; ns_t quiet = sim_now(); size_t lastgot = 0; int lastcur = 0; ns_t since = 0;
    for (;;) {
        sim_sleep_ns((1 + wl(3)) * MS); if (pdone && !since) since = sim_now();
        sim_atomic_begin(); for (uint32_t i = got.size(); i < got.size() + std::min<uint32_t>(rdepth - 2, (uint32_t)cores * 2); i++) { RKRay *r = RKGetRayFromBuffer(radar->rays, i % rdepth); if (r->header.i == i && (r->header.s & RKRayStatusReady) && !early.count(i)) early[i] = rayhash(r); } sim_atomic_end();
        if (getter) for (int q = 0; q < 5; q++) { RKRay *r = RKMomentEngineGetProcessedRay(E, false); if (!r) break; CHECK(r == RKGetRayFromBuffer(radar->rays, nx), "order", "ray %u is delivered from the wrong slot", nx); deliver(r); nx = RKNextModuloS(nx, rdepth); }
        else while (nx != radar->rayIndex) { deliver(RKGetRayFromBuffer(radar->rays, nx)); nx = RKNextModuloS(nx, rdepth); }
        if (!overload && E->almostFull) { sim_probe("overload by a long stall"); break; }   // a worker held up between delivery and its lag report: the engine drops rays by its overload rule
        judge(); while (cursor < (int)pul.size() && used(pul[cursor])) cursor++;
        if (got.size() != lastgot || cursor != lastcur) { lastgot = got.size(); lastcur = cursor; quiet = sim_now(); }
        if (!overload) { bool more = got.size() < exp.size(), rel = got.size() == exp.size() && cursor < morigin; if (!more && !rel) { quiet = sim_now(); if (pdone) break; } else { CHECK(!more || sim_now() - quiet < 60 * SEC, "stuck", "ray %d of pulses %d to %d is not delivered", (int)got.size(), exp[got.size()].a, exp[got.size()].b); CHECK(!rel || sim_now() - quiet < 60 * SEC, "release", "pulse %d is in no ray and is not released, later stages wait for it for ever", cursor); } }
        else { if (since && sim_now() - since > 20 * SEC && E->business == 0) break; CHECK(!since || sim_now() - since < 200 * SEC, "stuck", "%d rays are not delivered after the pulses have ended", E->business); }
    }
    if (overload) {   // and then it works again
        // all pulses but those still being gathered are released
        int lastr = -1; for (int k = (int)pul.size() - 1; k >= 0 && lastr < 0; k--) if (pul[k].bin != pul.back().bin || (pul[k].h.marker & (RKMarkerSweepBegin | RKMarkerSweepEnd))) lastr = k; for (int k = std::max(0, (int)pul.size() - (int)depth * 3 / 4); k < lastr; k++) CHECK(used(pul[k]), "release", "pulse %d of %d is not released (status %x, gathered to %d, bin %d, last %d)", k, (int)pul.size(), pul[k].p->header.s, pul[k].p->header.positionIndex, pul[k].bin, lastr);
    }
    sim_deadline(20 * SEC, "stop", "stopping the engine"); CHECK(RKMomentEngineStop(E) == RKResultSuccess, "stop", "stop failed"); sim_deadline_clear(); quit = true; sim_join(prod);
    RKMomentEngineFree(E); RKFFTModuleFree(fft);
}
