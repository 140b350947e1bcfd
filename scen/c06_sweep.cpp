// C06: a completed sweep becomes one product file set with exactly its rays
#include "rk.h"
#include <netcdf.h>
#include <unistd.h>
namespace {
struct Ray { uint64_t id; int gates; uint32_t marker; double t0, t1; int cfg; };
struct Sweep { int a, b; bool strict, record, trimmed, either; int first, n; std::set<std::string> want; std::map<std::string, int> got; std::set<std::string> failed; std::string base; int cfg, scan, calls = 0; bool done = false; uint32_t list; };
struct Ctx { RKSweepEngine *E; RKRadarDesc *desc; std::deque<Ray> rays; std::deque<Sweep> sw; bool overload, stopping = false; double slow, pfail; int busy = 0, cur = -1; bool realw; uint32_t list; RKConfig *configs; std::string cwd; } *G;
const char *SYM[] = {"Z", "V", "W", "D", "P", "R", "K", "Sh", "Sv", "Q", "Lh", "Lv", "Rxh", "Rxv", "Pxh", "Pxv"};
const char *NAME[] = {"Intensity", "Radial_Velocity", "Width", "Differential_Reflectivity", "PhiDP", "RhoHV", "KDP", "Signal_Power_H", "Signal_Power_V", "SQI", "Linear_Depolarization_Ratio_H", "Linear_Depolarization_Ratio_V", "Co-cross_Correlation_Coefficient_H", "Co-cross_Correlation_Coefficient_V", "Co-cross_Differential_Phase_H", "Co-cross_Differential_Phase_V"};
float val(uint64_t id, int p, int g) { if ((id * 7 + g * 13 + p) % 29 == 0) return NAN; return (float)id + p / 32.0f + (g % 64) / 4096.0f; }
int symi(const char *s) { for (int i = 0; i < 16; i++) if (!strcmp(s, SYM[i])) return i; return -1; }
std::string fname(double t, const Sweep &s) {
    char b[200]; time_t x = (time_t)t; struct tm m; gmtime_r(&x, &m); size_t k = strftime(b, sizeof b, "data/moment/%Y%m%d/SIM-%Y%m%d-%H%M%S", &m); RKConfig &c = G->configs[s.cfg];
    if (s.scan == RKMarkerScanTypePPI) snprintf(b + k, sizeof b - k, "-E%.1f", c.sweepElevation); else if (s.scan == RKMarkerScanTypeRHI) snprintf(b + k, sizeof b - k, "-A%.1f", c.sweepAzimuth); else snprintf(b + k, sizeof b - k, "-N%03d", s.n); return b;
}
int find(uint64_t first) { for (size_t i = 0; i < G->sw.size(); i++) if (G->rays[G->sw[i].first].id == first) return (int)i; return -1; }
// the contents of a product against the rays of its sweep
void verify(const Sweep &s, int p, uint32_t n, uint32_t gates, const float *az, const float *el, const float *d, bool file, const char *what) {
    CHECK((int)n == s.n, "rays", "%s: %u rays, the sweep has %d", what, n, s.n);
    CHECK((int)gates == G->rays[s.first].gates, "gates", "%s: %u gates, the rays have %d", what, gates, G->rays[s.first].gates);
    for (int k = 0; k < s.n; k++) {
        const Ray &r = G->rays[s.first + k]; CHECK(az[k] == (float)r.id, "mixed", "%s: ray %d is ray %.0f, not %lu (rays %lu ... %lu)", what, k, az[k], (unsigned long)r.id, (unsigned long)G->rays[s.first].id, (unsigned long)G->rays[s.first + s.n - 1].id);
        CHECK(el[k] == (float)r.id * 0.25f, "mixed", "%s: elevation of ray %d is %f, not %f", what, k, el[k], r.id * 0.25f);
        for (uint32_t g = 0; g < gates; g++) { float x = d[(size_t)k * gates + g], y = (int)g < r.gates ? val(r.id, p, g) : NAN; if (file && std::isnan(y)) y = -99900.0f; CHECK(std::isnan(x) ? std::isnan(y) : x == y, "values", "%s: ray %d (id %lu) gate %u of %d is %f, not %f", what, k, (unsigned long)r.id, g, r.gates, x, y); }
    }
}
int recorder(RKProduct *p, const char *fn) {
    CHECK(++G->busy == 1, "concurrent", "two product files are being written at the same time");
    int i = symi(p->desc.symbol); CHECK(i >= 0, "symbol", "product with symbol '%s'", p->desc.symbol);
    int q = find((uint64_t)p->startAzimuth[0]); CHECK(q >= 0, "mixed", "%s starts with ray %.0f, which starts no sweep", fn, p->startAzimuth[0]);
    Sweep &s = G->sw[q]; CHECK(q >= G->cur, "order", "%s of sweep %d is written after sweep %d", fn, q, G->cur); G->cur = q;
    CHECK(s.record || s.either, "unwanted", "%s is written although sweep %d is not to be recorded", fn, q);
    CHECK(s.want.count(p->desc.symbol), "unwanted", "%s is written although sweep %d has no %s", fn, q, p->desc.symbol);
    CHECK(s.got[p->desc.symbol]++ == 0, "twice", "%s is written twice for sweep %d", fn, q);
    CHECK(s.base + "-" + p->desc.symbol + ".nc" == fn, "name", "the file is %s, it should be %s-%s.nc", fn, s.base.c_str(), p->desc.symbol);
    CHECK(!strcmp(p->header.suggestedFilename, fn), "name", "suggested %s", p->header.suggestedFilename);
    const RKProductHeader &h = p->header; const RKConfig &c = G->configs[s.cfg];
    CHECK(h.isPPI == (s.scan == RKMarkerScanTypePPI) && h.isRHI == (s.scan == RKMarkerScanTypeRHI), "header", "%s: PPI %d RHI %d of scan type %x", fn, h.isPPI, h.isRHI, s.scan);
    CHECK(h.startTime == (time_t)G->rays[s.first].t0 && h.endTime == (time_t)G->rays[s.first + s.n - 1].t1, "header", "%s: time %ld - %ld", fn, h.startTime, h.endTime);
    CHECK(h.sweepElevation == c.sweepElevation && h.sweepAzimuth == c.sweepAzimuth && h.noise[0] == c.noise[0] && h.prt[0] == c.prt[0] && !strcmp(h.vcpDefinition, c.vcpDefinition) && !strcmp(h.waveformName, c.waveformName) && h.gateSizeMeters == 30.0f, "header", "%s: header values are not those of the sweep's configuration (vcp '%s')", fn, h.vcpDefinition);
    verify(s, i, h.rayCount, h.gateCount, p->startAzimuth, p->startElevation, p->data, false, fn);
    int r = RKResultSuccess;
    if (G->realw) r = RKProductFileWriterNC(p, fn);
    else { if (G->slow > 0) { sim_sleep_ns((ns_t)(wlf() * wlf() * G->slow * SEC)); verify(s, i, h.rayCount, h.gateCount, p->startAzimuth, p->startElevation, p->data, false, fn); } if (G->pfail > 0 && sim_fault("product recorder fails", G->pfail)) r = RKResultFailedToOpenFileForProduct; else vfs_put_size(fn, 1000 + i, (int64_t)sim_wall()); }
    if (r != RKResultSuccess) s.failed.insert(p->desc.symbol);
    s.calls++; G->busy--; sim_probe("products recorded"); sim_hash((uint64_t)q * 100 + i); return r;
}
}
SCENARIO(sweeps, "C06") {
    rk_quiet(); chaos(); cfg.max_vtime = 40000 * SEC; Ctx ctx; G = &ctx; ctx.cwd = "/"; vfs_put("probe", "", 0); for (auto &p : vfs_list("/")) if (p.size() > 5 && p.compare(p.size() - 5, 5, "probe") == 0) ctx.cwd = p.substr(0, p.size() - 5); vfs_remove("probe");
    bool overload = ctx.overload = Pbool("overload", 0.2), full = !overload && Pbool("fullturns", 0.1), early = Pbool("earlystop", 0.15), script = Pbool("script", 0.2), useFM = Pbool("filemanager", 0.25), fillfirst = Pbool("fillfirst", 0.5); ctx.realw = Pbool("realwriter", 0.15);
    uint32_t depth = full ? 900 + (uint32_t)wl(600) : 24 + (uint32_t)P("depth", 0, 150), cap = full ? 16 : 64; int nsw = (int)P("items", 2, full ? 8 : 25);
    ctx.slow = (double[]){0, 0, 0.1, 1, 5}[P("slow", 0, 4)]; ctx.pfail = Pbool("failing", 0.3) ? 0.15 : 0; double rate = (double[]){2, 20, 100, 1000}[P("rate", 0, 3)];
    int fault = ctx.realw ? (int)P("diskfault", 0, 4) : 0; if (fault == 1) cfg.p_open_fail = 0.1; if (fault == 2) cfg.p_write_fail = 0.1; if (fault == 4) cfg.disk_capacity = 200000 + (int64_t)wl(2000000); if (fault == 3 || wl(3) == 0) cfg.p_disk_slow = 0.3, cfg.disk_slow_hi = (1 + (int)wl(2000)) * MS;
    RKRadarDesc *desc = ctx.desc = new_desc(cap, 10); desc->rayBufferDepth = depth; desc->configBufferDepth = nsw + 4; strcpy(desc->dataPath, "data");
    RKBuffer rays; RKRayBufferAlloc(&rays, cap, depth); uint32_t rayIndex = 0, configIndex = 0; RKConfig *configs; RKConfigBufferAlloc(&configs, nsw + 4); ctx.configs = configs;
    RKFileManager *fm = NULL; if (useFM) { fm = RKFileManagerInit(); RKFileManagerSetEssentials(fm, desc); RKFileManagerSetDiskUsageLimit(fm, 1UL << 40); CHECK(RKFileManagerStart(fm) == RKResultSuccess, "fm", "file manager does not start"); }
    RKSweepEngine *E = ctx.E = RKSweepEngineInit(); RKSweepEngineSetVerbose(E, 0); RKSweepEngineSetEssentials(E, desc, fm, configs, &configIndex, rays, &rayIndex);
    bool recording = !Pbool("startoff", 0.2); RKSweepEngineSetRecord(E, recording); RKSweepEngineSetProductRecorder(E, recorder);
    if (script) { vfs_put("scripts/handle.sh", "x", 0); RKSweepEngineSetFilesHandlingScript(E, "scripts/handle.sh", RKScriptPropertyNull); }
    CHECK(RKSweepEngineStart(E) == RKResultSuccess, "start", "start failed"); uint32_t elist = E->baseProductList;
    // the producer of rays
    double t = floor(sim_wall()); int lag = 0; uint32_t seen = 0; std::vector<uint32_t> lists;
    auto behind = [&] { return (int)((rayIndex + depth - E->processedRayIndex) % depth); };
    bool quit = false; auto unfinished = [&]() -> int { for (auto &s : ctx.sw) if (!s.done) { if (s.record && !s.either && s.calls < (int)s.want.size()) return s.a; s.done = true; } return (int)ctx.rays.size(); };
    auto room = [&] { return behind() < (int)depth - 4 && (int)ctx.rays.size() - unfinished() < (int)depth - 2; };
    auto ray = [&](uint32_t marker, int cf, int gates, uint32_t list, double dur) {
        if (!overload) { bool ok = sim_wait_until([&] { return quit || room(); }, 1000 * SEC, 10 * MS); if (quit) return 0; int u = unfinished(); CHECK(ok, "stuck", "%d rays have been produced, the engine is %d behind; the sweep that starts at ray %d is not recorded after 1000 s", (int)ctx.rays.size(), behind(), u); }
        RKRay *r = RKGetRayFromBuffer(rays, rayIndex); Ray q; q.id = ctx.rays.size(); q.gates = gates; q.marker = marker; q.t0 = t; q.cfg = cf; t += dur; q.t1 = t;
        r->header.s = RKRayStatusVacant; if (!fillfirst) { r->header.i = q.id; rayIndex = (rayIndex + 1) % depth; if (wl(4) == 0) sim_yield(); }
        ctx.rays.push_back(q);
        r->header.marker = marker; r->header.configIndex = (uint16_t)cf; r->header.gateCount = (uint16_t)gates; r->header.gateSizeMeters = 30; r->header.baseProductList = list; r->header.startTime.tv_sec = (time_t)q.t0; r->header.startTime.tv_usec = (suseconds_t)((q.t0 - floor(q.t0)) * 1e6); r->header.endTime.tv_sec = (time_t)q.t1; r->header.endTime.tv_usec = 0;
        r->header.startAzimuth = (float)q.id; r->header.endAzimuth = q.id + 0.5f; r->header.startElevation = q.id * 0.25f; r->header.endElevation = q.id * 0.25f; r->header.pulseCount = 10;
        for (int p = 0; p < 16; p++) { float *d = RKGetFloatDataFromRay(r, (RKBaseProductIndex)p); for (int g = 0; g < gates; g++) d[g] = val(q.id, p, g); if (p == 8 && wl(4) == 0) sim_yield(); }
        r->header.i = q.id; __sync_fetch_and_or(&r->header.s, RKRayStatusProcessed | RKRayStatusReady); if (fillfirst) rayIndex = (rayIndex + 1) % depth;
        sim_sleep_ns((ns_t)(SEC / rate)); return (int)ctx.rays.size() - 1;
    };
    // what a sweep of rays a..b is expected to become
    auto conclude = [&](int a, int b, int scan, bool strict) {
        Sweep s; s.a = a; s.b = b; s.strict = strict; s.first = a; s.n = b - a + 1; s.cfg = ctx.rays[std::min(a + 1, b)].cfg; s.scan = scan; s.trimmed = false; s.either = overload || !strict; s.list = 0; for (int k = a; k <= b; k++) s.list |= lists[k]; int n = s.n;
        if (n > RKMaximumRaysPerSweep) s.n = RKMaximumRaysPerSweep;
        if (n > 360 && n < 380) { bool S = ctx.rays[a].marker & RKMarkerSweepBegin, T = ctx.rays[a + 1].marker & RKMarkerSweepBegin; if (T) { s.first = a + 1; s.n = 360; } else if (n > 361) { s.first = a + n - 361; s.n = 360; } else if (S) s.n = 360; }
        int mid = 0; for (int k = 0; k < s.n; k++) mid += (ctx.rays[s.first + k].marker & RKMarkerSweepMiddle) != 0; s.record = recording && s.n >= 3 && (float)mid / s.n >= 0.8f;
        for (int p = 0; p < 16; p++) if (s.list & elist & (RKBaseProductListFloatZ << p)) s.want.insert(SYM[p]);
        s.base = fname(ctx.rays[s.first].t0, s); ctx.sw.push_back(s);
    };
    int cf = 0; int64_t lastgap = 0; (void)lastgap; (void)lag; (void)seen; bool flush = Pbool("flush", 0.3), open = false; int opena = 0, openscan = 0;
    int prod = sim_spawn("moment", [&] {
        int joined = -1, jscan = 0, began = -1;
        for (int it = 0; it < nsw && !quit; it++) {
            int kind = (int)wl(10); if (joined >= 0) kind = 9; cf++; int scan = (int[]){RKMarkerScanTypePPI, RKMarkerScanTypePPI, RKMarkerScanTypeRHI, RKMarkerScanTytpePoint}[wl(4)]; if (joined >= 0) scan = jscan;
            auto fill = [&](int cf) { RKConfig &c = configs[cf]; c.i = cf; c.sweepElevation = 0.5f * wl(60); c.sweepAzimuth = 1.0f * wl(360); c.startMarker = scan | RKMarkerSweepMiddle; c.noise[0] = 0.1f * cf; c.prt[0] = 0.001; c.pw[0] = 1e-6; snprintf(c.waveformName, sizeof c.waveformName, "w%d", cf); snprintf(c.vcpDefinition, sizeof c.vcpDefinition, "vcp-%d-of-the-run", cf); }; if (joined < 0) fill(cf); configIndex = cf;
            uint32_t list = wl(3) ? RKBaseProductListFloatZVWDPRKS : (uint32_t)wl(65536) << 16; if (joined >= 0) list = lists.back(); int gates = 1 + (int)wl(cap); int ragged = wl(5) == 0; double dur = (double[]){0.02, 0.1, 0.5}[wl(3)]; int mx = (int)depth / 2 - 2, n = full && wl(2) ? 355 + (int)wl(28) : 3 + (int)wl(std::min(mx, wl(3) ? 12 : 120)); n = std::min(n, mx);
            bool mixed = wl(10) == 0; auto R = [&](uint32_t m) { uint32_t whole = list, list = mixed && wl(3) == 0 ? whole & (uint32_t)wl(65536) << 16 : whole; int g = ragged ? 1 + (int)wl(cap) : gates; lists.push_back(list); return ray(m, cf, g, list, dur); };
            if (kind == 0) { int k = 1 + (int)wl(10); while (k--) R(scan); sim_probe("transition rays"); t = floor(t) + 2; continue; }              // not part of any sweep
            if (kind == 1) { int k = 1 + (int)wl(n); R(scan | RKMarkerSweepBegin | RKMarkerSweepMiddle); while (--k > 0) R(scan | RKMarkerSweepMiddle); sim_probe("sweeps abandoned"); t = floor(t) + 2; began = 1; continue; }
            if (kind == 2 && began < 0) { R(scan | RKMarkerSweepBegin | RKMarkerSweepEnd | RKMarkerSweepMiddle); sim_probe("sweeps of one ray"); t = floor(t) + 2; R(scan); continue; }
            if (kind == 3 && !overload) { bool ok = sim_wait_until([&] { return quit || (unfinished() == (int)ctx.rays.size() && behind() <= 1 && E->business == (began > 0 ? 1u : 0u)); }, 1000 * SEC, 10 * MS); CHECK(ok, "busy", "1000 s after the last of %d rays the engine is still busy: %u sweeps, %d rays behind, first unfinished ray %d", (int)ctx.rays.size(), E->business, behind(), unfinished()); sim_sleep_ns(SEC); recording = !recording; RKSweepEngineSetRecord(E, recording); sim_probe("recording switched"); }
            if (quit) break; began = -1; bool poor = wl(8) == 0; int a = joined >= 0 ? joined : R(scan | RKMarkerSweepBegin | RKMarkerSweepMiddle); joined = -1;
            for (int k = 1; k < n - 1; k++) R(scan | (poor && k % 2 ? 0 : RKMarkerSweepMiddle));
            bool jn = wl(6) == 0 && it + 1 < nsw && !full; int b = (int)ctx.rays.size();
            if (jn) t = floor(t) + 1;
            // the expectation has to be there before the last ray is
            bool lastflush = flush && it == nsw - 1; if (lastflush) { openscan = scan; opena = a; open = true; R(scan | RKMarkerSweepMiddle); break; }
            lists.push_back(list); Ray q; q.id = b; q.gates = gates; q.marker = scan | RKMarkerSweepMiddle | RKMarkerSweepEnd | (jn ? RKMarkerSweepBegin : 0); q.t0 = t; q.t1 = t + dur; q.cfg = cf; if (jn) { fill(cf + 1); if (wl(2)) configIndex = q.cfg = cf + 1; } ctx.rays.push_back(q); conclude(a, b, scan, true); ctx.rays.pop_back();
            ray(q.marker, q.cfg, gates, list, dur); if (jn) { joined = b; jscan = scan; sim_probe("sweeps that share a ray"); } sim_probe("sweeps");
            t = floor(t) + 2;
        }
        if (began > 0) { open = true; opena = 1 << 30; }
    });
    sim_deadline(30000 * SEC, "stuck", "the producer"); (void)openscan;
    ns_t t0 = sim_now();
    if (early) { ns_t d = (ns_t)(wlf() * 2 * nsw * 20 / rate * SEC); sim_wait_until([&] { return sim_thread_done(prod) || sim_now() - t0 > d; }, 20000 * SEC, 10 * MS); }
    else sim_join(prod);
    if (!early) {
        sim_wait_until([&] { return behind() <= 1 || E->business == 0; }, 100 * SEC, 10 * MS);
        if (open && flush && !overload && ctx.rays.size() && opena < (int)ctx.rays.size()) {   // the sweep that has begun is concluded by a flush
            sim_wait_until([&] { return unfinished() == (int)ctx.rays.size() && behind() <= 1 && E->business == 1; }, 1000 * SEC, 10 * MS); sim_sleep_ns(SEC);
            int b = (int)ctx.rays.size() - 1; ctx.rays[b].marker |= RKMarkerSweepEnd; conclude(opena, b, openscan, true); RKSweepEngineFlush(E); open = false; sim_probe("flushes");
        }
        bool ok = sim_wait_until([&] { return (overload || unfinished() == (int)ctx.rays.size()) && E->business == (open ? 1u : 0u); }, 2000 * SEC, 10 * MS);
        if (!overload) CHECK(ok, "busy", "2000 s after the last ray (of %d) the engine is still busy: %u sweeps, %d rays behind, first unfinished ray %d, open %d", (int)ctx.rays.size(), E->business, behind(), unfinished(), open);
        if (overload) {   // the overload is over: a further sweep is recorded
            sim_sleep_ns(60 * SEC); sim_wait_until([&] { return E->business <= 1; }, 2000 * SEC, 10 * MS); overload = ctx.overload = false; recording = true; RKSweepEngineSetRecord(E, true); cf++; RKConfig &c = configs[cf]; c.i = cf; c.sweepElevation = 3; c.startMarker = RKMarkerScanTypePPI; strcpy(c.vcpDefinition, "last"); t = floor(t) + 5; for (auto &s : ctx.sw) s.done = true;
            int a = 0, m = 5; for (int k = 0; k < m; k++) { uint32_t mk = RKMarkerScanTypePPI | RKMarkerSweepMiddle | (k == 0 ? RKMarkerSweepBegin : 0); lists.push_back(RKBaseProductListFloatZVWDPRKS); if (k == m - 1) { Ray q; q.id = ctx.rays.size(); q.gates = 5; q.marker = mk; q.t0 = t; q.t1 = t + 0.1; q.cfg = cf; ctx.rays.push_back(q); conclude(a, (int)ctx.rays.size() - 1, RKMarkerScanTypePPI, true); ctx.rays.pop_back(); mk |= RKMarkerSweepEnd; } int i = ray(mk, cf, 5, RKBaseProductListFloatZVWDPRKS, 0.1); if (k == 0) a = i; sim_sleep_ns(100 * MS); }
            ok = sim_wait_until([&] { return ctx.sw.back().calls == (int)ctx.sw.back().want.size() && E->business == 0; }, 2000 * SEC, 10 * MS);
            CHECK(ok, "stuck", "a sweep that came after the overload is not recorded: %d of %d products (busy %u, %d rays behind)", ctx.sw.back().calls, (int)ctx.sw.back().want.size(), E->business, behind()); sim_probe("recovered from overload");
        }
        if (!open) { ns_t w = sim_now(); RKSweepEngineWaitWhileBusy(E); CHECK(ctx.busy == 0, "busy", "a file is being written when RKSweepEngineWaitWhileBusy() returns"); (void)w; }
    }
    quit = true; sim_deadline(600 * SEC + (ns_t)(20 * ctx.slow * SEC) + (ns_t)(200 * cfg.disk_slow_hi), "stop", "RKSweepEngineStop() after the last ray");
    CHECK(RKSweepEngineStop(E) == RKResultSuccess, "stop", "stop failed"); sim_deadline_clear(); CHECK(ctx.busy == 0, "stop", "a file is being written after RKSweepEngineStop()"); int cur = 0; for (auto &s : ctx.sw) cur += s.calls;
    sim_join(prod); if (useFM) { sim_calm(); sim_sleep_ns(SEC); }
    sim_sleep_ns(5 * SEC); int now = 0; for (auto &s : ctx.sw) now += s.calls; CHECK(now == cur, "stop", "products are recorded after RKSweepEngineStop()");
    // all there, each once
    std::set<std::string> okfiles; size_t bytes = 0; int ncmd = 0; bool tail = false;
    for (size_t i = 0; i < ctx.sw.size(); i++) { Sweep &s = ctx.sw[i];
        if (!s.calls && (s.either || early || !s.record)) { if (early && s.record && !s.either) tail = true; continue; }
        CHECK(!tail || s.either, "missing", "sweep %d is recorded, an earlier one is not", (int)i);
        CHECK(s.calls == (int)s.want.size(), "missing", "sweep %d of %d (rays %d-%d): %d of %d products recorded", (int)i, (int)ctx.sw.size(), s.a, s.b, s.calls, (int)s.want.size());
        for (auto &y : s.want) { std::string fn = ctx.cwd + s.base + "-" + y + ".nc"; if (!s.failed.count(y)) okfiles.insert(fn); else CHECK(!ctx.realw || !vfs_exists(fn) || okfiles.count(fn), "partial", "%s is left behind although writing it failed", fn.c_str()); }
        if (script && s.calls) { std::string cmd = "scripts/handle.sh"; for (int p = 0; p < 16; p++) if (s.want.count(SYM[p])) cmd += " " + s.base + "-" + SYM[p] + ".nc"; CHECK(ncmd < (int)sim_system_log.size() && sim_system_log[ncmd] == cmd, "script", "command %d is '%s', it should be '%s'", ncmd, ncmd < (int)sim_system_log.size() ? sim_system_log[ncmd].c_str() : "(none)", cmd.c_str()); ncmd++; }
    }
    if (script) { int noprod = 0; for (auto &s : ctx.sw) noprod += s.record && s.want.empty(); CHECK((int)sim_system_log.size() <= ncmd + noprod, "script", "%d commands for %d sweeps", (int)sim_system_log.size(), ncmd); }
    std::set<std::string> seenfiles;
    for (auto &fn : vfs_list("data/moment")) { CHECK(okfiles.count(fn), "unwanted", "%s is no product of a completed sweep", fn.c_str()); seenfiles.insert(fn); bytes += vfs_size(fn); }
    for (auto &fn : okfiles) CHECK(seenfiles.count(fn), "missing", "%s has been reported as written, it is not there", fn.c_str());
    if (ctx.realw) for (auto &s : ctx.sw) for (auto &y : s.want) { std::string fn = ctx.cwd + s.base + "-" + y + ".nc"; if (!s.calls || s.failed.count(y) || !okfiles.count(fn)) continue;
        std::string d = vfs_get(fn); extern char g_scratch[]; std::string rp = std::string(g_scratch) + "/check"; FILE *f = fopen(rp.c_str(), "wb"); if (!f) sim_harness_error("scratch"); fwrite(d.data(), 1, d.size(), f); fclose(f);
        int id, v, dm[2]; size_t n = 0, g = 0; CHECK(nc_open(rp.c_str(), NC_NOWRITE, &id) == NC_NOERR, "corrupt", "%s can not be opened (%zu bytes)", fn.c_str(), d.size()); int pi = symi(y.c_str());
        CHECK(nc_inq_varid(id, NAME[pi], &v) == NC_NOERR && nc_inq_vardimid(id, v, dm) == NC_NOERR && nc_inq_dimlen(id, dm[0], &n) == NC_NOERR && nc_inq_dimlen(id, dm[1], &g) == NC_NOERR, "corrupt", "%s has no %s", fn.c_str(), NAME[pi]);
        std::vector<float> x(n * g), az(n), el(n); CHECK(nc_get_var_float(id, v, x.data()) == NC_NOERR && nc_inq_varid(id, "Azimuth", &v) == NC_NOERR && nc_get_var_float(id, v, az.data()) == NC_NOERR && nc_inq_varid(id, "Elevation", &v) == NC_NOERR && nc_get_var_float(id, v, el.data()) == NC_NOERR, "corrupt", "%s can not be read", fn.c_str());
        double tm = 0; float e = 0, a = 0; char sc[64] = ""; nc_get_att_double(id, NC_GLOBAL, "Time", &tm); nc_get_att_float(id, NC_GLOBAL, "Elevation", &e); nc_get_att_float(id, NC_GLOBAL, "Azimuth", &a); nc_get_att_text(id, NC_GLOBAL, "ScanType", sc);
        CHECK(tm == floor(ctx.rays[s.first].t0), "header", "%s: time %.0f", fn.c_str(), tm); CHECK(e == (s.scan == RKMarkerScanTypePPI ? configs[s.cfg].sweepElevation : -99900.0f) && a == (s.scan == RKMarkerScanTypeRHI ? configs[s.cfg].sweepAzimuth : -99900.0f), "header", "%s: elevation %f azimuth %f scan %s", fn.c_str(), e, a, sc);
        verify(s, pi, (uint32_t)n, (uint32_t)g, az.data(), el.data(), x.data(), true, fn.c_str()); nc_close(id); unlink(rp.c_str()); sim_probe("files read back");
    }
    if (useFM) { CHECK(fm->workers[RKFileTypeMoment].usage == bytes, "archive", "the archive manager knows of %zu bytes of products, %zu bytes are there", (size_t)fm->workers[RKFileTypeMoment].usage, bytes); RKFileManagerStop(fm); RKFileManagerFree(fm); }
    RKSweepEngineFree(E); CHECK(sim_live_code_threads() == 0, "threads", "threads are left:\n%s", sim_thread_dump().c_str());
}
