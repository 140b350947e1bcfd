// C32: product files come back as they were stored, one by one, as a collection and as a sweep; damaged ones do no harm
#include "rk.h"
int sim_open_nc(void);
namespace { struct Sym { const char *s, *name; RKBaseProductIndex idx; RKBaseProductList bit; };
const Sym T[] = {{"Z", "Intensity", RKBaseProductIndexZ, RKBaseProductListFloatZ}, {"V", "Radial_Velocity", RKBaseProductIndexV, RKBaseProductListFloatV}, {"W", "Width", RKBaseProductIndexW, RKBaseProductListFloatW}, {"D", "Differential_Reflectivity", RKBaseProductIndexD, RKBaseProductListFloatD}, {"P", "PhiDP", RKBaseProductIndexP, RKBaseProductListFloatP}, {"R", "RhoHV", RKBaseProductIndexR, RKBaseProductListFloatR}, {"K", "KDP", RKBaseProductIndexK, RKBaseProductListFloatK},
    {"Sh", "Signal_Power_H", RKBaseProductIndexCount, 0}, {"Sv", "Signal_Power_V", RKBaseProductIndexCount, 0}, {"Zi", "Raw_Intensity", RKBaseProductIndexCount, 0}, {"USERPRD", "User_Product", RKBaseProductIndexCount, 0}};
enum State { Absent, Writing, Stored, Failed, Damaged };
struct F { std::string path; int sym; RKProduct *p; std::vector<float> x; State state = Absent; uint32_t rays, gates; };
struct Sweep { std::string prefix; std::vector<int> fs; };
float rv(void) { return (float)(wlf() * 200 - 100); }
bool eq(float a, float b) { return a == b || fabsf(a - b) <= 2e-6f * (fabsf(a) + fabsf(b)); }
RKProduct *make(int sym, uint32_t rays, uint32_t gates, const RKProductHeader &h) {
    RKProduct *p = nullptr; RKProductBufferAlloc(&p, 1, rays, gates); p->header = h; p->header.rayCount = rays; p->header.gateCount = gates; strcpy(p->desc.name, T[sym].name); strcpy(p->desc.symbol, T[sym].s); snprintf(p->desc.unit, sizeof p->desc.unit, "%s", wl(3) ? "dBZ" : ""); snprintf(p->desc.colormap, sizeof p->desc.colormap, "map-%s", T[sym].s);
    float az = (float)(wlf() * 360), el = (float)(wlf() * 20), st = 0.5f + (float)wlf(); for (uint32_t k = 0; k < rays; k++) { float a = fmodf(az + st * k, 360), b = fmodf(az + st * (k + 1), 360); p->startAzimuth[k] = h.isRHI ? az : a; p->endAzimuth[k] = h.isRHI ? az : b; p->startElevation[k] = h.isPPI ? el : el + st * k; p->endElevation[k] = h.isPPI ? el : el + st * (k + 1); }
    for (uint32_t k = 0; k < rays * gates; k++) p->data[k] = wl(12) ? rv() : wl(2) ? NAN : wl(2) ? INFINITY : -INFINITY; return p;
}
void same(const RKProduct *r, const F &f, const char *how) {
    const RKProductHeader &a = r->header, &b = f.p->header; const char *fn = f.path.c_str();
    CHECK(a.rayCount == f.rays && a.gateCount == f.gates, "size", "%s %s has %u x %u values, stored were %u x %u", how, fn, a.rayCount, a.gateCount, f.rays, f.gates);
    CHECK(!strcmp(r->desc.name, f.p->desc.name) && !strcmp(r->desc.symbol, T[f.sym].s) && !strcmp(r->desc.unit, f.p->desc.unit) && !strcmp(r->desc.colormap, f.p->desc.colormap), "description", "%s %s is '%s' (%s) in '%s' with '%s'; stored was '%s' (%s) in '%s' with '%s'", how, fn, r->desc.name, r->desc.symbol, r->desc.unit, r->desc.colormap, f.p->desc.name, T[f.sym].s, f.p->desc.unit, f.p->desc.colormap);
    CHECK(!strcmp(a.radarName, b.radarName) && !strcmp(a.waveformName, b.waveformName) && !strcmp(a.vcpDefinition, b.vcpDefinition), "description", "%s %s: radar '%s', waveform '%s', VCP '%s'; stored were '%s', '%s', '%s'", how, fn, a.radarName, a.waveformName, a.vcpDefinition, b.radarName, b.waveformName, b.vcpDefinition);
    CHECK(a.isPPI == b.isPPI && a.isRHI == b.isRHI && a.startTime == b.startTime && a.latitude == b.latitude && a.longitude == b.longitude && a.heading == b.heading && a.radarHeight == b.radarHeight && a.gateSizeMeters == b.gateSizeMeters, "header", "%s %s: PPI %d RHI %d time %ld at (%g, %g) heading %g height %g gate %g; stored were %d %d %ld (%g, %g) %g %g %g", how, fn, a.isPPI, a.isRHI, (long)a.startTime, a.latitude, a.longitude, a.heading, a.radarHeight, a.gateSizeMeters, b.isPPI, b.isRHI, (long)b.startTime, b.latitude, b.longitude, b.heading, b.radarHeight, b.gateSizeMeters);
    CHECK((!b.isPPI || a.sweepElevation == b.sweepElevation) && (!b.isRHI || a.sweepAzimuth == b.sweepAzimuth), "angle", "%s %s: the sweep is at %g / %g, stored was %g / %g", how, fn, a.sweepElevation, a.sweepAzimuth, b.sweepElevation, b.sweepAzimuth);
    CHECK(eq(a.wavelength, b.wavelength), "wavelength", "%s %s: the wavelength is %g, stored was %g", how, fn, a.wavelength, b.wavelength); CHECK(eq(a.pw[0], b.pw[0]), "width", "%s %s: the pulse width is %g s, stored was %g s", how, fn, a.pw[0], b.pw[0]); CHECK(fabs(1 / a.prt[0] - 1 / b.prt[0]) < 0.51, "prf", "%s %s: the PRF is %g, stored was %g", how, fn, 1 / a.prt[0], 1 / b.prt[0]);
    bool c = a.noise[0] == b.noise[0] && a.noise[1] == b.noise[1] && a.systemZCal[0] == b.systemZCal[0] && a.systemZCal[1] == b.systemZCal[1] && a.systemDCal == b.systemDCal && a.systemPCal == b.systemPCal && a.SNRThreshold == b.SNRThreshold && a.SQIThreshold == b.SQIThreshold; for (int k = 0; k < 2; k++) { c &= a.DCal[k] == b.DCal[k] && a.PCal[k] == b.PCal[k]; for (int j = 0; j < 2; j++) c &= a.ZCal[k][j] == b.ZCal[k][j]; } CHECK(c, "calibration", "%s %s: a noise, calibration or threshold differs from what was stored", how, fn);
    for (uint32_t k = 0; k < f.rays; k++) CHECK(r->startAzimuth[k] == f.p->startAzimuth[k] && r->startElevation[k] == f.p->startElevation[k], "rays", "%s %s: ray %u is at %g / %g, stored was %g / %g", how, fn, k, r->startAzimuth[k], r->startElevation[k], f.p->startAzimuth[k], f.p->startElevation[k]);
    for (uint32_t k = 0; k < f.rays * f.gates; k++) CHECK(isfinite(f.x[k]) ? r->data[k] == f.x[k] : isnan(r->data[k]), "values", "%s %s: gate %u of ray %u is %g, stored was %g", how, fn, k % f.gates, k / f.gates, r->data[k], f.x[k]);
}
}
SCENARIO(products, "C32") {
    rk_quiet(); chaos(); cfg.max_steps = 60000000; cfg.steps_fatal = true; int sweeps = (int)P("sweeps", 1, 3), disk = (int)P("disk", 0, 3); bool big = Pbool("big", 0.1);
    vfs_mkdirs("/home/radar/data/moment/20250101"); vfs_mkdirs("/home/radar/other"); std::vector<Sweep> ss; std::deque<F> fs; vfs_mkdirs("/home/radar/data.d/v1.0"); static const char *dirs[] = {"/home/radar/other/", "/home/radar/data.d/v1.0/", "./"}; const char *dir = wl(4) ? "/home/radar/data/moment/20250101/" : dirs[wl(3)];
    for (int s = 0; s < sweeps; s++) {
        RKProductHeader h; memset(&h, 0, sizeof h); snprintf(h.radarName, sizeof h.radarName, "Radar %c", 'A' + (int)wl(26)); h.latitude = 35.1 + wlf(); h.longitude = -97.3 - wlf(); h.heading = (float)(wlf() * 360); h.radarHeight = rv(); h.wavelength = 0.03f + (float)wlf() / 10; h.startTime = 1735689600 + (time_t)wl(86400); int type = (int)wl(3); h.isPPI = type == 0; h.isRHI = type == 1; h.sweepElevation = (float)(wl(200) / 10.0); h.sweepAzimuth = (float)(wl(3600) / 10.0);
        h.gateSizeMeters = 15 + (float)wl(100); h.prt[0] = 1.0f / (float)(200 + wl(3000)); h.pw[0] = 1e-6f * (float)(wl(2) ? 1 + wl(50) : wlf() * 50); for (RKFloat *p : {&h.noise[0], &h.noise[1], &h.systemZCal[0], &h.systemZCal[1], &h.systemDCal, &h.systemPCal, &h.ZCal[0][0], &h.ZCal[0][1], &h.ZCal[1][0], &h.ZCal[1][1], &h.DCal[0], &h.DCal[1], &h.PCal[0], &h.PCal[1], &h.SNRThreshold, &h.SQIThreshold}) *p = rv(); snprintf(h.waveformName, sizeof h.waveformName, "%s", wl(4) ? "ofm" : ""); snprintf(h.vcpDefinition, sizeof h.vcpDefinition, "%s", wl(4) ? "vol p 2 140 180/p 4 140 180" : "");
        uint32_t rays = 1 + (uint32_t)wl(big ? 400 : 30), gates = 1 + (uint32_t)wl(big ? 200 : 30); char b[200]; if (type == 1) snprintf(b, sizeof b, "%sSIM-20250101-0102%02d-A%.1f", dir, s, h.sweepAzimuth); else if (type == 0) snprintf(b, sizeof b, "%sSIM-20250101-0102%02d-E%.1f", dir, s, h.sweepElevation); else snprintf(b, sizeof b, "%sSIM-20250101-0102%02d-N%.1f", dir, s, h.sweepElevation);
        Sweep w{b, {}}; double p = wl(3) ? 0.75 : 1; for (int k = 0; k < (int)(sizeof T / sizeof *T); k++) if (wlf() < p) { uint32_t n = rays, g = gates; if (wl(12) == 0) { n = 1 + (uint32_t)wl(60); g = 1 + (uint32_t)wl(60); } F f; f.path = std::string(b) + "-" + T[k].s + ".nc"; f.sym = k; f.rays = n; f.gates = g; f.p = make(k, n, g, h); f.x.assign(f.p->data, f.p->data + n * g); w.fs.push_back((int)fs.size()); fs.push_back(f); }
        for (size_t k = w.fs.size(); k > 1; k--) std::swap(w.fs[k - 1], w.fs[wl(k)]); if (w.fs.size()) ss.push_back(w);
        if (wl(3) == 0) vfs_put(std::string(b) + "-Z.txt", "text", 1); if (wl(4) == 0) vfs_mkdirs(std::string(b) + "-X.nc"); }
    if (fs.empty()) return; size_t mark = sim_heap_mark(); cfg.p_disk_slow = wl(2) ? 0.1 : 0; if (disk == 1) cfg.p_write_fail = 0.3; else if (disk == 2) cfg.disk_capacity = vfs_used() + (int64_t)wl(60000); else if (disk == 3) cfg.p_open_fail = 0.2; bool done = false;
    auto good = [&](int i) { return fs[i].state == Stored; };
    auto single = [&](int i, bool judge) { F &f = fs[i]; bool before = judge && good(i); RKProduct *r = RKProductFileReaderNC(f.path.c_str(), wl(4) == 0); if (before) { CHECK(r, "refused", "%s is stored and is not read", f.path.c_str()); same(r, f, "the product of"); sim_probe("products read back"); } if (r) RKProductBufferFree(r, 1); };
    auto collection = [&](Sweep &w, bool judge) {
        int first = w.fs[wl(w.fs.size())]; F &a = fs[first]; RKProductCollection *c = RKProductCollectionInitWithFilename(a.path.c_str()); if (!judge || !good(first)) { if (c) RKProductCollectionFree(c); return; }
        CHECK(c, "refused", "%s is stored and there is no collection of it", a.path.c_str()); std::vector<int> there; for (int i : w.fs) if (vfs_exists(fs[i].path)) there.push_back(i); CHECK(c->count == there.size(), "count", "the collection of %s has %u products, %zu files are there", a.path.c_str(), c->count, there.size());
        for (int i : there) { F &f = fs[i]; if (!good(i) || f.rays != a.rays || f.gates != a.gates) continue; int n = 0; for (uint32_t k = 0; k < c->count; k++) if (!strcmp(c->products[k].desc.symbol, T[f.sym].s)) { n++; same(&c->products[k], f, "the collection with"); } CHECK(n == 1, "count", "the collection of %s has %d products of %s", a.path.c_str(), n, T[f.sym].s); }
        for (int k = 0; k < 7 && k < (int)there.size(); k++) { int i = -1; for (int j : there) if (fs[j].sym == k) i = j; if (i < 0) break; if (good(i) && fs[i].rays == a.rays && fs[i].gates == a.gates) CHECK(!strcmp(c->products[k].desc.symbol, T[k].s), "order", "product %d of the collection of %s is %s, not %s", k, a.path.c_str(), c->products[k].desc.symbol, T[k].s); }
        RKProductCollectionFree(c); sim_probe("collections read back"); };
    auto sweep = [&](Sweep &w, bool judge) {
        int first = -1; for (int i : w.fs) if (T[fs[i].sym].bit && vfs_exists(fs[i].path) && (first < 0 || fs[i].sym < fs[first].sym)) first = i;
        RKSweep *v = RKSweepFileRead(fs[w.fs[wl(w.fs.size())]].path.c_str()); if (!judge || first < 0 || !good(first)) { if (v) RKSweepFree(v); return; }
        F &a = fs[first]; const RKProductHeader &h = a.p->header; CHECK(v, "refused", "the sweep %s is stored and not read", w.prefix.c_str()); CHECK(v->header.rayCount == a.rays && v->header.gateCount == a.gates && !strcmp(v->header.desc.name, h.radarName) && v->header.desc.latitude == h.latitude && v->header.desc.longitude == h.longitude && v->header.desc.heading == h.heading && v->header.desc.radarHeight == h.radarHeight, "sweep", "the sweep %s has %u x %u values (stored %u x %u), or its radar differs", w.prefix.c_str(), v->header.rayCount, v->header.gateCount, a.rays, a.gates); CHECK(!h.isPPI || v->header.config.sweepElevation == h.sweepElevation, "angle", "the sweep %s is at %g", w.prefix.c_str(), v->header.config.sweepElevation); CHECK(!h.isRHI || v->header.config.sweepAzimuth == h.sweepAzimuth, "angle", "the sweep %s is at %g", w.prefix.c_str(), v->header.config.sweepAzimuth); CHECK(v->header.gateSizeMeters == h.gateSizeMeters && fabs(1 / v->header.config.prt[0] - 1 / h.prt[0]) < 0.51 && fabs(v->header.desc.wavelength / h.wavelength - 1) < 0.01, "sweep", "the sweep %s: gates of %g m, PRT %g, wavelength %g; stored were %g, %g, %g", w.prefix.c_str(), v->header.gateSizeMeters, v->header.config.prt[0], v->header.desc.wavelength, h.gateSizeMeters, h.prt[0], h.wavelength);
        for (uint32_t k = 0; k < a.rays; k++) { RKRay *y = RKGetRayFromBuffer(v->rayBuffer, k); CHECK(v->rays[k] == y && y->header.startAzimuth == a.p->startAzimuth[k] && y->header.startElevation == a.p->startElevation[k] && y->header.gateCount == a.gates && y->header.s & RKRayStatusReady, "rays", "ray %u of the sweep %s is at %g / %g, stored was %g / %g (or it is not ready)", k, w.prefix.c_str(), y->header.startAzimuth, y->header.startElevation, a.p->startAzimuth[k], a.p->startElevation[k]); if (h.isPPI) CHECK(fabs(remainder(y->header.endAzimuth - a.p->endAzimuth[k], 360)) < 0.01, "rays", "ray %u of the sweep %s ends at %g, stored was %g", k, w.prefix.c_str(), y->header.endAzimuth, a.p->endAzimuth[k]); }
        for (int i : w.fs) { F &f = fs[i]; if (!T[f.sym].bit || !good(i)) continue; bool fits = f.rays == a.rays && f.gates == a.gates; CHECK(!(v->header.baseProductList & T[f.sym].bit) == !fits, "list", "the sweep %s %s %s", w.prefix.c_str(), fits ? "has no" : "has", T[f.sym].s); if (fits) for (uint32_t k = 0; k < f.rays; k++) { float *x = RKGetFloatDataFromRay(v->rays[k], T[f.sym].idx); for (uint32_t g = 0; g < f.gates; g++) { float e = f.x[k * f.gates + g]; CHECK(isfinite(e) ? x[g] == e : isnan(x[g]), "values", "gate %u of ray %u of %s of the sweep %s is %g, stored was %g", g, k, T[f.sym].s, w.prefix.c_str(), x[g], e); } } }
        RKSweepFree(v); sim_probe("sweeps read back"); };
    int writer = sim_spawn("writer", [&] { for (auto &f : fs) { f.state = Writing; int r = RKProductFileWriterNC(f.p, f.path.c_str()); if (r == RKResultSuccess) { f.state = Stored; sim_probe("products stored"); } else { CHECK(disk, "write", "%s could not be written: 0x%x", f.path.c_str(), r); f.state = Failed; sim_probe("stores failed"); CHECK(!vfs_exists(f.path), "left", "%s could not be written and is there", f.path.c_str()); } sim_sleep_ns((ns_t)wl(20) * MS); } done = true; });
    int reads = 0; while (!done) { if (reads++ < 30) switch (wl(3)) { case 0: single((int)wl(fs.size()), true); break; case 1: collection(ss[wl(ss.size())], false); break; default: sweep(ss[wl(ss.size())], false); } sim_sleep_ns((ns_t)(1 + wl(40)) * MS); } sim_join(writer);
    cfg.p_write_fail = cfg.p_open_fail = 0; cfg.disk_capacity = -1;
    for (int round = 0; round < 2; round++) {
        for (size_t i = 0; i < fs.size(); i++) if (wl(2)) single((int)i, true); for (auto &w : ss) { collection(w, true); sweep(w, true); }
        if (round) break;
        // some files are cut, of something else, or gone
        for (auto &f : fs) if (f.state == Stored && wl(5) == 0) { std::string d = vfs_get(f.path); f.state = Damaged; switch (wl(3)) { case 0: vfs_put(f.path, d.substr(0, wl(3) ? wl(d.size()) : wl(std::min<size_t>(d.size(), 200))), 1); sim_fault_note("torn file"); break; case 1: vfs_remove(f.path); sim_fault_note("file gone"); break; default: vfs_put(f.path, "this is not a product", 1); sim_fault_note("foreign file"); } }
        if (wl(2)) { std::string q = std::string(dir) + (wl(2) ? "nodash.nc" : wl(2) ? "plain" : "a-Z.some-long-extension-of-a-name"); if (wl(2)) vfs_put(q, vfs_exists(fs[0].path) ? vfs_get(fs[0].path) : "x", 1); RKProduct *r = RKProductFileReaderNC(q.c_str(), false); if (r) RKProductBufferFree(r, 1); RKProductCollection *c = RKProductCollectionInitWithFilename(q.c_str()); if (c) RKProductCollectionFree(c); RKSweep *v = RKSweepFileRead(q.c_str()); if (v) RKSweepFree(v); sim_probe("odd names"); }
    }
    CHECK(sim_open_nc() == 0, "leak", "%d product files are left open", sim_open_nc()); CHECK(sim_open_fds() == 0 && sim_open_streams() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str()); size_t left = sim_heap_live_since(mark); CHECK(left == 0, "memory", "%zu bytes left:\n%s", left, sim_heap_dump(mark).c_str());
    for (auto &f : fs) RKProductBufferFree(f.p, 1); sim_hash(fs.size());
}
