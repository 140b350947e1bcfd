// C26: stored waveforms, raw data and preferences come back as they were stored, or are refused
#include "rk.h"
extern "C" FILE *sim_fopen(const char *, const char *); extern "C" int sim_fclose(FILE *);
static float rf(void) { return (float)(wlf() * 2 - 1); }
static RKWaveform *mkwave(int tag) {
    int count = wl(4) ? 1 + (int)wl(3) : 1 + (int)wl(RKMaximumWaveformCount), depth = wl(5) ? 1 + (int)wl(60) : 1 + (int)wl(1500);
    RKWaveform *w = RKWaveformInitWithCountAndDepth((uint8_t)count, (uint32_t)depth);
    memset(w->name, 0, sizeof w->name); snprintf(w->name, sizeof w->name, "w%d-%s", tag, std::string(wl(6) ? wl(10) : wl(110), 'a' + (char)wl(26)).c_str());
    w->type = wl(3) ? RKWaveformTypeIsComplex : (RKWaveformType)0; w->fc = 1e6 * (1 + wlf()); w->fs = 1e6 * (1 + wlf());
    for (int g = 0; g < count; g++) {
        w->filterCounts[g] = (uint8_t)(1 + (wl(3) ? wl(2) : wl(RKMaximumFilterCount)));
        for (int j = 0; j < w->filterCounts[g]; j++) { RKFilterAnchor &a = w->filterAnchors[g][j]; for (size_t b = 0; b < sizeof a.bytes; b++) a.bytes[b] = (char)wl(256); a.origin = (uint32_t)wl(depth); a.length = 1 + (uint32_t)wl(depth - a.origin); a.inputOrigin = (uint32_t)wl(1000); a.outputOrigin = (uint32_t)wl(1000); a.maxDataLength = 1 + (uint32_t)wl(100000); a.subCarrierFrequency = rf(); a.lowerBoundFrequency = rf(); a.upperBoundFrequency = rf(); }
        for (int i = 0; i < depth; i++) { w->samples[g][i].i = rf(); w->samples[g][i].q = rf(); w->iSamples[g][i].i = (int16_t)wl(65536); w->iSamples[g][i].q = (int16_t)wl(65536); }
    }
    return w;
}
static bool near(float a, float b) { return fabsf(a - b) <= 1e-4f * (1 + fabsf(b)); }
// what must come back of w
static void same(RKWaveform *r, RKWaveform *w, const char *what) {
    CHECK(!strcmp(r->name, w->name), "name", "%s: the waveform is '%s', stored was '%s'", what, r->name, w->name);
    CHECK(r->count == w->count && r->depth == w->depth && r->type == w->type && r->fc == w->fc && r->fs == w->fs, "waveform", "%s: count %d depth %u, stored were %d and %u (or the type or the frequencies differ)", what, r->count, r->depth, w->count, w->depth);
    for (int g = 0; g < w->count; g++) {
        CHECK(r->filterCounts[g] == w->filterCounts[g], "filters", "%s: group %d has %d filters, stored were %d", what, g, r->filterCounts[g], w->filterCounts[g]);
        for (int j = 0; j < w->filterCounts[g]; j++) {
            RKFilterAnchor a = w->filterAnchors[g][j], b = r->filterAnchors[g][j]; if (j == 0) a.maxDataLength = RKMaximumGateCount;
            double f = 0, s = 0, h = 0; bool c = w->type & RKWaveformTypeIsComplex;
            for (uint32_t k = 0; k < a.length; k++) { RKComplex x = w->samples[g][a.origin + k]; double e = (double)x.i * x.i + (c ? (double)x.q * x.q : 0); f = std::max(f, c ? e : fabs((double)x.i)); h = std::max(h, e); s += e; }
            if (c) f = sqrt(f); else s *= 2;
            CHECK(near(b.fullScale, (float)(RKWaveformDigitalAmplitude / f)) && near(b.filterGain, (float)(10 * log10(s))) && near(b.sensitivityGain, (float)(10 * log10(s / (h * 1e-6 * w->fs)))), "gain", "%s: the gains of filter %d of group %d are not those of the samples", what, j, g);
            b.fullScale = a.fullScale; b.filterGain = a.filterGain; b.sensitivityGain = a.sensitivityGain;
            CHECK(!memcmp(&a, &b, sizeof a), "filters", "%s: filter %d of group %d differs from what was stored", what, j, g);
        }
        CHECK(!memcmp(r->samples[g], w->samples[g], w->depth * sizeof(RKComplex)) && !memcmp(r->iSamples[g], w->iSamples[g], w->depth * sizeof(RKInt16C)), "samples", "%s: the samples of group %d differ from what was stored", what, g);
    }
}
static std::string image(RKWaveform *w) {
    RKWaveFileGlobalHeader h; memset(&h, 0, sizeof h); strcpy(h.name, w->name); h.count = w->count; h.depth = w->depth; h.type = w->type; h.fc = w->fc; h.fs = w->fs; for (int g = 0; g < w->count; g++) h.filterCounts[g] = w->filterCounts[g];
    std::string s((char *)&h, sizeof h); for (int g = 0; g < w->count; g++) { s.append((char *)w->filterAnchors[g], w->filterCounts[g] * sizeof(RKFilterAnchor)); s.append((char *)w->samples[g], w->depth * sizeof(RKComplex)); s.append((char *)w->iSamples[g], w->depth * sizeof(RKInt16C)); } return s;
}
static void faults(int disk) {
    cfg.p_disk_slow = disk & 1 ? 0.1 : 0; cfg.p_read_short = cfg.p_write_short = disk & 2 ? 0.3 : 0;
    if ((disk & 12) == 4) cfg.p_write_fail = 0.2; if ((disk & 12) == 8) cfg.disk_capacity = vfs_used() + (int64_t)wl(4000); if ((disk & 12) == 12) cfg.p_read_fail = 0.3;
}
static void clear_faults(void) { cfg.p_write_fail = cfg.p_read_fail = cfg.p_open_fail = 0; cfg.disk_capacity = -1; }

SCENARIO(wavefile, "C26") {
    rk_quiet(); chaos(); cfg.slow_reads = true; cfg.max_steps = 60000000; cfg.steps_fatal = true; int files = (int)P("files", 1, 6), readers = (int)P("readers", 0, 2); bool crash = Pbool("crash", 0.2); int disk = (int)P("disk", 0, 15);
    struct F { std::string name, img; RKWaveform *w; int state; };   // 0 not there, 1 being written, 2 stored
    std::deque<F> fs; bool quit = false, crashed = false; size_t mark = 0;
    for (int i = 0; i < files; i++) { char b[64]; snprintf(b, sizeof b, wl(2) ? "waveforms/f%d.rkwav" : "f%d.rkwav", i); RKWaveform *w = mkwave(i); fs.push_back({b, image(w), w, 0}); }
    auto load = [&](F &f, bool must, const char *who) {
        RKWaveform *r = RKWaveformInitFromFile(f.name.c_str());
        if (r) { same(r, f.w, f.name.c_str()); RKWaveformFree(r); sim_probe("waveforms read back"); } else { CHECK(!must, "refused", "%s: %s, stored whole, is refused", who, f.name.c_str()); sim_probe("waveform files refused"); }
    };
    mark = sim_heap_mark(); faults(disk); std::vector<int> th;
    for (int k = 0; k < readers; k++) th.push_back(sim_spawn("reader", [&] { while (!quit && !crashed) { F &f = fs[wl(fs.size())]; bool must = f.state == 2 && cfg.p_read_fail == 0; load(f, must, "reader"); sim_sleep_ns(wl(50) * MS); } }));
    ns_t crash_at = crash ? sim_now() + (ns_t)(wlf() * files * 20) * MS : 0; int at = -1;
    auto store = [&] { for (size_t i = 0; i < fs.size(); i++) {
        F &f = fs[i]; at = (int)i; f.state = 1; RKResult r = RKWaveformWriteFile(f.w, f.name.c_str()); 
        std::string d = vfs_exists(f.name) ? vfs_get(f.name) : "";
        if (r == RKResultSuccess) { CHECK(d == f.img, "not-stored", "%s was reported stored but the file has %zu bytes, %s", f.name.c_str(), d.size(), d == f.img.substr(0, d.size()) ? "only a part of it" : "of something else"); f.state = 2; sim_probe("waveforms stored"); }
        else { CHECK((disk & 12) == 4 || (disk & 12) == 8, "write", "%s could not be stored: 0x%x", f.name.c_str(), r); f.state = 0; sim_probe("stores failed"); CHECK(d.empty() || d == f.img.substr(0, d.size()), "left", "%s could not be stored and %zu bytes of something else are left there", f.name.c_str(), d.size()); if (wl(2)) { clear_faults(); } }
        if (wl(2)) sim_sleep_ns(wl(30) * MS);
    } at = -1; };
    if (crash) { bool done = false; int w = sim_spawn("writer", [&] { store(); done = true; }); while (!done && sim_now() < crash_at) sim_sleep_ns(1 * MS); if (!done) { sim_kill_others(); crashed = true; sim_fault_note("process crash"); } else sim_join(w); } else store();
    quit = true; if (!crashed) for (int t : th) sim_join(t);
    clear_faults();
    for (size_t i = 0; i < fs.size(); i++) if (vfs_exists(fs[i].name)) {
        F &f = fs[i]; std::string d = vfs_get(f.name); bool whole = d == f.img; CHECK(whole || f.state != 2, "lost", "%s was stored and is not whole", f.name.c_str());
        RKWaveform *r = RKWaveformInitFromFile(f.name.c_str()); CHECK(!r || whole, "torn", "%s has %zu of %zu bytes and is loaded", f.name.c_str(), d.size(), f.img.size()); CHECK(r || !whole, "refused", "%s, stored whole, is refused", f.name.c_str());
        if (r) { same(r, f.w, f.name.c_str()); RKWaveformFree(r); }
        for (int t = 0; t < 3; t++) {   // what a power loss leaves of it
            size_t n = wl(3) ? wl(f.img.size()) : wl(2) ? f.img.size() - 1 - wl(std::min<size_t>(f.img.size(), 20)) : wl(600) % f.img.size(); vfs_put("torn.rkwav", f.img.substr(0, n), 1); sim_fault_note("torn file");
            r = RKWaveformInitFromFile("torn.rkwav"); CHECK(!r, "torn", "%s cut to %zu of %zu bytes is loaded", f.name.c_str(), n, f.img.size()); sim_probe("torn files refused");
        }
    }
    if (!crashed) { CHECK(sim_open_fds() == 0 && sim_open_streams() == 0, "leak", "descriptors left open: %s", sim_fd_dump().c_str()); CHECK(sim_heap_live_since(mark) == 0, "leak", "memory is not released: %s", sim_heap_dump(mark).c_str()); }
}

SCENARIO(rawread, "C26") {
    rk_quiet(); chaos(); cfg.slow_reads = true; cfg.max_steps = 60000000; cfg.steps_fatal = true; cfg.exit_ok = true; int n = (int)P("pulses", 0, 60), rcap = (int)P("readcap", 0, 3), disk = (int)P("disk", 0, 3), how = (int)P("how", 0, 4), ver = Pbool("old", 0.2) ? 6 : RKRawDataVersion; bool raw = Pbool("raw", 0.5);
    uint32_t cap = 64; RKRadarDesc *desc = new_desc(cap, 20); desc->pulseToRayRatio = 1 + (uint32_t)wl(3); RKConfig *c = (RKConfig *)calloc(4, sizeof(RKConfig)); uint32_t ci = 0, pi = 0; c->i = 2000; sprintf(c->vcpDefinition, "vcp"); c->prt[0] = 1e-3f; c->sweepElevation = rf(); RKWaveform *w = mkwave(0); c->waveform = w;
    RKBuffer buf; RKPulseBufferAlloc(&buf, cap, 20); struct Pu { RKPulseHeader h; std::string d[2]; size_t end; }; std::vector<Pu> all; RKRawDataType type = raw ? RKRawDataTypeFromTransceiver : RKRawDataTypeAfterMatchedFilter; size_t unit = raw ? sizeof(RKInt16C) : sizeof(RKComplex);
    RKRawDataRecorder *R = nullptr; std::string file; size_t head = 0;
    auto fill = [&](RKPulse *p, int i) {
        memset(&p->header.s, 0, sizeof p->header.s); uint8_t *hb = (uint8_t *)&p->header; for (size_t j = 0; j < sizeof(RKPulseHeader); j++) hb[j] = (uint8_t)wl(256);
        p->header.timeDouble = i; p->header.gateSizeMeters = p->header.azimuthDegrees = (float)wl(360); p->header.elevationDegrees = (float)wl(90); p->header.elevationVelocityDegreesPerSecond = (float)wl(9); p->header.azimuthVelocityDegreesPerSecond = (float)wl(90);
        p->header.s = RKPulseStatusHasIQData; p->header.i = i; p->header.capacity = cap; p->header.gateCount = wl(10) ? 1 + (uint32_t)wl(cap) : wl(2) ? cap : 0; p->header.downSampledGateCount = p->header.gateCount / (1 + (uint32_t)wl(3)); p->header.configIndex = 0; p->header.time.tv_sec = 1000000 + i; p->header.time.tv_usec = (long)wl(1000000);
        all.emplace_back(); Pu &u = all.back(); u.h = p->header; size_t k = raw ? u.h.gateCount : u.h.downSampledGateCount;
        for (int ch = 0; ch < 2; ch++) { if (raw) { RKInt16C *x = RKGetInt16CDataFromPulse(p, ch); for (size_t j = 0; j < k; j++) x[j].i = (int16_t)wl(65536), x[j].q = (int16_t)wl(65536); u.d[ch].assign((char *)x, k * unit); } else { RKComplex *x = RKGetComplexDataFromPulse(p, ch); for (size_t j = 0; j < k; j++) x[j].i = rf(), x[j].q = rf(); u.d[ch].assign((char *)x, k * unit); } }
    };
    if (ver == RKRawDataVersion) {     // written by the recorder
        R = RKRawDataRecorderInit(); RKRawDataRecorderSetEssentials(R, desc, nullptr, c, &ci, buf, &pi); RKRawDataRecorderSetRawDataType(R, type); RKRawDataRecorderSetRecord(R, true); RKRawDataRecorderSetCacheSize(R, wl(2) ? 1000 : 1 << 20); CHECK(RKRawDataRecorderStart(R) == RKResultSuccess, "start", "recorder"); CHECK(sim_wait_until([&] { return R->tic >= 1; }, 10 * SEC), "start", "no tic"); uint64_t base = R->tic;
        for (int i = 0; i < n; i++) { sim_wait_until([&] { return R->tic - base + 10 > (uint64_t)i; }, 300 * SEC, 2 * MS); RKPulse *p = RKGetPulseFromBuffer(buf, i % 20); fill(p, i); p->header.s |= RKPulseStatusRingProcessed | RKPulseStatusProcessed; pi = RKNextModuloS(i % 20, 20); p->header.s |= RKPulseStatusUsedForMoments; }
        CHECK(sim_wait_until([&] { return R->tic - base >= (uint64_t)n; }, 300 * SEC, 5 * MS), "stuck", "recorder"); RKRawDataRecorderStop(R); RKRawDataRecorderFree(R); auto v = vfs_list("data/iq"); if (v.empty()) { CHECK(n == 0, "file", "no file was recorded"); return; } file = vfs_get(v[0]); head = sizeof(RKFileHeader) + image(w).size();
        size_t o = head; for (auto &u : all) { o += sizeof(RKPulseHeader) + 2 * u.d[0].size(); u.end = o; }
    } else {                           // as an earlier release wrote it
        RKFileHeader h; memset(&h, 0, sizeof h); sprintf(h.preface, "RadarKit/IQ"); h.version = ver; h.dataType = type; h.desc = *desc; h.config = *c; file.assign((char *)&h, sizeof h); file += image(w); head = file.size();
        for (int i = 0; i < n; i++) { fill(RKGetPulseFromBuffer(buf, 0), i); Pu &u = all.back(); RKPulseHeaderV1 p; memset(&p, 0, sizeof p); p.i = u.h.i; p.n = u.h.n; p.t = u.h.t; p.gateCount = u.h.gateCount; p.downSampledGateCount = u.h.downSampledGateCount; p.marker = u.h.marker; p.pulseWidthSampleCount = u.h.pulseWidthSampleCount; p.time = u.h.time; p.timeDouble = u.h.timeDouble; p.rawAzimuth = u.h.rawAzimuth; p.rawElevation = u.h.rawElevation; p.gateSizeMeters = u.h.gateSizeMeters; p.elevationDegrees = u.h.elevationDegrees; p.azimuthDegrees = u.h.azimuthDegrees; p.elevationVelocityDegreesPerSecond = u.h.elevationVelocityDegreesPerSecond; p.azimuthVelocityDegreesPerSecond = u.h.azimuthVelocityDegreesPerSecond; file.append((char *)&p, sizeof p); file += u.d[0] + u.d[1]; u.end = file.size(); }
    }
    CHECK(all.empty() ? file.size() == head : file.size() == all.back().end, "file", "the file has %zu bytes", file.size());
    size_t cut = file.size(); if (how == 1) cut = sizeof(RKFileHeader) + wl(head - sizeof(RKFileHeader)); if (how == 2 && file.size() > head) cut = head + wl(file.size() - head); if (how == 3) cut = wl(sizeof(RKFileHeader));
    vfs_put("in.rkr", file.substr(0, cut), 1); if (cut < file.size()) sim_fault_note("torn file");
    // read it back
    uint32_t rc = rcap == 0 ? 16 : rcap == 1 ? 32 : 64; RKBuffer rb; uint32_t nslot = 3; RKPulseBufferAlloc(&rb, rc, nslot); uint32_t realcap = RKGetPulseFromBuffer(rb, 0)->header.capacity;
    faults(disk & 3); bool done = false, over = false; if (how == 4) cfg.p_read_fail = 0.2;
    int t = sim_spawn("reader", [&] {
        FILE *fid = sim_fopen("in.rkr", "r"); CHECK(fid, "open", "in.rkr"); if (how == 4 && wl(2)) cfg.p_read_fail = 0.02;
        RKFileHeader *h = RKFileHeaderRead(fid);
        if (!h) { CHECK(cut < head || how == 4, "refused", "the header of a file, stored whole, is refused"); over = true; done = true; sim_fclose(fid); sim_probe("files refused"); return; }
        CHECK(cut >= head, "torn", "a header cut to %zu of %zu bytes is loaded", cut, head);
        CHECK(h->version == (uint32_t)ver && h->dataType == type && !memcmp(&h->desc, desc, sizeof *desc) && h->config.i == 2000 && h->config.sweepElevation == c->sweepElevation && !strcmp(h->config.vcpDefinition, "vcp"), "header", "the file header differs from what was stored");
        same(h->config.waveform, w, "file header"); CHECK(h->config.waveformDecimate && h->config.waveformDecimate != h->config.waveform && h->config.waveformDecimate->depth == (w->depth + desc->pulseToRayRatio - 1) / desc->pulseToRayRatio, "header", "there is no decimated waveform");
        sim_probe("headers read back"); int k = 0; uint32_t slot = 0;
        while (true) {
            RKPulse *p = RKGetPulseFromBuffer(rb, slot); slot = (slot + 1) % nslot; int r = RKReadPulseFromFileReference(p, h, fid);
            bool big = k < (int)all.size() && (all[k].h.gateCount > realcap || all[k].h.downSampledGateCount > realcap);
            if (r != RKResultSuccess) { bool whole = k < (int)all.size() && all[k].end <= cut && !big; CHECK(!whole || how == 4, "pulse-refused", "pulse %d of %zu, stored whole, is refused with 0x%x", k, all.size(), r); if (big) sim_probe("oversized pulses refused"); else if (k < (int)all.size()) sim_probe("torn pulses refused"); break; }
            CHECK(k < (int)all.size() && all[k].end <= cut, "torn", "pulse %d of %zu is returned from %zu bytes", k, all.size(), cut); CHECK(!big, "too-big", "a pulse of %u gates is returned in a buffer for %u", all[k].h.gateCount, realcap);
            Pu &u = all[k]; RKPulseHeader &a = p->header, &b = u.h; uint32_t g = raw ? b.gateCount : b.downSampledGateCount;
            CHECK(a.i == b.i && a.n == b.n && a.t == b.t && a.gateCount == b.gateCount && (raw || a.downSampledGateCount == b.downSampledGateCount) && a.pulseWidthSampleCount == b.pulseWidthSampleCount && a.marker == b.marker && a.time.tv_sec == b.time.tv_sec && a.time.tv_usec == b.time.tv_usec && a.timeDouble == b.timeDouble && !memcmp(&a.rawAzimuth, &b.rawAzimuth, 4) && !memcmp(&a.rawElevation, &b.rawElevation, 4) && a.gateSizeMeters == b.gateSizeMeters && a.elevationDegrees == b.elevationDegrees && a.azimuthDegrees == b.azimuthDegrees && a.elevationVelocityDegreesPerSecond == b.elevationVelocityDegreesPerSecond && a.azimuthVelocityDegreesPerSecond == b.azimuthVelocityDegreesPerSecond, "pulse", "the header of pulse %d differs from what was stored", k);
            CHECK(a.capacity == realcap, "capacity", "the capacity of the buffer's pulse became %u", a.capacity);
            for (int ch = 0; ch < 2; ch++) {
                void *x = raw ? (void *)RKGetInt16CDataFromPulse(p, ch) : (void *)RKGetComplexDataFromPulse(p, ch); CHECK(!memcmp(x, u.d[ch].data(), u.d[ch].size()), "pulse", "the samples of pulse %d, channel %d, differ from what was stored", k, ch);
                if (!raw) { RKIQZ z = RKGetSplitComplexDataFromPulse(p, ch); const RKComplex *y = (const RKComplex *)u.d[ch].data(); for (uint32_t j = 0; j < g; j++) CHECK(z.i[j] == y[j].i && z.q[j] == y[j].q, "pulse", "the split samples of pulse %d, channel %d, differ from what was stored", k, ch); }
            }
            k++; sim_probe("pulses read back");
        }
        RKReadPulseFromFileReference(nullptr, h, nullptr); RKWaveformFree(h->config.waveformDecimate); h->config.waveformDecimate = nullptr; RKWaveformFree(h->config.waveform); h->config.waveform = nullptr; RKFileHeaderFree(h); sim_fclose(fid); done = true;
    });
    if (!sim_wait_until([&] { return done; }, 60 * SEC, 5 * MS)) { CHECK(cut < head || how == 4, "refused", "a file, stored whole, is refused"); return; }
    sim_join(t); if (over) return;
    CHECK(sim_open_fds() == 0 && sim_open_streams() == 0, "leak", "descriptors left open: %s", sim_fd_dump().c_str());
}

// ---- preferences
struct Ent { std::string key, val; };
static std::vector<Ent> parse(const std::string &text) {
    std::vector<Ent> out; size_t o = 0; int line = 0;
    while (o < text.size() && out.size() < RKPreferenceObjectCount && line < 1000) {
        size_t e = text.find('\n', o); std::string s = text.substr(o, e == std::string::npos ? e : e - o); o = e == std::string::npos ? text.size() : e + 1; line++;
        auto strip = [](std::string &x) { while (!x.empty() && ((x.back() == ' ' || x.back() == '\r'))) x.pop_back(); }; strip(s);
        if (s.size() < 2 || s[0] == '#') continue;
        size_t k = s.find_first_of(" \t"); Ent n; n.key = s.substr(0, k); if (k != std::string::npos) { size_t v = s.find_first_not_of(" \t", k); if (v != std::string::npos) { n.val = s.substr(v); size_t h = n.val.find('#', 1); if (h != std::string::npos) n.val.resize(h); strip(n.val); } }
        out.push_back(n);
    }
    return out;
}
SCENARIO(preferences, "C26") {
    rk_quiet(); chaos(); cfg.slow_reads = true; cfg.max_steps = 60000000; cfg.steps_fatal = true; int versions = (int)P("versions", 1, 4), lines = (int)P("lines", 0, 60), disk = (int)P("disk", 0, 3); bool torn = Pbool("torn", 0.4), many = Pbool("many", 0.1), editor = Pbool("editor", 0.5);
    static const char *keys[] = {"Name", "Latitude", "Shortcut", "WaveformCal", "IgnoreGPS", "Noise", "UserDevice", "SystemZCal", "DataPath", "k"};
    auto text = [&] {
        std::string s; int m = many ? 100 + (int)wl(60) : (int)wl(lines + 1); char b[256];
        for (int i = 0; i < m; i++) {
            int what = (int)wl(12); const char *ws = wl(2) ? " " : wl(2) ? "\t" : "  \t "; std::string k = keys[wl(10)]; if (wl(8) == 0) for (auto &ch : k) ch = (char)toupper(ch);
            if (what == 0) s += "# a comment line 'with' 1 2 3"; else if (what == 1) s += wl(2) ? "" : " "; else if (what == 2) s += k; else {
                s += k + ws;
                if (k == "Shortcut" || k == "SHORTCUT") { snprintf(b, sizeof b, wl(2) ? "'go %d' 't x%d'" : "\"it's %d\" \"t y%d\"", (int)wl(100), (int)wl(100)); s += b; }
                else if (k == "WaveformCal") { int c = (int)wl(9); snprintf(b, sizeof b, "h%d %d", (int)wl(99), c); s += b; for (int j = 0; j < 4 * c; j++) { snprintf(b, sizeof b, "%s%d.%02d", wl(5) ? " " : "   ", (int)wl(50) - 25, (int)wl(100)); s += b; } }
                else switch (what % 4) { case 0: s += (const char *[]){"true", "false", "yes no", "Yes", "TRUE false true", "no"}[wl(6)]; break; case 1: s += (const char *[]){"word", "two words", "a/b/c.d", "x=1,y=2"}[wl(4)]; break; default: { int c = 1 + (int)wl(4); for (int j = 0; j < c; j++) { double v = wl(5) ? rf() * 100 : rf() * 1e11; snprintf(b, sizeof b, wl(2) ? "%s%.4f" : "%s%.0f", j ? " " : wl(6) ? "" : "+", wl(2) ? v : fabs(v)); if (b[0] == '+' && b[1] == '-') memmove(b, b + 1, strlen(b)); s += b; } } }
                if (wl(6) == 0) s += "   # trailing remark"; if (wl(8) == 0) s += "  ";
            }
            s += wl(20) ? "\n" : "\r\n";
        }
        if (torn && !s.empty()) { s.resize(wl(s.size())); sim_fault_note("torn file"); }
        return s;
    };
    std::vector<std::string> ver; for (int i = 0; i < versions; i++) ver.push_back(text()); int cur = 0; size_t mark = sim_heap_mark(); bool quit = false; faults(disk);
    vfs_put("p.conf", ver[0], 1); int lo = 0;
    auto save = [&] { if (cur + 1 < versions) { sim_atomic_begin(); vfs_remove("p.conf"); cur++; vfs_put("p.conf", ver[cur], 1 + cur); sim_atomic_end(); sim_probe("preference files replaced"); } };
    int th = editor ? sim_spawn("editor", [&] { while (!quit && cur + 1 < versions) { sim_sleep_ns(wl(30) * MS); save(); } }) : -1;
    RKPreference *p = nullptr; std::vector<Ent> ref;
    auto update = [&] {
        lo = cur; if (!p) p = RKPreferenceInitWithFile("p.conf"); else { int r = RKPreferenceUpdate(p); CHECK(r == RKResultSuccess, "update", "0x%x", r); }
        int hi = cur; bool ok = false; std::string why;
        for (int v = lo; v <= hi && !ok; v++) { ref = parse(ver[v]); ok = ref.size() == p->count; if (!ok) why = "the number of entries"; for (size_t i = 0; ok && i < ref.size(); i++) if (ref[i].key != p->objects[i].keyword || ref[i].val != p->objects[i].valueString) { ok = false; why = "entry '" + ref[i].key + "' = '" + ref[i].val + "' is '" + p->objects[i].keyword + "' = '" + p->objects[i].valueString + "'"; } }
        CHECK(ok, "content", "the preferences are not those of the file: %s (%u entries, %zu in the file)", why.c_str(), p->count, ref.size()); sim_probe("preference entries read", (long)ref.size());
    };
    for (int round = 0; round < versions + 1; round++) {
        update(); std::string last; size_t pos = 0; bool ended = false;
        for (int q = 0; q < 30; q++) {
            std::string k = keys[wl(10)]; if (!last.empty() && wl(2)) k = last; if (wl(10) == 0) k = "Absent"; std::string kk = k; if (wl(4) == 0) for (auto &ch : kk) ch = (char)tolower(ch);
            bool again = !last.empty() && !strcasecmp(k.c_str(), last.c_str()); if (again && ended) continue;
            size_t j = again ? pos : 0; while (j < ref.size() && strcasecmp(ref[j].key.c_str(), k.c_str())) j++; bool have = j < ref.size();
            if (wl(5) == 0) { int c = 0; for (auto &e : ref) c += !strcasecmp(e.key.c_str(), k.c_str()); sim_deadline(100 * SEC, "hang", "RKPreferenceGetKeywordCount"); int g = RKPreferenceGetKeywordCount(p, kk.c_str()); sim_deadline_clear(); CHECK(g == c, "count", "%s is there %d times, counted %d", k.c_str(), c, g); sim_probe("keywords counted"); }
            std::string val = have ? ref[j].val : ""; int mode = (int)wl(8), r = 0, cnt = 1 + (int)wl(4); double ex[4] = {}; bool ebool[4] = {};
            if (have) { bool num = isdigit(val[0]) || ((val[0] == '.' || val[0] == '-' || val[0] == '+') && isdigit(val[1])); if (num) sscanf(val.c_str(), "%lf %lf %lf %lf", ex, ex + 1, ex + 2, ex + 3);
                else if (!strncasecmp(val.c_str(), "false", 5) || !strncasecmp(val.c_str(), "true", 4) || !strncasecmp(val.c_str(), "yes", 3) || !strncasecmp(val.c_str(), "no", 2)) { size_t o = 0; for (int m = 0; m < 4 && o != std::string::npos; m++) { size_t a = val.find_first_not_of(" \t", o); if (a == std::string::npos) break; size_t e = val.find_first_of(" \t", a); std::string wd = val.substr(a, e == std::string::npos ? e : e - a); ebool[m] = !strncasecmp(wd.c_str(), "true", 4) || !strcasecmp(wd.c_str(), "yes"); o = e; } } }
            for (double &v : ex) v = std::min(std::max(v, -1e9), 1e9);
            if (mode == 0) { RKPreferenceObject *o = RKPreferenceFindKeyword(p, kk.c_str()); CHECK(!!o == have && (!o || o == &p->objects[j]), "find", "lookup of %s finds entry %ld, not %ld", k.c_str(), o ? (long)(o - p->objects) : -1L, have ? (long)j : -1L); }
            else {
                int iv[4] = {}; unsigned uv[4] = {}; bool bv[4] = {}; float fv[4] = {}; double dv[4] = {}; char sv[RKMaximumStringLength] = ""; RKControl ctl; RKWaveformCalibration cal; memset(&ctl, 0x41, sizeof ctl); memset(&cal, 0, sizeof cal); bool special = false;
                if (k[0] == 'S' && !strcasecmp(k.c_str(), "Shortcut")) { special = true; r = RKPreferenceGetValueOfKeyword(p, 0, kk.c_str(), &ctl, RKParameterTypeControl, 1); }
                else if (!strcasecmp(k.c_str(), "WaveformCal")) { special = true; r = RKPreferenceGetValueOfKeyword(p, 0, kk.c_str(), &cal, RKParameterTypeWaveformCalibration, 1); }
                else { void *tg = nullptr; int ty = 0; switch (mode) { case 1: tg = iv; ty = RKParameterTypeInt; break; case 2: tg = uv; ty = RKParameterTypeUInt; break; case 3: tg = bv; ty = RKParameterTypeBool; break; case 4: tg = fv; ty = RKParameterTypeFloat; break; case 5: tg = dv; ty = RKParameterTypeDouble; break; default: tg = sv; ty = RKParameterTypeString; cnt = RKNameLength; } r = RKPreferenceGetValueOfKeyword(p, 0, kk.c_str(), tg, ty, cnt); }
                if (!have) CHECK(r == RKResultPreferenceKeywordNotFound, "find", "%s is not (again) in the file but a value is returned (0x%x)", k.c_str(), r);
                else if (!special) {
                    CHECK(r == RKResultSuccess, "find", "%s is in the file and not found (0x%x)", k.c_str(), r);
                    for (int m = 0; m < std::min(cnt, 4); m++) { bool ok = mode == 1 ? iv[m] == (int)ex[m] : mode == 2 ? uv[m] == (unsigned)std::max(ex[m], 0.0) : mode == 3 ? bv[m] == ebool[m] : mode == 4 ? fv[m] == (float)ex[m] : mode == 5 ? dv[m] == ex[m] : true; CHECK(ok, "value", "value %d of %s '%s' is wrong (kind %d)", m, k.c_str(), val.c_str(), mode); }
                    if (mode >= 6) CHECK(val.substr(0, RKNameLength) == sv, "value", "%s is '%s', not '%s'", k.c_str(), sv, val.c_str());
                } else if (!strcasecmp(k.c_str(), "Shortcut")) {
                    std::string two[2]; size_t o = 0; int got = 0; while (got < 2) { size_t a = val.find_first_of("'\"", o); if (a == std::string::npos) break; size_t e = val.find(val[a], a + 1); if (e == std::string::npos) break; two[got++] = val.substr(a + 1, e - a - 1); o = e + 1; }
                    if (got == 2 && !two[0].empty() && !two[1].empty()) { CHECK(r == RKResultSuccess && two[0] == ctl.label && two[1] == ctl.command, "control", "the control '%s' is read as '%.40s' '%.40s' (0x%x)", val.c_str(), ctl.label, ctl.command, r); sim_probe("controls read"); }
                    else { CHECK(r == RKResultIncompleteControl, "control", "the incomplete control '%s' is read as '%.40s' '%.40s'", val.c_str(), ctl.label, ctl.command); sim_probe("incomplete controls refused"); }
                } else {
                    char nm[64]; int c = -1, used = 0; std::vector<float> v; bool has = sscanf(val.c_str(), "%63s %d%n", nm, &c, &used) == 2; bool fine = has && nm[0] == 'h' && c >= 0 && c <= RKMaximumFilterCount; if (has) { const char *s = val.c_str() + used; float x; int u; while (sscanf(s, "%f%n", &x, &u) == 1) v.push_back(x), s += u; }
                    if (!has) CHECK(r == RKResultIncompleteWaveformCalibration, "calibration", "the incomplete calibration '%s' is accepted", val.c_str());
                    else if (fine && (int)v.size() >= 4 * c) { CHECK(r == RKResultSuccess && !strcmp(nm, cal.name) && cal.count == c, "calibration", "the calibration '%s' is read as '%s' %d (0x%x)", val.c_str(), cal.name, cal.count, r); for (int m = 0; m < c; m++) CHECK(cal.ZCal[m][0] == v[4 * m] && cal.ZCal[m][1] == v[4 * m + 1] && cal.DCal[m] == v[4 * m + 2] && cal.PCal[m] == v[4 * m + 3], "calibration", "value set %d of the calibration '%s' is wrong", m, val.c_str()); sim_probe("calibrations read"); }
                }
            }
            if (have) { last = k; pos = j + 1; ended = false; } else if (again) ended = true;
            sim_probe("lookups");
        }
        if (!editor && wl(2)) save(); if (wl(2)) sim_sleep_ns(wl(20) * MS);
    }
    quit = true; if (th >= 0) sim_join(th);
    vfs_remove("p.conf"); uint32_t was = p->count; int r = RKPreferenceUpdate(p); CHECK(r == RKResultPreferenceFileNotFound && p->count == was, "missing", "a missing file gives 0x%x", r);
    RKPreferenceFree(p); CHECK(sim_open_fds() == 0 && sim_open_streams() == 0, "leak", "descriptors left open: %s", sim_fd_dump().c_str()); CHECK(sim_heap_live_since(mark) == 0, "leak", "memory is not released: %s", sim_heap_dump(mark).c_str());
}
