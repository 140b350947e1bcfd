// C07: raw data files hold every recorded pulse, bit-exact, whatever the disk does
#include "rk.h"
struct Pu { RKPulseHeader h; std::vector<uint8_t> d[2][2]; int cfg; bool rec, sure, handled; double t; };
SCENARIO(record, "C07") {
    rk_quiet(); chaos(); cfg.max_vtime = 3000 * SEC;
    uint32_t depth = (uint32_t)P("depth", 6, 60), cap = 64; int n = (int)P("pulses", 1, 400), ncfg = 4;
    bool raw = Pbool("raw", 0.5), realfm = Pbool("filemanager", 0.6), toggles = Pbool("toggles", 0.5), race = Pbool("togglethread", 0.2), restart = Pbool("restart", 0.3), crash = Pbool("crash", 0.25);
    int disk = (int)P("disk", 0, 7), cfglen = (int)P("cfglen", 3, 80), maxdepth = (int)P("maxdepth", 0, 3); bool errors = disk >= 5;
    size_t cache = (size_t[]){64, 1000, 5000, 32 << 20}[P("cache", 0, 3)] + P("cacheplus", 0, 20); maxdepth = maxdepth == 0 ? 100000 : 2 + (int)wl(40);
    if (disk == 1 || disk == 3) cfg.p_disk_slow = 0.1; if (disk == 2 || disk == 3) cfg.p_write_short = 0.3;
    if (disk == 5) cfg.p_open_fail = 0.3; if (disk == 6) cfg.p_write_fail = 0.03; if (disk == 7) cfg.disk_capacity = 3000 + wl(120000);
    if (errors && wl(2)) cfg.p_write_short = 0.1;
    RKRadarDesc *desc = new_desc(cap, depth); desc->configBufferDepth = ncfg; RKRawDataType dtype = raw ? RKRawDataTypeFromTransceiver : RKRawDataTypeAfterMatchedFilter; if (Pbool("dashes", 0.3)) strcpy(desc->filePrefix, "PX-1000");
    RKConfig *configs = (RKConfig *)calloc(ncfg, sizeof(RKConfig)); uint32_t configIndex = 0, pulseIndex = 0; int64_t cfgid = 1000 + wl(8);
    RKWaveform *waves[3]; for (int w = 0; w < 3; w++) { waves[w] = RKWaveformInitWithCountAndDepth(1 + wl(2), 4 + wl(60)); sprintf(waves[w]->name, "wave%d", w); waves[w]->fc = 1e6 * wlf(); waves[w]->fs = 5e6; for (int g = 0; g < waves[w]->count; g++) { waves[w]->filterCounts[g] = 1 + wl(2); for (uint32_t i = 0; i < waves[w]->depth; i++) { waves[w]->samples[g][i].i = (float)wlf(); waves[w]->samples[g][i].q = (float)wlf(); waves[w]->iSamples[g][i].i = (int16_t)wl(30000); waves[w]->iSamples[g][i].q = (int16_t)wl(30000); } } }
    auto setcfg = [&] { RKConfig *c = &configs[configIndex]; memset(c, 0, sizeof *c); c->i = cfgid; c->waveform = waves[wl(3)]; c->sweepElevation = (float)wlf() * 30; c->prt[0] = 1000; sprintf(c->vcpDefinition, "vcp%ld", (long)cfgid); };
    setcfg(); std::map<int64_t, std::pair<RKConfig, RKWaveform *>> cfgs; cfgs[cfgid] = {configs[configIndex], configs[configIndex].waveform};
    RKBuffer buf; RKPulseBufferAlloc(&buf, cap, depth);
    RKFileManager *fm = nullptr; if (realfm) { fm = RKFileManagerInit(); RKFileManagerSetEssentials(fm, desc); CHECK(RKFileManagerStart(fm) == RKResultSuccess, "start", "file manager"); }
    RKRawDataRecorder *R = RKRawDataRecorderInit(); RKRawDataRecorderSetEssentials(R, desc, fm, configs, &configIndex, buf, &pulseIndex);
    RKRawDataRecorderSetCacheSize(R, (uint32_t)cache); RKRawDataRecorderSetRawDataType(R, dtype); RKRawDataRecorderSetMaximumRecordDepth(R, maxdepth);
    bool rec = !Pbool("startoff", 0.2); RKRawDataRecorderSetRecord(R, rec); bool crashed = false, recovered = false;
    std::deque<Pu> all; size_t clear_from = 0; bool quit = false;
    size_t headsize = sizeof(RKFileHeader) + sizeof(RKWaveFileGlobalHeader);
    auto check = [&](bool partial) {
        std::set<int> seen; int files = 0;
        for (auto &f : vfs_list("data/iq")) {
            const std::string &d = vfs_get(f); files++; bool cut = partial || errors;
            CHECK(d.size() >= headsize || cut, "short-file", "%s has only %zu bytes", f.c_str(), d.size()); if (d.size() < headsize) continue;
            const RKFileHeader *fh = (const RKFileHeader *)d.data(); const RKWaveFileGlobalHeader *wh = (const RKWaveFileGlobalHeader *)(d.data() + sizeof(RKFileHeader));
            auto it = cfgs.find(fh->config.i); CHECK(!strcmp(fh->preface, "RadarKit/IQ") && it != cfgs.end() && !memcmp(&fh->desc, desc, sizeof(RKRadarDesc)) && fh->dataType == dtype, "header", "%s: the file header is corrupt", f.c_str());
            RKConfig c = it->second.first; RKWaveform *w = it->second.second; c.waveform = fh->config.waveform; CHECK(!memcmp(&c, &fh->config, sizeof c), "header", "%s: the configuration in the header is not that of the pulses", f.c_str());
            CHECK(wh->count == w->count && wh->depth == w->depth && !strcmp(wh->name, w->name) && wh->fc == w->fc && wh->fs == w->fs, "header", "%s: the waveform header is corrupt", f.c_str());
            std::string ex; for (int g = 0; g < w->count; g++) { ex.append((char *)w->filterAnchors[g], w->filterCounts[g] * sizeof(RKFilterAnchor)); ex.append((char *)w->samples[g], w->depth * sizeof(RKComplex)); ex.append((char *)w->iSamples[g], w->depth * sizeof(RKInt16C)); }
            size_t o = headsize, m = std::min(ex.size(), d.size() - o); CHECK(!memcmp(d.data() + o, ex.data(), m) && (m == ex.size() || cut), "waveform", "%s: the waveform samples are corrupt", f.c_str()); o += m;
            int prev = -1, cnt = 0;
            while (o < d.size()) {
                if (d.size() - o < sizeof(RKPulseHeader)) { CHECK(cut, "torn", "%s ends with a torn pulse", f.c_str()); break; }
                const RKPulseHeader *ph = (const RKPulseHeader *)(d.data() + o); int64_t id = ph->i;
                CHECK(id >= 0 && id < (int64_t)all.size(), "corrupt", "%s: at byte %zu of %zu there is no pulse that was ever made", f.c_str(), o, d.size());
                Pu &p = all[id]; RKPulseHeader h = *ph; h.s = p.h.s; CHECK(!memcmp(&h, &p.h, sizeof h), "corrupt", "%s: header of pulse %ld at byte %zu differs", f.c_str(), (long)id, o); o += sizeof h;
                for (int ch = 0; ch < 2; ch++) { auto &x = p.d[raw ? 0 : 1][ch]; size_t k = std::min(x.size(), d.size() - o); CHECK(!memcmp(d.data() + o, x.data(), k), "corrupt", "%s: data of pulse %ld, channel %d, differs", f.c_str(), (long)id, ch); o += k; CHECK(k == x.size() || cut, "torn", "%s ends with a torn pulse", f.c_str()); }
                CHECK(p.cfg == fh->config.i, "config", "%s is of configuration %ld but holds pulse %ld of %d", f.c_str(), (long)fh->config.i, (long)id, p.cfg);
                CHECK(p.rec, "not-recording", "%s holds pulse %ld that came with recording off", f.c_str(), (long)id);
                CHECK(prev < 0 || id == prev + 1, "order", "%s: pulse %ld follows pulse %d", f.c_str(), (long)id, prev); prev = (int)id;
                CHECK(seen.insert((int)id).second, "twice", "pulse %ld is in two files", (long)id);
                if (!cnt++) { char b[64]; struct tm tm; time_t x = ph->time.tv_sec; gmtime_r(&x, &tm); size_t z = strftime(b, sizeof b, "%Y%m%d/", &tm); std::string s = std::string("data/iq/") + b + desc->filePrefix; strftime(b, sizeof b, "-%Y%m%d-%H%M%S", &tm); s += b; CHECK(f.find(s) != std::string::npos, "name", "%s begins with a pulse of %s", f.c_str(), b); }
                CHECK(cnt <= maxdepth, "depth", "%s holds more than %d pulses", f.c_str(), maxdepth);
            }
            if (cnt) sim_probe("pulses read back", cnt);
        }
        if (!partial && (!errors || recovered)) for (size_t i = errors ? clear_from : 0; i < all.size(); i++) if (all[i].rec && all[i].sure && all[i].handled && all[i].cfg > 1003) CHECK(seen.count((int)i), "missing", "pulse %zu of configuration %d is in no file", i, all[i].cfg);
        return files;
    };
    int th = race ? sim_spawn("operator", [&] { while (!quit) { sim_sleep_ns(wl(300) * MS); RKRawDataRecorderSetRecord(R, wl(2)); } }) : -1;
    double t = sim_wall(); ns_t crash_at = 0;
    if (crash) crash_at = sim_now() + (ns_t)(wlf() * n * 3 * MS) + 20 * MS;
    for (int round = 0; round < 1 + restart; round++) {
        sim_deadline(100 * SEC, "start-hangs", "RKRawDataRecorderStart"); CHECK(RKRawDataRecorderStart(R) == RKResultSuccess, "start", "start failed"); sim_deadline_clear();
        CHECK(sim_wait_until([&] { return R->tic >= 1; }, 10 * SEC), "start", "no tic"); uint64_t base = R->tic; size_t first = all.size(); uint32_t k = 0; int left = cfglen;
        auto handled = [&] { return R->tic - base; };
        for (int i = 0; i < n; i++) {
            if (crash_at && sim_now() >= crash_at) { sim_kill_others(); crashed = true; sim_fault_note("process crash"); break; }
            CHECK(sim_wait_until([&] { return handled() + depth > (uint64_t)i + 2; }, 300 * SEC, 2 * MS), "stuck", "only %lu of %d pulses handled in 300 s", (unsigned long)handled(), i);
            auto sync = [&] { CHECK(sim_wait_until([&] { return handled() >= (uint64_t)i; }, 300 * SEC, 2 * MS), "stuck", "only %lu of %d pulses handled in 300 s", (unsigned long)handled(), i); };
            if (toggles && wl(25) == 0) { sync(); rec = !rec; RKRawDataRecorderSetRecord(R, rec); sim_probe("recording switched"); }
            if (--left <= 0 || (errors && !recovered && round == restart && i == n / 2)) {
                left = 1 + (int)wl(2 * cfglen); if (i > 0 || first) { sync(); configIndex = RKNextModuloS(configIndex, (uint32_t)ncfg); cfgid++; setcfg(); cfgs[cfgid] = {configs[configIndex], configs[configIndex].waveform}; }
                if (errors && !recovered && round == restart && i >= n / 2) { recovered = true; cfg.p_open_fail = cfg.p_write_fail = 0; cfg.disk_capacity = -1; clear_from = all.size(); }
            }
            t += 0.0015 + (wl(10) ? 0 : wlf() * 20);
            RKPulse *p = RKGetPulseFromBuffer(buf, k); all.emplace_back(); Pu &u = all.back();
            memset(&p->header.s, 0, sizeof p->header.s); uint64_t *hw = (uint64_t *)&p->header; for (size_t j = 0; j < sizeof(RKPulseHeader) / 8; j++) hw[j] = wl(1ULL << 60);
            p->header.s = RKPulseStatusHasIQData; p->header.i = (RKIdentifier)(all.size() - 1); p->header.capacity = cap; p->header.gateCount = wl(10) ? 1 + wl(cap) : 0; p->header.downSampledGateCount = p->header.gateCount / (1 + wl(3)); p->header.configIndex = (uint16_t)configIndex; p->header.time.tv_sec = (time_t)t; p->header.time.tv_usec = (long)((t - floor(t)) * 1e6);
            for (int ch = 0; ch < 2; ch++) { uint8_t *a = (uint8_t *)RKGetInt16CDataFromPulse(p, ch), *b = (uint8_t *)RKGetComplexDataFromPulse(p, ch); size_t na = p->header.gateCount * sizeof(RKInt16C), nb = p->header.downSampledGateCount * sizeof(RKComplex); uint64_t v = wl(1ULL << 60); for (size_t j = 0; j < na; j++) { v = v * 6364136223846793005ULL + 1442695040888963407ULL; a[j] = v >> 56; } for (size_t j = 0; j < nb; j++) { v = v * 6364136223846793005ULL + 1442695040888963407ULL; b[j] = v >> 56; } u.d[0][ch].assign(a, a + na); u.d[1][ch].assign(b, b + nb); }
            u.cfg = (int)cfgid; u.rec = rec || race; u.sure = !race; u.handled = false; u.t = t; u.h = p->header;
            p->header.s |= RKPulseStatusRingProcessed | RKPulseStatusProcessed;
            bool early = wl(2), unready = !early && wl(3) == 0; RKPulseHeader fin = p->header; uint8_t *raw = (uint8_t *)RKGetInt16CDataFromPulse(p, 0), *flt = (uint8_t *)RKGetComplexDataFromPulse(p, 0);
            if (unready) { p->header.azimuthDegrees += 1; p->header.elevationDegrees = -5; p->header.downSampledGateCount = 0; if (p->header.gateCount) raw[0] ^= 0x55, flt[0] ^= 0x55; }     // the position and the filtered samples are still to come
            if (!early) { k = RKNextModuloS(k, depth); pulseIndex = k; if (wl(3) == 0) sim_sleep_ns(wl(20) * MS); }
            if (unready) { p->header.azimuthDegrees = fin.azimuthDegrees; p->header.elevationDegrees = fin.elevationDegrees; p->header.downSampledGateCount = fin.downSampledGateCount; if (fin.gateCount) raw[0] ^= 0x55, flt[0] ^= 0x55; }
            p->header.s |= RKPulseStatusUsedForMoments; if (early) { k = RKNextModuloS(k, depth); pulseIndex = k; }
            if (wl(3)) sim_sleep_ns(wl(4000) * US);
        }
        if (crashed) break;
        if (wl(2)) CHECK(sim_wait_until([&] { return handled() >= (uint64_t)n; }, 300 * SEC, 5 * MS), "stuck", "only %lu of %d pulses handled in 300 s", (unsigned long)handled(), n);
        if (crash_at) { while (sim_now() < crash_at) sim_sleep_ns(1 * MS); sim_kill_others(); crashed = true; sim_fault_note("process crash"); break; }
        sim_deadline(300 * SEC, "stop-hangs", "RKRawDataRecorderStop"); int r = RKRawDataRecorderStop(R); sim_deadline_clear();
        CHECK(r == RKResultSuccess, "stop", "RKRawDataRecorderStop() returned 0x%x", r); uint64_t done = handled(); for (size_t i = 0; i < done; i++) all[first + i].handled = true;
        if (done < (uint64_t)n) sim_probe("stopped with pulses unhandled");
        if (!fm) CHECK(sim_open_fds() == 0, "leak", "descriptors left open: %s", sim_fd_dump().c_str());
        check(false);
        if (round < restart) { pulseIndex = 0; for (uint32_t j = 0; j < depth; j++) RKGetPulseFromBuffer(buf, j)->header.s = 0; sim_probe("restarts"); }
    }
    quit = true;
    if (crashed) { check(true); sim_probe("files read back after a crash", vfs_list("data/iq").size()); return; }
    if (th >= 0) sim_join(th);
    if (fm) {
        auto v = vfs_list("data/iq"); uint64_t sum = 0; for (auto &f : v) sum += vfs_size(f); RKFileRemover *w = &fm->workers[0];
        CHECK(w->count == (int)v.size() && w->usage == sum, "not-reported", "there are %zu finished files with %lu bytes, the archive knows %d with %lu bytes", v.size(), (unsigned long)sum, w->count, (unsigned long)w->usage); sim_probe("files handed to the archive", v.size());
        RKFileManagerStop(fm); RKFileManagerFree(fm);
    }
    CHECK(sim_open_fds() == 0, "leak", "descriptors left open: %s", sim_fd_dump().c_str());
    CHECK(sim_live_code_threads() == 0, "threads-left", "threads left: %s", sim_thread_dump().c_str());
    RKRawDataRecorderFree(R);
}
