// C17: configuration changes are atomic, complete, numbered and never lost or blocking
#include "rk.h"
static const size_t IDB = sizeof(RKIdentifier);
struct Item { uint32_t key; std::vector<uint64_t> raw; std::vector<double> d; std::vector<bool> isd; const char *s = nullptr; };
SCENARIO(config, "C17") {
    rk_quiet(); chaos(); cfg.stall_harness = Pbool("stallall", 0.7); cfg.max_vtime = 2000 * SEC;
    int nw = (int)P("writers", 1, 4), nr = (int)P("readers", 1, 3), n = (int)P("changes", 1, 30), maxkeys = (int)P("keys", 1, 6); uint32_t depth = (uint32_t)(nw + 2 + P("depth", 0, 12));
    double pbad = Pbool("bad", 0.5) ? 0.15 : 0; int rest = (int)P("rest", 0, 3); uint32_t index0 = (uint32_t)wl(depth);
    RKRadar *radar = (RKRadar *)calloc(1, sizeof(RKRadar)); radar->desc.configBufferDepth = depth; radar->state = RKRadarStateLive; RKConfigBufferAlloc(&radar->configs, depth); RKConfig *C = radar->configs; (void)index0;
    for (uint32_t k = 0; k < depth; k++) C[k].i = -(uint64_t)depth + k + 1000;
    RKWaveform *waves[4]; for (int w = 0; w < 4; w++) { waves[w] = RKWaveformInitWithCountAndDepth(1, 8); sprintf(waves[w]->name, "wave-%d", w); waves[w]->filterCounts[0] = w == 3 ? 0 : 1 + w; }
    struct Change { std::vector<Item> items; bool bad = false; int accepted = 0; }; std::deque<Change> ch; ch.emplace_back();
    std::map<uint64_t, std::string> canon; canon[999] = std::string((char *)&C[depth - 1], sizeof(RKConfig));
    std::set<std::string *> dummy; std::deque<std::string> strings; std::deque<RKWaveformCalibration> cals;
    int started = 0, finished = 0; uint64_t maxid = 999;
    auto capture = [&] { sim_atomic_begin(); uint32_t k = radar->configIndex; for (uint32_t j = 1; j < depth; j++) { k = RKPreviousModuloS(k, depth); if (C[k].i < 1000 || C[k].i > 1000000) continue; std::string b((char *)&C[k], sizeof(RKConfig)); auto it = canon.find(C[k].i); if (it == canon.end()) canon[C[k].i] = b; else CHECK(it->second == b, "altered", "configuration %lu was altered after it was published", (unsigned long)C[k].i); maxid = std::max<uint64_t>(maxid, C[k].i); } sim_atomic_end(); };
    auto gen = [&](int no) {
        Change &c = ch[no]; int nk = 1 + (int)wl(maxkeys), mark = (int)wl(nk + 1); c.bad = wlf() < pbad; int badat = (int)wl(nk + 1);
        auto I = [&](Item &i, uint64_t v) { i.raw.push_back(v); }; auto D = [&](Item &i, double v) { uint64_t u; memcpy(&u, &v, 8); i.raw.push_back(u); i.d.push_back(v); };
        for (int j = 0; j <= nk; j++) {
            if (j == badat && c.bad) { Item it; it.key = wl(2) ? RKConfigKeyWaveform : RKConfigKeyWaveformDecimate; I(it, wl(2) ? 0 : (uint64_t)waves[3]); c.items.push_back(it); }
            if (j == mark) { Item it; it.key = RKConfigKeyUserResource; I(it, (uint64_t)no); c.items.push_back(it); }
            if (j == nk) break;
            static const uint32_t keys[] = {RKConfigKeySweepElevation, RKConfigKeySweepAzimuth, RKConfigKeyPositionMarker, RKConfigKeyPRT, RKConfigKeyPRF, RKConfigKeyDualPRF, RKConfigKeyPulseGateCount, RKConfigKeyPulseGateSize, RKConfigKeyPulseWidth, RKConfigKeyWaveform, RKConfigKeyWaveformDecimate, RKConfigKeyWaveformName, RKConfigKeySystemNoise, RKConfigKeySystemZCal, RKConfigKeySystemDCal, RKConfigKeySystemPCal, RKConfigKeyWaveformCalibration, RKConfigKeySNRThreshold, RKConfigKeySQIThreshold, RKConfigKeyVCPDefinition, RKConfigKeyRingFilterGateCount, RKConfigKeyTransitionGateCount};
            Item it; it.key = keys[wl(sizeof keys / 4)];
            switch (it.key) {
                case RKConfigKeyPositionMarker: case RKConfigKeyPulseGateCount: case RKConfigKeyRingFilterGateCount: case RKConfigKeyTransitionGateCount: I(it, wl(1 << 20)); break;
                case RKConfigKeyDualPRF: case RKConfigKeySystemNoise: case RKConfigKeySystemZCal: D(it, 1 + wlf() * 1000); D(it, 1 + wlf() * 1000); break;
                case RKConfigKeyWaveform: case RKConfigKeyWaveformDecimate: I(it, (uint64_t)waves[wl(3)]); break;
                case RKConfigKeyVCPDefinition: if (wl(8) == 0) { I(it, 0); break; } // fall through
                case RKConfigKeyWaveformName: { size_t m = wl(6) ? wl(40) : wl(it.key == RKConfigKeyVCPDefinition ? 600 : 200); std::string s; for (size_t q = 0; q < m; q++) s += "abcdefgh 0123/%"[wl(14)]; strings.push_back(s); I(it, (uint64_t)strings.back().c_str()); break; }
                case RKConfigKeyWaveformCalibration: if (wl(4) == 0) { I(it, 0); break; } else { cals.emplace_back(); auto &w = cals.back(); memset(&w, 0, sizeof w); w.count = 1 + wl(RKMaximumFilterCount); for (int q = 0; q < w.count; q++) { w.ZCal[q][0] = (float)wlf() * 50; w.ZCal[q][1] = (float)wlf() * 50; w.DCal[q] = (float)wlf() * 5; w.PCal[q] = (float)wlf() * 3; } I(it, (uint64_t)&w); break; }
                default: D(it, 1 + wlf() * 1000);
            }
            c.items.push_back(it);
        }
    };
    auto apply = [&](RKConfig *c, const Change &x) {
        for (auto &it : x.items) { const auto &r = it.raw; const auto &d = it.d; switch (it.key) {
            case RKConfigKeySweepElevation: c->sweepElevation = (float)d[0]; break; case RKConfigKeySweepAzimuth: c->sweepAzimuth = (float)d[0]; break; case RKConfigKeyPositionMarker: c->startMarker = (RKMarker)r[0]; break;
            case RKConfigKeyPRT: c->prt[0] = (RKFloat)d[0]; break; case RKConfigKeyPRF: c->prt[0] = (RKFloat)(1.0 / d[0]); break; case RKConfigKeyDualPRF: c->prt[0] = (RKFloat)(1.0 / d[0]); c->prt[1] = (RKFloat)(1.0 / d[1]); break;
            case RKConfigKeyPulseGateCount: c->pulseGateCount = (uint32_t)r[0]; break; case RKConfigKeyPulseGateSize: c->pulseGateSize = (RKFloat)d[0]; break; case RKConfigKeyPulseWidth: for (int q = 0; q < RKMaximumFilterCount; q++) c->pw[q] = (RKFloat)d[0]; break;
            case RKConfigKeyWaveform: c->waveform = (RKWaveform *)r[0]; { char *w = c->waveformName; strncpy(w, c->waveform->name, RKNameLength); } break; case RKConfigKeyWaveformDecimate: c->waveformDecimate = (RKWaveform *)r[0]; break;
            case RKConfigKeyWaveformName: strncpy(c->waveformName, (char *)r[0], RKNameLength - 1); break;
            case RKConfigKeySystemNoise: c->noise[0] = (float)d[0]; c->noise[1] = (float)d[1]; break; case RKConfigKeySystemZCal: c->systemZCal[0] = (float)d[0]; c->systemZCal[1] = (float)d[1]; break; case RKConfigKeySystemDCal: c->systemDCal = (float)d[0]; break; case RKConfigKeySystemPCal: c->systemPCal = (float)d[0]; break;
            case RKConfigKeyWaveformCalibration: { auto *w = (RKWaveformCalibration *)r[0]; int m = w ? w->count : c->waveform ? c->waveform->filterCounts[0] : RKMaximumFilterCount; for (int q = 0; q < m; q++) { c->ZCal[q][0] = w ? w->ZCal[q][0] : 0; c->ZCal[q][1] = w ? w->ZCal[q][1] : 0; c->DCal[q] = w ? w->DCal[q] : 0; c->PCal[q] = w ? w->PCal[q] : 0; } break; }
            case RKConfigKeySNRThreshold: c->SNRThreshold = (float)d[0]; break; case RKConfigKeySQIThreshold: c->SQIThreshold = (float)d[0]; break;
            case RKConfigKeyVCPDefinition: if (r[0]) strncpy(c->vcpDefinition, (char *)r[0], RKMaximumCommandLength - 8); break;
            case RKConfigKeyRingFilterGateCount: c->ringFilterGateCount = (uint32_t)r[0]; break; case RKConfigKeyTransitionGateCount: c->transitionGateCount = (uint32_t)r[0]; break; case RKConfigKeyUserResource: c->userResource = (RKUserResource)r[0]; break; } }
    };
    // two configs are the same: text up to its end, everything else byte by byte
    auto same = [&](const std::string &a, const std::string &b) { RKConfig x, y; memcpy(&x, a.data(), sizeof x); memcpy(&y, b.data(), sizeof y); if (strncmp(x.waveformName, y.waveformName, RKNameLength) || strncmp(x.vcpDefinition, y.vcpDefinition, RKMaximumCommandLength)) return false; memset(x.waveformName, 0, RKNameLength); memset(y.waveformName, 0, RKNameLength); memset(x.vcpDefinition, 0, RKMaximumCommandLength); memset(y.vcpDefinition, 0, RKMaximumCommandLength); return !memcmp(&x, &y, sizeof x); };
    std::vector<int> th; struct Seen { uint64_t id; std::string b; bool byid; }; std::vector<Seen> seen;
    auto verify = [&](const Seen &s) { auto it = canon.find(s.id); CHECK(it != canon.end() && it->second == s.b, "incomplete", "a reader that looked up %s configuration %lu saw an incomplete one", s.byid ? "by number" : "the latest", (unsigned long)s.id); };
    auto saw = [&](const Seen &s) { if (canon.count(s.id)) verify(s); else seen.push_back(s); };
    for (int w = 0; w < nw; w++) th.push_back(sim_spawn(("writer" + std::to_string(w)).c_str(), [&] {
        for (int k = 0; k < n; k++) {
            if (rest == 1 || (rest == 2 && wl(4) == 0)) sim_sleep_ns(wl(2000) * US); else if (rest == 3 && wl(10) == 0) sim_sleep_ns(wl(500) * MS);
            int no = (int)ch.size(); ch.emplace_back(); gen(no);
            std::vector<uint64_t> area; for (auto &it : ch[no].items) { area.push_back(it.key); for (auto v : it.raw) area.push_back(v); } area.push_back(RKConfigKeyNull); area.push_back(0);
            va_list ap; struct { unsigned gp, fp; void *ov, *reg; } va = {48, 304, area.data(), area.data()}; memcpy(&ap, &va, sizeof va);   // all arguments on the stack
            bool bad = ch[no].bad; started++; uint64_t m0 = maxid; RKConfigAdvance(C, &radar->configIndex, depth, ap); finished++; capture();
            if (bad) sim_probe("rejected changes"); else { sim_probe("changes"); CHECK(maxid > m0, "lost", "a change returned but no new configuration was published"); }
        }
    }));
    bool quit = false; std::vector<int> rt;
    for (int r = 0; r < nr; r++) rt.push_back(sim_spawn(("reader" + std::to_string(r)).c_str(), [&] {
        while (!quit) {
            int s0 = finished; uint64_t lo = maxid; bool byid = wl(2); RKConfig *c; uint64_t want = 0;
            if (byid) { want = maxid + 2 - wl(depth + 2); c = RKConfigWithId(C, depth, want); } else c = RKGetLatestConfig(radar);
            std::string b; if (c) { char t[sizeof(RKConfig)]; for (size_t q = 0; q < sizeof(RKConfig); q += 64) { memcpy(t + q, (char *)c + q, 64); if (wl(6) == 0) sim_yield(); } b.assign(t, sizeof t); }
            int moved = started - s0;      // at most that many slots were taken since
            if (byid) {
                if (!c) { CHECK(want > lo || lo - want + (uint64_t)moved + 1 >= depth - 1 || want < 1000, "not-found", "configuration %lu is one of the latest but was not found (latest %lu, depth %u)", (unsigned long)want, (unsigned long)lo, depth); sim_probe("unknown numbers"); }
                else if (want >= 1000 && (int64_t)(lo - want) + moved + 1 < (int64_t)depth - 1) { saw({want, b, true}); sim_probe("reads by number"); }
            } else if (moved + 2 < (int)depth && lo >= 1000) { uint64_t id; memcpy(&id, b.data(), 8); CHECK(id >= lo, "stale", "the latest configuration is %lu although %lu was published before", (unsigned long)id, (unsigned long)lo); saw({id, b, false}); sim_probe("reads of the latest"); }
            if (lo >= 1000) { RKPulse *p = (RKPulse *)calloc(1, sizeof(RKPulse) + 4096); s0 = finished; lo = maxid; RKSetPulseReady(radar, p); uint64_t id = C[p->header.configIndex].i; if (started - s0 + 2 < (int)depth) CHECK(id >= lo && id < 1000000, "pulse", "a pulse made after configuration %lu is tagged with %lu", (unsigned long)lo, (unsigned long)id); free(p); }
            sim_sleep_ns(wl(300) * US);
        }
    }));
    sim_deadline(200 * SEC, "blocked", "a configuration change never returns"); for (int t : th) sim_join(t); sim_deadline_clear();
    quit = true; for (int t : rt) sim_join(t);
    capture();
    // the chain: every accepted change once, each on top of the one before it
    int acc = 0; for (size_t k = 1; k < ch.size(); k++) acc += !ch[k].bad;
    CHECK((int)canon.size() - 1 == acc, "lost", "%d changes were accepted but %zu configurations were published", acc, canon.size() - 1);
    for (auto it = std::next(canon.begin()); it != canon.end(); ++it) {
        auto pr = std::prev(it); CHECK(it->first > pr->first, "number", "numbers do not increase"); RKConfig c, g; memcpy(&c, pr->second.data(), sizeof c); memcpy(&g, it->second.data(), sizeof g); uint64_t no = (uint64_t)g.userResource;
        CHECK(no >= 1 && no < ch.size() && !ch[no].bad, "rejected", "configuration %lu is of change %lu, which is not acceptable", (unsigned long)it->first, (unsigned long)no); CHECK(ch[no].accepted++ == 0, "twice", "change %lu was applied twice", (unsigned long)no);
        apply(&c, ch[no]); c.i = it->first; if (!same(std::string((char *)&c, sizeof c), it->second)) { size_t q = IDB; while (q < sizeof c && ((char *)&c)[q] == ((char *)&g)[q]) q++; sim_fail("mixed", "configuration %lu is not the one before it with the changes of list %lu (first difference at byte %zu)", (unsigned long)it->first, (unsigned long)no, q); }
    }
    for (auto &s : seen) verify(s);
    CHECK(sim_live_code_threads() == 0, "threads-left", "threads left: %s", sim_thread_dump().c_str());
}
