// C04: every pulse gets the antenna position of its own time, in order, with the markers of the reports it passes
#include "rk.h"
SCENARIO(position, "C04") {
    rk_quiet(); chaos(); cfg.stall_harness = Pbool("stallall", 0.5); cfg.max_vtime = 3000 * SEC;
    uint32_t depth = (uint32_t)(16 + P("depth", 0, 80)), pdepth = (uint32_t)(16 + P("pdepth", 0, 80)), cdepth = (uint32_t)(12 + P("cdepth", 0, 20)); int n = (int)P("pulses", 20, 500);
    double prate = (double[]){3, 20, 100, 400, 1000}[P("prf", 0, 4)], rrate = (double[]){5, 20, 50, 100}[P("reports", 0, 3)]; int late = (int)P("late", 0, 3); bool gaps = Pbool("gaps", 0.3), ops = Pbool("operator", 0.3), restartless = true; (void)restartless;
    double lead = Pbool("early", 0.4) ? wlf() * 3 : 0, pulselead = Pbool("earlypulses", 0.2) ? 0.05 + wlf() * 0.5 : 0;
    RKRadar *radar = (RKRadar *)calloc(1, sizeof(RKRadar)); RKRadarDesc *desc = &radar->desc; memcpy(desc, new_desc(64, depth), sizeof *desc); desc->positionBufferDepth = pdepth; desc->configBufferDepth = cdepth; radar->state = RKRadarStateLive;
    RKPulseBufferAlloc(&radar->pulses, 64, depth); for (uint32_t i = 0; i < depth; i++) RKGetPulseFromBuffer(radar->pulses, i)->header.i = -(uint64_t)depth + i;
    RKConfigBufferAlloc(&radar->configs, cdepth); for (uint32_t i = 0; i < cdepth; i++) radar->configs[i].i = -(uint64_t)cdepth + i + 1000;
    radar->positions = (RKPosition *)calloc(pdepth, sizeof(RKPosition)); for (uint32_t i = 0; i < pdepth; i++) radar->positions[i].i = -(uint64_t)pdepth + i;
    RKPositionEngine *E = RKPositionEngineInit(); radar->positionEngine = E; RKPositionEngineSetVerbose(E, (int)P("verbose", 0, 3)); RKPositionEngineSetEssentials(E, desc, radar->positions, &radar->positionIndex, radar->configs, &radar->configIndex, radar->pulses, &radar->pulseIndex);
    struct Rep { double t; RKPosition p; }; struct Pul { double t; RKPulse *p; uint64_t id; uint32_t gates; bool ready = false, tagged = false; int pub = 0; RKPulseHeader h; RKConfig c; }; std::deque<Rep> reps; std::deque<Pul> pul; int published = 0, made = 0, tagged = 0; bool quit = false, pdone = false;
    double t0 = wl(2) ? 100 : 1000000; auto now = [&] { return t0 + sim_now() / 1e9; }; double az = wlf() * 360, el = wlf() * 20, vaz = 0, vel = 0, tl = now(), first_rep = -1;
    CHECK(RKPositionEngineStart(E) == RKResultSuccess, "start", "start failed");
    // the antenna: reports are measured regularly and delivered late, in order, possibly in bursts
    int mode = 0, left = 0; uint32_t flag = 0; float sel = 0, saz = 0;
    int ped = sim_spawn("pedestal", [&] {
        if (pulselead > 0) sim_sleep_ns((ns_t)(pulselead * SEC));
        while (!quit) {
            int burst = late == 2 ? 1 + (int)wl(6) : 1; std::vector<Rep> b;
            for (int i = 0; i < burst; i++) {
                sim_sleep_ns((ns_t)(SEC / rrate * (late == 3 ? 0.3 + 1.4 * wlf() : 1)));
                double t = now(), dt = t - tl; tl = t; az += vaz * dt; el += vel * dt; az -= 360 * floor(az / 360); Rep r; memset(&r.p, 0, sizeof r.p); r.t = t;
                if (left-- <= 0) {
                    bool was = flag & RKPositionFlagScanActive;
                    switch (wl(was ? 4 : 3)) { case 0: mode = 0; vaz = vel = 0; break; case 1: mode = 1; vaz = (wlf() - 0.5) * 120; vel = 0; break; case 2: mode = 2; vel = (wlf() - 0.5) * 20; vaz = 0; break; case 3: mode = 1; vaz = -vaz; break; }
                    left = 1 + (int)wl(wl(3) ? 40 : 5); sel = (float)el; saz = (float)az;
                    flag = (mode ? RKPositionFlagScanActive : 0) | (mode == 1 ? RKPositionFlagAzimuthSweep | RKPositionFlagElevationPoint : mode == 2 ? RKPositionFlagElevationSweep | RKPositionFlagAzimuthPoint : wl(2) ? 0 : RKPositionFlagAzimuthPoint | RKPositionFlagElevationPoint) | RKPositionFlagAzimuthEnabled | RKPositionFlagElevationEnabled;
                    if (mode && wl(12) == 0) flag &= ~RKPositionFlagScanActive;
                }
                r.p.flag = flag; if (left == 0 && mode && wl(4)) r.p.flag |= mode == 1 ? RKPositionFlagAzimuthComplete : RKPositionFlagElevationComplete; if (wl(60) == 0) r.p.flag |= RKPositionFlagAzimuthComplete;
                r.p.azimuthDegrees = (float)az; if (r.p.azimuthDegrees >= 360) r.p.azimuthDegrees = 0; r.p.elevationDegrees = (float)el; r.p.azimuthVelocityDegreesPerSecond = (float)vaz; r.p.elevationVelocityDegreesPerSecond = (float)vel; r.p.sweepElevationDegrees = sel; r.p.sweepAzimuthDegrees = saz; r.p.rawAzimuth.u32 = (uint32_t)wl(1u << 31); r.p.rawElevation.u32 = (uint32_t)wl(1u << 31); r.p.timeDouble = t;
                if (gaps && wl(50) == 0) { sim_fault_note("reports dropped"); sim_sleep_ns(wl(500) * MS); continue; }
                b.push_back(r);
            }
            if (late == 1) { sim_fault_note("reports late"); sim_sleep_ns(wl(120) * MS); } if (late == 2) sim_fault_note("reports in a burst");
            for (auto &r : b) {
                // never further ahead of the oldest pulse in flight than the ring of positions allows
                sim_wait_until([&] { if (quit || tagged == (int)pul.size()) return true; double t = pul[tagged].t; int newer = 0; for (int i = (int)reps.size() - 1; i >= 0 && reps[i].t > t; i--) newer++; return newer < (int)pdepth * 3 / 4 - 2; }, 1000 * SEC, MS);
                RKPosition *p = RKGetVacantPosition(radar); uint64_t id = p->i; RKPosition q = r.p; q.i = id; q.tic = reps.size();
                reps.push_back(r); size_t o0 = offsetof(RKPosition, tic), len = sizeof(RKPosition) - o0, cut = wl(3) ? len : wl(len + 1), first = wl(2);
                // written piece by piece, as a slow pedestal reader does: nobody may look before it is ready
                for (int part = 0; part < 2; part++) { size_t a = (part ^ first) ? o0 + cut : o0, l = (part ^ first) ? len - cut : cut; memcpy((char *)p + a, (char *)&q + a, l); if (wl(5) == 0) sim_yield(); else if (cut < len && wl(3) == 0) sim_sleep_ns(wl(20) * MS); } p->flag |= RKPositionFlagReady; radar->positionIndex = RKNextModuloS(radar->positionIndex, pdepth); published++; if (first_rep < 0) first_rep = r.t; sim_probe("reports");
            }
        }
    });
    int op = ops ? sim_spawn("operator", [&] { while (!quit) { RKAddConfig(radar, RKConfigKeyPRF, 1000.0 + wl(100), RKConfigKeyNull); sim_sleep_ns(wl(400) * MS); } }) : -1;
    // the pulses: made in order, finished by the stages before in order
    int prod = sim_spawn("pulses", [&] {
        if (lead > 0) sim_sleep_ns((ns_t)(lead * SEC)); uint32_t gates = 32;
        for (int i = 0; i < n && !quit; i++) {
            sim_wait_until([&] { return quit || (int)pul.size() - tagged < (int)depth * 7 / 8 - 3; }, 1000 * SEC, MS);
            RKPulse *p = RKGetVacantPulse(radar); p->header.gateCount = gates; p->header.gateSizeMeters = 30; p->header.timeDouble = now(); p->header.time.tv_sec = (time_t)p->header.timeDouble; p->header.marker = 0xFF; Pul x; x.t = p->header.timeDouble; x.p = p; x.id = p->header.i; x.gates = gates; pul.push_back(x); if (wl(150) == 0) gates = 16 + (uint32_t)wl(48);
            if (gaps && wl(60) == 0) { sim_fault_note("pulse gap"); sim_sleep_ns((ns_t)(wlf() * (wl(2) ? 0.5 : 2.5 * pdepth / rrate) * SEC)); }
            sim_sleep_ns((ns_t)(SEC / prate * (0.8 + 0.4 * wlf())));
        }
        pdone = true;
    });
    double piped = (double[]){0, 0.002, 0.05}[P("pipeline", 0, 2)];
    int pipe = sim_spawn("pipeline", [&] { for (int i = 0; i < n && !quit; i++) { while (i >= (int)pul.size() && !quit) sim_sleep_ns(MS); if (quit) break; sim_sleep_ns((ns_t)(piped * wlf() * SEC)); pul[i].p->header.s |= RKPulseStatusHasIQData | RKPulseStatusRingProcessed; pul[i].ready = true; } });
    // the judge
    double lastt = -1; uint32_t m1 = RKMarkerSweepEnd; int after1 = 0; double csel = 0, csaz = 0; bool haveconf = false; uint32_t cmark = 0; (void)lastt;
    auto capture = [&] { sim_atomic_begin(); for (int i = tagged; i < (int)pul.size(); i++) { Pul &x = pul[i]; if (x.p->header.i != x.id || !(x.p->header.s & RKPulseStatusHasPosition)) break; CHECK(x.ready, "early", "pulse %d is tagged before the stages before have finished with it", i); x.tagged = true; x.pub = published; x.h = x.p->header; CHECK(x.h.configIndex < cdepth, "config", "pulse %d has configuration %d of %u", i, x.h.configIndex, cdepth); x.c = radar->configs[x.h.configIndex]; tagged++; }
        for (int i = tagged; i < (int)pul.size(); i++) CHECK(!(pul[i].p->header.i == pul[i].id && pul[i].p->header.s & RKPulseStatusHasPosition), "order", "pulse %d is tagged before pulse %d", i, tagged); sim_atomic_end(); };
    int judged = 0;
    auto judge = [&] {
        for (; judged < tagged; judged++) {
            Pul &x = pul[judged]; int a = after1; while (a < (int)reps.size() && reps[a].t <= x.t) a++; CHECK(a < (int)reps.size(), "bracket", "pulse %d of %.6f is tagged before there is a position report newer than it", judged, x.t);
            int passed = a - after1; bool complete = false; for (int q = after1; q < a; q++) complete |= reps[q].p.flag & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete); bool nobefore = a == 0; const RKPosition &B = reps[nobefore ? 0 : a - 1].p, &A = reps[a].p; double tb = nobefore ? x.t : reps[a - 1].t, ta = reps[a].t, al = nobefore ? 0 : (x.t - tb) / (ta - tb);
            double d = remainder((double)A.azimuthDegrees - B.azimuthDegrees, 360), e = (double)A.elevationDegrees - B.elevationDegrees, waz = B.azimuthDegrees + al * d, wel = B.elevationDegrees + al * e; waz -= 360 * floor(waz / 360);
            CHECK(x.h.azimuthDegrees >= 0 && x.h.azimuthDegrees < 360, "azimuth", "pulse %d has azimuth %.9g", judged, x.h.azimuthDegrees);
            if (fabs(fabs(d) - 180) > 0.01) CHECK(fabs(remainder(x.h.azimuthDegrees - waz, 360)) < 2e-3, "position", "pulse %d of %.6f has azimuth %.4f instead of %.4f (%.4f at %.6f, %.4f at %.6f)", judged, x.t, x.h.azimuthDegrees, waz, B.azimuthDegrees, tb, A.azimuthDegrees, ta);
            CHECK(fabs(x.h.elevationDegrees - wel) < 2e-3, "position", "pulse %d of %.6f has elevation %.4f instead of %.4f (%.4f at %.6f, %.4f at %.6f)", judged, x.t, x.h.elevationDegrees, wel, B.elevationDegrees, tb, A.elevationDegrees, ta);
            CHECK(x.h.azimuthVelocityDegreesPerSecond == B.azimuthVelocityDegreesPerSecond && x.h.elevationVelocityDegreesPerSecond == B.elevationVelocityDegreesPerSecond && x.h.rawAzimuth.u32 == B.rawAzimuth.u32 && x.h.rawElevation.u32 == B.rawElevation.u32, "raw", "pulse %d does not carry the raw readings of the report before it", judged);
            // markers
            uint32_t m = 0, f = B.flag; if (f & RKPositionFlagScanActive) m |= RKMarkerSweepMiddle; bool ep = f & RKPositionFlagElevationPoint, as = f & RKPositionFlagAzimuthSweep, ap = f & RKPositionFlagAzimuthPoint, es = f & RKPositionFlagElevationSweep; m |= ep && as ? RKMarkerScanTypePPI : ap && es ? RKMarkerScanTypeRHI : ap && ep ? RKMarkerScanTytpePoint : 0;
            bool end = (passed == 1 && complete) || (passed > 1 && complete && !(m1 & RKMarkerSweepEnd)) || ((m1 & RKMarkerSweepMiddle) && !(m & RKMarkerSweepMiddle)); bool begin = (m & RKMarkerSweepMiddle) && (!(m1 & RKMarkerSweepMiddle) || (m1 & RKMarkerSweepEnd));
            bool wrapped = x.pub - after1 >= (int)(pdepth - pdepth / 8 - 2) || nobefore || (judged && pul[judged - 1].t < first_rep);   // the ring no longer holds every report passed
            uint32_t want = m | (end ? RKMarkerSweepEnd : 0) | (begin ? RKMarkerSweepBegin : 0), got = x.h.marker; if (wrapped) { want = (want & ~RKMarkerSweepEnd) | (got & RKMarkerSweepEnd); }
            bool typechange = (m & RKMarkerScanTypeMask) != (m1 & RKMarkerScanTypeMask); if (typechange && (m & RKMarkerSweepMiddle)) want = (want & ~RKMarkerSweepBegin) | (begin ? RKMarkerSweepBegin : got & RKMarkerSweepBegin);
            CHECK(got == want, "marker", "pulse %d has marker %02x instead of %02x (before: %02x, %d reports passed, %s)", judged, got, want, m1, passed, complete ? "one completes a sweep" : "none completes a sweep");
            if (got & RKMarkerSweepBegin) sim_probe("sweeps begun"); if (got & RKMarkerSweepEnd) sim_probe("sweeps ended");
            if ((got & RKMarkerSweepBegin) || typechange) { csel = A.sweepElevationDegrees; csaz = A.sweepAzimuthDegrees; cmark = got; haveconf = true; }
            if (haveconf) CHECK(x.c.sweepElevation == (float)csel && x.c.sweepAzimuth == (float)csaz && x.c.startMarker == cmark, "config", "pulse %d has a configuration of sweep %.3f %.3f marker %02x, its sweep is %.3f %.3f marker %02x", judged, x.c.sweepElevation, x.c.sweepAzimuth, x.c.startMarker, csel, csaz, cmark);
            CHECK(!haveconf || x.c.pulseGateCount == x.gates, "config", "pulse %d of %u gates has a configuration of %u gates", judged, x.gates, x.c.pulseGateCount);
            m1 = got; after1 = a; sim_probe("pulses tagged"); if (a != nobefore && passed == 0) sim_probe("same bracket");
        }
    };
    ns_t quiet = sim_now(); int last = 0;
    while (tagged < n) {
        sim_sleep_ns((1 + wl(3)) * MS); capture(); judge(); if (tagged != last) { last = tagged; quiet = sim_now(); }
        // progress: with a finished pulse and a newer report the tagger moves on
        if (tagged < (int)pul.size() && pul[tagged].ready && !reps.empty() && published > 1 && reps[published - 1].t > pul[tagged].t) CHECK(sim_now() - quiet < 60 * SEC, "stuck", "pulse %d is not tagged although there are newer position reports", tagged); else quiet = sim_now();
    }
    for (int i = std::max(0, (int)pul.size() - (int)depth * 3 / 4); i < (int)pul.size(); i++) { RKPulseHeader h = pul[i].p->header; CHECK(h.azimuthDegrees == pul[i].h.azimuthDegrees && h.elevationDegrees == pul[i].h.elevationDegrees && h.marker == pul[i].h.marker && h.configIndex == pul[i].h.configIndex, "twice", "pulse %d was tagged again", i); }
    sim_wait_until([&] { return pdone; }, 100 * SEC, MS); sim_deadline(20 * SEC, "stop", "stopping the engine"); CHECK(RKPositionEngineStop(E) == RKResultSuccess, "stop", "stop failed"); sim_deadline_clear(); quit = true; sim_join(ped); sim_join(prod); sim_join(pipe); if (op >= 0) sim_join(op);
    RKPositionEngineFree(E);
}
