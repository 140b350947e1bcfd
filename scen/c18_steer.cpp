// C18: every accepted scan command drives the pedestal through its sweeps, one after another, each once, each to its end
#include "rk.h"
namespace {
struct Sw { int mode; float e0, e1, a0, a1, rate; bool operator==(const Sw &o) const { return mode == o.mode && e0 == o.e0 && e1 == o.e1 && a0 == o.a0 && a1 == o.a1 && rate == o.rate; } };
typedef std::vector<Sw> List;
// the reference: who is at bat, who is on deck, who is in the hole
struct Model {
    List bat, deck, hole; int i = 0; bool active = false, repeat = true; unsigned done = 0;
    bool operator==(const Model &o) const { return i == o.i && active == o.active && repeat == o.repeat && done == o.done && bat == o.bat && deck == o.deck && hole == o.hole; }
    bool on() const { return active && !bat.empty(); }
    void next() { bat = deck; deck = hole; i = 0; active = true; }
    void end() { if (++i < (int)bat.size()) return; i = 0; if (repeat) next(); else { if (bat.size() == 1 && bat[0].mode == RKScanModePoint) { bat.clear(); deck.clear(); hole.clear(); } active = false; } }
};
enum Kind { LINE, ONCE, NOW, POINT, HOME, STOP, START, NEXT };
struct Cmd { Kind kind; List list; };
static void apply(Model &m, const Cmd &c) {
    switch (c.kind) {
        case STOP: m.active = false; return;
        case START: m.i = 0; m.active = true; m.repeat = true; return;
        case NEXT: m.next(); return;
        case LINE: m.deck = m.hole = c.list; break;
        case ONCE: m.deck = c.list; break;
        case NOW: m.bat.clear(); m.deck = m.hole = c.list; break;
        case POINT: case HOME: m.bat.clear(); m.hole.clear(); m.deck = c.list; break;
    }
    m.repeat = c.kind != POINT; m.active = true; if (c.kind >= NOW || m.bat.empty()) m.next();
}
static double wrap(double d) { while (d < -180) d += 360; while (d >= 180) d -= 360; return d; }
static bool crossed(double prev, double cur, double mark) { double a = wrap(prev - mark), b = wrap(cur - mark); return fabs(b) < 0.005 || (a * b < 0 && fabs(b) < 30 && fabs(a) < 30); }
static const char *modestr(int m) { return m == RKScanModePPI ? "PPI" : m == RKScanModeRHI ? "RHI" : m == RKScanModeSector ? "sector" : m == RKScanModePoint ? "point" : "?"; }
}
SCENARIO(steer, "C18") {
    rk_quiet(); chaos(); cfg.max_vtime = 20000 * SEC;
    double dt = (double[]){0.01, 0.02, 0.025, 0.04, 0.05}[P("report", 0, 4)], acc = 20 + wlf() * 80, lat = (double[]){0, 0.02, 0.06}[P("latency", 0, 2)], stallp = Pbool("stalls_of_reports", 0.3) ? 0.002 : 0, stallhi = 0.3, noise = Pbool("noise", 0.5) ? 0.004 : 0;
    int ncmd = (int)P("commands", 2, 9), ncommander = (int)P("commanders", 1, 2); uint32_t depth = (uint32_t)(16 + P("depth", 0, 200));
    double tol = 0.4 + (stallp > 0 ? 0.4 : 0);
    RKRadarDesc *desc = new_desc(64, 64); desc->positionBufferDepth = depth; desc->heading = (float)wl(3600) / 10;
    RKPosition *pos = (RKPosition *)calloc(depth, sizeof(RKPosition)); RKConfig *configs = (RKConfig *)calloc(8, sizeof(RKConfig)); uint32_t pi = 0, ci = 0;
    RKSteerEngine *E = RKSteerEngineInit(); RKSteerEngineSetVerbose(E, (int)P("verbose", 0, 3)); RKSteerEngineSetEssentials(E, desc, pos, &pi, configs, &ci);
    CHECK(RKSteerEngineStart(E) == RKResultSuccess, "start", "start failed");
    // ---- the history against the model
    std::vector<Model> S(1); struct Op { int who; Cmd c; bool ended; }; std::deque<Op> ops; unsigned base = 0; bool inside = false; std::string last = "-";
    auto closure = [&] {
        for (size_t s = 0; s < S.size(); s++) for (size_t k = 0; k < ops.size(); k++) {
            if (S[s].done >> k & 1) continue; bool blocked = false; for (size_t j = 0; j < k; j++) if (ops[j].who == ops[k].who && !(S[s].done >> j & 1)) blocked = true; if (blocked) continue;
            Model m = S[s]; apply(m, ops[k].c); m.done |= 1u << k; bool dup = false; for (auto &x : S) if (x == m) dup = true; if (!dup) S.push_back(m);
        }
    };
    auto settle = [&] { // what has returned must have taken effect
        if (inside) return; closure();
        for (size_t k = 0; k < ops.size();) { if (!ops[k].ended) { k++; continue; }
            std::vector<Model> n; for (auto &m : S) if (m.done >> k & 1) { m.done = (m.done & ((1u << k) - 1)) | (m.done >> (k + 1) << k); bool dup = false; for (auto &x : n) if (x == m) dup = true; if (!dup) n.push_back(m); } S = n; ops.erase(ops.begin() + k); }
    }; (void)base;
    // ---- the antenna
    double az = wl(3600) / 10.0, el = wl(200) / 10.0, vaz = 0, vel = 0, caz = 0, cel = 0; struct Act { double t; int axis; double v; }; std::deque<Act> acts; double t = sim_now() / 1e9; bool quit = false; double raz = az, rel = el; double lastcmd = 0; long reports = 0, completes = 0; int touched = 0;
    auto step = [&](double h) { // to the time of the next report
        const int n = 4; for (int k = 0; k < n; k++) {
            double hh = h / n; t += hh; while (!acts.empty() && acts.front().t <= t) { (acts.front().axis ? caz : cel) = acts.front().v; acts.pop_front(); }
            auto mv = [&](double &v, double c) { double d = c - v, m = acc * hh; v += d > m ? m : d < -m ? -m : d; }; mv(vaz, caz); mv(vel, cel); az += vaz * hh; el += vel * hh; az -= 360 * floor(az / 360); if (el > 190) { el = 190; vel = 0; } if (el < -6) { el = -6; vel = 0; }
        }
    };
    // the sweep underway, as seen in the reports
    struct Inst { bool clean = false; Sw w; long n = 0; double t0 = 0; long stable = 0, quiet = 0; double emin = 1e9, emax = -1e9, path = 0; bool begun = false; } I; bool have = false; double paz = az, pel = el;
    int ped = sim_spawn("pedestal", [&] {
        bool fresh = true; double base0 = sim_now() / 1e9;
        while (!quit) {
            double wait = t + dt - sim_now() / 1e9; if (wait > 0) sim_sleep_ns((ns_t)(wait * SEC) + 1); if (stallp > 0 && wlf() < stallp) { sim_fault_note("reports late"); sim_sleep_ns((ns_t)(wlf() * stallhi * SEC)); }
            struct Rep { double t, az, el, vaz, vel; }; std::vector<Rep> batch; while (t + dt <= sim_now() / 1e9 && batch.size() < 200) { step(dt); batch.push_back({t, az, el, vaz, vel}); } (void)base0;
            for (auto &r : batch) {
                RKPosition *p = &pos[pi]; p->flag = RKPositionFlagAzimuthEnabled | RKPositionFlagElevationEnabled; p->timeDouble = r.t; raz = round((r.az + (wlf() - 0.5) * 2 * noise) * 100) / 100; rel = round((r.el + (wlf() - 0.5) * 2 * noise) * 100) / 100; if (raz >= 360) raz -= 360; if (raz < 0) raz += 360;
                p->azimuthDegrees = (float)raz; p->elevationDegrees = (float)rel; p->azimuthVelocityDegreesPerSecond = (float)(r.vaz + (wlf() - 0.5) * noise); p->elevationVelocityDegreesPerSecond = (float)(r.vel + (wlf() - 0.5) * noise); p->sweepElevationDegrees = p->sweepAzimuthDegrees = 0; reports++;
                bool busy = !ops.empty(); inside = true; RKScanAction *A = RKSteerEngineGetAction(E, p); RKScanAction action = *A; inside = false; busy = busy || !ops.empty();
                for (int k = 0; k < 2; k++) {
                    if (RKInstructIsNone(action.mode[k])) continue; bool isaz = RKInstructIsAzimuth(action.mode[k]); double v = RKInstructIsSlew(action.mode[k]) ? action.value[k] : 0;
                    CHECK(RKInstructIsSlew(action.mode[k]) || RKInstructIsStandby(action.mode[k]), "instruction", "instruction %x", action.mode[k]); CHECK(std::isfinite(v) && fabs(v) < 100, "slew", "told to slew at %f", v);
                    double at = std::max(sim_now() / 1e9, t) + lat * wlf(); if (!acts.empty()) at = std::max(at, acts.back().t); acts.push_back({at, isaz, v}); sim_note("  %s %s %.1f", isaz ? "az" : "el", RKInstructIsSlew(action.mode[k]) ? "slew" : "stop", v); sim_probe("instructions"); I.quiet = 0;
                }
                uint32_t f = p->flag; bool on = f & RKPositionFlagVCPActive, middle = f & RKPositionFlagScanActive, comp = f & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete);
                int mode = !on ? 0 : (f & RKPositionFlagAzimuthSweep) ? 1 : (f & RKPositionFlagElevationSweep) ? 2 : 3;
                // which of the possible histories agree with this report?
                closure(); std::vector<Model> n; Sw w = {}; int nw = 0; std::string want;
                for (auto &m : S) {
                    if (want.size() < 300) want += m.on() ? "[" + std::string(modestr(m.bat[m.i].mode)) + " el " + std::to_string(m.bat[m.i].e0) + " az " + std::to_string(m.bat[m.i].a0) + " " + std::to_string(m.i + 1) + "/" + std::to_string(m.bat.size()) + "] " : "[none] ";
                    if (m.on() != on) continue; Model q = m;
                    if (on) { const Sw &b = m.bat[m.i]; int bm = b.mode == RKScanModeRHI ? 2 : b.mode == RKScanModePoint ? 3 : 1; if (bm != mode || b.e0 != p->sweepElevationDegrees || b.a0 != p->sweepAzimuthDegrees) continue; if (!nw || !(w == b)) nw++; w = b; if (comp) q.end(); }
                    bool dup = false; for (auto &x : n) if (x == q) dup = true; if (!dup) n.push_back(q);
                }
                CHECK(!n.empty(), "sequence", "the pedestal is in %s el %.2f az %.2f (flags %x) when it should be in %s(last command '%s', %zu in progress)", mode == 0 ? "no sweep" : mode == 1 ? "a PPI or sector" : mode == 2 ? "an RHI" : "a point", p->sweepElevationDegrees, p->sweepAzimuthDegrees, f, want.c_str(), last.c_str(), ops.size());
                S = n; CHECK(!comp || on, "complete", "a sweep is marked complete without a scan");
                // what the antenna did in this sweep
                bool same = have && on && nw == 1 && I.w == w && !busy && !touched;
                if (!on) have = false;
                else { if (!same) { bool follow = !busy && !touched && fresh; I = Inst(); I.clean = follow && nw == 1; I.w = w; I.t0 = r.t; have = nw == 1; } }
                fresh = comp || !on; touched = 0;
                if (have && on && nw == 1) {
                    double de = rel - w.e0, da = wrap(raz - w.a0), ag = sim_now() / 1e9 - r.t, cr = fabs(w.rate); I.n++;
                    I.quiet++; if (fabs(de) <= tol) I.stable++; else I.stable = 0;
                    if (middle) { if (!I.begun) { I.begun = true; I.path = 0; } else I.path += w.mode == RKScanModeRHI ? fabs(rel - pel) : wrap(raz - paz); I.emin = std::min(I.emin, rel); I.emax = std::max(I.emax, rel);
                        if (w.mode == RKScanModeRHI) { CHECK(fabs(da) <= tol, "azimuth of an RHI", "RHI at az %.2f el %.1f-%.1f is collecting at az %.2f el %.2f", w.a0, w.e0, w.e1, raz, rel); double over = cr * (dt + ag) + tol + (stallp > 0 ? 1.5 : 0.5); CHECK(rel >= std::min(w.e0, w.e1) - over && rel <= std::max(w.e0, w.e1) + over, "elevation of an RHI", "RHI at az %.2f el %.1f-%.1f is collecting at el %.2f", w.a0, w.e0, w.e1, rel); }
                        if (w.mode == RKScanModeSector) { CHECK(fabs(de) <= tol, "elevation of a sector", "sector at el %.2f az %.1f-%.1f is collecting at el %.2f az %.2f", w.e0, w.a0, w.a1, rel, raz); double span = (w.a1 - w.a0) * (w.rate > 0 ? 1 : -1), at = da * (w.rate > 0 ? 1 : -1); while (span < 0) span += 360; (void)at; if (I.begun) CHECK(I.path * (w.rate > 0 ? 1 : -1) <= span + cr * (dt + ag) * 2 + 2, "span of a sector", "sector at el %.2f az %.1f-%.1f has gone on to az %.2f, %.1f degrees", w.e0, w.a0, w.a1, raz, I.path); }
                    }
                    bool cross = w.mode == RKScanModeRHI ? crossed(pel, rel, w.e1) : w.mode == RKScanModePoint ? false : crossed(paz, raz, w.a1);
                    if (w.mode == RKScanModePPI && !comp && I.clean && cross && I.quiet > 206 && I.stable > 206) sim_fail("past the end", "PPI at el %.2f passes its end at az %.2f without an end, %ld reports after the last instruction", w.e0, w.a1, I.quiet);
                    if (comp) {
                        completes++; sim_probe(modestr(w.mode)); const char *ms = modestr(w.mode);
                        if (w.mode == RKScanModePoint) CHECK(fabs(de) <= 0.12 && fabs(da) <= 0.12, "point", "done pointing to el %.2f az %.2f at el %.2f az %.2f", w.e0, w.a0, rel, raz);
                        else CHECK(cross, "end", "%s at el %.2f-%.2f az %.2f-%.2f ends at el %.2f az %.2f (before: el %.2f az %.2f)", ms, w.e0, w.e1, w.a0, w.a1, rel, raz, pel, paz);
                        if (I.clean && w.mode == RKScanModePPI) CHECK(I.stable >= 190 || I.stable >= I.n, "elevation of a PPI", "PPI at el %.2f ends at el %.2f az %.2f after only %ld reports at its elevation", w.e0, rel, raz, I.stable);
                        if (I.clean && w.mode == RKScanModePPI) CHECK((p->azimuthVelocityDegreesPerSecond - w.rate) * (p->azimuthVelocityDegreesPerSecond - w.rate) < 1, "speed of a PPI", "PPI at el %.2f turns at %.2f deg/s instead of %.2f", w.e0, p->azimuthVelocityDegreesPerSecond, w.rate);
                        I.emin = std::min(I.emin, rel); I.emax = std::max(I.emax, rel); if (I.clean && w.mode == RKScanModeRHI) CHECK(I.emin <= std::min(w.e0, w.e1) + tol && I.emax >= std::max(w.e0, w.e1) - tol, "span of an RHI", "RHI at az %.2f el %.1f-%.1f covers el %.2f-%.2f", w.a0, w.e0, w.e1, I.emin, I.emax);
                        if (I.clean && w.mode == RKScanModeSector) { double span = (w.a1 - w.a0) * (w.rate > 0 ? 1 : -1); while (span < 0) span += 360; CHECK(I.path * (w.rate > 0 ? 1 : -1) >= span - 2 * tol, "span of a sector", "sector at el %.2f az %.1f-%.1f covers %.2f degrees", w.e0, w.a0, w.a1, I.path); }
                        have = false; sim_hash(f);
                    } else {
                        double lim = 80 + 800 * dt + (w.mode == RKScanModePPI ? 3 * 360 / cr : w.mode == RKScanModeRHI ? 2 * fabs(w.e1 - w.e0) / cr : w.mode == RKScanModeSector ? 2 * 360 / cr : 0);
                        if (r.t - I.t0 > lim) sim_fail("stuck", "%s at el %.2f-%.2f az %.2f-%.2f, %.1f deg/s, has not ended after %.0f s: el %.2f @ %.2f az %.2f @ %.2f, progress %x toc %d", modestr(w.mode), w.e0, w.e1, w.a0, w.a1, w.rate, r.t - I.t0, rel, r.vel, raz, r.vaz, E->vcpHandle.progress, E->vcpHandle.toc);
                    }
                }
                paz = raz; pel = rel; settle();
                p->flag |= RKPositionFlagReady; pi = RKNextModuloS(pi, depth);
            }
        }
    });
    // ---- the commanders
    auto num = [&](double v) { char b[32]; snprintf(b, sizeof b, wl(2) ? "%g" : "%.1f", v); return std::string(b); };
    auto E1 = [&] { return (float)(wl(6) ? wl(300) / 10.0 : wl(900) / 10.0); }; auto A1 = [&] { return (float)(wl(3600) / 10.0); };
    auto ppi = [&](List &l, bool word) { int n = 1 + (int)wl(wl(40) ? 4 : 60); std::string s; float first = E1(); for (int k = 0; k < n; k++) { float e = n > 4 ? (float)(k % 10) : wl(4) ? (k ? E1() : first) : first; l.push_back({RKScanModePPI, strtof(num(e).c_str(), 0), 0, 0, 0, 18}); s += (k ? "," : "") + num(l.back().e0 = strtof(num(e).c_str(), 0)); }
        (void)word; int more = (int)wl(5); float a = 0, r = RKDefaultScanSpeed; if (more) { a = A1(); s += " " + num(a); } if (more > 1) { r = (float)(20 + wl(40)) * (wl(3) ? 1 : -1); s += " " + num(r); } size_t from = l.size() - n; for (size_t k = from; k < l.size(); k++) { l[k].e1 = l[k].e0; l[k].a0 = l[k].a1 = a; l[k].rate = r; } return s; };
    auto rhi = [&](List &l) { float lo = E1(), hi = lo + 5 + (float)wl(40); if (wl(5) == 0) std::swap(lo, hi); int n = 1 + (int)wl(4); std::string s = num(lo) + "," + num(hi) + " "; float r = RKDefaultScanSpeed; std::vector<float> as; for (int k = 0; k < n; k++) { as.push_back(A1()); s += (k ? "," : "") + num(as[k]); } if (wl(4)) { r = (float)(4 + wl(16)); s += " " + num(r); } for (int k = 0; k < n; k++) { float a = k % 2 ? hi : lo, b = k % 2 ? lo : hi; l.push_back({RKScanModeRHI, a, b, as[k], 0, b < a ? -r : r}); } return s; };
    auto gen = [&](std::string &text, Cmd &c) -> bool { // false: to be refused
        c.list.clear(); int what = (int)wl(16); static const char *bad[] = {"pp", "ipp", "ipp x 0 18", "ipp 2,abc 0 18", "ipp 2,4 zz", "ipp 2 0 fast", "irr 0,20", "irr 5 10,20", "irr 0,20 a,b", "orr 0,20 10 0", "ivol", "ivol ", "vol", "vol p", "ivol p 2", "ivol p 2 x 18", "ivol q 2 0 18", "ivol xx 2 0 18", "ivol ss 2 0 18", "ivol p 2 0 18/p", "ovol p 2 0 18/zz 1 2", "point", "point 5", "point a b", "", "   ", "hello", "ipp 2 0 0", "ivol p 2 0 nan", "ivol p 2 0 18/r 5 10 10", "opp , 0 18", "ivol p 4 0 18/pp", "ivol p 4 0 18/rr 0,9", "pp 2 0 18 7", "stopp", "ipp inf 0 18", "rr 10,10 5 5", "vol p 2 0 18/p x 0 18"};
        if (what < 3) { int k = (int)wl(sizeof bad / sizeof *bad + 1); if (k == sizeof bad / sizeof *bad) { text = "ivol "; for (int q = 0; q < 30; q++) text += "pp 1,2,3,4,5,6,7,8,9 0 18/"; text += "p 2 0 18"; } else text = bad[k]; return false; }
        if (what == 3) { text = wl(2) ? "stop" : "end"; c.kind = STOP; return true; } if (what == 4) { text = (const char *[]){"start", "run", "go"}[wl(3)]; c.kind = START; return true; } if (what == 5) { text = "next"; c.kind = NEXT; return true; }
        if (what == 6) { c.kind = POINT; float e = E1(), a = A1(); text = "point " + num(e) + " " + num(a); c.list.push_back({RKScanModePoint, e, e, a, a, NAN}); c.list[0].rate = 0; return true; } if (what == 7 && wl(2)) { c.kind = HOME; text = "home"; c.list.push_back({RKScanModePoint, 0, 0, desc->heading, desc->heading, 0}); return true; }
        int k = (int)wl(3); c.kind = k == 0 ? LINE : k == 1 ? ONCE : NOW; const char *pre = k == 0 ? "" : k == 1 ? "o" : "i"; int form = (int)wl(4);
        if (form == 0) text = std::string(pre) + "pp " + ppi(c.list, true); else if (form == 1) text = std::string(pre) + "rr " + rhi(c.list);
        else { text = std::string(pre) + "vol "; int n = 1 + (int)wl(4); for (int j = 0; j < n; j++) { if (j) text += wl(4) ? "/" : " / "; switch (wl(5)) {
            case 0: text += "pp " + ppi(c.list, true); break; case 1: text += "rr " + rhi(c.list); break;
            case 2: { float e = E1(), a = A1(), r = (float)(20 + wl(40)) * (wl(3) ? 1 : -1); bool dflt = wl(5) == 0; if (dflt) r = RKDefaultScanSpeed; text += "p " + num(e) + " " + num(a) + (dflt ? "" : " " + num(r)); c.list.push_back({RKScanModePPI, e, e, a, a, r}); break; }
            case 3: { float lo = E1(), hi = lo + 5 + (float)wl(40), a = A1(), r = (float)(4 + wl(16)); if (wl(3) == 0) std::swap(lo, hi); text += "r " + num(lo) + "," + num(hi) + " " + num(a) + " " + num(r); c.list.push_back({RKScanModeRHI, lo, hi, a, 0, hi < lo ? -r : r}); break; }
            case 4: { float e = E1(), a = A1(), r = (float)(10 + wl(30)) * (wl(2) ? 1 : -1), b = a + (float)(5 + wl(200)) * (r > 0 ? 1 : -1); if (b >= 360) b -= 360; if (b < 0) b += 360; std::string sb = num(b); b = strtof(sb.c_str(), 0); text += "s " + num(e) + " " + num(a) + "," + sb + " " + num(r); c.list.push_back({RKScanModeSector, e, e, a, b, r}); break; } } } }
        // numbers as they were written
        return true;
    };
    std::vector<int> cs; int running = ncommander;
    for (int w = 0; w < ncommander; w++) cs.push_back(sim_spawn("commander", [&, w] {
        char *resp = (char *)malloc(RKMaximumStringLength + 64);
        for (int k = 0; k < ncmd; k++) {
            switch (wl(5)) { case 0: break; case 1: sim_sleep_ns(wl(200) * MS); break; case 2: sim_sleep_ns(wl(5000) * MS); break; default: sim_sleep_ns(wl(60) * SEC); }
            std::string text; Cmd c; bool ok = gen(text, c); memset(resp, 0x5A, RKMaximumStringLength + 64); resp[0] = 0; char *given = (char *)malloc(text.size() + 1); memcpy(given, text.c_str(), text.size() + 1); bool summ = wl(12) == 0; if (summ) { ok = true; strcpy(given = (char *)realloc(given, 16), "summ"); text = "summ"; }
            Op *mine = NULL; (void)mine; static long ticket; long my = ++ticket; std::vector<long> dummy; if (ok && !summ) { touched = 1; ops.push_back({w, c, false}); } (void)my; last = text; sim_note("command '%.200s'%s", text.c_str(), ok ? "" : " (malformed)");
            bool null = wl(6) == 0; int r = RKSteerEngineExecuteString(E, given, null ? NULL : resp); const char *res = null ? E->response : resp; sim_probe(ok ? "commands" : "malformed commands");
            if (ok && !summ) { touched = 1; for (auto &o : ops) if (o.who == w && !o.ended) { o.ended = true; break; } }
            sim_note("command '%.200s' returns %d", text.c_str(), r);
            CHECK(ok == (r == RKResultSuccess), ok ? "refused" : "accepted", "'%.300s' returns %d '%.100s'", text.c_str(), r, res); if (!null) { CHECK(memcmp(res, ok ? "ACK" : "NAK", 3) == 0, "answer", "'%.300s' is answered '%.60s'", text.c_str(), res); size_t len = strnlen(resp, RKMaximumStringLength); CHECK(len < RKMaximumStringLength && resp[RKMaximumStringLength] == 0x5A && resp[RKMaximumStringLength + 63] == 0x5A, "overflow", "the answer to '%.300s' is longer than %d", text.c_str(), RKMaximumStringLength); }
            settle(); free(given);
        }
        free(resp); running--;
    }));
    for (int c : cs) sim_join(c);
    sim_calm(); sim_sleep_ns((10 + wl(100)) * SEC); if (wl(2)) { char *resp = (char *)malloc(RKMaximumStringLength); Cmd c; c.kind = STOP; touched = 1; ops.push_back({9, c, false}); CHECK(RKSteerEngineExecuteString(E, "stop", resp) == RKResultSuccess, "stop", "stop refused"); ops.back().ended = true; settle(); free(resp); }
    double until = 0; (void)until; int idle = 0; for (int k = 0; k < 200 && idle < 5; k++) { sim_sleep_ns(2 * SEC); bool any = false; for (auto &m : S) any |= m.on(); idle = any ? 0 : idle + 1; if (any && k > 20) break; }
    if (idle >= 5) { CHECK(fabs(vaz) < 0.01 && fabs(vel) < 0.01, "rest", "nothing to scan, yet the pedestal moves: el %.2f @ %.2f az %.2f @ %.2f (last command '%s')", el, vel, az, vaz, last.c_str()); sim_probe("at rest"); }
    quit = true; sim_join(ped); (void)lastcmd; (void)running;
    sim_deadline(100 * SEC, "stop", "RKSteerEngineStop"); CHECK(RKSteerEngineStop(E) == RKResultSuccess, "stop", "stop failed"); sim_deadline_clear(); CHECK((E->state & 0xFFFF) == (RKEngineStateAllocated | RKEngineStateProperlyWired), "state", "state %x after stop", E->state); RKSteerEngineFree(E);
}
