// C13: derived time follows the hardware counter with bounded error, and settles again after any jump
#include "rk.h"
SCENARIO(clock, "C13") {
    rk_quiet(); cfg.max_vtime = 100000 * SEC; cfg.p_jitter = 0;
    uint32_t S = 20 * P("stride", 1, 4), size = S + (uint32_t)P("slack", 1, 50);
    double prt = 1e-3 * P("prt", 1, 5), rate = std::pow(10.0, (double)P("rate", 3, 8)), drift = (P("drift", 0, 2) - 1) * 5e-5, off = P("offset", 0, 2) * -0.5;
    ns_t late_hi = (ns_t)(S * prt * 1e9 / 6 * P("late", 0, 4) / 4); double p_late = P("plate", 0, 3) * 0.1;
    bool wisdom = Pbool("wisdom", 0.5), hp = !Pbool("lowprecision", 0.3), resetter = Pbool("resetter", 0.8);
    int events = (int)P("events", 0, 5);
    RKClock *c = RKClockInitWithSize(size, S);
    RKClockSetHighPrecision(c, hp); RKClockSetOffset(c, off);
    if (wisdom) RKClockSetDuDx(c, rate);
    double epoch = hp ? floor(sim_wall() / 86400.0) * 86400.0 : 0;
    bool quit = false; uint64_t resets = 0;
    int th = resetter ? sim_spawn("waveform change", [&] { while (!quit) { sim_sleep_ns((ns_t)((0.2 + wlf()) * 60 * S * prt * 1e9)); if (quit) break; resets++; RKClockReset(c); resets++; sim_fault_note("concurrent reset"); } }) : -1;
    // true time of pulse k, in host time: base + n * prt; counter: u0 + n * prt * rate
    double u0 = 1000 + wl(1000000), prev = 0, Lobs = 0; ns_t t0 = sim_now() + 10 * MS; double host0 = sim_wall() + 0.01 - epoch; uint64_t n = 0, since = 0, lastreset = 0; int settle = 0; bool jumped = false;
    int total = (2 + 45 * (events + 1)) * S, next = (int)(3 * S + wl(40 * S));
    for (int k = 0; k < total; k++, n++, since++) {
        if (k == next && events > 0) {
            bool fine = settle == 0 && since > 3 * S && resets == lastreset && resets % 2 == 0; events--; next = k + 33 * S + wl(20 * S); since = 0; settle = 30; jumped = true; double lens[] = {0.3, 5, 100, 290, 400, 4000};
            double len = lens[wl(6)] * (0.5 + wlf());
            switch (wl(6)) {
            case 0: sim_wall_jump((int64_t)(len * 1e9)); host0 += len; sim_fault_note("host clock jumps ahead"); sim_note("host +%f", len); break;
            case 1: sim_wall_jump(-(int64_t)(len * 1e9)); host0 -= len; sim_fault_note("host clock jumps back"); sim_note("host -%f", len); break;
            case 2: u0 += len * rate; sim_fault_note("counter jumps ahead"); sim_note("counter +%f s", len); break;
            case 3: u0 -= std::min(len * rate, u0 + n * prt * rate); sim_fault_note("counter jumps back"); sim_note("counter -%f s", len); break;
            case 4: u0 = -(double)n * prt * rate; sim_fault_note("counter restarts"); sim_note("counter restart"); break;
            case 5: { uint64_t m = (uint64_t)(len / prt); n += m; sim_fault_note("silence"); sim_note("silence %f s", len); if (wl(2)) { u0 -= (double)m * prt * rate; sim_fault_note("counter stops meanwhile"); sim_note("counter stops"); }
                if (fine && len > 310) { settle = 0; sim_probe("starts over after a long silence"); } break; }   // it starts over, everything before is forgotten
            }
        }
        ns_t due = t0 + (ns_t)(n * prt * (1 + drift) * 1e9) + 1000 * sim_fault_n("late call", p_late, 1, std::max<ns_t>(1, late_hi / 1000));
        if (due > sim_now()) sim_sleep_ns(due - sim_now());
        double truth = host0 + n * prt * (1 + drift), u = floor(u0 + n * prt * rate + 0.5);
        uint64_t r0 = resets; struct timeval tv;
        double y = RKClockGetTime(c, u, &tv) - off, w = sim_wall() - epoch;
        if (r0 != resets || r0 % 2 || lastreset != r0) { lastreset = resets; since = 0; if (settle < 2) settle = 2; }
        double resid = w - truth; if (resid > Lobs) Lobs = resid;
        CHECK(isfinite(y), "nan", "call %d: time is not finite", k);
        double L = Lobs + (hp ? 3e-5 : 5e-4 + 1e-6 * k) + 1.5 / rate;
        if (since >= (uint64_t)settle * S) {
            settle = 0; if (jumped) sim_probe("settled after a jump");
            CHECK(y - truth >= -0.75 * L && y - truth <= 1.75 * L, jumped ? "not-settled" : "error", "call %d (%lu calls after the last disturbance, averaging length %u, host at most %.6f s late): derived time is off by %.6f s", k, since, S, Lobs, y - truth);
            if (since >= (uint64_t)settle * S + 2 * S && Lobs < S * prt / 5 && rate * prt >= 1) { CHECK(y > prev, "order", "call %d: derived time went from %.6f to %.6f although the counter advanced (host at most %.6f s late)", k, prev, y, Lobs); sim_probe("ordered stamps"); }
        }
        prev = y; if (k % 64 == 0) sim_hash((uint64_t)(y * 1e6));
    }
    quit = true; if (th >= 0) sim_join(th);
    RKClockFree(c);
}
