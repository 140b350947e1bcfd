// C30: every change of a watched file is acted on
#include "rk.h"
static std::function<void(RKFileMonitor *)> on_change;
SCENARIO(filemonitor, "C30") {
    rk_quiet(); chaos(); cfg.max_vtime = 3000 * SEC; int saves = (int)P("saves", 0, 12), rounds = (int)P("rounds", 1, 2); bool burst = Pbool("bursts", 0.5), slowcb = Pbool("slowroutine", 0.3), missing = Pbool("missing", 0.15), statfail = Pbool("statfail", 0.15); int gapms = (int[]){20, 300, 1000, 4000}[P("gap", 0, 3)];
    if (statfail) cfg.p_stat_fail = 0.1;
    std::string path = "pref.conf"; int ver = 0; auto text = [&] { char b[64]; snprintf(b, sizeof b, "Version %d\n%s", ver, std::string(wl(3) ? 0 : wl(20), '#').c_str()); return std::string(b); };
    if (!missing) { vfs_save(path, text(), 0); if (wl(2)) sim_sleep_ns(wl(3000) * MS); }
    size_t mark = sim_heap_mark(); RKFileMonitor *M = nullptr; int changes = 0, res = 77, calls = 0, inside = 0, seen = -1; ns_t changed_at = 0;
    for (int round = 0; round < rounds; round++) {
        calls = changes = 0; seen = ver; bool pending = false;
        on_change = [&](RKFileMonitor *m) {
            CHECK(m->userResource == &res && !strcmp(m->filename, path.c_str()), "resource", "the routine is called with something else"); CHECK(++inside == 1, "overlap", "the routine is called while it runs");
            CHECK(calls < changes, "spurious", "the routine is called for the %dth time after %d changes of the file", calls + 1, changes); calls++; seen = ver; pending = false; sim_probe("changes acted on");
            if (slowcb) { if (wl(2)) sim_sleep_ns(wl(3000) * MS); } inside--;
        };
        cfg.p_stat_fail = 0; M = RKFileMonitorInit(path.c_str(), [](void *m) { on_change((RKFileMonitor *)m); }, &res); CHECK(M, "start", "RKFileMonitorInit() failed"); if (statfail) cfg.p_stat_fail = 0.1;
        for (int i = 0; i < saves; i++) {
            if (!burst || wl(3) == 0) sim_sleep_ns(wl((uint64_t)gapms * 2) * MS); else sim_sleep_ns((1 + wl(30)) * MS);
            sim_atomic_begin(); ver++; changes++; pending = true; changed_at = sim_now(); bool gone = wl(10) == 0; if (gone) vfs_remove(path); else vfs_save(path, text(), (int)wl(2)); sim_atomic_end(); sim_probe("saves");
            if (gone) { sim_sleep_ns(wl(2000) * MS); sim_atomic_begin(); changes++; pending = true; changed_at = sim_now(); vfs_save(path, text(), 1); sim_atomic_end(); sim_probe("files taken away for a while"); }
            if (wl(3) == 0) { double ps = cfg.p_stat_fail; cfg.p_stat_fail = 0; bool ok = sim_wait_until([&] { return !pending; }, 20 * SEC, 10 * MS); CHECK(ok, "missed", "the routine was not called within 20 s after the change of the file (%d calls)", calls); cfg.p_stat_fail = ps; }
        }
        if (wl(3)) { cfg.p_stat_fail = 0; CHECK(sim_wait_until([&] { return !pending && !inside; }, 20 * SEC, 10 * MS), "missed", "the routine was not called within 20 s after the last change of the file (%d calls)", calls); int c = calls; if (wl(2)) { sim_sleep_ns(wl(5000) * MS); CHECK(c == calls, "spurious", "the routine is called again without a change"); } if (statfail) cfg.p_stat_fail = 0.1; } else if (pending) sim_probe("stopped with a change not acted on");
        sim_deadline(100 * SEC, "stop-hangs", "RKFileMonitorFree"); int r = RKFileMonitorFree(M); sim_deadline_clear(); CHECK(r == RKResultSuccess, "stop", "RKFileMonitorFree() returned 0x%x", r); CHECK(!inside, "overlap", "the routine still runs after the monitor was freed");
        int c = calls; sim_atomic_begin(); ver++; changes++; vfs_save(path, text(), 0); sim_atomic_end(); if (wl(2)) { sim_sleep_ns(2500 * MS); CHECK(c == calls, "after-free", "the routine is called by a monitor that was freed"); }
    }
    CHECK(sim_live_code_threads() == 0, "threads-left", "threads left: %s", sim_thread_dump().c_str()); CHECK(sim_unjoined_threads() == 0, "unjoined", "threads that were never joined are left"); CHECK(sim_heap_live_since(mark) == 0, "leak", "memory is not released: %s", sim_heap_dump(mark).c_str());
}
