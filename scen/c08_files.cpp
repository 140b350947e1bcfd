// C08: disk usage is kept under its limits by deleting only the oldest managed files
#include "rk.h"
struct MF { int kind; int64_t time; uint64_t size; bool known, managed; };
static std::map<std::string, MF> files; static uint64_t used[3], limit[3]; static bool order_ok; static int log_age; static int64_t gran = 1; static std::multiset<int64_t> kt[3]; static double wall_max; static int deletions;
static const char *folder[3] = {"iq", "moment", "health"};
static std::string day(int64_t t) { char b[32]; time_t x = t; struct tm m; gmtime_r(&x, &m); strftime(b, sizeof b, "%Y%m%d", &m); return b; }
static std::string stamp(int64_t t) { char b[32]; time_t x = t; struct tm m; gmtime_r(&x, &m); strftime(b, sizeof b, "%Y%m%d-%H%M%S", &m); return b; }
static std::string cwd_;
static void put(const std::string &path, int kind, int64_t t, uint64_t size, bool known, bool managed) { vfs_put_size(path, size, (int64_t)sim_wall()); files[cwd_ + path] = {kind, t, size, known, managed}; if (managed) { used[kind] += size; if (known) kt[kind].insert(t); } }
static void mark(MF &f) { if (!f.known) { f.known = true; kt[f.kind].insert(f.time); } }
static void on_op(const VfsOp &o) {
    if (o.op == 'r') { CHECK(o.path.find("/data/") != std::string::npos && o.path != cwd_ + "data/iq" && o.path != cwd_ + "data/moment" && o.path != cwd_ + "data/health" && o.path != cwd_ + "data/log" && o.path.find("/other") == std::string::npos, "foreign-folder", "removes the folder %s", o.path.c_str()); sim_probe("folders removed"); return; }
    if (o.op != 'u') return;
    wall_max = std::max(wall_max, sim_wall());
    auto it = files.find(o.path); CHECK(it != files.end(), "foreign", "deletes %s which is none of the managed files", o.path.c_str());
    MF f = it->second;
    if (f.kind == 3) { CHECK(f.time < wall_max - log_age * 86400.0 + 1, "young-log", "deletes the log %s of an age of %.1f days, the limit is %d days", o.path.c_str(), (wall_max - f.time) / 86400, log_age); files.erase(it); sim_probe("old logs deleted"); return; }
    CHECK(f.managed, "foreign", "deletes %s which is no managed file", o.path.c_str());
    CHECK(used[f.kind] > limit[f.kind], "too-many", "deletes %s although %s uses only %lu of %lu bytes", o.path.c_str(), folder[f.kind], (unsigned long)used[f.kind], (unsigned long)limit[f.kind]);
    if (order_ok && !kt[f.kind].empty() && *kt[f.kind].begin() / gran < f.time / gran) for (auto &q : files) if (q.second.kind == f.kind && q.second.managed && q.second.known && q.second.time / gran < f.time / gran) sim_fail("order", "deletes %s while the older %s is still there", o.path.c_str(), q.first.c_str());
    if (f.known) kt[f.kind].erase(kt[f.kind].find(f.time));
    used[f.kind] -= f.size; files.erase(it); deletions++; sim_probe("files deleted"); sim_hash(bytes_hash(o.path.data(), o.path.size()));
}
static int files_run(bool big) {
    rk_quiet(); chaos(); cfg.max_vtime = 20000 * SEC;
    static const char *prefixes[] = {"SIM", "PX-1000", "RK-20210101-X", "A-B-C"}; std::string prefix = prefixes[P("prefix", 0, 3)];
    cwd_ = "/"; vfs_put("probe", "", 0); for (auto &p : vfs_list("/")) if (p.size() > 5 && p.compare(p.size() - 5, 5, "probe") == 0) cwd_ = p.substr(0, p.size() - 5); vfs_remove("probe");
    cfg.dt_unknown = Pbool("dtunknown", 0.3); cfg.readdir_shuffle = !Pbool("noshuffle", 0.2);
    int fault = big ? 0 : (int)P("diskfault", 0, 7); bool f_stat = fault == 5, f_unlink = fault == 6, f_dir = fault == 7;
    uint64_t unit = (uint64_t[]){1, 1000, 1000000000ULL}[P("unit", 0, 2)];
    int pre = (int)P("pre", 0, 3), days = (int)P("days", 1, big ? 3 : 5), adds = (int)P("adds", 0, 50), many = big ? 0 : (int)P("manydays", 0, 12);
    bool jumps = Pbool("wallsteps", 0.3), restart = Pbool("restart", 0.4), viadesc = Pbool("desc", 0.5), userlim = Pbool("userlimits", 0.5), partial = Pbool("somelimits", 0.3);
    double avg = 500; int64_t T0 = (int64_t)sim_wall() - (days + 1) * 86400LL, T[3] = {T0, T0, T0};
    // what is already there
    int perday = pre * 6, ndays = many == 12 ? (int)(60 + wl(30)) : days; if (many == 12) { T[0] = T[1] = T[2] = T0 - 100 * 86400LL; }
    int64_t serial = 0; uint64_t nf[3] = {0, 0, 0};
    auto name = [&](int k, int64_t t) { std::string s = std::string("data/") + folder[k] + "/" + day(t) + "/" + prefix + "-" + stamp(t); if (k == 0) s += "-E2.0.rkr"; if (k == 1) { static const char *v[] = {"Z", "V", "W", "D"}; s += std::string("-E2.0-") + v[serial++ % 4] + ".nc"; } if (k == 2) s += ".json"; return s; };
    auto rsize = [&] { return unit * (1 + wl(1000)); };
    if (big) { int k = 2, n = 72000 - 3 + (int)wl(6); for (int i = 0; i < n; i++) { T[k] += 7; put(name(k, T[k]), k, T[k], rsize(), true, true); nf[k]++; } perday = 0; }
    if (perday) for (int d = 0; d < ndays; d++) for (int k = 0; k < 3; k++) { T[k] = T[k] / 86400 * 86400 + 86400; int n = many == 12 ? 1 + (int)wl(2) : (int)wl(perday); for (int i = 0; i < n; i++) { if (k != 1 || i % 4 == 0) T[k] += 1 + wl(600); std::string p = name(k, T[k]); if (!files.count(cwd_ + p)) { put(p, k, T[k], rsize(), true, true); nf[k]++; } } }
    log_age = (int)P("logage", 1, 30); int logs = (int)P("logs", 0, 10);
    for (int i = 0; i < logs; i++) { char b[64]; snprintf(b, sizeof b, "data/log/sim-%03d.log", i); int64_t t = (int64_t)sim_wall() - (int64_t)wl(60 * 86400); vfs_put(b, "log", t); files[cwd_ + b] = {3, t, 3, true, false}; }
    if (Pbool("strangers", 0.5)) { const char *o[] = {"data/iq/readme.txt", "data/other/20200101/x-20200101-000000.rkr", "data/moment/.tmp/x.nc", "data/x.json", "elsewhere/y", "data/log/old/sim.log"}; for (auto p : o) put(p, 0, 0, 100, false, false); if (perday) { auto v = vfs_dirs("data/iq"); if (!v.empty()) { std::string p = v[0].substr(cwd_.size()) + "/.hidden"; put(p, 0, 0, 100, false, false); } } }
    // limits
    RKFileManager *fm = RKFileManagerInit(); RKRadarDesc *desc = nullptr;
    if (viadesc) { desc = new_desc(64, 4); RKFileManagerSetEssentials(fm, desc); } else RKFileManagerSetPathToMonitor(fm, "data");
    uint64_t total = 0, dfl = (uint64_t)1024 * 1024 * 1024 * 1024 * 12 / 10, ratio[3] = {8, 5, 1}, u[3];
    if (!userlim || Pbool("total", 0.5)) { total = (uint64_t)(unit * avg * (10 + wl(200))); RKFileManagerSetDiskUsageLimit(fm, total); }
    for (int k = 0; k < 3; k++) u[k] = userlim && !(partial && wl(2)) ? (uint64_t)(unit * avg * (1 + wl(50))) : 0;
    if (big) gran = 86400;   // with more files than the table holds the oldest day goes first
    if (big) u[2] = (uint64_t)(unit * avg * (wl(2) ? 71990 : 20 + wl(100)));
    RKFileManagerSetRawDataLimit(fm, u[0]); RKFileManagerSetMomentDataLimit(fm, u[1]); RKFileManagerSetHealthDataLimit(fm, u[2]);
    for (int k = 0; k < 3; k++) limit[k] = u[k] ? u[k] : (total ? total : dfl) * ratio[k] / 14;
    RKFileManagerSetMaximumLogAgeInDays(fm, log_age);
    order_ok = !f_unlink && !f_dir && !(f_stat && cfg.dt_unknown); wall_max = sim_wall(); vfs_hook = on_op;
    if (f_stat) cfg.p_stat_fail = 0.1; if (f_unlink) cfg.p_unlink_fail = 0.2; if (f_dir) cfg.p_dir_fail = 0.2;
    sim_deadline(600 * SEC, "start-hangs", "RKFileManagerStart"); CHECK(RKFileManagerStart(fm) == RKResultSuccess, "start", "start failed"); sim_deadline_clear();
    // the recorders
    int live = 3; bool quit = false; ns_t began[3] = {0, 0, 0}; int th[3]; bool stopped = false;
    int monitor = sim_spawn("monitor", [&] { while (live > 0) { sim_sleep_ns(1 * SEC); for (int k = 0; k < 3; k++) CHECK(!began[k] || sim_now() - began[k] < 300 * SEC, "addfile-blocked", "RKFileManagerAddFile() of a %s file has not returned for 300 s", folder[k]); } });
    int burst = (int)P("burst", 0, 3);
    for (int k = 0; k < 3; k++) th[k] = sim_spawn(folder[k], [&, k] {
        int n = many == 12 ? adds : (int)wl(adds + 1);
        for (int i = 0; i < n; i++) {
            if (wl(4) >= (uint64_t)burst) sim_sleep_ns((ns_t)(wlf() * (k == 2 ? 2 : 1) * SEC));
            if (k != 1 || wl(3) == 0) T[k] += many == 12 ? 86400 : 1 + wl(i % 7 == 0 ? 40000 : 600);
            std::string p = name(k, T[k]); if (files.count(cwd_ + p) || vfs_exists(p)) continue;
            put(p, k, T[k], rsize(), false, true); sim_note("file %s", p.c_str());
            if (wl(8) == 0) sim_sleep_ns(wl(400) * MS);
            std::string a = viadesc || !wl(1) ? p : p; bool was_stopped = stopped; began[k] = sim_now();
            int r = RKFileManagerAddFile(fm, a.c_str(), (RKFileType)k); began[k] = 0;
            auto it = files.find(cwd_ + p); if (it != files.end() && r == RKResultSuccess) mark(it->second);
            if (was_stopped && stopped) CHECK(r == RKResultEngineNotActive, "add-stopped", "RKFileManagerAddFile() returned 0x%x with the manager stopped", r);
            else if (!f_stat && !restart && !big) CHECK(r == RKResultSuccess || stopped || quit, "add-refused", "RKFileManagerAddFile(%s) returned 0x%x", p.c_str(), r);
            nf[k]++;
        }
        live--;
    });
    if (jumps) sim_spawn("host clock", [&] { for (int i = 0; i < 3 && live > 0; i++) { sim_sleep_ns(wl(30) * SEC); wall_max = std::max(wall_max, sim_wall()); double j = (double[]){0.5, 30, 3600, 86400 * 3}[wl(4)]; if (wl(2)) j = -j; sim_wall_jump((int64_t)(j * 1e9)); wall_max = std::max(wall_max, sim_wall()); sim_fault_note(j > 0 ? "host clock jumps ahead" : "host clock jumps back"); } });
    if (restart) {
        sim_sleep_ns(wl(15000) * MS); quit = true;
        sim_deadline(300 * SEC, "stop-hangs", "RKFileManagerStop"); int r = RKFileManagerStop(fm); sim_deadline_clear();
        CHECK(r == RKResultSuccess, "stop", "RKFileManagerStop() returned 0x%x", r); stopped = true; sim_probe("stopped while files are added");
        int d0 = deletions; sim_sleep_ns(wl(3000) * MS); CHECK(deletions == d0, "after-stop", "files are deleted after the stop");
        stopped = false; for (auto &f : files) if (f.second.managed) mark(f.second);
        sim_deadline(600 * SEC, "start-hangs", "RKFileManagerStart"); CHECK(RKFileManagerStart(fm) == RKResultSuccess, "start", "second start failed"); sim_deadline_clear();
    }
    for (int k = 0; k < 3; k++) sim_join(th[k]); sim_join(monitor);
    sim_calm();
    if (!f_stat && !f_unlink && !f_dir) {
        for (int k = 0; k < 3; k++) CHECK(sim_wait_until([&] { return used[k] <= limit[k]; }, 10 * SEC, 50 * MS), "over-limit", "10 s after the last file %s uses %lu bytes in spite of the limit of %lu", folder[k], (unsigned long)used[k], (unsigned long)limit[k]);
        if (deletions) sim_probe("usage brought under the limit");
        if (!jumps) { sim_sleep_ns(61 * SEC); for (auto &f : files) if (f.second.kind == 3) CHECK(f.second.time >= sim_wall() - log_age * 86400.0 - 62, "old-log", "the log %s is %.2f days old, the limit is %d days", f.first.c_str(), (sim_wall() - f.second.time) / 86400, log_age); }
    }
    for (auto &f : files) CHECK(vfs_exists(f.first), "vanished", "%s is gone although it was never deleted", f.first.c_str());
    sim_deadline(60 * SEC, "stop-hangs", "RKFileManagerStop"); CHECK(RKFileManagerStop(fm) == RKResultSuccess, "stop", "the last stop failed"); sim_deadline_clear();
    CHECK(sim_live_code_threads() == 0, "threads-left", "threads left after the stop: %s", sim_thread_dump().c_str());
    CHECK(sim_open_fds() == 0, "fds-left", "descriptors left open: %s", sim_fd_dump().c_str());
    RKFileManagerFree(fm); vfs_hook = nullptr; return 0;
}
SCENARIO(files, "C08") { files_run(false); }
SCENARIO(files_full, "C08") { files_run(true); }
