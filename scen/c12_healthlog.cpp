// C12: the health log holds every consolidated record once, in the file of its minute
#include "rk.h"
SCENARIO(healthlog, "C12") {
    rk_quiet(); chaos(); cfg.max_vtime = 20000 * SEC;
    static const char *prefixes[] = {"SIM", "PX-1000"};
    bool burst = Pbool("burst", 0.4);
    RKRadarDesc *desc = new_desc(64, 4); desc->healthBufferDepth = (uint32_t)P("depth", 4, 30); strcpy(desc->filePrefix, prefixes[P("prefix", 0, 1)]);
    if (Pbool("nodatapath", 0.1)) desc->dataPath[0] = 0;
    std::string root = desc->dataPath[0] ? "data/health" : "health";
    int disk = (int)P("disk", 0, 6), n = (int)P("records", 1, 60); bool toggles = Pbool("toggles", 0.6), jumps = Pbool("clocksteps", 0.4), realfm = Pbool("filemanager", 0.7), restart = Pbool("restart", 0.3), lograce = Pbool("togglethread", 0.3), late = Pbool("late", 0.5);
    double pace = (double[]){0.05, 0.7, 6, 40, 400, 3600}[P("pace", 0, 5)];
    if (disk == 1) cfg.p_disk_slow = 0.2; bool errors = disk >= 4;
    if (disk == 4) cfg.p_open_fail = 0.3; if (disk == 5) { cfg.p_write_short = 0.3; cfg.p_write_fail = 0.2; } if (disk == 6) cfg.disk_capacity = 200 + wl(3000);
    RKHealth *buf = (RKHealth *)calloc(desc->healthBufferDepth, sizeof(RKHealth)); uint32_t index = 0;
    RKFileManager *fm = nullptr;
    if (realfm) { fm = RKFileManagerInit(); RKFileManagerSetEssentials(fm, desc); CHECK(RKFileManagerStart(fm) == RKResultSuccess, "start", "file manager"); }
    RKHealthLogger *L = RKHealthLoggerInit(); RKHealthLoggerSetEssentials(L, desc, fm, buf, &index);
    bool rec = !Pbool("startoff", 0.2); RKHealthLoggerSetRecord(L, rec);
    CHECK(RKHealthLoggerStart(L) == RKResultSuccess, "start", "start failed");
    struct R { int64_t t; std::string s; bool rec; bool sure; }; std::vector<R> recs;
    int64_t logt = (int64_t)sim_wall(); double acc = 0; uint32_t k = 0; uint64_t base_tic = L->tic; bool clean = true; int serial = 0;
    bool quit = false; int th = lograce ? sim_spawn("operator", [&] { while (!quit) { sim_sleep_ns(wl(3000) * MS); RKHealthLoggerSetRecord(L, wl(2)); } }) : -1;
    auto check_disk = [&](bool final) {
        // every line in every file, in order
        std::map<std::string, std::vector<std::string>> got; std::set<std::string> lines;
        for (auto &f : vfs_list(root)) {
            std::string d = vfs_get(f), b = f.substr(f.rfind('/') + 1), day = f.substr(f.rfind('/') - 8, 8); size_t i = 0; int64_t minute = -1; long prev = -1; int cnt = 0;
            while (i < d.size()) {
                size_t j = d.find('\n', i); if (j == std::string::npos) { CHECK(errors, "torn", "%s ends with a torn record", f.c_str()); break; }
                std::string s = d.substr(i, j - i); i = j + 1; const char *p = strstr(s.c_str(), "\"Serial\":"); long ser = p ? atol(p + 9) : -1;
                if (errors && (ser < 0 || ser >= (long)recs.size() || recs[ser].s != s)) continue;
                CHECK(ser >= 0 && ser < (long)recs.size() && recs[ser].s == s, "corrupt", "%s holds a record that was never made: %.200s", f.c_str(), s.c_str());
                const R &r = recs[ser];
                CHECK(r.rec, "not-recording", "%s holds record %ld that was made with recording off", f.c_str(), ser);
                CHECK(minute < 0 || r.t / 60 == minute, "minute", "%s holds records of different minutes (%ld and %ld)", f.c_str(), (long)minute, (long)(r.t / 60)); minute = r.t / 60;
                CHECK(ser > prev, "order", "%s: record %ld after %ld", f.c_str(), ser, prev); prev = ser;
                CHECK(lines.insert(s).second, "twice", "record %ld is in the log twice", ser);
                if (!cnt++ && !errors) { char b2[64]; struct tm m; time_t x = r.t; gmtime_r(&x, &m); strftime(b2, sizeof b2, "%Y%m%d-%H%M%S.json", &m); CHECK(b == std::string(desc->filePrefix) + "-" + b2 && day == std::string(b2, 8), "name", "%s begins with a record of %s", f.c_str(), b2); }
            }
        }
        if (!errors) for (size_t i = 0; i < recs.size(); i++) if (recs[i].rec && recs[i].sure) CHECK(lines.count(recs[i].s), "missing", "record %zu of minute %ld is in no file", i, (long)(recs[i].t / 60));
        sim_probe("records found on disk", lines.size());
    };
    for (int round = 0; round < 1 + restart; round++) {
        for (int i = 0; i < n; i++) {
            // the consolidator never gets further ahead than the buffer
            CHECK(sim_wait_until([&] { return serial - (int)recs.size() == 0 && (recs.size() == 0 || L->tic - base_tic + desc->healthBufferDepth > (uint64_t)i + 2); }, 600 * SEC, 20 * MS), "stuck", "the logger handled %lu of %d records in 600 s", (unsigned long)(L->tic - base_tic), i);
            if (toggles && wl(8) == 0) {   // switch only between handled records so that the outcome is known
                CHECK(sim_wait_until([&] { return L->tic - base_tic >= (uint64_t)i; }, 600 * SEC, 20 * MS), "stuck", "the logger handled %lu of %d records in 600 s", (unsigned long)(L->tic - base_tic), i);
                rec = !rec; RKHealthLoggerSetRecord(L, rec); sim_probe("record switched");
            }
            if (jumps && wl(12) == 0) { int64_t j = (int64_t[]){3600, 60, 61, 86400, 5, 7}[wl(6)] * (wl(3) ? 1 : -1); logt += j; sim_fault_note("log time steps"); }
            acc += pace * (wl(3) ? wlf() : 3 * wlf()); logt += (int64_t)acc; acc -= floor(acc);
            if (errors && i == n * 2 / 3 && round == restart) { CHECK(sim_wait_until([&] { return L->tic - base_tic >= (uint64_t)i; }, 600 * SEC, 20 * MS), "stuck", "the logger handled %lu of %d records in 600 s", (unsigned long)(L->tic - base_tic), i); cfg.p_open_fail = cfg.p_write_fail = cfg.p_write_short = 0; cfg.disk_capacity = -1; clean = false; }
            std::string pad(wl(4) ? wl(200) : wl(3000), 'x'); char b[8192];
            snprintf(b, sizeof b, "{\"Serial\":%d, \"Transmitter\":{\"Value\":true,\"Enum\":0}, \"Note\":\"%s\", \"Log Time\":%ld}", serial, pad.c_str(), (long)logt);
            recs.push_back({logt, b, rec || lograce, !lograce}); serial++;
            if (!burst || wl(20) == 0) sim_sleep_ns(wl(300) * MS);
            RKHealth *h = &buf[k]; k = RKNextModuloS(k, desc->healthBufferDepth); buf[k].string[0] = 0; buf[k].flag = RKHealthFlagVacant;
            if (late && wl(3) == 0) { index = k; sim_sleep_ns(wl(6) ? wl(500) * MS : wl(6000) * MS); sim_fault_note("record completed late"); strcpy(h->string, b); h->flag = RKHealthFlagReady; } else { strcpy(h->string, b); h->flag = RKHealthFlagReady; index = k; }
        }
        if (wl(3)) CHECK(sim_wait_until([&] { return L->tic - base_tic >= (uint64_t)n; }, 600 * SEC, 20 * MS), "stuck", "the logger handled %lu of %d records in 600 s", (unsigned long)(L->tic - base_tic), n);
        else sim_sleep_ns(wl(300) * MS);
        sim_deadline(300 * SEC, "stop-hangs", "RKHealthLoggerStop"); int r = RKHealthLoggerStop(L); sim_deadline_clear();
        CHECK(r == RKResultSuccess, "stop", "RKHealthLoggerStop() returned 0x%x", r);
        uint64_t done = L->tic - base_tic; for (size_t i = recs.size() - (n - std::min<uint64_t>(done, n)); i < recs.size(); i++) recs[i].sure = false;   // not handled
        CHECK(L->fid == NULL && sim_open_streams() == 0, "leak", "%d files are open after the stop", sim_open_streams());
        check_disk(round == restart);
        if (round < restart) { k = index = 0; memset(buf, 0, desc->healthBufferDepth * sizeof(RKHealth)); sim_deadline(300 * SEC, "start-hangs", "RKHealthLoggerStart"); CHECK(RKHealthLoggerStart(L) == RKResultSuccess, "start", "second start failed"); sim_deadline_clear(); base_tic = L->tic; sim_probe("restarts"); }
    }
    quit = true; if (th >= 0) sim_join(th);
    if (errors && !clean && !lograce) {   // the files begun after the disk recovered are complete
        size_t from = recs.size() - n + (size_t)(n * 2 / 3); std::set<std::string> lines; for (auto &f : vfs_list(root)) { std::string d = vfs_get(f); size_t i = 0, j; while ((j = d.find('\n', i)) != std::string::npos) { lines.insert(d.substr(i, j - i)); i = j + 1; } }
        int64_t m0 = from ? recs[from - 1].t / 60 : -1; bool fresh = from == 0; std::set<int64_t> seen; for (size_t i = 0; i < from; i++) seen.insert(recs[i].t / 60);
        for (size_t i = from; i < recs.size(); i++) { if (recs[i].t / 60 != m0) fresh = true; if (fresh && !seen.count(recs[i].t / 60) && recs[i].rec && recs[i].sure) { CHECK(lines.count(recs[i].s), "no-recovery", "record %zu, in a file begun after the disk recovered, is missing", i); sim_probe("records after a disk error"); } }
    }
    if (fm) {
        if (!errors && !jumps) {
            RKFileRemover *w = &fm->workers[2]; uint64_t sum = 0; auto v = vfs_list(root); for (auto &f : v) sum += vfs_size(f);
            CHECK(w->count == (int)v.size() && w->usage == sum, "not-reported", "there are %zu finished files with %lu bytes, the archive knows %d with %lu bytes", v.size(), (unsigned long)sum, w->count, (unsigned long)w->usage); sim_probe("files handed to the archive", v.size());
        }
        RKFileManagerStop(fm); RKFileManagerFree(fm);
    }
    CHECK(sim_open_fds() == 0, "leak", "descriptors left open: %s", sim_fd_dump().c_str());
    CHECK(sim_live_code_threads() == 0, "threads-left", "threads left: %s", sim_thread_dump().c_str());
    RKHealthLoggerFree(L);
}
