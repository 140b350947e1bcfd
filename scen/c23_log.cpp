// C23: every log line is written whole, once, in order, to the log of its day, whatever the threads, the clock, the folder and the disk do
#include "rk.h"
namespace {
struct Line { int tid, seq; std::string text; bool cont; int64_t w0, w1; int f0, f1; bool s0, s1, done = false; bool seen = false, insys = false; };
std::string day(int64_t w) { time_t t = (time_t)(w / SEC); struct tm tm; gmtime_r(&t, &tm); char b[32]; strftime(b, sizeof b, "%Y%m%d", &tm); return b; }
std::string plain(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == 27) { while (i < s.size() && s[i] != 'm') i++; } else r += s[i]; return r; }
}
SCENARIO(logging, "C23") {
    rk_quiet(); chaos(); cfg.max_vtime = 1000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 50 * MS);
    int nth = (int)P("threads", 2, 6), per = (int)P("lines", 5, 40), mode = (int)P("disk", 0, 5); bool color = Pbool("color", 0.3), daily = Pbool("daily", 0.8), timeonly = daily || Pbool("timeonly", 0.5), clock = Pbool("clock", 0.4), folder = Pbool("folder", 0.5), toggle = Pbool("toggle", 0.4), longs = Pbool("long", 0.5), deep = Pbool("deep", 0.1), toplevel = !folder && Pbool("nofolder", 0.1);
    if (mode == 1) cfg.p_write_short = 0.4; else if (mode == 2) { cfg.p_disk_slow = 0.2; cfg.disk_slow_hi = 300 * MS; } else if (mode == 3) cfg.p_open_fail = 0.2; else if (mode == 4) { cfg.p_write_fail = 0.2; cfg.p_open_fail = 0.1; } else if (mode == 5) { cfg.p_dir_fail = 0.3; cfg.p_stat_fail = 0.1; }
    bool lossy = mode >= 3, torn = mode == 4;
    // a moment before midnight
    sim_wall_set(1700006400 + 86400 * (int64_t)wl(400)); sim_wall_jump(-(int64_t)(wlf() * 3 * SEC)); RKSetProgramName("prog"); std::deque<std::string> folders; std::string root0 = deep ? std::string("/home/radar/") + std::string(90 + wl(30), 'd') : "/home/radar/A"; if (toplevel) root0 = ""; folders.push_back(root0); RKSetRootDataFolder((root0 + (wl(2) && !toplevel ? "//" : "")).c_str()); rkGlobalParameters.logFolder[0] = 0;
    RKSetUseDailyLog(daily); rkGlobalParameters.logTimeOnly = timeonly; RKSetLogfile("/home/radar/one.log"); RKSetWantColor(color); FILE *out = NULL; for (int k = 0; k < 50 && !out; k++) out = RKFileOpen("/home/radar/out.txt", "w"); bool on = out != NULL; rkGlobalParameters.stream = out;
    std::deque<Line> lines; int done = 0, settled = 0; std::vector<std::deque<int>> prev(nth);
    auto log1 = [&](int t, int q, bool cont, const std::string &body, int how) {
        sim_atomic_begin(); size_t ix = lines.size(); Line l; l.tid = t; l.seq = q; l.cont = cont; l.text = body; l.w0 = l.w1 = sim_wall_ns(); l.f0 = settled; l.s0 = on; l.s1 = true; lines.push_back(l); sim_atomic_end();
        std::string f = cont ? ">" : ""; const char *nl = how & 1 ? "\n" : "";
        if (how >= 6) { f += body + nl; RKLog(f.c_str()); } else if (how >= 4) { f += body.substr(0, 12) + "%s" + nl; RKLog(f.c_str(), body.substr(12).c_str()); } else if (how >= 2) { f += body.substr(0, 12) + "%.*s%c%s" + nl; RKLog(f.c_str(), (int)body.size() - 14, body.c_str() + 12, body[body.size() - 2], body.c_str() + body.size() - 1); } else { f += "%s"; f += nl; RKLog(f.c_str(), body.c_str()); }
        sim_atomic_begin(); Line &m = lines[ix]; m.w0 = std::min(m.w0, sim_wall_ns()); m.w1 = std::max(m.w1, sim_wall_ns()); m.done = true; m.f1 = (int)folders.size() - 1; m.s1 = on; sim_atomic_end(); };
    std::vector<int> th; for (int t = 0; t < nth; t++) th.push_back(sim_spawn("logger", [&, t] { for (int q = 0; q < per; q++) { static const char *kw[] = {"", "", "", "Error. ", "Warning. ", "Info. ", "ok ", "okay Error "}; char b[64]; snprintf(b, sizeof b, "<%02d:%03d> ", t, q); std::string s = b; if (wl(2)) s += kw[wl(8)]; size_t n = longs && wl(6) == 0 ? (size_t)(wl(3) ? 3700 + wl(500) : 4000 + wl(16000)) : 2 + wl(120); if (wl(3) == 0 && n < 4000) s += "word "; while (s.size() < n + 12) s += "abcdefghijklmnopqrstuvwxyz. "[(s.size() * 7 + t + q) % 27]; if (wl(4) == 0) s += kw[wl(8)]; while (s.back() == ' ') s.pop_back(); s += "!"; log1(t, q, wl(4) == 0, s, (int)wl(8)); if (wl(3) == 0) sim_sleep_ns((ns_t)wl(wl(10) ? 20 : 900) * MS); }
        done++; }));
    int other = sim_spawn("chaos", [&] { int k = 0; while (done < nth) { sim_sleep_ns((ns_t)(1 + wl(400)) * MS);
        if (clock && wl(4) == 0) { sim_fault_note("clock jump"); int64_t d = (int64_t)((wlf() - 0.4) * (wl(2) ? 3 : 100000) * (double)SEC); sim_atomic_begin(); int64_t w = sim_wall_ns(); for (Line &l : lines) if (!l.done) { l.w0 = std::min(l.w0, std::min(w, w + d)); l.w1 = std::max(l.w1, std::max(w, w + d)); } sim_wall_jump(d); sim_atomic_end(); }
        if (folder && wl(3) == 0) { char b[256]; snprintf(b, sizeof b, "/home/radar/%c%.*s%d", 'B' + (int)wl(8), (int)wl(60), "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", k++); sim_atomic_begin(); folders.push_back(b); sim_atomic_end(); RKSetRootDataFolder((std::string(b) + (wl(2) ? "/" : "")).c_str()); settled = (int)folders.size() - 1; sim_probe("folder changes"); }
        if (toggle && out && wl(2)) { if (on) { rkGlobalParameters.stream = NULL; on = false; for (Line &l : lines) if (l.s1 && !l.seen) l.insys = true; } else { for (Line &l : lines) l.insys |= !l.s0 && l.s1; on = true; rkGlobalParameters.stream = out; } }
        if (wl(5) == 0) { time_t z = (time_t)(86400LL * (1 + (long long)wl(20000))); struct tm *g = gmtime(&z); (void)g; } } });
    sim_deadline(600 * SEC, "blocked", "writing the log"); for (int t : th) sim_join(t); sim_join(other); sim_deadline_clear();
    // faults over: later lines are not held up and come out
    sim_calm(); cfg.p_write_short = cfg.p_open_fail = cfg.p_write_fail = cfg.p_dir_fail = cfg.p_stat_fail = cfg.p_disk_slow = 0; sim_deadline(60 * SEC, "blocked", "writing the log after the faults"); size_t after = lines.size(); for (int k = 0; k < 3; k++) log1(90, k, false, "<90:00" + std::to_string(k) + "> the end of the test!", 0); sim_deadline_clear();
    if (out) RKFileClose(out);
    auto text = [&](const std::string &path) { return plain(vfs_get(path.c_str())); };
    // a file is made of whole lines, each of those logged, once, in order
    auto judge = [&](const std::string &path, bool stream) {
        std::string d = text(path), what = stream ? "the output" : path; std::vector<int> last(100, -1); size_t p = 0;
        while (p < d.size()) { size_t e = d.find('\n', p); bool cut = e == std::string::npos; if (cut) e = d.size(); std::string s = d.substr(p, e - p); p = e + 1; size_t b = s.find('<'); if (torn) { size_t z = s.rfind('<'); b = z; }   // a line may follow a torn one
            if (b == std::string::npos || s.size() < b + 8) { CHECK(torn, "torn", "%s has the line '%.80s', which nobody logged", what.c_str(), s.c_str()); continue; }
            int t = -1, q = -1; sscanf(s.c_str() + b, "<%d:%d>", &t, &q); Line *l = NULL; for (Line &x : lines) if (x.tid == t && x.seq == q) l = &x; if (!l) { CHECK(torn, "torn", "%s has the line '%.80s', which nobody logged", what.c_str(), s.c_str()); continue; }
            std::string body = s.substr(b); bool whole = body == l->text || (body.size() >= 3500 && body.size() < l->text.size() && !l->text.compare(0, body.size(), body)); if (torn && !whole) continue; CHECK(whole, "torn", "%s has line %d of thread %d as '%.40s...%.40s' (%zu), logged was '%.40s...' (%zu)", what.c_str(), q, t, body.c_str(), body.c_str() + std::max<int>(0, (int)body.size() - 40), body.size(), l->text.c_str(), l->text.size()); if (!torn) CHECK(!cut, "torn", "the last line of %s has no end", what.c_str());
            bool &seen = stream ? l->insys : l->seen; (void)seen; CHECK(q > last[t] , "order", "%s has line %d of thread %d after line %d", what.c_str(), q, t, last[t]); last[t] = q;
            if (!stream) { CHECK(!l->seen, "twice", "line %d of thread %d is in the log twice", q, t); l->seen = true; bool okday = false, okf = false; for (int64_t w = std::min(l->w0, l->w1);; w += 3600 * (int64_t)SEC) { if (path.find(day(std::min(w, std::max(l->w0, l->w1)))) != std::string::npos) okday = true; if (w >= std::max(l->w0, l->w1)) break; } for (int f = l->f0; f <= l->f1; f++) if (path.compare(0, folders[f].size() + 5, folders[f] + "/log/") == 0) okf = true;
                if (daily) { CHECK(okday, "day", "line %d of thread %d, logged on %s, is in %s", q, t, day(l->w0).c_str(), path.c_str()); if (!toplevel) CHECK(okf, "folder", "line %d of thread %d is in %s, the folder was %s", q, t, path.c_str(), folders[l->f0].c_str()); if (path.find("prog-") != std::string::npos) sim_probe("lines in a daily log"); } }
            if (!torn) { std::string pre = s.substr(0, b); int h, m, sec, ms, y, mo, dd; if (l->cont) CHECK(pre.find_first_not_of(' ') == std::string::npos && pre.size() >= 10, "prefix", "line %d of thread %d starts with '%s'", q, t, pre.c_str()); else if (timeonly) { CHECK(sscanf(pre.c_str(), "%2d:%2d:%2d.%3d ", &h, &m, &sec, &ms) == 4, "prefix", "line %d of thread %d starts with '%s'", q, t, pre.c_str()); if (!clock) { ns_t w = ((ns_t)h * 3600 + m * 60 + sec) * 1000 + ms, a = l->w0 / MS % 86400000, z = l->w1 / MS % 86400000; CHECK(a <= z ? w >= a && w <= z : w >= a || w <= z, "prefix", "line %d of thread %d has time '%s'", q, t, pre.c_str()); } } else CHECK(sscanf(pre.c_str(), "%4d/%2d/%2d %2d:%2d:%2d ", &y, &mo, &dd, &h, &m, &sec) == 6, "prefix", "line %d of thread %d starts with '%s'", q, t, pre.c_str()); }
        }
        return last; };
    for (auto &f : vfs_list("/home/radar")) { if (f == "/home/radar/out.txt") continue; judge(f, false); }
    for (size_t i = 0; i < lines.size(); i++) if (!lossy || i >= after) CHECK(lines[i].seen, "lost", "line %d of thread %d is not in the log", lines[i].seq, lines[i].tid);
    if (out) { judge("/home/radar/out.txt", true); if (!torn && !toggle) { std::string d = text("/home/radar/out.txt"); for (Line &l : lines) { char b[32]; snprintf(b, sizeof b, "<%02d:%03d>", l.tid, l.seq); CHECK(d.find(b) != std::string::npos, "lost", "line %d of thread %d is not in the output", l.seq, l.tid); } sim_probe("complete outputs"); } }
    sim_probe("lines logged", (long)lines.size());
    rk_quiet();
}
