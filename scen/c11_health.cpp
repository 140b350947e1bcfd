// C11: every consolidated health record is whole, in order, and made of the latest report of every live node
#include "rk.h"
typedef std::vector<std::pair<std::string, std::string>> KV;
static bool json_pairs(const std::string &s, KV &out, std::string &why) {   // one object, top level pairs with the text of each value
    size_t i = 0, n = s.size(); auto ws = [&] { while (i < n && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r')) i++; };
    auto str = [&](std::string *o) { if (i >= n || s[i] != '"') return false; size_t a = i++; while (i < n && s[i] != '"') i++; if (i >= n) return false; i++; if (o) *o = s.substr(a + 1, i - a - 2); return true; };
    std::function<bool()> val = [&]() -> bool {
        ws(); if (i >= n) return false;
        if (s[i] == '"') return str(nullptr);
        if (s[i] == '{' || s[i] == '[') { bool o = s[i] == '{'; char e = o ? '}' : ']'; i++; ws(); if (i < n && s[i] == e) { i++; return true; } for (;;) { ws(); if (o) { if (!str(nullptr)) return false; ws(); if (i >= n || s[i++] != ':') return false; } if (!val()) return false; ws(); if (i >= n) return false; if (s[i] == ',') { i++; continue; } if (s[i] == e) { i++; return true; } return false; } }
        size_t a = i; while (i < n && (isalnum((unsigned char)s[i]) || s[i] == '-' || s[i] == '+' || s[i] == '.')) i++; if (i == a) return false;
        std::string t = s.substr(a, i - a); if (t == "true" || t == "false" || t == "null") return true; char *e; strtod(t.c_str(), &e); return *e == 0;
    };
    ws(); if (i >= n || s[i++] != '{') { why = "no opening brace"; return false; }
    for (;;) { ws(); std::string k; if (!str(&k)) { why = "no key at character " + std::to_string(i); return false; } ws(); if (i >= n || s[i++] != ':') { why = "no colon at character " + std::to_string(i); return false; } ws(); size_t a = i; if (!val()) { why = "bad value at character " + std::to_string(i); return false; } out.push_back({k, s.substr(a, i - a)}); ws(); if (i < n && s[i] == ',') { i++; continue; } if (i < n && s[i] == '}') { i++; break; } why = "no comma at character " + std::to_string(i); return false; }
    ws(); if (i != n) { why = "text after the closing brace"; return false; } return true;
}
static std::string swap_all(std::string s, const char *a, const char *b) { size_t i = 0, n = strlen(a); while (i + n <= s.size()) if (!strncasecmp(s.c_str() + i, a, n)) { s.replace(i, n, b); i += strlen(b); } else i++; return s; }
static std::string enums(const std::string &s, int v) { std::string o; size_t i = 0; for (;;) { size_t j = s.find("\"Enum\"", i); if (j == std::string::npos) { o += s.substr(i); return o; } j += 6; while (j < s.size() && (s[j] == ':' || s[j] == ' ')) j++; o += s.substr(i, j - i) + std::to_string(v); while (j < s.size() && s[j] != ',' && s[j] != '}') j++; i = j; } }
SCENARIO(health, "C11") {
    rk_quiet(); chaos(); cfg.stall_harness = Pbool("stallall", 0.5); cfg.max_vtime = 3000 * SEC; cfg.vtime_fatal = false;
    int nodes = (int)P("nodes", 1, 5), recs = (int)P("records", 2, 40); uint32_t depth = (uint32_t)P("depth", 10, 50); int gps = Pbool("gps", 0.6) ? (int)P("gpsnode", 0, 4) % nodes : -1; int flags = (int)P("flags", 0, 5);
    bool busy = Pbool("operators", 0.3), restart = Pbool("restart", 0.2), jumps = Pbool("clocksteps", 0.25), big = Pbool("big", 0.15);
    RKRadar *radar = (RKRadar *)calloc(1, sizeof(RKRadar)); RKRadarDesc *desc = &radar->desc; memcpy(desc, new_desc(64, 4), sizeof *desc);
    desc->healthNodeCount = RKHealthNodeCount; desc->healthBufferDepth = depth; desc->initFlags = (RKInitFlag)(flags == 4 ? RKInitFlagIgnoreGPS : flags == 5 ? RKInitFlagIgnoreHeading : 0);
    desc->latitude = 35.2; desc->longitude = -97.4; desc->heading = 12.5f;
    RKHealth *C = (RKHealth *)calloc(depth, sizeof(RKHealth)); RKNodalHealth *N = (RKNodalHealth *)calloc(RKHealthNodeCount, sizeof(RKNodalHealth));
    for (uint32_t i = 0; i < depth; i++) C[i].i = -(uint64_t)depth + i;
    for (int j = 0; j < RKHealthNodeCount; j++) { N[j].healths = (RKHealth *)calloc(depth, sizeof(RKHealth)); for (uint32_t i = 0; i < depth; i++) N[j].healths[i].i = -(uint64_t)depth + i; }
    radar->healthNodes = N; radar->healths = C; radar->state = RKRadarStateLive;
    RKHealthEngine *E = RKHealthEngineInit(); radar->healthEngine = E; RKHealthEngineSetVerbose(E, (int)P("verbose", 0, 3)); RKHealthEngineSetEssentials(E, desc, N, C, &radar->healthIndex);
    struct Rep { std::string s; KV kv; double lat, lon, head; bool hasgps; int en[3]; int64_t done; }; struct Node { int id; std::deque<Rep> reps; int done = 0; double period; bool silent = false; bool quick = false; int th; }; std::deque<Node> nd(nodes);
    bool quit = false; double base_lat = 35.2, base_lon = -97.4, base_head = 12.5; int dead = -1;
    auto make = [&](Node &x) {
        int ser = (int)x.reps.size(); std::string s = "{"; char b[512]; snprintf(b, sizeof b, "\"N%d Serial\":%d", x.id, ser); s += b; Rep r; r.hasgps = false;
        int n = 1 + (int)wl(5); const char *sep = (const char *[]){", ", ",", " , ", ",\n"}[wl(4)];
        for (int i = 0; i < n; i++) {
            s += sep; int e = (int)(int64_t[]){0, 0, 0, 1, 2, 3, 4, 5, -1, -2, -3}[wl(11)];
            switch (wl(9)) {
                case 0: snprintf(b, sizeof b, "\"N%d State %d\":{\"Value\":\"%s\",\"Enum\":%d}", x.id, i, (const char *[]){"true", "True", "FALSE", "false", "TRUE"}[wl(5)], e); break;
                case 1: snprintf(b, sizeof b, "\"N%d Enumeration %d\":{\"Value\":\"%d Enum\", \"Enum\":%d}", x.id, i, (int)wl(1000), e); break;
                case 2: snprintf(b, sizeof b, "\"N%d Antenna Heading %d\":{\"Value\":\"%.1f deg\",\"Enum\":%d}", x.id, i, wlf() * 360, e); break;
                case 3: snprintf(b, sizeof b, "\"N%d Latitude Limits %d\":[%.2f,%.3f]", x.id, i, wlf(), wlf()); break;
                case 4: snprintf(b, sizeof b, "\"N%d Power %d\":{\"Value\":%.2f,\"Enum\" : %d}", x.id, i, wlf() * 100, e); break;
                case 5: snprintf(b, sizeof b, "\"N%d Flags %d\":[\"True\",\"false\",\"TRUE\"]", x.id, i); break;
                case 6: snprintf(b, sizeof b, "\"N%d Nested %d\":{\"A\":{\"Value\":1,\"Enum\":%d},\"B\":{\"Value\":2,\"Enum\":%d}}", x.id, i, e, (int)wl(3)); break;
                case 7: snprintf(b, sizeof b, "\"N%d Switch %d\":{\"Value\":true,\"Enum\":%d}", x.id, i, e); break;
                default: snprintf(b, sizeof b, "\"N%d Text %d\":\"%s\"", x.id, i, std::string(wl(wl(6) ? 60 : 300), 'x').c_str()); }
            s += b;
        }
        if (x.id == gps && wl(10)) {
            r.hasgps = true; int en = wl(8) ? 0 : (int)wl(4) - 1; for (int q = 0; q < 3; q++) r.en[q] = wl(10) ? en : (int)wl(4) - 1; if (wl(14) == 0) { base_lat += wlf() < 0.5 ? 1e-5 : 0.01; base_lon -= 0.01 * wlf(); } if (wl(14) == 0) base_head = 20 + wlf() * 300;
            double v[3] = {base_lat + (wl(6) ? 0 : 1e-3), base_lon, base_head + (wl(6) ? 0 : 20)}; bool text = wl(2); static const char *key[] = {"Latitude", "Longitude", "Heading"};
            for (int q = 0; q < 3; q++) { char n[32]; snprintf(n, sizeof n, q == 2 ? "%.1f" : "%.7f", v[q]); if (wl(14) == 0) { r.en[q] = 99; continue; } snprintf(b, sizeof b, text ? "%s\"GPS %s\":{\"Value\":\"%s%s\",\"Enum\":%d}" : "%s\"GPS %s\": {\"Value\":%s%s,\"Enum\":%d}", sep, key[q], n, q == 2 && text ? " deg" : "", r.en[q]); s += b; v[q] = atof(n); }
            r.lat = v[0]; r.lon = v[1]; r.head = (float)v[2];
        }
        if (big) s += std::string(sep) + "\"Pad\":\"" + std::string(200 + wl(1400), '.') + "\"";
        s += (const char *[]){"}", "}\r\n", " }", "}  "}[wl(4)]; r.s = s; std::string why; if (!json_pairs(s, r.kv, why)) sim_fail("harness", "report is bad (%s): %s", why.c_str(), s.c_str()); r.done = -1; x.reps.push_back(r); return ser;
    };
    auto report = [&](Node &x) {
        int ser = make(x); const std::string &s = x.reps[ser].s; RKHealth *h = RKGetVacantHealth(radar, (RKHealthNode)x.id); if (wl(4) == 0) sim_sleep_ns(wl(200) * MS);
        size_t a = 0; while (a < s.size()) { size_t m = std::min(s.size() - a, (size_t)(1 + wl(s.size()))); memcpy(h->string + a, s.data() + a, m); a += m; h->string[a] = 0; sim_yield(); }
        RKSetHealthReady(radar, h); x.reps[ser].done = sim_now(); x.done = ser + 1; sim_probe("reports");
    };
    for (int j = 0; j < nodes; j++) { nd[j].id = j; nd[j].period = j == 0 ? (double[]){0.15, 0.5, 1.0, 1.5}[P("period0", 0, 3)] : (double[]){0.05, 0.1, 0.3, 1, 3}[wl(5)]; }
    for (int j = 0; j < nodes; j++) nd[j].th = sim_spawn("node", [&, j] { Node &x = nd[j]; if (j) sim_sleep_ns(wl(1500) * MS); while (!quit) { if (x.silent && !quit) { sim_sleep_ns(50 * MS); continue; } report(x); sim_sleep_ns((ns_t)(x.period * (0.7 + 0.6 * wlf()) * SEC)); if (j && wl(40) == 0 && dead != j) { sim_fault_note("node silent for a while"); sim_sleep_ns((1 + wl(8)) * SEC); } } });
    int op = busy ? sim_spawn("operator", [&] { char rec[512]; snprintf(rec, sizeof rec, "{\"GPS Latitude\":{\"Value\":\"1.0\",\"Enum\":5}, \"b\":{\"Value\":2,\"Enum\":5}}"); while (!quit) { for (int i = 0; i < 12; i++) { char *v = RKGetValueOfKey(rec, "b"); CHECK(v && !strcmp(v, "{\"Value\":2,\"Enum\":5}"), "keyvalue", "RKGetValueOfKey() returned %s", v ? v : "nothing"); } sim_sleep_ns((1 + wl(20)) * MS); } }) : -1;
    CHECK(RKHealthEngineStart(E) == RKResultSuccess, "start", "start failed");
    // the reader
    std::vector<int> last(nodes, -1), lbdone(nodes, 0); uint32_t k = radar->healthIndex; int seen = 0; int hc = 0, lc = 0; double mlat = desc->latitude, mlon = desc->longitude; float mhead = desc->heading; int64_t llog = 0; ns_t lastpub = 0, polled = sim_now(); std::vector<int> polleddone(nodes, 0); bool jumped = false; ns_t restarted = 0; double lastwall = sim_wall();
    auto expect_gap = [&] { return 30 * SEC; };
    auto examine = [&](const std::string &s, ns_t pollgap) {
        KV kv; std::string why; CHECK(json_pairs(s, kv, why), "malformed", "record %d is not well formed (%s): %s", seen, why.c_str(), s.c_str()); size_t p = 0; double la = NAN, lo = NAN, he = NAN; size_t len = 0; std::vector<int> now(nodes, -1); bool anyold = false;
        for (auto &q : kv) len += q.first.size() + q.second.size() + 6;
        for (int j = 0; j < nodes; j++) {
            std::string key = "N" + std::to_string(j) + " Serial"; if (p >= kv.size() || kv[p].first != key) {   // this node is not here
                CHECK(lbdone[j] == 0 || len > 1500 || big, "left out", "record %d has nothing of node %d (%d reports completed before): %s", seen, j, lbdone[j], s.c_str()); for (auto &q : kv) CHECK(q.first != key, "order", "record %d holds node %d out of place", seen, j); now[j] = last[j]; continue; }
            int ser = atoi(kv[p].second.c_str()); CHECK(ser >= 0 && ser < (int)nd[j].reps.size() && nd[j].reps[ser].done >= 0, "torn", "record %d holds report %d of node %d that is not complete", seen, ser, j); Rep &r = nd[j].reps[ser];
            bool old = ser == last[j]; anyold |= old;
            CHECK(ser >= lbdone[j] - 1, "not the latest", "record %d holds report %d of node %d although %d reports were complete when the record before it came out", seen, ser, j, lbdone[j]);
            CHECK(ser >= last[j], "backward", "record %d holds report %d of node %d after report %d", seen, ser, j, last[j]); now[j] = ser;
            for (size_t q = 0; q < r.kv.size(); q++, p++) {
                CHECK(p < kv.size() && kv[p].first == r.kv[q].first, "torn", "record %d: report %d of node %d is not whole (%s expected, %s found): %s", seen, ser, j, r.kv[q].first.c_str(), p < kv.size() ? kv[p].first.c_str() : "nothing", s.c_str());
                std::string v = swap_all(swap_all(r.kv[q].second, "\"true\"", "true"), "\"false\"", "false"), w = enums(v, RKStatusEnumOld), got = kv[p].second; bool g = kv[p].first.compare(0, 4, "GPS ") == 0;
                CHECK(got == (old ? w : v) || (g && got == enums(v, RKStatusEnumNotWired)), old ? "not old" : "altered", "record %d: node %d reported %s as %s, the record %s has %s", seen, j, r.kv[q].first.c_str(), v.c_str(), old ? "(nothing new, so old)" : "", got.c_str());
            }
            if (r.hasgps && !old) { if (r.en[0] == 0) la = r.lat; if (r.en[1] == 0) lo = r.lon; if (r.en[2] == 0) he = r.head; }
            if (old) sim_probe("old reports");
        }
        // what the record uses of the reported location
        bool nohead = isnan(he) || desc->initFlags & (RKInitFlagIgnoreHeading | RKInitFlagIgnoreGPS), noloc = isnan(la) || isnan(lo) || desc->initFlags & RKInitFlagIgnoreGPS; char b[128];
        auto want = [&](const char *key, const char *v) { CHECK(p < kv.size() && kv[p].first == key && kv[p].second == v, "override", "record %d should have %s:%s at its end: %s", seen, key, v, s.c_str()); p++; };
        bool unsure = restarted != 0;
        if (nohead) { want("Heading Override", "{\"Value\":true,\"Enum\":0}"); snprintf(b, sizeof b, "{\"Value\":\"%.2f deg\",\"Enum\":0}", mhead); if (!unsure) want("Sys Heading", b); else p++; } else { if (fabsf(mhead - (float)he) > 1.0f) { if (hc++ > 3) { mhead = (float)he; hc = 0; sim_probe("heading updates"); } } else hc = 0; }
        if (noloc) { want("GPS Override", "{\"Value\":true,\"Enum\":0}"); snprintf(b, sizeof b, "{\"Value\":\"%.7f\",\"Enum\":0}", mlat); if (!unsure) want("Sys Latitude", b); else p++; snprintf(b, sizeof b, "{\"Value\":\"%.7f\",\"Enum\":0}", mlon); if (!unsure) want("Sys Longitude", b); else p++; want("LocationFromDescriptor", "true"); } else { if (fabs(mlat - la) > 3.5e-5 || fabs(mlon - lo) > 3.5e-5) { if (lc++ > 3) { mlat = la; mlon = lo; lc = 0; sim_probe("location updates"); } } else lc = 0; }
        CHECK(p + 1 == kv.size() && kv[p].first == "Log Time", "log time", "record %d does not end with the log time: %s", seen, s.c_str()); int64_t t = atoll(kv[p].second.c_str());
        if (!jumped) { CHECK(t >= llog && t <= (int64_t)sim_wall() && (lastpub == 0 || t >= (int64_t)lastwall - 1), "log time", "record %d has log time %ld at %ld, after %ld", seen, (long)t, (long)sim_wall(), (long)llog); } llog = t; lastwall = sim_wall();
        if (!unsure && pollgap < 60 * MS && !jumped) CHECK(fabs(desc->latitude - mlat) < 1e-9 && fabs(desc->longitude - mlon) < 1e-9 && desc->heading == mhead, "location", "after record %d the radar is at %.7f %.7f heading %.2f, the reports make it %.7f %.7f heading %.2f", seen, desc->latitude, desc->longitude, desc->heading, mlat, mlon, mhead);
        if (restarted) { mlat = desc->latitude; mlon = desc->longitude; mhead = desc->heading; hc = lc = 0; }
        for (int j = 0; j < nodes; j++) { if (now[j] >= 0) last[j] = now[j]; lbdone[j] = polleddone[j]; }
        jumped = false; lastpub = sim_now(); seen++; sim_hash_bytes(s.data(), s.size() > 40 ? 40 : s.size()); sim_probe("records");
    };
    auto follow = [&](int upto, ns_t patience, const char *what) {
        ns_t t0 = sim_now(); bool vacant = false, early = false; std::string first; // what the slot held when its flag became ready, before the index moved on
        while (seen < upto) {
            ns_t before = polled; std::vector<int> bd = polleddone;
            sim_atomic_begin(); uint32_t idx = radar->healthIndex; std::string s; int ahead = (int)((idx + depth - k) % depth); if (ahead) { CHECK(C[k].flag & RKHealthFlagReady, "not ready", "record %d is not ready although the index is past it", seen); s = std::string(C[k].string, strnlen(C[k].string, sizeof C[k].string)); }
            else if (!(C[k].flag & RKHealthFlagReady)) vacant = true; else if (vacant && !early) { early = true; first = std::string(C[k].string, strnlen(C[k].string, sizeof C[k].string)); }
            if (ahead) { CHECK(!early || first == s, "early", "record %d was marked ready before it was complete: it was %s and became %s", seen, first.c_str(), s.c_str()); vacant = early = false; }
            sim_atomic_end(); ns_t gap = sim_now() - before; if (ahead > 1) gap = SEC;
            if (ahead) { polleddone = bd; examine(s, gap); k = RKNextModuloS(k, depth); t0 = sim_now(); continue; }
            polled = sim_now(); for (int j = 0; j < nodes; j++) polleddone[j] = nd[j].done;
            CHECK(sim_now() - t0 < patience, "stopped", "no record for %.1f s %s (%d records before)", (sim_now() - t0) / 1e9, what, seen);
            if (jumps && wl(400) == 0) { double j = (double[]){3600, -3600, 86400, -5, 5, -0.2}[wl(6)]; sim_wall_jump(j); sim_fault_note("clock step"); jumped = true; }
            sim_sleep_ns((2 + wl(6)) * MS);
        }
    };
    follow(recs, expect_gap(), "with every node reporting");
    if (restart) {
        CHECK(RKHealthEngineStop(E) == RKResultSuccess, "stop", "stop failed"); sim_sleep_ns(wl(3000) * MS); int n = (int)((radar->healthIndex + depth - k) % depth); follow(seen + n, 5 * SEC, "published before the stop");
        restarted = 1; CHECK(RKHealthEngineStart(E) == RKResultSuccess, "start", "restart failed"); for (int j = 0; j < nodes; j++) last[j] = -1; follow(seen + 1, expect_gap(), "after a restart"); mlat = desc->latitude; mlon = desc->longitude; mhead = desc->heading; restarted = 0; hc = lc = 0; gps = -2; int seen0 = seen; restarted = 1; follow(seen0 + 3, expect_gap(), "after a restart");
    }
    // a node falls silent for good: the records keep coming
    if (nodes > 1) { dead = 1 + (int)wl(nodes - 1); nd[dead].silent = true; sim_fault_note("node silent for good"); sim_calm(); follow(seen + 1, expect_gap(), "after a node fell silent"); sim_sleep_ns(0); follow(seen + 4, (ns_t)((nd[0].period * 1.4 + 3) * SEC), "with a silent node and no disturbance"); CHECK(nd[dead].done == 0 || last[dead] == nd[dead].done - 1 || big, "lost", "the last report of silent node %d is not in the records", dead); }
    quit = true; sim_deadline(60 * SEC, "stop", "stopping the engine"); CHECK(RKHealthEngineStop(E) == RKResultSuccess, "stop", "stop failed"); sim_deadline_clear();
    for (auto &x : nd) sim_join(x.th); if (op >= 0) sim_join(op); CHECK(sim_live_code_threads() == 0, "threads", "threads left: %s", sim_thread_dump().c_str());
    RKHealthEngineFree(E);
}
