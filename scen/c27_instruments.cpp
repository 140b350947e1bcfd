// C27: the readings of attached instruments become records once each, actions and commands reach them whole, replies reach their callers
#include "rk.h"
#include <RadarKit/RKPedestalPedzy.h>
#include <RadarKit/RKHealthRelayTweeta.h>
#include <RadarKit/RKHealthRelayNaveen.h>
extern "C" { extern RKRadar *RKInitWithDesc(const RKRadarDesc); }
namespace {
struct Cmd { std::string text, reply; ns_t sent = 0; int seen = 0; bool silent = false, gaveup = false; };
struct Dev {   // the instrument
    int port, kind; int ls = -1, fd = -1; std::deque<int> waiting; RKClient *client = nullptr; int (*recv)(RKClient *) = nullptr; std::string in, out; long conns = 0, inits = 0; bool greeted = false, quiet = false, outage = false;
    std::deque<std::string> expect; long handled = 0, published = 0; std::deque<std::string> actions; std::vector<Cmd *> cmds; std::deque<std::pair<ns_t, Cmd *>> replies; ns_t upsince = 0, downsince = 0;
};
struct World { RKRadar *r; Dev ped{9554, 0}, rel{9556, 1}; float heading; bool fini = false, stopping = false, garbage = false; std::deque<RKPosition> last; ns_t first = 0; double lat = 0, lon = 0, hdg = 0, speed = 0; bool valid = false; double hlat = 0, hlon = 0, hhdg = 0, hspeed = 0; bool hvalid = false; } *W;   // h…: after the last sentence that was handled
std::string frame(uint16_t type, const std::string &s) { RKNetDelimiter d; memset(&d, 0, sizeof d); d.type = type; d.size = d.decodedSize = (uint32_t)s.size(); return std::string((char *)&d, sizeof d) + s; }
bool same(float a, float b) { return a == b || (a != a && b != b); }
float wrap(float a, float h) { a += h; if (a < 0) a += 360.0f; else if (a >= 360.0f) a -= 360.0f; return a; }
int on_pedestal(RKClient *c) {
    RKRadar *r = W->r; std::string msg((char *)c->userPayload, c->netDelimiter.size); bool pos = c->netDelimiter.type == 'p', good = pos && msg.size() == sizeof(RKPosition); RKPosition want; if (good) memcpy(&want, msg.data(), sizeof want);
    uint32_t i0 = r->positionIndex, depth = r->desc.positionBufferDepth, a0 = r->steerEngine->actionIndex; float h0 = r->desc.heading; if (good) { RKPosition pre = want; pre.azimuthDegrees = wrap(want.azimuthDegrees, h0); W->last.push_back(pre); } int k = W->ped.recv(c); float h1 = r->desc.heading; uint32_t n = (r->positionIndex + depth - i0) % depth;
    if (!good) { CHECK(n == 0, "position", "a message of type %u and %zu bytes becomes %u positions", c->netDelimiter.type, msg.size(), n); return k; }
    CHECK(n == 1, "position", "a position message becomes %u positions", n); RKPosition &p = r->positions[i0]; sim_probe("positions"); W->ped.handled++;
    CHECK(p.flag & RKPositionFlagReady, "position", "the position is not ready (%x)", p.flag); CHECK(((p.flag ^ want.flag) & 0x00070007) == 0, "position", "flags %x become %x", want.flag, p.flag);
    float az = wrap(want.azimuthDegrees, h0), az1 = wrap(want.azimuthDegrees, h1), el = want.elevationDegrees < -90.0f ? want.elevationDegrees + 360.0f : want.elevationDegrees;
    CHECK((same(p.azimuthDegrees, az) || (h0 != h1 && same(p.azimuthDegrees, az1))) && same(p.elevationDegrees, el), "reading", "a reading of EL %.4f AZ %.4f, heading %.4f, becomes EL %.4f AZ %.4f", want.elevationDegrees, want.azimuthDegrees, h0, p.elevationDegrees, p.azimuthDegrees);
    if (!W->garbage) CHECK(p.azimuthDegrees >= 0 && p.azimuthDegrees < 360.0f, "reading", "an azimuth of %.4f", p.azimuthDegrees);
    CHECK(p.tic == want.tic && p.rawAzimuth.u32 == want.rawAzimuth.u32 && p.rawElevation.u32 == want.rawElevation.u32 && p.queueSize == want.queueSize && p.elevationMode == want.elevationMode && p.azimuthMode == want.azimuthMode && same(p.elevationVelocityDegreesPerSecond, want.elevationVelocityDegreesPerSecond) && same(p.azimuthVelocityDegreesPerSecond, want.azimuthVelocityDegreesPerSecond), "reading", "the position of tic %lu differs from the message of tic %lu", (unsigned long)p.tic, (unsigned long)want.tic);
    if (!W->first) W->first = sim_now(); W->last.push_back(p); if (W->last.size() > 4000) W->last.pop_front(); uint32_t na = (r->steerEngine->actionIndex + RKPedestalActionBufferDepth - a0) % RKPedestalActionBufferDepth; CHECK(na == 1, "action", "%u actions are computed for a position", na);
    RKScanAction &a = r->steerEngine->actions[a0]; if (a.mode[0] & RKPedestalInstructTypeModeMask) W->ped.actions.push_back(std::string((char *)&a, sizeof a)); return k;
}
std::string strip(std::string s) { while (!s.empty() && (unsigned char)s.back() <= ' ') s.pop_back(); return s; }
double number(const std::string &s, const char *key, bool &ok) { size_t a = s.find(std::string("\"") + key + "\""); if (a == std::string::npos) { ok = false; return 0; } a = s.find("\"Value\":", a); const char *q = s.c_str() + a + 8; if (*q == '"') q++; if (!strncmp(q, "true", 4)) return 1; if (!strncmp(q, "false", 5)) return 0; return atof(q); }
int on_relay(RKClient *c) {
    RKRadar *r = W->r; Dev &d = W->rel; RKHealthNode node = d.kind == 1 ? RKHealthNodeTweeta : RKHealthNodeUser1; std::string msg = d.kind == 1 ? std::string((char *)c->userPayload, c->netDelimiter.size) : std::string((char *)c->userPayload); bool live = r->state & RKRadarStateLive; uint32_t i0 = r->healthNodes[node].index, depth = r->desc.healthBufferDepth;
    std::string want; bool exp = !d.expect.empty() && d.kind == 2; if (exp) { want = d.expect.front(); d.expect.pop_front(); if (want == "!") { W->hvalid = false; want = ""; } else if (!want.empty()) { int vd; sscanf(want.c_str(), "%d %lf %lf %lf %lf", &vd, &W->hhdg, &W->hlat, &W->hlon, &W->hspeed); W->hvalid = vd; } }
    sim_note("sentence %.30s want %.20s exp %d", msg.c_str(), want.c_str(), (int)exp);
    int k = d.recv(c); uint32_t n = (r->healthNodes[node].index + depth - i0) % depth; RKHealth &h = r->healthNodes[node].healths[i0]; if (!live || !(r->state & RKRadarStateLive)) return k;
    if (d.kind == 1) { if (c->netDelimiter.type != 's') { CHECK(n == 0, "health", "a reply becomes %u health records", n); return k; } CHECK(n == 1 && h.flag == RKHealthFlagReady, "health", "a report becomes %u health records", n); std::string s = strip(msg).substr(0, RKMaximumStringLength - 1); CHECK(strip(h.string) == s || s.size() > RKMaximumStringLength - 100, "health", "the report '%.60s' becomes '%.60s'", s.c_str(), h.string); CHECK(strlen(h.string) < RKMaximumStringLength, "health", "the report is not terminated"); sim_probe("reports"); return k; }
    CHECK(exp, "health", "a sentence that was not sent: '%.60s'", msg.c_str()); if (want.empty()) { CHECK(n == 0, "health", "the sentence '%.60s' becomes %u health records", msg.c_str(), n); sim_probe("bad sentences"); return k; }
    CHECK(n == 1 && h.flag == RKHealthFlagReady, "health", "the sentence '%.60s' becomes %u health records", msg.c_str(), n); bool ok = true; std::string s = h.string; double v[5], x[5]; const char *keys[] = {"GPS Valid", "GPS Heading", "GPS Latitude", "GPS Longitude", "Ground Speed"}, *q = want.c_str(); for (int i = 0; i < 5; i++) { v[i] = number(s, keys[i], ok); x[i] = strtod(q, (char **)&q); }
    CHECK(ok, "health", "the report lacks values: '%.200s'", s.c_str()); const double tol[] = {0, 0.051, 3e-5, 3e-5, 0.0051}; for (int i = 0; i < 5; i++) CHECK(fabs(v[i] - x[i]) <= tol[i], "reading", "%s is %.7f after '%.80s', it should be %.7f", keys[i], v[i], strip(msg).c_str(), x[i]); sim_probe("sentences"); return k;
}
template <int D> void *wrap_init(RKRadar *r, void *in) { Dev &d = D ? W->rel : W->ped; void *p; sim_atomic_begin(); sim_atomic_end(); if (D == 0) { p = RKPedestalPedzyInit(r, in); if (p) d.client = ((RKPedestalPedzy *)p)->client; } else if (d.kind == 1) { p = RKHealthRelayTweetaInit(r, in); if (p) d.client = ((RKHealthRelayTweeta *)p)->client; } else { p = RKHealthRelayNaveenInit(r, in); if (p) d.client = ((RKHealthRelayNaveen *)p)->client; } if (p) { d.recv = d.client->recv; d.client->recv = D ? on_relay : on_pedestal; d.inits++; } return p; }
std::string text(uint64_t k, size_t n) { std::string s = "x" + std::to_string(k) + " "; while (s.size() < n) s += (char)('0' + (k * 7 + s.size() * 3) % 70); return s; }
std::string sum(const std::string &s) { unsigned char c = 0; for (char x : s) c ^= (unsigned char)x; char b[8]; snprintf(b, sizeof b, "*%02X", c); return "$" + s + b + (wl(2) ? "\r\n" : "\n"); }
// one sentence and what the report must be after it; an empty one for none
void sentence(std::string &wire, std::string &want) {
    World &w = *W; double la = (wl(2) ? 1 : -1) * (double)wl(8900000) / 1e5, lo = (wl(2) ? 1 : -1) * (double)wl(17900000) / 1e5; char b[400]; auto dm = [](double x) { x = fabs(x); int d = (int)x; return d * 100 + (x - d) * 60; }; bool bad = wl(6) == 0; int kind = (int)wl(5);
    switch (kind) {
        case 0: { bool v = wl(3) != 0; snprintf(b, sizeof b, "GPRMC,123519,%c,%09.4f,%c,%010.4f,%c,022.4,084.4,230394,003.1,W", v ? 'A' : 'V', dm(la), la < 0 ? 'S' : 'N', dm(lo), lo < 0 ? 'W' : 'E'); if (!bad) { w.valid = v; w.lat = la; w.lon = lo; } break; }
        case 1: { int q = (int)wl(3); snprintf(b, sizeof b, "GPGGA,123519,%09.4f,%c,%010.4f,%c,%d,08,0.9,545.4,M,46.9,M,,", dm(la), la < 0 ? 'S' : 'N', dm(lo), lo < 0 ? 'W' : 'E', q); if (!bad) { w.valid = q > 0; w.lat = la; w.lon = lo; } break; }
        case 2: { double h = wl(3600) / 10.0; snprintf(b, sizeof b, "GPHDT,%.1f,T", h); if (!bad) w.hdg = h; break; }
        case 3: { double t = 1 + wl(3500) / 10.0, k = wl(10000) / 100.0; snprintf(b, sizeof b, "GPVTG,%.1f,T,%.1f,M,%.2f,N,%.2f,K", t, t, k / 1.852, k); if (!bad) w.speed = k; break; }
        default: snprintf(b, sizeof b, "GPGSV,2,1,08,01,40,083,46"); break;
    }
    wire = sum(b);
    if (bad) { sim_fault_note("bad sentence"); switch (wl(5)) { case 0: wire[1 + wl(wire.size() - 6)] ^= 1; for (auto &ch : wire) if (ch == '\n' || ch == 0) ch = 'x'; wire += "\n"; break; case 1: wire = sum("GPGLL," + std::string(100 + wl(5000), '7')); break; case 2: wire = "\n"; break; case 3: wire = "garbage" + std::string(wl(300), ',') + "\n"; break; case 4: wire = wire.substr(0, 1 + wl(4)) + "\n"; break; } want = ""; if (wire.compare(0, 6, "$GPGLL") != 0) { w.valid = false; want = "!"; } return; }
    if (kind == 4) { want = ""; return; }
    if (wl(25) == 0 && kind == 2) { sim_fault_note("long field"); wire = sum("GPHDT," + std::string(b).substr(6, strlen(b) - 8) + std::string(60 + wl(3000), '0') + ",T"); }   // 12.30000…
    snprintf(b, sizeof b, "%d %.9f %.9f %.9f %.9f", w.valid ? 1 : 0, w.hdg, w.lat, w.lon, w.speed); want = b;
}
}
SCENARIO(instruments, "C27") {
    World world; W = &world; World &w = world; rk_quiet(); chaos(); cfg.max_vtime = 3000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 20 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 10 * MS);
    cfg.p_recv_short = (double[]){0, 0.1, 0.6}[P("short", 0, 2)]; cfg.p_send_short = (double[]){0, 0.2, 0.8}[P("sendshort", 0, 2)]; cfg.p_eintr = Pbool("eintr", 0.3) ? 0.02 : 0; int64_t sb = (int64_t[]){262144, 4000, 60}[P("buffers", 0, 2)]; cfg.sndbuf = sb; cfg.rcvbuf = std::max<int64_t>(sb, 300);
    RKRadarDesc d; memset(&d, 0, sizeof d); d.initFlags = RKInitFlagAllocEverything | RKInitFlagSignalProcessor | RKInitFlagPulsePositionCombiner | RKInitFlagPositionSteerEngine; d.initFlags = (RKInitFlag)(d.initFlags | (uint32_t[]){0, RKInitFlagVerbose, RKInitFlagVeryVerbose}[P("verbose", 0, 2)]);
    d.pulseCapacity = 64; d.pulseToRayRatio = 1; d.pulseBufferDepth = 80; d.rayBufferDepth = 100; d.positionBufferDepth = (uint32_t[]){64, 100, 160}[P("positions", 0, 2)]; d.healthBufferDepth = 10; d.configBufferDepth = 12; d.healthNodeCount = RKHealthNodeCount; d.statusBufferDepth = 10; d.controlCapacity = d.waveformCalibrationCapacity = 4;
    d.pulseSmoothFactor = 200; d.pulseTicsPerSecond = 1000000; d.positionSmoothFactor = 50; d.positionTicsPerSecond = 1000000; d.wavelength = 0.03; strcpy(d.name, "Sim"); strcpy(d.filePrefix, "SIM"); strcpy(d.dataPath, "data"); w.heading = d.heading = (float[]){0, 30.5, -90, 359.9, -359, 180}[P("heading", 0, 5)];
    for (const char *n : {"www.ou.edu", "8.8.8.8"}) dns_table[n] = 0x0a010001; dns_table["pedzy"] = dns_table["relay"] = 0x0a000002; vfs_mkdirs("/home/radar/data");
    size_t mark = sim_heap_mark(); RKRadar *r = RKInitWithDesc(d); CHECK(r, "init", "no radar"); rk_quiet(); w.r = r;
    bool haverel = Pbool("relay", 0.75); w.rel.kind = (int)P("kind", 1, 2); if (w.rel.kind == 2) w.rel.port = 9557; int gap = (int[]){10, 40, 3}[P("rate", 0, 2)]; int calm = (int)P("outages", 0, 2); w.garbage = Pbool("garbage", 0.1); bool explicitport = Pbool("port", 0.5); if (explicitport) { w.ped.port = 5000; w.rel.port = 5001; }
    Dev *devs[2] = {&w.ped, &w.rel}; for (int i = 0; i < (haverel ? 2 : 1); i++) { devs[i]->ls = net_listen(devs[i]->port); CHECK(devs[i]->ls >= 0, "harness", "cannot listen"); }
    std::vector<int> th; std::deque<Cmd> cmds;
    for (int i = 0; i < (haverel ? 2 : 1); i++) { Dev *dv = devs[i]; th.push_back(sim_spawn("acceptor", [dv, &w] { while (!w.fini) { int fd = net_accept(dv->ls, 20 * MS); if (fd >= 0) dv->waiting.push_back(fd); } }));
      th.push_back(sim_spawn("instrument", [dv, i, gap, calm, &w] {
        Dev &v = *dv; auto drop = [&](bool hard) { if (v.fd < 0) return; if (hard) net_reset(v.fd); net_close(v.fd); v.fd = -1; v.downsince = sim_now(); v.out.clear(); v.in.clear(); v.replies.clear(); v.greeted = false; };
        uint64_t seq = 0; double az = wlf() * 360, el = 3; ns_t nextmsg = sim_now(), seg = 0; char b[4096];
        while (!w.fini) {
            sim_sleep_ns(1 * MS); if (v.fd < 0) { if (v.waiting.empty()) { CHECK(w.stopping || v.downsince == 0 || v.inits == 0 || sim_now() - v.downsince < 60 * SEC, "reconnect", "instrument %d has been alone for %.1f s", i, 1e-9 * (double)(sim_now() - v.downsince)); continue; } v.fd = v.waiting.front(); v.waiting.pop_front(); v.conns++; v.upsince = sim_now(); v.actions.clear(); v.expect.clear(); if (i) { w.valid = w.hvalid; w.hdg = w.hhdg; w.lat = w.hlat; w.lon = w.hlon; w.speed = w.hspeed; } nextmsg = sim_now(); sim_probe("connections"); }
            // what comes in
            long k; while (v.fd >= 0 && net_rx_avail(v.fd) > 0) { k = net_recv_some(v.fd, b, sizeof b, 1 * MS); if (k > 0) v.in.append(b, (size_t)k); else break; } if (v.fd >= 0) { k = net_recv_some(v.fd, b, sizeof b, 0); if (k > 0) v.in.append(b, (size_t)k); else if (k == 0 || k == -1) { drop(false); continue; } }
            for (;;) { if (!v.greeted && !v.in.empty() && v.in[0] == 10) { v.in.erase(0, 1); v.greeted = true; continue; } if (v.in.empty()) break;
                if (v.in[0] == 0x0f) { const size_t n = sizeof(RKScanAction); if (v.in.size() < n + 3) break; CHECK(i == 0 && v.in.compare(n + 1, 2, "\r\n") == 0, "action", "an action does not end in time"); std::string a = v.in.substr(1, n); v.in.erase(0, n + 3); ns_t t = sim_now(); sim_wait_until([&] { return !v.actions.empty() || sim_now() - t > 1 * SEC; }, 2 * SEC, 1 * MS); CHECK(!v.actions.empty() && v.actions.front() == a, "action", "an action arrives that differs from the oldest one of %zu on the way", v.actions.size()); v.actions.pop_front(); sim_probe("actions"); continue; }
                size_t e = v.in.find("\r\n"); CHECK(e != std::string::npos || v.in.size() < 600, "command", "a command of more than %zu bytes: '%.40s'", v.in.size(), v.in.c_str()); if (e == std::string::npos) break; std::string c = v.in.substr(0, e); v.in.erase(0, e + 2); if (c == "ping") { CHECK(v.greeted, "greeting", "a connection without a greeting"); v.out += v.kind == 2 ? "" : frame('c', "pong\r\n"); sim_probe("beacons"); continue; }
                Cmd *m = nullptr; for (Cmd *x : v.cmds) if (x->text == c) m = x; CHECK(m, "command", "a command arrives that was not given: '%.80s'", c.c_str()); CHECK(!m->seen, "command", "a command arrives twice: '%.80s'", c.c_str()); m->seen = 1; sim_probe("commands"); if (!m->silent && v.kind != 2) v.replies.push_back({sim_now() + (ns_t)wl(wl(3) ? 100 : 1500) * MS, m}); }
            if (v.fd < 0) continue;
            // what goes out
            if (!v.quiet && sim_now() >= nextmsg && v.out.size() < 3000) { nextmsg = sim_now() + (ns_t)(1 + wl(2 * (i ? 300 : gap))) * MS; if (nextmsg < sim_now() + 1 * SEC && wl(60) == 0) { sim_fault_note("pause"); nextmsg = sim_now() + (ns_t)wl(3000) * MS; }
                if (i == 0) { RKPosition p; memset(&p, 0, sizeof p); p.i = seq; p.tic = (uint64_t)(sim_now() / 1000); seq++; p.rawAzimuth.u32 = (uint32_t)wl(1u << 30); p.rawElevation.u32 = (uint32_t)wl(1u << 30); p.queueSize = (uint8_t)wl(256); p.elevationMode = (uint8_t)wl(8); p.azimuthMode = (uint8_t)wl(8); az = fmod(az + wlf() * 8, 360.0); el = wl(50) ? el + (wlf() - 0.5) : wlf() * 180 - 179; if (el > 100 || el < -179) el = 3; p.azimuthDegrees = (float)az; if (p.azimuthDegrees >= 360.0f) p.azimuthDegrees = 0; p.elevationDegrees = (float)el; p.azimuthVelocityDegreesPerSecond = (float)(wlf() * 20); p.elevationVelocityDegreesPerSecond = (float)(wlf() * 4); p.sweepElevationDegrees = 3; p.flag = wl(10) ? RKPositionFlagAzimuthEnabled | RKPositionFlagElevationEnabled : (RKPositionFlag)wl(0xFFFFFFFF); p.time.tv_sec = 77; p.timeDouble = 5;
                    if (w.garbage && wl(20) == 0) { sim_fault_note("garbage reading"); p.azimuthDegrees = (float)(double[]){1e30, -1e30, NAN, 1e7, INFINITY}[wl(5)]; if (wl(2)) p.elevationDegrees = (float)(double[]){1e30, -1e30, NAN, 1e7, INFINITY}[wl(5)]; if (wl(2)) p.azimuthVelocityDegreesPerSecond = NAN; }
                    std::string m((char *)&p, sizeof p); if (wl(40) == 0) { sim_fault_note("message of a wrong size"); m.resize(wl(300)); if (m.size() == sizeof p) m += "x"; } v.out += frame('p', m); if (wl(60) == 0) v.out += frame('c', "pong\r\n"); }
                else if (v.kind == 1) { std::string s = "{\"Count\":{\"Value\":\"" + std::to_string(seq++) + "\",\"Enum\":0}, \"T\":{\"Value\":\"" + std::string(wl(wl(30) ? 60 : 4500), 'y') + "\",\"Enum\":" + std::to_string(wl(3)) + "}}" + (wl(2) ? "\r\n" : ""); if (s.size() > RKMaximumStringLength) sim_fault_note("long report"); v.out += frame('s', s); }
                else { std::string x, y; sentence(x, y); v.expect.push_back(y); v.out += x; } }
            while (!v.replies.empty() && v.replies.front().first <= sim_now()) { Cmd *m = v.replies.front().second; v.replies.pop_front(); v.out += frame('c', m->reply); }
            if (!v.out.empty() && sim_now() >= seg) { size_t n = wl(4) ? v.out.size() : 1 + wl(v.out.size()); k = net_send_all(v.fd, v.out.data(), std::min<size_t>(n, 200), 5 * MS); if (k > 0) v.out.erase(0, (size_t)k); if (k == -1) { drop(false); continue; } if (wl(20) == 0) seg = sim_now() + (ns_t)wl(100) * MS; }
            if (calm && wl(calm == 1 ? 20000 : 4000) == 0) { switch (wl(5)) { case 0: sim_fault_note("connection reset"); drop(true); break; case 1: sim_fault_note("connection closed"); drop(false); break; case 2: { sim_fault_note("instrument away"); drop(false); net_port_refuse(v.port, true); ns_t t = sim_now() + (ns_t)wl(12000) * MS; while (sim_now() < t && !w.fini && !w.stopping) sim_sleep_ns(20 * MS); net_port_refuse(v.port, false); while (!v.waiting.empty()) { net_close(v.waiting.front()); v.waiting.pop_front(); } v.downsince = sim_now(); break; }
                case 3: { sim_fault_note("instrument falls silent"); ns_t t = sim_now(); while (!w.fini && !w.stopping && v.fd >= 0) { k = net_recv_some(v.fd, b, sizeof b, 50 * MS); if (k == 0 || k == -1) drop(false); CHECK(w.stopping || sim_now() - t < 60 * SEC, "silent", "the connection to a silent instrument is kept for %.1f s", 1e-9 * (double)(sim_now() - t)); } drop(false); break; }
                case 4: { sim_fault_note("ends within a message"); if (v.out.empty() && v.kind != 2) { std::string f = frame('p', std::string(128, 'q')); net_send_all(v.fd, f.data(), wl(f.size() - 1), 20 * MS); } drop(wl(2)); break; } } }
        } if (v.fd >= 0) net_close(v.fd); while (!v.waiting.empty()) { net_close(v.waiting.front()); v.waiting.pop_front(); } v.fd = -1; })); }
    static char hp[2][64]; snprintf(hp[0], 64, explicitport ? "pedzy:%d" : "pedzy", w.ped.port); snprintf(hp[1], 64, explicitport ? "relay:%d" : "relay", w.rel.port);
    RKSetPedestal(r, hp[0], wrap_init<0>, RKPedestalPedzyExec, RKPedestalPedzyFree); if (haverel) RKSetHealthRelay(r, hp[1], wrap_init<1>, w.rel.kind == 1 ? RKHealthRelayTweetaExec : RKHealthRelayNaveenExec, w.rel.kind == 1 ? RKHealthRelayTweetaFree : RKHealthRelayNaveenFree);
    const ns_t B = 60 * SEC + 2000 * (cfg.stall_hi + cfg.jitter_hi); if (Pbool("threadfail", 0.04)) cfg.p_thread_fail = 0.3;
    sim_deadline(B, "live-hang", "RKGoLive"); int k = RKGoLive(r); sim_deadline_clear(); if (cfg.p_thread_fail == 0) CHECK(k == RKResultSuccess, "live", "RKGoLive returns %d", k); cfg.p_thread_fail = 0;
    std::vector<int> ops; uint64_t serial = 0; int n = (int)P("commanders", 0, 3); if (k == RKResultSuccess) { for (int o = 0; o < n; o++) ops.push_back(sim_spawn("commander", [&, o] { char *resp = (char *)malloc(RKMaximumPacketSize / 256); while (!w.stopping) { sim_sleep_ns((ns_t)wl(1500) * MS); if (w.stopping) break;
          if (wl(4) == 0) { static const char *v[] = {"v pp 2,4 0 10", "v stop", "v point 3 90", "v ipp 2 0 20", "v next", "v home"}; RKExecuteCommand(r, v[wl(6)], resp); sim_probe("scan commands"); continue; }
          int i = haverel && wl(3) == 0; Dev &v = *devs[i]; bool toolong = wl(25) == 0; sim_atomic_begin(); cmds.emplace_back(); Cmd &c = cmds.back(); c.text = text(serial++, toolong ? 513 + wl(600) : 1 + wl(wl(4) ? 40 : 500)); c.silent = wl(15) == 0; c.reply = "ACK. " + text(serial * 7, wl(wl(3) ? 30 : 3900)) + "\r\n"; v.cmds.push_back(&c); ns_t up = v.upsince; sim_atomic_end(); resp[0] = 0; bool viaradar = !toolong && c.text.size() < 300 && wl(2);
          sim_deadline_clear(); ns_t t = sim_now(); int q = RKResultSuccess; if (viaradar && i == 0) RKExecuteCommand(r, ("p " + c.text).c_str(), resp); else q = i ? r->healthRelayExec(r->healthRelay, c.text.c_str(), resp) : r->pedestalExec(r->pedestal, c.text.c_str(), resp); if (viaradar && i == 0 && !strncmp(resp, "NAK", 3)) q = RKResultTimeout; ns_t dt = sim_now() - t;
          CHECK(dt < (ns_t)(n + 1) * 6 * SEC + 200 * cfg.stall_hi, "slow", "a command takes %.1f s", 1e-9 * (double)dt);
          if (q != RKResultSuccess) c.gaveup = true; bool late = false; for (Cmd *x : v.cmds) if (x->gaveup && x != &c && strip(resp) == strip(x->reply)) late = true;   // no ids: a reply after its three seconds
          if (q == RKResultSuccess && late) sim_probe("late replies"); else if (q == RKResultSuccess) { CHECK(strip(resp) == strip(c.reply), "reply", "the reply to '%.20s' is '%.40s', it should be '%.40s'", c.text.c_str(), resp, c.reply.c_str()); CHECK(c.seen && !c.silent, "reply", "a reply to a command that has none"); sim_probe("replies"); }
          else { CHECK(!strncmp(resp, "NAK", 3), "reply", "no success, but '%.40s'", resp); sim_probe("refusals"); if (up && v.upsince == up && v.fd >= 0 && v.kind != 2 && !c.silent && !toolong && sim_now() - up > 60 * SEC && !w.stopping && calm == 0 && cfg.p_stall == 0 && v.handled > 5) sim_fail("refused", "a command gets '%.40s' although the instrument is there", resp); }
          if (toolong) CHECK(!c.seen, "command", "a command that is too long is passed on");
          } free(resp); })); }
    // the health of the pedestal
    ns_t run = (ns_t)(wl(4) ? wl(20000) : wl(90000)) * MS, t0 = sim_now(); if (k == RKResultSuccess) while (sim_now() - t0 < run) { sim_sleep_ns(50 * MS); if (wl(4)) continue; sim_atomic_begin(); RKHealth *h = RKGetLatestHealthOfNode(r, RKHealthNodePedestal); bool ready = h && h->flag == RKHealthFlagReady; std::string s = ready ? h->string : ""; double ht = h ? h->timeDouble : 0; (void)ht; sim_atomic_end(); if (!ready) continue; sim_probe("pedestal healths"); CHECK(s.size() > 20 && s[0] == '{' && s.back() == '}' && std::count(s.begin(), s.end(), '{') == std::count(s.begin(), s.end(), '}'), "pedestal-health", "the health of the pedestal is '%.200s'", s.c_str());
        size_t a = s.find("\"Pedestal AZ\""); CHECK(a != std::string::npos, "pedestal-health", "the health of the pedestal lacks its azimuth"); std::string val = s.substr(a); val = val.substr(val.find("\"Value\":\"") + 9); bool none = val.compare(0, 2, "--") == 0;
        if (w.ped.fd < 0 && w.ped.downsince && sim_now() - w.ped.downsince > 4 * SEC && w.ped.downsince > w.ped.upsince) CHECK(none, "pedestal-health", "the health of the pedestal shows an azimuth of %.10s, %.1f s after it has left", val.c_str(), 1e-9 * (double)(sim_now() - w.ped.downsince));
        if (!none && !w.garbage && w.last.size()) { bool ok = false; char z[40]; for (auto it = w.last.rbegin(); it != w.last.rend() && !ok; ++it) { snprintf(z, sizeof z, "%.2f deg", it->azimuthDegrees); ok = val.compare(0, strlen(z), z) == 0; } CHECK(ok || (val.compare(0, 8, "0.00 deg") == 0 && w.first + 3 * SEC + 40 * (cfg.stall_hi + cfg.jitter_hi) > sim_now()), "pedestal-health", "an azimuth of %.12s that was not read", val.c_str()); } }
    w.stopping = true; sim_deadline(B, "stop-hang", "RKStop"); RKStop(r); sim_deadline_clear(); sim_probe("stops"); for (int o : ops) sim_join(o);
    CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); if (wl(2)) sim_sleep_ns(wl(500) * MS); sim_deadline(B, "free-hang", "RKFree"); RKFree(r); sim_deadline_clear(); w.fini = true; for (int t : th) sim_join(t); for (Dev *v : devs) if (v->ls >= 0) net_close(v->ls);
    CHECK(sim_live_code_threads() == 0, "thread", "threads left after the release:%s", sim_thread_dump().c_str()); CHECK(sim_unjoined_threads() == 0, "unjoined", "threads that were never joined are left"); CHECK(sim_open_fds() == 0 && sim_open_streams() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str()); size_t left = sim_heap_live_since(mark); (void)left; sim_hash(w.ped.handled);
}
