// C19: host reachability reflects recent replies, for every host, within a bound
#include "rk.h"
namespace {
struct Probe { ns_t t; uint16_t seq; int sock; };
struct Host {
    std::string name; uint32_t ip; int ix;
    // the network's part: how this host answers now
    bool alive = false, badsock = false; ns_t rtt = 0, rttj = 0; double loss = 0, dup = 0, corrupt = 0, foreign = 0, unsolicited = 0, replay = 0; bool ipheader = false;
    // what happened
    std::map<uint16_t, Probe> probes; std::deque<std::string> old; int sock = -1, session = 0; uint16_t lastseq = 0, answered = 0; bool any = false, first = true; ns_t lastprobe = 0;
    ns_t valid = 0, corrupted = 0, start = 0, reach = 0, dnsok = 0; int status = -1; bool seen = false; ns_t skip = 0, since = 0; uint64_t nprobe = 0, nvalid = 0;
};
uint16_t csum(const std::string &s) { uint32_t a = 0; for (size_t i = 0; i + 1 < s.size(); i += 2) { uint16_t w; memcpy(&w, s.data() + i, 2); a += w; } if (s.size() & 1) a += (uint8_t)s.back(); a = (a >> 16) + (a & 0xffff); a += a >> 16; return (uint16_t)~a; }
std::string echo(int type, int code, uint16_t id, uint16_t seq, const std::string &rest, bool bad) { std::string d(8, 0); d[0] = (char)type; d[1] = (char)code; memcpy(&d[4], &id, 2); memcpy(&d[6], &seq, 2); d += rest; uint16_t c = csum(d); if (bad) c ^= (uint16_t)(1 + wl(65534)); memcpy(&d[2], &c, 2); return d; }
std::string with_header(const std::string &d, uint32_t from, int words) { std::string h((size_t)words * 4, 0); h[0] = (char)(0x40 | words); h[9] = 1; uint32_t n = htonl(from); memcpy(&h[12], &n, 4); return h + d; }
}
SCENARIO(hosts, "C19") {
    rk_quiet(); chaos(); cfg.max_vtime = 4000 * SEC; cfg.stall_hi = std::min<ns_t>(cfg.stall_hi, 10 * MS); cfg.jitter_hi = std::min<ns_t>(cfg.jitter_hi, 20 * MS);
    std::deque<Host> hosts; int extra = (int)P("hosts", 0, 4); if (extra == 4) extra = 9; bool allfail = Pbool("sockfail", 0.2), jumps = Pbool("clock", 0.4), tfail = Pbool("threadfail", 0.15), hdr = Pbool("ipheader", 0.2); int chaosl = (int)P("bad", 0, 3), rounds = (int)P("rounds", 1, 3);
    const ns_t I = RKHostMonitorPingInterval * SEC, D = 600 * MS + 60 * cfg.stall_hi + 20 * cfg.jitter_hi;
    auto add = [&](const std::string &n) { hosts.emplace_back(); Host &h = hosts.back(); h.name = n; h.ix = (int)hosts.size() - 1; h.ip = 0x0a010000 + (uint32_t)hosts.size(); dns_table[n] = h.ip; };
    add("www.ou.edu"); add("8.8.8.8"); for (int i = 0; i < extra; i++) { std::string n = "host-" + std::to_string(i); if (i == 2) n += std::string(RKNameLength - 1 - n.size(), 'x'); add(n); }
    bool fini = false; size_t mark = sim_heap_mark();
    RKHostMonitor *m = RKHostMonitorInit(); CHECK(m, "init", "no monitor"); if (wl(4) == 0) RKHostMonitorSetVerbose(m, 3); for (size_t i = 2; i < hosts.size(); i++) RKHostMonitorAddHost(m, hosts[i].name.c_str()); CHECK(m->workerCount == (int)hosts.size(), "add", "%d hosts", m->workerCount); for (Host &h : hosts) CHECK(h.name == m->hosts[h.ix], "add", "host %d is %.40s", h.ix, m->hosts[h.ix]);
    bool live = false; int phase = 0; ns_t agreed = 0;
    auto find = [&](uint32_t ip) -> Host * { for (Host &h : hosts) if (h.ip == ip) return &h; return nullptr; };
    // a reply is under way: credit it when it arrives
    auto reply = [&](Host &h, int sock, const std::string &d, ns_t delay, uint32_t from, int kind, uint16_t seq) { if (auto it = h.probes.find(seq); kind == 0 && it != h.probes.end()) { ns_t age = sim_now() + delay - it->second.t; if (age > 3 * I - D && age < 3 * I + D) delay += 2 * D; } icmp_deliver(sock, from, hdr && h.ipheader ? with_header(d, from, 5) : d, delay); int ses = h.session; sim_at(sim_now() + delay, [&h, kind, seq, ses, sock, I, D] { sim_note("%s: reply kind %d seq %u sock %d/%d", h.name.c_str(), kind, seq, sock, h.sock); if (ses != h.session || sock != h.sock || !icmp_open(sock)) return; ns_t now = sim_now();
        if (kind == 1) { h.corrupted = now; return; } if (kind != 0) return; auto it = h.probes.find(seq); if (it == h.probes.end() || now - it->second.t >= 3 * I) return; if (h.any && (int16_t)(seq - h.answered) <= 0) { if (now < h.skip) h.skip = now + 3 * I + 2 * D; return; } /* the first copy may have been lost with a closed socket */ h.any = true; h.answered = seq; h.valid = now; h.skip = 0; h.nvalid++; sim_probe("replies credited"); }); };
    icmp_send_error = [&](int sock) { for (Host &h : hosts) if (h.badsock && h.sock == sock) { sim_note("%s: send fails on %d", h.name.c_str(), sock); sim_fault_note("sendto fails"); return ENETUNREACH; } return 0; };
    icmp_hook = [&](const IcmpSend &s) {
        Host *hp = find(s.ip); CHECK(hp, "probe", "a probe is sent to %08x, which is nobody's address", s.ip); Host &h = *hp; CHECK(s.data.size() >= 8, "probe", "a probe of %zu bytes", s.data.size()); CHECK((uint8_t)s.data[0] == 8 && s.data[1] == 0, "probe", "a probe that is no echo request"); CHECK(csum(s.data) == 0, "probe", "a probe with a wrong checksum"); uint16_t id, seq; memcpy(&id, &s.data[4], 2); memcpy(&seq, &s.data[6], 2);
        if (s.sock != h.sock) { h.sock = s.sock; h.lastprobe = 0; } else CHECK(!h.lastprobe || sim_now() - h.lastprobe > 500 * MS, "flood", "%s is probed again after %.3f s", h.name.c_str(), 1e-9 * (double)(sim_now() - h.lastprobe));
        for (auto &p : h.probes) CHECK(p.first != seq || sim_now() - p.second.t > 20 * I, "probe", "two probes with the number %u", seq); h.lastprobe = sim_now(); h.lastseq = seq; h.nprobe++; h.probes[seq] = {sim_now(), seq, s.sock}; if (h.probes.size() > 80) { uint16_t o = h.probes.begin()->first; ns_t t = ~0ULL; for (auto &p : h.probes) if (p.second.t < t) { t = p.second.t; o = p.first; } h.probes.erase(o); }
        std::string rest = s.data.substr(8); std::string good = echo(0, 0, wl(8) ? id : (uint16_t)wl(65536), seq, rest, false); ns_t d = h.rtt + (h.rttj ? (ns_t)wl(h.rttj) : 0);
        if (h.alive) { if (wlf() < h.loss) sim_fault_note("reply lost"); else if (wlf() < h.corrupt) { sim_fault_note("reply damaged"); bool c = wl(3) == 0; reply(h, s.sock, echo(0, c ? 1 + (int)wl(255) : 0, id, seq, rest, !c), d, h.ip, 1, seq); } else { reply(h, s.sock, good, d, h.ip, 0, seq); h.old.push_back(good); if (h.old.size() > 20) h.old.pop_front(); if (wlf() < h.dup) { sim_fault_note("reply duplicated"); reply(h, s.sock, good, d + (ns_t)wl(6000) * MS, h.ip, 0, seq); } } }
        if (wlf() < h.foreign) { sim_fault_note("reply of another host"); uint32_t from = wl(2) ? hosts[wl(hosts.size())].ip : 0x7f000001; if (from != h.ip) reply(h, s.sock, good, (ns_t)wl(3000) * MS, from, 2, seq); }
        if (wlf() < h.unsolicited) { sim_fault_note("unsolicited reply"); uint16_t q = (uint16_t)(wl(2) ? seq + 1 + wl(200) : seq - 65 - wl(30000)); auto it = h.probes.find(q); if (it == h.probes.end()) { int w = (int)wl(3); reply(h, s.sock, w == 0 ? echo(8, 0, id, seq, rest, false) : w == 1 ? echo(3, 1, id, seq, rest, false) : echo(0, 0, id, q, rest, false), (ns_t)wl(400) * MS, h.ip, 2, q); } }
        if (wlf() < h.replay && !h.old.empty()) { sim_fault_note("old reply repeated"); std::string o = h.old[wl(h.old.size())]; uint16_t q; memcpy(&q, &o[6], 2); reply(h, s.sock, o, (ns_t)wl(2000) * MS, h.ip, 0, q); }
        if (wl(30) == 0 && chaosl) { sim_fault_note("odd datagram"); reply(h, s.sock, std::string(1 + wl(43), (char)(1 + wl(255))), (ns_t)wl(100) * MS, h.ip, 3, 0); } };
    auto mood = [&](Host &h) { sim_note("%s: next phase", h.name.c_str()); // the next phase of a host
        h.alive = wl(3) != 0; h.rtt = (ns_t[]){1, 30, 300, 2000, 9000, 16000 + (ns_t)D / MS}[wl(chaosl ? 6 : 3)] * MS; h.rttj = (ns_t[]){0, 5, 500}[wl(3)] * MS; if (h.rtt > 10 * SEC) h.rttj = 0; double a = (double[]){0, 0.1, 0.4, 0.9}[chaosl]; h.loss = wl(2) ? a * wlf() : 0; h.dup = wl(2) ? a : 0; h.corrupt = wl(3) == 0 ? a : 0; h.foreign = wl(3) == 0 ? a : 0; h.unsolicited = wl(3) == 0 ? a : 0; h.replay = wl(3) == 0 ? a : 0; h.badsock = chaosl && wl(6) == 0; h.ipheader = wl(2); if (chaosl && wl(8) == 0) { dns_table[h.name] = 0; } else { if (!dns_table[h.name]) h.dnsok = sim_now(); dns_table[h.name] = h.ip; } };
    auto judge = [&] { // the invariant, at any moment while it is live
        sim_atomic_begin(); ns_t now = sim_now(); bool unchanged = true, known = true, all = true, some = false;
        for (Host &h : hosts) { int s = m->workers[h.ix].hostStatus; if (s != h.status) { sim_note("%s: state %d", h.name.c_str(), s); h.status = s; h.since = now; } if (now - h.since < D) unchanged = false; known &= s != RKHostStatusUnknown; bool ok = s == RKHostStatusReachable || s == RKHostStatusReachableUnusual; all &= ok; some |= ok;
            ns_t v = h.any ? now - h.valid : ~0ULL >> 1, u = h.corrupted ? now - h.corrupted : ~0ULL >> 1, run = now - h.start; const char *nm[] = {"unknown", "unreachable", "partially reachable", "unusual", "reachable"}; bool fresh = v <= D || u <= D; bool can = dns_table[h.name] && !h.badsock && cfg.p_sock_fail == 0; if (!can) h.reach = now; bool open = h.sock >= 0 && icmp_open(h.sock); if (h.seen && !open && (v < 2 * D || u < 2 * D)) h.skip = now + 3 * I + 2 * D; h.seen = open; if (now < h.skip) continue; /* the socket was closed with a reply in it */ CHECK(s >= 0 && s <= 4, "status", "status %d", s); char age[100]; snprintf(age, sizeof age, "%s: %s; latest good reply %.2f s ago, latest damaged reply %.2f s ago, started %.2f s ago", h.name.c_str(), nm[s], h.any ? 1e-9 * (double)v : -1.0, h.corrupted ? 1e-9 * (double)u : -1.0, 1e-9 * (double)run);
            if (s == RKHostStatusReachable) CHECK(v <= I * 3 / 2 + D, "credit", "%s", age);
            if (s == RKHostStatusReachableUnusual) CHECK(u <= I * 3 / 2 + D, "credit", "%s", age);
            if (s == RKHostStatusUnknown) CHECK((fresh || v > (ns_t)1 << 60) && run <= 3 * I + D, "unknown", "%s", age);
            if (s == RKHostStatusUnreachable) CHECK((fresh || v >= 3 * I - D) && run >= 3 * I - D, "unreachable", "%s", age);
            if (s == RKHostStatusPartiallyReachable) CHECK(fresh || (h.any && v >= I * 3 / 2 - D && v <= 3 * I + D), "partial", "%s", age);
            if (v > D && v < I * 3 / 2 - D) { CHECK(s == RKHostStatusReachable, "missed", "%s", age); sim_probe("reachable judged"); }
            if (v > 3 * I + D && run > 3 * I + D && u > I * 3 / 2 + D) { CHECK(s == RKHostStatusUnreachable, "stale", "%s", age); sim_probe("unreachable judged"); }
            if (now - h.reach > I + 2 * SEC + D && run > I + 2 * SEC + D) CHECK(h.lastprobe && now - h.lastprobe <= I + D, "silent", "%s is not probed for %.1f s", h.name.c_str(), 1e-9 * (double)(now - h.lastprobe)); }
        bool agree = m->allKnown == known && m->allReachable == all && m->anyReachable == some; if (agree) agreed = now; if (unchanged) { CHECK(now - agreed < D, "combined", "combined: known %d all %d any %d, from the hosts: %d %d %d", m->allKnown, m->allReachable, m->anyReachable, known, all, some); sim_probe("combined indications judged"); }
        sim_atomic_end(); };
    int aux = jumps ? sim_spawn("clock", [&] { while (!fini) { sim_sleep_ns((ns_t)wl(6000) * MS); sim_fault_note("clock jump"); sim_wall_jump((int64_t)((wlf() - 0.5) * 20000 * (double)SEC)); } }) : -1;
    int net = sim_spawn("network", [&] { while (!fini) { for (Host &h : hosts) if (wl(3) == 0) mood(h); sim_sleep_ns((ns_t)(1000 + wl(25000)) * MS); phase++; } });
    for (int r = 0; r < rounds; r++) {
        for (Host &h : hosts) { mood(h); h.session++; h.sock = -1; h.any = h.seen = false; h.skip = h.corrupted = 0; h.probes.clear(); h.old.clear(); h.lastprobe = 0; h.reach = h.since = h.start = sim_now(); h.status = -1; }
        if (tfail && r + 1 < rounds) { cfg.p_thread_fail = 0.5; sim_deadline(10 * SEC + D, "blocked", "starting without threads"); int k = RKHostMonitorStart(m); sim_deadline_clear(); cfg.p_thread_fail = 0; if (k) { CHECK(sim_live_code_threads() == 0, "thread", "threads left after a failed start:%s", sim_thread_dump().c_str()); CHECK(sim_open_fds() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str()); sim_probe("failed starts"); continue; } }
        else { sim_deadline(10 * SEC + D, "blocked", "starting the monitor"); int k = RKHostMonitorStart(m); sim_deadline_clear(); CHECK(k == RKResultSuccess, "start", "the monitor does not start: %d", k); if (wl(6) == 0) { RKHostMonitorStart(m); } }
        if (r) sim_probe("restarts"); for (Host &h : hosts) h.reach = h.since = h.start = agreed = sim_now();
        live = true; cfg.p_sock_fail = allfail ? 0.5 : 0; ns_t t0 = sim_now(), dur = wl(4) == 0 ? (ns_t)wl(3000) * MS : (ns_t)(20 + wl(100)) * SEC;
        while (sim_now() - t0 < dur) { sim_sleep_ns(100 * MS + (ns_t)wl(50) * MS); if (cfg.p_sock_fail > 0 && sim_now() - t0 > 30 * SEC) cfg.p_sock_fail = 0; judge(); }
        if (wl(3) == 0 && dur > 10 * SEC) { // faults stop: everybody who answers becomes reachable, the others unreachable
            sim_atomic_begin(); cfg.p_sock_fail = 0; for (Host &h : hosts) { h.alive = wl(2); h.rtt = 20 * MS; h.rttj = 0; h.loss = h.dup = h.corrupt = h.foreign = h.unsolicited = h.replay = 0; h.badsock = false; dns_table[h.name] = h.ip; h.session += 0; } int ph = phase; sim_atomic_end();
            ns_t t = sim_now(); while (sim_now() - t < 12 * SEC + 2 * D && ph == phase) { sim_sleep_ns(100 * MS); judge(); } if (ph == phase) for (Host &h : hosts) if (h.alive) { CHECK(m->workers[h.ix].hostStatus == RKHostStatusReachable, "recover", "%s answers every probe for 12 s and is in state %d", h.name.c_str(), m->workers[h.ix].hostStatus); sim_probe("recoveries"); } }
        live = false; sim_deadline(3 * SEC + D, "blocked", "stopping the monitor"); RKHostMonitorStop(m); sim_deadline_clear(); CHECK(sim_live_code_threads() == 0, "thread", "threads left:%s", sim_thread_dump().c_str()); CHECK(sim_unjoined_threads() == 0, "unjoined", "threads that were never joined are left"); CHECK(sim_open_fds() == 0, "leak", "descriptors left:%s", sim_fd_dump().c_str()); if (wl(3) == 0) RKHostMonitorStop(m); cfg.p_sock_fail = 0; }
    fini = true; if (aux >= 0) sim_join(aux); sim_join(net); RKHostMonitorFree(m); CHECK(sim_heap_live_since(mark) == 0, "memory", "memory left:%s", sim_heap_dump(mark).c_str());
    uint64_t n = 0; for (Host &h : hosts) n += h.nvalid; sim_hash(n); icmp_hook = nullptr; icmp_send_error = nullptr; rk_quiet();
}
