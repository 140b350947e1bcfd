// Driver of rksim: single runs, batches, minimisation and replay
#include "internal.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <fcntl.h>
#include <dirent.h>
#include <time.h>
#include <signal.h>
#include <set>
#include <algorithm>

char g_scratch[256];
static std::vector<Scenario> &scens(void) { static std::vector<Scenario> v; return v; }
void sim_register(const Scenario &s) { scens().push_back(s); }
static const Scenario *find(const std::string &n) { for (auto &s : scens()) if (n == s.name) return &s; return nullptr; }
static double wall(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int child_limit = 60;

static std::string esc(const char *s) { std::string o; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static const char *stn[] = {"running", "pass", "violation", "inconclusive", "harness"};

static void reset_result(void) { memset((void *)R, 0, offsetof(Result, dec)); R->ndec = 0; }
static void clean_scratch(void) { DIR *d = opendir(g_scratch); if (!d) return; struct dirent *e; while ((e = readdir(d))) if (e->d_name[0] == 'n') { std::string p = std::string(g_scratch) + "/" + e->d_name; unlink(p.c_str()); } closedir(d); }
static void execute(const Scenario *sc, uint64_t seed) {
    reset_result();
    pid_t pid = fork();
    if (pid == 0) {
        int nul = open("/dev/null", O_RDWR); dup2(nul, 1); dup2(nul, 0);
        struct itimerval it = {}; it.it_value.tv_sec = child_limit; setitimer(ITIMER_REAL, &it, nullptr);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        setenv("TZ", "UTC0", 1); tzset();
        core_init_run(seed); os_init(); core_run(sc->fn);
        _exit(9);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (R->status == ST_RUNNING) {
        R->status = ST_HARNESS; snprintf(R->key, sizeof R->key, "child-died"); snprintf(R->msg, sizeof R->msg, "child ended with status 0x%x", st);
    }
    clean_scratch();
}
static std::string run_json(const Scenario *sc, uint64_t seed) {
    char b[512]; std::string o = "{";
    snprintf(b, sizeof b, "\"scenario\":\"%s\",\"property\":\"%s\",\"seed\":%lu,\"status\":\"%s\",\"hash\":\"%016lx\",\"steps\":%lu,\"switches\":%lu,\"preempts\":%lu,\"calls\":%lu,\"vtime\":%.6f,\"threads\":%d,\"ndec\":%d,", sc->name, sc->property, seed, stn[R->status], R->hash, R->steps, R->switches, R->preempts, R->calls, R->vtime * 1e-9 - 1000, R->nthreads, R->ndec); o += b;
    o += "\"key\":\"" + esc(R->key) + "\",\"msg\":\"" + esc(R->msg) + "\",\"params\":{";
    for (int i = 0; i < R->nparam; i++) { snprintf(b, sizeof b, "%s\"%s\":%ld", i ? "," : "", R->param[i].name, R->param[i].val); o += b; }
    o += "},\"faults\":{"; for (int i = 0; i < R->nfault; i++) { snprintf(b, sizeof b, "%s\"%s\":%lu", i ? "," : "", R->fault[i].name, R->fault[i].n); o += b; }
    o += "},\"probes\":{"; for (int i = 0; i < R->nprobe; i++) { snprintf(b, sizeof b, "%s\"%s\":%lu", i ? "," : "", R->probe[i].name, R->probe[i].n); o += b; }
    o += "}}"; return o;
}
static uint64_t mix(uint64_t a) { a ^= a >> 33; a *= 0xff51afd7ed558ccdULL; a ^= a >> 33; a *= 0xc4ceb9fe1a85ec53ULL; a ^= a >> 33; return a; }
static uint64_t seed_of(uint64_t base, const std::string &sc, uint64_t i) { uint64_t h = mix(base + 0x1234567); for (char c : sc) h = mix(h ^ (uint8_t)c); return mix(h ^ mix(i)) & 0xffffffffffffULL; }

struct Snap { int status; std::string key; uint64_t hash; std::vector<Decision> dec; bool overflow; std::vector<ParamRec> par; std::string msg; };
static Snap snap(void) { Snap s; s.status = R->status; s.key = R->key; s.hash = R->hash; s.dec.assign(R->dec, R->dec + R->ndec); s.overflow = R->dec_overflow; s.par.assign(R->param, R->param + R->nparam); s.msg = R->msg; return s; }
static Snap go(const Scenario *sc, uint64_t seed, bool replay, const std::map<std::string, int64_t> &par, const std::vector<Decision> *dec) {
    g_replay = replay; g_rparam = par; g_rdec.clear(); if (dec) for (auto &d : *dec) g_rdec[d.key] = d.val;
    execute(sc, seed); return snap();
}
static void write_replay(const char *path, const Scenario *sc, uint64_t seed, bool replay, const std::map<std::string, int64_t> &par, const std::vector<Decision> &dec, const Snap &s, const std::string &faults) {
    FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
    fprintf(f, "rksim-replay 1\nscenario %s\nproperty %s\nseed %lu\nmode %s\nkey %s\nhash %016lx\n", sc->name, sc->property, seed, replay ? "decisions" : "seed", s.key.c_str(), s.hash);
    for (auto &p : par) fprintf(f, "param %s %ld\n", p.first.c_str(), p.second);
    static const char kn[] = "SBATJFN";
    if (replay) for (auto &d : dec) fprintf(f, "choice %c %lu %lu\n", kn[d.key >> 56], d.key & 0xffffffffffffffULL, d.val);
    std::string m = s.msg; size_t i = 0; while (i < m.size()) { size_t j = m.find('\n', i); if (j == std::string::npos) j = m.size(); fprintf(f, "# %s\n", m.substr(i, j - i).c_str()); i = j + 1; }
    fprintf(f, "# faults fired: %s\n", faults.c_str());
    fclose(f);
}
static std::string fired(void) { std::string o; char b[100]; for (int i = 0; i < R->nfault; i++) { snprintf(b, sizeof b, "%s%s x%lu", i ? ", " : "", R->fault[i].name, R->fault[i].n); o += b; } return o.empty() ? "none" : o; }

static int cmd_minimize(const Scenario *sc, uint64_t seed, const char *out, double tl) {
    double t0 = wall(); int runs = 0;
    std::map<std::string, int64_t> par;
    Snap a = go(sc, seed, false, par, nullptr), b = go(sc, seed, false, par, nullptr);
    if (a.status != ST_VIOLATION) { printf("{\"ok\":false,\"why\":\"no violation on rerun\"}\n"); return 0; }
    if (b.status != ST_VIOLATION || a.hash != b.hash || a.key != b.key) { printf("{\"ok\":false,\"why\":\"not repeatable: %s %016lx / %s %016lx\"}\n", a.key.c_str(), a.hash, b.key.c_str(), b.hash); return 0; }
    std::string key = a.key;
    for (auto &p : a.par) par[p.name] = p.val;
    // parameters, in seeded mode
    Snap best = a;
    for (int pass = 0; pass < 2; pass++) for (auto &p : a.par) {
        int64_t cur = par[p.name];
        for (int64_t v : {p.lo, p.lo + (cur - p.lo) / 4, p.lo + (cur - p.lo) / 2, cur - 1}) {
            if (v >= cur || v < p.lo || wall() - t0 > tl * 0.4) continue;
            auto q = par; q[p.name] = v; Snap s = go(sc, seed, false, q, nullptr); runs++;
            if (s.status == ST_VIOLATION && s.key == key) { par = q; best = s; break; }
        }
    }
    bool replay = false; std::vector<Decision> dec;
    size_t before = best.dec.size();
    if (!best.overflow) {
        Snap s = go(sc, seed, true, par, &best.dec); runs++;
        if (s.status == ST_VIOLATION && s.key == key) {
            replay = true; dec = s.dec; best = s;
            size_t chunk = (dec.size() + 1) / 2;
            { std::vector<Decision> none; Snap z = go(sc, seed, true, par, &none); runs++; if (z.status == ST_VIOLATION && z.key == key) { dec.clear(); best = z; } }
            while (chunk >= 1 && !dec.empty() && wall() - t0 < tl) {
                bool any = false;
                for (size_t i = 0; i < dec.size() && wall() - t0 < tl;) {
                    std::vector<Decision> q(dec.begin(), dec.begin() + i); size_t e = std::min(dec.size(), i + chunk); q.insert(q.end(), dec.begin() + e, dec.end());
                    Snap z = go(sc, seed, true, par, &q); runs++;
                    if (z.status == ST_VIOLATION && z.key == key) { dec = q; best = z; any = true; } else i = e;
                }
                if (chunk == 1 && !any) break;
                if (chunk > 1) chunk = (chunk + 1) / 2; else if (!any) break;
            }
        }
    }
    // confirm the final form twice
    Snap f1 = go(sc, seed, replay, par, &dec); std::string ff = fired(); Snap f2 = go(sc, seed, replay, par, &dec);
    bool ok = f1.status == ST_VIOLATION && f2.status == ST_VIOLATION && f1.key == key && f1.hash == f2.hash;
    write_replay(out, sc, seed, replay, par, dec, f1, ff);
    printf("{\"ok\":%s,\"key\":\"%s\",\"hash\":\"%016lx\",\"runs\":%d,\"decisions_before\":%zu,\"decisions\":%zu,\"mode\":\"%s\",\"msg\":\"%s\"}\n", ok ? "true" : "false", esc(key.c_str()).c_str(), f1.hash, runs, before, dec.size(), replay ? "decisions" : "seed", esc(f1.msg.c_str()).c_str());
    return 0;
}
static int cmd_replay(const char *path) {
    FILE *f = fopen(path, "r"); if (!f) { perror(path); return 3; }
    char line[65536]; std::string scn, key, mode; uint64_t seed = 0, hash = 0; std::map<std::string, int64_t> par; std::vector<Decision> dec; static const char kn[] = "SBATJFN";
    while (fgets(line, sizeof line, f)) {
        char a[200], k; uint64_t x, y; int64_t v; line[strcspn(line, "\n")] = 0;
        if (sscanf(line, "scenario %199s", a) == 1) scn = a; else if (sscanf(line, "seed %lu", &seed) == 1) {} else if (sscanf(line, "mode %199s", a) == 1) mode = a; else if (!strncmp(line, "key ", 4)) key = line + 4; else if (sscanf(line, "hash %lx", &hash) == 1) {} else if (sscanf(line, "param %199s %ld", a, &v) == 2) par[a] = v; else if (sscanf(line, "choice %c %lu %lu", &k, &x, &y) == 3) { const char *q = strchr(kn, k); if (q) dec.push_back({(uint64_t)(q - kn) << 56 | x, y}); }
    }
    fclose(f);
    const Scenario *sc = find(scn); if (!sc) { fprintf(stderr, "no scenario %s\n", scn.c_str()); return 3; }
    Snap s = go(sc, seed, mode == "decisions", par, &dec);
    printf("%s\n", run_json(sc, seed).c_str());
    bool same = s.status == ST_VIOLATION && s.key == key;
    printf("REPLAY %s key=%s hash=%016lx expected=%016lx %s\n", same ? "reproduced" : "NOT reproduced", s.key.c_str(), s.hash, hash, s.hash == hash ? "identical" : "DIFFERENT");
    return same && s.hash == hash ? 1 : same ? 2 : 0;
}
int main(int argc, char **argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    heap_init();
    std::map<std::string, std::string> o; std::map<std::string, int64_t> par; std::string cmd = argc > 1 ? argv[1] : "list"; bool check_twice = false;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a == "-v") sim_verbose = 1; else if (a == "--twice") check_twice = true;
        else if (a == "-p" && i + 1 < argc) { std::string q = argv[++i]; size_t e = q.find('='); par[q.substr(0, e)] = atoll(q.c_str() + e + 1); }
        else if (a.substr(0, 2) == "--" && i + 1 < argc) o[a.substr(2)] = argv[++i];
        else o["arg"] = a;
    }
    snprintf(g_scratch, sizeof g_scratch, "/dev/shm/rksim.XXXXXX"); if (!mkdtemp(g_scratch)) { snprintf(g_scratch, sizeof g_scratch, "/tmp/rksim.XXXXXX"); if (!mkdtemp(g_scratch)) return 3; }
    struct Cleanup { ~Cleanup() { clean_scratch(); rmdir(g_scratch); } } cleanup;
    if (o.count("wall")) child_limit = atoi(o["wall"].c_str());
    if (cmd == "list") { for (auto &s : scens()) printf("%s %s\n", s.name, s.property); return 0; }
    if (cmd == "replay") return cmd_replay(o["arg"].c_str());
    const Scenario *sc = find(o["scenario"]); if (!sc) { fprintf(stderr, "no scenario '%s'\n", o["scenario"].c_str()); return 3; }
    uint64_t seed = strtoull(o["seed"].c_str(), nullptr, 0);
    if (cmd == "run") {
        go(sc, seed, false, par, nullptr); printf("%s\n", run_json(sc, seed).c_str());
        if (check_twice) { uint64_t h = R->hash; go(sc, seed, false, par, nullptr); printf("second hash %016lx %s\n", R->hash, h == R->hash ? "same" : "DIFFERENT"); }
        return R->status == ST_VIOLATION;
    }
    if (cmd == "minimize") { child_limit = 30; return cmd_minimize(sc, seed, o["out"].c_str(), o.count("tlimit") ? atof(o["tlimit"].c_str()) : 40); }
    if (cmd == "batch") {
        uint64_t base = strtoull(o["base"].c_str(), nullptr, 0), first = strtoull(o["first"].c_str(), nullptr, 0), stride = std::max<uint64_t>(1, strtoull(o["stride"].c_str(), nullptr, 0)), count = strtoull(o["count"].c_str(), nullptr, 0);
        double tl = atof(o["tlimit"].c_str()), t0 = wall(); int maxv = o.count("maxviol") ? atoi(o["maxviol"].c_str()) : 3, nv = 0;
        uint64_t runs = 0, pass = 0, inc = 0, harness = 0, steps = 0, sw = 0, pre = 0, calls = 0, nondet = 0, twice = 0; double vt = 0; std::map<std::string, uint64_t> faults, probes, incs, fruns; std::vector<uint64_t> hashes; static uint8_t cov[COVBITS / 8]; uint64_t choices[K_COUNT] = {};
        std::string sample;
        for (uint64_t i = first; i < count && wall() - t0 < tl; i += stride) {
            uint64_t s = seed_of(base, sc->name, i);
            go(sc, s, false, par, nullptr);
            runs++; steps += R->steps; sw += R->switches; pre += R->preempts; calls += R->calls; vt += R->vtime ? R->vtime * 1e-9 - 1000 : 0;
            for (int k = 0; k < R->nfault; k++) { faults[R->fault[k].name] += R->fault[k].n; fruns[R->fault[k].name]++; } for (int k = 0; k < R->nprobe; k++) probes[R->probe[k].name] += R->probe[k].n;
            for (int k = 0; k < K_COUNT; k++) choices[k] += R->nchoice[k];
            for (size_t k = 0; k < sizeof cov; k++) cov[k] |= R->cov[k];
            if ((R->status == ST_PASS || R->status == ST_VIOLATION) && R->switches > 2 && R->ndec > 0 && R->nprobe > 0) hashes.push_back((uint64_t)R->hash);
            std::string js = run_json(sc, s); uint64_t h = R->hash; int st = R->status;
            if (st == ST_PASS) { pass++; if (sample.empty()) sample = js; }
            else if (st == ST_INCONCLUSIVE) { inc++; incs[R->key]++; if (incs[R->key] <= 2) printf("INCONCLUSIVE %s\n", js.c_str()); }
            else if (st == ST_HARNESS) { harness++; if (harness <= 2) printf("HARNESS %s\n", js.c_str()); }
            else { printf("VIOL %s\n", js.c_str()); if (++nv >= maxv) break; }
            if (i % 16 == first % 16 && (runs % 16) == 1 && st == ST_PASS) { twice++; go(sc, s, false, par, nullptr); if (R->hash != h) { nondet++; printf("NONDET %lu %016lx %016lx\n", s, h, R->hash); } }
        }
        printf("SUMMARY {\"scenario\":\"%s\",\"runs\":%lu,\"pass\":%lu,\"inconclusive\":%lu,\"harness\":%lu,\"violations\":%d,\"steps\":%lu,\"switches\":%lu,\"preempts\":%lu,\"calls\":%lu,\"vtime\":%.3f,\"wall\":%.3f,\"checked_twice\":%lu,\"nondeterministic\":%lu,\"faults\":{", sc->name, runs, pass, inc, harness, nv, steps, sw, pre, calls, vt, wall() - t0, twice, nondet);
        bool c = false; for (auto &k : faults) { printf("%s\"%s\":%lu", c ? "," : "", k.first.c_str(), k.second); c = true; }
        printf("},\"probes\":{"); c = false; for (auto &k : probes) { printf("%s\"%s\":%lu", c ? "," : "", k.first.c_str(), k.second); c = true; }
        printf("},\"choices\":["); for (int k = 0; k < K_COUNT; k++) printf("%s%lu", k ? "," : "", choices[k]);
        printf("],\"hashes\":["); for (size_t k = 0; k < hashes.size(); k++) printf("%s\"%lx\"", k ? "," : "", hashes[k]);
        printf("],\"cov\":\""); for (size_t k = 0; k < sizeof cov; k += 8) { uint64_t v; memcpy(&v, cov + k, 8); if (v) printf("%zx:%lx;", k / 8, v); }
        printf("\",\"sample\":%s}\n", sample.empty() ? "null" : sample.c_str());
        return 0;
    }
    return 3;
}
