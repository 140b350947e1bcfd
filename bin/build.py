#!/usr/bin/env python3
"""Builds the simulator with /repo's current sources: build.build(scenario_files) -> path of the rksim binary."""
import concurrent.futures, glob, hashlib, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RKSIM_REPO", "/repo")
B = os.path.join(V, "build")
CF = ["-O1", "-g", "-std=c11", "-w", "-fno-pie", "-march=haswell", "-mfpmath=sse", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE",
      "-fno-builtin-printf", "-fno-builtin-fprintf", "-fno-builtin-puts", "-fno-stack-protector", "-fno-omit-frame-pointer",
      "-femulated-tls", "-fsanitize-coverage=func,trace-loads,trace-stores"]
XF = ["-O2", "-g", "-std=gnu++17", "-w", "-fno-pie", "-march=haswell", "-D_GNU_SOURCE"]
PURE = set("""atan2 atan2f cos cosf exp expf fmod fmodf log log10 log10f log2 log2f logf pow powf round roundf sin sinf sincos sincosf sqrt sqrtf tan tanf
floor floorf ceil ceilf fabs fabsf lround lroundf lrint lrintf rint rintf nearbyint nearbyintf trunc truncf hypot hypotf fmin fmax fminf fmaxf ldexp frexp modf modff cexp cexpf cabs cabsf carg cargf asin asinf acos acosf atan atanf sinh cosh tanh cbrt exp2 exp2f
memcmp memchr memrchr memmem strcasecmp strcasestr strchr strcmp strcspn strftime strlen strnlen strncasecmp strncmp strptime strrchr strspn strpbrk strsep strstr strtod strtof strtok strtok_r strtol strtoll strtoul strtoull strerror strerror_r strcoll index rindex bzero bcmp
sscanf __isoc99_sscanf __isoc23_sscanf __isoc23_strtol __isoc23_strtoll __isoc23_strtoul __isoc23_strtoull atoi atof atol atoll qsort bsearch abs labs toupper tolower isalpha isdigit isspace isprint isalnum isupper islower ispunct isxdigit __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc
gmtime gmtime_r localtime localtime_r mktime timegm difftime asctime ctime tzset inet_addr inet_ntoa inet_pton inet_ntop inet_aton htons htonl ntohs ntohl basename dirname __xpg_basename div ldiv
fftwf_destroy_plan fftwf_execute fftwf_execute_dft fftwf_export_wisdom_to_string fftwf_cleanup stderr stdin stdout __errno_location __h_errno_location h_errno __stack_chk_fail _GLOBAL_OFFSET_TABLE_ __assert_fail herror hstrerror gai_strerror
memccpy mempcpy __memcpy_chk va_end strlcpy strlcat environ optarg optind opterr getopt getopt_long __isoc23_strtoimax pthread_mutexattr_init pthread_mutexattr_settype pthread_mutexattr_destroy sched_get_priority_max sched_get_priority_min
sem_failed nc_strerror nc_def_dim nc_def_var nc_get_att nc_get_att_double nc_get_att_float nc_get_att_int nc_get_att_long nc_get_att_text nc_get_var_float nc_inq_attlen nc_inq_varndims nc_inq_vardimid nc_inq_dim nc_inq_var nc_inq nc_inq_att nc_inq_ndims nc_inq_nvars nc_inq_varname nc_inq_vartype nc_inq_dimlen nc_inq_dimname nc_get_vara_float nc_get_var nc_get_var_double nc_inq_dimid nc_inq_dimlen nc_inq_varid nc_put_att_double nc_put_att_float nc_put_att_int nc_put_att_long nc_put_att_text nc_inq_att nc_inq_varname nc_inq_var nc_inq_dim nc_inq nc_get_var_double nc_get_var_int nc_put_var_double nc_put_var_int nc_redef nc_sync nc_put_att nc_set_fill
__popcountdi2 __muldc3 __mulsc3 __divsc3 __divdc3 __powisf2 __powidf2""".split())

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stdout.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd)[:600], r.stdout[-6000:]))
        raise SystemExit(3)
    return r.stdout

def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

def redirects():
    m = []
    for w in open(os.path.join(V, "sim", "redirect.txt")).read().split():
        a, _, b = w.partition("=")
        m.append((a, "sim_" + (b or a)))
    return m

def build(scen, quiet=True):
    os.makedirs(os.path.join(B, "cache"), exist_ok=True)
    hdr = sorted(glob.glob(REPO + "/headers/*.h") + glob.glob(REPO + "/headers/*/*.h"))
    src = sorted(glob.glob(REPO + "/source/*.c") + glob.glob(REPO + "/source/*.h"))
    hdr += [s for s in src if s.endswith(".h")] + sorted(glob.glob(REPO + "/source/*/*.[ch]")); src = [s for s in src if s.endswith(".c")]
    inc = ["-I" + REPO + "/headers", "-I" + REPO + "/headers/RadarKit"]
    hd = digest(hdr, " ".join(CF + XF))
    simh = sorted(glob.glob(V + "/sim/*.h") + glob.glob(V + "/scen/*.h"))
    jobs = []; robj = []; sobj = []
    for s in src:
        o = "%s/cache/%s_%s.o" % (B, os.path.basename(s)[:-2], digest([s], hd)); robj.append(o)
        if not os.path.exists(o): jobs.append((["clang"] + CF + inc + ["-c", s, "-o", o + ".tmp%d" % os.getpid()], o))
    sd = digest(simh, hd)
    for s in [V + "/sim/core.cpp", V + "/sim/os.cpp", V + "/sim/main.cpp"] + scen:
        o = "%s/cache/%s_%s.o" % (B, os.path.basename(s)[:-4], digest([s], sd)); sobj.append(o)
        if not os.path.exists(o): jobs.append((["clang++"] + XF + inc + ["-I" + V + "/sim", "-I" + V + "/scen", "-c", s, "-o", o + ".tmp%d" % os.getpid()], o))
    def one(j):
        sh(j[0]); os.rename(j[0][-1], j[1])
    with concurrent.futures.ThreadPoolExecutor(8) as ex: list(ex.map(one, jobs))
    key = hashlib.sha256(" ".join(robj + sobj).encode() + open(V + "/sim/redirect.txt", "rb").read()).hexdigest()[:24]
    exe = "%s/rksim_%s" % (B, key)
    if not os.path.exists(exe):
        t = exe + ".tmp%d" % os.getpid(); all_o = t + ".o"; red = t + ".red"
        sh(["ld", "-r", "-o", all_o] + robj)
        with open(red, "w") as f:
            for a, b in redirects(): f.write("%s %s\n" % (a, b))
        sh(["objcopy", "--redefine-syms=" + red, all_o])
        und = [l.split()[-1] for l in sh(["nm", "-u", all_o]).splitlines() if l.strip()]
        odd = sorted(u for u in und if not u.startswith("sim_") and not u.startswith("__sanitizer") and u not in PURE)
        open(exe + ".unknown", "w").write("\n".join(odd))
        sh(["clang++", "-no-pie", "-g", "-o", t] + sobj + [all_o, "-lfftw3f", "-lnetcdf", "-lpthread", "-lz", "-lm", "-lssl", "-lcrypto"])
        os.rename(t, exe)
        for x in (all_o, red): os.unlink(x)
    unknown = [u for u in open(exe + ".unknown").read().split("\n") if u]
    if unknown and not quiet: print("symbols outside the simulator: " + " ".join(unknown))
    return exe, unknown

if __name__ == "__main__":
    scen = sys.argv[1:] or sorted(glob.glob(V + "/scen/*.cpp"))
    print(build([os.path.abspath(s) for s in scen], quiet=False)[0])
