#!/usr/bin/env python3
"""Builds lexi from /repo's working tree inside the simulator and runs one property's check.

  check.py check PROPERTY             quick or thorough (VERIF_TIER), seed VERIF_SEED
  check.py replay FILE                run a replay file again; exit 1 if it reproduces
  check.py build VARIANT DIR          build only
  check.py determinism PROPERTY N     every run twice, at two worker counts; diff the hashes
"""
import concurrent.futures, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LEXI_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
LOCALES = [("de_DE", "UTF-8"), ("fr_FR", "ISO-8859-1"), ("tr_TR", "ISO-8859-9"), ("ps_AF", "UTF-8")]
WRAP = """malloc free calloc realloc strdup strndup asprintf vasprintf aligned_alloc posix_memalign memcpy memmove memset strncpy strcpy strtold strtod strtof strtoull strtoll strtoul strtol
__isoc23_strtoull __isoc23_strtoll __isoc23_strtoul __isoc23_strtol strlen memcmp memchr strcmp strncmp strchr strrchr strcat vsnprintf snprintf sprintf
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once pthread_rwlock_rdlock pthread_rwlock_wrlock
pthread_rwlock_unlock pthread_spin_lock pthread_spin_unlock pthread_spin_trylock pthread_mutex_timedlock pthread_mutex_clocklock
pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_timedrdlock pthread_rwlock_timedwrlock pthread_rwlock_clockrdlock pthread_rwlock_clockwrlock
pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast sem_wait sem_trywait sem_timedwait sem_clockwait sem_post
_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE _ZNSt18condition_variable10notify_oneEv _ZNSt18condition_variable10notify_allEv __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort
__cxa_allocate_exception sched_yield sched_getcpu getcpu getpid gettid nanosleep clock_nanosleep time clock clock_gettime
rand srand random srandom drand48 lrand48 strtok getrandom getentropy arc4random arc4random_uniform gettimeofday timespec_get _ZNSt13random_device9_M_getvalEv
_ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv""".split()
ASANWRAP = ["__asan_%s%s" % (k, n) for k in ("load", "store") for n in ("1", "2", "4", "8", "16", "N")]
# variant -> flags for the library and the client
VARIANTS = {
    "tsan-O0": ["-O0", "-fsanitize=thread"],
    "tsan-O1s": ["-O1", "-fno-inline", "-fsanitize=thread"],
    "tsan-O2": ["-O2", "-fsanitize=thread"],
    "asan-O1": ["-O1", "-fsanitize=address", "--param", "asan-instrumentation-with-call-threshold=0"],
}
# which builds each property explores, and the share of the time
MIX = {
    "C05": [("tsan-O0", 50), ("tsan-O2", 50)],
    "C08": [("tsan-O0", 30), ("tsan-O1s", 15), ("tsan-O2", 55)],
    "C13": [("tsan-O0", 60), ("tsan-O2", 40)],
    "C24": [("tsan-O0", 30), ("tsan-O1s", 40), ("tsan-O2", 30)],
    "C14": [("asan-O1", 50), ("tsan-O0", 20), ("tsan-O1s", 15), ("tsan-O2", 15)],
}
DEFAULT_MIX = [("tsan-O0", 45), ("tsan-O1s", 25), ("tsan-O2", 30)]
CPUS = len(os.sched_getaffinity(0))


class Broken(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise Broken("%s\n%s" % (" ".join(cmd)[:300], p.stdout[-4000:]))
    return p.stdout


def build_locales(d):
    jobs = []
    os.makedirs(d, exist_ok=True)
    for lang, cs in LOCALES:
        out = os.path.join(d, lang + "." + cs)
        src = lang
        try:        # without the large collation tables: every simulated process maps the locales
            text = open("/usr/share/i18n/locales/" + lang, encoding="utf-8").read()
            text, n = re.subn(r"(?ms)^LC_COLLATE\b.*?^END LC_COLLATE", "LC_COLLATE\ncodepoint_collation\nEND LC_COLLATE", text)
            if n == 1:
                src = os.path.join(d, lang + ".src")
                open(src, "w", encoding="utf-8").write(text)
        except OSError:
            pass
        jobs.append((out, subprocess.Popen(["localedef", "--no-archive", "-c", "-i", src, "-f", cs, out],
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    return jobs


def objects(d, variants):
    """Compile the library (all of src), the client and the simulator; returns variant -> (lib objects, other objects)."""
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    if not srcs:
        raise Broken("no sources in " + REPO)
    jobs, out = [], {}
    sim_flags = ["-std=c++17", "-O2", "-g1", "-fno-pie", "-I" + SIM]
    common = {}
    for f in ("model", "plan", "main", "stage_mid"):
        o = os.path.join(d, f + ".o")
        common[f] = o
        jobs.append(["g++"] + sim_flags + ["-c", os.path.join(SIM, f + ".cpp"), "-o", o])
    cores = {}
    for asan in {v.startswith("asan") for v in variants}:
        o = os.path.join(d, "core%d.o" % asan)
        cores[asan] = o
        jobs.insert(0, ["g++"] + sim_flags + (["-DSIM_ASAN"] if asan else []) + ["-c", os.path.join(SIM, "core.cpp"), "-o", o])
    for v in variants:
        vd = os.path.join(d, v)
        os.makedirs(vd, exist_ok=True)
        flags = ["-std=c++14"] + (["-include", os.path.join(SIM, "strings.hpp")] if v.endswith("s") else []) + ["-include", "cstdint", "-g1", "-fno-pie", "-fno-builtin", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-I" + os.path.join(REPO, "include"), "-I" + SIM] + VARIANTS[v]
        lib = []
        for i, s in enumerate(srcs):
            o = os.path.join(vd, "lib%02d_%s.o" % (i, os.path.basename(s)[:-4]))
            lib.append(o)
            jobs.append(["g++"] + flags + ["-c", s, "-o", o])
        cl = os.path.join(vd, "client.o")
        jobs.insert(0, ["g++"] + flags + ["-c", os.path.join(SIM, "client.cpp"), "-o", cl])
        out[v] = (lib, [common["main"], common["plan"], common["model"], cores[v.startswith("asan")], cl], common["stage_mid"])
    with concurrent.futures.ThreadPoolExecutor(max(2, CPUS)) as ex:
        list(ex.map(run, jobs))
    return out


def link(variant, objs, out, rng=None):
    lib, other, mid = objs
    order = list(lib) + [mid]
    if rng:
        rng.shuffle(order)
        order = order[:]
    wrap = WRAP + (ASANWRAP if variant.startswith("asan") else [])
    run(["g++", "-no-pie", "-o", out] + other + order + ["-Wl,--wrap=" + w for w in wrap] +
        (["-fsanitize=address"] if variant.startswith("asan") else []) + ["-lpthread"])


def env_for(d, variant, stage_bins=()):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("LC_") or k in ("LANG", "LANGUAGE") or k.startswith("LEXI_SIM"):
            del e[k]
    e["LOCPATH"] = os.path.join(d, "locale")
    e["LEXI_SIM_VARIANT"] = variant
    e["LEXI_SIM_SCRATCH"] = os.path.join(d, "scratch")
    e["ASAN_OPTIONS"] = ""
    if stage_bins:
        e["LEXI_SIM_STAGE_BINS"] = " ".join(stage_bins)
    return e


def prepare(d, variants, prop, seed):
    """Returns variant -> (binary, environment)."""
    os.makedirs(os.path.join(d, "scratch"), exist_ok=True)
    locs = build_locales(os.path.join(d, "locale"))
    objs = objects(d, variants)
    res = {}
    for v in variants:
        b = os.path.join(d, "sim-" + v)
        link(v, objs[v], b)
        bins = []
        if prop == "C13":
            # random orders, and the two extremes
            for k in range(6):
                rng = random.Random("%d/%s/%d" % (seed, v, k))
                bb = "%s-order%d" % (b, k)
                lib, other, mid = objs[v]
                if k < 2:
                    o = [mid] + lib if k == 0 else lib + [mid]
                else:
                    o = lib + [mid]
                    rng.shuffle(o)
                run(["g++", "-no-pie", "-o", bb] + other + o + ["-Wl,--wrap=" + w for w in WRAP] + ["-lpthread"])
                bins.append(bb)
        res[v] = (b, env_for(d, v, bins))
    for out, p in locs:
        p.wait()
        if not os.path.exists(os.path.join(out, "LC_NUMERIC")):
            raise Broken("cannot build locale " + out)
    return res


def known_findings():
    """Open findings: lines 'known: property=<id> class=<class> match=<regular expression> | <what fails>'."""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) \| (.*)$", l.strip())
            if m:
                r.append(m.groups())
    return r


def real_vs_stub():
    return {
        "real": ["every source file under /repo/src and the headers under /repo/include, compiled from the working tree",
                 "libstdc++ strings and containers", "glibc number parsing and locales"],
        "simulated": ["thread scheduling (one thread at a time, chosen by the seed at every memory access of the library)",
                      "memory allocation and its failure", "contents of fresh and freed memory", "mutexes, one-time initialisation guards and spin waits",
                      "signal delivery", "stalled threads", "clocks and sleeps", "locale, errno and floating-point environment as seen by each call", "order of static initialisation (C13)"],
        "stub": [],
    }


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    total = float(os.environ.get("LEXI_SIM_SECS", "0")) or (32 if tier == "quick" else 480)
    t0 = time.time()
    mix = MIX.get(prop, DEFAULT_MIX)
    d = tempfile.mkdtemp(prefix="lexi-sim-")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    try:
        built = prepare(d, [v for v, _ in mix], prop, seed)
        build_s = time.time() - t0
        stats, violation, bad = [], None, []
        for v, share in mix:
            b, env = built[v]
            sf = os.path.join(d, "stats-%s.json" % v)
            rp = os.path.join(VERIF, "replays", "%s.replay" % prop)
            secs = total * share / 100.0
            for attempt in range(4):
                cmd = [b, "explore", "--prop=" + prop, "--seed=%d" % (seed + 1000003 * attempt), "--secs=%.1f" % secs, "--workers=%d" % CPUS,
                       "--stats=" + sf, "--replay-out=" + rp]
                if tier == "thorough":
                    cmd.append("--thorough")
                p = subprocess.run(cmd, env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if p.returncode not in (0, 1):
                    raise Broken("%s: exit %d\n%s" % (v, p.returncode, p.stderr[-2000:]))
                st = json.load(open(sf))
                stats.append(st)
                if p.returncode == 0:
                    break
                vi = st["violation"]
                kf = [k for k in known_findings() if k[0] == prop and k[1] == vi["class"] and re.search(k[2], vi["message"])]
                if kf:
                    print("KNOWN-FINDING: property=%s %s" % (prop, kf[0][3]))
                    break
                # the replay file must reproduce, in processes of its own
                q = [subprocess.run([b, "replay", rp], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for _ in range(2)]
                if any(x.returncode != 1 for x in q) or q[0].stdout != q[1].stdout:
                    bad.append("the replay file does not reproduce: %s %s" % (q[0].stdout, q[1].stdout))
                    continue
                lines = q[0].stdout.split("\n")
                if lines[0] != vi["class"]:     # memory that the library had no right to use may hold something else there
                    vi["class"], vi["message"] = lines[0], lines[2]
                    text = open(rp).read()
                    text = re.sub(r"^class .*$", "class " + lines[0], text, flags=re.M)
                    text = re.sub(r"^hash .*$", lines[1], text, flags=re.M)
                    open(rp, "w").write(text)
                violation = (rp, vi, v)
                break
            if violation:
                break
        if bad and not violation:
            raise Broken("\n".join(bad))
        evidence(prop, tier, seed, stats, violation, build_s, time.time() - t0)
        if violation:
            rp, vi, v = violation
            print("%s: %s: %s (build %s)" % (prop, vi["class"], vi["message"], v))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        print("%s: held in %d simulated runs (%d distinct non-trivial) in %.0f s" % (
            prop, sum(s["runs"] for s in stats), sum(s["distinct_nontrivial"] for s in stats), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


RULE = {
    "C01": "at least one thread was preempted inside a conversion",
    "C02": "at least one reader was preempted inside a call on a shared object",
    "C03": "at least one allocation was made to fail",
    "C04": "at least one allocation was made by the library in three identical rounds",
    "C05": "at least one call was made with allocations failing",
    "C06": "at least one formatter was copied, assigned, swapped or relocated",
    "C07": "at least two calls were made, with earlier results held and compared after each",
    "C08": "at least two calls were made in one process on dirty memory",
    "C09": "the locale was changed at least once",
    "C10": "errno, floating-point flags or the rounding mode was set at least once",
    "C11": "a handler ran inside at least one conversion",
    "C12": "a thread was stalled for ever inside a conversion and another conversion completed afterwards",
    "C13": "at least one conversion ran outside main",
    "C14": "at least one object was built in dirty, red-zoned memory",
    "C15": "at least one text that must be rejected was given",
    "C16": "at least one text was received and extracted",
    "C17": "at least one extractor was asked for its value after its text was gone",
    "C18": "at least one call was made with its use of the stack watched",
    "C19": "at least one call was made on a thread that then ended",
    "C20": "at least one conversion was abandoned inside",
    "C21": "the allocator made at least one conversion inside another",
    "C22": "at least one conversion was made with a floating-point exception trapped",
    "C23": "at least one conversion was made with its system calls intercepted",
    "C24": "the work of at least one call was compared with that of the same call, or one of a like value, earlier in the run",
}


def evidence(prop, tier, seed, stats, violation, build_s, wall):
    runs = sum(s["runs"] for s in stats)
    ex = sum(s["wall"] for s in stats) or 1e-9
    cnt = {}
    for s in stats:
        for k, v in s["counters"].items():
            cnt[k] = cnt.get(k, 0) + v
    faults = {k: cnt[k] for k in ("preemptions_inside_calls", "switches_at_call_boundaries", "alloc_failures_injected", "signal_handler_runs",
                                  "signal_handler_runs_nested", "threads_stalled_for_ever", "conversions_abandoned", "conversions_made_by_the_allocator", "calls_with_floating_point_traps", "calls_with_system_calls_intercepted", "failures_averted_by_a_new_handler", "locale_changes", "locale_changes_inside_calls", "errno_set",
                                  "fp_flags_raised", "rounding_mode_changes", "dirty_memory_fills", "rejected_texts", "calls_on_threads_that_end", "calls_on_ending_threads",
                                  "calls_during_exception_handling", "calls_with_a_reused_argument_buffer", "calls_with_long_argument", "repeated_calls") if cnt.get(k)}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in stats),
            "rule": "Each run's workload, schedule, faults and environment are derived from one seed (VERIF_SEED, property, index). Two runs are the same if workload, schedule and faults are. Non-trivial: " + RULE[prop] + ".",
            "samples": stats[0]["samples"],
            "distinct_interleavings": sum(s["distinct_interleavings"] for s in stats),
            "interleaving_measure": "hash of the sequence of operation kinds per thread, every switch (from, to, step), handler, stall, locale change and failed allocation; counted per build",
            "runs_per_hour": int(runs / ex * 3600),
            "simulated_steps": cnt.get("steps", 0),
            "simulated_time_note": "the library has no clock; simulated time is counted in steps (memory accesses, calls, allocations of the library)",
            "faults_injected": faults,
            "counters": cnt,
            "builds": [{"build": s["variant"], "runs": s["runs"], "wall_s": s["wall"], "runs_by_thread_count": s["threads"]} for s in stats],
            "components": real_vs_stub(),
        },
        "assumptions": ["sequentially consistent memory between scheduling points; weaker orders are covered by the race check (C01, C02) only",
                        "code of libstdc++ and glibc outside the library is not preempted inside",
                        "x86-64, g++"],
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    if violation:
        ev["coverage"]["violation"] = violation[1]
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def replay(path):
    text = open(path).read()
    prop = re.search(r"^property (\S+)", text, re.M).group(1)
    variant = re.search(r"^variant (\S+)", text, re.M).group(1)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    d = tempfile.mkdtemp(prefix="lexi-sim-")
    try:
        b, env = prepare(d, [variant], prop, seed)[variant]
        p = subprocess.run([b, "replay", os.path.abspath(path)], env=env, cwd=d)
        return p.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def determinism(prop, n):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    d = tempfile.mkdtemp(prefix="lexi-sim-")
    try:
        bad = 0
        mix = [v for v, _ in MIX.get(prop, DEFAULT_MIX)]
        built = prepare(d, mix, prop, seed)
        for v in mix:
            b, env = built[v]
            outs = []
            for k, w in enumerate((CPUS, 3, CPUS * 2)):
                h = os.path.join(d, "h%d" % k)
                subprocess.run([b, "explore", "--prop=" + prop, "--seed=%d" % seed, "--secs=100000", "--runs=%d" % n, "--workers=%d" % w, "--hashes=" + h,
                                "--replay-out=" + os.path.join(d, "r")], env=env, cwd=d)
                outs.append(open(h).read().split("\n"))
            diff = sum(1 for rows in zip(*outs) if len(set(rows)) > 1) + abs(len(outs[0]) - len(outs[1]))
            print("%s %s: %d runs three times, %d differ" % (prop, v, n, diff))
            bad += diff
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(a):
    if a[:1] == ["check"] and len(a) == 2:
        return check(a[1])
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ["determinism"] and len(a) == 3:
        return determinism(a[1], int(a[2]))
    if a[:1] == ["build"] and len(a) == 3:
        os.makedirs(a[2], exist_ok=True)
        b, env = prepare(a[2], [a[1]], os.environ.get("PROP", "C01"), 1)[a[1]]
        print(b)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except Broken as e:
        print("ERROR: " + str(e), file=sys.stderr)
        sys.exit(2)
