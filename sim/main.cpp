// Driver: seeded exploration, gate, minimisation, replay.
#include "sim.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <map>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static int g_shmfd = -1;
static std::vector<std::string> g_stage_bins;      // for runs in stages: one binary per link order
static const char *g_variant = "";
static std::string g_scratch = "/tmp";

static Shm *shm_new(int *fdp)
{
    int fd = memfd_create("lexi-sim", 0);
    if (fd < 0 || ftruncate(fd, sizeof(Shm))) { perror("memfd"); exit(2); }
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    *fdp = fd;
    return (Shm *)p;
}
static void shm_reset()
{
    memset((void *)g_shm, 0, offsetof(Shm, log));
}
struct Result { int cls = V_NONE; bool harness = false; uint64_t hash = 0; std::string msg; };

static std::string self_path()
{
    char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    if (n < 0) return "";
    b[n] = 0;
    return b;
}
// One run in processes of its own. After it g_shm has the result.
static Result run_plan(const Plan &P, bool replay)
{
    shm_reset();
    Result res;
    bool anyf = false;
    for (auto &v : P.vals) anyf |= ty_float(v.ty);
    for (auto &x : P.txts) anyf |= x.reject == 2;
    auto child = [&](int what) {
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); exit(2); }
        if (pid == 0) {
            struct itimerval it = {{0, 0}, {30, 0}};
            setitimer(ITIMER_PROF, &it, nullptr);       // processor time: does not depend on the load of the machine
            alarm(90);
            if (what == 0) {
                float_texts(&P);
            }
            if (!P.stages) world_run(&P, replay);
            // in stages: a fresh image, linked in one of several orders
            std::string bin = g_stage_bins.empty() ? self_path() : g_stage_bins[P.seed % g_stage_bins.size()];
            char name[64]; snprintf(name, sizeof name, "/plan.%d", (int)getpid());
            std::string path = g_scratch + name;
            FILE *f = fopen(path.c_str(), "w");
            if (!f) _exit(9);
            std::string text = plan_save(P); fwrite(text.data(), 1, text.size(), f); fclose(f);
            char v[64]; snprintf(v, sizeof v, "%d", g_shmfd);
            setenv("LEXI_SIM_SHM", v, 1); setenv("LEXI_SIM_PLAN", path.c_str(), 1);
            execl(bin.c_str(), bin.c_str(), "stage", (char *)nullptr);
            _exit(9);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (what == 1 && P.stages) { char name[64]; snprintf(name, sizeof name, "/plan.%d", (int)pid); unlink((g_scratch + name).c_str()); }
        return st;
    };
    auto judge = [&](int st, const char *what) {
        if (g_shm->cls != V_NONE) return;
        if (WIFSIGNALED(st)) {
            int s = WTERMSIG(st);
            if (s == SIGKILL || s == SIGTERM || s == SIGINT || s == SIGHUP) { res.harness = true; return; }
            const bool hang = s == SIGALRM || s == SIGPROF;
            g_shm->cls = hang ? V_HANG : V_CRASH;
            snprintf(g_shm->msg, sizeof g_shm->msg, "%s: the process %s%s%s%s", what, hang ? "did not end" : strsignal(s), g_shm->last[0] ? " (the call begun last: " : "", g_shm->last, g_shm->last[0] ? ")" : "");
        } else if (WEXITSTATUS(st) != 0 || (what[0] == 't' && !g_shm->done)) {
            if (WEXITSTATUS(st) == 9 || WEXITSTATUS(st) == 2) { res.harness = true; return; }
            g_shm->cls = V_CRASH;
            snprintf(g_shm->msg, sizeof g_shm->msg, "%s: the process ended by itself with status %d", what, WEXITSTATUS(st));
        }
    };
    if (anyf) judge(child(0), "conversions alone in a fresh process");
    if (g_shm->cls == V_NONE && !res.harness) judge(child(1), "the run");
    res.cls = g_shm->cls; res.hash = g_shm->hash; res.msg = g_shm->msg;
    if (res.cls == V_CRASH || res.cls == V_HANG) res.hash = 0;
    return res;
}
// The plan of the run just made, with every scheduling decision written out.
static Plan explicit_plan(const Plan &P)
{
    Plan Q = P;
    for (uint32_t i = 0; i < g_shm->nlog; i++) {
        const LogEv &e = g_shm->log[i];
        if (e.phase >= MAXPH || e.t >= MAXT || e.op >= Q.prog[e.phase][e.t].size()) continue;
        Ev v; v.step = e.step; v.kind = e.kind; v.round = e.round; v.arg = e.arg;
        Q.prog[e.phase][e.t][e.op].evs.push_back(v);
    }
    return Q;
}

// ---------------------------------------------------------------- minimisation
static size_t plan_size(const Plan &P) { size_t n = 0; for (auto &ph : P.prog) for (auto &t : ph) n += t.size(); return n; }
static Plan minimise(Plan P, int cls, double budget, int maxexec, int *execs)
{
    const double end = now() + budget;
    *execs = 0;
    auto ok = [&](const Plan &Q) {
        if (now() > end || *execs >= maxexec) return false;
        ++*execs;
        Result r = run_plan(Q, true);
        return !r.harness && r.cls == cls;
    };
    auto more = [&] { return now() < end && *execs < maxexec; };
    bool progress = true;
    while (progress && more()) {
        progress = false;
        // whole programs
        for (int p = 0; p < MAXPH; p++) for (int t = 0; t < MAXT; t++) {
            if (P.prog[p][t].empty()) continue;
            Plan Q = P; Q.prog[p][t].clear();
            if (ok(Q)) { P = Q; progress = true; }
        }
        // chunks of operations
        for (int p = 0; p < MAXPH; p++) for (int t = 0; t < MAXT; t++)
            for (size_t c = P.prog[p][t].size() / 2; c >= 1; c /= 2)
                for (size_t i = 0; i < P.prog[p][t].size();) {
                    Plan Q = P; auto &v = Q.prog[p][t];
                    v.erase(v.begin() + (long)i, v.begin() + (long)std::min(v.size(), i + c));
                    if (ok(Q)) { P = Q; progress = true; } else i += c;
                    if (!more()) break;
                }
        // events
        for (int p = 0; p < MAXPH; p++) for (int t = 0; t < MAXT; t++) for (size_t o = 0; o < P.prog[p][t].size(); o++) {
            if (P.prog[p][t][o].evs.empty()) continue;
            { Plan Q = P; Q.prog[p][t][o].evs.clear(); if (ok(Q)) { P = Q; progress = true; continue; } }
            for (size_t c = P.prog[p][t][o].evs.size() / 2; c >= 1; c /= 2)
                for (size_t i = 0; i < P.prog[p][t][o].evs.size();) {
                    Plan Q = P; auto &v = Q.prog[p][t][o].evs;
                    v.erase(v.begin() + (long)i, v.begin() + (long)std::min(v.size(), i + c));
                    if (ok(Q)) { P = Q; progress = true; } else i += c;
                    if (!more()) break;
                }
        }
        // faults, repeats
        for (int p = 0; p < MAXPH; p++) for (int t = 0; t < MAXT; t++) for (size_t o = 0; o < P.prog[p][t].size(); o++) {
            if (P.prog[p][t][o].fail != FM_NONE) { Plan Q = P; Q.prog[p][t][o].fail = FM_NONE; Q.prog[p][t][o].failarg = 0; if (ok(Q)) { P = Q; progress = true; } }
            if (P.prog[p][t][o].fresh) { Plan Q = P; Q.prog[p][t][o].fresh = 0; if (ok(Q)) { P = Q; progress = true; } }
            while (P.prog[p][t][o].repeat > 1 && more()) {
                Plan Q = P; uint32_t &n = Q.prog[p][t][o].repeat; n /= 2;
                if (ok(Q)) { P = Q; progress = true; continue; }
                Q = P; Q.prog[p][t][o].repeat -= (P.prog[p][t][o].repeat + 9) / 10;
                if (ok(Q)) { P = Q; progress = true; continue; }
                if (P.prog[p][t][o].repeat > 10) { Q = P; Q.prog[p][t][o].repeat--; if (ok(Q)) { P = Q; progress = true; continue; } }
                break;
            }
        }
        if (P.rounds > 1 && !P.leak) { Plan Q = P; Q.rounds = 1; if (ok(Q)) { P = Q; progress = true; } }
        // texts
        for (size_t i = 0; i < P.strs.size() && more(); i++)
            for (size_t c = (P.strs[i].size() + 1) / 2; c >= 1 && !P.strs[i].empty() && more(); c /= 2)
                for (size_t k = 0; k < P.strs[i].size() && more();) { Plan Q = P; Q.strs[i].erase(k, c); if (ok(Q)) { P = Q; progress = true; } else k += c; }
        if (P.fill) { Plan Q = P; Q.fill = 0; if (ok(Q)) { P = Q; progress = true; } }
    }
    // unused values
    auto gc = [&](auto &vec, auto uses) {
        for (size_t i = vec.size(); i-- > 0;) {
            bool used = false;
            auto each = [&](auto fn) { for (auto &ph : P.prog) for (auto &t : ph) for (auto &o : t) fn(o); for (auto &o : P.nested) fn(o); };
            each([&](Op &o) { int16_t *f = uses(o); if (f && *f == (int)i) used = true; });
            if (used) continue;
            Plan save = P;
            vec.erase(vec.begin() + (long)i);
            each([&](Op &o) { int16_t *f = uses(o); if (f && *f > (int)i) --*f; });
            if (!ok(P)) { P = save; break; }
        }
    };
    if (!P.stages) { bool intr = false; for (auto &ph : P.prog) for (auto &t : ph) for (auto &o : t) for (auto &e : o.evs) intr |= e.kind == EV_INTR || e.kind == EV_REENTER; if (!intr && !P.nested.empty()) { Plan Q = P; Q.nested.clear(); if (ok(Q)) P = Q; } }
    gc(P.vals, [](Op &o) -> int16_t * { return o.kind == K_MAKE || o.kind == K_NFMT || o.kind == K_CONV || o.kind == K_SEND || o.kind == K_MANY ? &o.val : nullptr; });
    gc(P.strs, [](Op &o) -> int16_t * { return o.kind == K_STR || (o.kind == K_MANY && o.var % 16 == 7) ? &o.a : nullptr; });
    gc(P.txts, [](Op &o) -> int16_t * { return o.kind == K_EXTRACT || o.kind == K_REJECT || o.kind == K_XMAKE ? &o.a : nullptr; });
    return P;
}

// ---------------------------------------------------------------- exploration
struct WStat { double longest; uint64_t longest_i, runs, nontrivial, skipped; uint64_t cnt[C_N]; uint64_t threads[MAXT + 1]; };
struct Shared {
    std::atomic<double> firstv;
    std::atomic<int> stop; std::atomic<int> nfound; uint64_t found[64]; int fcls[64];
    std::atomic<int> harness;
    WStat w[64];
};
static uint64_t run_seed(uint64_t base, const std::string &prop, uint64_t i)
{
    uint64_t h = mix(mix(mix(0x1e1, base), 0x5eed), i);
    for (char c : prop) h = mix(h, (uint64_t)c);
    return h >> 1;
}
static bool is_nontrivial(const std::string &prop)
{
    const uint64_t *c = g_shm->cnt;
    switch (atoi(prop.c_str() + 1)) {
        case 1: return c[C_SWITCH_MID] > 0;
        case 2: return c[C_SWITCH_MID] > 0 && c[C_SHARED_READ] + c[C_OPS] > 1;
        case 3: return c[C_FAULT_ALLOC] > 0;
        case 4: return c[C_ALLOC] > 0;
        case 5: return c[C_OPS] > 0;
        case 6: return c[C_COPY] + c[C_RELOC] > 0;
        case 7: return c[C_OPS] > 1;
        case 8: return c[C_OPS] > 1;
        case 9: return c[C_LOC] + c[C_LOC_MID] > 0;
        case 10: return c[C_ERRNO] + c[C_FPFLAGS] + c[C_ROUND] > 0;
        case 11: return c[C_INTR] > 0;
        case 12: return c[C_STALL] > 0 && c[C_AFTER_STALL_OPS] > 0;
        case 13: return c[C_STAGE_OPS] > 0;
        case 14: return c[C_DIRTY] > 0;
        case 15: return c[C_REJECT] > 0;
        case 16: return c[C_RECV] > 0;
        case 17: return c[C_XREAD] > 0;
        case 18: return c[C_OPS] > 0;
        case 19: return c[C_FRESH] > 0;
        case 21: return c[C_REENTER] > 0;
        case 22: return c[C_TRAP] > 0;
        case 23: return c[C_GUARDED] > 0;
        case 24: return c[C_COMPARED] > 0;
        case 20: return c[C_ABANDON] > 0;
    }
    return true;
}
static uint64_t plan_hash(const Plan &P)
{
    uint64_t h = P.fill;
    auto hs = [&](const std::string &s) { h = mix(h, s.size()); for (char c : s) h = mix(h, (uint8_t)c); };
    for (auto &v : P.vals) h = mix(mix(h, v.ty), v.bits);
    for (auto &s : P.strs) hs(s);
    for (auto &t : P.txts) { h = mix(h, t.ty); hs(t.s); }
    for (auto &ph : P.prog) for (auto &t : ph) { h = mix(h, 77); for (auto &o : t) { h = mix(h, o.kind + 256u * o.var + 65536u * o.fresh); h = mix(h, (uint64_t)o.val * 65536 + (uint64_t)o.a); h = mix(h, (uint64_t)o.b * 65536 + o.repeat); h = mix(h, o.fail + o.failarg * 4); } }
    return h;
}
static std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; }
    return r + "\"";
}

static int explore(std::map<std::string, std::string> &a)
{
    const std::string prop = a["prop"];
    const uint64_t base = strtoull(a["seed"].c_str(), nullptr, 10);
    const double secs = atof(a["secs"].c_str());
    const uint64_t maxruns = a.count("runs") ? strtoull(a["runs"].c_str(), nullptr, 10) : ~0ull;
    const uint64_t first = a.count("first") ? strtoull(a["first"].c_str(), nullptr, 10) : 0;
    const int nw = std::min(64, std::max(1, atoi(a["workers"].c_str())));
    const bool thorough = a.count("thorough") != 0;
    const char *hashfile = a.count("hashes") ? a["hashes"].c_str() : nullptr;
    Shared *S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const double t0 = now();
    std::vector<pid_t> pids;
    auto wfile = [&](int w, const char *k) { return g_scratch + "/" + k + "." + std::to_string(getpid()) + "." + std::to_string(w); };
    std::vector<std::string> ifiles, hfiles;
    for (int w = 0; w < nw; w++) { ifiles.push_back(wfile(w, "ih")); hfiles.push_back(wfile(w, "hash")); }
    for (int w = 0; w < nw; w++) {
        pid_t pid = fork();
        if (pid == 0) {
            cpu_set_t cs;
            if (sched_getaffinity(0, sizeof cs, &cs) == 0) {
                int n = CPU_COUNT(&cs), k = w % (n ? n : 1);
                for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &cs) && k-- == 0) { CPU_ZERO(&cs); CPU_SET(c, &cs); sched_setaffinity(0, sizeof cs, &cs); break; }
            }
            g_shm = shm_new(&g_shmfd);
            WStat &st = S->w[w];
            FILE *fi = fopen(ifiles[(size_t)w].c_str(), "w");
            FILE *fh = hashfile ? fopen(hfiles[(size_t)w].c_str(), "w") : nullptr;
            for (uint64_t i = first + (uint64_t)w; i < first + maxruns; i += (uint64_t)nw) {
                if (S->stop.load() || now() - t0 > secs) break;
                if (!fh && S->firstv.load() > 0 && now() - S->firstv.load() > 1.0) break;     // one more second for better ones, then stop
                Plan P = plan_generate(prop, run_seed(base, prop, i), thorough);
                const double r0 = now();
                Result r = run_plan(P, false);
                if (const double d = now() - r0; d > st.longest) { st.longest = d; st.longest_i = i; }
                st.runs++;
                for (int c = 0; c < C_N; c++) st.cnt[c] += g_shm->cnt[c];
                st.threads[P.nthreads]++;
                const bool nt = is_nontrivial(prop);
                if (nt) st.nontrivial++;
                uint64_t rec[3] = {g_shm->ihash, mix(g_shm->ihash, plan_hash(P)), nt};
                fwrite(rec, sizeof rec, 1, fi);
                if (fh) fprintf(fh, "%llu %d %016llx %016llx\n", (unsigned long long)i, r.cls, (unsigned long long)r.hash, (unsigned long long)g_shm->ihash);
                if (r.harness) { S->harness++; if (S->harness.load() > 20) break; continue; }
                if (r.cls != V_NONE) {
                    int k = S->nfound++;
                    if (k < 64) { S->found[k] = i; S->fcls[k] = r.cls; }
                    if (k >= 7) S->stop = 1;        // a few candidates are enough
                    double none = 0; S->firstv.compare_exchange_strong(none, now());
                    if (!fh) break;
                }
            }
            fclose(fi); if (fh) fclose(fh);
            _exit(0);
        }
        pids.push_back(pid);
    }
    bool wbad = false;
    for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) wbad = true; }
    const double wall = now() - t0;
    // statistics
    double longest = 0; uint64_t longest_i = 0;
    for (int w = 0; w < nw; w++) if (S->w[w].longest > longest) { longest = S->w[w].longest; longest_i = S->w[w].longest_i; }
    uint64_t runs = 0, nontriv = 0, cnt[C_N] = {}, th[MAXT + 1] = {};
    std::unordered_set<uint64_t> inter, distinct;
    for (int w = 0; w < nw; w++) {
        runs += S->w[w].runs; nontriv += S->w[w].nontrivial;
        for (int c = 0; c < C_N; c++) cnt[c] += S->w[w].cnt[c];
        for (int k = 0; k <= MAXT; k++) th[k] += S->w[w].threads[k];
        if (FILE *f = fopen(ifiles[(size_t)w].c_str(), "r")) { uint64_t rec[3]; while (fread(rec, sizeof rec, 1, f) == 1) { inter.insert(rec[0]); if (rec[2]) distinct.insert(rec[1]); } fclose(f); unlink(ifiles[(size_t)w].c_str()); }
    }
    if (hashfile) {
        std::map<uint64_t, std::string> all;
        for (int w = 0; w < nw; w++) { FILE *f = fopen(hfiles[(size_t)w].c_str(), "r"); char b[200]; while (f && fgets(b, sizeof b, f)) all[strtoull(b, nullptr, 10)] = b; if (f) fclose(f); unlink(hfiles[(size_t)w].c_str()); }
        FILE *o = fopen(hashfile, "w"); for (auto &kv : all) fputs(kv.second.c_str(), o); fclose(o);
    }
    g_shm = shm_new(&g_shmfd);
    int rc = 0;
    std::string vjson = "null";
    int nf = std::min(64, S->nfound.load());
    std::string gate_note;
    std::vector<uint64_t> seeded;
    auto report = [&](uint64_t i, const Plan &P, const Plan &M, const Result &c1, const std::string &how) {
        std::ostringstream o;
        o << "# " << prop << ": " << CLS_NAME[c1.cls] << ": " << c1.msg << "\n# replay: see DESIGN.md; found at index " << i << " of base seed " << base << ", run seed " << P.seed << ", " << how << "\n"
          << plan_describe(M) << "variant " << g_variant << "\nclass " << CLS_NAME[c1.cls] << "\nhash " << c1.hash << "\n" << plan_save(M);
        FILE *fo = fopen(a["replay-out"].c_str(), "w");
        if (!fo) { perror("replay file"); exit(2); }
        fputs(o.str().c_str(), fo); fclose(fo);
        vjson = "{\"class\":" + jstr(CLS_NAME[c1.cls]) + ",\"message\":" + jstr(c1.msg) + ",\"seed\":" + std::to_string(P.seed) + ",\"operations\":" + std::to_string(plan_size(M)) + "}";
        rc = 1;
    };
    if (nf) {
        std::vector<uint64_t> f(S->found, S->found + nf); std::sort(f.begin(), f.end());
        rc = 2;
        for (uint64_t i : f) {
            Plan P = plan_generate(prop, run_seed(base, prop, i), thorough);
            Result a1 = run_plan(P, false);
            const bool hang = a1.cls == V_HANG && a1.hash == 0;      // each run takes long
            Result a2 = hang ? a1 : run_plan(P, false);
            if (a1.harness || a2.harness || a1.cls == V_NONE || a1.cls != a2.cls || a1.hash != a2.hash) { gate_note += "seed " + std::to_string(P.seed) + ": two runs differ; "; continue; }
            const bool dropped = g_shm->logdrop != 0;
            Plan Q = explicit_plan(P);
            Result b1; if (!dropped) b1 = run_plan(Q, true);
            if (b1.cls != a1.cls) { seeded.push_back(i); gate_note += "seed " + std::to_string(P.seed) + ": explicit schedule gives " + CLS_NAME[b1.cls] + " and not " + CLS_NAME[a1.cls] + "; "; continue; }
            int execs = 0;
            const size_t n0 = plan_size(Q);
            if (hang) { report(i, P, Q, b1, "not minimised"); break; }
            Plan M = minimise(Q, a1.cls, 25, 3000, &execs);
            Result c1 = run_plan(M, true), c2 = run_plan(M, true);
            if (c1.cls != a1.cls || c2.cls != a1.cls || c1.hash != c2.hash) { M = Q; c1 = run_plan(M, true); c2 = run_plan(M, true); if (c1.cls != a1.cls || c1.hash != c2.hash) { gate_note += "replay differs; "; continue; } }
            report(i, P, M, c1, "minimised from " + std::to_string(n0) + " to " + std::to_string(plan_size(M)) + " operations in " + std::to_string(execs) + " runs");
            break;
        }
        // a violation that two runs of the seed show but no written-out schedule does: the seed itself is the replay
        if (rc == 2) for (uint64_t i : seeded) {
            Plan P = plan_generate(prop, run_seed(base, prop, i), thorough);
            P.seeded = true;
            Result c1 = run_plan(P, false), c2 = run_plan(P, false);
            if (c1.harness || c1.cls == V_NONE || c1.cls != c2.cls || c1.hash != c2.hash) continue;
            report(i, P, P, c1, "replayed from its seed");
            break;
        }
    }
    if (rc == 0 && (wbad || S->harness.load() > 0 || runs == 0)) { rc = 2; gate_note += wbad ? "a worker died; " : runs == 0 ? "no runs; " : "the simulator failed; "; }
    // samples
    std::string samples = "[";
    for (int k = 0; k < 3; k++) {
        Plan P = plan_generate(prop, run_seed(base, prop, first + (uint64_t)k * 7), thorough);
        run_plan(P, false);
        Plan Q = explicit_plan(P);
        std::string d = plan_describe(Q);
        if (d.size() > 1500) d = d.substr(0, 1500) + "...";
        samples += std::string(k ? "," : "") + "{\"run_seed\":" + std::to_string(P.seed) + ",\"steps\":" + std::to_string(g_shm->cnt[C_STEPS]) + ",\"trace\":" + jstr(d) + "}";
    }
    samples += "]";
    if (a.count("stats")) {
        FILE *o = fopen(a["stats"].c_str(), "w");
        fprintf(o, "{\"variant\":%s,\"runs\":%llu,\"nontrivial\":%llu,\"distinct_interleavings\":%zu,\"distinct_nontrivial\":%zu,\"wall\":%.3f,\"workers\":%d,\"longest_run\":%.3f,\"longest_run_index\":%llu,\"counters\":{", jstr(g_variant).c_str(), (unsigned long long)runs,
            (unsigned long long)nontriv, inter.size(), distinct.size(), wall, nw, longest, (unsigned long long)longest_i);
        for (int c = 0; c < C_N; c++) fprintf(o, "%s\"%s\":%llu", c ? "," : "", CNT_NAME[c], (unsigned long long)cnt[c]);
        fprintf(o, "},\"threads\":[");
        for (int k = 1; k <= MAXT; k++) fprintf(o, "%s%llu", k > 1 ? "," : "", (unsigned long long)th[k]);
        fprintf(o, "],\"violation\":%s,\"note\":%s,\"samples\":%s}\n", vjson.c_str(), jstr(gate_note).c_str(), samples.c_str());
        fclose(o);
    }
    if (rc == 2) fprintf(stderr, "simulator error: %s\n", gate_note.c_str());
    return rc;
}

static bool read_file(const char *path, std::string &s)
{
    FILE *f = fopen(path, "r"); if (!f) return false;
    char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f); return true;
}
static int replay(const char *path)
{
    std::string t, err; Plan P;
    if (!read_file(path, t) || !plan_load(t, P, err)) { fprintf(stderr, "cannot read %s: %s\n", path, err.c_str()); return 2; }
    g_shm = shm_new(&g_shmfd);
    Result r = run_plan(P, !P.seeded);
    if (r.harness) { fprintf(stderr, "simulator error\n"); return 2; }
    if (r.cls == V_NONE) { printf("no violation\n"); return 0; }
    printf("%s\nhash %llu\n%s\n", CLS_NAME[r.cls], (unsigned long long)r.hash, r.msg.c_str());
    return 1;
}

// ---------------------------------------------------------------- runs in stages of the process's life
// 0 before every other static object, 1 among the library's (stage_mid.cpp), 2 main, 3 exit handler,
// 4 among the destructors, 5 after all of them.
static Plan *g_stage_plan;
bool stage_active() { return g_stage_plan != nullptr; }
__attribute__((constructor(101))) static void stage_first()
{
    const char *v = getenv("LEXI_SIM_SHM"), *p = getenv("LEXI_SIM_PLAN");
    if (!v || !p) return;
    g_shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(v), 0);
    if (g_shm == MAP_FAILED) _exit(9);
    std::string t, err;
    Plan *P = new Plan;
    if (!read_file(p, t) || !plan_load(t, *P, err)) _exit(9);
    g_stage_plan = P;
    world_setup(P, true);
    world_phase(0);
}
__attribute__((destructor(101))) static void stage_last()
{
    if (!g_stage_plan) return;
    world_phase(5);
    world_finish();
    _exit(0);
}
static void stage_exit() { world_phase(3); }

int main(int argc, char **argv)
{
    const int pers = personality(0xffffffffu);
    if (!stage_active() && pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    if (stage_active()) { world_phase(2); atexit(stage_exit); return 0; }
    if (getenv("LEXI_SIM_VARIANT")) g_variant = getenv("LEXI_SIM_VARIANT");
    if (getenv("LEXI_SIM_SCRATCH")) g_scratch = getenv("LEXI_SIM_SCRATCH");
    if (const char *b = getenv("LEXI_SIM_STAGE_BINS")) { std::istringstream l(b); std::string s; while (l >> s) g_stage_bins.push_back(s); }
    g_marathon = strstr(g_variant, "O2") != nullptr;
    locales_load();
    if (argc >= 3 && std::string(argv[1]) == "replay") return replay(argv[2]);
    if (argc >= 2 && std::string(argv[1]) == "explore") {
        std::map<std::string, std::string> a;
        for (int i = 2; i < argc; i++) { std::string s = argv[i]; size_t e = s.find('='); if (e == std::string::npos) a[s.substr(2)] = "1"; else a[s.substr(2, e - 2)] = s.substr(e + 1); }
        return explore(a);
    }
    fprintf(stderr, "usage: sim explore --prop=C01 --seed=N --secs=N --workers=N ... | sim replay FILE\n");
    return 2;
}
