#include "pbt.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <time.h>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <algorithm>
#include "hooks.h"

namespace pbt {

Src src;
const char* prop = 0;
const char* bias = 0;
bool thorough = false;
bool tracing = false;

enum { MAX_CHOICES = 1 << 16, MSG_SZ = 4096, MAX_LABELS = 256, LABEL_SZ = 56, SAMPLE_SZ = 1500 };
enum { RC_OK = 0, RC_FAIL = 77, RC_HARNESS = 78 };

// Case CPU budget. CPU time, not wall-clock: immune to load on the machine.
static int case_cpu_s = 20;

struct Shm {
    volatile uint64_t case_idx;       // case in progress
    volatile uint64_t done;           // cases completed by this worker
    volatile uint64_t discarded;
    volatile uint64_t nontriv;
    volatile uint64_t known_hits;
    volatile uint32_t n_choices;
    volatile uint32_t hang;
    volatile uint32_t phase;          // 1 = inside a case
    uint64_t choices[MAX_CHOICES];
    char msg[MSG_SZ];
    struct { char name[LABEL_SZ]; uint64_t n; } labels[MAX_LABELS];
    uint32_t n_labels;
    char sample[3][SAMPLE_SZ];
    uint32_t n_samples;
};
static Shm* shm = 0;

static uint64_t* hashes = 0;              // distinct fingerprints of non-trivial cases
static volatile uint64_t* n_hashes = 0;
static uint64_t max_hashes = 0;

static uint64_t case_hash = 0;
static bool case_nontrivial = false;
static bool case_discarded = false;
static std::vector<std::string>* case_labels = 0;
static std::string* trace = 0;

uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

void Src::seed(uint64_t s) { s0 = mix(s); s1 = mix(s0 ^ 0x1234567); pos = 0; exhausted = false; }

uint64_t Src::rnd()
{
    uint64_t a = s0, b = s1;
    s0 = b;
    a ^= a << 23;
    s1 = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s1 + b;
}

uint64_t Src::draw(uint64_t n)
{
    uint64_t v;
    if (n == 0) n = 1;
    if (replaying)
        v = pos < replay.size() ? replay[pos] % n : 0;
    else if (pos >= MAX_CHOICES - 1) {
        exhausted = true;
        v = 0;
    } else
        v = n == 1 ? 0 : rnd() % n;

    if (pos < MAX_CHOICES && shm && !norecord) {
        shm->choices[pos] = v;
        shm->n_choices = pos + 1;
    }
    ++pos;
    if (replaying && pos > MAX_CHOICES)
        exhausted = true;
    return v;
}

void Src::again(size_t from)
{
    saved = Saved{replay, replaying, exhausted, pos};
    std::vector<uint64_t> all(shm->choices, shm->choices + std::min<size_t>(pos, MAX_CHOICES));
    replay = all;
    replaying = true;
    norecord = true;
    exhausted = false;
    pos = from;
}
void Src::end_again()
{
    replay = saved.replay; replaying = saved.replaying; exhausted = saved.exhausted; pos = saved.pos;
    norecord = false;
}

int Src::weighted(const std::vector<int>& w)
{
    int tot = 0;
    for (int x : w) tot += x;
    if (tot <= 0) return 0;
    int v = (int) draw(tot);
    for (size_t i = 0; i < w.size(); ++i) {
        if (v < w[i]) return (int) i;
        v -= w[i];
    }
    return 0;
}
int Src::weighted(std::initializer_list<int> w) { return weighted(std::vector<int>(w)); }

uint64_t Src::size_biased(uint64_t lo, uint64_t hi)
{
    if (hi <= lo) return lo;
    uint64_t span = hi - lo;
    switch (draw(8)) {
    case 0: return lo + draw(std::min<uint64_t>(span, 3) + 1);
    case 1: case 2: return lo + draw(std::min<uint64_t>(span, 16) + 1);
    case 3: return lo + draw(std::min<uint64_t>(span, 64) + 1);
    case 4: return lo + draw(std::min<uint64_t>(span, 1024) + 1);
    case 5: return lo + draw(span + 1);
    case 6: return hi - draw(std::min<uint64_t>(span, 4) + 1);
    default: return lo + draw(std::min<uint64_t>(span, 8) + 1);
    }
}

static bool all_on;
static std::vector<const char*> also;
void oracles_too(std::initializer_list<const char*> ids) { also = ids; }
void every_oracle(bool b) { also.clear(); all_on = b || (prop && !strcmp(prop, "ALL")); }
bool on(const char* id)
{
    if (prop && !all_on) for (const char* a : also) if (!strcmp(a, id)) return true;
    return prop && (all_on || !strcmp(prop, id));
}
bool biased(const char* id)
{
    return prop && !strcmp(bias ? bias : prop, id);
}

void fill(uint8_t* p, size_t n, uint64_t seed)
{
    uint64_t x = 0;
    for (size_t i = 0; i < n; ++i) {
        if ((i & 7) == 0) x = mix(seed + i);
        p[i] = (uint8_t) (x >> ((i & 7) * 8));
    }
}
std::vector<uint8_t> bytes(size_t n, uint64_t seed)
{
    std::vector<uint8_t> v(n);
    if (n) fill(v.data(), n, seed);
    return v;
}

static void say(const char* what, const char* fmt, va_list ap)
{
    char buf[MSG_SZ];
    vsnprintf(buf, sizeof(buf), fmt, ap);
    if (shm) snprintf(shm->msg, MSG_SZ, "%s%s", what, buf);
    if (tracing) {
        if (trace) fputs(trace->c_str(), stdout);
        printf(">>> %s%s\n", what, buf);
        fflush(stdout);
    }
}

void fail(const char* id, const char* fmt, ...)
{
    if (!on(id)) return;
    va_list ap;
    va_start(ap, fmt);
    say(all_on && *id == 'C' ? (std::string("[") + id + "] ").c_str() : "", fmt, ap);
    va_end(ap);
    hooks_real_exit(RC_FAIL);
}

void harness_bug(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    say("HARNESS: ", fmt, ap);
    va_end(ap);
    hooks_real_exit(RC_HARNESS);
}

void discard(const char* why)
{
    case_discarded = true;
    label((std::string("discarded: ") + why).c_str());
}

static void bump(const char* l, uint64_t n)
{
    if (!shm) return;
    for (uint32_t i = 0; i < shm->n_labels; ++i)
        if (!strncmp(shm->labels[i].name, l, LABEL_SZ - 1)) { shm->labels[i].n += n; return; }
    if (shm->n_labels >= MAX_LABELS) return;
    auto& e = shm->labels[shm->n_labels];
    snprintf(e.name, LABEL_SZ, "%s", l);
    e.n = n;
    shm->n_labels++;
}

void label(const char* l)
{
    if (!case_labels) return;
    for (auto& s : *case_labels) if (s == l) return;
    case_labels->push_back(l);
}
void count(const char* l, uint64_t n) { bump(l, n); }
void nontrivial() { case_nontrivial = true; }
void feature(uint64_t h) { case_hash = mix(case_hash ^ h); }
void known(const char* f) { if (shm) shm->known_hits++; label((std::string("excluded known finding: ") + f).c_str()); }

static bool sampling = false;
std::vector<std::string>* capture = 0;
void note(const char* fmt, ...)
{
    if (!tracing && !sampling && !capture) return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (capture) capture->push_back(buf);
    if (!trace || (!tracing && !sampling)) return;
    if (sampling && trace->size() > SAMPLE_SZ && !tracing) return;
    *trace += buf;
    *trace += "\n";
}

static std::vector<Check>& checks() { static std::vector<Check> c; return c; }
void register_check(const Check& c) { checks().push_back(c); }
const Check* find_check(const char* id) { for (auto& c : checks()) if (!strcmp(c.id, id)) return &c; return 0; }
static std::vector<Known>& knowns() { static std::vector<Known> c; return c; }
void register_known(const Known& c) { knowns().push_back(c); }

static void on_cpu(int)
{
    if (shm) { shm->hang = 1; snprintf(shm->msg, MSG_SZ, "the code did not return: more than %d s of CPU time in one case", case_cpu_s); }
    _exit(RC_FAIL);
}

static void arm_cpu(int s)
{
    struct itimerval it = {{0, 0}, {s, 0}};
    setitimer(ITIMER_PROF, &it, 0);
}

// Run the current case (src already set up) in this process.
static void run_case(const Check& c)
{
    std::vector<std::string> labels;
    std::string tr;
    case_labels = &labels;
    trace = &tr;
    case_hash = 0;
    case_nontrivial = false;
    case_discarded = false;
    if (shm) { shm->n_choices = 0; shm->phase = 1; }
    hooks_case_begin();
    c.run();
    hooks_case_end();
    if (shm) shm->phase = 0;
    case_labels = 0;
    for (auto& l : labels) bump(l.c_str(), 1);
    if (tracing) { fputs(tr.c_str(), stdout); fflush(stdout); }
    if (!shm) return;
    if (case_discarded) shm->discarded++;
    if (case_nontrivial && !case_discarded) {
        shm->nontriv++;
        if (hashes) {
            uint64_t h = case_hash ? case_hash : 1;
            for (uint32_t i = 0; i < shm->n_choices; ++i) h = mix(h ^ shm->choices[i]);
            uint64_t k = __sync_fetch_and_add(n_hashes, 1);
            if (k < max_hashes) hashes[k] = h;
        }
        if (sampling && shm->n_samples < 3) {
            snprintf(shm->sample[shm->n_samples], SAMPLE_SZ, "%s", tr.c_str());
            shm->n_samples++;
        }
    }
    trace = 0;
}

static uint64_t case_seed(const char* id, uint64_t seed, uint64_t idx)
{
    uint64_t h = mix(seed ^ 0xC0FFEE);
    for (const char* p = id; *p; ++p) h = mix(h ^ (uint8_t) *p);
    return mix(h ^ mix(idx));
}

static std::string describe_status(int st, Shm* s)
{
    char b[256];
    if (WIFEXITED(st)) {
        int rc = WEXITSTATUS(st);
        if (rc == RC_FAIL) return std::string((const char*) s->msg);
        snprintf(b, sizeof(b), "the code under test ended the process with exit status %d%s", rc,
                 rc == 99 ? " (sanitizer report)" : "");
        return b;
    }
    if (WIFSIGNALED(st)) {
        snprintf(b, sizeof(b), "the process was killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        return b;
    }
    return "?";
}

static Shm* new_shm()
{
    void* p = mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return (Shm*) p;
}

static void quiet_child(const char* errfile)
{
    int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); if (!tracing) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); close(n); } close(fd); }
}

// Run one choice sequence in a child. Returns true when the property failed (or the process crashed).
static bool run_child(const Check& c, const std::vector<uint64_t>& seq, std::string* msg, std::vector<uint64_t>* used,
                      int* status = 0, const char* errfile = 0, bool tr = false, int cpu = 0)
{
    static Shm* s = 0;
    if (!s) s = new_shm();
    s->n_choices = 0; s->msg[0] = 0; s->n_labels = 0; s->hang = 0; s->phase = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        shm = s;
        hashes = 0;
        if (!tr) quiet_child(errfile);
        tracing = tr;
        signal(SIGPROF, on_cpu);
        arm_cpu(cpu ? cpu : case_cpu_s);
        src.seed(1);
        src.replaying = true;
        src.replay = seq;
        run_case(c);
        fflush(stdout);
        _exit(RC_OK);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (status) *status = st;
    if (used) used->assign(s->choices, s->choices + std::min<uint32_t>((uint32_t) s->n_choices, MAX_CHOICES));
    if (WIFEXITED(st) && WEXITSTATUS(st) == RC_OK) return false;
    if (WIFEXITED(st) && WEXITSTATUS(st) == RC_HARNESS) {
        if (msg) *msg = (const char*) s->msg;
        return false;
    }
    // A crash outside the case body is the harness's own.
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == RC_FAIL) && s->phase != 1) return false;
    if (msg) *msg = describe_status(st, s);
    return true;
}

static double now_s()
{
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

static std::vector<uint64_t> shrink(const Check& c, std::vector<uint64_t> cur, int budget, std::string* msg, int cpu)
{
    std::vector<uint64_t> used;
    double until = now_s() + 60;
    auto attempt = [&](const std::vector<uint64_t>& cand) {
        if (now_s() > until) budget = 0;
        if (budget <= 0) return false;
        --budget;
        std::string m;
        if (!run_child(c, cand, &m, &used, 0, 0, false, cpu)) return false;
        *msg = m;
        if (used.size() < cand.size()) cur = used; else cur = cand;
        return true;
    };
    bool progress = true;
    while (progress && budget > 0) {
        progress = false;
        size_t before = cur.size();
        // Truncate.
        for (size_t k = cur.size() / 2; k >= 1 && budget > 0; k /= 2)
            while (cur.size() > k && budget > 0) {
                auto cand = cur;
                cand.resize(cur.size() - k);
                if (!attempt(cand)) break;
                progress = true;
            }
        // Delete blocks.
        for (size_t k : {64, 32, 16, 8, 6, 5, 4, 3, 2, 1}) {
            if (k > cur.size()) continue;
            for (size_t i = cur.size() - k + 1; i-- > 0 && budget > 0;) {
                if (i + k > cur.size()) continue;
                auto cand = cur;
                cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (attempt(cand)) progress = true;
                if (k >= 16 && i >= k / 2) i -= k / 2 - 1;
            }
        }
        // Zero and lower.
        for (size_t i = 0; i < cur.size() && budget > 0; ++i) {
            if (!cur[i]) continue;
            auto cand = cur;
            cand[i] = 0;
            if (attempt(cand)) { progress = true; continue; }
            uint64_t lo = 0, hi = cur[i];
            while (hi - lo > 1 && budget > 0 && i < cur.size()) {
                uint64_t m = lo + (hi - lo) / 2;
                cand = cur;
                cand[i] = m;
                if (attempt(cand)) { hi = m; progress = true; } else lo = m;
            }
        }
        if (cur.size() == before && budget < 100) break;
    }
    return cur;
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

// Is the finding in the known-findings file? Without a file, all are.
static bool listed(const Known& k)
{
    const char* path = getenv("RC_KNOWN");
    if (!path) return true;
    FILE* f = fopen(path, "r");
    if (!f) return false;
    std::string want = std::string("known: property=") + k.id + " " + k.key + " ";
    char line[2048];
    bool r = false;
    while (fgets(line, sizeof(line), f)) if (!strncmp(line, want.c_str(), want.size())) r = true;
    fclose(f);
    return r;
}

static int do_run(const Check& c, uint64_t seed, uint64_t ncases, int nworkers, const char* outdir, const char* evfile, bool use_known)
{
    double t0 = now_s();
    uint64_t replay_bad = 0;
    std::vector<Shm*> sh(nworkers);
    for (auto& s : sh) s = new_shm();
    max_hashes = ncases + 16;
    hashes = (uint64_t*) mmap(0, max_hashes * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    n_hashes = (uint64_t*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    volatile uint64_t* stop = (volatile uint64_t*) (n_hashes + 8);
    *stop = ~0ull;

    // Known findings: replay each listed history.
    int known_n = 0;
    std::string known_lines;
    if (use_known)
        for (auto& k : knowns()) {
            if (strcmp(k.id, c.id)) continue;
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                if (!getenv("RC_DBG")) quiet_child(0);
                signal(SIGPROF, SIG_DFL);
                arm_cpu(60);
                hooks_case_begin();
                bool f = k.still_fails();
                _exit(f ? 55 : 0);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 55) {
                if (!listed(k)) {
                    char rf[512];
                    snprintf(rf, sizeof(rf), "%s/replay-%s-%s.txt", outdir, k.id, k.key);
                    if (FILE* o = fopen(rf, "w")) { fprintf(o, "# fixed history %s: %s\n", k.key, k.what); fclose(o); }
                    printf("%s: %s\nVIOLATION property=%s replay=%s\n", k.key, k.what, k.id, rf);
                    return 1;
                }
                printf("KNOWN-FINDING: property=%s %s: %s\n", k.id, k.key, k.what);
                ++known_n;
            }
        }
    fflush(stdout);

    std::vector<pid_t> pid(nworkers, 0);
    std::vector<uint64_t> next(nworkers);
    for (int w = 0; w < nworkers; ++w) next[w] = w;
    auto spawn = [&](int w) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            shm = sh[w];
            char ef[512];
            snprintf(ef, sizeof(ef), "%s/stderr.%d", outdir, w);
            quiet_child(ef);
            signal(SIGPROF, on_cpu);
            for (uint64_t i = next[w]; i < ncases && i < *stop; i += nworkers) {
                shm->case_idx = i;
                src.replaying = false;
                src.seed(case_seed(c.id, seed, i));
                sampling = shm->n_samples < 2;
                arm_cpu(case_cpu_s);
                run_case(c);
                shm->done++;
            }
            _exit(RC_OK);
        }
        pid[w] = p;
    };
    for (int w = 0; w < nworkers; ++w) spawn(w);

    bool violated = false;
    std::string vmsg, vreplay, tail;
    uint64_t harness_errs = 0, unrepro = 0;
    std::string harness_msg;
    struct Cand { uint64_t idx; std::vector<uint64_t> seq; std::string msg; bool hang; };
    std::vector<Cand> cands;
    int live = nworkers;
    while (live > 0) {
        int st = 0;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        int w = -1;
        for (int i = 0; i < nworkers; ++i) if (pid[i] == p) w = i;
        if (w < 0) continue;
        Shm* s = sh[w];
        if (WIFEXITED(st) && WEXITSTATUS(st) == RC_OK) { --live; continue; }
        bool harness = (WIFEXITED(st) && WEXITSTATUS(st) == RC_HARNESS) ||
            (!(WIFEXITED(st) && WEXITSTATUS(st) == RC_FAIL) && s->phase != 1);
        if (harness) {
            ++harness_errs;
            harness_msg = s->msg;
        } else {
            Cand cd;
            cd.idx = s->case_idx;
            cd.seq.assign(s->choices, s->choices + std::min<uint32_t>((uint32_t) s->n_choices, MAX_CHOICES));
            cd.msg = describe_status(st, s);
            cd.hang = s->hang;
            // Does it come back from its choices alone, three times (a case
            // that does not return: once, by its CPU time)? A case behind one
            // already confirmed would not be reported.
            int ok = 0, want = cd.hang ? 1 : 3;
            std::string m;
            if (*stop < cd.idx) { --live; continue; }
            for (int k = 0; k < want; ++k) ok += run_child(c, cd.seq, &m, 0);
            if (ok == want) {
                cands.push_back(cd);
                if (*stop > cd.idx) *stop = cd.idx;
                s->done++;
            } else
                ++unrepro;
        }
        s->hang = 0;
        s->phase = 0;
        next[w] = s->case_idx + nworkers;
        if (next[w] < ncases && next[w] < *stop && harness_errs < 200 && unrepro < 200) spawn(w);
        else --live;
    }

    if (!cands.empty()) {
        std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.idx < b.idx; });
        Cand& cd = cands[0];
        std::string m = cd.msg;
        auto seq = shrink(c, cd.seq, getenv("RC_NOSHRINK") ? 0 : cd.hang ? 8 : 900, &m, cd.hang ? case_cpu_s : 0);
        int ok = 0, want = cd.hang ? 1 : 3;
        for (int k = 0; k < want; ++k) ok += run_child(c, seq, &m, 0);
        if (ok != want) { seq = cd.seq; m = cd.msg; }
        char path[600];
        snprintf(path, sizeof(path), "%s/replay-%s.txt", outdir, c.id);
        FILE* f = fopen(path, "w");
        if (f) {
            fprintf(f, "property %s\nseed %llu\ncase %llu\nthorough %d\nmessage %s\nchoices", c.id, (unsigned long long) seed,
                    (unsigned long long) cd.idx, (int) thorough, m.c_str());
            for (auto v : seq) fprintf(f, " %llu", (unsigned long long) v);
            fprintf(f, "\n");
            fclose(f);
        }
        violated = true;
        vmsg = m;
        vreplay = path;
    }

    // Evidence.
    uint64_t done = 0, nontriv = 0, disc = 0, knownhits = 0;
    std::map<std::string, uint64_t> lab;
    std::vector<std::string> samples;
    for (auto s : sh) {
        done += s->done; nontriv += s->nontriv; disc += s->discarded; knownhits += s->known_hits;
        for (uint32_t i = 0; i < s->n_labels; ++i) lab[s->labels[i].name] += s->labels[i].n;
        for (uint32_t i = 0; i < s->n_samples && samples.size() < 3; ++i) samples.push_back(s->sample[i]);
    }
    std::unordered_set<uint64_t> ds;
    for (uint64_t i = 0; i < std::min<uint64_t>((uint64_t) *n_hashes, max_hashes); ++i) ds.insert(hashes[i]);
    if (evfile) {
        FILE* f = fopen(evfile, "w");
        if (f) {
            fprintf(f, "{\"property\": %s, \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n", jstr(c.id).c_str(),
                    thorough ? "thorough" : "quick", (unsigned long long) seed);
            fprintf(f, " \"coverage\": {\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"nontrivial\": %llu,\n"
                    "  \"discarded\": %llu, \"known_finding_exclusions\": %llu, \"unreproduced\": %llu, \"harness_errors\": %llu,\n"
                    "  \"rule\": %s,\n  \"classes\": {", (unsigned long long) done,
                    (unsigned long long) ds.size(), (unsigned long long) nontriv, (unsigned long long) disc,
                    (unsigned long long) knownhits, (unsigned long long) unrepro, (unsigned long long) harness_errs,
                    jstr(c.rule).c_str());
            bool first = true;
            for (auto& kv : lab) {
                fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(kv.first).c_str(), (unsigned long long) kv.second);
                first = false;
            }
            fprintf(f, "},\n  \"samples\": [");
            for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ",\n   " : "", jstr(samples[i]).c_str());
            fprintf(f, "]},\n \"assumptions\": [\"the simulated sockets and clock behave like Linux's for the calls the library makes\"],\n"
                    " \"wall_s\": %.2f, \"violations\": %d}\n", now_s() - t0, violated ? 1 : 0);
            fclose(f);
        }
    }
    printf("%s: %llu cases, %llu distinct non-trivial, %llu discarded, %llu excluded by known findings, %.1f s\n", c.id,
           (unsigned long long) done, (unsigned long long) ds.size(), (unsigned long long) disc, (unsigned long long) knownhits, now_s() - t0);
    if (getenv("RC_LABELS"))
        for (auto& kv : lab) printf("   %-54s %llu\n", kv.first.c_str(), (unsigned long long) kv.second);
    if (harness_errs) printf("harness errors: %llu (%s)\n", (unsigned long long) harness_errs, harness_msg.c_str());
    if (unrepro) printf("unreproduced: %llu\n", (unsigned long long) unrepro);
    (void) replay_bad;
    if (violated) {
        printf("%s\n", vmsg.c_str());
        printf("VIOLATION property=%s replay=%s\n", c.id, vreplay.c_str());
        return 1;
    }
    return 0;
}

static const Check* find(const char* id)
{
    for (auto& c : checks()) if (!strcmp(c.id, id)) return &c;
    return 0;
}

} // namespace pbt

using namespace pbt;

int (*pbt::command)(int, char**) = 0;

#ifndef PBT_NO_MAIN
int main(int argc, char** argv)
{
    if (pbt::command) { int r = pbt::command(argc, argv); if (r >= 0) return r; }
    // Same addresses in every run.
    if (!getenv("PBT_NOASLR")) {
        setenv("PBT_NOASLR", "1", 1);
        int cur = personality(0xffffffff);
        if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    if (argc < 2) { fprintf(stderr, "usage: rmcheck list | run ID OUTDIR EVIDENCE | replay FILE [-v]\n"); return 2; }
    std::string cmd = argv[1];
    const char* e;
    uint64_t seed = (e = getenv("VERIF_SEED")) && *e ? strtoull(e, 0, 10) : 1;
    thorough = (e = getenv("VERIF_TIER")) && !strcmp(e, "thorough");
    int workers = (e = getenv("RC_WORKERS")) ? atoi(e) : 8;
    if (cmd == "list") { for (auto& c : checks()) if (strcmp(c.id, "ALL")) printf("%s\t%s\n", c.id, c.rule); return 0; }
    if (cmd == "run" && argc >= 5) {
        auto* c = find(argv[2]);
        if (!c) { fprintf(stderr, "no check %s\n", argv[2]); return 2; }
        prop = c->id;
        every_oracle(false);
        uint64_t n = thorough ? c->thorough_cases : c->quick_cases;
        if ((e = getenv("RC_CASES"))) n = strtoull(e, 0, 10);
        return do_run(*c, seed, n, workers, argv[3], argv[4], true);
    }
    if (cmd == "replay" && argc >= 3) {
        FILE* f = fopen(argv[2], "r");
        if (!f) { perror(argv[2]); return 2; }
        char id[64] = "";
        std::vector<uint64_t> seq;
        char* line = 0; size_t cap = 0;
        while (getline(&line, &cap, f) > 0) {
            if (!strncmp(line, "property ", 9)) sscanf(line + 9, "%63s", id);
            if (!strncmp(line, "thorough ", 9)) thorough = atoi(line + 9);
            if (!strncmp(line, "choices", 7)) {
                char* p = line + 7; char* q;
                for (;;) { unsigned long long v = strtoull(p, &q, 10); if (q == p) break; seq.push_back(v); p = q; }
            }
        }
        fclose(f);
        auto* c = find(id);
        if (!c) { fprintf(stderr, "no check %s\n", id); return 2; }
        prop = c->id;
        every_oracle(false);
        bool verbose = argc > 3;
        std::string m;
        int st;
        bool bad = run_child(*c, seq, &m, 0, &st, 0, verbose);
        if (bad) { printf("%s\nVIOLATION property=%s replay=%s\n", m.c_str(), id, argv[2]); return 1; }
        printf("%s: the recorded case does not fail%s%s\n", id, m.empty() ? "" : ": ", m.c_str());
        return 0;
    }
    return 2;
}
#endif
