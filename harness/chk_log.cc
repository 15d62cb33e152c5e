// Logging: the same history at two log levels has to leave the same trace, and each level writes exactly its part of
// what the most talkative level writes, to the file that is set.
#include "rig.h"
#include <stdlib.h>
#include <string.h>
#include <pty.h>
#include <termios.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
extern "C" void rmc_log_set_file(FILE* file);
using namespace pbt;

namespace rigrun {
void world_for_prop();
void pub_for_prop();
void sub_for_prop();
void api_for_prop();
}

namespace {

// A stream in memory whose contents can be taken away.
struct Mem {
    char* p = 0; size_t n = 0, from = 0; FILE* f;
    Mem() { f = open_memstream(&p, &n); }
    ~Mem() { fclose(f); free(p); }
    std::string take() { fflush(f); std::string s(p + from, n - from); from = n; return s; }
};

struct Plan {
    uint64_t seed; int fixed; bool vary_file, junk;
    int level(uint64_t k) const { return fixed >= 0 ? fixed : (int) (mix(seed + k / 3) % 7); }
    int file(uint64_t k) const { return vary_file ? (int) (mix(seed * 31 + k / 5) & 1) : 0; }
};

struct Run {
    const Plan* plan;
    bool full;                                  // everything is logged
    Mem* out[2];
    uint64_t k = 0;
    std::vector<std::string> text[2], between[2];
    std::vector<std::string> trace;
    int bad_level = 0;
};
static Run* run_;

static void set_level(int l)
{
    if (_rmc_log_level != l) FAILIF("C31", rmc_set_log_level(l), "setting log level %d was refused", l);
    FAILIF("C31", _rmc_log_level != l, "the log level is %d after setting %d", _rmc_log_level, l);
}
static void on_call(bool enter)
{
    Run& r = *run_;
    if (enter) {
        // What calls that are not announced logged, at the level and to the file of the last one that was.
        for (int f = 0; f < 2; ++f) r.between[f].push_back(r.out[f]->take());
        set_level(r.full ? RMC_LOG_LEVEL_DEBUG : r.plan->level(r.k));
        rmc_log_set_file(r.out[r.plan->file(r.k)]->f);
        return;
    }
    for (int f = 0; f < 2; ++f) r.text[f].push_back(r.out[f]->take());
    ++r.k;
}

static const char tags[] = "?FEWICD";
// Where a record starts: colour, [tag], colour, a number.
static int record_at(const char* s, const char* end)
{
    const char* p = s;
    auto skip = [&] { while (p < end && *p == 033) { while (p < end && *p != 'm') ++p; if (p < end) ++p; } };
    skip();
    if (p + 4 > end || p[0] != '[' || p[2] != ']') return -1;
    const char* t = strchr(tags, p[1]);
    if (!t || !p[1]) return -1;
    p += 3;
    skip();
    if (p >= end || *p != ' ') return -1;
    return (int) (t - tags);
}
// The records of `s` up to a level.
static std::string filter(const std::string& s, int level, uint64_t& n, bool& parsed)
{
    std::string r;
    size_t at = 0;
    int cur = -1;
    while (at < s.size()) {
        size_t nl = s.find('\n', at);
        size_t end = nl == std::string::npos ? s.size() : nl + 1;
        int l = record_at(s.data() + at, s.data() + end);
        if (l >= 0) { cur = l; ++n; }
        if (cur < 0) parsed = false;
        if (cur <= level) r.append(s, at, end - at);
        at = end;
    }
    return r;
}

static void one_run(Run& r, void (*body)())
{
    run_ = &r;
    rig::on_call = on_call;
    set_level(r.full ? RMC_LOG_LEVEL_DEBUG : r.plan->level(0));
    rmc_log_set_file(r.out[r.plan->file(0)]->f);
    pbt::capture = &r.trace;
    body();
    pbt::capture = 0;
    rig::on_call = 0;
    for (int f = 0; f < 2; ++f) r.between[f].push_back(r.out[f]->take());
    run_ = 0;
    rmc_log_set_file(0);
    rmc_set_log_level(RMC_LOG_LEVEL_NONE);
    sim::reset();
}

static void metamorphic()
{
    Plan plan;
    plan.seed = src.draw(1 << 30);
    plan.fixed = src.chance(50) ? (int) src.draw(6) : -1;
    plan.vary_file = src.chance(30);
    bool color = src.chance(20);
    int which = src.weighted({35, 35, 20, 10});
    void (*body)() = which == 0 ? rigrun::pub_for_prop : which == 1 ? rigrun::sub_for_prop : which == 2 ? rigrun::api_for_prop : rigrun::world_for_prop;
    Mem a, b, c, d;
    Run quiet{&plan, false, {&a, &b}}, loud{&plan, true, {&c, &d}};
    rmc_log_use_color(color);
    size_t from = src.pos;
    one_run(quiet, body);
    src.again(from);
    one_run(loud, body);
    src.end_again();
    rmc_log_use_color(0);

    size_t n = std::min(quiet.trace.size(), loud.trace.size());
    for (size_t k = 0; k < n; ++k)
        FAILIF("C31", quiet.trace[k] != loud.trace[k], "the behaviour depends on the log level: \"%s\" and, with everything logged, \"%s\"", quiet.trace[k].c_str(), loud.trace[k].c_str());
    FAILIF("C31", quiet.trace.size() != loud.trace.size(), "the behaviour depends on the log level: %zu steps and, with everything logged, %zu", quiet.trace.size(), loud.trace.size());
    FAILIF("C31", quiet.k != loud.k, "the behaviour depends on the log level: %llu calls and, with everything logged, %llu", (unsigned long long) quiet.k, (unsigned long long) loud.k);

    uint64_t recs = 0, kept = 0;
    bool parsed = true;
    auto compare = [&](size_t k, const std::vector<std::string>* qs, const std::vector<std::string>* ls, size_t at, const char* what) {
        for (int f = 0; f < 2; ++f) {
            const std::string& q = qs[f][at];
            const std::string& l = ls[f][at];
            if (plan.file(k) != f) {
                FAILIF("C31", !q.empty() || !l.empty(), "output went to a file that was not set: %.200s", q.empty() ? l.c_str() : q.c_str());
                continue;
            }
            int lv = plan.level(k);
            std::string w = filter(l, lv, recs, parsed);
            if (!parsed) return;
            kept += !q.empty();
            FAILIF("C31", q != w, "at level %d %s %zu logged \"%.300s\"; of what is logged with everything on, \"%.300s\" is at this level", lv, what, k, q.c_str(), w.c_str());
        }
    };
    for (size_t k = 0; parsed && k <= quiet.k; ++k) {
        compare(k ? k - 1 : 0, quiet.between, loud.between, k, "after call");
        if (k < quiet.k) compare(k, quiet.text, loud.text, k, "call");
    }
    if (!parsed) label("log records not recognised");
    count("log records", recs);
    count("calls that logged at the lower level", kept);
    label(which == 0 ? "scripted subscribers" : which == 1 ? "scripted publishers" : which == 2 ? "API calls" : "simulation");
    if (recs && quiet.trace.size() > 5) nontrivial();
}

// The macros themselves, which applications use as well.
#define AT_LEVEL(l, i, ...) switch (l) { \
    case 0: RMC_LOG_INDEX_FATAL(i, __VA_ARGS__); break; case 1: RMC_LOG_INDEX_ERROR(i, __VA_ARGS__); break; case 2: RMC_LOG_INDEX_WARNING(i, __VA_ARGS__); break; \
    case 3: RMC_LOG_INDEX_INFO(i, __VA_ARGS__); break; case 4: RMC_LOG_INDEX_COMMENT(i, __VA_ARGS__); break; case 5: RMC_LOG_INDEX_DEBUG(i, __VA_ARGS__); break; \
    case 6: RMC_LOG_FATAL(__VA_ARGS__); break; case 7: RMC_LOG_ERROR(__VA_ARGS__); break; case 8: RMC_LOG_WARNING(__VA_ARGS__); break; \
    case 9: RMC_LOG_INFO(__VA_ARGS__); break; case 10: RMC_LOG_COMMENT(__VA_ARGS__); break; default: RMC_LOG_DEBUG(__VA_ARGS__); break; }

static void direct()
{
    Mem m[3];
    FILE* real = stdout;
    int file = 2;                               // 2: none set, standard output
    int level = 0;
    uint64_t written = 0, silent = 0;
    stdout = m[2].f;
    rmc_log_set_file(0);
    rmc_log_use_color(0);
    rmc_set_log_level(0);
    auto put_back = [&] { stdout = real; rmc_log_set_file(0); rmc_log_use_color(0); rmc_set_log_level(0); };
    int n = (int) src.range(3, 40);
    for (int k = 0; k < n; ++k) {
        switch (src.weighted({10, 4, 2, 2, 1})) {
        case 0: {
            int which = (int) src.draw(12);
            uint16_t index = (uint16_t) (src.chance(50) ? src.one_of<int>({0, 1, 8, 9, 999, 1000, 0x7FFC, 0x7FFD, 0x7FFE, 0x7FFF, 0x8000, 0xFFFF}) : src.draw(65536));
            size_t len = src.chance(10) ? 20000 : src.size_biased(0, 2000);
            std::string msg(len, 'x');
            for (size_t i = 0; i < len; ++i) msg[i] = (char) ('a' + mix(i + k) % 26);
            int num = (int) src.draw(100000);
            errno = 4711;
            AT_LEVEL(which, index, "%d<%s>%u", num, msg.c_str(), (unsigned) k);
            int e = errno;
            bool want = which % 6 + 1 <= level;
            char pre[32], post[32];
            snprintf(pre, sizeof(pre), "%d<", num);
            snprintf(post, sizeof(post), ">%u\n", (unsigned) k);
            std::string full = pre + msg + post;
            (want ? written : silent)++;
            for (int f = 0; f < 3; ++f) {
                std::string t = m[f].take();
                bool here = want && f == file;
                bool ok = here ? t.size() >= full.size() && !t.compare(t.size() - full.size(), full.size(), full) && t.find('\n') == t.size() - 1 : t.empty();
                if (!ok) { put_back(); FAILIF("C31", true, "a message of level %d at log level %d: file %d (file %d is set) got \"%.200s\"", which % 6 + 1, level, f, file, t.c_str()); return; }
            }
            if (e != 4711) { put_back(); FAILIF("C31", true, "logging changed errno to %d", e); return; }
            break;
        }
        case 1: {
            level = (int) src.draw(7);
            int r = rmc_set_log_level(level);
            if (r || _rmc_log_level != level) { put_back(); FAILIF("C31", true, "setting log level %d returned %d", level, r); return; }
            break;
        }
        case 2: {
            int bad = src.one_of<int>({-1, 7, 8, 100, -100, 0x7FFFFFFF, (int) 0x80000000, 256});
            int r = rmc_set_log_level(bad);
            for (int f = 0; f < 3; ++f) m[f].take();
            // Refused or ignored: either way it is not the level afterwards.
            if (!r || _rmc_log_level != level) { put_back(); FAILIF("C31", true, "setting log level %d returned %d and leaves level %d, it was %d", bad, r, _rmc_log_level, level); return; }
            break;
        }
        case 3:
            file = (int) src.draw(3);
            rmc_log_set_file(file == 2 ? 0 : m[file].f);
            break;
        default:
            rmc_log_use_color((int) src.draw(2));
        }
    }
    put_back();
    label("macros");
    count("messages written", written);
    count("messages suppressed", silent);
    feature(written * 1000 + silent);
    if (written && silent) nontrivial();
}

static void log_case()
{
    if (src.chance(15)) direct(); else metamorphic();
}

static Reg r31({"C31", log_case, "a history of more than five steps was repeated and left log records at the highest level, or messages were both written and suppressed", 6000, 300000, "metamorphic"});

// What a record says: level, milliseconds since the start time, connection, place in the source and message, with colours
// only where they are wanted.
struct Out {
    FILE* f = 0; char* p = 0; size_t n = 0, from = 0; int master = -1;
    bool tty() const { return master >= 0; }
    explicit Out(bool want_tty)
    {
        int slave;
        termios t;
        memset(&t, 0, sizeof t);
        if (want_tty && !openpty(&master, &slave, 0, 0, 0)) {
            tcgetattr(slave, &t);
            cfmakeraw(&t);
            tcsetattr(slave, TCSANOW, &t);
            f = fdopen(slave, "w");
        }
        else { master = -1; f = open_memstream(&p, &n); }
    }
    ~Out() { fclose(f); free(p); if (master >= 0) ::close(master); }
    std::string take()
    {
        fflush(f);
        if (master < 0) { std::string s(p + from, n - from); from = n; return s; }
        std::string s;
        char b[4096];
        pollfd pf{master, POLLIN, 0};
        while (poll(&pf, 1, 0) == 1 && (pf.revents & POLLIN)) { ssize_t r = ::read(master, b, sizeof b); if (r <= 0) break; s.append(b, r); }
        return s;
    }
};

static std::string without_colours(const std::string& s, int& colours, bool& reset)
{
    std::string r;
    colours = 0; reset = true;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != 033) { r += s[i]; continue; }
        size_t e = s.find('m', i);
        if (e == std::string::npos) { r += s.substr(i); break; }
        ++colours;
        reset = s.compare(i, e - i + 1, "\033[0m") == 0 || s.compare(i, e - i + 1, "\033[m") == 0;
        i = e;
    }
    return r;
}

static void from_environment()
{
    static std::string self;
    if (self.empty()) { char b[4096]; ssize_t l = readlink("/proc/self/exe", b, sizeof b); if (l > 0) self.assign(b, l); }
    std::string v = src.one_of<const char*>({"0", "1", "2", "3", "4", "5", "6", "7", "-1", "100", "", 0}) ?: "-";
    std::string c = (v == "-" ? "env -u RMC_LOG_LEVEL '" : "RMC_LOG_LEVEL='" + v + "' '") + self + "' loglevel";
    note("%s", c.c_str());
    FILE* p = popen(c.c_str(), "r");
    if (!p) { discard("no process"); return; }
    int got = -1;
    if (fscanf(p, "level %d", &got) != 1) got = -1;
    std::string rest;
    for (int ch; (ch = fgetc(p)) != EOF;) rest += (char) ch;
    pclose(p);
    int want = v == "-" ? 0 : atoi(v.c_str());
    if (want < 0 || want > 6) want = 0;
    if (got < 0) { discard("no answer"); return; }
    FAILIF("C37", got != want, "with RMC_LOG_LEVEL %s the log level is %d", v.c_str(), got);
    FAILIF("C37", rest.find(033) != std::string::npos, "a record that goes to a pipe has colours");
    FAILIF("C37", rest.find("[F]") == std::string::npos, "a fatal record was not written to standard output");
    label("environment");
    nontrivial();
}

static void records()
{
    if (src.chance(1)) return from_environment();
    bool some_tty = src.chance(10);
    Out o[3] = {Out(some_tty && src.chance(60)), Out(some_tty && src.chance(60)), Out(some_tty && src.chance(30))};
    FILE* real = stdout;
    int64_t old_tick = sim::tick;
    int64_t start = 0;
    int file = 2, use = 0;                      // 2: none set, standard output
    uint64_t records = 0, coloured = 0;
    stdout = o[2].f;
    sim::tick = 0;
    sim::now = 0;
    rmc_log_set_start_time();                   // the clock says 0: as if never set
    rmc_log_set_file(0);
    rmc_log_use_color(0);
    rmc_set_log_level(RMC_LOG_LEVEL_DEBUG);
    auto put_back = [&] { stdout = real; sim::now = 0; rmc_log_set_start_time(); rmc_log_set_file(0); rmc_log_use_color(0); rmc_set_log_level(0); sim::tick = old_tick; };
#define WRONG(cond, ...) do { if (cond) { put_back(); FAILIF("C37", true, __VA_ARGS__); return; } } while (0)
    sim::now = src.one_of<int64_t>({1, 1000, 1000000, 0x7FFFFFFFll, 0x80000000ll, 0xFFFFFFFFll, 5000000000ll, 4000000000000ll});
    int n = (int) src.range(2, 40);
    for (int k = 0; k < n; ++k) {
        switch (src.weighted({12, 3, 2, 2, 2})) {
        case 0: {
            int which = (int) src.draw(12);
            uint16_t index = (uint16_t) (src.chance(60) ? src.draw(12) : src.chance(50) ? src.one_of<int>({99, 100, 999, 1000, 0x7FFC, 0x7FFD, 0x7FFE, 0x7FFF, 0x8000, 0xFFFF}) : src.draw(65536));
            size_t len = src.size_biased(0, 300);
            std::string msg(len, 'x');
            for (size_t i = 0; i < len; ++i) msg[i] = (char) ('a' + mix(i + k) % 26);
            int num = (int) src.draw(100000);
            int line = __LINE__ + 1;
            AT_LEVEL(which, index, "%d<%s>%u", num, msg.c_str(), (unsigned) k);
            ++records;
            int shown = which < 6 ? index : RMC_NIL_INDEX;
            char about[32], want[200];
            if (shown == RMC_NIL_INDEX) strcpy(about, "     ");
            else if (shown == 0x7FFE) strcpy(about, "[UDP]");
            else if (shown == 0x7FFD) strcpy(about, "[CTL]");
            else snprintf(about, sizeof about, "[%.3d]", shown);
            snprintf(want, sizeof want, "[%c] %lld %s %s:%d ", tags[which % 6 + 1], start ? (long long) ((sim::now - start) / 1000) : 0ll, about, __FILE__, line);
            char end[32];
            snprintf(end, sizeof end, ">%u\n", (unsigned) k);
            std::string full = want + std::to_string(num) + "<" + msg + end;
            std::string t = o[file].take();
            int colours;
            bool reset;
            std::string plain = without_colours(t, colours, reset);
            bool colour = use == 1 || (use == -1 && o[file].tty());
            coloured += colour;
            note("at %lld index %u: %s", (long long) sim::now, shown, plain.substr(0, 100).c_str());
            WRONG(plain != full, "a record is \"%.200s\", not \"%.200s\"", plain.c_str(), full.c_str());
            WRONG(!colour && colours, "a record has colours %s", use == 0 ? "though they are off" : "though it does not go to a terminal");
            WRONG(colour && !colours, "a record has no colours %s", use == 1 ? "though they are on" : "though it goes to a terminal");
            WRONG(!reset, "a record leaves a colour on");
            for (int f = 0; f < 3; ++f) WRONG(f != file && !o[f].take().empty(), "a record went to a file that is not set");
            break;
        }
        case 1:
            sim::now += src.chance(50) ? src.draw(3000) : src.one_of<int64_t>({999, 1000, 1000000, 3600000000ll, 0x7FFFFFFFll, 0xFFFFFFFFll});
            break;
        case 2:
            rmc_log_set_start_time();
            start = sim::now;
            WRONG(rmc_log_get_start_time() != start, "the start time is %lld after setting it at %lld", (long long) rmc_log_get_start_time(), (long long) start);
            break;
        case 3:
            file = (int) src.draw(3);
            rmc_log_set_file(file == 2 ? 0 : o[file].f);
            break;
        default:
            use = (int) src.draw(3) - 1;
            rmc_log_use_color(use);
        }
    }
    put_back();
    label(some_tty ? "terminals" : "files");
    count("records", records);
    count("coloured records", coloured);
    feature(records * 1000 + coloured);
    if (records > 2 && start) nontrivial();
}
static Reg r37({"C37", records, "more than two records, the start time set in between; or the level taken from the environment", 100000, 2000000, "model"});

static int print_level(int argc, char** argv)
{
    if (argc < 2 || strcmp(argv[1], "loglevel")) return -1;
    printf("level %d\n", _rmc_log_level);
    rmc_set_log_level(RMC_LOG_LEVEL_FATAL);
    RMC_LOG_FATAL("no terminal");
    return 0;
}
static bool commands = (pbt::command = print_level, true);

} // namespace
