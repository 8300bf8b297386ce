#include "pbt.h"
#include <dirent.h>
#include <sys/prctl.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <limits>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>

namespace pbt {

// ---------------------------------------------------------------- generator

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

void Gen::seed(uint64_t x)
{
    for (auto& v: s)
    {
        x += 0x9e3779b97f4a7c15ull;
        uint64_t z = x;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        v = z ^ (z >> 31);
    }
}

uint64_t Gen::rng()
{
    uint64_t result = rotl(s[1] * 5, 7) * 9;
    uint64_t t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
    s[2] ^= t; s[3] = rotl(s[3], 45);
    return result;
}

int64_t Gen::edgy(int64_t lo, int64_t hi)
{
    if (lo >= hi) return lo;
    switch (draw(10))
    {
        case 0: return lo;
        case 1: return hi;
        case 2: return std::min(hi, lo + (int64_t)draw(4));
        case 3: return std::max(lo, hi - (int64_t)draw(4));
        case 4: {
            int64_t v = (int64_t)draw(21) - 10;
            return std::max(lo, std::min(hi, v));
        }
        case 5: {
            // Around a power of two
            int64_t v = (int64_t)1 << draw(40);
            v += (int64_t)draw(3) - 1;
            if (draw(2)) v = -v;
            return std::max(lo, std::min(hi, v));
        }
        case 6: {
            // Around a power of ten
            int64_t v = 1;
            for (unsigned i = draw(13); i; --i) v *= 10;
            v += (int64_t)draw(3) - 1;
            if (draw(2)) v = -v;
            return std::max(lo, std::min(hi, v));
        }
        default: return range(lo, hi);
    }
}

double Gen::any_double()
{
    switch (draw(12))
    {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: return std::numeric_limits<double>::quiet_NaN();
        case 3: return draw(2) ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::infinity();
        case 4: return (draw(2) ? -1.0 : 1.0) * std::ldexp(1.0, (int)draw(80)) + ((double)draw(3) - 1.0);
        case 5: return (draw(2) ? -1.0 : 1.0) * std::numeric_limits<double>::max();
        case 6: return std::numeric_limits<double>::denorm_min();
        case 7: {
            uint64_t v = draw(0);
            double d;
            memcpy(&d, &v, 8);
            return d;
        }
        case 8: case 9: return (double)range(-1000000, 1000000) / 1000.0;
        default: return (double)edgy(-5000000000ll, 5000000000ll) / std::pow(10.0, (double)draw(6));
    }
}

unsigned Gen::size(unsigned max)
{
    if (!max) return 0;
    switch (draw(4))
    {
        case 0: return (unsigned)draw(std::min(max, 3u) + 1);
        case 1: case 2: return (unsigned)draw(std::min(max, 12u) + 1);
        default: return (unsigned)draw(max + 1ull);
    }
}

std::string Gen::bytes(size_t n)
{
    std::string res;
    for (size_t i = 0; i < n; ++i) res += (char)byte();
    return res;
}

std::string Gen::ascii(size_t n)
{
    std::string res;
    for (size_t i = 0; i < n; ++i) res += (char)(0x20 + (draw(95) + 33) % 95);
    return res;
}

// ---------------------------------------------------------------- utilities

uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}

void Ctx::nontrivial(const std::string& content)
{
    nontrivial(hash_str(content));
}

std::string hex(const std::string& s, size_t max)
{
    std::string res;
    for (size_t i = 0; i < s.size() && i < max; ++i)
    {
        char buf[4];
        snprintf(buf, 4, "%02x", (unsigned)(uint8_t)s[i]);
        res += buf;
    }
    if (s.size() > max) res += "...";
    return res;
}

std::string quote(const std::string& s, size_t max)
{
    std::string res = "\"";
    for (size_t i = 0; i < s.size() && i < max; ++i)
    {
        uint8_t c = (uint8_t)s[i];
        if (c == '\n') res += "\\n";
        else if (c == '\r') res += "\\r";
        else if (c < 32 || c > 126 || c == '"' || c == '\\')
        {
            char buf[8];
            snprintf(buf, 8, "\\x%02x", c);
            res += buf;
        } else
            res += (char)c;
    }
    if (s.size() > max) res += "...";
    return res + "\"";
}

std::string strf(const char* fmt, ...)
{
    char* buf = nullptr;
    va_list ap;
    va_start(ap, fmt);
    if (vasprintf(&buf, fmt, ap) == -1) buf = nullptr;
    va_end(ap);
    std::string res(buf ? buf : "");
    free(buf);
    return res;
}

std::vector<Property>& registry()
{
    static std::vector<Property> r;
    return r;
}

static std::string scratch_base;
std::string scratch_dir()
{
    static std::string dir;
    static pid_t owner = 0;
    if (owner != getpid() || dir.empty())
    {
        owner = getpid();
        dir = scratch_base + strf("/p%d", (int)owner);
        mkdir(dir.c_str(), 0700);
    }
    return dir;
}

static void rm_rf(const std::string& path)
{
    DIR* d = opendir(path.c_str());
    if (d)
    {
        while (dirent* e = readdir(d))
        {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string p = path + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(p);
            else unlink(p.c_str());
        }
        closedir(d);
    }
    rmdir(path.c_str());
}

static double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9;
}

// ---------------------------------------------------------------- execution

enum Status { ST_OK = 0, ST_DISCARD = 1, ST_FAIL = 2, ST_CRASH = 3, ST_TIMEOUT = 4 };
static const char* status_names[] = { "ok", "discard", "fail", "crash", "timeout" };

struct Shared
{
    volatile uint64_t case_idx;
    volatile uint64_t cases_done;
    volatile uint64_t tape_len;
    volatile uint32_t status;
    volatile uint32_t from_tape;
    char msg[65536];
    uint64_t tape[1 << 20];
};

static const size_t TAPE_CAP = 1 << 20;
static unsigned case_cpu_limit = 40;

static Shared* g_cur_shared = nullptr;

static void on_cpu_limit(int)
{
    if (g_cur_shared) g_cur_shared->status = ST_TIMEOUT;
    _exit(77);
}

static void arm_timer(unsigned secs)
{
    itimerval it;
    memset(&it, 0, sizeof(it));
    it.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &it, nullptr);
    // A case that waits for something that never comes
    it.it_value.tv_sec = secs ? secs + 30 : 0;
    setitimer(ITIMER_REAL, &it, nullptr);
}

static void set_msg(Shared* sh, const std::string& m)
{
    size_t n = std::min(m.size(), sizeof(sh->msg) - 1);
    memcpy(sh->msg, m.data(), n);
    sh->msg[n] = 0;
}

// Run one case in this process
static Status run_case(const Property& p, Ctx& ctx, std::string& msg)
{
    try {
        p.run(ctx);
        return ST_OK;
    } catch (Fail& f) {
        msg = f.msg;
        return ST_FAIL;
    } catch (Discard& d) {
        msg = d.why;
        ctx.label("discard: " + d.why);
        return ST_DISCARD;
    } catch (std::exception& e) {
        int st = 0;
        char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        msg = std::string("unexpected exception ") + (n ? n : "?") + ": " + e.what();
        free(n);
        return ST_FAIL;
    }
}

static uint64_t case_seed(uint64_t seed, const std::string& prop, uint64_t idx)
{
    uint64_t h = hash_str(prop);
    h = hash_bytes(&seed, 8, h);
    h = hash_bytes(&idx, 8, h);
    return h;
}

struct Outcome
{
    Status status;
    std::string msg;
    std::vector<uint64_t> tape;   // consumed choices
    std::string sample;
};

static Shared* new_shared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared*)p;
}

static std::string read_file(const std::string& path)
{
    std::string res;
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return res;
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof(buf), f)) > 0) res.append(buf, n);
    fclose(f);
    return res;
}

static std::string crash_summary(const std::string& text, int wstatus)
{
    std::string res;
    size_t pos;
    if ((pos = text.find("SUMMARY: ")) != std::string::npos)
        res = text.substr(pos, text.find('\n', pos) - pos);
    if ((pos = text.find("runtime error: ")) != std::string::npos)
    {
        size_t b = text.rfind('\n', pos);
        b = b == std::string::npos ? 0 : b + 1;
        res += " " + text.substr(b, text.find('\n', pos) - b);
    }
    if ((pos = text.find("Assertion ")) != std::string::npos)
        res += " " + text.substr(pos, text.find('\n', pos) - pos);
    if (WIFSIGNALED(wstatus)) res += strf(" (killed by signal %d)", WTERMSIG(wstatus));
    else if (WIFEXITED(wstatus)) res += strf(" (exit status %d)", WEXITSTATUS(wstatus));
    return res;
}

// End the processes that cases left behind: they are children of this process,
// which is their subreaper. Only for when no worker is running
static void kill_orphans()
{
    for (unsigned round = 0; round < 50; ++round)
    {
        int ws;
        pid_t r;
        while ((r = waitpid(-1, &ws, WNOHANG)) > 0) ;
        if (r == -1) return;
        DIR* d = opendir("/proc");
        if (!d) return;
        while (dirent* e = readdir(d))
        {
            int pid = atoi(e->d_name);
            if (pid <= 1) continue;
            FILE* f = fopen(strf("/proc/%d/stat", pid).c_str(), "r");
            if (!f) continue;
            char buf[512];
            size_t n = fread(buf, 1, sizeof(buf) - 1, f);
            fclose(f);
            buf[n] = 0;
            const char* c = strrchr(buf, ')');
            int ppid;
            if (c && sscanf(c + 1, " %*c %d", &ppid) == 1 && ppid == getpid()) kill(pid, SIGKILL);
        }
        closedir(d);
        usleep(2000);
    }
}

// Run a tape, or a sequence of seeded cases, in a forked child
static Outcome run_forked(const Property& p, const std::vector<uint64_t>* tape,
        uint64_t seed, uint64_t first, uint64_t step, uint64_t last, Shared* sh, bool verbose = false)
{
    Outcome res;
    memset((void*)sh, 0, offsetof(Shared, msg));
    sh->msg[0] = 0;
    std::string errfile = scratch_base + "/stderr";
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        g_cur_shared = sh;
        signal(SIGPROF, on_cpu_limit);
    signal(SIGALRM, on_cpu_limit);
        if (!verbose)
        {
            int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(fd, 2);
        }
        Status st = ST_OK;
        std::string msg, sample;
        for (uint64_t idx = first; ; idx += step)
        {
            Gen g;
            if (tape)
            {
                g.replay = tape->data();
                g.replay_len = tape->size();
            } else {
                g.random_mode = true;
                g.seed(case_seed(seed, p.id, idx)); g.case_idx = idx;
            }
            sh->tape_len = 0;
            g.record = sh->tape;
            g.record_cap = TAPE_CAP;
            g.record_len = &sh->tape_len;
            Ctx ctx(g);
            ctx.verbose = verbose;
            ctx.want_sample = true;
            arm_timer(case_cpu_limit);
            st = run_case(p, ctx, msg);
            sample = ctx.sample;
            if (tape || st == ST_FAIL || idx >= last) break;
        }
        arm_timer(0);
        set_msg(sh, msg + (sample.empty() ? "" : "\n  case: " + sample));
        sh->status = st;
        _exit(st == ST_FAIL ? 10 : st == ST_DISCARD ? 11 : 12);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    kill_orphans();
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 10) res.status = ST_FAIL;
    else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 11) res.status = ST_DISCARD;
    else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 12) res.status = ST_OK;
    else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 77 && sh->status == ST_TIMEOUT)
        { res.status = ST_TIMEOUT; set_msg(sh, strf("did not finish within %u s of CPU time or %u s", case_cpu_limit, case_cpu_limit + 30)); }
    else
    {
        res.status = ST_CRASH;
        set_msg(sh, "crashed: " + crash_summary(read_file(errfile), ws));
    }
    res.msg = sh->msg;
    res.tape.assign(sh->tape, sh->tape + std::min<uint64_t>((uint64_t)sh->tape_len, TAPE_CAP));
    return res;
}

static bool bad(Status s) { return s == ST_FAIL || s == ST_CRASH || s == ST_TIMEOUT; }

static std::vector<uint64_t> shrink(const Property& p, std::vector<uint64_t> best, Status kind, Shared* sh, double budget, unsigned& tries)
{
    double deadline = now() + budget;
    unsigned saved = case_cpu_limit;
    auto test = [&](const std::vector<uint64_t>& cand) -> bool {
        ++tries;
        Outcome o = run_forked(p, &cand, 0, 0, 1, 0, sh);
        if (o.status != kind) return false;
        if (o.tape.size() < cand.size()) best = o.tape;
        else best = cand;
        return true;
    };
    if (kind == ST_TIMEOUT) { case_cpu_limit = saved; deadline = now() + budget; }
    bool progress = true;
    while (progress && now() < deadline)
    {
        progress = false;
        // Delete blocks
        for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && now() < deadline; len /= 2)
        {
            for (size_t i = 0; i + len <= best.size() && now() < deadline; )
            {
                std::vector<uint64_t> cand(best);
                cand.erase(cand.begin() + (ptrdiff_t)i, cand.begin() + (ptrdiff_t)(i + len));
                if (test(cand)) progress = true;
                else i += len;
            }
            if (len == 1) break;
        }
        // Zero blocks
        for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1 && now() < deadline; len /= 2)
        {
            for (size_t i = 0; i + len <= best.size() && now() < deadline; i += len)
            {
                bool any = false;
                for (size_t j = i; j < i + len; ++j) any = any || best[j];
                if (!any) continue;
                std::vector<uint64_t> cand(best);
                std::fill(cand.begin() + (ptrdiff_t)i, cand.begin() + (ptrdiff_t)(i + len), 0);
                if (test(cand)) progress = true;
            }
            if (len == 1) break;
        }
        // Lower single values
        for (size_t i = 0; i < best.size() && now() < deadline; ++i)
        {
            uint64_t lo = 0;
            while (i < best.size() && best[i] > lo && now() < deadline)
            {
                uint64_t mid = lo + (best[i] - lo) / 2;
                std::vector<uint64_t> cand(best);
                cand[i] = mid;
                if (test(cand)) progress = true;
                else { lo = mid + 1; }
            }
        }
    }
    return best;
}

static std::string json_str(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c: s)
    {
        if (c == '"') r += "\\\"";
        else if (c == '\\') r += "\\\\";
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

// ---------------------------------------------------------------- coverage guidance

// Counters of the instrumented library code
static std::vector<std::pair<uint8_t*, uint8_t*>>& cov_modules()
{
    static std::vector<std::pair<uint8_t*, uint8_t*>> m;
    return m;
}

// Tapes that reached code (or repetitions of it) that no other did before, and
// mutations of them
struct Guide
{
    std::vector<uint8_t> seen;      // classes of counts seen for each counter
    std::vector<std::vector<uint64_t>> corpus;
    size_t total = 0;
    Gen rnd;
    uint64_t edges = 0, features = 0;

    explicit Guide(uint64_t seed)
    {
        for (const auto& m: cov_modules()) total += (size_t)(m.second - m.first);
        seen.resize(total);
        rnd.random_mode = true;
        rnd.seed(seed);
    }
    void reset() { for (const auto& m: cov_modules()) memset(m.first, 0, (size_t)(m.second - m.first)); }
    static uint8_t bucket(uint8_t c)
    {
        return c >= 128 ? 128 : c >= 32 ? 64 : c >= 16 ? 32 : c >= 8 ? 16 : c >= 4 ? 8 : c >= 3 ? 4 : c >= 2 ? 2 : 1;
    }
    // Look at the counters after a case
    unsigned collect()
    {
        unsigned fresh = 0;
        size_t i = 0;
        for (const auto& m: cov_modules())
        {
            uint8_t* c = m.first;
            while (c < m.second)
            {
                if (c + 8 <= m.second && ((uintptr_t)c & 7) == 0 && !*(uint64_t*)c) { c += 8; i += 8; continue; }
                if (*c)
                {
                    uint8_t b = bucket(*c);
                    if (!(seen[i] & b)) { if (!seen[i]) ++edges; seen[i] |= b; ++features; ++fresh; }
                }
                ++c; ++i;
            }
        }
        return fresh;
    }
    void add(const uint64_t* tape, size_t n)
    {
        if (n > 20000) return;
        corpus.push_back(std::vector<uint64_t>(tape, tape + n));
        if (corpus.size() > 4000) corpus.erase(corpus.begin() + (ptrdiff_t)rnd.draw(3000));
    }
    uint64_t value(uint64_t old)
    {
        switch (rnd.draw(7))
        {
            case 0: return 0;
            case 1: return old + 1;
            case 2: return old ? old - 1 : 0;
            case 3: return rnd.draw(16);
            case 4: return rnd.draw(256);
            case 5: return ~0ull - rnd.draw(4);
            default: return rnd.draw(0);
        }
    }
    std::vector<uint64_t> mutate()
    {
        // The most recent ones are the most interesting
        size_t n = corpus.size(), w = rnd.boolean() ? std::min<size_t>(n, 20) : n;
        std::vector<uint64_t> t = corpus[n - 1 - rnd.draw(w)];
        for (unsigned k = 1 + rnd.size(5); k; --k)
        {
            size_t at = t.empty() ? 0 : rnd.draw(t.size());
            size_t len = t.empty() ? 0 : std::min<size_t>(t.size() - at, 1 + rnd.size(16));
            switch (rnd.draw(8))
            {
                case 0: t.erase(t.begin() + (ptrdiff_t)at, t.begin() + (ptrdiff_t)(at + len)); break;
                case 1: { std::vector<uint64_t> b(t.begin() + (ptrdiff_t)at, t.begin() + (ptrdiff_t)(at + len)); t.insert(t.begin() + (ptrdiff_t)at, b.begin(), b.end()); break; }
                case 2: { std::vector<uint64_t> b; for (size_t i = 0; i < 1 + len / 2; ++i) b.push_back(value(0)); t.insert(t.begin() + (ptrdiff_t)at, b.begin(), b.end()); break; }
                case 3:
                {
                    const auto& o = corpus[rnd.draw(n)];
                    if (o.empty()) break;
                    size_t from = rnd.boolean() ? std::min(at, o.size() - 1) : rnd.draw(o.size());
                    t.resize(at);
                    t.insert(t.end(), o.begin() + (ptrdiff_t)from, o.end());
                    break;
                }
                case 4: t.resize(at); break;
                default: if (!t.empty()) t[at] = value(t[at]); break;
            }
        }
        if (t.size() > 20000) t.resize(20000);
        return t;
    }
};

struct WorkerReport
{
    uint64_t guided = 0, edges = 0, features = 0, corpus = 0;
    uint64_t evaluations = 0, discards = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> distinct;
};

static void worker_main(const Property& p, uint64_t seed, unsigned w, unsigned n, uint64_t cases, double deadline, bool guided, Shared* sh)
{
    WorkerReport rep;
    Guide guide(case_seed(seed, p.id, w) ^ 0x6775696465ull);
    bool observed = guide.total != 0;
    if (!observed) guided = false;
    bool mutated = false;
    g_cur_shared = sh;
    signal(SIGPROF, on_cpu_limit);
    signal(SIGALRM, on_cpu_limit);
    int fd = open((scratch_base + strf("/stderr%u", w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 2);
    for (uint64_t idx = w; idx < cases; idx += n)
    {
        if (now() > deadline) break;
        Gen g;
        g.seed(case_seed(seed, p.id, idx)); g.case_idx = idx;
        std::vector<uint64_t> tape;
        if (mutated)
        {
            // Every other case is a mutation of one that reached new code
            tape = guide.mutate();
            g.replay = tape.data();
            g.replay_len = tape.size();
            g.random_tail = true;
            ++rep.guided;
        }
        else g.random_mode = true;
        sh->case_idx = idx;
        sh->from_tape = mutated;
        sh->tape_len = 0;
        if (observed) guide.reset();
        g.record = sh->tape;
        g.record_cap = TAPE_CAP;
        g.record_len = &sh->tape_len;
        Ctx ctx(g);
        ctx.want_sample = rep.samples.size() < 2;
        arm_timer(case_cpu_limit);
        std::string msg;
        Status st = run_case(p, ctx, msg);
        arm_timer(0);
        if (observed)
        {
            if (guide.collect() && guided && st == ST_OK) guide.add(sh->tape, std::min<uint64_t>((uint64_t)sh->tape_len, TAPE_CAP));
            mutated = guided && !mutated && !guide.corpus.empty();
        }
        ++rep.evaluations;
        if (st == ST_DISCARD) ++rep.discards;
        for (const auto& l: ctx.labels) rep.labels[l.first] += l.second;
        if (ctx.is_nontrivial && st == ST_OK)
        {
            rep.distinct.insert(ctx.hash);
            if (rep.samples.size() < 2 && !ctx.sample.empty())
                rep.samples.push_back(ctx.sample.substr(0, 3000));
        }
        if (st == ST_FAIL)
        {
            set_msg(sh, msg);
            sh->status = ST_FAIL;
            break;
        }
        sh->cases_done = idx + 1;
        // Keep the captured stderr small
        if ((rep.evaluations & 63) == 0) { if (ftruncate(fd, 0) == 0) lseek(fd, 0, SEEK_SET); }
    }
    FILE* out = fopen((scratch_base + strf("/report%u", w)).c_str(), "wb");
    if (out)
    {
        fprintf(out, "%llu %llu %zu %zu %zu %llu %llu %llu %zu\n", (unsigned long long)rep.evaluations, (unsigned long long)rep.discards,
                rep.labels.size(), rep.samples.size(), rep.distinct.size(),
                (unsigned long long)rep.guided, (unsigned long long)guide.edges, (unsigned long long)guide.features, guide.corpus.size());
        for (const auto& l: rep.labels)
            fprintf(out, "%llu %zu\n%s\n", (unsigned long long)l.second, l.first.size(), l.first.c_str());
        for (const auto& s: rep.samples)
        {
            fprintf(out, "%zu\n", s.size());
            fwrite(s.data(), 1, s.size(), out);
            fputc('\n', out);
        }
        for (uint64_t h: rep.distinct) fwrite(&h, 8, 1, out);
        fclose(out);
    }
    _exit(sh->status == ST_FAIL ? 10 : 12);
}

static bool load_report(const std::string& path, WorkerReport& rep)
{
    FILE* in = fopen(path.c_str(), "rb");
    if (!in) return false;
    unsigned long long ev, dis, gu, ed, fe;
    size_t nl, ns, nd, co;
    bool ok = fscanf(in, "%llu %llu %zu %zu %zu %llu %llu %llu %zu\n", &ev, &dis, &nl, &ns, &nd, &gu, &ed, &fe, &co) == 9;
    if (ok)
    {
        rep.guided += gu;
        rep.corpus += co;
        rep.edges = std::max<uint64_t>(rep.edges, ed);
        rep.features = std::max<uint64_t>(rep.features, fe);
        rep.evaluations += ev;
        rep.discards += dis;
        for (size_t i = 0; i < nl; ++i)
        {
            unsigned long long c; size_t len;
            if (fscanf(in, "%llu %zu", &c, &len) != 2) break;
            fgetc(in);
            std::string s(len, 0);
            if (fread(&s[0], 1, len, in) != len) break;
            fgetc(in);
            rep.labels[s] += c;
        }
        for (size_t i = 0; i < ns; ++i)
        {
            size_t len;
            if (fscanf(in, "%zu", &len) != 1) break;
            fgetc(in);
            std::string s(len, 0);
            if (fread(&s[0], 1, len, in) != len) break;
            fgetc(in);
            rep.samples.push_back(s);
        }
        uint64_t h;
        while (fread(&h, 8, 1, in) == 1) rep.distinct.insert(h);
    }
    fclose(in);
    return ok;
}

static const Property* find(const std::string& id)
{
    for (const auto& p: registry())
        if (id == p.id) return &p;
    return nullptr;
}

static void write_replay(const std::string& path, const Property& p, const std::string& kind, const std::string& msg,
        const std::vector<uint64_t>* tape, uint64_t seed, uint64_t first, uint64_t step, uint64_t last)
{
    FILE* f = fopen(path.c_str(), "wb");
    if (!f) { perror(path.c_str()); return; }
    fprintf(f, "property %s\nkind %s\n", p.id, kind.c_str());
    std::string m = msg;
    for (auto& c: m) if (c == '\n') c = ' ';
    fprintf(f, "message %s\n", m.c_str());
    if (tape)
    {
        fprintf(f, "tape %zu", tape->size());
        for (uint64_t v: *tape) fprintf(f, " %llx", (unsigned long long)v);
        fputc('\n', f);
    } else
        fprintf(f, "seq %llu %llu %llu %llu\n", (unsigned long long)seed, (unsigned long long)first,
                (unsigned long long)step, (unsigned long long)last);
    fclose(f);
}

struct Args
{
    std::string mode, prop, out, replay_dir, file;
    uint64_t seed = 1, cases = 0;
    double maxsec = 120;
    unsigned workers = 8;
    bool thorough = false, guided = false;
};

// Try the initialisation of the property (loading tables, reading samples) in
// a child process. Returns a description of what failed, or the empty string
static std::string try_init(const Property& p)
{
    if (!p.init) return std::string();
    std::string errfile = scratch_base + "/stderr-init";
    Shared* sh = new_shared();
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0)
    {
        g_cur_shared = sh;
        signal(SIGPROF, on_cpu_limit);
    signal(SIGALRM, on_cpu_limit);
        int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 2);
        arm_timer(120);
        try {
            p.init();
        } catch (Fail& f) {
            set_msg(sh, f.msg);
            _exit(10);
        } catch (std::exception& e) {
            set_msg(sh, e.what());
            _exit(10);
        }
        _exit(12);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    std::string res;
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 12) ;
    else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 10) res = std::string("loading the tables and samples failed: ") + sh->msg;
    else res = "loading the tables and samples crashed: " + crash_summary(read_file(errfile), ws);
    munmap(sh, sizeof(Shared));
    return res;
}

static int do_run(const Args& a)
{
    const Property* p = find(a.prop);
    if (!p) { fprintf(stderr, "no property %s\n", a.prop.c_str()); return 3; }
    double t0 = now();
    std::string init_error = try_init(*p);
    if (!init_error.empty())
    {
        std::string path = a.replay_dir + "/" + p->id + "-init.replay";
        write_replay(path, *p, "init", init_error, nullptr, 0, 0, 1, 0);
        FILE* out = fopen(a.out.c_str(), "wb");
        if (!out) { perror(a.out.c_str()); return 3; }
        fprintf(out, "{\"evaluations\": 1, \"discarded\": 0, \"distinct_nontrivial\": 0, \"cases_requested\": 0, \"rule\": %s, \"samples\": [], \"classes\": {}, \"violations\": 1, \"replay\": %s, \"message\": %s}\n",
                json_str(p->rule).c_str(), json_str(path).c_str(), json_str(init_error).c_str());
        fclose(out);
        return 1;
    }
    if (p->init) p->init();
    uint64_t cases = a.cases ? a.cases : (a.thorough ? p->thorough_cases : p->quick_cases);
    std::vector<Shared*> sh;
    std::vector<pid_t> pids;
    double deadline = t0 + a.maxsec;
    fflush(stdout); fflush(stderr);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    for (unsigned w = 0; w < a.workers; ++w)
    {
        sh.push_back(new_shared());
        pid_t pid = fork();
        if (pid == 0) worker_main(*p, a.seed, w, a.workers, cases, deadline, a.guided, sh[w]);
        pids.push_back(pid);
    }
    unsigned running = a.workers;
    int failed = -1;
    int fail_ws = 0;
    while (running)
    {
        int ws;
        pid_t pid = waitpid(-1, &ws, 0);
        if (pid <= 0) break;
        unsigned w = (unsigned)(std::find(pids.begin(), pids.end(), pid) - pids.begin());
        if (w >= a.workers) continue;
        --running;
        bool ok = WIFEXITED(ws) && WEXITSTATUS(ws) == 12;
        pids[w] = 0;
        if (!ok && failed < 0)
        {
            failed = (int)w;
            fail_ws = ws;
            for (pid_t o: pids) if (o) kill(o, SIGKILL);
        }
    }
    kill_orphans();
    WorkerReport rep;
    for (unsigned w = 0; w < a.workers; ++w)
        load_report(scratch_base + strf("/report%u", w), rep);

    unsigned violations = 0;
    std::string replay_path, final_msg;
    bool flaky = false;
    unsigned tries = 0;
    if (failed >= 0)
    {
        Shared* fs = sh[(unsigned)failed];
        Status kind;
        if (WIFEXITED(fail_ws) && WEXITSTATUS(fail_ws) == 10) kind = ST_FAIL;
        else if (WIFEXITED(fail_ws) && WEXITSTATUS(fail_ws) == 77 && fs->status == ST_TIMEOUT) kind = ST_TIMEOUT;
        else kind = ST_CRASH;
        uint64_t idx = fs->case_idx;
        std::string first_msg = kind == ST_FAIL ? std::string(fs->msg)
            : kind == ST_TIMEOUT ? std::string("timeout")
            : "crashed: " + crash_summary(read_file(scratch_base + strf("/stderr%u", (unsigned)failed)), fail_ws);
        rep.evaluations = std::max<uint64_t>(rep.evaluations, 1);
        printf("  worker %d case %llu: %s: %s\n", failed, (unsigned long long)idx, status_names[kind], first_msg.c_str());
        fflush(stdout);
        Shared* rs = new_shared();
        std::vector<uint64_t> ftape;
        if (fs->from_tape) ftape.assign(fs->tape, fs->tape + std::min<uint64_t>((uint64_t)fs->tape_len, TAPE_CAP));
        Outcome o = run_forked(*p, fs->from_tape ? &ftape : nullptr, a.seed, idx, 1, idx, rs);
        std::string base = a.replay_dir + "/" + p->id + strf("-seed%llu-case%llu", (unsigned long long)a.seed, (unsigned long long)idx);
        if (bad(o.status))
        {
            kind = o.status;
            std::vector<uint64_t> tape = o.tape;
            // A tape replay must reproduce before it is worth shrinking
            Outcome o2 = run_forked(*p, &tape, 0, 0, 1, 0, rs);
            if (o2.status == kind)
            {
                std::vector<uint64_t> small = kind == ST_TIMEOUT ? tape : shrink(*p, tape, kind, rs, 40, tries);
                unsigned hits = 0, runs = 0;
                for (; runs < 10 && hits < 3; ++runs)
                {
                    o2 = run_forked(*p, &small, 0, 0, 1, 0, rs);
                    if (bad(o2.status)) { ++hits; final_msg = o2.msg; }
                    if (kind == ST_TIMEOUT && runs >= 3) break;
                }
                if (hits >= 3)
                {
                    replay_path = base + ".replay";
                    write_replay(replay_path, *p, status_names[kind], final_msg, &small, 0, 0, 0, 0);
                    violations = 1;
                }
            }
            if (!violations)
            {
                unsigned hits = 0;
                for (unsigned i = 0; i < 3 && !fs->from_tape; ++i)
                {
                    Outcome o3 = run_forked(*p, nullptr, a.seed, idx, 1, idx, rs);
                    if (bad(o3.status)) { ++hits; final_msg = o3.msg; }
                }
                if (hits == 3)
                {
                    replay_path = base + ".replay";
                    write_replay(replay_path, *p, status_names[kind], final_msg, nullptr, a.seed, idx, 1, idx);
                    violations = 1;
                }
            }
        }
        if (!violations && !a.guided)
        {
            // Depends on what ran before in the same process: replay the worker's history
            uint64_t first = (uint64_t)failed;
            auto seq_bad = [&](uint64_t from) {
                Outcome o3 = run_forked(*p, nullptr, a.seed, from, a.workers, idx, rs);
                if (bad(o3.status)) final_msg = o3.msg;
                return bad(o3.status);
            };
            if (seq_bad(first))
            {
                // Shorten the history from the left
                uint64_t n = (idx - first) / a.workers;
                uint64_t lo = 0, hi = n;
                while (lo < hi && now() < deadline + 120)
                {
                    uint64_t mid = (lo + hi + 1) / 2;
                    if (seq_bad(first + mid * a.workers)) lo = mid;
                    else hi = mid - 1;
                }
                first += lo * a.workers;
                unsigned hits = 0;
                for (unsigned i = 0; i < 3; ++i) hits += seq_bad(first);
                if (hits == 3)
                {
                    replay_path = base + ".replay";
                    write_replay(replay_path, *p, "history", final_msg, nullptr, a.seed, first, a.workers, idx);
                    violations = 1;
                }
            }
        }
        if (!violations && first_msg.find("ThreadSanitizer: data race") != std::string::npos)
        {
            // Races are real even when the schedule that shows them does not come back
            replay_path = base + ".replay";
            final_msg = first_msg;
            write_replay(replay_path, *p, "race", final_msg, nullptr, a.seed, idx, 1, idx);
            violations = 1;
        }
        if (!violations)
        {
            flaky = true;
            printf("  not reproducible: %s\n", first_msg.c_str());
        }
    }

    FILE* out = fopen(a.out.c_str(), "wb");
    if (!out) { perror(a.out.c_str()); return 3; }
    fprintf(out, "{\n \"evaluations\": %llu,\n \"discarded\": %llu,\n \"distinct_nontrivial\": %zu,\n \"cases_requested\": %llu,\n \"guided\": %llu,\n \"edges\": %llu,\n \"features\": %llu,\n \"corpus\": %llu,\n \"rule\": %s,\n",
            (unsigned long long)rep.evaluations, (unsigned long long)rep.discards, rep.distinct.size(), (unsigned long long)cases,
            (unsigned long long)rep.guided, (unsigned long long)rep.edges, (unsigned long long)rep.features, (unsigned long long)rep.corpus, json_str(p->rule).c_str());
    fprintf(out, " \"samples\": [");
    for (size_t i = 0; i < rep.samples.size() && i < 6; ++i)
        fprintf(out, "%s%s", i ? ", " : "", json_str(rep.samples[i]).c_str());
    fprintf(out, "],\n \"classes\": {");
    bool firstl = true;
    for (const auto& l: rep.labels)
    {
        fprintf(out, "%s\n  %s: %llu", firstl ? "" : ",", json_str(l.first).c_str(), (unsigned long long)l.second);
        firstl = false;
    }
    fprintf(out, "},\n \"violations\": %u,\n \"flaky\": %s,\n \"replay\": %s,\n \"message\": %s,\n \"shrink_tries\": %u,\n \"wall_s\": %.3f\n}\n",
            violations, flaky ? "true" : "false", json_str(replay_path).c_str(), json_str(final_msg).c_str(), tries, now() - t0);
    fclose(out);
    if (rep.edges) printf("  coverage in a worker: %llu edges, %llu counts of edges", (unsigned long long)rep.edges, (unsigned long long)rep.features);
    if (rep.guided) printf("; %llu cases from %llu tapes that reached new code", (unsigned long long)rep.guided, (unsigned long long)rep.corpus);
    if (rep.edges) printf("\n");
    printf("%s: %llu cases (%zu distinct non-trivial, %llu discarded) in %.1fs: %s\n", p->id,
            (unsigned long long)rep.evaluations, rep.distinct.size(), (unsigned long long)rep.discards, now() - t0,
            violations ? "VIOLATED" : "held");
    if (violations)
    {
        printf("  %s\n", final_msg.c_str());
        return 1;
    }
    return 0;
}

static int do_replay(const Args& a)
{
    std::string text = read_file(a.file);
    std::istringstream in(text);
    std::string word, prop;
    std::vector<uint64_t> tape;
    bool has_tape = false;
    uint64_t seed = 0, first = 0, step = 1, last = 0;
    std::string line;
    while (std::getline(in, line))
    {
        std::istringstream l(line);
        l >> word;
        if (word == "property") l >> prop;
        else if (word == "tape")
        {
            size_t n;
            l >> n;
            uint64_t v;
            while (l >> std::hex >> v) tape.push_back(v);
            has_tape = true;
        }
        else if (word == "seq") l >> seed >> first >> step >> last;
    }
    const Property* p = find(prop);
    if (!p) { fprintf(stderr, "no property %s\n", prop.c_str()); return 3; }
    std::string init_error = try_init(*p);
    if (!init_error.empty())
    {
        printf("%s: %s\n", p->id, init_error.c_str());
        return 1;
    }
    if (text.find("\nkind init\n") != std::string::npos)
    {
        printf("%s: ok\n", p->id);
        return 0;
    }
    if (p->init) p->init();
    Shared* sh = new_shared();
    Outcome o = run_forked(*p, has_tape ? &tape : nullptr, seed, first, step, last, sh, true);
    printf("%s: %s %s\n", p->id, status_names[o.status], o.msg.c_str());
    return bad(o.status) ? 1 : 0;
}

}

extern "C" __attribute__((no_sanitize("all"))) void __sanitizer_cov_8bit_counters_init(char* start, char* stop)
{
    if (start != stop) pbt::cov_modules().push_back(std::make_pair((uint8_t*)start, (uint8_t*)stop));
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}

using namespace pbt;

int main(int argc, char** argv)
{
    Args a;
    if (argc < 2) { fprintf(stderr, "usage: harness run|replay|list ...\n"); return 3; }
    a.mode = argv[1];
    for (int i = 2; i < argc; ++i)
    {
        std::string k = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (k == "--prop") a.prop = val();
        else if (k == "--seed") a.seed = strtoull(val().c_str(), nullptr, 10);
        else if (k == "--cases") a.cases = strtoull(val().c_str(), nullptr, 10);
        else if (k == "--maxsec") a.maxsec = atof(val().c_str());
        else if (k == "--workers") a.workers = (unsigned)atoi(val().c_str());
        else if (k == "--out") a.out = val();
        else if (k == "--replay-dir") a.replay_dir = val();
        else if (k == "--thorough") a.thorough = true;
        else if (k == "--guided") a.guided = true;
        else a.file = k;
    }
    if (a.mode == "list")
    {
        for (const auto& p: registry()) printf("%s\n", p.id);
        return 0;
    }
    std::string id = a.prop;
    if (a.mode == "replay")
    {
        std::istringstream in(read_file(a.file));
        std::string w;
        in >> w >> id;
    }
    // Sanitizer settings must be in the environment before the runtime starts
    if (!getenv("PBT_CHILD"))
    {
        const Property* p = find(id);
        bool ub = p && p->ub_fatal;
        setenv("PBT_CHILD", "1", 1);
        setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:handle_abort=1:symbolize=1:malloc_context_size=8:quarantine_size_mb=16", 1);
        setenv("UBSAN_OPTIONS", ub ? "halt_on_error=1:print_stacktrace=1:exitcode=98" : "halt_on_error=0:print_stacktrace=0:report_error_type=1", 1);
        setenv("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1", 1);
        execv("/proc/self/exe", argv);
        perror("execv");
        return 3;
    }
    char tmpl[] = "/tmp/wrpbt.XXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
    scratch_base = tmpl;
    chmod(tmpl, 0711);
    int rc = 3;
    if (a.mode == "run") rc = do_run(a);
    else if (a.mode == "replay") rc = do_replay(a);
    rm_rf(scratch_base);
    return rc;
}
