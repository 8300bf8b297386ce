// Property-based testing engine: choice-tape generation, forked workers,
// integrated shrinking on the tape, replay files and coverage counters.
#ifndef PBT_H
#define PBT_H
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <cmath>

namespace pbt {

// Thrown by a property when the oracle disagrees with the code under test
struct Fail
{
    std::string msg;
    explicit Fail(const std::string& m) : msg(m) {}
};

// Thrown to abandon a case that cannot be judged (counted, never a violation)
struct Discard
{
    std::string why;
    explicit Discard(const std::string& w) : why(w) {}
};

// Source of random choices. Every random decision of a case is one entry of
// the tape, so that a case can be replayed and shrunk by editing the tape.
class Gen
{
public:
    const uint64_t* replay = nullptr;
    size_t replay_len = 0;
    uint64_t* record = nullptr;
    size_t record_cap = 0;
    volatile uint64_t* record_len = nullptr;
    size_t pos = 0;
    uint64_t s[4];
    bool random_mode = false;
    bool random_tail = false;    // random choices after the end of the tape
    uint64_t case_idx = 0;

    void seed(uint64_t x);
    uint64_t rng();

    // Uniform choice in [0, n); n == 0 means any 64 bit value
    uint64_t draw(uint64_t n)
    {
        uint64_t v;
        if (random_mode || (random_tail && pos >= replay_len))
        {
            v = rng();
            if (n) v %= n;
        }
        else
        {
            v = pos < replay_len ? replay[pos] : 0;
            if (n) v %= n;
        }
        if (record && pos < record_cap)
        {
            record[pos] = v;
            *record_len = pos + 1;
        }
        ++pos;
        return v;
    }

    // As draw(n), but consecutive cases enumerate all the values in order
    uint64_t cycle(uint64_t n)
    {
        if (!random_mode) return draw(n);
        uint64_t v = case_idx % n;
        if (record && pos < record_cap)
        {
            record[pos] = v;
            *record_len = pos + 1;
        }
        ++pos;
        return v;
    }

    bool exhausted() const { return !random_mode && pos >= replay_len; }
    // Inclusive range; shrinks towards lo
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    bool boolean() { return draw(2) != 0; }
    // true with probability num/den; shrinks towards false
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    uint8_t byte() { return (uint8_t)draw(256); }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
    template<typename T, size_t N> const T& pick(const T (&v)[N]) { return v[draw(N)]; }
    // Integer in [lo, hi] with extra weight on the bounds, on 0 and on their neighbours
    int64_t edgy(int64_t lo, int64_t hi);
    // Any double, with extra weight on special values
    double any_double();
    // Size with small values favoured
    unsigned size(unsigned max);
    std::string bytes(size_t n);
    std::string ascii(size_t n);
};

struct Ctx
{
    Gen& g;
    std::map<std::string, uint64_t> labels;
    bool is_nontrivial = false;
    uint64_t hash = 0;
    std::string sample;
    bool want_sample = false;
    unsigned evaluations = 0;
    bool verbose = false;

    explicit Ctx(Gen& g) : g(g) {}
    void label(const std::string& l) { ++labels[l]; }
    // Mark the case non trivial; h identifies its content
    void nontrivial(const std::string& content);
    void nontrivial(uint64_t h) { is_nontrivial = true; hash ^= h * 0x9E3779B97F4A7C15ull + 1; }
    void set_sample(const std::string& s) { if (want_sample || verbose) sample += s; }
};

uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }
std::string hex(const std::string& s, size_t max = 400);
std::string quote(const std::string& s, size_t max = 400);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

struct Property
{
    const char* id;
    const char* rule;            // how cases are made, what is non-trivial
    void (*run)(Ctx&);
    void (*init)();              // once per process, before forking (may be null)
    uint64_t quick_cases;
    uint64_t thorough_cases;
    bool ub_fatal;               // undefined behaviour reports are violations
};

std::vector<Property>& registry();
struct Register { Register(const Property& p) { registry().push_back(p); } };

#define PBT_FAIL(...) do { std::ostringstream pbt_o; pbt_o << __VA_ARGS__; throw pbt::Fail(pbt_o.str()); } while (0)
#define PBT_CHECK(cond, ...) do { if (!(cond)) { std::ostringstream pbt_o; pbt_o << "[" #cond "] " << __VA_ARGS__; throw pbt::Fail(pbt_o.str()); } } while (0)

// Scratch directory of this process (created on demand, removed by the parent)
std::string scratch_dir();

}
#endif
