// Deterministic simulation core: seeded PRNG, plans (operations + faults), run context, scenario registry.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <string_view>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng
{
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1) { reseed(seed); }
    static uint64_t mix(uint64_t z)
    {
        z += 0x9E3779B97F4A7C15ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    void reseed(uint64_t seed) { s[0] = mix(seed); s[1] = mix(s[0] ^ 0xD1B54A32D192ED03ull); if (!s[0] && !s[1]) s[0] = 1; }
    uint64_t next()
    {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    // small numbers likely, large possible
    int64_t skew(int64_t max)
    {
        if (max <= 0) return 0;
        unsigned bits = 0; while ((max >> bits) > 0) bits++;
        int64_t m = (int64_t)1 << below(bits + 1);
        if (m > max) m = max;
        return (int64_t)below((uint64_t)m + 1);
    }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- Plan
struct Op
{
    std::string k;
    std::vector<int64_t> a;
    int64_t at(size_t i) const { return i < a.size() ? a[i] : 0; }
    uint64_t u(size_t i) const { return (uint64_t)at(i); }
};

struct Plan
{
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    int64_t c(const char* name, int64_t def = 0) const { auto it = cfg.find(name); return it == cfg.end() ? def : it->second; }
    uint64_t u(const char* name) const { return (uint64_t)c(name); }
    void add(const char* k, std::vector<int64_t> a = {}) { ops.push_back({ k, std::move(a) }); }
    std::string text() const;
    static bool parse(const std::string& text, Plan& plan, std::string& cls, std::string& hash);
};

// ---------------------------------------------------------------- Run context
struct Violation
{
    std::string cls;
    std::string msg;
};

// The thread scheduler does not preempt the harness itself
extern thread_local int t_noPreempt;
struct NoPreempt { NoPreempt() { t_noPreempt++; } ~NoPreempt() { t_noPreempt--; } };

struct Ctx
{
    uint64_t hash = 1469598103934665603ull;
    uint64_t events = 0;
    uint64_t steps = 0;           // simulated time: device/system-call/scheduling steps
    int64_t clockAdvance = 0;     // simulated wall clock seconds covered
    bool verbose = false;
    bool quiet = false;           // measurement pre-runs: do not count
    std::map<std::string, uint64_t> faults;
    std::map<std::string, uint64_t> probes;
    std::set<uint64_t> states;
    std::string stage;            // what the run is doing, for crash reports

    void mixHash(const void* p, size_t n)
    {
        auto b = (const unsigned char*)p;
        for (size_t i = 0; i < n; i++) { hash ^= b[i]; hash *= 1099511628211ull; }
    }
    void ev(const char* tag, int64_t a = 0, int64_t b = 0, int64_t c = 0);
    void evs(const char* tag, std::string_view s);
    void fault(const char* name) { NoPreempt np; faults[name]++; ev(name); }
    void probe(const char* name) { NoPreempt np; probes[name]++; }
    void state(uint64_t sig) { NoPreempt np; if (states.size() < 64) states.insert(sig); }
    void setStage(const std::string& s);
    [[noreturn]] void fail(const std::string& cls, const std::string& msg);
    void check(bool cond, const char* cls, const std::string& msg) { if (!cond) fail(cls, msg); }
    // Report a violation and end the process at once (usable below code that catches everything)
    [[noreturn]] void die(const std::string& cls, const std::string& msg);
};

Ctx& ctx();

uint64_t hashBytes(std::string_view s);
std::string hex(std::string_view s, size_t max = 48);
std::string fmtOps(const Plan& p);
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- Scenarios
struct Scenario
{
    const char* prop;
    const char* name;
    unsigned weight;          // share of runs among the property's scenarios
    unsigned quickRuns;       // runs of this property in the quick tier (max over its scenarios)
    std::function<void(Rng&, Plan&)> generate;
    std::function<void(const Plan&)> run;
    unsigned cpuLimit = 20;   // CPU seconds per run before it counts as a hang
};

std::vector<Scenario>& scenarios();
struct Register { Register(Scenario s) { scenarios().push_back(std::move(s)); } };

} // namespace sim
