// Runner: generates plans from seeds, executes each in a forked child, minimises, replays.
#include "core.h"
#include "world.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <algorithm>
#include <sstream>
#include <fstream>
#include <iostream>
#include <pdfmm/pdfmm.h>

using namespace std;

namespace sim {

static Ctx s_ctx;
Ctx& ctx() { return s_ctx; }
vector<Scenario>& scenarios() { static vector<Scenario> s; return s; }

static double now()
{
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

string strf(const char* fmt, ...)
{
    char buf[2048];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

uint64_t hashBytes(string_view s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

string hex(string_view s, size_t max)
{
    string r;
    for (size_t i = 0; i < s.size() && i < max; i++)
    {
        unsigned char c = (unsigned char)s[i];
        if (c >= 32 && c < 127) r += (char)c; else r += strf("\\x%02x", c);
    }
    if (s.size() > max) r += strf("...(%zu)", s.size());
    return r;
}

thread_local int t_noPreempt = 0;
void Ctx::ev(const char* tag, int64_t a, int64_t b, int64_t c)
{
    NoPreempt np;
    if (quiet) return;
    events++;
    mixHash(tag, strlen(tag));
    int64_t v[3] = { a, b, c };
    mixHash(v, sizeof v);
    if (verbose) fprintf(stderr, "ev %llu %s %lld %lld %lld\n", (unsigned long long)events, tag, (long long)a, (long long)b, (long long)c);
}

void Ctx::evs(const char* tag, string_view s)
{
    NoPreempt np;
    if (quiet) return;
    events++;
    mixHash(tag, strlen(tag));
    mixHash(s.data(), s.size());
    if (verbose) fprintf(stderr, "ev %llu %s '%s'\n", (unsigned long long)events, tag, hex(s, 200).c_str());
}

// The stage text lives in a page shared with the parent so that it survives a crash of the run
static char* s_stage = nullptr;
void Ctx::setStage(const string& s)
{
    NoPreempt np;
    stage = s;
    if (s_stage) { size_t n = min<size_t>(s.size(), 500); memcpy(s_stage, s.data(), n); s_stage[n] = 0; }
    if (verbose) fprintf(stderr, "-- %s\n", s.c_str());
}

void Ctx::fail(const string& cls, const string& msg) { throw Violation{ cls, msg }; }

static int s_resultFd = -1;
static void writeAll(int fd, const string& s)
{
    size_t off = 0;
    while (off < s.size())
    {
        ssize_t n = syscall(SYS_write, fd, s.data() + off, s.size() - off);
        if (n <= 0) { if (n < 0 && errno == EINTR) continue; return; }
        off += (size_t)n;
    }
}

static string oneLine(string s)
{
    for (auto& c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' ';
    return s;
}

static string resultText(const string& cls, const string& msg)
{
    ostringstream o;
    Ctx& c = s_ctx;
    o << "H\t" << c.hash << "\t" << c.events << "\t" << c.steps << "\t" << c.clockAdvance << "\n";
    for (auto& p : c.faults) o << "F\t" << p.first << "\t" << p.second << "\n";
    for (auto& p : c.probes) o << "P\t" << p.first << "\t" << p.second << "\n";
    for (auto s : c.states) o << "S\t" << s << "\n";
    if (!cls.empty()) o << "V\t" << oneLine(cls) << "\t" << oneLine(msg.substr(0, 1500)) << "\n";
    o << "END\n";
    return o.str();
}

void Ctx::die(const string& cls, const string& msg)
{
    NoPreempt np;
    world().leave();
    writeAll(s_resultFd, resultText(cls, msg));
    syscall(SYS_exit_group, 0);
    abort();
}

// ---------------------------------------------------------------- plan text
string Plan::text() const
{
    ostringstream o;
    o << "prop " << prop << "\nseed " << seed << "\n";
    for (auto& p : cfg) o << "cfg " << p.first << " " << p.second << "\n";
    for (auto& op : ops)
    {
        o << "op " << op.k;
        for (auto v : op.a) o << " " << v;
        o << "\n";
    }
    return o.str();
}

bool Plan::parse(const string& text, Plan& plan, string& cls, string& hash)
{
    istringstream in(text);
    string line;
    while (getline(in, line))
    {
        if (line.empty() || line[0] == '#') continue;
        istringstream l(line);
        string w; l >> w;
        if (w == "prop") l >> plan.prop;
        else if (w == "seed") l >> plan.seed;
        else if (w == "cfg") { string k; int64_t v; l >> k >> v; plan.cfg[k] = v; }
        else if (w == "op") { Op op; l >> op.k; int64_t v; while (l >> v) op.a.push_back(v); plan.ops.push_back(op); }
        else if (w == "class") { getline(l, cls); if (!cls.empty() && cls[0] == ' ') cls.erase(0, 1); }
        else if (w == "hash") l >> hash;
    }
    return !plan.prop.empty();
}

string fmtOps(const Plan& p)
{
    string s;
    for (auto& op : p.ops) { s += op.k; for (auto v : op.a) s += strf(" %lld", (long long)v); s += "; "; }
    return s;
}

// ---------------------------------------------------------------- single run
struct Result
{
    bool ok = false;          // complete result record seen
    uint64_t hash = 0, events = 0, steps = 0;
    int64_t clock = 0;
    map<string, uint64_t> faults, probes;
    vector<uint64_t> states;
    string cls, msg;
};

static const Scenario* findScenario(const Plan& plan)
{
    auto idx = plan.c("scenario", 0);
    int64_t n = 0;
    for (auto& s : scenarios())
        if (plan.prop == s.prop) { if (n == idx) return &s; n++; }
    return nullptr;
}

static void cpuHandler(int) { s_ctx.die("hang:" , "CPU limit reached in stage: " + string(s_stage ? s_stage : "")); }

static void childMain(const Plan& plan, int fd, bool verbose)
{
    s_resultFd = fd;
    s_ctx = Ctx();
    s_ctx.verbose = verbose;
    auto sc = findScenario(plan);
    rlimit rl{ sc->cpuLimit, sc->cpuLimit + 5 };
    signal(SIGXCPU, cpuHandler);
    setrlimit(RLIMIT_CPU, &rl);
    rlimit core{ 0, 0 };
    setrlimit(RLIMIT_CORE, &core);
    string cls, msg;
    try
    {
        world().enter(plan.seed);
        sc->run(plan);
        world().leave();
    }
    catch (Violation& v) { world().leave(); cls = v.cls; msg = v.msg; }
    catch (mm::PdfError& e)
    {
        world().leave();
        if (ctx().verbose) for (auto& f : e.GetCallstack()) fprintf(stderr, "  at %s:%u %s\n", string(f.GetFilePath()).c_str(), f.GetLine(), string(f.GetInformation()).c_str());
        cls = strf("unexpected-error:%s", string(mm::PdfError::ErrorName(e.GetError())).c_str());
        msg = string("stage: ") + s_ctx.stage + " " + e.what();
    }
    catch (exception& e) { world().leave(); cls = "unexpected-exception"; msg = string("stage: ") + s_ctx.stage + " " + e.what(); }
    writeAll(fd, resultText(cls, msg));
    syscall(SYS_exit_group, 0);
}

// Reduce an AddressSanitizer report (or other abort message) to a stable class
static string crashClass(const string& err, int status)
{
    auto pos = err.find("ERROR: AddressSanitizer: ");
    if (pos != string::npos)
    {
        string kind = err.substr(pos + 25);
        kind = kind.substr(0, kind.find_first_of(" \n:"));
        // first frame inside the library
        string where;
        istringstream in(err.substr(pos));
        string line;
        while (getline(in, line))
        {
            auto p = line.find(" in ");
            if (line.find("    #") == string::npos || p == string::npos) continue;
            if (line.find("/src/pdfmm/") == string::npos && line.find(" mm::") == string::npos) continue;
            string fn = line.substr(p + 4);
            auto e = fn.find_first_of("( ");
            where = fn.substr(0, e);
            break;
        }
        return "crash:asan:" + kind + (where.empty() ? "" : "@" + where);
    }
    if (err.find("terminate called") != string::npos) return "crash:terminate";
    if (err.find("Assertion") != string::npos || err.find("assert") != string::npos) return "crash:assert";
    if (WIFSIGNALED(status)) return strf("crash:signal-%d", WTERMSIG(status));
    return strf("crash:exit-%d", WEXITSTATUS(status));
}

static Result runPlan(const Plan& plan, bool verbose = false)
{
    Result r;
    int p[2], e[2];
    if (pipe(p) != 0 || pipe(e) != 0) { perror("pipe"); exit(3); }
    if (s_stage) s_stage[0] = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0)
    {
        close(p[0]); close(e[0]);
        if (!verbose) { dup2(e[1], 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); }
        setpgid(0, 0);
        childMain(plan, p[1], verbose);
        _exit(0);
    }
    close(p[1]); close(e[1]);
    string out, err;
    bool po = true, pe = true;
    double t0 = now();
    bool killed = false;
    while (po || pe)
    {
        pollfd fds[2] = { { po ? p[0] : -1, POLLIN, 0 }, { pe ? e[0] : -1, POLLIN, 0 } };
        int rc = ::poll(fds, 2, 1000);
        char buf[65536];
        if (rc > 0)
        {
            if (fds[0].revents) { ssize_t n = syscall(SYS_read, p[0], buf, sizeof buf); if (n > 0) out.append(buf, (size_t)n); else po = false; }
            if (fds[1].revents) { ssize_t n = syscall(SYS_read, e[0], buf, sizeof buf); if (n > 0) { if (err.size() < 200000) err.append(buf, (size_t)n); } else pe = false; }
        }
        if (!killed && now() - t0 > 300) { kill(-pid, SIGKILL); kill(pid, SIGKILL); killed = true; }
    }
    close(p[0]); close(e[0]);
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    world().cleanScratch(pid);
    istringstream in(out);
    string line;
    while (getline(in, line))
    {
        vector<string> f;
        size_t s = 0;
        while (true) { auto t = line.find('\t', s); f.push_back(line.substr(s, t == string::npos ? t : t - s)); if (t == string::npos) break; s = t + 1; }
        if (f[0] == "H") { r.hash = stoull(f[1]); r.events = stoull(f[2]); r.steps = stoull(f[3]); r.clock = stoll(f[4]); }
        else if (f[0] == "F") r.faults[f[1]] += stoull(f[2]);
        else if (f[0] == "P") r.probes[f[1]] += stoull(f[2]);
        else if (f[0] == "S") r.states.push_back(stoull(f[1]));
        else if (f[0] == "V") { r.cls = f[1]; r.msg = f[2]; }
        else if (f[0] == "END") r.ok = true;
    }
    if (!r.ok)
    {
        if (killed) { r.cls = "hang:wall"; r.msg = "no progress for 300 s of wall time"; }
        else
        {
            r.cls = crashClass(err, status);
            auto pos = err.find("ERROR: AddressSanitizer");
            r.msg = err.substr(pos == string::npos ? 0 : pos, 1500);
        }
        r.msg = string("stage '") + (s_stage ? s_stage : "") + "': " + r.msg;
        r.hash = hashBytes(r.cls + (s_stage ? s_stage : ""));
    }
    return r;
}

// ---------------------------------------------------------------- plan generation
static uint64_t runSeed(const string& prop, uint64_t seed, uint64_t index)
{
    return Rng::mix(Rng::mix(seed * 1000003 + hashBytes(prop)) + index);
}

static Plan makePlan(const string& prop, uint64_t seed, uint64_t index)
{
    vector<const Scenario*> mine;
    unsigned total = 0;
    for (auto& s : scenarios()) if (prop == s.prop) { mine.push_back(&s); total += s.weight; }
    Plan plan;
    plan.prop = prop;
    plan.seed = runSeed(prop, seed, index) >> 1;
    Rng rng(plan.seed);
    auto w = rng.below(total);
    for (size_t i = 0; i < mine.size(); i++)
    {
        if (w < mine[i]->weight) { plan.cfg["scenario"] = (int64_t)i; mine[i]->generate(rng, plan); return plan; }
        w -= mine[i]->weight;
    }
    return plan;
}

// ---------------------------------------------------------------- minimiser
static Plan minimise(Plan plan, const string& cls, double budget, unsigned& tries)
{
    double end = now() + budget;
    auto same = [&](const Plan& p) { tries++; return runPlan(p).cls == cls; };
    bool progress = true;
    while (progress && now() < end)
    {
        progress = false;
        for (size_t chunk = max<size_t>(plan.ops.size() / 2, 1); chunk >= 1 && now() < end; chunk /= 2)
        {
            for (size_t i = 0; i + chunk <= plan.ops.size() && now() < end;)
            {
                Plan q = plan;
                q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + chunk);
                if (same(q)) { plan = q; progress = true; } else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (auto it = plan.cfg.begin(); it != plan.cfg.end() && now() < end; ++it)
        {
            if (it->first == "scenario" || it->second == 0) continue;
            Plan q = plan;
            q.cfg[it->first] = 0;
            if (same(q)) { plan.cfg[it->first] = 0; progress = true; }
        }
        for (size_t i = 0; i < plan.ops.size() && now() < end; i++)
            for (size_t j = 0; j < plan.ops[i].a.size() && now() < end; j++)
            {
                int64_t v = plan.ops[i].a[j];
                for (int64_t cand : { (int64_t)0, (int64_t)1, v / 2, v - 1 })
                {
                    if (cand == plan.ops[i].a[j] || (cand < 0) != (v < 0) || llabs(cand) >= llabs(plan.ops[i].a[j])) continue;
                    Plan q = plan;
                    q.ops[i].a[j] = cand;
                    if (same(q)) { plan = q; progress = true; break; }
                    if (now() >= end) break;
                }
            }
    }
    return plan;
}

// ---------------------------------------------------------------- batch
struct Agg
{
    uint64_t runs = 0, events = 0, steps = 0, nontrivial = 0;
    int64_t clock = 0;
    map<string, uint64_t> faults, probes, faultRuns;
    set<uint64_t> states, hashes;
    struct V { uint64_t index; string cls, msg; };
    vector<V> violations;
    map<string, uint64_t> perScenario;
};

struct Known { string prop, cls, desc, replay; };

static bool globMatch(const char* p, const char* s)
{
    if (*p == 0) return *s == 0;
    if (*p == '*') return globMatch(p + 1, s) || (*s && globMatch(p, s + 1));
    return *p == *s && globMatch(p + 1, s + 1);
}

static string jsonStr(const string& s)
{
    string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c >= 127) r += strf("\\u%04x", c);
        else r += (char)c;
    }
    return r + "\"";
}

struct Options
{
    string prop, out, replayDir = "replays", known, tier = "quick";
    uint64_t seed = 1, runs = 0, from = 0;
    double time = 600;
    int jobs = 8;
    bool all = false;
    double minimise = 60;
};

static void workerMain(const Options& o, int w, int fd, volatile uint32_t* stop, double deadline)
{
    string buf;
    Agg dummy;
    uint64_t count = 0;
    for (uint64_t i = o.from + (uint64_t)w; i < o.from + o.runs; i += (uint64_t)o.jobs)
    {
        if (*stop && !o.all) break;
        if (now() > deadline) break;
        Plan plan = makePlan(o.prop, o.seed, i);
        Result r = runPlan(plan);
        count++;
        ostringstream t;
        t << "R\t" << i << "\t" << r.hash << "\t" << r.events << "\t" << r.steps << "\t" << r.clock << "\t" << plan.c("scenario") << "\n";
        for (auto& p : r.faults) t << "F\t" << p.first << "\t" << p.second << "\n";
        for (auto& p : r.probes) t << "P\t" << p.first << "\t" << p.second << "\n";
        for (auto s : r.states) t << "S\t" << s << "\n";
        if (!r.cls.empty()) { t << "V\t" << i << "\t" << oneLine(r.cls) << "\t" << oneLine(r.msg) << "\n"; }
        writeAll(fd, t.str());
    }
}

static int cmdRun(Options o)
{
    double t0 = now();
    double deadline = t0 + o.time;
    vector<Known> known;
    if (!o.known.empty())
    {
        ifstream in(o.known);
        string line;
        while (getline(in, line))
        {
            // known: property=<id> class=<glob> replay=<path> <description>
            if (line.rfind("known:", 0) != 0) continue;
            Known k;
            istringstream l(line.substr(6));
            string w;
            while (l >> w)
            {
                if (w.rfind("property=", 0) == 0) k.prop = w.substr(9);
                else if (w.rfind("class=", 0) == 0) k.cls = w.substr(6);
                else if (w.rfind("replay=", 0) == 0) k.replay = w.substr(7);
                else k.desc += (k.desc.empty() ? "" : " ") + w;
            }
            if (k.prop == o.prop) known.push_back(k);
        }
    }
    auto isKnown = [&](const string& cls) { for (auto& k : known) if (globMatch(k.cls.c_str(), cls.c_str())) return true; return false; };

    uint64_t quick = 0;
    for (auto& s : scenarios()) if (o.prop == s.prop) quick = max<uint64_t>(quick, s.quickRuns);
    if (quick == 0) { fprintf(stderr, "unknown property %s\n", o.prop.c_str()); return 3; }
    if (o.runs == 0) o.runs = o.tier == "thorough" ? quick * 1000 : quick;

    auto stop = (volatile uint32_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    vector<int> fds; vector<pid_t> pids; vector<string> bufs((size_t)o.jobs);
    for (int w = 0; w < o.jobs; w++)
    {
        int p[2];
        if (pipe(p) != 0) { perror("pipe"); return 3; }
        pid_t pid = fork();
        if (pid == 0)
        {
            close(p[0]);
            for (int fd : fds) close(fd);
            s_stage = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            workerMain(o, w, p[1], stop, deadline);
            _exit(0);
        }
        close(p[1]);
        fds.push_back(p[0]); pids.push_back(pid);
    }
    Agg agg;
    vector<bool> open((size_t)o.jobs, true);
    vector<uint64_t> lastFaults((size_t)o.jobs, 0);
    int left = o.jobs;
    map<string, unsigned> classCount;
    vector<string> samples;
    while (left > 0)
    {
        vector<pollfd> pf;
        for (int w = 0; w < o.jobs; w++) pf.push_back({ open[w] ? fds[w] : -1, POLLIN, 0 });
        ::poll(pf.data(), pf.size(), 1000);
        for (int w = 0; w < o.jobs; w++)
        {
            if (!open[w] || !pf[w].revents) continue;
            char buf[65536];
            ssize_t n = syscall(SYS_read, fds[w], buf, sizeof buf);
            if (n <= 0) { open[w] = false; left--; continue; }
            auto& b = bufs[w];
            b.append(buf, (size_t)n);
            size_t pos = 0, nl;
            while ((nl = b.find('\n', pos)) != string::npos)
            {
                vector<string> f;
                string line = b.substr(pos, nl - pos);
                pos = nl + 1;
                size_t s = 0;
                while (true) { auto t = line.find('\t', s); f.push_back(line.substr(s, t == string::npos ? t : t - s)); if (t == string::npos) break; s = t + 1; }
                if (f[0] == "R")
                {
                    agg.runs++;
                    agg.events += stoull(f[3]); agg.steps += stoull(f[4]); agg.clock += stoll(f[5]);
                    agg.perScenario[f[6]]++;
                    bool fresh = agg.hashes.insert(stoull(f[2])).second;
                    if (fresh && stoull(f[3]) >= 5) agg.nontrivial++;
                }
                else if (f[0] == "F") { agg.faults[f[1]] += stoull(f[2]); agg.faultRuns[f[1]]++; }
                else if (f[0] == "P") agg.probes[f[1]] += stoull(f[2]);
                else if (f[0] == "S") agg.states.insert(stoull(f[1]));
                else if (f[0] == "V")
                {
                    bool k = isKnown(f[2]);
                    if (!k || o.all)
                    {
                        if (classCount[f[2]]++ < 3) agg.violations.push_back({ stoull(f[1]), f[2], f[3] });
                        if (!k) *stop = 1;
                    }
                    else agg.probes["known-finding-hit"]++;
                }
            }
            b.erase(0, pos);
        }
    }
    for (auto pid : pids) { int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} }
    double wallSearch = now() - t0;

    s_stage = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int rc = 0;
    unsigned reported = 0;
    // Known findings must still be there to be announced
    for (auto& k : known)
    {
        ifstream in(k.replay);
        stringstream ss; ss << in.rdbuf();
        Plan plan; string cls, hash;
        if (!in || !Plan::parse(ss.str(), plan, cls, hash)) { fprintf(stderr, "cannot read known finding %s\n", k.replay.c_str()); continue; }
        Result r = runPlan(plan);
        if (globMatch(k.cls.c_str(), r.cls.c_str()))
            printf("KNOWN-FINDING: property=%s %s\n", o.prop.c_str(), k.desc.c_str());
    }
    // Violations: confirm twice, minimise, write replay
    sort(agg.violations.begin(), agg.violations.end(), [](auto& a, auto& b) { return a.index < b.index; });
    set<string> seen;
    vector<string> vlines;
    for (auto& v : agg.violations)
    {
        if (!seen.insert(v.cls).second) continue;
        if (o.all) { printf("FOUND x%u index=%llu class=%s msg=%s\n", classCount[v.cls], (unsigned long long)v.index, v.cls.c_str(), v.msg.substr(0, 700).c_str()); }
        if (reported >= (o.all ? 100u : 2u)) continue;
        Plan plan = makePlan(o.prop, o.seed, v.index);
        Result a = runPlan(plan), b = runPlan(plan);
        if (a.cls != v.cls || b.cls != v.cls || a.hash != b.hash)
        {
            fprintf(stderr, "UNREPRODUCIBLE property=%s index=%llu class=%s (%s/%s, hashes %llu %llu)\n", o.prop.c_str(), (unsigned long long)v.index,
                v.cls.c_str(), a.cls.c_str(), b.cls.c_str(), (unsigned long long)a.hash, (unsigned long long)b.hash);
            rc = max(rc, 2);
            continue;
        }
        unsigned tries = 0;
        Plan m = minimise(plan, v.cls, o.minimise, tries);
        Result mr = runPlan(m);
        if (mr.cls != v.cls) { m = plan; mr = a; }
        mkdir(o.replayDir.c_str(), 0755);
        string path = o.replayDir + "/" + o.prop + strf("-s%llu-i%llu.plan", (unsigned long long)o.seed, (unsigned long long)v.index);
        {
            ofstream f(path);
            f << "# " << oneLine(mr.msg) << "\n# VERIF_SEED=" << o.seed << " run=" << v.index << " minimised from " << plan.ops.size() << " to " << m.ops.size() << " operations in " << tries << " tries\n";
            f << "class " << mr.cls << "\nhash " << mr.hash << "\n" << m.text();
        }
        // the shell driver replays this file in a fresh process before it believes it
        vlines.push_back(path);
        printf("CANDIDATE property=%s replay=%s class=%s msg=%s\n", o.prop.c_str(), path.c_str(), mr.cls.c_str(), mr.msg.substr(0, 600).c_str());
        reported++;
    }
    if (reported) rc = 1;
    // evidence
    for (uint64_t i = 0; i < 3; i++)
    {
        Plan p = makePlan(o.prop, o.seed, o.from + i * 7);
        samples.push_back(p.text().substr(0, 1200));
    }
    if (!o.out.empty())
    {
        ofstream f(o.out);
        f << "{\"runs\":" << agg.runs << ",\"nontrivial\":" << agg.nontrivial << ",\"distinct_hashes\":" << agg.hashes.size() << ",\"distinct_states\":" << agg.states.size()
          << ",\"events\":" << agg.events << ",\"steps\":" << agg.steps << ",\"clock\":" << agg.clock << ",\"wall\":" << wallSearch << ",\"planned\":" << o.runs << ",\"violations\":" << reported;
        auto dump = [&](const char* name, map<string, uint64_t>& m) {
            f << ",\"" << name << "\":{"; bool first = true;
            for (auto& p : m) { f << (first ? "" : ",") << jsonStr(p.first) << ":" << p.second; first = false; }
            f << "}";
        };
        dump("faults", agg.faults); dump("faultRuns", agg.faultRuns); dump("probes", agg.probes);
        map<string, uint64_t> per;
        for (auto& p : agg.perScenario)
        {
            Plan q; q.prop = o.prop; q.cfg["scenario"] = stoll(p.first);
            per[findScenario(q)->name] = p.second;
        }
        dump("scenarios", per);
        f << ",\"samples\":["; bool first = true;
        for (auto& s : samples) { f << (first ? "" : ",") << jsonStr(s); first = false; }
        f << "]}\n";
    }
    printf("SUMMARY property=%s runs=%llu distinct=%zu states=%zu events=%llu steps=%llu wall=%.1f rate=%.0f/s\n", o.prop.c_str(), (unsigned long long)agg.runs,
        agg.hashes.size(), agg.states.size(), (unsigned long long)agg.events, (unsigned long long)agg.steps, wallSearch, agg.runs / max(wallSearch, 0.001));
    if (o.all)
    {
        printf("faults:"); for (auto& p : agg.faults) printf(" %s=%llu(%llu)", p.first.c_str(), (unsigned long long)p.second, (unsigned long long)agg.faultRuns[p.first]);
        printf("\nprobes:"); for (auto& p : agg.probes) printf(" %s=%llu", p.first.c_str(), (unsigned long long)p.second);
        printf("\n");
    }
    return rc;
}

static int cmdReplay(const string& file, bool verbose)
{
    s_stage = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ifstream in(file);
    stringstream ss; ss << in.rdbuf();
    Plan plan; string cls, hash;
    if (!in || !Plan::parse(ss.str(), plan, cls, hash)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
    if (!findScenario(plan)) { fprintf(stderr, "unknown scenario\n"); return 3; }
    Result r = runPlan(plan, verbose);
    printf("OUTCOME class=%s hash=%llu msg=%s\n", r.cls.c_str(), (unsigned long long)r.hash, r.msg.c_str());
    bool match = r.cls == cls && (hash.empty() || hash == to_string(r.hash));
    printf("%s\n", match ? "REPLAY-MATCH" : "REPLAY-DIFFERS");
    return match ? 0 : 1;
}

static int cmdDeterminism(const Options& o)
{
    // every run is executed once per worker process at two worker counts; logs are compared by hash
    vector<map<uint64_t, string>> res(2);
    for (int round = 0; round < 2; round++)
    {
        int jobs = round == 0 ? o.jobs : max(1, o.jobs / 2 - 1);
        vector<int> fds; vector<pid_t> pids;
        for (int w = 0; w < jobs; w++)
        {
            int p[2]; if (pipe(p) != 0) return 3;
            pid_t pid = fork();
            if (pid == 0)
            {
                s_stage = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
                // perturb the heap layout in the second round
                vector<void*> junk; if (round) for (int i = 0; i < 5000; i++) junk.push_back(malloc(16 + (i * 37) % 3000));
                for (uint64_t i = o.from + (uint64_t)w; i < o.from + o.runs; i += (uint64_t)jobs)
                {
                    Result r = runPlan(makePlan(o.prop, o.seed, i));
                    writeAll(p[1], strf("%llu\t%llu\t%s\n", (unsigned long long)i, (unsigned long long)r.hash, r.cls.c_str()));
                }
                _exit(0);
            }
            close(p[1]); fds.push_back(p[0]); pids.push_back(pid);
        }
        for (int fd : fds)
        {
            string all; char buf[65536]; ssize_t n;
            while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) all.append(buf, (size_t)n);
            istringstream in(all); string line;
            while (getline(in, line)) { auto t = line.find('\t'); res[round][stoull(line.substr(0, t))] = line.substr(t + 1); }
        }
        for (auto pid : pids) { int st; waitpid(pid, &st, 0); }
    }
    unsigned diff = 0;
    for (auto& p : res[0]) if (res[1][p.first] != p.second) { diff++; if (diff < 10) printf("DIVERGED index=%llu %s | %s\n", (unsigned long long)p.first, p.second.c_str(), res[1][p.first].c_str()); }
    printf("DETERMINISM property=%s runs=%zu diverged=%u\n", o.prop.c_str(), res[0].size(), diff);
    return diff ? 1 : 0;
}

} // namespace sim

using namespace sim;

int main(int argc, char** argv)
{
    signal(SIGPIPE, SIG_IGN);
    mm::PdfCommon::SetMaxLoggingSeverity(mm::PdfLogSeverity::None);
    string cmd = argc > 1 ? argv[1] : "";
    Options o;
    string file;
    bool verbose = false;
    for (int i = 2; i < argc; i++)
    {
        string a = argv[i];
        auto val = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") o.seed = stoull(val());
        else if (a == "--runs") o.runs = stoull(val());
        else if (a == "--from") o.from = stoull(val());
        else if (a == "--time") o.time = stod(val());
        else if (a == "--jobs") o.jobs = stoi(val());
        else if (a == "--tier") o.tier = val();
        else if (a == "--out") o.out = val();
        else if (a == "--replays") o.replayDir = val();
        else if (a == "--known") o.known = val();
        else if (a == "--minimise") o.minimise = stod(val());
        else if (a == "--all") o.all = true;
        else if (a == "-v") verbose = true;
        else if (cmd == "replay") file = a;
        else o.prop = a;
    }
    if (cmd == "list") { for (auto& s : scenarios()) printf("%s %s weight=%u quick=%u\n", s.prop, s.name, s.weight, s.quickRuns); return 0; }
    if (cmd == "run") return cmdRun(o);
    if (cmd == "replay") return cmdReplay(file, verbose);
    if (cmd == "determinism") { if (!o.runs) o.runs = 500; return cmdDeterminism(o); }
    if (cmd == "show") { printf("%s", makePlan(o.prop, o.seed, o.from).text().c_str()); return 0; }
    fprintf(stderr, "usage: sim list|run PROP|replay FILE|determinism PROP|show PROP --from I\n");
    return 3;
}
