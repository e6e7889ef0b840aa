// C13: threads with documents of their own. Real threads, but only one runs at a time: the library is compiled with
// a call at every control-flow edge, where a seeded scheduler decides who runs next. What each thread produces must be
// what it produces alone.
#include "rich.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <atomic>
using namespace std;
using namespace mm;
using namespace sim;

namespace sim { void setThreadRng(Rng* r); }

namespace {

int64_t big(Rng& rng) { return (int64_t)rng.below(1u << 30); }

struct Thread
{
    sem_t sem;
    pthread_t id;
    bool done = false, spinning = false;
    function<void()> body;
    exception_ptr error;
};

struct Scheduler
{
    bool on = false;
    vector<unique_ptr<Thread>> threads;
    sem_t main;
    size_t cur = 0;
    int64_t left = INT64_MAX;
    uint64_t edges = 0, slice = 0, switches = 0, forced = 0, spins = 0;
    vector<pair<int64_t, uint64_t>> plan;   // run so many edges, then switch
    size_t next = 0;
    int64_t tail = 0;
    Rng rng{ 1 };
};
Scheduler s;
thread_local Thread* t_self = nullptr;

void setSlice()
{
    if (s.next < s.plan.size()) s.left = s.plan[s.next].first;
    else s.left = s.tail > 0 ? (int64_t)(1 + s.rng.below((uint64_t)s.tail * 2)) : (int64_t)1 << 60;
    s.slice = (uint64_t)s.left;
}

void handOver(size_t to)
{
    auto self = t_self;
    s.switches++;
    s.cur = to;
    ctx().mixHash(&to, sizeof to); ctx().mixHash(&s.edges, sizeof s.edges);
    sem_post(&s.threads[to]->sem);
    if (self && !self->done) while (sem_wait(&self->sem) != 0) {}
}

size_t pick(uint64_t sel, bool other)
{
    vector<size_t> c;
    for (size_t i = 0; i < s.threads.size(); i++) if (!s.threads[i]->done && (!other || s.threads[i].get() != t_self)) c.push_back(i);
    if (c.empty()) return SIZE_MAX;
    return c[sel % c.size()];
}

void sliceOver()
{
    if (t_noPreempt) { s.left = 1; s.slice++; return; }   // as soon as possible
    NoPreempt np;
    if (!s.on || !t_self) { s.left = (int64_t)1 << 60; return; }
    s.edges += s.slice;
    uint64_t sel = s.next < s.plan.size() ? s.plan[s.next].second : s.rng.next();
    s.next++;
    if (s.edges > 3000000000ull) ctx().die("hang:threads", "threads do not come to an end");
    setSlice();
    auto to = pick(sel, true);
    if (to != SIZE_MAX) handOver(to);
}

// The running thread can't go on: let others run
void blocked()
{
    NoPreempt np;
    if (!s.on || !t_self) { sched_yield(); return; }
    s.forced++;
    if (++s.spins > 200000) ctx().die("deadlock", "every thread waits for another one");
    auto to = pick(s.rng.next(), true);
    if (to == SIZE_MAX) { ctx().die("deadlock", "the last thread waits for a lock nobody holds"); }
    handOver(to);
}
void progressed() { s.spins = 0; }

void* threadMain(void* p)
{
    auto t = (Thread*)p;
    t_self = t;
    while (sem_wait(&t->sem) != 0) {}
    try { t->body(); }
    catch (...) { t->error = current_exception(); }
    NoPreempt np;
    t->done = true;
    auto to = pick(s.rng.next(), true);
    if (to != SIZE_MAX) { setSlice(); handOver(to); }
    else { s.left = (int64_t)1 << 60; sem_post(&s.main); }
    t_self = nullptr;
    return nullptr;
}

// Run bodies together; `on` = preempt them, else one after another
void runThreads(vector<function<void()>> bodies, bool on)
{
    s.threads.clear();
    s.on = on;
    s.cur = 0; s.edges = 0; s.switches = s.forced = s.spins = 0; s.next = 0;
    sem_init(&s.main, 0, 0);
    for (auto& b : bodies)
    {
        auto t = make_unique<Thread>();
        sem_init(&t->sem, 0, 0);
        t->body = move(b);
        s.threads.push_back(move(t));
    }
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 32 << 20);
    for (auto& t : s.threads) pthread_create(&t->id, &a, threadMain, t.get());
    if (on) setSlice(); else s.left = (int64_t)1 << 60;
    sem_post(&s.threads[0]->sem);
    while (sem_wait(&s.main) != 0) {}
    for (auto& t : s.threads) pthread_join(t->id, nullptr);
    s.on = false;
    s.left = (int64_t)1 << 60;
    for (auto& t : s.threads) if (t->error) rethrow_exception(t->error);
}

} // namespace

// ---------------------------------------------------------------- seams: preemption points and everything that waits
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() { if (--s.left <= 0) sliceOver(); }

extern "C" int __cxa_guard_acquire(uint64_t* g)
{
    auto b = (volatile char*)g;
    while (true)
    {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; progressed(); return 1; }
        blocked();
    }
}
extern "C" void __cxa_guard_release(uint64_t* g) noexcept { auto b = (volatile char*)g; b[1] = 0; b[0] = 1; }
extern "C" void __cxa_guard_abort(uint64_t* g) noexcept { ((volatile char*)g)[1] = 0; }

#define WAITING(name, type, tryname) \
    extern "C" int name(type* m) noexcept \
    { \
        static int (*real)(type*); \
        if (!s.on || !t_self) { if (!real) real = (int (*)(type*))dlsym(RTLD_NEXT, #name); return real(m); } \
        int rc; \
        while ((rc = tryname(m)) == EBUSY) blocked(); \
        progressed(); \
        return rc; \
    }
WAITING(pthread_mutex_lock, pthread_mutex_t, pthread_mutex_trylock)
WAITING(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock)
WAITING(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock)

extern "C" int pthread_once(pthread_once_t* o, void (*fn)())
{
    auto v = (volatile int*)o;
    while (true)
    {
        if (*v & 2) return 0;
        if (!(*v & 1))
        {
            *v = 1;
            try { fn(); } catch (...) { *v = 0; throw; }
            *v = 2;
            progressed();
            return 0;
        }
        blocked();
    }
}

namespace {

// ---------------------------------------------------------------- what a thread does with its documents
struct Out { vector<string> what; };

struct Job
{
    vector<Op> ops;
    string external;            // a file of the independent producer
    unsigned id = 0;
};

string errorOf(const exception_ptr& e)
{
    try { rethrow_exception(e); }
    catch (const PdfError& x) { return string(PdfError::ErrorName(x.GetError())); }
    catch (const std::runtime_error& x) { return x.what(); }
}

struct RecSigner final : PdfSigner
{
    string fed;
    void Reset() override { fed.clear(); }
    void AppendData(const bufferview& d) override { fed.append(d.data(), d.size()); }
    void ComputeSignature(charbuff& b, bool dry) override { auto h = strf("%016llx", (unsigned long long)hashBytes(fed)); b.assign(h.begin(), h.end()); (void)dry; }
    string GetSignatureSubFilter() const override { return "ETSI.CAdES.detached"; }
    string GetSignatureType() const override { return "Sig"; }
};

void runJob(const Job& job, uint64_t random, Out& out)
{
    Rng rnd(random + job.id * 77);
    setThreadRng(&rnd);
    struct Unset { ~Unset() { setThreadRng(nullptr); } } unset;
    auto note = [&](string w) { NoPreempt np; out.what.push_back(move(w)); };
    string bytes, password;
    auto doc = make_unique<PdfMemDocument>();
    bool stored = false;
    auto reload = [&]() {
        auto d = make_unique<PdfMemDocument>();
        d->LoadFromDevice(makeDevice(bytes, devOpts(random % 7)), password);
        doc = move(d);
        stored = true;
    };
    auto finish = [&](const Op& op, bool update) {
        auto o = make_shared<string>(update ? bytes : string());
        SimDevice d(o, DeviceAccess::ReadWrite);
        if (update) doc->SaveUpdate(d, saveOpts(op.u(0))); else { doc->Save(d, saveOpts(op.u(0))); stored = false; }
        bytes = *o;
        note("file:" + bytes);
    };
    if (!job.external.empty()) { bytes = job.external; reload(); }
    for (auto& op : job.ops)
    {
        try
        {
            if (op.k == "save") finish(op, false);
            else if (op.k == "update") { if (stored) finish(op, true); }
            else if (op.k == "reload") { if (!bytes.empty()) reload(); }
            else if (op.k == "snap") { string t; for (auto& x : snapshot(*doc)) t += x.second; note(strf("snap:%llx", (unsigned long long)hashBytes(t))); }
            else if (op.k == "file")
            {
                auto path = world().scratch(strf("t%u-%llu.pdf", job.id, (unsigned long long)(op.u(0) % 3)));
                doc->Save(path, saveOpts(op.u(0))); stored = false;
                bytes = readFile(path);
                note("file:" + bytes);
            }
            else if (op.k == "encrypt")
            {
                static const PdfEncryptAlgorithm algs[] = { PdfEncryptAlgorithm::RC4V1, PdfEncryptAlgorithm::RC4V2, PdfEncryptAlgorithm::AESV2, PdfEncryptAlgorithm::AESV3R6 };
                static const PdfKeyLength lens[] = { PdfKeyLength::L40, PdfKeyLength::L128, PdfKeyLength::L128, PdfKeyLength::L256 };
                auto k = op.u(0) % 4;
                doc->SetEncrypted("user", "owner", PdfPermissions::Default, algs[k], lens[k]);
                password = "user";
            }
            else if (op.k == "sign")
            {
                if (!stored) continue;
                auto& pages = doc->GetPages();
                auto& page = pages.GetCount() ? pages.GetPageAt(0) : pages.CreatePage(PdfRect(0, 0, 300, 300));
                auto& f = static_cast<PdfSignature&>(page.CreateField(strf("signed%zu", out.what.size()), PdfFieldType::Signature, PdfRect(10, 10, 50, 20)));
                RecSigner signer;
                auto o = make_shared<string>(bytes);
                SimDevice d(o, DeviceAccess::ReadWrite);
                SignDocument(*doc, d, signer, f);
                bytes = *o;
                note("file:" + bytes);
            }
            else if (op.k == "extract")
            {
                auto& pages = doc->GetPages();
                if (pages.GetCount() == 0) continue;
                vector<PdfTextEntry> entries;
                pages.GetPageAt((unsigned)(op.u(0) % pages.GetCount())).ExtractTextTo(entries);
                string t;
                for (auto& e : entries) t += strf("%s@%g,%g;", e.Text.c_str(), e.X, e.Y);
                note("text:" + t);
            }
            else if (op.k == "text")
            {
                // standard, system and embedded fonts with several encodings
                auto& pages = doc->GetPages();
                auto& page = pages.GetCount() ? pages.GetPageAt(0) : pages.CreatePage(PdfRect(0, 0, 300, 300));
                static const PdfStandard14FontType std14[] = { PdfStandard14FontType::Helvetica, PdfStandard14FontType::TimesRoman, PdfStandard14FontType::CourierBold, PdfStandard14FontType::Symbol, PdfStandard14FontType::ZapfDingbats };
                PdfFont* font = nullptr;
                if (op.u(0) % 3 == 0)
                {
                    PdfFontCreateParams params;
                    if (op.u(1) % 2) params.Encoding = PdfEncodingMapFactory::WinAnsiEncodingInstance();
                    font = doc->GetFonts().GetFont(op.u(0) % 2 ? "DejaVu Sans" : "DejaVuSans", params);
                }
                else font = doc->GetFonts().GetStandard14Font(std14[op.u(1) % 5]);
                if (!font) { note("no font"); continue; }
                PdfPainter painter;
                painter.SetCanvas(page);
                painter.GetTextState().SetFont(*font, 10 + (double)(op.u(1) % 9));
                painter.DrawText(op.u(2) % 2 ? "Some text" : "\xC3\xA9t\xC3\xA9 AWAY", 20, 30 + (double)(op.u(2) % 200));
                painter.FinishDrawing();
                note(strf("length:%g", font->GetStringLength(string_view("Some text"), PdfTextState())));
            }
            else if (op.k == "import")
            {
                PdfMemDocument other;
                Plan q; Rng r(op.u(0));
                for (int i = 0; i < 4; i++) addRichOp(r, q, false);
                for (auto& x : q.ops) richOp(other, x);
                doc->GetPages().AppendDocumentPages(other);
            }
            else if (op.k == "damage")
            {
                // errors pass through the same code
                if (bytes.empty()) continue;
                auto bad = bytes;
                for (int i = 0; i < 8; i++) bad[(size_t)((op.u(0) * (uint64_t)(i + 1) * 2654435761u) % bad.size())] ^= (char)(1 + op.u(0) % 200);
                string t;
                try { auto d = loadDoc(bad, password); for (auto& x : snapshot(*d)) t += x.second; }
                catch (...) { t = errorOf(current_exception()); }
                note(strf("damaged:%llx", (unsigned long long)hashBytes(t)));
            }
            else if (op.k[0] == 'r') richOp(*doc, op);
        }
        catch (const PdfError& err)
        {
            note(op.k + " " + string(PdfError::ErrorName(err.GetError())));
            if (op.k == "save" || op.k == "update" || op.k == "file") break;
        }
        catch (const std::runtime_error& err) { note(op.k + " " + err.what()); }
    }
    Op last; last.k = "save"; last.a = { 0 };
    try { finish(last, false); } catch (const PdfError& err) { note(string("last ") + string(PdfError::ErrorName(err.GetError()))); }
}

void run(const Plan& p)
{
    auto& c = ctx();
    vector<Job> jobs;
    s.plan.clear();
    for (auto& op : p.ops)
    {
        if (op.k == "thread" || (jobs.empty() && op.k != "switch"))
        {
            Job j; j.id = (unsigned)jobs.size();
            if (op.k == "thread" && op.u(0) % 3 == 1)
            {
                Rng r(op.u(1));
                j.external = makeExternal(r, 3 + (unsigned)r.below(12), randomExt(r)).bytes;
            }
            jobs.push_back(move(j));
        }
        if (op.k == "switch") s.plan.push_back({ 1 + (int64_t)op.u(0), op.u(1) });
        else if (op.k != "thread") jobs.back().ops.push_back(op);
    }
    if (jobs.empty()) return;
    s.tail = (int64_t)p.u("tail");
    s.rng.reseed(p.u("sched") + 1);
    world().setClock(1600000000, 0);
    auto random = p.u("random");
    vector<Out> alone(jobs.size()), together(jobs.size());
    auto runAll = [&](vector<Out>& outs, bool on) {
        c.setStage(on ? "threads together" : "threads alone");
        vector<function<void()>> bodies;
        for (size_t i = 0; i < jobs.size(); i++) bodies.push_back([&, i] { runJob(jobs[i], random, outs[i]); });
        runThreads(move(bodies), on);
    };
    // a warm process has used the library before; in a cold one the threads are its first users
    if (p.c("warm")) runAll(alone, false);
    runAll(together, true);
    auto switches = s.switches; auto forced = s.forced; auto edges = s.edges;
    if (!p.c("warm")) runAll(alone, false);
    c.setStage("comparing");
    for (size_t i = 0; i < jobs.size(); i++)
    {
        auto& a = alone[i].what; auto& b = together[i].what;
        for (size_t k = 0; k < max(a.size(), b.size()); k++)
        {
            string x = k < a.size() ? a[k] : "nothing", y = k < b.size() ? b[k] : "nothing";
            if (x == y) continue;
            size_t d = 0; while (d < x.size() && d < y.size() && x[d] == y[d]) d++;
            auto clean = [](string v) { for (auto& ch : v) if (ch < ' ' || ch == 127) ch = '.'; return v; };
            size_t from = d > 40 ? d - 40 : 0;
            c.fail("interference", strf("thread %zu, result %zu: alone '%s', with others '%s'", i, k, clean(x.substr(from, 90)).c_str(), clean(y.substr(from, 90)).c_str()));
        }
        for (auto& x : a) c.ev("result", (int64_t)x.size(), (int64_t)hashBytes(x));
    }
    c.probe(p.c("warm") ? "warm" : "cold");
    if (switches > jobs.size()) c.fault("preemption");
    if (forced) c.probe("waited-for-lock");
    c.state(switches * 1000003 + (edges & 0xffff));
    (void)edges;
}

void gen(Rng& rng, Plan& p)
{
    p.cfg["random"] = big(rng);
    p.cfg["sched"] = big(rng);
    p.cfg["warm"] = rng.chance(1, 3);
    p.cfg["tail"] = rng.chance(1, 3) ? 0 : (int64_t)(200ull << rng.below(10));
    size_t threads = 2 + rng.below(3);
    bool same = rng.chance(1, 3);      // everyone does the same: the same code at the same time
    vector<Op> first;
    for (size_t t = 0; t < threads; t++)
    {
        p.add("thread", { (int64_t)rng.below(3), big(rng) });
        if (same && t > 0) { for (auto& o : first) p.ops.push_back(o); continue; }
        Plan q;
        size_t n = 2 + rng.below(9);
        for (size_t i = 0; i < n; i++)
            switch (rng.below(14))
            {
                case 0: q.add("save", { (int64_t)rng.below(1000) }); if (rng.chance(2, 3)) q.add("reload", { big(rng) }); break;
                case 1: q.add("update", { (int64_t)rng.below(1000) }); break;
                case 2: q.add("snap", { 0 }); break;
                case 3: q.add("encrypt", { big(rng) }); break;
                case 4: q.add("sign", { big(rng) }); break;
                case 5: q.add("extract", { big(rng) }); break;
                case 6: case 7: q.add("text", { big(rng), big(rng), big(rng) }); break;
                case 8: if (rng.chance(1, 2)) { q.add("import", { big(rng) }); break; } [[fallthrough]];
                case 9: if (rng.chance(1, 2)) { q.add("damage", { big(rng) }); break; } [[fallthrough]];
                case 10: if (rng.chance(1, 3)) { q.add("file", { (int64_t)rng.below(1000) }); break; } [[fallthrough]];
                default: addRichOp(rng, q, rng.chance(1, 2)); break;
            }
        if (t == 0) first = q.ops;
        for (auto& o : q.ops) p.ops.push_back(o);
    }
    size_t n = rng.chance(1, 4) ? rng.below(6) : rng.below(150);
    int kind = (int)rng.below(4);
    for (size_t i = 0; i < n; i++)
    {
        int64_t len;
        switch (kind == 3 ? (int)rng.below(3) : kind) { case 0: len = (int64_t)rng.below(60); break; case 1: len = (int64_t)rng.below(4000); break; default: len = (int64_t)rng.below(1u << (6 + rng.below(14))); break; }
        p.add("switch", { len, (int64_t)rng.below(12) });
    }
}

Register r({ "C13", "threads", 1, 2200, gen, run, 60 });

} // namespace
