// C01 (append-only, crash-atomic updates), C02 (every byte delivered or an error), C03 (failed operations leave the document alone)
#include "rich.h"
using namespace std;
using namespace mm;
using namespace sim;

static int64_t big(Rng& rng) { return (int64_t)rng.below(1000); }

static void addFault(Rng& rng, Plan& p, bool quietOnly = false)
{
    Io io = Io::Write;
    switch (rng.below(10)) { case 0: io = Io::Flush; break; case 1: io = Io::Seek; break; case 2: io = Io::Close; break; case 3: io = rng.chance(1, 4) ? Io::Open : Io::Write; break; }
    int64_t eff = quietOnly ? (int64_t)rng.below(2) : (int64_t)rng.below(4);      // short, eintr, full, error
    p.add("fault", { (int64_t)io, (int64_t)rng.next() & 0xffffff, eff, rng.chance(1, 3) ? -1 : rng.skew(3000), rng.chance(1, 2) });
}

// A standard stream of the caller: its buffer fails like a disk does
struct SimBuf : streambuf
{
    shared_ptr<string> data;
    FaultSchedule faults;
    size_t pos = 0;
    vector<char> buf;
    SimBuf(shared_ptr<string> d, size_t n) : data(d), buf(n) { if (n) setp(buf.data(), buf.data() + n); }
    bool fails(Io io)
    {
        world().step();
        auto f = faults.next(io);
        return f && (f->eff == Eff::Full || f->eff == Eff::Error);
    }
    bool put(const char* p, size_t n)
    {
        if (n == 0) return true;
        if (fails(Io::Write)) return false;
        if (data->size() < pos + n) data->resize(pos + n);
        data->replace(pos, n, p, n);
        pos += n;
        return true;
    }
    bool drain() { bool ok = put(pbase(), (size_t)(pptr() - pbase())); if (ok && !buf.empty()) setp(buf.data(), buf.data() + buf.size()); return ok; }
    int overflow(int c) override
    {
        NoPreempt np;
        if (!drain()) return EOF;
        if (c != EOF) { char ch = (char)c; if (buf.empty()) { if (!put(&ch, 1)) return EOF; } else sputc(ch); }
        return c == EOF ? 0 : c;
    }
    streamsize xsputn(const char* p, streamsize n) override
    {
        NoPreempt np;
        if (!buf.empty() && n <= epptr() - pptr()) { memcpy(pptr(), p, (size_t)n); pbump((int)n); return n; }
        if (!drain() || !put(p, (size_t)n)) return 0;
        return n;
    }
    int sync() override { return drain() && !fails(Io::Flush) ? 0 : -1; }
    pos_type seekoff(off_type off, ios_base::seekdir dir, ios_base::openmode) override
    {
        if (!drain()) return -1;
        if (off == 0 && dir == ios_base::cur) return (off_type)pos;
        if (fails(Io::Seek)) return -1;
        off_type base = dir == ios_base::beg ? 0 : dir == ios_base::cur ? (off_type)pos : (off_type)data->size();
        if (base + off < 0 || base + off > (off_type)data->size()) return -1;
        pos = (size_t)(base + off);
        return (off_type)pos;
    }
    pos_type seekpos(pos_type p, ios_base::openmode m) override { return seekoff(p, ios_base::beg, m); }
};

// Where a document is saved: a device or a file
struct Target
{
    uint64_t allocAt = 0, allocs = 0;
    bool file = false;
    bool stream = false;
    string path;
    shared_ptr<string> data = make_shared<string>();
    vector<pair<size_t, string>> log;
    uint64_t counts[(int)Io::Count] = {};
    uint64_t fired = 0;
    string error;      // what the call threw
    bool ok = false;
    string bytes() const { return file ? readFile(path) : *data; }
};

// Save or update with the faults of the plan, placed within the operation counts of an undisturbed twin run
static void doSave(Hist& h, Target& t, bool update, PdfSaveOptions opts, uint64_t devSel, const Plan* faults, const Target* twin, size_t from = 0, size_t to = SIZE_MAX)
{
    auto& w = world();
    w.rnd.reseed(4711);
    w.setClock(1700001000);
    FaultSchedule sched;
    if (faults)
        for (size_t i = from; i < min(to, faults->ops.size()); i++)
        {
            auto op = faults->ops[i];
            if (op.k != "fault") continue;
            auto io = op.u(0) % (uint64_t)Io::Count;
            uint64_t n = twin ? twin->counts[io] : 0;
            if (n == 0) continue;
            op.a[1] = (int64_t)(op.u(1) % n);
            addFaultOp(sched, op);
        }
    ctx().setStage(update ? "incremental save" : "save");
    t.ok = false;
    auto attempt = [&](auto fn) {
        w.allocs = 0; w.allocFired = 0;
        w.failAlloc = t.allocAt && twin && twin->allocs ? 1 + (t.allocAt - 1) % twin->allocs : 0;
        w.allocCounting = true;
        try { fn(); t.ok = true; }
        catch (const PdfError& e) { w.allocCounting = false; t.error = string(PdfError::ErrorName(e.GetError())); }
        catch (const std::exception& e) { w.allocCounting = false; t.error = e.what(); }
        w.allocCounting = false; w.failAlloc = 0;
        t.allocs = w.allocs;
        if (w.allocFired) ctx().fault("alloc-failed");
    };
    if (t.file)
    {
        if (update) writeFile(t.path, h.bytes);
        else if (faults && faults->c("existing")) writeFile(t.path, string(5000, 'x'));
        w.disk.clear();
        w.disk.faults = sched.faults;
        attempt([&] { if (update) h.doc->SaveUpdate(t.path, opts); else h.doc->Save(t.path, opts); });
        for (int i = 0; i < (int)Io::Count; i++) t.counts[i] = w.disk.count[i];
        t.fired = w.disk.fired;
        w.disk.clear();
    }
    else if (t.stream)
    {
        *t.data = update ? h.bytes : string();
        SimBuf buf(t.data, devSel % 4 == 0 ? 0 : devSel % 4 == 1 ? 7 : 1000);
        ostream os(&buf);
        StandardStreamDevice d(os);
        buf.faults = sched;
        attempt([&] { if (update) h.doc->SaveUpdate(d, opts); else h.doc->Save(d, opts); d.Flush(); });
        for (int i = 0; i < (int)Io::Count; i++) t.counts[i] = buf.faults.count[i];
        t.fired = buf.faults.fired;
        buf.faults.clear();
    }
    else
    {
        *t.data = update ? h.bytes : string();
        SimDevice d(t.data, DeviceAccess::ReadWrite, devOpts(devSel));
        d.opts.capacity = -1;
        if (update && devSel % 3) d.Seek((ssize_t)(devSel * 7919 % (d.GetLength() + 1)));      // wherever the caller left it
        d.faults = sched;
        d.log = &t.log;
        attempt([&] { if (update) h.doc->SaveUpdate(d, opts); else h.doc->Save(d, opts); d.Flush(); });
        for (int i = 0; i < (int)Io::Count; i++) t.counts[i] = d.faults.count[i];
        t.fired = d.faults.fired;
    }
    ctx().ev("saved", t.ok, (int64_t)t.fired, (int64_t)hashBytes(t.bytes()));
}

static void buildHist(const Plan& p, Hist& h)
{
    startHist(p, h);
    bool upd = p.c("update") != 0;
    if (auto enc = p.c("enc"))
    {
        static const PdfEncryptAlgorithm algs[] = { PdfEncryptAlgorithm::RC4V1, PdfEncryptAlgorithm::RC4V2, PdfEncryptAlgorithm::AESV2, PdfEncryptAlgorithm::AESV3, PdfEncryptAlgorithm::AESV3R6 };
        static const PdfKeyLength lens[] = { PdfKeyLength::L40, PdfKeyLength::L128, PdfKeyLength::L128, PdfKeyLength::L256, PdfKeyLength::L256 };
        world().rnd.reseed(815);
        h.doc->SetEncrypted("user", "owner", PdfPermissions::Default, algs[(enc - 1) % 5], lens[(enc - 1) % 5]);
        h.password = "user";
        h.stored = false;
        ctx().probe("encrypted");
    }
    if (upd && !h.stored) { h.save(saveOpts((uint64_t)p.c("presave")), devOpts(3)); h.reload(devOpts((uint64_t)p.c("presave") / 8)); }
    for (auto& op : p.ops)
    {
        if (op.k == "fault" || op.k == "again") continue;
        if (!richOp(*h.doc, op)) h.edit(op);
    }
}

static void genBuild(Rng& rng, Plan& p, bool rich)
{
    genStart(rng, p);
    p.cfg["update"] = rng.chance(1, 2);
    p.cfg["presave"] = (int64_t)rng.below(64);
    p.cfg["opts"] = (int64_t)rng.below(8);
    p.cfg["quiet"] = rng.chance(1, 2);
    p.cfg["file"] = rng.chance(1, 2);
    p.cfg["stream"] = rng.chance(1, 4);
    p.cfg["existing"] = rng.chance(1, 2);
    p.cfg["enc"] = rng.chance(1, 4) ? 1 + (int64_t)rng.below(5) : 0;
    p.cfg["dev"] = big(rng);
    auto n = 1 + rng.below(14);
    for (uint64_t i = 0; i < n; i++)
    {
        if (rich && rng.chance(1, 3)) addRichOp(rng, p, false);
        else addEditOp(rng, p, true);
    }
}

static PdfSaveOptions optsOf(const Plan& p, uint64_t sel) { auto o = saveOpts(sel); if (p.c("quiet")) o = o | QuietSave; return o; }

// ---------------------------------------------------------------- C02
static void genC02(Rng& rng, Plan& p)
{
    genBuild(rng, p, true);
    auto k = rng.below(8);
    if (k == 0) return;                                    // no fault at all
    if (k < 3) { auto n = 1 + rng.below(4); for (uint64_t i = 0; i < n; i++) addFault(rng, p, true); return; }      // only interrupted and short operations
    addFault(rng, p);
    if (rng.chance(1, 3)) addFault(rng, p);
}
static void runC02(const Plan& p)
{
    auto& c = ctx();
    Hist a, b;
    buildHist(p, a);
    buildHist(p, b);
    bool upd = p.c("update") != 0;
    auto opts = optsOf(p, (uint64_t)p.c("opts"));
    Target x, y;
    x.file = y.file = p.c("file") != 0;
    x.stream = y.stream = p.c("stream") != 0;
    if (x.file) { x.path = world().scratch("a.pdf"); y.path = world().scratch("b.pdf"); }
    string old = upd ? a.bytes : string();
    doSave(a, x, upd, opts, (uint64_t)p.c("dev"), nullptr, nullptr);
    if (!x.ok) c.fail("save-error", "an undisturbed save failed: " + x.error);
    auto want = x.bytes();
    doSave(b, y, upd, opts, (uint64_t)p.c("dev"), &p, &x);
    auto got = y.bytes();
    const char* kind = y.file ? "file" : "device";
    if (y.ok && y.fired) c.fail("error-swallowed", strf("%s to a %s returned normally although %llu operation(s) failed (%zu of %zu bytes there)", upd ? "SaveUpdate" : "Save", kind, (unsigned long long)y.fired, got.size(), want.size()));
    if (y.ok && got != want)
    {
        size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
        c.fail("bytes-differ", strf("%s to a %s returned normally but delivered other bytes: %zu, expected %zu, first difference at %zu", upd ? "SaveUpdate" : "Save", kind, got.size(), want.size(), i));
    }
    if (!y.ok && !y.fired) c.fail("spurious-error", strf("saving to a %s failed (%s) although every operation succeeded (only short or interrupted ones)", kind, y.error.c_str()));
    if (upd && !y.ok && (got.size() < old.size() || got.compare(0, old.size(), old) != 0)) c.fail("append-only", "a failed incremental update damaged the earlier revision");
    if (y.ok)
    {
        // what was delivered reopens to what was saved
        auto d = loadDoc(got, b.password, devOpts((uint64_t)p.c("dev") / 2));
        auto want2 = docSnapshot(*b.doc, true), have = docSnapshot(*d, true);
        keepReachable(want2, *b.doc); keepReachable(have, *d);
        auto diff = firstDiff(want2, have);
        if (!diff.empty()) c.fail("reopen-differs", "reopened after a save: " + diff);
        c.probe(upd ? "update-ok" : "save-ok");
    }
    else c.probe(upd ? "update-failed" : "save-failed");
    c.probe(y.file ? "to-file" : y.stream ? "to-stream" : "to-device");
    c.state(a.stateSig());
}
static Register r02({ "C02", "faulty-save", 1, 12000, genC02, runC02 });

// ---------------------------------------------------------------- C03
static void genC03(Rng& rng, Plan& p)
{
    genBuild(rng, p, true);
    auto n = 1 + rng.below(4);
    for (uint64_t i = 0; i < n; i++)
    {
        p.add("again", { (int64_t)rng.below(8), rng.chance(1, 2), rng.chance(1, 2), rng.chance(1, 3) ? 1 + (int64_t)rng.below(1u << 30) : 0 });
        auto k = rng.below(3);
        for (uint64_t j = 0; j < k; j++) addFault(rng, p);
    }
}
static void runC03(const Plan& p)
{
    auto& c = ctx();
    Hist a, b;
    buildHist(p, a);      // undisturbed twin
    buildHist(p, b);
    bool quiet = p.c("quiet") != 0;
    // the first save finishes the fonts used while drawing (their dictionaries are written by it)
    bool drawn = false;
    for (auto& op : p.ops) drawn = drawn || (op.k == "rdraw" && op.u(2) != 0) || op.k == "rfield";
    if (drawn)
    {
        Target t0, t1;
        doSave(a, t0, false, optsOf(p, 2), 1, nullptr, nullptr);
        doSave(b, t1, false, optsOf(p, 2), 1, nullptr, nullptr);
        if (!t0.ok || !t1.ok) c.fail("save-error", "an undisturbed save failed: " + t0.error + t1.error);
        c.probe("fonts-finished");
    }
    auto before = docSnapshot(*a.doc, !quiet);
    auto reach = before;
    keepReachable(reach, *a.doc);
    for (auto& r : a.plumbing) { before.erase(r); reach.erase(r); }
    bool collected = false;
    for (size_t i = 0; i < p.ops.size(); i++)
    {
        auto& op = p.ops[i];
        if (op.k != "again") continue;
        size_t j = i + 1;
        while (j < p.ops.size() && p.ops[j].k == "fault") j++;
        bool upd = op.at(1) && b.stored;
        auto opts = optsOf(p, op.u(0));
        // a healthy run of the same save on a twin tells where faults can go
        Target x, y;
        x.file = y.file = op.at(2) != 0;
        if (x.file) { x.path = world().scratch("a.pdf"); y.path = world().scratch("b.pdf"); }
        doSave(a, x, upd, opts, (uint64_t)p.c("dev"), nullptr, nullptr);
        if (!x.ok) c.fail("save-error", "an undisturbed save failed: " + x.error);
        y.allocAt = j == i + 1 ? op.u(3) : 0;      // an allocation failing while another failure is handled may leave traces
        doSave(b, y, upd, opts, (uint64_t)p.c("dev"), &p, &x, i + 1, j);
        c.probe(y.ok ? "saved" : "failed");
        if ((op.u(0) & 2) == 0) collected = true;
        // the document in memory is what it was (apart from collected garbage)
        auto now = docSnapshot(*b.doc, !quiet);
        for (auto& r : a.plumbing) now.erase(r);
        // garbage may have been collected by a save that got that far, or still be what it was
        for (auto it = now.begin(); it != now.end();)
            if (!reach.count(it->first) && before.count(it->first) && before[it->first] == it->second) it = now.erase(it); else ++it;
        {
            auto d = firstDiff(reach, now);
            if (!d.empty()) c.fail(y.ok ? "changed-by-save" : "changed-by-failure", strf("after a %s %s the document in memory differs: %s", y.ok ? "successful" : "failed", upd ? "update" : "save", d.c_str()));
        }
        if (!collected)
            for (auto& o : before) if (!reach.count(o.first) && !b.doc->GetObjects().GetObject(toRef(o.first))) c.fail("dropped-by-save", refText(o.first) + " was dropped by a save that should not collect garbage");
        // and saves again to exactly that
        Target z;
        doSave(b, z, false, opts, (uint64_t)p.c("dev"), nullptr, nullptr);
        if (!z.ok) c.fail("retry-failed", "saving to a healthy device after a failure: " + z.error);
        if ((op.u(0) & 2) == 0) collected = true;
        auto d2 = loadDoc(z.bytes(), b.password, devOpts(op.u(0)));
        auto again = docSnapshot(*d2, !quiet);
        keepReachable(again, *d2);
        for (auto& r : a.plumbing) again.erase(r);
        auto d = firstDiff(reach, again);
        if (!d.empty()) c.fail("retry-differs", strf("saved again after a %s save, the file differs: %s", y.ok ? "successful" : "failed", d.c_str()));
    }
    c.state(a.stateSig());
}
static Register r03({ "C03", "failed-save", 1, 8000, genC03, runC03 });

// ---------------------------------------------------------------- C01
static void genC01(Rng& rng, Plan& p)
{
    genStart(rng, p);
    p.cfg["dev"] = big(rng);
    p.cfg["presave"] = (int64_t)rng.below(64);
    p.cfg["quiet"] = rng.chance(1, 2);
    auto rounds = 1 + rng.below(4);
    for (uint64_t r = 0; r < rounds; r++)
    {
        auto n = 1 + rng.below(8);
        for (uint64_t i = 0; i < n; i++) addEditOp(rng, p, true);
        p.add("update", { (int64_t)rng.below(8), big(rng), rng.chance(1, 3) });
        auto cuts = rng.below(6);
        for (uint64_t i = 0; i < cuts; i++) p.add("torn", { (int64_t)rng.next() & 0xffffff, (int64_t)rng.below(4), big(rng) });
        if (rng.chance(1, 2)) p.add("crash", { (int64_t)rng.next() & 0xffffff, rng.skew(5000), (int64_t)rng.below(8) });
        if (rng.chance(2, 3)) p.add("reload", { big(rng) });
    }
}
static string tornName(int64_t n) { return strf("torn at %lld", (long long)n); }
// What a reader finds in the file: an error, or some state of the document
static bool readState(const string& bytes, uint64_t dev, map<Ref, string>& out, string& err)
{
    try
    {
        auto d = loadDoc(bytes, {}, devOpts(dev));
        out = docSnapshot(*d, false);
        return true;
    }
    catch (const PdfError& e) { err = string(PdfError::ErrorName(e.GetError())); return false; }
}
static void runC01(const Plan& p)
{
    auto& c = ctx();
    Hist h;
    startHist(p, h);
    if (!h.stored) { h.save(saveOpts((uint64_t)p.c("presave")), devOpts(3)); h.reload(devOpts((uint64_t)p.c("presave") / 8)); }
    string prev;                                      // the revision before the last update
    vector<pair<size_t, string>> log;
    for (auto& op : p.ops)
    {
        if (op.k == "update")
        {
            if (!h.stored) continue;
            auto opts = optsOf(p, op.u(0));
            Target t;
            t.file = op.at(2) != 0;
            if (t.file) t.path = world().scratch("u.pdf");
            prev = h.bytes;
            doSave(h, t, true, opts, op.u(1), nullptr, nullptr);
            if (!t.ok) c.fail("save-error", "an undisturbed update failed: " + t.error);
            log = t.log;
            auto now = t.bytes();
            if (now.size() <= prev.size() || now.compare(0, prev.size(), prev) != 0) c.fail("append-only", strf("an incremental update changed bytes of earlier revisions (%zu before, %zu after)", prev.size(), now.size()));
            for (auto& w : log) if (w.first < prev.size()) c.fail("append-only", strf("an incremental update wrote at %zu, inside earlier revisions", w.first));
            if ((op.u(0) & 2) == 0) h.gc();
            h.noteStructural();
            h.bytes = now;
            h.revEnds.push_back(now.size());
            h.revModels.push_back(h.model);
            h.durable = h.model; h.durableDead = h.dead;
            h.verifyBytes("after update", devOpts(op.u(1) / 2));
            c.probe(t.file ? "update-file" : "update-device");
            c.state(h.stateSig());
        }
        else if (op.k == "torn" && !prev.empty())
        {
            // the machine stopped after a prefix of the appended bytes reached storage
            size_t tail = h.bytes.size() - prev.size();
            size_t n;
            switch (op.u(1))
            {
                case 0: n = op.u(0) % (tail + 1); break;
                case 1: n = tail - min<size_t>(tail, op.u(0) % 40); break;
                case 2: n = min<size_t>(tail, op.u(0) % 40); break;
                default:
                {
                    // at a boundary between writes
                    size_t pos = prev.size();
                    if (!log.empty()) { auto& w = log[op.u(0) % log.size()]; pos = w.first; }
                    n = pos > prev.size() ? pos - prev.size() : 0;
                    if (n > tail) n = tail;
                }
            }
            c.fault("torn-update");
            string torn = h.bytes.substr(0, prev.size() + n);
            map<Ref, string> oldState, newState, got;
            string err;
            c.setStage("reading a torn update");
            if (!readState(prev, 1, oldState, err)) c.fail("revision-lost", "the previous revision no longer opens: " + err);
            if (!readState(h.bytes, 1, newState, err)) c.fail("revision-lost", "the new revision does not open: " + err);
            // the writer ends a revision with "%%EOF" and an end of line, which a reader does not need
            bool complete = n == tail || (n + 2 >= tail && torn.size() >= 5 && torn.compare(torn.size() - 5, 5, "%%EOF") == 0) || (n + 1 == tail);
            if (readState(torn, op.u(2), got, err))
            {
                bool isOld = got == oldState, isNew = got == newState;
                if (!isOld && !isNew) c.fail("torn-mix", tornName((int64_t)n) + strf(" of %zu appended bytes the file opens to neither revision: ", tail) + firstDiff(oldState, got) + " / " + firstDiff(newState, got));
                if (!isNew && n == tail) c.fail("torn-complete", "all bytes of the update are there but the old revision opens");
                c.probe(isNew ? (complete ? "torn-new" : "torn-new-early") : "torn-old");
            }
            else
            {
                if (n == tail) c.fail("torn-complete", "all bytes of the update are there but it does not open: " + err);
                c.probe("torn-error");
            }
            // recoverable by truncation to the end of the previous revision
            map<Ref, string> rec;
            if (!readState(torn.substr(0, prev.size()), op.u(2) / 2, rec, err) || rec != oldState) c.fail("revision-lost", "truncating a torn update does not give the previous revision " + err);
            c.ev("torn", (int64_t)n, (int64_t)tail);
        }
        else if (op.k == "crash" && h.stored)
        {
            // the disk dies while an update goes to a file: the file keeps the old revision, the document its content
            auto path = world().scratch("c.pdf");
            writeFile(path, h.bytes);
            auto& disk = world().disk;
            disk.clear();
            Fault f{ Io::Write, op.u(0) % 3, Eff::Error, op.at(1), true };
            disk.faults.push_back(f);
            bool ok = true;
            c.setStage("update on a dying disk");
            try { h.doc->SaveUpdate(path, saveOpts(op.u(2) | 2) | QuietSave); } catch (const PdfError&) { ok = false; }
            bool fired = disk.fired > 0;
            disk.clear();
            if (ok && fired) c.fail("error-swallowed", "an update on a dying disk returned normally");
            auto now = readFile(path);
            if (now.size() < h.bytes.size() || now.compare(0, h.bytes.size(), h.bytes) != 0) c.fail("append-only", "a failed update changed bytes of earlier revisions");
            map<Ref, string> oldState, got;
            string err;
            c.setStage("reading after a dead disk");
            if (!readState(h.bytes, 1, oldState, err)) c.fail("revision-lost", "the previous revision no longer opens: " + err);
            if (!ok && readState(now, 2, got, err) && got != oldState) c.fail("torn-mix", "after a failed update the file opens to something else than the previous revision: " + firstDiff(oldState, got));
            c.probe(ok ? "crash-none" : "crash");
        }
        else if (op.k == "reload") { if (!h.bytes.empty()) h.reload(devOpts(op.u(0))); }
        else h.edit(op);
    }
    // every revision is still there, at its place
    for (size_t i = 0; i < h.revEnds.size(); i++)
    {
        c.setStage("truncating to a revision");
        auto d = loadDoc(h.bytes.substr(0, h.revEnds[i]), {}, devOpts(i));
        auto st = structuralRefs(*d);
        st.insert(h.plumbing.begin(), h.plumbing.end());
        for (auto& m : h.revModels[i]) st.erase(m.first);
        verifyDoc(*d, h.revModels[i], st, {}, strf("revision %zu of %zu", i + 1, h.revEnds.size()).c_str());
    }
    if (h.revEnds.size() > 2) c.probe("three-revisions");
}
static Register r01({ "C01", "updates", 1, 4500, genC01, runC01 });
