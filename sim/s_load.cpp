// C06 (loading under chunking and read faults), C11 (damaged storage), C18 (failing allocations)
#include "rich.h"
#include <sstream>
#include <fstream>
using namespace std;
using namespace mm;
using namespace sim;

namespace {

int64_t big(Rng& rng) { return (int64_t)rng.below(1000); }
int64_t huge(Rng& rng) { return (int64_t)rng.below(1 << 30); }

// ---------------------------------------------------------------- the stored file a run starts from
struct Source { string bytes, older, password; };

void genSource(Rng& rng, Plan& p)
{
    genStart(rng, p);
    p.cfg["enc"] = rng.chance(1, 6) ? 1 + (int64_t)rng.below(5) : 0;
    p.cfg["srcopts"] = (int64_t)rng.below(8);
    p.cfg["rich"] = rng.chance(1, 2);
    p.cfg["upd"] = rng.chance(1, 3);
    p.cfg["asis"] = rng.chance(1, 2);       // the external producer's file, unchanged
    auto n = rng.below(10);
    for (uint64_t i = 0; i < n; i++) { if (p.c("rich") && rng.chance(1, 2)) addRichOp(rng, p, rng.chance(1, 6)); else addEditOp(rng, p, true); }
}
void encryptDoc(PdfMemDocument& doc, int64_t how)
{
    switch (how)
    {
        case 1: doc.SetEncrypted("user", "owner", PdfPermissions::Default, PdfEncryptAlgorithm::RC4V1, PdfKeyLength::L40); break;
        case 2: doc.SetEncrypted("user", "owner", PdfPermissions::Print, PdfEncryptAlgorithm::RC4V2, PdfKeyLength::L128); break;
        case 3: doc.SetEncrypted("user", "owner", PdfPermissions::Default, PdfEncryptAlgorithm::AESV2, PdfKeyLength::L128); break;
        case 4: doc.SetEncrypted("user", "owner", PdfPermissions::Default, PdfEncryptAlgorithm::AESV3, PdfKeyLength::L256); break;
        default: doc.SetEncrypted("user", "owner", PdfPermissions::Default, PdfEncryptAlgorithm::AESV3R6, PdfKeyLength::L256); break;
    }
}
string saveTo(PdfMemDocument& doc, PdfSaveOptions opts, uint64_t dev = 4)
{
    auto o = make_shared<string>();
    SimDevice d(o, DeviceAccess::ReadWrite, devOpts(dev));
    doc.Save(d, opts);
    return *o;
}
Source makeSource(const Plan& p)
{
    ctx().setStage("making the source file");
    Source s;
    Hist h;
    startHist(p, h);
    s.older = h.bytes;
    if (p.c("start") == 1 && p.c("asis")) { s.bytes = h.bytes; ctx().probe("source-external"); return s; }
    for (auto& op : p.ops) if (!richOp(*h.doc, op)) h.edit(op);
    if (p.c("upd") && h.stored && !p.c("enc")) { h.update(saveOpts((uint64_t)p.c("srcopts")), devOpts(4)); for (int64_t k = 0; k < p.c("upds"); k++) { h.edit(Op{ "new", { (int64_t)(k % 5), 7 + k, (int64_t)p.u("at") % 100 } }); h.update(saveOpts((uint64_t)p.c("srcopts")), devOpts(4)); } s.bytes = h.bytes; ctx().probe(p.c("upds") ? "source-updated-often" : "source-updated"); return s; }
    if (p.c("enc")) { encryptDoc(*h.doc, p.c("enc")); s.password = p.c("srcopts") % 2 ? "user" : "owner"; ctx().probe("source-encrypted"); }
    s.bytes = saveTo(*h.doc, saveOpts((uint64_t)p.c("srcopts")));
    if (s.older.empty()) s.older = s.bytes;
    ctx().probe("source-saved");
    return s;
}

using Snap = map<Ref, string>;
Snap dump(PdfMemDocument& doc)
{
    auto s = snapshot(doc);
    s[{ 0, 1 }] = strf("version %d pages %u encrypted %d", (int)doc.GetMetadata().GetPdfVersion(), doc.GetPages().GetCount(), doc.GetEncrypt() != nullptr);
    s[{ 0, 2 }] = canon(doc.GetTrailer().GetObject());
    return s;
}

// ---------------------------------------------------------------- C06
// Ways to hand the same bytes to the library. The objects live as long as the document.
struct Feed
{
    shared_ptr<SimDevice> dev;
    unique_ptr<istringstream> is;
    string path, copy;
    void load(PdfMemDocument& doc, int how, const string& bytes, const string& pw, uint64_t sel)
    {
        switch (how)
        {
            case 1: doc.LoadFromBuffer(bufferview(bytes.data(), bytes.size()), pw); break;
            case 2: doc.Load(path, pw); break;
            case 3: is.reset(new istringstream(bytes)); doc.LoadFromDevice(make_shared<StandardStreamDevice>(*static_cast<istream*>(is.get())), pw); break;
            case 4: doc.LoadFromDevice(make_shared<FileStreamDevice>(path, FileMode::Open, DeviceAccess::Read), pw); break;
            case 5: copy = bytes; doc.LoadFromDevice(make_shared<StringStreamDevice>(copy, DeviceAccess::Read, sel % 2), pw); break;
            default: doc.LoadFromDevice(dev, pw); break;
        }
    }
    bool file(int how) const { return how == 2 || how == 4; }
    FaultSchedule& faults(int how) { return file(how) ? world().disk : dev->faults; }
};

void gen06(Rng& rng, Plan& p)
{
    genSource(rng, p);
    p.cfg["how"] = rng.chance(1, 2) ? 0 : (int64_t)rng.below(6);
    p.cfg["dev"] = big(rng);
    p.cfg["stage"] = (int64_t)rng.below(4);        // faults while loading, accessing, saving, none
    p.cfg["same"] = rng.chance(1, 2);
    auto n = 3 + rng.below(20);
    if (p.c("stage") == 1) for (uint64_t i = 0; i < n; i++) p.add(rng.chance(1, 5) ? "release" : "access", { big(rng), big(rng) });
    if (p.c("stage") == 3)
    {
        // only short and interrupted reads of the system
        for (uint64_t i = 0; i < 3; i++) p.add("fault", { (int64_t)Io::Read, rng.skew(40), (int64_t)rng.below(2), rng.skew(9000), rng.chance(1, 2) });
    }
    else
    {
        auto k = 1 + rng.below(2);
        for (uint64_t i = 0; i < k; i++) p.add("fault", { (int64_t)(rng.chance(1, 5) ? Io::Seek : Io::Read), huge(rng), rng.chance(1, 5) ? (int64_t)rng.below(2) : 2 + (int64_t)rng.below(2), rng.skew(3000), rng.chance(1, 2) });
    }
}
FaultSchedule placed(const Plan& p, const uint64_t* counts)
{
    FaultSchedule s;
    for (auto op : p.ops)
        if (op.k == "fault")
        {
            auto n = counts ? counts[op.u(0) % (uint64_t)Io::Count] : 1 << 30;
            if (!n) continue;
            if (counts) op.a[1] = (int64_t)(op.u(1) % n);
            addFaultOp(s, op);
        }
    return s;
}
template <typename F> bool attempt(string& err, F fn)
{
    try { fn(); return true; }
    catch (const PdfError& e) { err = string(PdfError::ErrorName(e.GetError())); for (auto& i : e.GetCallstack()) if (!i.GetInformation().empty()) err += ": " + string(i.GetInformation()); }
    catch (const std::exception& e) { err = e.what(); }
    return false;
}
void same(const char* cls, const string& what, const Snap& want, const Snap& got)
{
    auto d = firstDiff(want, got);
    if (!d.empty()) ctx().fail(cls, what + ": " + d);
}

void run06(const Plan& p)
{
    auto& c = ctx();
    auto src = makeSource(p);
    int how = (int)(p.u("how") % 6), stage = (int)(p.u("stage") % 4);
    Snap want;
    string cleanSave;
    {
        PdfMemDocument ref;
        ref.LoadFromBuffer(bufferview(src.bytes.data(), src.bytes.size()), src.password);
        want = dump(ref);
    }
    Feed feed;
    feed.dev = makeDevice(src.bytes, devOpts(p.u("dev")));
    feed.path = world().scratch("in.pdf");
    if (feed.file(how)) writeFile(feed.path, src.bytes);
    auto& w = world();
    string err;
    c.state(Rng::mix(hashBytes(want[{ 0, 2 }]) ^ (uint64_t)how * 31 ^ stage));
    uint64_t counts[(int)Io::Count] = {};
    // healthy, but chunked
    {
        c.setStage("chunked load");
        w.disk.clear();
        auto& f = feed.faults(how);
        f.clear();
        if (stage == 3) { f = placed(p, nullptr); }
        PdfMemDocument doc;
        if (!attempt(err, [&] { feed.load(doc, how, src.bytes, src.password, p.u("dev")); })) c.fail("load-error", strf("loading in way %d failed: ", how) + err);
        if (stage == 0) memcpy(counts, f.count, sizeof(counts));
        same("chunking", strf("loaded in way %d with chunking %d", how, feed.dev->opts.chunking), want, dump(doc));
        w.disk.clear();
        f.clear();
        c.probe(stage == 3 ? "short-reads" : "chunked");
    }
    if (stage == 3) return;
    auto rewind = [&] { feed.dev = makeDevice(src.bytes, devOpts(p.u("dev"))); };
    rewind();
    if (stage == 0)
    {
        c.setStage("load with read faults");
        auto& f = feed.faults(how);
        f = placed(p, counts);
        auto doc = make_unique<PdfMemDocument>();
        bool ok = attempt(err, [&] { feed.load(*doc, how, src.bytes, src.password, p.u("dev")); });
        auto fired = f.fired;
        w.disk.clear(); f.clear();
        c.ev("faulty-load", ok, (int64_t)fired);
        if (!ok && !fired) c.fail("spurious-error", "loading failed although no read failed: " + err);
        if (ok) same("altered", "loaded although a read failed", want, dump(*doc));
        c.probe(ok ? "load-ok" : "load-failed");
        if (!ok)
        {
            // the fault is gone: loading again works, into the same document too
            if (!p.c("same")) doc = make_unique<PdfMemDocument>();
            if (how != 0 || p.u("dev") % 2) rewind();
            if (!attempt(err, [&] { feed.load(*doc, how, src.bytes, src.password, p.u("dev")); })) c.fail("retry-failed", strf("loading again%s after a read error failed: ", p.c("same") ? " into the same document" : "") + err);
            same("retry-differs", strf("loaded again%s after a read error", p.c("same") ? " into the same document" : ""), want, dump(*doc));
        }
        return;
    }
    if (stage == 1)
    {
        vector<Ref> refs;
        for (auto& q : want) if (q.first.first) refs.push_back(q.first);
        if (refs.empty()) return;
        for (int faulty = 0; faulty < 2; faulty++)
        {
            c.setStage(faulty ? "access with read faults" : "access");
            w.disk.clear();
            rewind();
            PdfMemDocument doc;
            feed.load(doc, how, src.bytes, src.password, p.u("dev"));
            auto& f = feed.faults(how);
            w.disk.clear(); f.clear();
            if (faulty) f = placed(p, counts);
            unsigned seen = 0;
            for (auto& op : p.ops)
            {
                if (op.k != "access" && op.k != "release") continue;
                auto r = refs[op.u(0) % refs.size()];
                auto o = doc.GetObjects().GetObject(toRef(r));
                if (!o) c.fail("object-lost", refText(r));
                if (op.k == "release") { if (auto po = dynamic_cast<PdfParserObject*>(o)) po->FreeObjectMemory(false); continue; }
                string got, full;
                bool ok = attempt(err, [&] {
                    switch (op.u(1) % 4)
                    {
                        case 0: got = canon(*o, o->HasStream()); break;                      // value only
                        case 1: if (o->HasStream()) (void)streamData(*o); break;             // data only
                        case 2: (void)o->IsDictionary(); (void)o->HasStream(); break;
                        default: if (o->IsDictionary()) { for (auto& kv : o->GetDictionary()) (void)o->GetDictionary().FindKey(kv.first); } else if (o->IsArray()) for (unsigned i = 0; i < o->GetArray().size(); i++) (void)o->GetArray().FindAt(i);
                    }
                });
                if (!ok) { seen++; if (!f.fired) c.fail("spurious-error", "access to " + refText(r) + " failed although no read failed: " + err); }
                if (ok && !got.empty() && want[r].compare(0, got.size(), got) != 0)
                    c.fail("altered", strf("%s reads as %s after a read error, expected %s", refText(r).c_str(), got.substr(0, 300).c_str(), want[r].substr(0, 300).c_str()));
            }
            memcpy(counts, f.count, sizeof(counts));
            auto fired = f.fired;
            w.disk.clear(); f.clear();
            c.ev("accessed", seen, (int64_t)fired);
            Snap now;
            if (!attempt(err, [&] { now = dump(doc); })) c.fail("retry-failed", strf("access still fails after %u read error(s) have gone: ", seen) + err);
            same(faulty ? "altered-after-fault" : "altered", faulty ? "after a read error during access" : "after access", want, now);
            c.probe(!faulty ? "accessed" : seen ? "access-failed" : "access-ok");
        }
        return;
    }
    // saving reads the lazily loaded objects
    for (int faulty = 0; faulty < 2; faulty++)
    {
        c.setStage(faulty ? "save with read faults" : "save");
        w.disk.clear();
        rewind();
        PdfMemDocument doc;
        feed.load(doc, how, src.bytes, src.password, p.u("dev"));
        auto& f = feed.faults(how);
        w.disk.clear(); f.clear();
        if (faulty) f = placed(p, counts);
        string out;
        auto opts = QuietSave | PdfSaveOptions::NoCollectGarbage;
        if (p.u("dev") % 2) opts = opts | PdfSaveOptions::NoFlateCompress;
        bool ok = attempt(err, [&] { out = saveTo(doc, opts, p.u("dev")); });
        memcpy(counts, f.count, sizeof(counts));
        auto fired = f.fired;
        w.disk.clear(); f.clear();
        c.ev("saved", ok, (int64_t)fired);
        if (!ok && !fired) c.fail("spurious-error", "saving failed although no read failed: " + err);
        if (!ok && !attempt(err, [&] { out = saveTo(doc, opts, p.u("dev")); })) c.fail("retry-failed", "saving again after a read error failed: " + err);
        PdfMemDocument back;
        back.LoadFromBuffer(bufferview(out.data(), out.size()), src.password);
        auto a = want, b = docSnapshot(back), full = docSnapshot(doc);
        // objects of the file's own plumbing are not written
        for (auto it = a.begin(); it != a.end();) if (!full.count(it->first)) it = a.erase(it); else ++it;
        for (auto it = b.begin(); it != b.end();) if (!a.count(it->first)) it = b.erase(it); else ++it;
        for (auto k : { "Encrypt" }) if (auto e = back.GetTrailer().GetDictionary().GetKey(k)) if (e->IsReference()) { a.erase(fromRef(e->GetReference())); b.erase(fromRef(e->GetReference())); }
        if (auto e = doc.GetTrailer().GetDictionary().GetKey("Encrypt")) if (e->IsReference()) { a.erase(fromRef(e->GetReference())); b.erase(fromRef(e->GetReference())); }
        same(ok && fired ? "saved-altered" : "save-differs", strf("saved%s", ok ? fired ? " although a read failed" : "" : " again after a read error"), a, b);
        c.probe(!faulty ? "saved" : ok ? "save-ok" : "save-failed");
    }
}
Register r06({ "C06", "load", 1, 12000, gen06, run06 });

// ---------------------------------------------------------------- use of a whole document, errors allowed
unsigned g_errors;
template <typename F> void part(const char* stage, F fn)
{
    ctx().setStage(stage);
    try { fn(); }
    catch (const std::exception&) { g_errors++; }
}
void exercise(PdfMemDocument& doc, uint64_t sel)
{
    vector<PdfReference> refs;
    for (auto o : doc.GetObjects()) refs.push_back(o->GetIndirectReference());
    // pages first or objects first
    for (int round = 0; round < 2; round++)
    {
        if ((sel + round) % 2 == 0)
            for (auto& r : refs)
            {
                part("reading objects", [&] { auto o = doc.GetObjects().GetObject(r); if (o) (void)canon(*o, true); });
                part("reading streams", [&] { auto o = doc.GetObjects().GetObject(r); if (o && o->HasStream()) { auto d = o->MustGetStream().GetCopySafe(); if (d.size() > (64u << 20)) ctx().probe("bomb"); } });
                if (sel % 7 == 0) part("unwrapping streams", [&] { auto o = doc.GetObjects().GetObject(r); if (o && o->HasStream()) { PdfObject copy(*o); if (copy.HasStream()) copy.MustGetStream().Unwrap(); } });
            }
        else
            part("walking pages", [&] {
                auto& pages = doc.GetPages();
                unsigned n = min(pages.GetCount(), 40u);
                for (unsigned i = 0; i < n; i++)
                    part("page", [&] {
                        auto& pg = pages.GetPageAt(i);
                        part("page box", [&] { (void)pg.GetMediaBox(); (void)pg.GetCropBox(); (void)pg.GetRotationRaw(); (void)pg.GetPageNumber(); });
                        part("page resources", [&] { (void)pg.GetResources(); });
                        part("page contents", [&] { if (auto ct = pg.GetContents()) (void)ct->GetCopy(); });
                        part("content reader", [&] {
                            PdfContentsReader rd(pg); PdfContent content; unsigned k = 0; size_t depth = 0, objs = 0;
                            for (auto o : doc.GetObjects()) { (void)o; objs++; }
                            while (rd.TryReadNext(content) && ++k < 20000)
                            {
                                if (content.Type == PdfContentType::DoXObject && content.XObject && content.XObject->GetType() == PdfXObjectType::Form && (content.Warnings & PdfContentWarnings::RecursiveXObject) == PdfContentWarnings::None) depth++;
                                if (content.Type == PdfContentType::EndXObjectForm && depth) depth--;
                                if (depth > objs + 10) ctx().fail("content-recursion", strf("forms nested %zu deep in a document of %zu objects: a form is read within itself", depth, objs));
                            }
                        });
                        part("text extraction", [&] { vector<PdfTextEntry> e; pg.ExtractTextTo(e); });
                        part("annotations", [&] {
                            auto& as = pg.GetAnnotations();
                            for (unsigned k = 0; k < min(as.GetCount(), 50u); k++) part("annotation", [&] { auto& a = as.GetAnnotAt(k); (void)a.GetRect(); (void)a.GetContents(); (void)a.GetTitle(); (void)a.GetType(); });
                        });
                    });
            });
    }
    part("outlines", [&] {
        if (auto o = doc.GetOutlines())
        {
            vector<PdfOutlineItem*> todo{ o->First() };
            unsigned k = 0;
            while (!todo.empty() && ++k < 500)
            {
                auto i = todo.back(); todo.pop_back();
                if (!i) continue;
                part("outline item", [&] { (void)i->GetTitle(); (void)i->GetDestination(); (void)i->GetAction(); });
                todo.push_back(i->Next()); todo.push_back(i->First());
            }
        }
    });
    part("names", [&] { if (auto n = doc.GetNames()) { for (auto t : { "Dests", "EmbeddedFiles", "JavaScript" }) part("name tree", [&] { PdfDictionary d; n->ToDictionary(t, d); (void)n->GetValue(t, PdfString("dest1")); }); } });
    part("attachments", [&] { if (auto f = doc.GetAttachment(PdfString("file1.bin"))) (void)f->GetFilename(false); });
    part("form", [&] { if (auto f = doc.GetAcroForm()) for (unsigned k = 0; k < min(f->GetFieldCount(), 50u); k++) part("field", [&] { auto& x = f->GetFieldAt(k); (void)x.GetName(); (void)x.GetFullName(); (void)x.GetType(); (void)x.GetParentSafe(); }); });
    part("metadata", [&] { auto& m = doc.GetMetadata(); (void)m.GetTitle(); (void)m.GetAuthor(); (void)m.GetKeywords(); (void)m.GetCreationDate(); (void)m.GetModifyDate(); (void)m.GetPdfALevel(); });
    part("xmp", [&] { (void)doc.GetCatalog().GetMetadataStreamValue(); });
}


// ---------------------------------------------------------------- C11
const char* kKeys[] = { "/Length", "/Prev", "/Size", "/W", "/Index", "/Kids", "/Count", "/First", "/N", "/Root", "/Pages", "/Parent", "/Type", "/Filter", "/DecodeParms", "/Predictor", "/Columns", "/Colors",
    "/BitsPerComponent", "/Encrypt", "/O", "/U", "/V", "/R", "/P", "/ID", "/Info", "/Contents", "/Resources", "/MediaBox", "/Annots", "/Fields", "/Dests", "/Names", "/Limits", "/Next", "/Last", "/Metadata",
    "/XRefStm", "/Extends", "startxref", "xref", "trailer", " obj", "endobj", "stream", "endstream", " R", "<<", ">>", "[", "]", "(", ")", "<", ">", " 0 n", " 65535 f", "%%EOF", "/CF", "/StmF", "/Perms", "/EarlyChange", "/Rotate", "/ObjStm", "/XRef", "%PDF-" };
const char* kNumbers[] = { "0", "1", "-1", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "99999999999999999999", "65535", "65536", "8388607", "8388608", "1e5", "null", "1.5", "-9223372036854775808", "3", "17", "100000000" };

void gen11(Rng& rng, Plan& p)
{
    genSource(rng, p);
    p.cfg["dev"] = rng.chance(1, 2) ? 0 : big(rng);
    p.cfg["sel"] = big(rng);
    if (rng.chance(1, 2)) p.cfg["srcopts"] = p.c("srcopts") | 1;
    p.cfg["reindex"] = rng.chance(1, 2);
    auto n = 1 + rng.below(rng.chance(1, 4) ? 12 : 4);
    for (uint64_t i = 0; i < n; i++)
        switch (rng.below(26))
        {
            case 24: case 25: p.add("xform", { huge(rng), 1 + (int64_t)rng.below(5), huge(rng) }); break;
            case 20: case 21: case 22: case 23: p.add("xcycle", { (int64_t)rng.below(40), huge(rng), (int64_t)rng.below(6), huge(rng) }); break;
            case 0: case 1: p.add("xflip", { huge(rng), 1 + (int64_t)rng.below(255) }); break;
            case 2: p.add("xzero", { huge(rng), rng.skew(600) }); break;
            case 3: p.add("xdrop", { huge(rng), rng.skew(600) }); break;
            case 4: p.add("xdup", { huge(rng), rng.skew(600) }); break;
            case 5: p.add("xtrunc", { huge(rng) }); break;
            case 6: p.add("xswap", { huge(rng), huge(rng), rng.skew(600) }); break;
            case 7: p.add("xstale", { huge(rng), 1 + rng.skew(600) }); break;
            case 8: p.add("xdeep", { huge(rng), (int64_t)rng.below(5), rng.chance(1, 3) ? 100000 : rng.skew(3000) }); break;
            case 9: case 10: p.add("xref", { huge(rng), huge(rng) }); break;
            case 11: p.add("xtail", { (int64_t)rng.below(8), huge(rng) }); break;
            case 12: p.add("xname", { huge(rng), huge(rng) }); break;
            case 13: p.add("xhead", { rng.skew(2000) }); break;
            default: p.add("xnum", { (int64_t)rng.below(sizeof(kKeys) / sizeof(*kKeys)), huge(rng), (int64_t)rng.below(24), huge(rng) }); break;
        }
}
// The numbers of the objects a text refers to
vector<int> refsIn(const string& t)
{
    vector<int> v;
    for (size_t i = t.find(" 0 R"); i != string::npos; i = t.find(" 0 R", i + 1))
    {
        size_t s = i;
        while (s > 0 && isdigit((unsigned char)t[s - 1]) && i - s < 9) s--;
        if (s < i) v.push_back(atoi(t.c_str() + s));
    }
    return v;
}

struct Placed { int num, gen; size_t at, end; };
vector<Placed> placedObjects(const string& b)
{
    vector<Placed> v;
    for (size_t i = b.find(" obj"); i != string::npos; i = b.find(" obj", i + 1))
    {
        size_t g = i;
        while (g > 0 && isdigit((unsigned char)b[g - 1]) && i - g < 6) g--;
        if (g == i || g == 0 || b[g - 1] != ' ') continue;
        size_t n = g - 1, s = n;
        while (s > 0 && isdigit((unsigned char)b[s - 1]) && n - s < 8) s--;
        if (s == n || (s > 0 && b[s - 1] != '\n' && b[s - 1] != '\r')) continue;
        auto e = b.find("endobj", i);
        v.push_back({ atoi(b.c_str() + s), atoi(b.c_str() + g), s, e == string::npos ? b.size() : e });
    }
    return v;
}

// The damage is in the objects and a repair tool wrote the offsets anew: it gets deeper than the parser
string reindexed(string b)
{
    if (b.find("/XRef") != string::npos) return b;
    auto t = b.rfind("trailer");
    if (t == string::npos) return b;
    auto e = b.find("startxref", t);
    string dict = b.substr(t + 7, e == string::npos ? string::npos : e - t - 7);
    auto prev = dict.find("/Prev");
    if (prev != string::npos) { auto q = prev + 5; while (q < dict.size() && (dict[q] == ' ' || isdigit((unsigned char)dict[q]))) q++; dict.erase(prev, q - prev); }
    map<int, pair<size_t, int>> at;
    for (auto& o : placedObjects(b)) if (o.num < 100000) at[o.num] = { o.at, o.gen };
    b += "\n";
    auto x = b.size();
    b += "xref\n";
    for (auto i = at.begin(); i != at.end();)
    {
        auto j = i; int n = i->first; string rows;
        while (j != at.end() && j->first == n) { rows += strf("%010zu %05d n \n", j->second.first, j->second.second); n++; ++j; }
        b += strf("%d %d\n", i->first, n - i->first) + rows;
        i = j;
    }
    return b + "trailer" + dict + strf("\nstartxref\n%zu\n%%%%EOF\n", x);
}

string damage(const Plan& p, string b, const string& older)
{
    auto& c = ctx();
    for (auto& op : p.ops)
    {
        if (op.k[0] != 'x' || b.empty()) continue;
        size_t at = op.u(0) % b.size();
        if (op.k == "xflip") b[at] = (char)(b[at] ^ op.at(1));
        else if (op.k == "xzero") for (size_t i = at; i < min(b.size(), at + (size_t)op.u(1)); i++) b[i] = 0;
        else if (op.k == "xdrop") b.erase(at, op.u(1));
        else if (op.k == "xdup") b.insert(at, b.substr(at, op.u(1)));
        else if (op.k == "xtrunc") b.resize(at);
        else if (op.k == "xswap")
        {
            size_t n = op.u(2), a = at, z = op.u(1) % b.size();
            for (size_t i = 0; i < n && a + i < b.size() && z + i < b.size(); i++) swap(b[a + i], b[z + i]);
        }
        else if (op.k == "xstale") { if (!older.empty()) for (size_t i = at; i < min({ b.size(), older.size(), at + (size_t)op.u(1) }); i++) b[i] = older[i]; }
        else if (op.k == "xdeep")
        {
            static const char* open[] = { "[", "<<", "<</A", "(", "<</Kids[" };
            string t; for (uint64_t i = 0; i < op.u(2); i++) t += open[op.u(1) % 5];
            // in place of a value
            auto f = b.find(op.u(1) % 2 ? " 0 R" : "/", at);
            b.insert(f == string::npos ? at : f, t);
        }
        else if (op.k == "xref")
        {
            // a reference to another object: cycles and wrong types
            vector<size_t> v; for (size_t i = b.find(" 0 R"); i != string::npos; i = b.find(" 0 R", i + 1)) v.push_back(i);
            if (v.empty()) continue;
            size_t e = v[op.u(0) % v.size()], s = e;
            while (s > 0 && isdigit((unsigned char)b[s - 1])) s--;
            auto all = refsIn(b);
            b.replace(s, e - s, to_string(op.u(1) % 3 == 0 || all.empty() ? 1 + op.u(1) % 12 : (uint64_t)all[(op.u(1) >> 8) % all.size()]));
        }
        else if (op.k == "xcycle")
        {
            // an object gets to refer to itself, to one that refers to it, or back to its grandparent
            static const char* keys[] = { "/Kids[", "/Kids[", "/Kids[", "/First ", "/Next ", "/Prev ", "/Parent ", "/Last ", "/Annots[", "/Contents[", "/Contents ", "/Resources ", "/XObject<</Im0 ", "/Fields[", "/Dests ", "/Names ",
                "/Length ", "/Filter ", "/DecodeParms ", "/Metadata ", "/Outlines ", "/AcroForm ", "/Pages ", "/ColorSpace ", "/SMask ", "/Font<</F0 ", "/DescendantFonts[", "/ToUnicode ", "/FontDescriptor ", "/EF<</F ", "/A ", "/Dest ", "/Limits[", "/Extends ", "/MediaBox ", "/Rotate ", "/Type ", "/Count ", "/AP<</N ", "/Encoding " };
            auto objs = placedObjects(b);
            if (objs.empty()) continue;
            // prefer objects that have the key already
            string key = keys[op.u(0) % (sizeof(keys) / sizeof(*keys))], plainKey = key.substr(0, key.find_first_of("[< ", 1));
            vector<Placed> with;
            for (auto& o : objs) { auto f = b.find(plainKey, o.at); if (f != string::npos && f < o.end) with.push_back(o); }
            auto& o = !with.empty() && op.u(2) % 3 ? with[op.u(1) % with.size()] : objs[op.u(1) % objs.size()];
            int target = o.num;
            auto parentOf = [&](int n) { for (auto& q : objs) { auto v = refsIn(b.substr(q.at, q.end - q.at)); if (q.num != n && find(v.begin(), v.end(), n) != v.end()) return q.num; } return n; };
            for (uint64_t k = 0; k < op.u(3) % 4; k++) target = parentOf(target);
            auto f = b.find(plainKey, o.at);
            if (f == string::npos || f >= o.end)
            {
                f = b.find("<<", o.at);
                if (f == string::npos || f >= o.end) continue;
                string close = key.back() == '[' ? "]" : key.find("<<") != string::npos ? ">>" : "";
                b.insert(f + 2, key + strf("%d 0 R", target) + close);
            }
            else
            {
                // in place of the first reference behind the key, or in front of everything there
                auto r = b.find(" 0 R", f);
                if (r != string::npos && r < o.end && op.u(2) % 2) { size_t s = r; while (isdigit((unsigned char)b[s - 1])) s--; b.replace(s, r - s, to_string(target)); }
                else { f += plainKey.size(); while (f < b.size() && (b[f] == ' ' || b[f] == '[')) f++; b.insert(f, strf(" %d 0 R ", target)); }
            }
            c.probe("cycles");
        }
        else if (op.k == "xform")
        {
            // a page draws a chain of forms whose last one draws one of them again
            auto objs = placedObjects(b);
            vector<Placed> pages; int top = 0;
            for (auto& o : objs) { top = max(top, o.num); if (o.num < 100000) { auto f = b.find("/Page", o.at); if (f != string::npos && f + 5 < o.end && !isalpha((unsigned char)b[f + 5])) pages.push_back(o); } }
            if (pages.empty() || top > 100000) continue;
            int n = (int)op.u(1);
            auto& o = pages[op.u(0) % pages.size()];
            auto e = b.rfind(">>", o.end);
            if (e == string::npos || e < o.at) continue;
            string add;
            for (int i = 1; i <= n; i++) add += strf("%d 0 obj\n<</Type/XObject/Subtype/Form/BBox[0 0 9 9]/Resources<</XObject<</X %d 0 R>>>>/Length 5>>stream\n/X Do\nendstream\nendobj\n", top + i, i < n ? top + i + 1 : top + 1 + (int)(op.u(2) % (uint64_t)n));
            add += strf("%d 0 obj\n<</Length 5>>stream\n/X Do\nendstream\nendobj\n", top + n + 1);
            auto t = b.rfind("\nxref");
            if (t == string::npos || t < o.end) continue;
            b.insert(t + 1, add);
            b.insert(e, strf("/Contents %d 0 R/Resources<</XObject<</X %d 0 R>>>>", top + n + 1, top + 1));
        }
        else if (op.k == "xname")
        {
            vector<size_t> v; for (size_t i = b.find('/'); i != string::npos; i = b.find('/', i + 1)) v.push_back(i);
            if (v.empty()) continue;
            size_t s = v[op.u(0) % v.size()] , e = s + 1;
            while (e < b.size() && isalnum((unsigned char)b[e])) e++;
            string k = kKeys[op.u(1) % (sizeof(kKeys) / sizeof(*kKeys))];
            if (k[0] == '/') b.replace(s, e - s, k);
        }
        else if (op.k == "xhead") b.insert(0, string(op.u(0), '\n'));
        else if (op.k == "xtail")
        {
            static const char* tails[] = { "startxref\n%zu\n%%%%EOF\n", "xref\n0 %zu\ntrailer\n<</Size 3/Root 1 0 R/Prev 9>>\nstartxref\n9\n%%%%EOF", "\nstartxref %zu", "trailer <</Prev %zu>> startxref 0 %%%%EOF", "%%%%EOF%zu", "startxref\n-%zu\n%%%%EOF\n", "startxref\n99999999999999999999%zu\n%%%%EOF\n", "\nxref\n%zu 5\n" };
            b += strf(tails[op.u(0) % 8], (size_t)(op.u(1) % (b.size() + 10)));
        }
        else if (op.k == "xnum")
        {
            string k = kKeys[op.u(0) % (sizeof(kKeys) / sizeof(*kKeys))];
            vector<size_t> v; for (size_t i = b.find(k); i != string::npos; i = b.find(k, i + 1)) v.push_back(i);
            if (v.empty()) continue;
            size_t s = v[op.u(1) % v.size()] + k.size();
            while (s < b.size() && !isdigit((unsigned char)b[s]) && s < v[0] + b.size() && b[s] != '\n' && b[s] != '/') s++;
            // a number further on in a list of numbers
            for (uint64_t skip = op.u(3) % 3; skip > 0; skip--) { size_t t = s; while (t < b.size() && isdigit((unsigned char)b[t])) t++; while (t < b.size() && (b[t] == ' ' || b[t] == '[')) t++; if (t < b.size() && isdigit((unsigned char)b[t])) s = t; }
            size_t e = s;
            while (e < b.size() && (isdigit((unsigned char)b[e]) || b[e] == '-' || b[e] == '.')) e++;
            string val = op.u(2) < sizeof(kNumbers) / sizeof(*kNumbers) ? kNumbers[op.u(2)] : to_string(op.u(3) % (b.size() + 2));
            b.replace(s, e - s, val);
        }
        c.fault(op.k.c_str());
        if (b.size() > (8u << 20)) b.resize(8u << 20);
    }
    return p.c("reindex") ? reindexed(b) : b;
}
void run11(const Plan& p)
{
    auto& c = ctx();
    auto src = makeSource(p);
    auto bytes = damage(p, src.bytes, src.older);
    g_errors = 0;
    auto& w = world();
    w.maxSteps = c.steps + 30000000;
    c.ev("damaged", (int64_t)bytes.size(), (int64_t)hashBytes(bytes));
    c.state(hashBytes(bytes));
    bool loaded = false;
    {
        unique_ptr<PdfMemDocument> doc(new PdfMemDocument());
        auto dev = makeDevice(bytes, devOpts(p.u("dev")));
        part("loading a damaged file", [&] { doc->LoadFromDevice(dev, src.password); loaded = true; });
        c.probe(loaded ? "loaded" : "refused");
        if (loaded)
        {
            exercise(*doc, p.u("sel"));
            c.probe(g_errors ? "errors" : "no-errors");
            if (p.u("sel") % 3 != 0) part("editing a damaged document", [&] { doc->GetPages().CreatePage(PdfRect(0, 0, 10, 10)); if (p.u("sel") % 2 && doc->GetPages().GetCount() > 1) doc->GetPages().RemovePageAt(0); });
            if (p.u("sel") % 4 == 1) part("copying a damaged document", [&] { PdfMemDocument other; other.GetPages().AppendDocumentPages(*doc); (void)saveTo(other, PdfSaveOptions::None); });
            string out;
            part("saving a damaged document", [&] { out = saveTo(*doc, saveOpts(p.u("sel"))); });
            if (!out.empty()) part("reloading a saved damaged document", [&] { PdfMemDocument again; again.LoadFromBuffer(bufferview(out.data(), out.size()), src.password); c.probe("resaved"); });
            if (p.u("sel") % 5 == 2) part("updating a damaged document", [&] { auto o = make_shared<string>(bytes); SimDevice d(o, DeviceAccess::ReadWrite); doc->SaveUpdate(d); });
        }
        c.setStage("destroying a damaged document");
        if (p.u("sel") % 6 == 0)
        {
            // the object that failed to load is used again
            part("loading into the same document", [&] { doc->LoadFromBuffer(bufferview(src.bytes.data(), src.bytes.size()), src.password); (void)snapshot(*doc); });
        }
    }
    c.ev("done", g_errors, loaded);
}
Register r11({ "C11", "damage", 1, 8000, gen11, run11 });

// ---------------------------------------------------------------- C18
void gen18(Rng& rng, Plan& p)
{
    genSource(rng, p);
    p.cfg["what"] = (int64_t)rng.below(6);
    p.cfg["at"] = huge(rng);
    if (rng.chance(1, 4)) { p.cfg["upd"] = 1; p.cfg["enc"] = 0; p.cfg["upds"] = 1 + (int64_t)rng.below(3); if (p.cfg["start"] == 1) p.cfg["asis"] = 0; }
    p.cfg["skew"] = rng.chance(1, 4);
    p.cfg["early"] = rng.chance(1, 4);
    p.cfg["every"] = rng.chance(1, 6) ? 1 + rng.skew(50) : 0;
    p.cfg["opts"] = (int64_t)rng.below(8);
    auto n = 1 + rng.below(5);
    for (uint64_t i = 0; i < n; i++) { Plan q; addRichOp(rng, q, rng.chance(1, 6)); for (auto& o : q.ops) p.add(("later-" + o.k).c_str(), o.a); }
}
void run18(const Plan& p)
{
    auto& c = ctx();
    auto& w = world();
    auto src = makeSource(p);
    int what = (int)(p.u("what") % 6);
    const char* names[] = { "load and read", "edit", "save", "incremental update", "import", "encrypt and save" };
    string result[3];
    string stored[3];
    bool ok[3] = {};
    uint64_t total = 0;
    // 0: healthy, 1: with the failure, 2: again, healthy
    for (int round = 0; round < 3; round++)
    {
        bool failing = round == 1;
        stored[round] = src.bytes;
        string& out = stored[round];
        unique_ptr<PdfMemDocument> doc, other;
        auto dev = makeDevice(src.bytes, devOpts(4));
        auto target = make_shared<string>(what == 3 ? src.bytes : string());
        string err;
        w.rnd.reseed(77); w.setClock(1700002000);
        if (what != 0) { doc.reset(new PdfMemDocument()); doc->LoadFromDevice(dev, src.password); if (p.u("at") % 3 == 0) (void)dump(*doc); }
        if (what == 4) { other.reset(new PdfMemDocument()); other->GetPages().CreatePage(PdfRect(0, 0, 100, 100)); }
        // what the library sets up once
        if (round == 0) { try { PdfMemDocument d; d.GetPages().CreatePage(PdfRect(0, 0, 9, 9)); Op o{ "rdraw", { 0, 1, 1, 0 } }; richOp(d, o); (void)saveTo(d, PdfSaveOptions::None); } catch (const std::exception&) { } w.rnd.reseed(77); w.setClock(1700002000); }
        w.allocs = 0; w.allocFired = 0;
        if (failing)
        {
            if (!total) return;
            w.failAlloc = 1 + (p.c("early") ? p.u("at") % min<uint64_t>(total, 300) : p.c("skew") ? total - 1 - p.u("at") % min<uint64_t>(total, 300) : p.u("at") % total);
            w.failAllocEvery = p.u("every");
        }
        c.setStage(strf("%s%s", names[what], failing ? " with a failing allocation" : ""));
        w.allocCounting = true;
        try
        {
            switch (what)
            {
                case 0: { doc.reset(new PdfMemDocument()); doc->LoadFromDevice(dev, src.password); auto s = dump(*doc); w.allocCounting = false; result[round] = snapText(s); break; }
                case 1: for (auto& op : p.ops) if (op.k.compare(0, 6, "later-") == 0) { Op o{ op.k.substr(6), op.a }; richOp(*doc, o); } break;
                case 2: { SimDevice d(target, DeviceAccess::ReadWrite); doc->Save(d, saveOpts(p.u("opts"))); break; }
                case 3: { SimDevice d(target, DeviceAccess::ReadWrite); doc->GetCatalog().GetDictionary().AddKey("Upd", PdfObject((int64_t)1)); doc->SaveUpdate(d, saveOpts(p.u("opts"))); break; }
                case 4: other->GetPages().AppendDocumentPages(*doc); break;
                default: { encryptDoc(*doc, 1 + (int64_t)(p.u("opts") % 5)); SimDevice d(target, DeviceAccess::ReadWrite); doc->Save(d, saveOpts(p.u("opts"))); break; }
            }
            ok[round] = true;
        }
        catch (const std::exception& e) { w.allocCounting = false; err = e.what(); }
        w.allocCounting = false; w.failAlloc = 0; w.failAllocEvery = 0;
        if (round == 0) total = w.allocs;
        auto fired = w.allocFired;
        if (failing && fired) c.fault("alloc-failed");
        c.ev("round", ok[round], (int64_t)fired, (int64_t)w.allocs);
        if (!ok[round] && !fired) { if (round == 0) { c.probe("healthy-error"); return; } c.fail("spurious-error", strf("%s failed in round %d: ", names[what], round) + err); }
        if (what == 3 && target->compare(0, src.bytes.size(), src.bytes) != 0) c.fail("stored-damaged", "an update that ran out of memory damaged the stored revision");
        c.probe(round != 1 ? "healthy" : ok[1] ? "survived" : "failed");
        if (what == 2 || what == 3 || what == 5) result[round] = *target;
        if (what == 1 || what == 4)
        {
            // still usable: readable and can be saved
            auto& d = what == 4 ? *other : *doc;
            c.setStage("use after running out of memory");
            try { auto s = dump(d); if (round != 1 || ok[1]) result[round] = snapText(s); }
            catch (const PdfError& e) { if (round != 1) throw; c.fail("unusable", strf("the document can't be read after an %s ran out of memory: %s", names[what], PdfError::ErrorName(e.GetError()).data())); }
            string o2;
            try { o2 = saveTo(d, QuietSave); PdfMemDocument back; back.LoadFromBuffer(bufferview(o2.data(), o2.size()), what == 4 ? string() : src.password); }
            catch (const PdfError& e) { if (round != 1) throw; c.fail("unusable", strf("the document can't be saved after an %s ran out of memory: %s", names[what], PdfError::ErrorName(e.GetError()).data())); }
        }
        if (what == 0 && failing && doc != nullptr && !ok[1])
        {
            // the same document: what was loaded still reads right, or it can be loaded again
            c.setStage("use after running out of memory");
            try { doc->LoadFromBuffer(bufferview(src.bytes.data(), src.bytes.size()), src.password); }
            catch (const PdfError& e) { c.fail("unusable", string("loading again into the same document after running out of memory failed: ") + PdfError::ErrorName(e.GetError()).data()); }
            if (snapText(dump(*doc)) != result[0]) c.fail("wrong-result", "loading again into the same document after running out of memory gave another result");
        }
        c.setStage("destroying documents");
    }
    if (ok[1] && result[1] != result[0]) c.fail("wrong-result", strf("%s returned normally although memory ran out, with another result", names[what]));
    if (ok[2] && result[2] != result[0]) c.fail("retry-differs", strf("%s gives another result after running out of memory once", names[what]));
    c.state(Rng::mix((uint64_t)what * 7 + total / 100));
}
Register r18({ "C18", "alloc", 1, 6000, gen18, run18 });

} // namespace
