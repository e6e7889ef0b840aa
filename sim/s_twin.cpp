// C17: saving is a function of the history, the options, the clock and the random numbers. The same plan is executed
// in two or more simulated environments that differ in everything else; every saved file must be the same bytes.
#include "rich.h"
#include <fstream>
#include <sstream>
#include <locale>
using namespace std;
using namespace mm;
using namespace sim;

namespace {

int64_t big(Rng& rng) { return (int64_t)rng.below(1u << 30); }

// What an environment varies. Selected by the bits of one number, so that a violation minimises to its cause.
enum : uint64_t { EHeap = 1, EFill = 2, EOthers = 4, ELoadDev = 8, ESaveDev = 16, EChunks = 32, ELocale = 64, ETouch = 128, EAll = 255 };

struct CommaPunct : numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    string do_grouping() const override { return "\3"; }
};

struct Env
{
    uint64_t bits, seed;
    Rng rng;
    vector<unique_ptr<char[]>> junk;
    vector<unique_ptr<PdfMemDocument>> others;
    locale old;
    bool localeSet = false;
    Env(uint64_t b, uint64_t s) : bits(b), seed(s), rng(s) { }
    ~Env() { if (localeSet) locale::global(old); world().fill = -1; }
    bool has(uint64_t b) const { return (bits & b) != 0; }
    void shake()
    {
        if (!has(EHeap)) return;
        for (size_t n = rng.below(40); n > 0; n--) junk.push_back(make_unique<char[]>(1 + rng.below(600)));
        for (size_t n = rng.below(30); n > 0 && !junk.empty(); n--) { size_t i = rng.below(junk.size()); swap(junk[i], junk.back()); junk.pop_back(); }
    }
};

// text in several fonts: system fonts of other names and styles, encodings of its own or shared ones, subsets or not
void textOp(PdfMemDocument& doc, const Op& op)
{
    Rng rng(op.u(0));
    auto& pages = doc.GetPages();
    auto& page = pages.GetCount() ? pages.GetPageAt((unsigned)(op.u(1) % pages.GetCount())) : pages.CreatePage(PdfRect(0, 0, 400, 400));
    PdfPainter painter;
    painter.SetCanvas(page);
    for (uint64_t n = 1 + rng.below(4); n > 0; n--)
    {
        static const char* names[] = { "DejaVu Sans", "DejaVu Serif", "DejaVu Sans Mono" };
        static const PdfStandard14FontType std14[] = { PdfStandard14FontType::Helvetica, PdfStandard14FontType::TimesRoman, PdfStandard14FontType::CourierBold };
        PdfFontCreateParams params;
        switch (rng.below(5))
        {
            case 0: params.Encoding = PdfEncodingMapFactory::WinAnsiEncodingInstance(); break;
            case 1: params.Encoding = PdfEncodingMapFactory::MacRomanEncodingInstance(); break;
            case 2: case 3:
            {
                PdfDifferenceList diff;
                for (uint64_t k = 1 + rng.below(3); k > 0; k--) diff.AddDifference((unsigned char)('A' + rng.below(26)), U'a' + (char32_t)rng.below(26));
                params.Encoding = PdfEncoding(make_shared<PdfDifferenceEncoding>(diff, PdfEncodingMapFactory::WinAnsiEncodingInstance()));
                break;
            }
            default: break;
        }
        auto std = rng.chance(1, 4);
        PdfFontSearchParams search;
        search.Style = rng.chance(1, 4) ? PdfFontStyle::Bold : PdfFontStyle::Regular;
        auto font = std ? doc.GetFonts().GetStandard14Font(std14[rng.below(3)], params) : doc.GetFonts().GetFont(names[rng.below(3)], search, params);
        if (!font) continue;
        painter.GetTextState().SetFont(*font, 6 + (double)rng.below(20));
        string t;
        for (uint64_t k = 1 + rng.below(8); k > 0; k--) t += (char)('a' + rng.below(26));
        painter.DrawText(t, (double)rng.below(300), (double)rng.below(300));
    }
    painter.FinishDrawing();
}

void otherDocument(Env& e, bool fonts)
{
    // another document, used and saved, perhaps kept open
    auto c = ctx().stage;
    auto d = make_unique<PdfMemDocument>();
    Plan p;
    for (size_t n = 1 + e.rng.below(8); n > 0; n--) addRichOp(e.rng, p);
    try
    {
        for (auto& op : p.ops) richOp(*d, op);
        if (fonts) { Op op; op.k = "text"; op.a = { (int64_t)(e.rng.next() % 1000000), 0 }; textOp(*d, op); }
        string out;
        StringStreamDevice dev(out);
        d->Save(dev, PdfSaveOptions::None);
        auto again = loadDoc(out);
        snapshot(*again);
    }
    catch (const std::exception&) { }    // refused operations
    if (e.rng.chance(1, 2)) e.others.push_back(move(d));
    ctx().setStage(c);
}

struct Result { vector<string> files; vector<string> notes; };

// keeps what a lazily read document needs alive
struct Source
{
    string str; charbuff buff; unique_ptr<istringstream> is; shared_ptr<InputStreamDevice> dev;
};

void load(Env& e, Hist& h, vector<unique_ptr<Source>>& keep, uint64_t sel)
{
    auto s = make_unique<Source>();
    auto kind = e.has(ELoadDev) ? e.rng.below(6) : 0;
    switch (kind)
    {
        case 0: s->dev = makeDevice(h.bytes, e.has(EChunks) ? devOpts(e.rng.next() % 1000) : DevOpts()); break;
        case 1: s->str = h.bytes; s->dev = make_shared<SpanStreamDevice>(bufferview(s->str.data(), s->str.size())); break;
        case 2: s->str = h.bytes; s->dev = make_shared<StringStreamDevice>(s->str, DeviceAccess::Read, false); break;
        case 3: { auto path = world().scratch(strf("in%d", (int)keep.size())); writeFile(path, h.bytes); s->dev = make_shared<FileStreamDevice>(path); break; }
        case 4: s->is = make_unique<istringstream>(h.bytes); s->dev = make_shared<StandardStreamDevice>(static_cast<istream&>(*s->is)); break;
        default: s->buff = charbuff(string_view(h.bytes)); s->dev = make_shared<BufferStreamDevice>(s->buff, DeviceAccess::Read, false); break;
    }
    if (kind && !ctx().quiet) ctx().probe("load-device");
    auto d = make_unique<PdfMemDocument>();
    if (kind == 0 && e.has(ELoadDev) && e.rng.chance(1, 3)) { s->str = h.bytes; d->LoadFromBuffer(bufferview(s->str.data(), s->str.size()), h.password); }
    else d->LoadFromDevice(s->dev, h.password);
    (void)sel;
    h.doc = move(d);
    keep.push_back(move(s));
    h.model = h.durable; h.dead = h.durableDead;
    h.structural.clear();
    h.noteStructural();
    h.stored = true;
}

void store(Env& e, Hist& h, PdfSaveOptions opts, bool update, Result& r)
{
    auto kind = e.has(ESaveDev) ? e.rng.below(5) : 0;
    string got;
    string base = update ? h.bytes : string();
    auto go = [&](auto& dev) { if (update) h.doc->SaveUpdate(dev, opts); else h.doc->Save(dev, opts); };
    switch (kind)
    {
        case 0: { auto out = make_shared<string>(base); SimDevice d(out, DeviceAccess::ReadWrite, e.has(EChunks) ? devOpts(e.rng.next() % 1000) : DevOpts()); go(d); got = *out; break; }
        case 1: { got = base; StringStreamDevice d(got, DeviceAccess::ReadWrite, update); go(d); break; }
        case 2:
        {
            auto path = world().scratch("out");
            if (update) { writeFile(path, base); FileStreamDevice d(path, FileMode::Open, DeviceAccess::ReadWrite); go(d); }
            else if (e.rng.chance(1, 2)) h.doc->Save(path, opts);
            else { FileStreamDevice d(path, FileMode::Create, DeviceAccess::ReadWrite); go(d); }
            got = readFile(path);
            break;
        }
        case 3: { stringstream ss(base, ios::in | ios::out | ios::binary); StandardStreamDevice d(static_cast<iostream&>(ss)); go(d); got = ss.str(); break; }
        default: { charbuff b{ string_view(base) }; BufferStreamDevice d(b, DeviceAccess::ReadWrite, update); go(d); got = string(b.data(), b.size()); break; }
    }
    if (kind && !ctx().quiet) ctx().probe("save-device");
    if ((opts & PdfSaveOptions::NoCollectGarbage) == PdfSaveOptions::None) h.gc();
    h.noteStructural();
    h.bytes = got;
    h.durable = h.model; h.durableDead = h.dead;
    if (!update) h.stored = false;
    r.files.push_back(move(got));
}

Result execute(const Plan& p, uint64_t bits, uint64_t seed)
{
    auto& c = ctx();
    auto& w = world();
    Result r;
    Env e(bits, seed);
    w.rnd.reseed(p.u("random"));
    w.setClock(1600000000 + (int64_t)(p.u("random") % 100000000), 0);
    if (e.has(EFill)) w.fill = (int)(1 + e.rng.below(255));
    if (e.has(EOthers)) for (size_t n = 1 + e.rng.below(2); n > 0; n--) otherDocument(e, p.c("fonts") != 0);
    if (e.has(ELocale)) { e.old = locale::global(locale(locale::classic(), new CommaPunct)); e.localeSet = true; }
    w.rnd.reseed(p.u("random"));
    w.setClock(1600000000 + (int64_t)(p.u("random") % 100000000), 0);
    e.shake();
    vector<unique_ptr<Source>> keep;    // outlives the documents reading from it
    Hist h;
    startHist(p, h);
    if (h.stored) load(e, h, keep, 0);
    for (auto& op : p.ops)
    {
        c.setStage("twin " + op.k);
        e.shake();
        if (e.has(EOthers) && e.rng.chance(1, 8)) { auto rnd = w.rnd; otherDocument(e, p.c("fonts") != 0); w.rnd = rnd; }
        if (e.has(ETouch) && e.rng.chance(1, 4)) for (auto& o : h.doc->GetObjects()) { (void)o->GetDataType(); if (o->IsDictionary()) (void)o->HasStream(); }   // read things, early or late
        try
        {
            if (op.k == "save") store(e, h, saveOpts(op.u(0)), false, r);
            else if (op.k == "update") { if (h.stored) store(e, h, saveOpts(op.u(0)), true, r); }
            else if (op.k == "text") textOp(*h.doc, op);
            else if (op.k == "reload") { if (!h.bytes.empty()) load(e, h, keep, op.u(0)); }
            else if (op.k == "clock") w.clockNs += (int64_t)(op.u(0) % 1000000) * 1000000007ll;
            else if (op.k == "encrypt")
            {
                static const PdfEncryptAlgorithm algs[] = { PdfEncryptAlgorithm::RC4V1, PdfEncryptAlgorithm::RC4V2, PdfEncryptAlgorithm::AESV2, PdfEncryptAlgorithm::AESV3R6 };
                static const PdfKeyLength lens[] = { PdfKeyLength::L40, PdfKeyLength::L128, PdfKeyLength::L128, PdfKeyLength::L256 };
                auto k = op.u(0) % 4;
                h.doc->SetEncrypted("user", "owner", PdfPermissions::Default, algs[k], lens[k]);
                h.password = "user";
            }
            else if (op.k[0] == 'r') richOp(*h.doc, op);
            else h.edit(op);
        }
        catch (const PdfError& err)
        {
            r.notes.push_back(op.k + " " + string(PdfError::ErrorName(err.GetError())));
            if (op.k == "save" || op.k == "update" || op.k == "reload") break;
        }
        catch (const std::runtime_error& err) { r.notes.push_back(op.k + " " + err.what()); }    // refused
    }
    try { store(e, h, saveOpts(p.u("lastopt")), h.stored && p.c("lastupd"), r); }
    catch (const PdfError& err) { r.notes.push_back("last " + string(PdfError::ErrorName(err.GetError()))); }
    return r;
}

void run(const Plan& p)
{
    auto& c = ctx();
    auto base = execute(p, 0, 1);
    static const char* names[] = { "env-heap", "env-fresh-memory", "env-other-documents", "env-load-device", "env-save-device", "env-chunks", "env-locale", "env-reading-order" };
    uint64_t bits = p.u("bits") & EAll;
    for (unsigned i = 0; i < 8; i++) if (bits >> i & 1) c.fault(names[i]);
    auto other = execute(p, bits, p.u("env"));
    c.check(base.notes == other.notes, "twin-errors", "the same history failed differently: " + (base.notes.empty() ? string("no error") : base.notes.back()) + " / " + (other.notes.empty() ? string("no error") : other.notes.back()));
    c.check(base.files.size() == other.files.size(), "twin-errors", "another number of files was saved");
    for (size_t i = 0; i < base.files.size(); i++)
    {
        auto& a = base.files[i]; auto& b = other.files[i];
        if (a == b) continue;
        size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
        size_t s = k > 40 ? k - 40 : 0;
        auto clean = [](string x) { for (auto& ch : x) if (ch < ' ' || ch == 127) ch = '.'; return x; };
        if (c.verbose) { writeFile("/tmp/twin-a.pdf", a); writeFile("/tmp/twin-b.pdf", b); }
        c.fail("twin-bytes", strf("saved file %zu (%zu and %zu bytes) differs at offset %zu: '", i, a.size(), b.size(), k) + clean(a.substr(s, 90)) + "' / '" + clean(b.substr(s, 90)) + "'");
    }
    for (auto& f : base.files) c.ev("file", (int64_t)f.size(), (int64_t)hashBytes(f));
    if (!base.files.empty()) c.state(hashBytes(base.files.back()) & 0xffffff);
    c.probe("files-compared");
}

void gen(Rng& rng, Plan& p)
{
    genStart(rng, p);
    p.cfg["random"] = big(rng);
    p.cfg["env"] = big(rng);
    p.cfg["bits"] = rng.chance(1, 3) ? (int64_t)EAll : (int64_t)(1 + rng.below(EAll));
    p.cfg["lastopt"] = big(rng) % 1000; p.cfg["lastupd"] = rng.chance(1, 2);
    size_t n = 4 + rng.below(24);
    bool fonts = rng.chance(1, 5);
    p.cfg["fonts"] = fonts;
    for (size_t i = 0; i < n; i++)
        switch (rng.below(12))
        {
            case 0: p.add("save", { (int64_t)rng.below(1000) }); if (rng.chance(1, 2)) p.add("reload", { big(rng) }); break;
            case 1: p.add("update", { (int64_t)rng.below(1000) }); if (rng.chance(1, 2)) p.add("reload", { big(rng) }); break;
            case 2: p.add("clock", { big(rng) }); break;
            case 3: if (rng.chance(1, 4)) { p.add("encrypt", { big(rng) }); break; } [[fallthrough]];
            case 4: case 5: case 6: addEditOp(rng, p, true); break;
            default: if (fonts && rng.chance(1, 4)) p.add("text", { big(rng), big(rng) }); else addRichOp(rng, p, fonts); break;
        }
}

Register r({ "C17", "twin", 1, 2500, gen, run, 40 });

} // namespace
