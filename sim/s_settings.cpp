// C22: the settings of the document as a whole (version, extensions, viewer preferences, page mode and layout,
// language, base URI) keep their history.
#include "docutil.h"
using namespace std;
using namespace mm;
using namespace sim;

namespace {

int64_t big(Rng& rng) { return (int64_t)rng.below(1u << 30); }
const PdfVersion kVersions[] = { PdfVersion::V1_0, PdfVersion::V1_1, PdfVersion::V1_2, PdfVersion::V1_3, PdfVersion::V1_4, PdfVersion::V1_5, PdfVersion::V1_6, PdfVersion::V1_7 };
const char* kNs[] = { "ADBE", "ACME", "ns", "GLGR", "A B#" };
struct Mode { PdfPageMode mode; const char* name; };
const Mode kModes[] = { { PdfPageMode::UseNone, "UseNone" }, { PdfPageMode::UseThumbs, "UseThumbs" }, { PdfPageMode::UseBookmarks, "UseOutlines" }, { PdfPageMode::UseOC, "UseOC" }, { PdfPageMode::FullScreen, "FullScreen" }, { PdfPageMode::UseAttachments, "UseAttachments" } };
struct Layout { PdfPageLayout layout; const char* name; };
const Layout kLayouts[] = { { PdfPageLayout::Default, "" }, { PdfPageLayout::SinglePage, "SinglePage" }, { PdfPageLayout::OneColumn, "OneColumn" }, { PdfPageLayout::TwoColumnLeft, "TwoColumnLeft" }, { PdfPageLayout::TwoColumnRight, "TwoColumnRight" }, { PdfPageLayout::TwoPageLeft, "TwoPageLeft" }, { PdfPageLayout::TwoPageRight, "TwoPageRight" } };
const char* kTexts[] = { "en-US", "de", "\xC3\xA9t\xC3\xA9", "http://host/a?b=(c)\\", "", "\xD8\xB3\xD9\x84", "zh-Hant-x-(p" };
const char* kFlags[] = { "HideToolbar", "HideMenubar", "HideWindowUI", "FitWindow", "CenterWindow", "DisplayDocTitle" };

using Settings = map<string, string>;
string textOf(const PdfObject& o) { return o.IsName() ? "/" + o.GetName().GetString() : o.IsString() ? "(" + string(o.GetString().GetString()) + ")" : o.IsBool() ? (o.GetBool() ? "true" : "false") : o.GetDataTypeString(); }
string versionText(PdfVersion v) { return strf("%d", (int)v); }

// What a reader finds, from the raw values and through the interface
Settings read(PdfMemDocument& doc)
{
    Settings s;
    s["version"] = versionText(doc.GetMetadata().GetPdfVersion());
    auto& d = doc.GetCatalog().GetDictionary();
    if (auto o = d.FindKey("PageMode")) s["mode"] = textOf(*o);
    if (auto o = d.FindKey("PageLayout")) s["layout"] = textOf(*o);
    if (auto o = d.FindKey("Lang")) s["lang"] = textOf(*o);
    if (auto o = d.FindKey("URI")) if (o->IsDictionary()) if (auto b = o->GetDictionary().FindKey("Base")) s["base"] = textOf(*b);
    if (auto o = d.FindKey("ViewerPreferences")) for (auto& q : o->GetDictionary()) s["pref " + q.first.GetString()] = textOf(q.second);
    if (auto o = d.FindKey("Extensions"))
        for (auto& q : o->GetDictionary())
        {
            auto& e = q.second.GetDictionary();
            s["ext " + q.first.GetString()] = strf("%lld", (long long)e.MustFindKey("ExtensionLevel").GetNumber()) + " " + e.MustFindKey("BaseVersion").GetName().GetString();
        }
    return s;
}

void compare(PdfMemDocument& doc, const Settings& m, const string& where)
{
    auto& c = ctx();
    auto s = read(doc);
    for (auto& q : m) { auto it = s.find(q.first); if (it == s.end()) c.fail("lost", where + ": " + q.first + " is gone, it was " + q.second); if (it->second != q.second) c.fail("value", where + ": " + q.first + " is " + it->second + " instead of " + q.second); }
    for (auto& q : s) if (!m.count(q.first)) c.fail("unexpected", where + ": " + q.first + " is " + q.second + ", it is not set");
    // the same through the interface
    set<string> listed;
    for (auto& e : doc.GetPdfExtensions())
    {
        string k = "ext " + e.GetNamespace();
        auto it = m.find(k);
        if (it == m.end() || it->second != strf("%lld ", (long long)e.GetLevel()) + string(GetPdfVersionName(e.GetBaseVersion()))) c.fail("extensions", where + ": extension " + e.GetNamespace() + " is listed with other values");
        if (!listed.insert(k).second) c.fail("extensions", where + ": extension listed twice");
        if (!doc.HasPdfExtension(e.GetNamespace(), e.GetLevel())) c.fail("extensions", where + ": extension " + e.GetNamespace() + " is listed but not found");
        if (doc.HasPdfExtension(e.GetNamespace(), e.GetLevel() + 1)) c.fail("extensions", where + ": extension found with another level");
    }
    for (auto& q : m) if (q.first.rfind("ext ", 0) == 0 && !listed.count(q.first)) c.fail("extensions", where + ": " + q.first + " is not listed");
    auto mode = m.find("mode");
    for (auto& q : kModes) if (mode != m.end() ? mode->second == "/" + string(q.name) : q.mode == PdfPageMode::UseNone) if (doc.GetCatalog().GetPageMode() != q.mode) c.fail("value", where + ": the page mode reads differently");
}

void gen22(Rng& rng, Plan& p)
{
    p.cfg["start"] = (int64_t)rng.below(2);
    p.cfg["ext"] = big(rng);
    auto n = 3 + rng.below(20);
    for (uint64_t i = 0; i < n; i++)
        switch (rng.below(20))
        {
            case 0: case 1: p.add("version", { (int64_t)rng.below(8) }); break;
            case 2: case 3: p.add("extadd", { (int64_t)rng.below(3), (int64_t)rng.below(2) }); break;
            case 4: case 18: p.add("extdel", { (int64_t)rng.below(rng.chance(1, 4) ? 5 : 3), (int64_t)rng.below(rng.chance(1, 4) ? 4 : 2) }); break;
            case 5: p.add("mode", { (int64_t)rng.below(6) }); break;
            case 6: p.add("layout", { (int64_t)rng.below(7) }); break;
            case 7: p.add("fullscreen"); break;
            case 8: case 9: p.add("flag", { (int64_t)rng.below(6) }); break;
            case 10: p.add("named", { (int64_t)rng.below(2), (int64_t)rng.below(3) }); break;
            case 11: p.add("lang", { (int64_t)rng.below(7) }); break;
            case 12: p.add("base", { (int64_t)rng.below(7) }); break;
            case 13: p.add("indirect", { (int64_t)rng.below(2) }); break;
            case 14: p.add("failsave", { (int64_t)rng.skew(4000), (int64_t)rng.below(2), big(rng) }); break;
            case 15: p.add(rng.chance(1, 2) ? "copy" : "collect"); break;
            case 16: case 17: p.add("save", { (int64_t)rng.below(8), big(rng), big(rng) }); break;
            default: p.add("update", { (int64_t)rng.below(8), big(rng), big(rng) }); break;
        }
    p.add("save", { (int64_t)rng.below(8), big(rng), big(rng) });
}

void run22(const Plan& p)
{
    auto& c = ctx();
    unique_ptr<PdfMemDocument> doc(new PdfMemDocument());
    string stored;
    auto open = [&](const string& b, uint64_t sel) {
        auto n = make_unique<PdfMemDocument>();
        n->LoadFromDevice(makeDevice(b, devOpts(sel)));
        return n;
    };
    if (p.c("start"))
    {
        Rng r(p.u("ext"));
        auto o = randomExt(r);
        o.directLen = true;      // see the open defect on stream lengths in DESIGN.md
        stored = makeExternal(r, 3 + (unsigned)r.below(10), o).bytes;
        doc = open(stored, p.u("ext"));
    }
    else doc->GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
    Settings m = read(*doc);
    auto initial = doc->GetMetadata().GetPdfVersion();
    auto catalog = [&]() -> PdfCatalog& { return doc->GetCatalog(); };
    auto saveOptsOf = [](uint64_t u) { return QuietSave | ((u & 1) ? PdfSaveOptions::NoFlateCompress : PdfSaveOptions::None) | ((u & 2) ? PdfSaveOptions::Clean : PdfSaveOptions::None) | ((u & 4) ? PdfSaveOptions::NoCollectGarbage : PdfSaveOptions::None); };
    for (auto& op : p.ops)
    {
        c.setStage(op.k);
        if (op.k == "version") { auto v = kVersions[op.u(0) % 8]; doc->GetMetadata().SetPdfVersion(v); m["version"] = versionText(v); }
        else if (op.k == "extadd")
        {
            string ns = kNs[op.u(0) % 5]; int64_t level = (int64_t)(op.u(1) % 4);
            doc->AddPdfExtension(PdfName(ns), level);
            auto& e = m["ext " + ns];
            if (e.rfind(strf("%lld ", (long long)level), 0) != 0) e = strf("%lld ", (long long)level) + string(GetPdfVersionName(doc->GetMetadata().GetPdfVersion()));
        }
        else if (op.k == "extdel")
        {
            string ns = kNs[op.u(0) % 5]; int64_t level = (int64_t)(op.u(1) % 4);
            doc->RemovePdfExtension(PdfName(ns), level);
            auto it = m.find("ext " + ns);
            if (it != m.end() && it->second.rfind(strf("%lld ", (long long)level), 0) == 0) { m.erase(it); c.probe("extension-removed"); }
        }
        else if (op.k == "mode") { auto& q = kModes[op.u(0) % 6]; catalog().SetPageMode(q.mode); m["mode"] = "/" + string(q.name); }
        else if (op.k == "layout") { auto& q = kLayouts[op.u(0) % 7]; catalog().SetPageLayout(q.layout); if (*q.name) m["layout"] = "/" + string(q.name); else m.erase("layout"); }
        else if (op.k == "fullscreen")
        {
            // the mode to return to is the one in effect before; the others can't be returned to
            auto it = m.find("mode");
            if (it != m.end() && (it->second == "/FullScreen" || it->second == "/UseAttachments")) continue;
            catalog().SetUseFullScreen();
            if (it != m.end()) m["pref NonFullScreenPageMode"] = it->second;
            m["mode"] = "/FullScreen";
        }
        else if (op.k == "flag")
        {
            auto& k = catalog();
            switch (op.u(0) % 6) { case 0: k.SetHideToolbar(); break; case 1: k.SetHideMenubar(); break; case 2: k.SetHideWindowUI(); break; case 3: k.SetFitWindow(); break; case 4: k.SetCenterWindow(); break; default: k.SetDisplayDocTitle(); break; }
            m[string("pref ") + kFlags[op.u(0) % 6]] = "true";
        }
        else if (op.k == "named")
        {
            static const char* scal[] = { "None", "AppDefault", "x" };
            static const char* dir[] = { "L2R", "R2L", "y" };
            if (op.u(0) % 2) { catalog().SetPrintScaling(PdfName(scal[op.u(1) % 3])); m["pref PrintScaling"] = string("/") + scal[op.u(1) % 3]; }
            else { catalog().SetBindingDirection(PdfName(dir[op.u(1) % 3])); m["pref Direction"] = string("/") + dir[op.u(1) % 3]; }
        }
        else if (op.k == "lang") { catalog().SetLanguage(kTexts[op.u(0) % 7]); m["lang"] = string("(") + kTexts[op.u(0) % 7] + ")"; }
        else if (op.k == "base") { catalog().SetBaseURI(kTexts[op.u(0) % 7]); m["base"] = string("(") + kTexts[op.u(0) % 7] + ")"; }
        else if (op.k == "indirect")
        {
            // other producers keep these dictionaries as objects of their own
            const char* key = op.u(0) % 2 ? "Extensions" : "ViewerPreferences";
            auto& d = catalog().GetDictionary();
            auto o = d.GetKey(key);
            if (o == nullptr || !o->IsDictionary()) continue;
            auto& n = doc->GetObjects().CreateObject(*o);
            d.AddKeyIndirect(PdfName(key), n);
            c.probe("indirect");
        }
        else if (op.k == "collect") doc->CollectGarbage();
        else if (op.k == "copy") { PdfMemDocument copy(*doc); compare(copy, m, "copied document"); }
        else if (op.k == "failsave")
        {
            bool update = op.u(1) % 2 && !stored.empty() && doc->GetMetadata().GetPdfVersion() <= initial;
            auto dev = makeDevice(update ? stored : "", devOpts(op.u(2)), DeviceAccess::ReadWrite);
            dev->opts.capacity = (int64_t)dev->data->size() + op.at(0);
            try { if (update) doc->SaveUpdate(*dev, QuietSave); else doc->Save(*dev, QuietSave); c.probe("save-fitted"); }
            catch (const std::exception&) { c.fault("device-full"); c.probe("save-failed"); }
        }
        else if (op.k == "save" || op.k == "update")
        {
            bool update = op.k == "update";
            if (update && stored.empty()) continue;
            auto dev = makeDevice(update ? stored : "", devOpts(op.u(1)), DeviceAccess::ReadWrite);
            if (update) doc->SaveUpdate(*dev, saveOptsOf(op.u(0))); else doc->Save(*dev, saveOptsOf(op.u(0)));
            compare(*doc, m, op.k + ", in memory afterwards");
            // an update can't lower the version of the file it is appended to
            if (update && doc->GetMetadata().GetPdfVersion() < initial) m["version"] = versionText(initial);
            stored = *dev->data;
            doc = open(stored, op.u(2));
            compare(*doc, m, op.k + ", read again");
            initial = doc->GetMetadata().GetPdfVersion();
            c.probe(op.k.c_str());
        }
        compare(*doc, m, op.k);
        string all; for (auto& q : m) all += q.first + "=" + q.second + ";";
        c.state(hashBytes(all));
    }
}

Register r22({ "C22", "settings", 1, 6000, gen22, run22 });

} // namespace
