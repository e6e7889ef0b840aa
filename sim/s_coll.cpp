// C19: outlines, name trees, attachments, annotations and form fields keep exactly the history of their edits.
#include "docutil.h"
#include <algorithm>
#include <optional>
using namespace std;
using namespace mm;
using namespace sim;

namespace {

int64_t big(Rng& rng) { return (int64_t)rng.below(1u << 30); }
const char* kWords[] = { "alpha", "beta", "Chapter", "z", "a", "ab", "abc", "B", "~", "0", "10", "9", "a b", "(x)", "\xC3\xA9t\xC3\xA9", "\xC3\xBE", "\xE2\x80\xA2", "\xE2\x82\xAC", "\xCE\xA9", "\xCE\xB1\xCE\xB2", "\xF0\x9F\x98\x80", "\xE4\xB8\xAD\xE6\x96\x87", "q\\", "\xC3\xA0", "\xC2\xA9" };
string word(uint64_t i) { const uint64_t n = sizeof(kWords) / sizeof(*kWords); string s = kWords[i % n]; if (i / n % 3) s += strf("%d", (int)(i / n % 40)); return s; }
string keyOf(uint64_t i) { switch (i % 4) { case 0: return word(i / 4); case 1: return strf("k%04d", (int)(i / 4 % 9000)); case 2: return strf("\xCE\xA9%d", (int)(i / 4 % 300)); default: return strf("\xC3\xA9%d", (int)(i / 4 % 300)); } }

struct Out { int64_t tag = 0; string title, link; int64_t fmt = 0; bool color = false; int rgb[3] = { 0, 0, 0 }; vector<Out> kids; };
struct Fld
{
    int64_t tag = 0; int type = 0; bool acro = false, wid = false, hasKids = false, junk = false;
    optional<string> name, v, tu; string nameV;   // nameV: check box state
    optional<int64_t> ff;
    vector<string> opts;
    vector<Fld> kids;
};
struct Ann { int64_t tag = 0; int type = 0; bool junk = false; optional<string> title, contents; array<int, 4> rect{}; int64_t flags = 4; map<string, string> props; };   // props: what else was set, canonical
struct M
{
    bool outl = false;
    vector<Out> out;
    map<string, map<string, string>> trees;      // tree -> key -> value (canonical text)
    map<string, string> files;                   // key -> content
    vector<vector<Ann>> ann;                     // per page
    vector<Fld> fld;
};

struct St
{
    unique_ptr<PdfMemDocument> doc;
    M m, d;                  // live and durable
    string bytes;
    bool stored = false;
    int64_t next = 1;
    unsigned edits = 0, saves = 0;
};

const PdfAnnotationType kAnnTypes[] = { PdfAnnotationType::Text, PdfAnnotationType::Link, PdfAnnotationType::FreeText, PdfAnnotationType::Line, PdfAnnotationType::Square, PdfAnnotationType::Circle, PdfAnnotationType::Highlight, PdfAnnotationType::Ink, PdfAnnotationType::Popup, PdfAnnotationType::Stamp, PdfAnnotationType::FileAttachement, PdfAnnotationType::Underline, PdfAnnotationType::Watermark, PdfAnnotationType::Redact, PdfAnnotationType::Widget };
const int kNAnn = sizeof(kAnnTypes) / sizeof(*kAnnTypes), kWidget = kNAnn - 1;
const PdfFieldType kFldTypes[] = { PdfFieldType::TextBox, PdfFieldType::CheckBox, PdfFieldType::ComboBox, PdfFieldType::ListBox, PdfFieldType::PushButton, PdfFieldType::RadioButton, PdfFieldType::Signature };
optional<int64_t> initFf(int t) { if (t == 2) return 0x20000; if (t == 3) return 0; if (t == 4) return 0x10000; if (t == 5) return 0x8000 | 0x4000; return {}; }

int64_t tagOf(const PdfObject& o) { auto k = o.GetDictionary().FindKey("SimTag"); int64_t v; return k && k->TryGetNumber(v) ? v : 0; }
void setTag(PdfObject& o, int64_t t) { o.GetDictionary().AddKey("SimTag", t); }
string optText(const optional<string>& s) { return s ? "'" + *s + "'" : "(none)"; }
string optText(const nullable<const PdfString&>& s) { return s.has_value() ? "'" + s->GetString() + "'" : "(none)"; }

// ---------------------------------------------------------------- expected texts
map<string, string> propsOf(PdfAnnotation& a)
{
    map<string, string> r;
    auto n8 = [](double v) { return (int)(v * 8 + .5); };
    if (a.GetDictionary().HasKey("C"))
    {
        auto k = a.GetColor();
        switch (k.GetColorSpace())
        {
            case PdfColorSpace::DeviceGray: r["color"] = strf("%d", n8(k.GetGrayScale())); break;
            case PdfColorSpace::DeviceRGB: r["color"] = strf("%d %d %d", n8(k.GetRed()), n8(k.GetGreen()), n8(k.GetBlue())); break;
            case PdfColorSpace::DeviceCMYK: r["color"] = strf("%d %d %d %d", n8(k.GetCyan()), n8(k.GetMagenta()), n8(k.GetYellow()), n8(k.GetBlack())); break;
            default: r["color"] = "?";
        }
    }
    if (auto b = a.GetDictionary().FindKey("Border"))
    {
        auto& arr = b->GetArray();
        string t = strf("%d %d %d", (int)arr.MustFindAt(0).GetReal(), (int)arr.MustFindAt(1).GetReal(), (int)arr.MustFindAt(2).GetReal());
        if (arr.size() > 3) t += strf(" [%d]", (int)arr.MustFindAt(3).GetArray().MustFindAt(0).GetReal());
        r["border"] = t;
    }
    vector<PdfAppearanceIdentity> ap;
    a.GetAppearanceStreams(ap);
    for (auto& i : ap) r[strf("ap%d:", (int)i.Type) + string(i.State.GetString())] = to_string(tagOf(*i.Object));
    nullable<const PdfArray&> q;
    switch (a.GetType())
    {
        case PdfAnnotationType::Text: if (static_cast<PdfAnnotationText&>(a).GetOpen()) r["open"] = "1"; break;
        case PdfAnnotationType::Popup: if (static_cast<PdfAnnotationPopup&>(a).GetOpen()) r["open"] = "1"; break;
        case PdfAnnotationType::FileAttachement: if (auto f = static_cast<PdfAnnotationFileAttachement&>(a).GetFileAttachement()) r["file"] = f->GetFilename(true).GetString(); break;
        case PdfAnnotationType::Highlight: case PdfAnnotationType::Underline: q = static_cast<PdfAnnotationTextMarkupBase&>(a).GetQuadPoints(); break;
        case PdfAnnotationType::Redact: q = static_cast<PdfAnnotationRedact&>(a).GetQuadPoints(); break;
        case PdfAnnotationType::Link:
        {
            auto& l = static_cast<PdfAnnotationLink&>(a);
            q = l.GetQuadPoints();
            if (auto x = l.GetAction()) r["action"] = x->GetURI().GetString();
            if (auto x = l.GetDestination()) if (x->GetObject().GetArray().size() > 2) r["dest"] = to_string((int64_t)x->GetObject().GetArray().MustFindAt(2).GetReal());
            break;
        }
        default: break;
    }
    if (q.has_value()) { string t; for (unsigned i = 0; i < q->size(); i++) t += strf("%d ", (int)q->MustFindAt(i).GetReal()); r["quad"] = t; }
    return r;
}
void descOut(string& s, const vector<Out>& v, int depth)
{
    for (auto& o : v)
    {
        s += strf("%d:%lld '%s' %s f%lld c%d[%d %d %d]\n", depth, (long long)o.tag, o.title.c_str(), o.link.c_str(), (long long)o.fmt, o.color, o.rgb[0], o.rgb[1], o.rgb[2]);
        descOut(s, o.kids, depth + 1);
    }
}
void readOut(string& s, PdfOutlineItem* first, PdfOutlineItem* parent, int depth)
{
    auto& c = ctx();
    PdfOutlineItem* prev = nullptr;
    size_t n = 0;
    for (auto i = first; i; prev = i, i = i->Next())
    {
        c.check(++n < 5000, "outline-links", "endless outline level");
        c.check(i->GetParentOutline() == parent && i->Prev() == prev, "outline-links", "an outline item has a wrong parent or previous item");
        auto& d = i->GetObject().GetDictionary();
        auto ref = [&](const char* k) { auto o = d.GetKey(k); PdfReference r; return o && o->TryGetReference(r) ? r : PdfReference(); };
        auto want = [](PdfOutlineItem* x) { return x ? x->GetObject().GetIndirectReference() : PdfReference(); };
        c.check(ref("Parent") == want(parent), "outline-structure", "stored /Parent of outline item '" + i->GetTitle().GetString() + "' is wrong");
        c.check(ref("Prev") == want(prev) && ref("Next") == want(i->Next()), "outline-structure", "stored /Prev or /Next of outline item '" + i->GetTitle().GetString() + "' is wrong");
        c.check(ref("First") == want(i->First()) && ref("Last") == want(i->Last()), "outline-structure", "stored /First or /Last of outline item '" + i->GetTitle().GetString() + "' is wrong");
        bool col = d.HasKey("C");
        auto act = i->GetAction();
        auto link = act ? act->GetURI().GetString() : i->GetDestination() && i->GetDestination()->GetObject().GetArray().size() ? "dest" : "";
        s += strf("%d:%lld '%s' %s f%lld c%d[%d %d %d]\n", depth, (long long)tagOf(i->GetObject()), i->GetTitle().GetString().c_str(), link.c_str(), (long long)i->GetTextFormat(), col, (int)(i->GetTextColorRed() * 8 + .5), (int)(i->GetTextColorGreen() * 8 + .5), (int)(i->GetTextColorBlue() * 8 + .5));
        auto dest = i->GetDestination();
        if (dest) { auto& a = dest->GetObject().GetArray(); if (a.size() >= 3) c.check(a[2].GetReal() == (double)tagOf(i->GetObject()), "outline-dest", "an outline item points elsewhere"); }
        readOut(s, i->First(), i, depth + 1);
        auto l = i->First(); while (l && l->Next()) l = l->Next();
        c.check(l == i->Last(), "outline-links", "the last child of an outline item is wrong");
    }
}

// independent reading of a name tree: entries in storage order, limits and order checked
void walkTree(PdfMemDocument& doc, PdfObject& node, bool root, vector<pair<string, PdfObject*>>& out, int depth)
{
    auto& c = ctx();
    c.check(depth < 30, "tree-structure", "name tree too deep");
    auto& d = node.GetDictionary();
    size_t from = out.size();
    auto kids = d.FindKey("Kids"), names = d.FindKey("Names");
    c.check(!(kids && names), "tree-structure", "a name tree node has both /Kids and /Names");
    if (kids) for (auto& k : kids->GetArray()) walkTree(doc, *doc.GetObjects().GetObject(k.GetReference()), false, out, depth + 1);
    if (names)
    {
        auto& a = names->GetArray();
        c.check(a.size() % 2 == 0, "tree-structure", "odd number of entries in /Names");
        for (unsigned i = 0; i + 1 < a.size(); i += 2) out.push_back({ textBytes(a[i].GetString().GetString()), &a[i + 1] });
    }
    auto lim = d.FindKey("Limits");
    if (root) { c.check(!lim, "tree-structure", "the root of a name tree has /Limits"); return; }
    if (from == out.size()) return;
    c.check(lim && lim->IsArray() && lim->GetArray().size() == 2, "tree-limits", "a name tree node has no /Limits");
    auto lo = textBytes(lim->GetArray()[0].GetString().GetString()), hi = textBytes(lim->GetArray()[1].GetString().GetString());
    c.check(lo == out[from].first && hi == out.back().first, "tree-limits", "the limits of a name tree node are " + lo + ".." + hi + " but it holds " + out[from].first + ".." + out.back().first);
}

string valText(PdfMemDocument& doc, const PdfObject* o)
{
    if (!o) return "(none)";
    PdfReference r;
    if (o->TryGetReference(r)) o = doc.GetObjects().GetObject(r);
    if (!o) return "(dangling)";
    if (o->IsArray() && o->GetArray().size() >= 3) return strf("dest %lld", (long long)o->GetArray()[2].GetReal());
    if (o->IsString()) return "str " + o->GetString().GetString();
    if (o->IsNumber()) return strf("int %lld", (long long)o->GetNumber());
    if (o->IsDictionary())
    {
        auto ef = o->GetDictionary().FindKey("EF");
        auto f = ef ? ef->GetDictionary().FindKey("F") : nullptr;
        if (f) return "file " + streamData(*f);
        return strf("dict %lld", (long long)tagOf(*o));
    }
    return "?";
}

const Fld* nothing = nullptr;
void readFields(PdfMemDocument& doc, const vector<const Fld*>& up, const vector<Fld>& want, const function<PdfField*(unsigned)>& at, unsigned count, const char* what, PdfField* parent)
{
    auto& c = ctx();
    c.check(count == want.size(), "field-count", strf("%s: %u fields, expected %zu", what, count, want.size()));
    for (unsigned i = 0; i < count; i++)
    {
        auto& w = want[i];
        if (w.junk)
        {
            try { at(i); c.fail("field-junk", "an invalid field entry was returned as a field"); } catch (const PdfError&) { }
            continue;
        }
        auto& f = *at(i);
        auto& o = f.GetObject();
        auto where = strf("%s[%u] tag %lld: ", what, i, (long long)w.tag);
        c.check(tagOf(o) == w.tag, "field-entry", where + strf("is tag %lld", (long long)tagOf(o)));
        auto inherited = [&](auto&& get) { auto r = get(w); for (auto it = up.rbegin(); !r && it != up.rend(); ++it) r = get(**it); return r; };
        c.check(f.GetType() == kFldTypes[w.type], "field-type", where + strf("type %d, expected %d", (int)f.GetType(), w.type));
        c.check(optText(f.GetNameRaw()) == optText(w.name), "field-name", where + "name " + optText(f.GetNameRaw()) + ", expected " + optText(w.name));
        string full;
        for (auto u : up) if (u->name) full += (full.empty() ? "" : ".") + *u->name;
        if (w.name) full = full.empty() ? *w.name : full + "." + *w.name;
        c.check(f.GetFullName() == full, "field-fullname", where + "full name '" + f.GetFullName() + "', expected '" + full + "'");
        auto tu = inherited([](const Fld& x) { return x.tu; });
        c.check(optText(f.GetAlternateName()) == optText(tu), "field-altname", where + "alternate name " + optText(f.GetAlternateName()) + ", expected " + optText(tu));
        auto ff = inherited([](const Fld& x) { return x.ff; });
        int64_t flags = ff ? *ff : 0;
        c.check(f.IsReadOnly() == ((flags & 1) != 0) && f.IsRequired() == ((flags & 2) != 0) && f.IsNoExport() == ((flags & 4) != 0), "field-flags", where + strf("flags differ from %lld", (long long)flags));
        auto v = f.GetValueObject();
        string got = v ? (v->IsName() ? "/" + v->GetName().GetString() : v->IsString() ? "'" + v->GetString().GetString() + "'" : "?") : "(none)";
        string exp = w.nameV.empty() ? optText(w.v) : "/" + w.nameV;
        c.check(got == exp, "field-value", where + "value " + got + ", expected " + exp);
        if (w.type == 0 && !w.hasKids)
        {
            auto iv = inherited([](const Fld& x) { return x.v; });
            auto t = static_cast<PdfTextBox&>(f).GetText();
            c.check(optText(t) == optText(iv), "field-text", where + "text " + optText(t) + ", expected " + optText(iv));
        }
        if (w.type == 1 && !w.nameV.empty()) c.check(static_cast<PdfCheckBox&>(f).IsChecked() == (w.nameV == "Yes"), "field-checked", where + "wrong check state");
        if (w.type == 2 || w.type == 3)
        {
            auto& cf = static_cast<PdChoiceField&>(f);
            c.check(cf.GetItemCount() == w.opts.size(), "field-items", where + strf("%u items, expected %zu", cf.GetItemCount(), w.opts.size()));
            for (unsigned k = 0; k < w.opts.size(); k++)
            {
                c.check(cf.GetItem(k).GetString() + "|" + cf.GetItemDisplayText((int)k)->GetString() == w.opts[k], "field-items", where + strf("item %u is '", k) + cf.GetItem(k).GetString() + "'");
            }
            if (!w.hasKids)
            {
                int sel = -1;
                for (unsigned k = 0; k < w.opts.size() && sel < 0; k++) if (w.v && w.opts[k].substr(0, w.opts[k].find('|')) == *w.v) sel = (int)k;
                c.check(cf.GetSelectedIndex() == sel, "field-selected", where + strf("selected item %d, expected %d", cf.GetSelectedIndex(), sel));
            }
        }
        auto p = f.GetParentSafe();
        c.check((p == nullptr) == (parent == nullptr) && (!p || p->GetObject().GetIndirectReference() == parent->GetObject().GetIndirectReference()), "field-parent", where + "wrong parent");
        auto pk = o.GetDictionary().GetKey("Parent");
        PdfReference pr;
        c.check(parent ? pk && pk->TryGetReference(pr) && pr == parent->GetObject().GetIndirectReference() : !pk, "field-parent", where + "wrong stored /Parent");
        auto& ch = f.GetChildren();
        c.check(ch.HasKidsArray() == w.hasKids, "field-kids", where + (w.hasKids ? "lost its kids array" : "got a kids array"));
        auto up2 = up; up2.push_back(&w);
        readFields(doc, up2, w.kids, [&](unsigned k) { return &ch.GetFieldAt(k); }, ch.GetCount(), (where + "kids").c_str(), &f);
        auto ka = o.GetDictionary().FindKey("Kids");
        c.check((ka ? ka->GetArray().size() : 0) == w.kids.size(), "field-kids", where + "stored /Kids differ");
    }
}

void verify(St& s, PdfMemDocument& doc, const M& m, const char* at)
{
    auto& c = ctx();
    c.setStage(string("verify ") + at);
    // outlines
    {
        string want, got;
        descOut(want, m.out, 0);
        auto o = doc.GetOutlines();
        c.check((o != nullptr) == m.outl, "outline-presence", "outlines appeared or disappeared");
        if (o)
        {
            readOut(got, o->First(), o, 0);
            auto& d = o->GetObject().GetDictionary();
            c.check(d.HasKey("First") == !m.out.empty() && d.HasKey("Last") == !m.out.empty(), "outline-structure", "root of the outlines has stale links");
        }
        if (want != got)
        {
            size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
            auto ln = [&](const string& x) { auto b = x.rfind('\n', i ? i - 1 : 0); b = b == string::npos ? 0 : b + 1; return x.substr(min(b, x.size()), 90); };
            c.fail("outline-items", string(at) + ": outlines differ: got '" + ln(got) + "' expected '" + ln(want) + "'");
        }
    }
    // name trees
    auto names = doc.GetNames();
    auto all = m.trees;
    for (auto& f : m.files) all["EmbeddedFiles"][f.first] = "file " + f.second;
    for (auto& t : all)
    {
        c.check(names != nullptr, "names-missing", "the names of the document are gone");
        vector<pair<string, PdfObject*>> got;
        auto root = names->GetObject().GetDictionary().FindKey(t.first);
        c.check(root != nullptr, "names-missing", "name tree " + t.first + " is gone");
        walkTree(doc, *root, true, got, 0);
        map<string, pair<string, string>> exp;     // stored key -> key, value
        for (auto& e : t.second) exp[textBytes(e.first)] = { e.first, e.second };
        c.check(is_sorted(got.begin(), got.end(), [](auto& a, auto& b) { return a.first < b.first; }), "tree-order", string(at) + ": keys of name tree " + t.first + " are not sorted");
        c.check(got.size() == exp.size(), "tree-entries", string(at) + strf(": name tree %s holds %zu entries, expected %zu", t.first.c_str(), got.size(), exp.size()));
        size_t i = 0;
        for (auto& e : exp)
        {
            c.check(got[i].first == e.first, "tree-entries", string(at) + ": name tree " + t.first + " holds key '" + got[i].first + "', expected '" + e.first + "'");
            auto v = valText(doc, got[i].second);
            c.check(v == e.second.second, "tree-value", string(at) + ": value of '" + e.first + "' is " + v.substr(0, 60) + ", expected " + e.second.second.substr(0, 60));
            if (exp.size() < 80 || i % 37 == 0 || i + 2 > exp.size())
            {
                v = valText(doc, names->GetValue(t.first, PdfString(e.second.first)));
                c.check(v == e.second.second, "tree-lookup", string(at) + ": looking up '" + e.second.first + "' in " + t.first + " gives " + v.substr(0, 60) + ", expected " + e.second.second.substr(0, 60));
                auto absent = e.second.first + "\x01!";
                if (!t.second.count(absent)) c.check(!names->HasValue(t.first, PdfString(absent)), "tree-lookup", "a name that was never added is found");
            }
            i++;
        }
        PdfDictionary dict;
        names->ToDictionary(t.first, dict);
        c.check(dict.GetSize() == exp.size(), "tree-dict", strf("ToDictionary gives %u entries, expected %zu", (unsigned)dict.GetSize(), exp.size()));
    }
    for (auto& f : m.files)
    {
        unique_ptr<PdfFileSpec> spec(doc.GetAttachment(PdfString(f.first)));
        c.check(spec != nullptr, "attachment", string(at) + ": attachment '" + f.first + "' is not found");
        c.check(valText(doc, &spec->GetObject()) == "file " + f.second, "attachment", string(at) + ": attachment '" + f.first + "' has other content");
    }
    // annotations
    c.check(doc.GetPages().GetCount() == m.ann.size(), "page-count", "number of pages changed");
    for (unsigned p = 0; p < m.ann.size(); p++)
    {
        auto& page = doc.GetPages().GetPageAt(p);
        auto& as = page.GetAnnotations();
        auto& want = m.ann[p];
        unsigned k = 0;
        bool iterFirst = (s.edits + p) % 2;     // iterate before anything else touched the collection
        auto iterate = [&]() { k = 0; for (auto a : as) { if (k < want.size()) c.check((a == nullptr) == want[k].junk && (!a || tagOf(a->GetObject()) == want[k].tag), "annot-iteration", string(at) + strf(": iteration of page %u yields another annotation at %u", p, k)); k++; } c.check(k == want.size(), "annot-iteration", string(at) + strf(": iteration of page %u yields %u annotations, expected %zu", p, k, want.size())); };
        if (iterFirst) iterate();
        c.check(as.GetCount() == want.size(), "annot-count", string(at) + strf(": page %u has %u annotations, expected %zu", p, as.GetCount(), want.size()));
        if (!iterFirst) iterate();
        auto raw = page.GetObject().GetDictionary().FindKey("Annots");
        c.check((raw ? raw->GetArray().size() : 0) == want.size(), "annot-structure", string(at) + strf(": /Annots of page %u has another length", p));
        for (unsigned i = 0; i < want.size(); i++)
        {
            auto& w = want[i];
            if (w.junk)
            {
                try { as.GetAnnotAt(i); c.fail("annot-junk", "an invalid annotation entry was returned"); } catch (const PdfError&) { }
                continue;
            }
            auto& a = as.GetAnnotAt(i);
            auto where = string(at) + strf(": annotation %u of page %u: ", i, p);
            c.check(tagOf(a.GetObject()) == w.tag, "annot-entry", where + strf("tag %lld, expected %lld", (long long)tagOf(a.GetObject()), (long long)w.tag));
            c.check(a.GetType() == kAnnTypes[w.type], "annot-type", where + "other type");
            c.check(&a.MustGetPage() == &page, "annot-page", where + "other page");
            c.check(&as.GetAnnot(a.GetObject().GetIndirectReference()) == &a, "annot-lookup", where + "found differently by reference");
            if (w.type != kWidget)
            {
                c.check(optText(a.GetTitle()) == optText(w.title), "annot-title", where + "title " + optText(a.GetTitle()) + ", expected " + optText(w.title));
                c.check(optText(a.GetContents()) == optText(w.contents), "annot-contents", where + "contents " + optText(a.GetContents()) + ", expected " + optText(w.contents));
            }
            if (w.type != kWidget)
            {
                auto got = propsOf(a), exp = w.props;
                for (auto& g : got) c.check(exp.count(g.first) && exp[g.first] == g.second, "annot-property", where + g.first + " is '" + g.second + "', expected '" + (exp.count(g.first) ? exp[g.first] : string("(none)")) + "'");
                for (auto& g : exp) c.check(got.count(g.first) != 0, "annot-property", where + g.first + " is missing, expected '" + g.second + "'");
            }
            auto r = a.GetRect();
            c.check((int)(r.GetLeft() + .5) == w.rect[0] && (int)(r.GetBottom() + .5) == w.rect[1] && (int)(r.GetWidth() + .5) == w.rect[2] && (int)(r.GetHeight() + .5) == w.rect[3], "annot-rect", where + "other rectangle");
            c.check((int64_t)a.GetFlags() == w.flags, "annot-flags", where + strf("flags %d, expected %d", (int)a.GetFlags(), (int)w.flags));
        }
    }
    // fields
    auto form = doc.GetAcroForm();
    if (!form) c.check(m.fld.empty(), "form-missing", "the form is gone");
    else
    {
        unsigned n = 0;
        for (auto f : *form) { if (n < m.fld.size()) c.check((f == nullptr) == m.fld[n].junk && (!f || tagOf(f->GetObject()) == m.fld[n].tag), "field-iteration", string(at) + strf(": iteration of the form yields another field at %u", n)); n++; }
        c.check(n == m.fld.size(), "field-iteration", string(at) + strf(": iteration of the form yields %u fields, expected %zu", n, m.fld.size()));
        readFields(doc, {}, m.fld, [&](unsigned i) { return &form->GetFieldAt(i); }, form->GetFieldCount(), at, nullptr);
        for (unsigned i = 0; i < m.fld.size(); i++) if (!m.fld[i].junk) { auto& f = form->GetFieldAt(i); c.check(&form->GetField(f.GetObject().GetIndirectReference()) == &f, "field-lookup", "a field is found differently by reference"); }
    }
    c.ev("verified", (int64_t)m.out.size(), (int64_t)m.fld.size(), (int64_t)all.size());
}

// ---------------------------------------------------------------- start states
void buildTree(PdfMemDocument& doc, Rng& rng, PdfObject& node, vector<pair<string, PdfObject>>& items, size_t lo, size_t hi, bool root)
{
    auto& d = node.GetDictionary();
    size_t n = hi - lo;
    if (n <= 4 || (n < 60 && rng.chance(1, 2)))
    {
        PdfArray a;
        for (size_t i = lo; i < hi; i++) { auto k = PdfString::FromRaw(textBytes(items[i].first), rng.chance(1, 3)); a.Add(k); a.Add(items[i].second); }
        if (rng.chance(1, 3)) { auto& o = doc.GetObjects().CreateObject(PdfObject(a)); d.AddKey("Names", o.GetIndirectReference()); }
        else d.AddKey("Names", a);
    }
    else
    {
        PdfArray kids;
        size_t parts = 2 + rng.below(4), p = lo;
        for (size_t i = 0; i < parts; i++)
        {
            size_t e = i + 1 == parts ? hi : min(hi, p + 1 + rng.below(n / parts * 2));
            if (e == p) continue;
            auto& kid = doc.GetObjects().CreateDictionaryObject();
            buildTree(doc, rng, kid, items, p, e, false);
            kids.Add(kid.GetIndirectReference());
            p = e;
        }
        d.AddKey("Kids", kids);
    }
    if (!root && n)
    {
        PdfArray lim; lim.Add(PdfString::FromRaw(textBytes(items[lo].first))); lim.Add(PdfString::FromRaw(textBytes(items[hi - 1].first)));
        d.AddKey("Limits", lim);
    }
}

void rawOutline(St& s, Rng& rng, PdfObject& parent, vector<Out>& v, int depth)
{
    auto& doc = *s.doc;
    PdfObject* prev = nullptr;
    size_t n = 1 + rng.below(4);
    for (size_t i = 0; i < n; i++)
    {
        auto& o = doc.GetObjects().CreateDictionaryObject();
        Out m; m.tag = s.next++; m.title = word((uint64_t)big(rng));
        setTag(o, m.tag);
        o.GetDictionary().AddKey("Title", PdfString::FromRaw(textBytes(m.title), rng.chance(1, 3)));
        o.GetDictionary().AddKey("Parent", parent.GetIndirectReference());
        if (rng.chance(1, 3)) { m.fmt = (int64_t)rng.below(4); o.GetDictionary().AddKey("F", m.fmt); }
        if (prev) { o.GetDictionary().AddKey("Prev", prev->GetIndirectReference()); prev->GetDictionary().AddKey("Next", o.GetIndirectReference()); }
        else parent.GetDictionary().AddKey("First", o.GetIndirectReference());
        if (depth < 3 && rng.chance(1, 3)) rawOutline(s, rng, o, m.kids, depth + 1);
        prev = &o;
        v.push_back(move(m));
    }
    parent.GetDictionary().AddKey("Last", prev->GetIndirectReference());
    parent.GetDictionary().AddKey("Count", (int64_t)n);
}

void rawField(St& s, Rng& rng, PdfArray& arr, PdfObject* parent, vector<Fld>& v, int type, int depth)
{
    auto& doc = *s.doc;
    Fld m; m.tag = s.next++; m.type = type;
    bool direct = !parent && depth == 0 && rng.chance(1, 5);
    auto& o = doc.GetObjects().CreateDictionaryObject();
    auto& d = o.GetDictionary();
    setTag(o, m.tag);
    static const char* ft[] = { "Tx", "Btn", "Ch", "Ch", "Btn", "Btn", "Sig" };
    if (!parent) { d.AddKey("FT", PdfName(ft[type])); m.ff = initFf(type); if (m.ff) d.AddKey("Ff", *m.ff); }
    else d.AddKey("Parent", parent->GetIndirectReference());
    if (!parent || rng.chance(2, 3)) { m.name = strf("raw%d", (int)m.tag); if (rng.chance(1, 3)) m.name = *m.name + "\xC3\xA9"; d.AddKey("T", PdfString::FromRaw(textBytes(*m.name))); }
    if (rng.chance(1, 4)) { m.tu = word((uint64_t)big(rng)); d.AddKey("TU", PdfString::FromRaw(textBytes(*m.tu))); }
    if (rng.chance(1, 4)) { m.ff = (m.ff ? *m.ff : parent ? initFf(type).value_or(0) : 0) | (int64_t)rng.below(8); d.AddKey("Ff", *m.ff); }
    if (!direct && depth < 3 && rng.chance(1, 3))
    {
        m.hasKids = true;
        PdfArray kids;
        for (size_t n = 1 + rng.below(3); n > 0; n--) rawField(s, rng, kids, &o, m.kids, type, depth + 1);
        d.AddKey("Kids", kids);
    }
    else if (type == 0 && rng.chance(1, 2)) { m.v = word((uint64_t)big(rng)); d.AddKey("V", PdfString::FromRaw(textBytes(*m.v))); }
    if (direct) { arr.Add(PdfObject(d)); doc.GetObjects().RemoveObject(o.GetIndirectReference()); }
    else arr.Add(o.GetIndirectReference());
    v.push_back(move(m));
}

void addJunk(Rng& rng, PdfMemDocument& doc, PdfArray& arr)
{
    switch (rng.below(4))
    {
        case 0: arr.Add(PdfObject(PdfVariant())); break;
        case 1: arr.Add(PdfObject((int64_t)7)); break;
        case 2: arr.Add(PdfObject(PdfName("Junk"))); break;
        default: arr.Add(doc.GetObjects().CreateObject(PdfObject((int64_t)3)).GetIndirectReference()); break;
    }
}

void reopen(St& s, DevOpts dev)
{
    ctx().setStage("reopen");
    auto d = make_unique<PdfMemDocument>();
    d->LoadFromDevice(makeDevice(s.bytes, dev));
    s.doc = move(d);
    s.m = s.d;
    function<void(vector<Fld>&)> unbind = [&](vector<Fld>& v) { for (auto& f : v) { f.acro = f.wid = false; unbind(f.kids); } };
    unbind(s.m.fld);
    s.stored = true;
    ctx().ev("reopen", (int64_t)s.bytes.size());
}

void save(St& s, uint64_t how, DevOpts dev, bool incremental)
{
    auto& c = ctx();
    c.setStage(incremental ? "update" : "save");
    auto out = make_shared<string>(incremental ? s.bytes : string());
    SimDevice d(out, DeviceAccess::ReadWrite, dev);
    auto opts = saveOpts(how);
    if (incremental) s.doc->SaveUpdate(d, opts); else s.doc->Save(d, opts);
    s.bytes = *out;
    if (c.verbose) writeFile("/tmp/sim-dump2.pdf", s.bytes);
    if (!incremental) s.stored = false;
    s.d = s.m;
    s.saves++;
    c.ev("saved", (int64_t)s.bytes.size(), (int64_t)hashBytes(s.bytes));
}

void start(St& s, const Plan& p)
{
    auto& c = ctx();
    Rng rng(p.u("build"));
    s.doc = make_unique<PdfMemDocument>();
    auto& doc = *s.doc;
    unsigned pages = 1 + (unsigned)(p.u("pages") % 3);
    for (unsigned i = 0; i < pages; i++) doc.GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
    s.m.ann.resize(pages);
    if (!p.c("foreign")) return;
    c.setStage("foreign");
    c.probe("foreign-start");
    auto& cat = doc.GetCatalog().GetDictionary();
    if (rng.chance(2, 3))
    {
        auto& o = doc.GetObjects().CreateDictionaryObject("Outlines");
        cat.AddKey("Outlines", o.GetIndirectReference());
        rawOutline(s, rng, o, s.m.out, 0);
        s.m.outl = true;
    }
    if (rng.chance(2, 3))
    {
        auto& nd = doc.GetObjects().CreateDictionaryObject();
        for (auto t : { "Dests", "Custom" })
        {
            if (rng.chance(1, 3)) continue;
            map<string, pair<string, PdfObject>> items;
            auto& mt = s.m.trees[t];
            for (size_t n = rng.chance(1, 4) ? rng.below(200) : rng.below(30); n > 0; n--)
            {
                auto k = keyOf((uint64_t)big(rng));
                int64_t tag = s.next++;
                if (t[0] == 'D')
                {
                    PdfArray a; a.Add(doc.GetPages().GetPageAt(0).GetObject().GetIndirectReference()); a.Add(PdfName("XYZ")); a.Add(tag); a.Add((int64_t)0); a.Add((int64_t)0);
                    mt[k] = strf("dest %lld", (long long)tag);
                    items[textBytes(k)] = { k, rng.chance(1, 2) ? PdfObject(a) : PdfObject(doc.GetObjects().CreateObject(PdfObject(a)).GetIndirectReference()) };
                }
                else { mt[k] = strf("int %lld", (long long)tag); items[textBytes(k)] = { k, PdfObject(tag) }; }
            }
            vector<pair<string, PdfObject>> v;
            for (auto& i : items) v.push_back({ i.second.first, i.second.second });
            auto& root = doc.GetObjects().CreateDictionaryObject();
            buildTree(doc, rng, root, v, 0, v.size(), true);
            nd.GetDictionary().AddKey(t, root.GetIndirectReference());
        }
        cat.AddKey("Names", nd.GetIndirectReference());
    }
    for (unsigned p = 0; p < pages; p++)
    {
        if (rng.chance(1, 3)) continue;
        PdfArray a;
        auto& pg = doc.GetPages().GetPageAt(p);
        for (size_t n = 1 + rng.below(6); n > 0; n--)
        {
            Ann m; m.tag = s.next++;
            if (rng.chance(1, 5)) { m.junk = true; addJunk(rng, doc, a); s.m.ann[p].push_back(m); continue; }
            m.type = (int)rng.below(kWidget);
            PdfDictionary d;
            d.AddKey("Type", PdfName("Annot")); d.AddKey("Subtype", PdfName(AnnotationTypeToName(kAnnTypes[m.type])));
            d.AddKey("SimTag", m.tag);
            m.rect = { 1, 2, (int)rng.below(100), (int)rng.below(100) };
            PdfArray r; PdfRect(1, 2, m.rect[2], m.rect[3]).ToArray(r); d.AddKey("Rect", r);
            m.flags = (int64_t)rng.below(16); d.AddKey("F", m.flags);
            if (rng.chance(1, 2)) { m.contents = word((uint64_t)big(rng)); d.AddKey("Contents", PdfString::FromRaw(textBytes(*m.contents), rng.chance(1, 2))); }
            if (rng.chance(1, 3)) a.Add(PdfObject(d)); else a.Add(doc.GetObjects().CreateObject(PdfObject(d)).GetIndirectReference());
            s.m.ann[p].push_back(m);
        }
        if (rng.chance(1, 3)) pg.GetObject().GetDictionary().AddKey("Annots", doc.GetObjects().CreateObject(PdfObject(a)).GetIndirectReference());
        else pg.GetObject().GetDictionary().AddKey("Annots", a);
    }
    if (rng.chance(2, 3))
    {
        PdfArray a;
        for (size_t n = rng.below(5); n > 0; n--)
        {
            if (rng.chance(1, 6)) { Fld m; m.junk = true; addJunk(rng, doc, a); s.m.fld.push_back(m); continue; }
            rawField(s, rng, a, nullptr, s.m.fld, (int)rng.below(7), 0);
        }
        PdfDictionary f;
        f.AddKey("Fields", rng.chance(1, 3) ? PdfObject(doc.GetObjects().CreateObject(PdfObject(a)).GetIndirectReference()) : PdfObject(a));
        if (rng.chance(1, 3)) cat.AddKey("AcroForm", PdfObject(f)); else cat.AddKey("AcroForm", doc.GetObjects().CreateObject(PdfObject(f)).GetIndirectReference());
    }
    save(s, 0, {}, false);
    reopen(s, {});
}

// ---------------------------------------------------------------- operations
size_t countOut(const vector<Out>& v) { size_t n = 0; for (auto& o : v) n += 1 + countOut(o.kids); return n; }
// preorder index -> path
bool findOut(const vector<Out>& v, uint64_t& i, vector<size_t>& path)
{
    for (size_t k = 0; k < v.size(); k++)
    {
        path.push_back(k);
        if (i-- == 0) return true;
        if (findOut(v[k].kids, i, path)) return true;
        path.pop_back();
    }
    return false;
}
PdfOutlineItem* goOut(PdfMemDocument& doc, const vector<size_t>& path)
{
    PdfOutlineItem* i = doc.GetOutlines();
    for (auto k : path) { i = i->First(); while (k--) i = i->Next(); }
    return i;
}
vector<Out>* levelOf(M& m, const vector<size_t>& path) { auto v = &m.out; for (size_t i = 0; i + 1 < path.size(); i++) v = &(*v)[path[i]].kids; return v; }

size_t countFld(const vector<Fld>& v) { size_t n = 0; for (auto& f : v) n += 1 + countFld(f.kids); return n; }
bool findFld(const vector<Fld>& v, uint64_t& i, vector<size_t>& path)
{
    for (size_t k = 0; k < v.size(); k++)
    {
        path.push_back(k);
        if (i-- == 0) return true;
        if (findFld(v[k].kids, i, path)) return true;
        path.pop_back();
    }
    return false;
}
PdfField& goFld(PdfMemDocument& doc, const vector<size_t>& path)
{
    auto f = &doc.GetAcroForm()->GetFieldAt((unsigned)path[0]);
    for (size_t i = 1; i < path.size(); i++) f = &f->GetChildren().GetFieldAt((unsigned)path[i]);
    return *f;
}
vector<Fld>* levelF(M& m, const vector<size_t>& path) { auto v = &m.fld; for (size_t i = 0; i + 1 < path.size(); i++) v = &(*v)[path[i]].kids; return v; }
optional<int64_t> nearFf(M& m, const vector<size_t>& path)
{
    auto v = &m.fld; optional<int64_t> r;
    for (auto k : path) { if ((*v)[k].ff) r = (*v)[k].ff; v = &(*v)[k].kids; }
    return r;
}

Ann widgetAnn(int64_t tag) { Ann a; a.tag = tag; a.type = kWidget; a.rect = { 1, 2, 30, 40 }; return a; }

void editOp(St& s, const Op& op)
{
    auto& c = ctx();
    auto& doc = *s.doc;
    auto& m = s.m;
    c.setStage("edit " + op.k);
    unsigned pg = (unsigned)(op.u(0) % m.ann.size());
    auto dest = [&](int64_t tag) { return make_shared<PdfDestination>(doc.GetPages().GetPageAt(pg), (double)tag, 10, 0); };
    auto uri = [&](const string& t) { auto a = make_shared<PdfAction>(doc, PdfActionType::URI); a->SetURI(PdfString(t)); return a; };
    if (op.k == "onew")
    {
        // a child of any item or of the root, or a following item
        auto& root = doc.GetOrCreateOutlines();
        m.outl = true;
        Out o; o.tag = s.next++; o.title = word(op.u(2));
        size_t n = countOut(m.out);
        uint64_t i = op.u(1) % (n + 1);
        PdfOutlineItem* item;
        if (n == 0 || i == n)
        {
            item = op.u(3) % 3 == 0 ? root.CreateRoot(PdfString(o.title)) : root.CreateChild(PdfString(o.title), dest(o.tag));
            if (op.u(3) % 3) o.link = "dest";
            m.out.push_back(o);
        }
        else
        {
            vector<size_t> path; findOut(m.out, i, path);
            auto at = goOut(doc, path);
            auto lvl = levelOf(m, path);
            o.link = "dest";
            if (op.u(3) % 3 == 2)
            {
                o.link = strf("http://outline/%d", (int)o.tag);
                item = at->CreateNext(PdfString(o.title), uri(o.link));
                lvl->insert(lvl->begin() + (long)path.back() + 1, o);
            }
            else if (op.u(3) % 3) { item = at->CreateNext(PdfString(o.title), dest(o.tag)); lvl->insert(lvl->begin() + (long)path.back() + 1, o); }
            else { item = at->CreateChild(PdfString(o.title), dest(o.tag)); (*lvl)[path.back()].kids.push_back(o); }
        }
        setTag(item->GetObject(), o.tag);
    }
    else if (op.k == "odel" || op.k == "oset")
    {
        size_t n = countOut(m.out);
        if (!n) return;
        uint64_t i = op.u(1) % n;
        vector<size_t> path; findOut(m.out, i, path);
        auto at = goOut(doc, path);
        auto lvl = levelOf(m, path);
        auto& o = (*lvl)[path.back()];
        if (op.k == "odel") { at->Erase(); lvl->erase(lvl->begin() + (long)path.back()); return; }
        switch (op.u(2) % 5)
        {
            case 3: case 4:
            {
                // a destination or an action; one of the other kind is in the way
                bool act = op.u(2) % 5 == 3, refused = false;
                auto t = act ? strf("http://set/%d", (int)(op.u(3) % 1000)) : string("dest");
                try { if (act) at->SetAction(uri(t)); else at->SetDestination(dest(o.tag)); }
                catch (const PdfError& e) { refused = e.GetError() == PdfErrorCode::ActionAlreadyPresent; if (!refused) throw; }
                bool must = !o.link.empty() && (o.link == "dest") == act;
                c.check(refused == must, "outline-link", refused ? "setting the action or destination of an outline item was refused" : "an outline item got both an action and a destination");
                if (!refused) o.link = t;
                break;
            }
            case 0: o.title = word(op.u(3)); at->SetTitle(PdfString(o.title)); break;
            case 1: o.fmt = (int64_t)(op.u(3) % 4); at->SetTextFormat((PdfOutlineFormat)o.fmt); break;
            default: o.color = true; for (int k = 0; k < 3; k++) o.rgb[k] = (int)(op.u(3) >> (3 * k) & 7); at->SetTextColor(o.rgb[0] / 8.0, o.rgb[1] / 8.0, o.rgb[2] / 8.0); break;
        }
    }
    else if (op.k == "dest")
    {
        auto key = keyOf(op.u(1)); int64_t tag = s.next++;
        doc.AddNamedDestination(*dest(tag), PdfString(key));
        m.trees["Dests"][key] = strf("dest %lld", (long long)tag);
    }
    else if (op.k == "name" || op.k == "fill")
    {
        static const char* trees[] = { "Custom", "JavaScript" };
        string t = trees[op.u(3) % 2];
        auto& tree = doc.GetOrCreateNameTree();
        uint64_t n = op.k == "name" ? 1 : 20 + op.u(2) % (op.u(4) % 6 == 0 ? 2600 : 300);
        Rng r(op.u(5));
        for (uint64_t k = 0; k < n; k++)
        {
            string key;
            if (op.k == "name") key = keyOf(op.u(1));
            else switch (op.u(1) % 4)
            {
                case 0: key = strf("f%05d", (int)k); break;                                  // ascending
                case 1: key = strf("f%05d", (int)(n - k)); break;                            // descending
                case 2: key = strf("f%05d", (int)(k * 7919 % (n | 1))); break;               // scattered
                default: key = keyOf((uint64_t)big(r)); break;
            }
            int64_t tag = s.next++;
            if (op.u(4) % 2) { tree.AddValue(t, PdfString(key), PdfObject(tag)); m.trees[t][key] = strf("int %lld", (long long)tag); }
            else { auto w = word((uint64_t)tag); tree.AddValue(t, PdfString(key), PdfObject(PdfString(w))); m.trees[t][key] = "str " + w; }
        }
    }
    else if (op.k == "file")
    {
        static const char* fn[] = { "a.txt", "b.txt", "report (1).pdf", "zeta", "UPPER.BIN", "m_n.dat", "\xC3\xA9.txt", "x-y.z" };
        Rng r(op.u(2));
        auto data = randomData(r, 900);
        PdfFileSpec spec(doc, op.u(3) % 3 ? fn[op.u(1) % 8] : strf("n%d.bin", (int)(op.u(1) % 90)), data.data(), data.size());
        doc.AttachFile(spec);
        m.files[spec.GetFilename(false).GetString()] = data;
    }
    else if (op.k == "anew")
    {
        auto& as = doc.GetPages().GetPageAt(pg).GetAnnotations();
        Ann a; a.tag = s.next++; a.type = (int)(op.u(1) % (uint64_t)kWidget);
        a.rect = { 3, 4, (int)(op.u(2) % 90), (int)(op.u(2) / 90 % 90) };
        auto& x = as.CreateAnnot(kAnnTypes[a.type], PdfRect(a.rect[0], a.rect[1], a.rect[2], a.rect[3]));
        setTag(x.GetObject(), a.tag);
        a.flags = (int64_t)x.GetFlags();
        if (op.u(3) % 2) { a.title = word(op.u(3)); x.SetTitle(PdfString(*a.title)); }
        m.ann[pg].push_back(a);
    }
    else if (op.k == "adel")
    {
        auto& v = m.ann[pg];
        if (v.empty()) return;
        auto& as = doc.GetPages().GetPageAt(pg).GetAnnotations();
        unsigned i = (unsigned)(op.u(1) % v.size());
        if (v[i].junk || op.u(2) % 2) as.RemoveAnnotAt(i); else as.RemoveAnnot(as.GetAnnotAt(i).GetObject().GetIndirectReference());
        v.erase(v.begin() + i);
    }
    else if (op.k == "aset")
    {
        auto& v = m.ann[pg];
        if (v.empty()) return;
        unsigned i = (unsigned)(op.u(1) % v.size());
        if (v[i].junk) return;
        auto& a = v[i];
        auto& x = doc.GetPages().GetPageAt(pg).GetAnnotations().GetAnnotAt(i);
        switch (op.u(2) % 4)
        {
            case 0: if (a.type == kWidget) return; if (op.u(3) % 4) { a.title = word(op.u(3)); x.SetTitle(PdfString(*a.title)); } else { a.title.reset(); x.SetTitle(nullptr); } break;
            case 1: if (op.u(3) % 4) { a.contents = word(op.u(3)); x.SetContents(PdfString(*a.contents)); } else { a.contents.reset(); x.SetContents(nullptr); } break;
            case 2: a.rect = { (int)(op.u(3) % 50), 7, (int)(op.u(3) / 50 % 50), 9 }; x.SetRect(PdfRect(a.rect[0], 7, a.rect[2], 9)); break;
            default: a.flags = (int64_t)(op.u(3) % 1024); x.SetFlags((PdfAnnotationFlags)a.flags); break;
        }
    }
    else if (op.k == "aprop")
    {
        auto& v = m.ann[pg];
        if (v.empty()) return;
        unsigned i = (unsigned)(op.u(1) % v.size());
        if (v[i].junk || v[i].type == kWidget) return;
        auto& a = v[i];
        auto& x = doc.GetPages().GetPageAt(pg).GetAnnotations().GetAnnotAt(i);
        auto e8 = [&](int k) { return (double)(op.u(3) >> (3 * k) & 7) / 8; };
        auto n8 = [&](int k) { return (int)(op.u(3) >> (3 * k) & 7); };
        auto type = kAnnTypes[a.type];
        int64_t t = s.next++;
        switch (op.u(2) % 6)
        {
            case 0:
                switch (op.u(4) % 4)
                {
                    case 0: x.SetColor(nullptr); a.props.erase("color"); break;
                    case 1: x.SetColor(PdfColor(e8(0))); a.props["color"] = strf("%d", n8(0)); break;
                    case 2: x.SetColor(PdfColor(e8(0), e8(1), e8(2))); a.props["color"] = strf("%d %d %d", n8(0), n8(1), n8(2)); break;
                    default: x.SetColor(PdfColor(e8(0), e8(1), e8(2), e8(3))); a.props["color"] = strf("%d %d %d %d", n8(0), n8(1), n8(2), n8(3)); break;
                }
                break;
            case 1:
            {
                PdfArray dash;
                string text = strf("%d %d %d", n8(0), n8(1), n8(2));
                if (op.u(4) % 2) { dash.Add(PdfObject((int64_t)(1 + n8(3)))); text += strf(" [%d]", 1 + n8(3)); x.SetBorderStyle(n8(0), n8(1), n8(2), dash); }
                else x.SetBorderStyle(n8(0), n8(1), n8(2));
                a.props["border"] = text;
                break;
            }
            case 2: case 3:
            {
                auto form = doc.CreateXObjectForm(PdfRect(0, 0, 10, 10));
                setTag(form->GetObject(), t);
                auto at = (unsigned)(op.u(3) % 3);
                static const PdfAppearanceType types[] = { PdfAppearanceType::Normal, PdfAppearanceType::Rollover, PdfAppearanceType::Down };
                static const char* states[] = { "", "", "On", "Off", "x y" };
                string state = states[op.u(4) % 5];
                x.SetAppearanceStream(*form, types[at], PdfName(state));
                // a single appearance and appearances by state replace each other
                auto pre = strf("ap%d:", (int)types[at]);
                for (auto it = a.props.begin(); it != a.props.end();) if (it->first.compare(0, pre.size(), pre) == 0 && (state.empty() || it->first == pre)) it = a.props.erase(it); else ++it;
                a.props[pre + state] = to_string(t);
                c.probe("appearance");
                break;
            }
            default:
                if (type == PdfAnnotationType::Text || type == PdfAnnotationType::Popup)
                {
                    nullable<bool> val; bool on = op.u(3) % 2;
                    if (op.u(4) % 3) val = on;
                    if (type == PdfAnnotationType::Text) static_cast<PdfAnnotationText&>(x).SetOpen(val); else static_cast<PdfAnnotationPopup&>(x).SetOpen(val);
                    a.props.erase("open");
                    if (op.u(4) % 3 && on) a.props["open"] = "1";
                }
                else if (type == PdfAnnotationType::FileAttachement)
                {
                    auto name = strf("att%d.bin", (int)t);
                    static_cast<PdfAnnotationFileAttachement&>(x).SetFileAttachement(make_shared<PdfFileSpec>(doc, name, "data", 4));
                    a.props["file"] = name;
                }
                else if (type == PdfAnnotationType::Highlight || type == PdfAnnotationType::Underline || type == PdfAnnotationType::Redact || (type == PdfAnnotationType::Link && op.u(4) % 3 == 0))
                {
                    PdfArray q; string text;
                    for (int k = 0; k < 8; k++) { q.Add(PdfObject((int64_t)n8(k))); text += strf("%d ", n8(k)); }
                    auto set = [&](nullable<const PdfArray&> arr) {
                        if (type == PdfAnnotationType::Link) static_cast<PdfAnnotationLink&>(x).SetQuadPoints(arr);
                        else if (type == PdfAnnotationType::Redact) static_cast<PdfAnnotationRedact&>(x).SetQuadPoints(arr);
                        else static_cast<PdfAnnotationTextMarkupBase&>(x).SetQuadPoints(arr);
                    };
                    if (op.u(4) % 5) { set(q); a.props["quad"] = text; } else { set(nullptr); a.props.erase("quad"); }
                }
                else if (type == PdfAnnotationType::Link)
                {
                    auto& l = static_cast<PdfAnnotationLink&>(x);
                    if (op.u(4) % 2) { auto u = strf("http://link/%d", (int)t); l.SetAction(uri(u)); a.props["action"] = u; }
                    else
                    {
                        bool refused = false;
                        try { l.SetDestination(dest(t)); } catch (const PdfError& e) { refused = e.GetError() == PdfErrorCode::ActionAlreadyPresent; if (!refused) throw; }
                        c.check(refused == (a.props.count("action") != 0), "annot-link", "setting the destination of a link was refused or accepted wrongly");
                        if (!refused) a.props["dest"] = to_string(t);
                    }
                }
        }
    }
    else if (op.k == "fnew")
    {
        auto& form = doc.GetOrCreateAcroForm();
        Fld f; f.tag = s.next++; f.type = (int)(op.u(1) % 7); f.acro = true; f.ff = initFf(f.type); f.name = op.u(3) % 3 ? strf("fld%d", (int)(op.u(2) % 6)) : word(op.u(2));
        auto& x = form.CreateField(*f.name, kFldTypes[f.type]);
        setTag(x.GetObject(), f.tag);
        m.fld.push_back(f);
    }
    else if (op.k == "wnew")
    {
        auto& page = doc.GetPages().GetPageAt(pg);
        string name = op.u(3) % 3 ? strf("fld%d", (int)(op.u(2) % 6)) : word(op.u(2));
        if (op.u(3) % 11 == 10) name += ".dot";
        int type = (int)(op.u(1) % 7);
        int at = -1;
        for (size_t i = 0; i < m.fld.size() && at < 0; i++) if (!m.fld[i].junk && m.fld[i].name && *m.fld[i].name == name) at = (int)i;
        if (at >= 0 && op.u(3) / 11 % 4) type = m.fld[(size_t)at].type;
        bool refuse = name.find('.') != string::npos || (at >= 0 && m.fld[(size_t)at].type != type);
        PdfField* x = nullptr;
        try { x = &page.CreateField(name, kFldTypes[type], PdfRect(1, 2, 30, 40)); }
        catch (const exception& e)
        {
            if (!refuse) c.fail("field-refused", string("creating field '") + name + "' was refused: " + e.what());
            c.probe("field-refused");
            return;
        }
        c.check(!refuse, "field-accepted", "a field with an unusable name '" + name + "' was accepted");
        Fld f; f.tag = s.next++; f.type = type; f.acro = true; f.name = name; f.ff = initFf(type);
        setTag(x->GetObject(), f.tag);
        m.ann[pg].push_back(widgetAnn(f.tag));
        if (at < 0) m.fld.push_back(f);
        else
        {
            c.probe("field-grouped");
            f.acro = false; f.wid = true; f.name.reset(); f.ff.reset();
            auto& cand = m.fld[(size_t)at];
            if (cand.hasKids) cand.kids.push_back(f);
            else
            {
                Fld parent; parent.tag = s.next++; parent.type = type; parent.acro = true; parent.hasKids = true;
                parent.name = cand.name; parent.v = cand.v; parent.nameV = cand.nameV; parent.ff = cand.ff;
                auto old = cand;
                old.name.reset(); old.v.reset(); old.nameV.clear(); old.ff.reset();
                parent.kids = { old, f };
                m.fld.erase(m.fld.begin() + at);
                m.fld.push_back(parent);
                auto px = x->GetParentSafe();
                c.check(px != nullptr, "field-parent", "a grouped field has no parent");
                setTag(px->GetObject(), parent.tag);
            }
        }
    }
    else if (op.k == "fdel")
    {
        size_t n = countFld(m.fld);
        if (!n) return;
        uint64_t i = op.u(1) % n;
        vector<size_t> path; findFld(m.fld, i, path);
        auto lvl = levelF(m, path);
        bool byRef = op.u(2) % 2 && !(*lvl)[path.back()].junk;
        auto k = (unsigned)path.back();
        PdfReference ref;
        if (byRef) ref = goFld(doc, path).GetObject().GetIndirectReference();
        auto up = path; up.pop_back();
        if (up.empty()) { if (byRef) doc.GetAcroForm()->RemoveField(ref); else doc.GetAcroForm()->RemoveFieldAt(k); }
        else { auto& ch = goFld(doc, up).GetChildren(); if (byRef) ch.RemoveField(ref); else ch.RemoveFieldAt(k); }
        lvl->erase(lvl->begin() + k);
    }
    else if (op.k == "fkid")
    {
        size_t n = countFld(m.fld);
        if (!n) return;
        uint64_t i = op.u(1) % n;
        vector<size_t> path; findFld(m.fld, i, path);
        auto& f = (*levelF(m, path))[path.back()];
        if (f.junk || path.size() > 5) return;
        bool onPage = op.u(2) % 2;
        bool refuse = !f.acro || (onPage && f.wid);
        auto& x = goFld(doc, path);
        PdfField* kid = nullptr;
        try { kid = onPage ? &x.GetChildren().CreateChild(doc.GetPages().GetPageAt(pg), PdfRect(1, 2, 30, 40)) : &x.GetChildren().CreateChild(); }
        catch (const PdfError& e)
        {
            if (!refuse) c.fail("child-refused", strf("creating a child field was refused: %s", string(PdfError::ErrorName(e.GetError())).c_str()));
            c.probe("child-refused");
            return;
        }
        c.check(!refuse, "child-accepted", "a child was created for an unbound field");
        Fld k; k.tag = s.next++; k.type = f.type; k.acro = !onPage; k.wid = onPage;
        setTag(kid->GetObject(), k.tag);
        if (f.type >= 2 && f.type <= 4) k.ff = nearFf(m, path).value_or(0) | (f.type == 2 ? 0x20000 : f.type == 4 ? 0x10000 : 0);   // these types write their own flags
        f.hasKids = true;
        if (op.u(3) % 2) { k.name = strf("kid%d", (int)(op.u(3) % 9)); kid->SetName(PdfString(*k.name)); }
        f.kids.push_back(k);
        if (onPage) m.ann[pg].push_back(widgetAnn(k.tag));
        c.probe("child-created");
    }
    else if (op.k == "fset")
    {
        size_t n = countFld(m.fld);
        if (!n) return;
        uint64_t i = op.u(1) % n;
        vector<size_t> path; findFld(m.fld, i, path);
        auto& f = (*levelF(m, path))[path.back()];
        if (f.junk) return;
        auto& x = goFld(doc, path);
        switch (op.u(2) % 6)
        {
            case 0: { f.tu = word(op.u(3)); x.SetAlternateName(PdfString(*f.tu)); break; }
            case 1:
            {
                int bit = (int)(op.u(3) % 3); bool on = op.u(3) / 3 % 2;
                auto ff = nearFf(m, path);
                int64_t cur = ff ? *ff : 0;
                f.ff = on ? cur | (1 << bit) : cur & ~(int64_t)(1 << bit);
                if (bit == 0) x.SetReadOnly(on); else if (bit == 1) x.SetRequired(on); else x.SetNoExport(on);
                break;
            }
            case 2:
            {
                if (path.size() == 1 && op.u(3) % 3) { f.name = strf("ren%d", (int)(op.u(3) % 5)); x.SetName(PdfString(*f.name)); }
                else if (path.size() > 1) { if (op.u(3) % 3) { f.name = word(op.u(3)); x.SetName(PdfString(*f.name)); } else { f.name.reset(); x.SetName(nullptr); } }
                break;
            }
            default:
                if (f.hasKids)
                {
                    if (f.type != 0) return;
                    try { static_cast<PdfTextBox&>(x).SetText(PdfString("no")); c.fail("parent-value", "a text was set on a field with kids"); } catch (const PdfError&) { }
                    return;
                }
                if (f.type == 0) { if (op.u(3) % 5) { f.v = word(op.u(3)); static_cast<PdfTextBox&>(x).SetText(PdfString(*f.v)); } else { f.v.reset(); static_cast<PdfTextBox&>(x).SetText(nullptr); } }
                else if (f.type == 1) { f.nameV = op.u(3) % 2 ? "Yes" : "Off"; static_cast<PdfCheckBox&>(x).SetChecked(op.u(3) % 2); }
                else if (f.type == 2 || f.type == 3)
                {
                    auto& cf = static_cast<PdChoiceField&>(x);
                    switch (op.u(4) % 4)
                    {
                        case 0: case 1: { auto a = word(op.u(3)), b = word(op.u(3) / 7); bool disp = op.u(3) % 2; f.opts.push_back(a + "|" + (disp ? b : a)); if (disp) cf.InsertItem(PdfString(a), PdfString(b)); else cf.InsertItem(PdfString(a)); break; }
                        case 2: if (!f.opts.empty()) { auto k = op.u(3) % f.opts.size(); cf.RemoveItem((unsigned)k); f.opts.erase(f.opts.begin() + (long)k); } break;
                        default: if (!f.opts.empty()) { auto k = op.u(3) % f.opts.size(); cf.SetSelectedIndex((int)k); f.v = f.opts[k].substr(0, f.opts[k].find('|')); } break;
                    }
                }
                break;
        }
    }
    s.edits++;
    c.ev(op.k.c_str(), op.at(0), op.at(1), op.at(2));
}

void run(const Plan& p)
{
    auto& c = ctx();
    St s;
    start(s, p);
    verify(s, *s.doc, s.m, "start");
    for (auto& op : p.ops)
    {
        if (op.k == "save") { save(s, op.u(0), devOpts(op.u(1)), false); c.probe("save"); }
        else if (op.k == "update") { if (!s.stored) continue; save(s, op.u(0), devOpts(op.u(1)), true); c.probe("update"); }
        else if (op.k == "reopen") { if (s.bytes.empty()) continue; if (op.u(1) % 3 == 0) { s.doc.reset(); } reopen(s, devOpts(op.u(0))); c.fault("crash-reopen"); }
        else if (op.k == "badsave")
        {
            // a save onto a device that fills up: reported, and the document in memory keeps everything
            c.setStage("badsave");
            auto out = make_shared<string>();
            DevOpts o; o.capacity = (int64_t)(op.u(0) % 6000);
            SimDevice d(out, DeviceAccess::ReadWrite, o);
            bool failed = false;
            try { s.doc->Save(d, saveOpts(op.u(1))); } catch (const exception&) { failed = true; }
            if (failed) c.fault("device-full"); else { s.d = s.m; s.bytes = *out; s.stored = false; }
        }
        else if (op.k == "verify") verify(s, *s.doc, s.m, "live");
        else { editOp(s, op); c.state(hashBytes(strf("%zu %zu %zu %zu", min<size_t>(countOut(s.m.out), 6), min<size_t>(countFld(s.m.fld), 6), s.m.ann[0].size() % 4, s.m.trees.size()))); }
    }
    verify(s, *s.doc, s.m, "end");
    save(s, p.u("lastopt"), devOpts(p.u("lastdev")), s.stored && p.c("lastupd"));
    verify(s, *s.doc, s.m, "after the last save");
    auto again = loadDoc(s.bytes, "", devOpts(p.u("lastdev") / 16));
    s.doc = move(again);
    s.m = s.d;
    verify(s, *s.doc, s.m, "reopened");
}

void gen(Rng& rng, Plan& p)
{
    p.cfg["build"] = big(rng);
    p.cfg["pages"] = (int64_t)rng.below(3);
    p.cfg["foreign"] = rng.chance(1, 2);
    p.cfg["lastopt"] = big(rng); p.cfg["lastdev"] = big(rng); p.cfg["lastupd"] = rng.chance(1, 2);
    // focus on some kinds of collections
    static const vector<vector<const char*>> groups = { { "onew", "onew", "odel", "oset" }, { "dest", "name", "fill", "file" }, { "anew", "anew", "adel", "aset", "aprop", "aprop" }, { "fnew", "wnew", "wnew", "fdel", "fkid", "fset", "fset" } };
    unsigned mask = (unsigned)(1 + rng.below(15));
    vector<const char*> kinds;
    for (unsigned i = 0; i < 4; i++) if (mask >> i & 1) kinds.insert(kinds.end(), groups[i].begin(), groups[i].end());
    bool fault = rng.chance(1, 3);
    size_t n = 6 + rng.below(40);
    for (size_t i = 0; i < n; i++)
    {
        switch (rng.below(10))
        {
            case 0: p.add(rng.chance(1, 2) ? "save" : "update", { big(rng), big(rng) }); if (rng.chance(2, 3)) p.add("reopen", { big(rng), big(rng) }); break;
            case 1: p.add("verify"); break;
            case 2: if (fault) { if (rng.chance(1, 2)) p.add("reopen", { big(rng), big(rng) }); else p.add("badsave", { big(rng), big(rng) }); break; } [[fallthrough]];
            default:
            {
                string k = kinds[rng.below(kinds.size())];
                if (k == "fill" && rng.chance(2, 3)) k = "name";
                p.add(k.c_str(), { big(rng), big(rng), big(rng), big(rng), big(rng), big(rng) });
                break;
            }
        }
    }
}

Register r({ "C19", "collections", 1, 3500, gen, run });

} // namespace
