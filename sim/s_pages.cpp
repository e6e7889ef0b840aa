// C14: the page sequence is a list. C15: imported content is complete and independent. C21: drawing only adds.
#include "docutil.h"
#include <array>
using namespace std;
using namespace mm;
using namespace sim;

namespace {

int64_t big(Rng& rng) { return (int64_t)rng.below(1u << 30); }

// ---------------------------------------------------------------- content streams as operators
struct Tok { string t; };

bool delim(char c) { return strchr("()<>[]{}/%", c) && c; }
bool white(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\f' || c == 0; }

vector<string> tokens(const string& s)
{
    vector<string> r;
    size_t i = 0;
    while (i < s.size())
    {
        if (white(s[i])) { i++; continue; }
        size_t b = i;
        if (s[i] == '%') { while (i < s.size() && s[i] != '\n' && s[i] != '\r') i++; continue; }
        if (s[i] == '(')
        {
            int depth = 0;
            do
            {
                if (s[i] == '\\') i++;
                else if (s[i] == '(') depth++;
                else if (s[i] == ')') depth--;
                i++;
            } while (i < s.size() && depth > 0);
        }
        else if (s[i] == '<' && !(i + 1 < s.size() && s[i + 1] == '<')) { while (i < s.size() && s[i] != '>') i++; i++; }
        else if ((s[i] == '<' || s[i] == '>') && i + 1 < s.size() && s[i + 1] == s[i]) i += 2;
        else if (s[i] == '/') { i++; while (i < s.size() && !white(s[i]) && !delim(s[i])) i++; }
        else if (delim(s[i])) i++;
        else while (i < s.size() && !white(s[i]) && !delim(s[i])) i++;
        r.push_back(s.substr(b, i - b));
    }
    return r;
}

// A content stream as the list of its operators with the graphics state they act under. Setting a state twice
// to the same value, or not setting it again, makes no difference; everything else does.
vector<string> operators(const string& content, set<pair<string, string>>* names = nullptr)
{
    static const map<string, string> stateOps = { { "w", "w" }, { "J", "J" }, { "j", "j" }, { "M", "M" }, { "RG", "S" }, { "G", "S" }, { "K", "S" }, { "rg", "f" }, { "g", "f" }, { "k", "f" } };
    vector<string> out, args;
    map<string, string> st;
    vector<map<string, string>> stack;
    for (auto& t : tokens(content))
    {
        char* e = nullptr;
        double v = strtod(t.c_str(), &e);
        if (e && *e == 0 && !t.empty() && !isalpha((unsigned char)t[0])) { args.push_back(strf("%.2f", v == 0 ? 0.0 : v)); continue; }
        if (t[0] == '/' || delim(t[0])) { args.push_back(t); continue; }
        string a;
        for (auto& x : args) a += x + " ";
        auto it = stateOps.find(t);
        if (it != stateOps.end()) { st[it->second] = a + t; args.clear(); continue; }
        if (t == "q") stack.push_back(st);
        if (t == "Q" && !stack.empty()) { st = stack.back(); stack.pop_back(); }
        if (names && !args.empty() && args.back()[0] == '/')
        {
            if (t == "Do") names->insert({ "XObject", args.back().substr(1) });
            if (t == "gs") names->insert({ "ExtGState", args.back().substr(1) });
            if (t == "cs" || t == "CS") names->insert({ "ColorSpace", args.back().substr(1) });
        }
        if (names && t == "Tf" && args.size() > 1 && args[0][0] == '/') names->insert({ "Font", args[0].substr(1) });
        string line = a + t;
        if (t == "S" || t == "f" || t == "f*" || t == "B" || t == "Do" || t == "Tj" || t == "s" || t == "b")
            for (auto& x : st) line += " {" + x.second + "}";
        args.clear();
        if (t == "Q" && !out.empty() && out.back() == "q") { out.pop_back(); continue; }   // nothing between
        out.push_back(line);
    }
    for (auto& x : args) out.push_back("?" + x);
    return out;
}

string joined(const vector<string>& v, size_t from = 0, size_t n = 1000)
{
    string s;
    for (size_t i = from; i < v.size() && i < from + n; i++) s += v[i] + " | ";
    return s;
}

void sameOps(const char* cls, const string& where, const string& want, const string& got)
{
    auto a = operators(want), b = operators(got);
    if (a == b) return;
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    ctx().fail(cls, strf("%s: content differs at operator %zu of %zu/%zu: expected ", where.c_str(), i, a.size(), b.size()) + joined(a, i, 4) + " found " + joined(b, i, 4));
}

// ---------------------------------------------------------------- page trees of another producer
struct MPage
{
    int id = 0;
    int box[4] = { 0, 0, 100, 100 };
    bool crop = false;
    int cbox[4] = { 0, 0, 0, 0 };
    int rot = 0;
    int res = -1;                  // SimRes marker of the resources in effect
    string content;                // pieces joined with line feeds
    vector<array<int, 4>> before;  // earlier media boxes: a page may have got an explicit crop box
};

struct Tree { string bytes; vector<MPage> pages; };

struct TreeOpts { bool graph = false, content = false; };

struct Builder
{
    Rng rng;
    vector<string> objs;
    Tree out;
    TreeOpts o;
    vector<pair<int, int>> pageObjs;     // id, object
    vector<int> shared;
    vector<pair<string, string>> contents;      // values of /Contents used before and what they draw
    vector<pair<int, string>> pieceObjs;        // content streams used before
    int nextId;
    Builder(uint64_t seed, int firstId, TreeOpts opts) : rng(seed), o(opts), nextId(firstId) { }
    int reserve() { objs.emplace_back(); return (int)objs.size(); }
    int add(string s) { objs.push_back(move(s)); return (int)objs.size(); }
    static string box(const int* b) { return strf("[%d %d %d %d]", b[0], b[1], b[0] + b[2], b[1] + b[3]); }
    void randBox(int* b) { b[0] = (int)rng.below(50); b[1] = (int)rng.below(50); b[2] = 10 + (int)rng.below(500); b[3] = 10 + (int)rng.below(500); }
    string ref(int n) { return strf("%d 0 R", n); }
    string stream(const string& dict, const string& data)
    {
        string d = data, f;
        switch (rng.below(4)) { case 0: d = encFlate(data); f = "/Filter/FlateDecode"; break; case 1: d = encHex(data, rng); f = "/Filter[/ASCIIHexDecode]"; break; default: break; }
        return "<<" + dict + f + strf("/Length %zu>>\nstream\n", d.size()) + d + "\nendstream";
    }
    string boxText(const int* b) { return rng.chance(1, 6) ? ref(add(box(b))) : box(b); }
    string resText(int& marker)
    {
        static int dummy; (void)dummy;
        marker = (int)rng.below(1000000);
        string s = strf("<</SimRes %d/ProcSet[/PDF/Text]", marker);
        if (o.content || o.graph)
        {
            s += "/XObject<</Im0 " + ref(add(stream("/Type/XObject/Subtype/Form/BBox[0 0 5 5]/Resources<<>>", strf("0 0 m %d 5 l S", marker % 97)))) + ">>";
            s += "/Font<</F0 " + ref(add("<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")) + ">>";
        }
        s += ">>";
        return rng.chance(1, 2) ? ref(add(s)) : s;
    }
    string piece()
    {
        string s;
        auto n = 1 + rng.below(5);
        for (uint64_t i = 0; i < n; i++)
        {
            auto sep = rng.chance(1, 3) ? "\n" : " ";
            if (i) s += sep;
            switch (rng.below(8))
            {
                case 0: s += strf("q%s%d w%sQ", sep, (int)rng.below(9), sep); break;
                case 1: s += strf("BT%s/F0 %d Tf%s(T\\)x (y) %d) Tj%sET", sep, (int)rng.below(20), sep, (int)rng.below(1000), sep); break;
                case 2: s += strf("q 1 0 0 1 %d %d cm /Im0 Do Q", (int)rng.below(99), (int)rng.below(99)); break;
                case 3: s += strf("%d %d %d rg", (int)rng.below(2), (int)rng.below(2), (int)rng.below(2)); break;
                case 4: s += strf("%d w", (int)rng.below(9)); break;
                default: s += strf("%d %d m %d %d l S", (int)rng.below(900), (int)rng.below(900), (int)rng.below(900), (int)rng.below(900)); break;
            }
        }
        // streams end where a token ends, with or without white space
        if (rng.chance(1, 2)) s += "\n";
        return s;
    }
    struct Inh { bool box = false, crop = false, rot = false; int b[4], c[4]; int r = 0; int res = -1; bool hasRes = false; };
    string attributes(Inh& in, bool page)
    {
        string s;
        if ((page && !in.box) || rng.chance(1, 4)) { randBox(in.b); in.box = true; s += "/MediaBox " + boxText(in.b); }
        if (rng.chance(1, 6)) { randBox(in.c); in.crop = true; s += "/CropBox" + box(in.c); }
        if (rng.chance(1, 5)) { in.r = 90 * (int)rng.below(4); in.rot = true; s += strf("/Rotate %d", in.r); }
        if ((page && !in.hasRes && rng.chance(3, 4)) || rng.chance(1, 5)) { s += "/Resources " + resText(in.res); in.hasRes = true; }
        return s;
    }
    // objects of the application behind a page
    string data(int obj)
    {
        string s;
        auto n = 1 + rng.below(4);
        vector<int> mine;
        for (uint64_t i = 0; i < n; i++) mine.push_back(reserve());
        auto target = [&]() -> string {
            switch (rng.below(9))
            {
                case 0: return ref(obj);
                case 1: case 2: if (!shared.empty()) return ref(rng.pick(shared)); return "null";
                case 3: if (pageObjs.empty()) return "1"; return ref(rng.pick(pageObjs).second);
                case 4: return rng.chance(1, 2) ? ref(add("FREE")) : strf("%d", (int)rng.below(99));
                default: return ref(rng.pick(mine));
            }
        };
        for (auto m : mine)
        {
            string d = strf("/K%d %s/A[%s %s (s%d)]/N/x#20y", (int)rng.below(9), target().c_str(), target().c_str(), target().c_str(), (int)rng.below(1000));
            if (rng.chance(1, 3)) d += "/D<</X " + target() + "/Y[/n[" + target() + " 5[" + target() + "]]<</Z " + target() + "/E<</W " + target() + ">>>>]>>";
            objs[m - 1] = rng.chance(1, 2) ? stream(d, randomData(rng, 600)) : rng.chance(1, 4) ? "[" + target() + " " + target() + "]" : "<<" + d + ">>";
        }
        return "/SimData " + (rng.chance(1, 3) ? "[" + ref(mine[0]) + " " + ref(mine.back()) + "]" : ref(mine[0]));
    }
    int page(int parent, Inh in)
    {
        MPage m;
        m.id = nextId++;
        int n = reserve();
        string s = strf("<</Type/Page/Parent %d 0 R/SimId %d", parent, m.id) + attributes(in, true);
        for (int i = 0; i < 4; i++) m.box[i] = in.b[i];
        m.crop = in.crop;
        if (in.crop) for (int i = 0; i < 4; i++) m.cbox[i] = in.c[i];
        m.rot = in.r;
        m.res = in.hasRes ? in.res : -1;
        auto kind = rng.below(6);
        vector<string> pieces;
        auto np = kind == 0 ? 0 : kind < 3 ? 1 : rng.below(4);
        // pages share streams, and whole arrays of them
        auto pieceRef = [&](string& x) {
            if (!pieceObjs.empty() && rng.chance(1, 6)) { auto& q = rng.pick(pieceObjs); x = q.second; return ref(q.first); }
            int k = add(stream("", x));
            pieceObjs.push_back({ k, x });
            return ref(k);
        };
        for (uint64_t i = 0; i < np; i++) pieces.push_back(rng.chance(1, 8) ? "" : piece());
        if (kind != 0 && !contents.empty() && rng.chance(1, 8))
        {
            auto& q = rng.pick(contents);
            s += "/Contents " + q.first;
            m.content = q.second;
        }
        else
        {
            if (kind != 0)
            {
                string v;
                if (kind < 3) v = pieceRef(pieces[0]);
                else
                {
                    string a = "[";
                    for (auto& x : pieces) a += pieceRef(x) + " ";
                    a += "]";
                    v = rng.chance(1, 3) ? ref(add(a)) : a;
                }
                s += "/Contents " + v;
                for (auto& x : pieces) m.content += x + "\n";
                contents.push_back({ v, m.content });
            }
        }
        if (o.graph)
        {
            if (rng.chance(1, 2)) shared.push_back(add(stream(strf("/Shared %d", (int)rng.below(1000)), randomData(rng, 300))));
            s += data(n);
            if (rng.chance(1, 3)) s += "/Annots[" + ref(add(strf("<</Type/Annot/Subtype/Text/Rect[0 0 9 9]/P %d 0 R/Contents(note %d)>>", n, m.id))) + "]";
        }
        s += ">>";
        objs[n - 1] = s;
        pageObjs.push_back({ m.id, n });
        out.pages.push_back(m);
        return n;
    }
    int node(int parent, int pages, Inh in, int depth)
    {
        int n = reserve();
        string s = "<</Type/Pages" + (parent ? strf("/Parent %d 0 R", parent) : string()) + strf("/Count %d", pages);
        s += attributes(in, false);
        string kids = "[";
        int style = (int)rng.below(4);
        int left = pages;
        while (left > 0)
        {
            if (depth > 0 && style && rng.chance(1, style == 1 ? 2 : 5))
            {
                int k = rng.chance(1, 10) ? 0 : 1 + (int)rng.below(left);
                kids += ref(node(n, k, in, depth - 1)) + " ";
                left -= k;
            }
            else { kids += ref(page(n, in)) + " "; left--; }
        }
        if (depth > 0 && rng.chance(1, 10)) kids += ref(node(n, 0, in, 0));
        kids += "]";
        s += "/Kids " + (rng.chance(1, 6) ? ref(add(kids)) : kids) + ">>";
        objs[n - 1] = s;
        return n;
    }
    void build(int pages)
    {
        int cat = reserve();
        if (o.graph) for (int i = 0; i < 3; i++) shared.push_back(add(strf("<</SharedDict %d/V[1 2 %d]>>", i, (int)rng.below(1000))));
        int root = node(0, pages, Inh(), rng.chance(1, 12) ? 12 : (int)rng.below(4));
        objs[cat - 1] = strf("<</Type/Catalog/Pages %d 0 R>>", root);
        string& f = out.bytes;
        f = "%PDF-1.4\n";
        vector<size_t> off;
        for (size_t i = 0; i < objs.size(); i++) if (objs[i] == "FREE") off.push_back(0); else { off.push_back(f.size()); f += strf("%zu 0 obj\n", i + 1) + objs[i] + "\nendobj\n"; }
        auto x = f.size();
        f += strf("xref\n0 %zu\n0000000000 65535 f \n", objs.size() + 1);
        for (auto v : off) f += v ? strf("%010zu 00000 n \n", v) : string("0000000000 00001 f \n");
        f += strf("trailer\n<</Size %zu/Root 1 0 R>>\nstartxref\n%zu\n%%%%EOF\n", objs.size() + 1, x);
    }
};

Tree makeTree(uint64_t seed, int pages, int firstId, TreeOpts o = {})
{
    Builder b(seed, firstId, o);
    b.build(pages);
    return move(b.out);
}

// ---------------------------------------------------------------- looking at a document from outside
int64_t idOf(const PdfObject& page)
{
    auto k = page.GetDictionary().FindKey("SimId");
    return k && k->IsNumber() ? k->GetNumber() : -1;
}

// The attribute of a page, looked up along the tree by hand
const PdfObject* inherited(const PdfObject& page, const char* key)
{
    auto o = &page;
    for (int i = 0; o && o->IsDictionary() && i < 300; i++)
    {
        auto v = o->GetDictionary().FindKey(key);
        if (v && !v->IsNull()) return v;
        o = o->GetDictionary().FindKey("Parent");
    }
    return nullptr;
}

// Content of a page by hand: pieces separated, as a reader must treat them
string contentOf(PdfMemDocument& doc, const PdfObject& page)
{
    string s;
    auto c = page.GetDictionary().FindKey("Contents");
    if (!c) return s;
    if (c->IsArray())
    {
        for (auto& e : c->GetArray())
        {
            const PdfObject* o = &e;
            if (e.IsReference()) o = doc.GetObjects().GetObject(e.GetReference());
            if (!o) ctx().fail("content-dangling", "page content names an object that does not exist");
            if (o->HasStream()) s += streamData(*o) + "\n";
        }
    }
    else if (c->HasStream()) s += streamData(*c) + "\n";
    return s;
}

void leaves(PdfMemDocument& doc, const PdfObject& node, const PdfObject* parent, vector<const PdfObject*>& out, int depth)
{
    auto& c = ctx();
    if (depth > 300) c.fail("tree-depth", "page tree deeper than any that was made");
    auto& d = node.GetDictionary();
    auto type = d.FindKey("Type");
    if (!type || !type->IsName()) c.fail("tree-type", "page tree node without /Type: " + refText(fromRef(node.GetIndirectReference())));
    auto p = d.GetKey("Parent");
    if (parent)
    {
        if (!p || !p->IsReference() || p->GetReference() != parent->GetIndirectReference())
            c.fail("tree-parent", refText(fromRef(node.GetIndirectReference())) + " is not the child of its /Parent");
    }
    if (type->GetName() == "Page") { out.push_back(&node); return; }
    auto from = out.size();
    auto kids = d.FindKey("Kids");
    if (!kids || !kids->IsArray()) c.fail("tree-kids", "page tree node without /Kids");
    for (auto& k : kids->GetArray())
    {
        const PdfObject* o = k.IsReference() ? doc.GetObjects().GetObject(k.GetReference()) : nullptr;
        if (!o || !o->IsDictionary()) c.fail("tree-kids", "a kid of the page tree does not exist");
        leaves(doc, *o, &node, out, depth + 1);
    }
    auto count = d.FindKey("Count");
    int64_t n = count && count->IsNumber() ? count->GetNumber() : -1;
    if (n != (int64_t)(out.size() - from)) c.fail("tree-count", strf("node %s has /Count %lld but %zu pages", refText(fromRef(node.GetIndirectReference())).c_str(), (long long)n, out.size() - from));
}

bool sameBox(const PdfRect& r, const int* b)
{
    return abs(r.GetLeft() - b[0]) < 0.01 && abs(r.GetBottom() - b[1]) < 0.01 && abs(r.GetWidth() - b[2]) < 0.01 && abs(r.GetHeight() - b[3]) < 0.01;
}
string rectText(const PdfRect& r) { return strf("[%g %g %g %g]", r.GetLeft(), r.GetBottom(), r.GetWidth(), r.GetHeight()); }

void verifyPage(PdfMemDocument& doc, PdfPage& page, const MPage& m, unsigned i, const string& where)
{
    auto& c = ctx();
    string w = where + strf(": page %u", i);
    if (idOf(page.GetObject()) != m.id) c.fail("page-order", w + strf(" is %lld, expected %d", (long long)idOf(page.GetObject()), m.id));
    if (page.GetIndex() != i || page.GetPageNumber() != i + 1) c.fail("page-index", w + strf(" has index %u and number %u", page.GetIndex(), page.GetPageNumber()));
    auto box = page.GetMediaBox();
    if (!sameBox(box, m.box)) c.fail("media-box", w + " has media box " + rectText(box) + strf(", expected [%d %d %d %d]", m.box[0], m.box[1], m.box[2], m.box[3]));
    auto crop = page.GetCropBox();
    bool cropOk = sameBox(crop, m.crop ? m.cbox : m.box);
    if (!cropOk && !m.crop && page.GetDictionary().HasKey("CropBox")) for (auto& b : m.before) if (sameBox(crop, b.data())) cropOk = true;
    if (!cropOk) c.fail("crop-box", w + " has crop box " + rectText(crop));
    int rot = page.GetRotationRaw();
    if (rot != m.rot) c.fail("rotation", w + strf(" has rotation %d, expected %d", rot, m.rot));
    auto r = inherited(page.GetObject(), "Resources");
    int64_t mark = -1;
    if (r && r->IsDictionary() && r->GetDictionary().FindKey("SimRes")) mark = r->GetDictionary().FindKey("SimRes")->GetNumber();
    if (mark != m.res) c.fail("resources", w + strf(" has resources %lld, expected %d", (long long)mark, m.res));
    mark = -1;
    auto pr = page.GetResources();
    if (pr && pr->GetDictionary().FindKey("SimRes")) mark = pr->GetDictionary().FindKey("SimRes")->GetNumber();
    if (mark != m.res) c.fail("resources", w + strf(" gives resources %lld, expected %d", (long long)mark, m.res));
    sameOps("page-content", w, m.content, contentOf(doc, page.GetObject()));
}

void verifyPages(PdfMemDocument& doc, const vector<MPage>& model, const string& where, uint64_t order = 0)
{
    auto& c = ctx();
    auto& pages = doc.GetPages();
    if (pages.GetCount() != model.size()) c.fail("page-count", where + strf(": %u pages, expected %zu", pages.GetCount(), model.size()));
    Rng rng(order);
    for (unsigned k = 0; k < model.size(); k++)
    {
        unsigned i = order & 1 ? k : order & 2 ? (unsigned)model.size() - 1 - k : (unsigned)rng.below(model.size());
        if (!(order & 3) && k > 8) break;
        auto& page = pages.GetPageAt(i);
        verifyPage(doc, page, model[i], i, where);
        auto& again = pages.GetPage(page.GetObject().GetIndirectReference());
        if (&again != &page || again.GetIndex() != i) c.fail("page-by-reference", where + strf(": page %u found by its reference is page %u", i, again.GetIndex()));
    }
    try { (void)pages.GetPageAt((unsigned)model.size()); c.fail("page-beyond", where + ": there is a page after the last one"); }
    catch (PdfError&) { }
}

void verifyTree(PdfMemDocument& doc, const vector<MPage>& model, const string& where)
{
    vector<const PdfObject*> l;
    auto root = doc.GetCatalog().GetDictionary().FindKey("Pages");
    if (!root) ctx().fail("tree-root", where + ": no page tree");
    leaves(doc, *root, nullptr, l, 0);
    if (l.size() != model.size()) ctx().fail("tree-order", where + strf(": page tree has %zu pages, expected %zu", l.size(), model.size()));
    for (size_t i = 0; i < l.size(); i++)
        if (idOf(*l[i]) != model[i].id) ctx().fail("tree-order", where + strf(": page %zu of the tree is %lld, expected %d", i, (long long)idOf(*l[i]), model[i].id));
}

// A document and the bytes it was last stored in
struct Store
{
    unique_ptr<PdfMemDocument> doc;
    string bytes;
    bool stored = false;
    void fresh() { doc = make_unique<PdfMemDocument>(); stored = false; }
    void load(const string& b, DevOpts dev) { bytes = b; doc = loadDoc(bytes, {}, dev); stored = true; }
    bool store(const Op& op)     // "save", "update", "reload"
    {
        auto& c = ctx();
        if (op.k == "save" || (op.k == "update" && !stored))
        {
            c.setStage("save");
            auto out = make_shared<string>();
            SimDevice d(out, DeviceAccess::ReadWrite, devOpts(op.u(1)));
            doc->Save(d, saveOpts(op.u(0)));
            bytes = *out; stored = false;
            c.probe("save");
        }
        else if (op.k == "update")
        {
            c.setStage("update");
            auto out = make_shared<string>(bytes);
            SimDevice d(out, DeviceAccess::ReadWrite, devOpts(op.u(1)));
            doc->SaveUpdate(d, saveOpts(op.u(0)));
            if (out->compare(0, bytes.size(), bytes) != 0) c.fail("append-only", "an update changed earlier bytes");
            bytes = *out;
            c.probe("update");
        }
        else if (op.k == "reload")
        {
            c.setStage("reload");
            if (!stored)
            {
                auto out = make_shared<string>();
                SimDevice d(out, DeviceAccess::ReadWrite, {});
                doc->Save(d, saveOpts(op.u(0)));
                bytes = *out;
            }
            else
            {
                auto out = make_shared<string>(bytes);
                SimDevice d(out, DeviceAccess::ReadWrite, {});
                doc->SaveUpdate(d, saveOpts(op.u(0)));
                bytes = *out;
            }
            doc.reset();
            doc = loadDoc(bytes, {}, devOpts(op.u(1)));
            stored = true;
            if (c.verbose) writeFile("/tmp/sim-dump.pdf", bytes);
            c.probe("reload");
        }
        else return false;
        c.ev("store", (int64_t)hashBytes(bytes));
        return true;
    }
};

void addStoreOp(Rng& rng, Plan& p)
{
    auto x = rng.below(5);
    p.add(x == 0 ? "save" : x == 1 ? "update" : "reload", { (int64_t)rng.below(8), big(rng) });
}

// ---------------------------------------------------------------- C14
void gen14(Rng& rng, Plan& p)
{
    p.cfg["start"] = rng.chance(1, 5) ? 0 : 1;
    p.cfg["n"] = rng.chance(1, 12) ? rng.skew(150) : (int64_t)rng.below(14);
    p.cfg["tree"] = big(rng);
    p.cfg["dev"] = big(rng);
    auto n = 2 + rng.below(rng.chance(1, 3) ? 50 : 14);
    for (uint64_t i = 0; i < n; i++)
        switch (rng.below(16))
        {
            case 0: case 1: p.add("create", { big(rng) }); break;
            case 2: case 3: p.add("createat", { big(rng), big(rng) }); break;
            case 4: case 5: p.add("remove", { big(rng) }); break;
            case 6: case 7: case 8: p.add("move", { big(rng), big(rng), (int64_t)rng.below(8) }); break;
            case 9: p.add("box", { big(rng), big(rng) }); break;
            case 10: p.add("rotate", { big(rng), (int64_t)rng.below(4) }); break;
            case 11: p.add("import", { big(rng), big(rng), (int64_t)rng.below(6), (int64_t)rng.below(3), big(rng) }); break;
            case 12: p.add("touch", { big(rng) }); break;
            case 13: p.add("content", { big(rng), big(rng) }); break;
            default: addStoreOp(rng, p); break;
        }
    p.add("reload", { (int64_t)rng.below(8), big(rng) });
}

void run14(const Plan& p)
{
    auto& c = ctx();
    Store st;
    vector<MPage> model;
    int nextId = 1;
    map<int, PdfPage*> held;
    if (p.c("start") == 0) st.fresh();
    else
    {
        auto t = makeTree(p.u("tree"), (int)p.c("n"), nextId, { false, true });
        model = t.pages;
        nextId += (int)model.size();
        if (c.verbose) writeFile("/tmp/sim-tree.pdf", t.bytes);
        st.load(t.bytes, devOpts(p.u("dev")));
    }
    auto sel = [&](uint64_t x) { return model.empty() ? 0u : (unsigned)(x % model.size()); };
    auto setNew = [&](PdfPage& page, uint64_t seed) {
        MPage m;
        m.id = nextId++;
        Rng r(seed);
        m.box[0] = (int)r.below(20); m.box[1] = (int)r.below(20); m.box[2] = 10 + (int)r.below(600); m.box[3] = 10 + (int)r.below(600);
        page.GetDictionary().AddKey("SimId", PdfObject((int64_t)m.id));
        if (r.chance(1, 2))
        {
            m.content = strf("%d %d m %d 0 l S", m.id, (int)r.below(99), (int)r.below(99));
            page.GetOrCreateContents().GetStreamForAppending().SetData(bufferview(m.content.data(), m.content.size()));
            m.content += "\n";
        }
        return m;
    };
    auto newBox = [&](uint64_t seed) { Rng r(seed); int a = (int)r.below(20), b = (int)r.below(20), w = 10 + (int)r.below(600), h = 10 + (int)r.below(600); return PdfRect(a, b, w, h); };
    unsigned opNo = 0;
    for (auto& op : p.ops)
    {
        opNo++;
        auto& pages = st.doc->GetPages();
        string where = strf("after operation %u (%s)", opNo, op.k.c_str());
        c.setStage(op.k);
        c.ev(op.k.c_str(), op.at(0), op.at(1), op.at(2));
        if (st.store(op)) { if (op.k == "reload") held.clear(); }
        else if (op.k == "create")
        {
            auto& page = pages.CreatePage(newBox(op.u(0)));
            model.push_back(setNew(page, op.u(0)));
            held[model.back().id] = &page;
        }
        else if (op.k == "createat")
        {
            unsigned at = (unsigned)(op.u(1) % (model.size() + 1));
            auto& page = pages.CreatePageAt(at, newBox(op.u(0)));
            auto m = setNew(page, op.u(0));
            held[m.id] = &page;
            model.insert(model.begin() + at, m);
        }
        else if (op.k == "remove")
        {
            if (model.empty()) continue;
            unsigned i = sel(op.u(0));
            pages.RemovePageAt(i);
            held.erase(model[i].id);
            model.erase(model.begin() + i);
        }
        else if (op.k == "move")
        {
            if (model.empty()) continue;
            unsigned i = sel(op.u(0)), to = sel(op.u(1));
            if (op.u(2) == 0) to = (unsigned)model.size() + (unsigned)(op.u(1) % 3);   // beyond the end: the last place
            if (op.u(2) == 1) to = 0;
            pages.GetPageAt(i).MoveAt(to);
            if (to >= model.size()) to = (unsigned)model.size() - 1;
            auto m = model[i];
            model.erase(model.begin() + i);
            model.insert(model.begin() + to, m);
        }
        else if (op.k == "box")
        {
            if (model.empty()) continue;
            unsigned i = sel(op.u(0));
            auto b = newBox(op.u(1));
            pages.GetPageAt(i).SetMediaBox(b);
            model[i].before.push_back({ model[i].box[0], model[i].box[1], model[i].box[2], model[i].box[3] });
            model[i].box[0] = (int)b.GetLeft(); model[i].box[1] = (int)b.GetBottom(); model[i].box[2] = (int)b.GetWidth(); model[i].box[3] = (int)b.GetHeight();
        }
        else if (op.k == "rotate")
        {
            if (model.empty()) continue;
            unsigned i = sel(op.u(0));
            pages.GetPageAt(i).SetRotationRaw((int)op.at(1) * 90);
            model[i].rot = (int)op.at(1) * 90;
        }
        else if (op.k == "content")
        {
            if (model.empty()) continue;
            unsigned i = sel(op.u(0));
            auto s = strf("%d 7 m 9 9 l S", (int)(op.u(1) % 1000));
            pages.GetPageAt(i).GetOrCreateContents().GetStreamForAppending(PdfStreamAppendFlags::NoSaveRestorePrior).SetData(bufferview(s.data(), s.size()));
            model[i].content += s + "\n";
        }
        else if (op.k == "import")
        {
            auto t = makeTree(op.u(0), (int)op.at(2), nextId, { false, true });
            nextId += (int)t.pages.size();
            auto src = loadDoc(t.bytes, {}, devOpts(op.u(4)));
            auto n = t.pages.size();
            if (op.at(3) == 0) { pages.AppendDocumentPages(*src); model.insert(model.end(), t.pages.begin(), t.pages.end()); }
            else if (n && op.at(3) == 1)
            {
                auto a = op.u(1) % n, k = 1 + (op.u(1) >> 8) % (n - a);
                pages.AppendDocumentPages(*src, (unsigned)a, (unsigned)k);
                model.insert(model.end(), t.pages.begin() + a, t.pages.begin() + a + k);
            }
            else if (n)
            {
                auto a = op.u(1) % n, at = (op.u(1) >> 8) % (model.size() + 1);
                pages.InsertDocumentPageAt((unsigned)at, *src, (unsigned)a);
                model.insert(model.begin() + at, t.pages[a]);
            }
            c.probe("import");
        }
        else if (op.k == "touch")
        {
            if (model.empty()) continue;
            unsigned i = sel(op.u(0));
            held[model[i].id] = &pages.GetPageAt(i);
        }
        // the structure first: looking at pages fills the library's page cache
        if (opNo % 3 == 0 || model.size() < 40) verifyTree(*st.doc, model, where);
        for (unsigned i = 0; i < model.size(); i++)
        {
            auto h = held.find(model[i].id);
            if (h != held.end() && (h->second->GetIndex() != i || idOf(h->second->GetObject()) != model[i].id))
                c.fail("held-page", where + strf(": the page object held for page %u says it is page %u", i, h->second->GetIndex()));
        }
        if (opNo % 4 == 1 || model.size() < 12) verifyPages(*st.doc, model, where, op.u(0) ^ opNo);
        string sig; for (auto& m : model) sig += strf("%d,", m.id);
        c.state(hashBytes(sig));
    }
    verifyPages(*st.doc, model, "at the end", 1);
    c.probe("histories");
}
Register r14({ "C14", "pages", 1, 6000, gen14, run14 });

// ---------------------------------------------------------------- C15
// Everything reachable from a page as text, objects numbered in the order they are met
struct Grapher
{
    PdfMemDocument& doc;
    map<Ref, int> seen;
    vector<const PdfObject*> queue;
    string out;
    explicit Grapher(PdfMemDocument& d) : doc(d) { }
    void val(const Val& v, bool top = false)
    {
        switch (v.t)
        {
            case VT::Ref: ref(v.ref); break;
            case VT::Arr: out += "["; for (auto& e : v.arr) { val(e); out += " "; } out += "]"; break;
            case VT::Dict:
                out += "{";
                for (auto& p : v.dict)
                {
                    if (top && (p.first == "Length" || p.first == "Filter" || p.first == "DecodeParms")) continue;
                    out += p.first + "="; val(p.second); out += " ";
                }
                out += "}";
                break;
            default: canonTo(out, v); break;
        }
    }
    void ref(Ref r)
    {
        auto o = doc.GetObjects().GetObject(toRef(r));
        if (!o || o->IsNull()) { out += "n"; return; }
        if (o->IsReference()) { ref(fromRef(o->GetReference())); return; }
        auto it = seen.find(r);
        if (it != seen.end()) { out += strf("#%d", it->second); return; }
        int n = (int)seen.size();
        seen[r] = n;
        queue.push_back(o);
        out += strf("#%d", n);
    }
    void drain()
    {
        for (size_t i = 0; i < queue.size(); i++)
        {
            auto o = queue[i];
            out += strf("\n#%zu ", i + 1);
            if (o->IsDictionary() && o->GetDictionary().HasKey("SimId")) { out += strf("page %lld", (long long)idOf(*o)); continue; }
            auto v = fromPdf(*o);
            if (v.t == VT::Dict && v.dict.count("Type") && v.dict["Type"].s == "Pages") { out += "pages"; continue; }
            val(v, o->HasStream());
            if (o->HasStream()) { auto d = streamData(*o); out += strf(" stream %zu %016llx", d.size(), (unsigned long long)hashBytes(d)); }
        }
    }
};

string valText(const PdfObject* o) { if (!o) return ""; if (o->IsArray()) { string s; for (auto& e : o->GetArray()) s += canon(e) + " "; return s; } return canon(*o); }

string pageGraph(PdfMemDocument& doc, const PdfObject& page)
{
    Grapher g(doc);
    g.seen[fromRef(page.GetIndirectReference())] = 0;
    auto v = fromPdf(page);
    v.dict.erase("Parent");
    v.dict.erase("Rotate"); v.dict.erase("CropBox"); v.dict.erase("MediaBox"); v.dict.erase("Resources");
    auto media = valText(inherited(page, "MediaBox")), crop = valText(inherited(page, "CropBox"));
    auto rot = valText(inherited(page, "Rotate"));
    g.out = "media " + media + " crop " + (crop.empty() ? media : crop) + " rotate " + (rot.empty() ? "i0" : rot) + "\n";
    auto res = inherited(page, "Resources");
    if (res) { auto r = fromPdf(*res); if (!r.dict.empty()) g.val(r); else g.out += "-"; } else g.out += "-";
    g.out += "\n";
    g.val(v);
    g.drain();
    return g.out;
}

string graphDiff(const string& a, const string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t f = i > 40 ? i - 40 : 0;
    return "expected ..." + a.substr(f, 160) + "... found ..." + b.substr(f, 160) + "...";
}

struct Form { Ref ref; string content; string res; };

void gen15(Rng& rng, Plan& p)
{
    p.cfg["n"] = 1 + (int64_t)rng.below(rng.chance(1, 8) ? 30 : 6);
    p.cfg["tree"] = big(rng);
    p.cfg["srcdev"] = big(rng);
    p.cfg["dst"] = (int64_t)rng.below(8);
    p.cfg["dsttree"] = big(rng);
    p.cfg["touch"] = (int64_t)rng.below(4);
    p.cfg["faulty"] = rng.chance(1, 3);
    auto n = 1 + rng.below(8);
    for (uint64_t i = 0; i < n; i++)
        switch (rng.below(12))
        {
            case 0: case 1: case 2: case 3: p.add("import", { (int64_t)rng.below(6), big(rng), big(rng), rng.skew(200), (int64_t)rng.below(3) }); break;
            case 4: p.add("srcedit", { big(rng), big(rng) }); break;
            case 5: p.add("srcfree", { big(rng) }); break;
            case 6: p.add("srcremove", { big(rng) }); break;
            case 7: p.add("dstedit", { big(rng), big(rng) }); break;
            case 8: p.add("srcdrop"); break;
            case 9: p.add("srcsave", { (int64_t)rng.below(8) }); break;
            default: addStoreOp(rng, p); break;
        }
    if (rng.chance(1, 2)) p.add("srcdrop");
    p.add("reload", { (int64_t)rng.below(8), big(rng) });
}

void run15(const Plan& p)
{
    auto& c = ctx();
    auto t = makeTree(p.u("tree"), (int)p.c("n"), 1, { true, true });
    if (c.verbose) writeFile("/tmp/sim-src.pdf", t.bytes);
    auto dev = makeDevice(t.bytes, devOpts(p.u("srcdev")));
    auto src = make_unique<PdfMemDocument>();
    src->LoadFromDevice(dev);
    Store dst;
    vector<MPage> none;
    if (p.c("dst") < 4) dst.fresh();
    else { auto d = makeTree(p.u("dsttree"), (int)p.c("dst") - 3, 100000, { true, true }); dst.load(d.bytes, devOpts(p.u("dsttree"))); }
    vector<string> want, srcWant;
    vector<Form> forms;
    auto graphs = [&](PdfMemDocument& d) {
        vector<string> v;
        vector<const PdfObject*> l;
        leaves(d, *d.GetCatalog().GetDictionary().FindKey("Pages"), nullptr, l, 0);
        for (auto o : l) v.push_back(pageGraph(d, *o));
        return v;
    };
    // what the source holds, from an independent load of the same file
    map<int64_t, string> formContent;
    {
        auto ref = loadDoc(t.bytes);
        srcWant = graphs(*ref);
    }
    want = graphs(*dst.doc);
    auto verifyDst = [&](const string& where) {
        auto got = graphs(*dst.doc);
        if (got.size() != want.size()) c.fail("import-count", where + strf(": %zu pages, expected %zu", got.size(), want.size()));
        for (size_t i = 0; i < got.size(); i++)
            if (got[i] != want[i]) c.fail("import-content", where + strf(": page %zu differs: ", i) + graphDiff(want[i], got[i]));
        for (unsigned i = 0; i < want.size(); i++) (void)dst.doc->GetPages().GetPageAt(i).GetMediaBox();
        for (auto& f : forms)
        {
            auto o = dst.doc->GetObjects().GetObject(toRef(f.ref));
            if (!o || !o->IsDictionary()) c.fail("form-lost", where);
            sameOps("form-content", where + ": form", f.content, o->HasStream() ? streamData(*o) : string());
            Grapher g(*dst.doc);
            auto r = o->GetDictionary().FindKey("Resources");
            if (r) { auto v = fromPdf(*r); if (!v.dict.empty()) g.val(v); else g.out += "-"; } else g.out += "-";
            g.drain();
            if (g.out != f.res) c.fail("form-resources", where + ": " + graphDiff(f.res, g.out));
        }
    };
    auto verifySrc = [&](const string& where) {
        if (!src) return;
        auto got = graphs(*src);
        if (got.size() != srcWant.size()) c.fail("source-count", where + strf(": source has %zu pages, expected %zu", got.size(), srcWant.size()));
        for (size_t i = 0; i < got.size(); i++)
            if (got[i] != srcWant[i]) c.fail("source-changed", where + strf(": page %zu of the source differs: ", i) + graphDiff(srcWant[i], got[i]));
    };
    if (p.c("touch") == 0) verifySrc("before");
    unsigned opNo = 0;
    for (auto& op : p.ops)
    {
        opNo++;
        string where = strf("after operation %u (%s %lld)", opNo, op.k.c_str(), (long long)op.at(0));
        c.setStage(op.k);
        c.ev(op.k.c_str(), op.at(0), op.at(1), op.at(2));
        if (dst.store(op)) { if (op.k == "reload" && !(op.u(0) & 2)) forms.clear(); else if (op.k != "reload" && !(op.u(0) & 2)) forms.clear(); }
        else if (op.k == "import")
        {
            if (!src || srcWant.empty()) continue;
            auto n = srcWant.size();
            auto a = op.u(1) % n;
            int kind = (int)op.at(0);
            auto old = want;
            auto attempt = [&](PdfMemDocument& d, vector<string>& w, vector<Form>* fs) {
                auto& pages = d.GetPages();
                if (kind == 0) { pages.AppendDocumentPages(*src); w.insert(w.end(), srcWant.begin(), srcWant.end()); }
                else if (kind == 1)
                {
                    auto k = 1 + (op.u(1) >> 8) % (n - a);
                    pages.AppendDocumentPages(*src, (unsigned)a, (unsigned)k);
                    w.insert(w.end(), srcWant.begin() + a, srcWant.begin() + a + k);
                }
                else if (kind == 2 || kind == 3)
                {
                    auto at = op.u(2) % (w.size() + 1);
                    pages.InsertDocumentPageAt((unsigned)at, *src, (unsigned)a);
                    w.insert(w.begin() + at, srcWant[a]);
                }
                else if (kind == 4)
                {
                    auto form = d.CreateXObjectForm(PdfRect(0, 0, 10, 10));
                    auto& page = src->GetPages().GetPageAt((unsigned)a);
                    form->FillFromPage(page);
                    if (fs)
                    {
                        Form f;
                        f.ref = fromRef(form->GetObject().GetIndirectReference());
                        bool en = dev->faults.enabled; dev->faults.enabled = false;
                        f.content = contentOf(*src, page.GetObject());
                        Grapher g(*src);
                        auto r = inherited(page.GetObject(), "Resources");
                        if (r) { auto v = fromPdf(*r); if (!v.dict.empty()) g.val(v); else g.out += "-"; } else g.out += "-";
                        g.drain();
                        f.res = g.out;
                        dev->faults.enabled = en;
                        fs->push_back(f);
                    }
                }
                else
                {
                    PdfMemDocument copy(*src);
                    auto got = graphs(copy);
                    if (got != srcWant)
                    {
                        for (size_t i = 0; i < got.size() && i < srcWant.size(); i++) if (got[i] != srcWant[i]) c.fail("copy-content", where + strf(": page %zu of the copied document differs: ", i) + graphDiff(srcWant[i], got[i]));
                        c.fail("copy-content", where + ": copied document differs");
                    }
                    // changing the copy must not show in the source
                    if (copy.GetPages().GetCount()) copy.GetPages().GetPageAt(0).SetRotationRaw(270);
                    if (copy.GetPages().GetCount() > 1) copy.GetPages().RemovePageAt(1);
                }
            };
            bool ok = true;
            if (p.c("faulty") && op.at(4))
            {
                dev->faults.clear();
                dev->faults.faults.push_back({ Io::Read, op.u(3), Eff::Error, 0, op.at(4) == 2 });
            }
            try { attempt(*dst.doc, want, &forms); }
            catch (std::exception& e)
            {
                ok = false;
                bool fired = dev->faults.fired > 0;
                dev->faults.clear();
                if (!fired) throw;
                c.probe("import-failed");
                // what the target held before is still there, in order
                want = old;
                auto got = graphs(*dst.doc);
                size_t j = 0;
                for (size_t i = 0; i < got.size() && j < old.size(); i++) if (got[i] == old[j]) j++;
                if (j != old.size()) c.fail("import-damage", where + strf(": after a failed import page %zu of the target is gone or changed", j));
                // and the source is intact: doing it again elsewhere works
                verifySrc(where + " failed");
                PdfMemDocument other;
                vector<string> w;
                attempt(other, w, nullptr);
                auto again = graphs(other);
                if (again != w) c.fail("retry-content", where + ": importing again after a read error gives other content");
                if (got.size() != old.size()) return;
            }
            if (ok) c.probe("import-ok");
            dev->faults.clear();
            verifySrc(where);
        }
        else if (op.k == "srcedit" || op.k == "dstedit")
        {
            bool s = op.k == "srcedit";
            auto d = s ? src.get() : dst.doc.get();
            auto& w = s ? srcWant : want;
            if (!d || w.empty()) continue;
            // change something behind a page
            vector<const PdfObject*> l;
            leaves(*d, *d->GetCatalog().GetDictionary().FindKey("Pages"), nullptr, l, 0);
            auto page = l[op.u(0) % l.size()];
            Grapher g(*d);
            g.seen[fromRef(page->GetIndirectReference())] = 0;
            g.val(fromPdf(*page));
            g.drain();
            vector<PdfObject*> cand{ const_cast<PdfObject*>(page) };
            for (auto o : g.queue) if (o->IsDictionary() && !o->GetDictionary().HasKey("SimId") && !(o->GetDictionary().HasKey("Type") && o->GetDictionary().FindKey("Type")->GetName() == "Pages")) cand.push_back(const_cast<PdfObject*>(o));
            auto o = cand[op.u(1) % cand.size()];
            if (o->HasStream() && op.u(1) % 3)
            {
                auto data = strf("%d 0 m 9 9 l S", (int)(op.u(1) % 1000));
                o->GetOrCreateStream().SetData(bufferview(data.data(), data.size()));
            }
            else o->GetDictionary().AddKey("SimEdit", PdfObject((int64_t)op.u(1)));
            auto before = w;
            w = graphs(*d);
            c.probe("edits");
            // forms of the target share objects with its pages only through the import's copy
            if (!s) forms.clear();
        }
        else if (op.k == "srcfree")
        {
            if (!src) continue;
            unsigned k = 0;
            for (auto o : src->GetObjects()) if ((op.u(0) >> (k++ % 20)) & 1) if (auto po = dynamic_cast<PdfParserObject*>(o)) po->FreeObjectMemory(false);
        }
        else if (op.k == "srcremove")
        {
            if (!src || srcWant.empty()) continue;
            auto i = op.u(0) % srcWant.size();
            src->GetPages().RemovePageAt((unsigned)i);
            srcWant.erase(srcWant.begin() + i);
        }
        else if (op.k == "srcsave")
        {
            if (!src) continue;
            auto out = make_shared<string>();
            SimDevice d(out, DeviceAccess::ReadWrite, {});
            src->Save(d, saveOpts(op.u(0)));
        }
        else if (op.k == "srcdrop")
        {
            if (src) { src.reset(); dev->data->assign(dev->data->size(), 'x'); dev.reset(); c.probe("source-destroyed"); }
            if (!dev) dev = makeDevice("");
        }
        verifyDst(where);
        verifySrc(where);
        string sig; for (auto& g : want) sig += g;
        c.state(hashBytes(sig));
    }
    c.probe("histories");
}
Register r15({ "C15", "import", 1, 6000, gen15, run15 });

// ---------------------------------------------------------------- C21
void gen21(Rng& rng, Plan& p)
{
    p.cfg["start"] = rng.chance(1, 3) ? 0 : 1;
    p.cfg["n"] = 1 + (int64_t)rng.below(4);
    p.cfg["tree"] = big(rng);
    p.cfg["dev"] = big(rng);
    auto n = 2 + rng.below(rng.chance(1, 3) ? 25 : 10);
    for (uint64_t i = 0; i < n; i++)
        switch (rng.below(14))
        {
            case 0: p.add("newpage"); break;
            case 1: p.add("append", { big(rng), (int64_t)rng.below(4), big(rng) }); break;
            case 2: p.add("form", { big(rng) }); break;
            case 3: p.add("paintform", { big(rng), (int64_t)rng.below(8), big(rng), 1 + (int64_t)rng.below(6) }); break;
            case 4: p.add("icc", { big(rng), big(rng) }); break;
            case 5: p.add("reset", { big(rng) }); break;
            case 6: case 7: addStoreOp(rng, p); break;
            default: p.add("paint", { big(rng), (int64_t)rng.below(8), big(rng), 1 + (int64_t)rng.below(8), rng.chance(1, 4) ? 1 + big(rng) : 0, big(rng) }); break;
        }
    p.add("reload", { (int64_t)rng.below(8), big(rng) });
}

struct DForm { unique_ptr<PdfXObjectForm> form; Ref ref; string content; bool used = false; };

void run21(const Plan& p)
{
    auto& c = ctx();
    Store st;
    vector<MPage> model;
    int nextId = 1;
    if (p.c("start") == 0) { st.fresh(); }
    else
    {
        auto t = makeTree(p.u("tree"), (int)p.c("n"), nextId, { false, true });
        model = t.pages;
        nextId += (int)model.size();
        if (c.verbose) writeFile("/tmp/sim-tree.pdf", t.bytes);
        st.load(t.bytes, devOpts(p.u("dev")));
    }
    vector<DForm> forms;
    map<int, set<pair<string, string>>> iccs;
    auto newPage = [&] {
        auto& page = st.doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100));
        MPage m; m.id = nextId++;
        page.GetDictionary().AddKey("SimId", PdfObject((int64_t)m.id));
        model.push_back(m);
    };
    if (model.empty()) newPage();
    auto wrapPrior = [](string s) { return operators(s).empty() && tokens(s).empty() ? s : "q\n" + s + "\nQ\n"; };
    auto empty = [](const string& s) { return s.find_first_not_of("\n") == string::npos; };
    // draw and return what has to appear
    auto draw = [&](PdfPainter& painter, uint64_t seed, int64_t n, bool onPage = true) {
        Rng r(seed);
        string s;
        int depth = 0;
        for (int64_t i = 0; i < n; i++)
        {
            int a = (int)r.below(300), b = (int)r.below(300), d = (int)r.below(300), e = (int)r.below(300);
            switch (r.below(12))
            {
                case 0: painter.Save(); s += "q\n"; depth++; break;
                case 1: if (depth) { painter.Restore(); s += "Q\n"; depth--; } break;
                case 2: { double w = (double)r.below(4); painter.GetGraphicsState().SetLineWidth(w); s += strf("%g w\n", w); break; }
                case 3: { double g = r.below(3) / 2.0; painter.GetGraphicsState().SetStrokeColor(PdfColor(g)); s += strf("%g G\n", g); break; }
                case 4: { double x = r.below(2), y = r.below(2), z = r.below(2); painter.GetGraphicsState().SetFillColor(PdfColor(x, y, z)); s += strf("%g %g %g rg\n", x, y, z); break; }
                case 5: painter.Rectangle(a, b, d, e); painter.Fill(); s += strf("%d %d %d %d re f\n", a, b, d, e); break;
                case 6: painter.MoveTo(a, b); painter.LineTo(d, e); painter.Stroke(); s += strf("%d %d m %d %d l S\n", a, b, d, e); break;
                case 7:
                    if (!forms.empty())
                    {
                        auto& f = forms[a % forms.size()];
                        if (!f.form) break;
                        painter.DrawXObject(*f.form, b, d, 2, 3);
                        if (onPage) f.used = true;
                        s += strf("q 2 0 0 3 %d %d cm /%s Do Q\n", b, d, f.form->GetIdentifier().GetString().c_str());
                    }
                    break;
                case 8:
                {
                    auto font = st.doc->GetFonts().GetStandard14Font((PdfStandard14FontType)(1 + a % 4));
                    painter.GetTextState().SetFont(*font, 10);
                    painter.DrawText(strf("T%d", b), d, e);
                    s += strf("BT /%s 10 Tf %d %d Td <%02x> Tj ET\n", font->GetIdentifier().GetString().c_str(), d, e, b);
                    break;
                }
                case 9: painter.BeginMarkedContext(strf("M%d", a)); painter.DrawLine(a, b, d, e); painter.EndMarkedContext(); s += strf("/M%d BMC %d %d m %d %d l S EMC\n", a, a, b, d, e); break;
                default: painter.DrawLine(a, b, d, e); s += strf("%d %d m %d %d l S\n", a, b, d, e); break;
            }
        }
        while (depth--) { painter.Restore(); s += "Q\n"; }
        return s;
    };
    auto combine = [&](string& content, const string& session, int64_t flags) {
        if (session.empty()) return;
        string s = flags & 4 ? session : "q\n" + session + "Q\n";
        string prior = content;
        if (!(flags & 2) && !empty(prior)) prior = "q\n" + prior + "\nQ\n";
        content = flags & 1 ? s + prior : prior + s;
    };
    (void)wrapPrior;
    // strings of the text operators depend on the font's encoding: compare their presence only
    auto plain = [](const string& s) {
        string r;
        size_t i = 0;
        bool bt = false;
        for (auto& t : tokens(s))
        {
            if (t == "BT") bt = true;
            if (t == "ET") bt = false;
            if (bt && (t[0] == '(' || t[0] == '<') && t != "<<") r += "/STR "; else r += t + " ";
            i++;
        }
        return r;
    };
    auto verify = [&](const string& where) {
        auto& doc = *st.doc;
        auto& pages = doc.GetPages();
        if (pages.GetCount() != model.size()) c.fail("page-count", where);
        for (unsigned i = 0; i < model.size(); i++)
        {
            auto& page = pages.GetPageAt(i);
            auto w = where + strf(": page %u", i);
            if (idOf(page.GetObject()) != model[i].id) c.fail("page-order", w);
            auto got = contentOf(doc, page.GetObject());
            sameOps("drawn-content", w, plain(model[i].content), plain(got));
            if (auto contents = page.GetContents())
            {
                auto copy = contents->GetCopy();
                sameOps("content-copy", w + " (content as the library reads it)", plain(model[i].content), plain(string(copy.data(), copy.size())));
            }
            else if (!empty(model[i].content)) c.fail("content-missing", w + " has no content object");
            set<pair<string, string>> names;
            operators(got, &names);
            if (iccs.count(model[i].id)) for (auto& x : iccs[model[i].id]) names.insert(x);
            auto res = inherited(page.GetObject(), "Resources");
            for (auto& n : names)
            {
                const PdfObject* cat = res && res->IsDictionary() ? res->GetDictionary().FindKey(n.first) : nullptr;
                const PdfObject* o = cat && cat->IsDictionary() ? cat->GetDictionary().FindKey(n.second) : nullptr;
                if (model[i].res < 0 && (n.second == "Im0" || n.second == "F0")) continue;   // the producer's page had none
                if (!o || o->IsNull()) c.fail("resource-missing", w + " names " + n.first + " /" + n.second + ", which its resources do not have");
                if (page.GetFromResources(n.first, n.second) == nullptr) c.fail("resource-missing", w + " does not find " + n.first + " /" + n.second);
            }
            if (model[i].res >= 0)
            {
                auto k = res && res->IsDictionary() ? res->GetDictionary().FindKey("SimRes") : nullptr;
                if (!k || k->GetNumber() != model[i].res) c.fail("resources-replaced", w + " lost the resources it had");
            }
        }
        for (auto& f : forms)
        {
            auto o = doc.GetObjects().GetObject(toRef(f.ref));
            if (!o) { if (f.used || f.form) c.fail("form-lost", where); continue; }
            if (!f.form && !f.used) continue;
            auto got = o->HasStream() ? streamData(*o) : string();
            sameOps("form-content", where + ": form", plain(f.content), plain(got));
            set<pair<string, string>> names;
            operators(got, &names);
            auto res = o->GetDictionary().FindKey("Resources");
            for (auto& n : names)
            {
                const PdfObject* cat = res && res->IsDictionary() ? res->GetDictionary().FindKey(n.first) : nullptr;
                if (!cat || !cat->IsDictionary() || !cat->GetDictionary().FindKey(n.second)) c.fail("resource-missing", where + ": a form names " + n.first + " /" + n.second + ", which its resources do not have");
            }
        }
    };
    unsigned opNo = 0;
    for (auto& op : p.ops)
    {
        opNo++;
        string where = strf("after operation %u (%s)", opNo, op.k.c_str());
        c.setStage(op.k);
        c.ev(op.k.c_str(), op.at(0), op.at(1), op.at(2));
        auto sel = [&](uint64_t x) { return (unsigned)(x % model.size()); };
        if (op.k == "save" || op.k == "update" || op.k == "reload")
        {
            // garbage collection may take forms nothing uses
            if (!(op.u(0) & 2)) for (auto it = forms.begin(); it != forms.end();) { if (!it->used) it = forms.erase(it); else ++it; }
            if (op.k == "reload") for (auto& f : forms) f.form.reset();
            // fonts are finished by a save: they can not be drawn with in the same session of the library
            st.store(op);
        }
        else if (op.k == "newpage") newPage();
        else if (op.k == "append")
        {
            auto i = sel(op.u(0));
            auto s = strf("%d 1 m 2 2 l S", (int)(op.u(2) % 1000));
            auto& page = st.doc->GetPages().GetPageAt(i);
            page.GetOrCreateContents().GetStreamForAppending((PdfStreamAppendFlags)op.at(1)).SetData(bufferview(s.data(), s.size()));
            combine(model[i].content, s + "\n", op.at(1) | 4);
        }
        else if (op.k == "form")
        {
            DForm f;
            f.form = st.doc->CreateXObjectForm(PdfRect(0, 0, 50, 50));
            f.ref = fromRef(f.form->GetObject().GetIndirectReference());
            forms.push_back(move(f));
        }
        else if (op.k == "paintform")
        {
            if (forms.empty()) continue;
            auto& f = forms[op.u(0) % forms.size()];
            if (!f.form) continue;
            auto keep = move(f.form);     // not drawn into itself
            auto idx = op.u(0) % forms.size();
            PdfPainter painter((PdfPainterFlags)(op.at(1) & 6));
            painter.SetCanvas(*keep);
            auto s = draw(painter, op.u(2), op.at(3), false);
            painter.FinishDrawing();
            forms[idx].form = move(keep);
            combine(forms[idx].content, s, op.at(1) & 6);
            c.probe("form-sessions");
        }
        else if (op.k == "icc")
        {
            auto i = sel(op.u(0));
            string data = "not really a profile";
            SimInput in(data);
            auto tag = strf("CS%d", (int)(op.u(1) % 3));
            st.doc->GetPages().GetPageAt(i).SetICCProfile(tag, in, 3);
            iccs[model[i].id].insert({ "ColorSpace", tag });
            if (model[i].res < 0) { }
        }
        else if (op.k == "reset")
        {
            // replaced explicitly
            auto i = sel(op.u(0));
            auto& page = st.doc->GetPages().GetPageAt(i);
            page.GetOrCreateContents().Reset();
            model[i].content.clear();
        }
        else if (op.k == "paint")
        {
            PdfPainter painter((PdfPainterFlags)op.at(1));
            auto i = sel(op.u(0));
            painter.SetCanvas(st.doc->GetPages().GetPageAt(i));
            auto s = draw(painter, op.u(2), op.at(3));
            if (op.at(4))
            {
                auto j = sel(op.u(4));
                if (j != i)
                {
                    painter.SetCanvas(st.doc->GetPages().GetPageAt(j));
                    combine(model[i].content, s, op.at(1));
                    s = draw(painter, op.u(5), op.at(3));
                    i = j;
                    c.probe("two-canvases");
                }
            }
            painter.FinishDrawing();
            combine(model[i].content, s, op.at(1));
            c.probe("sessions");
        }
        verify(where);
        string sig; for (auto& m : model) sig += m.content + "|";
        c.state(hashBytes(sig));
    }
    c.probe("histories");
}
Register r21({ "C21", "paint", 1, 5000, gen21, run21 });

} // namespace
