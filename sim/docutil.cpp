#include "docutil.h"
#include <cmath>
#include <algorithm>
#include <zlib.h>

using namespace std;
using namespace mm;

namespace sim {

// ---------------------------------------------------------------- values
string randomBytes(Rng& rng, size_t n, int kind)
{
    string s;
    s.reserve(n);
    static const char* words[] = { "endobj", "stream", "endstream", "obj", "1 0 R", "<<", ">>", "(", ")", "\\", "\r\n", "xref", "trailer", "%%EOF", "startxref", "/Length 3", "q", "Q", "BT", "ET", "0 0 m", "1 1 l S", "\n", " " };
    switch (kind)
    {
        case 0: for (size_t i = 0; i < n; i++) s.push_back((char)rng.below(256)); break;
        case 1: for (size_t i = 0; i < n; i++) s.push_back((char)(32 + rng.below(95))); break;
        case 2: { char c = (char)rng.below(256); while (s.size() < n) { size_t run = 1 + rng.skew(300); s.append(min(run, n - s.size()), c); if (rng.chance(1, 2)) c = (char)rng.below(256); } break; }
        case 3: s.assign(n, '\0'); break;
        default: while (s.size() < n) { s += words[rng.below(sizeof(words) / sizeof(*words))]; if (rng.chance(1, 2)) s += ' '; } s.resize(n); break;
    }
    return s;
}

string randomData(Rng& rng, size_t max) { auto n = (size_t)rng.skew((int64_t)max); return randomBytes(rng, n, (int)rng.below(5)); }

static string randomName(Rng& rng)
{
    if (rng.chance(2, 3)) return strf("K%d", (int)rng.below(12));
    // keys that mean something in other places are ordinary ones here
    static const char* known[] = { "Parent", "Kids", "Count", "First", "Last", "Next", "Prev", "Dest", "A", "AA", "P", "Contents", "Root", "Size", "Encrypt", "Metadata", "Pages",
        "Resources", "Subtype", "Index", "W", "N", "Extends", "XRefStm", "ID", "Info", "F", "FFilter", "Names", "Limits", "D", "DL", "BaseFont", "Font", "S", "Rotate", "R n", "obj", "endobj", "stream", "true", "null" };
    if (rng.chance(1, 4)) return known[rng.below(sizeof(known) / sizeof(*known))];
    string s;
    auto n = 1 + rng.below(6);
    for (uint64_t i = 0; i < n; i++)
    {
        int c = rng.chance(1, 2) ? (int)('a' + rng.below(26)) : (int)(1 + rng.below(255));
        s.push_back((char)c);
    }
    // keys with a meaning of their own to the file structure are left to the structure
    if (s == "Length" || s == "Type" || s == "Filter") s = "K0";
    return s;
}

Val randomDict(Rng& rng, const vector<Ref>& refs, int depth)
{
    Val v = Val::Dict();
    auto n = rng.skew(6);
    for (int64_t i = 0; i < n; i++) v.dict[randomName(rng)] = randomVal(rng, refs, depth - 1);
    return v;
}

Val randomVal(Rng& rng, const vector<Ref>& refs, int depth)
{
    Val v;
    switch (rng.below(depth > 0 ? 14 : 10))
    {
        case 0: v.t = VT::Null; break;
        case 1: v.t = VT::Bool; v.i = (int64_t)rng.below(2); break;
        case 2: v = Val::Int(rng.skew(1000)); if (rng.chance(1, 2)) v.i = -v.i; break;
        case 3: v = Val::Int((int64_t)(rng.next() >> rng.below(63))); if (rng.chance(1, 4)) v.i = -v.i; break;
        case 4: v.t = VT::Real; v.r = (double)rng.range(-400000, 400000) / (double)(1 << rng.below(7)); break;
        case 5: v = Val::Str(randomBytes(rng, (size_t)rng.skew(rng.chance(1, 8) ? 700 : 30), (int)rng.below(5)), rng.chance(1, 2)); break;
        case 6: v = Val::Str(randomBytes(rng, (size_t)rng.skew(20), 0), rng.chance(1, 2)); break;
        case 7: v = Val::Name(rng.chance(1, 20) ? string() : randomName(rng)); break;
        case 8:
        case 9:
            if (refs.empty()) v = Val::Int(7);
            else v = Val::R(rng.pick(refs));
            break;
        case 10:
        case 11:
        {
            v = Val::Arr();
            auto n = rng.skew(6);
            for (int64_t i = 0; i < n; i++) v.arr.push_back(randomVal(rng, refs, depth - 1));
            break;
        }
        default: v = randomDict(rng, refs, depth); break;
    }
    return v;
}

static string normBytes(const string& b);
static void canonReal(string& out, double d)
{
    if (d == std::floor(d) && std::fabs(d) < 1e15) out += strf("i%lld", (long long)d);
    else out += strf("r%.6f", d);
}
static void hexTo(string& out, string_view s)
{
    static const char* H = "0123456789abcdef";
    for (unsigned char c : s) { out += H[c >> 4]; out += H[c & 15]; }
}

void canonTo(string& out, const Val& v, bool streamDict)
{
    switch (v.t)
    {
        case VT::Null: out += "n"; break;
        case VT::Bool: out += v.i ? "b1" : "b0"; break;
        case VT::Int: out += strf("i%lld", (long long)v.i); break;
        case VT::Real: canonReal(out, v.r); break;
        case VT::Str: out += "s"; hexTo(out, normBytes(v.s)); break;
        case VT::Name: out += "/"; hexTo(out, v.s); break;
        case VT::Ref: out += strf("R%u.%u", v.ref.first, v.ref.second); break;
        case VT::Arr: out += "["; for (auto& e : v.arr) { canonTo(out, e); out += " "; } out += "]"; break;
        case VT::Dict:
            out += "{";
            for (auto& p : v.dict)
            {
                if (p.second.t == VT::Null) continue;
                if (streamDict && (p.first == "Length" || p.first == "Filter" || p.first == "DecodeParms")) continue;
                hexTo(out, p.first); out += "="; canonTo(out, p.second); out += " ";
            }
            out += "}";
            break;
    }
}
// ---------------------------------------------------------------- text strings
static const map<uint32_t, unsigned char>& docEnc()
{
    static map<uint32_t, unsigned char> m = [] {
        map<uint32_t, unsigned char> r;
        for (uint32_t i = 0x20; i < 0x7F; i++) r[i] = (unsigned char)i;
        for (uint32_t i : { 9u, 10u, 13u }) r[i] = (unsigned char)i;
        for (uint32_t i = 0xA1; i < 0x100; i++) if (i != 0xAD) r[i] = (unsigned char)i;
        const uint32_t a[] = { 0x02D8, 0x02C7, 0x02C6, 0x02D9, 0x02DD, 0x02DB, 0x02DA, 0x02DC };
        for (int i = 0; i < 8; i++) r[a[i]] = (unsigned char)(0x18 + i);
        const uint32_t b[] = { 0x2022, 0x2020, 0x2021, 0x2026, 0x2014, 0x2013, 0x0192, 0x2044, 0x2039, 0x203A, 0x2212, 0x2030, 0x201E, 0x201C, 0x201D, 0x2018,
            0x2019, 0x201A, 0x2122, 0xFB01, 0xFB02, 0x0141, 0x0152, 0x0160, 0x0178, 0x017D, 0x0131, 0x0142, 0x0153, 0x0161, 0x017E };
        for (int i = 0; i < 31; i++) r[b[i]] = (unsigned char)(0x80 + i);
        r[0x20AC] = 0xA0;
        return r;
    }();
    return m;
}
static vector<uint32_t> codePoints(const string& u)
{
    vector<uint32_t> r;
    for (size_t i = 0; i < u.size(); )
    {
        unsigned char c = (unsigned char)u[i];
        int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
        uint32_t v = n == 1 ? c : c & (0xFF >> (n + 1));
        for (int k = 1; k < n && i + k < u.size(); k++) v = v << 6 | ((unsigned char)u[i + k] & 0x3F);
        r.push_back(v);
        i += n;
    }
    return r;
}
string textBytes(const string& utf8)
{
    string r;
    auto cps = codePoints(utf8);
    bool ok = true;
    for (auto cp : cps) { auto it = docEnc().find(cp); if (it == docEnc().end()) { ok = false; break; } r.push_back((char)it->second); }
    if (ok) return r;
    r = "\xFE\xFF";
    auto put = [&](uint32_t v) { r.push_back((char)(v >> 8)); r.push_back((char)v); };
    for (auto cp : cps) if (cp >= 0x10000) { put(0xD800 + ((cp - 0x10000) >> 10)); put(0xDC00 + ((cp - 0x10000) & 0x3FF)); } else put(cp);
    return r;
}
// One form for the same text: UTF-16 that PdfDocEncoding can express is written in it once the library looked at the text
static string normBytes(const string& b)
{
    if (b.size() < 2 || b.size() % 2 || (unsigned char)b[0] != 0xFE || (unsigned char)b[1] != 0xFF) return b;
    string r;
    for (size_t i = 2; i < b.size(); i += 2)
    {
        uint32_t v = (uint32_t)(unsigned char)b[i] << 8 | (unsigned char)b[i + 1];
        auto it = docEnc().find(v);
        if (it == docEnc().end()) return b;
        r.push_back((char)it->second);
    }
    return r;
}

string canon(const Val& v, bool streamDict) { string s; canonTo(s, v, streamDict); return s; }

static string strBytes(const PdfString& s)
{
    if (s.GetState() == PdfStringState::RawBuffer) return s.GetRawData();
    return textBytes(s.GetString());
}

void canonTo(string& out, const PdfObject& o, bool streamDict)
{
    switch (o.GetDataType())
    {
        case PdfDataType::Null: out += "n"; break;
        case PdfDataType::Bool: out += o.GetBool() ? "b1" : "b0"; break;
        case PdfDataType::Number: out += strf("i%lld", (long long)o.GetNumber()); break;
        case PdfDataType::Real: canonReal(out, o.GetReal()); break;
        case PdfDataType::String: out += "s"; hexTo(out, normBytes(strBytes(o.GetString()))); break;
        case PdfDataType::Name: out += "/"; hexTo(out, o.GetName().GetRawData()); break;
        case PdfDataType::Reference: { auto r = o.GetReference(); out += strf("R%u.%u", r.ObjectNumber(), r.GenerationNumber()); break; }
        case PdfDataType::Array:
            out += "[";
            for (auto& e : o.GetArray()) { canonTo(out, e); out += " "; }
            out += "]";
            break;
        case PdfDataType::Dictionary:
        {
            // the library orders keys its own way: sort by raw bytes
            map<string, const PdfObject*> keys;
            for (auto& p : o.GetDictionary()) keys[p.first.GetRawData()] = &p.second;
            out += "{";
            for (auto& p : keys)
            {
                if (p.second->IsNull()) continue;
                if (streamDict && (p.first == "Length" || p.first == "Filter" || p.first == "DecodeParms")) continue;
                hexTo(out, p.first); out += "="; canonTo(out, *p.second); out += " ";
            }
            out += "}";
            break;
        }
        default: out += "?"; break;
    }
}
string canon(const PdfObject& o, bool streamDict) { string s; canonTo(s, o, streamDict); return s; }

PdfObject toPdf(const Val& v)
{
    switch (v.t)
    {
        case VT::Bool: return PdfObject((bool)v.i);
        case VT::Int: return PdfObject((int64_t)v.i);
        case VT::Real: return PdfObject(v.r);
        case VT::Str: return PdfObject(PdfString::FromRaw(v.s, v.hexs));
        case VT::Name: return PdfObject(PdfName::FromRaw(v.s));
        case VT::Ref: return PdfObject(toRef(v.ref));
        case VT::Arr: { PdfArray a; for (auto& e : v.arr) a.Add(toPdf(e)); return PdfObject(a); }
        case VT::Dict: { PdfDictionary d; for (auto& p : v.dict) d.AddKey(PdfName::FromRaw(p.first), toPdf(p.second)); return PdfObject(d); }
        default: return PdfObject(PdfVariant());
    }
}

Val fromPdf(const PdfObject& o)
{
    Val v;
    switch (o.GetDataType())
    {
        case PdfDataType::Bool: v.t = VT::Bool; v.i = o.GetBool(); break;
        case PdfDataType::Number: v = Val::Int(o.GetNumber()); break;
        case PdfDataType::Real: v.t = VT::Real; v.r = o.GetReal(); break;
        case PdfDataType::String: v = Val::Str(strBytes(o.GetString()), o.GetString().IsHex()); break;
        case PdfDataType::Name: v = Val::Name(o.GetName().GetRawData()); break;
        case PdfDataType::Reference: v = Val::R(fromRef(o.GetReference())); break;
        case PdfDataType::Array: v = Val::Arr(); for (auto& e : o.GetArray()) v.arr.push_back(fromPdf(e)); break;
        case PdfDataType::Dictionary: v = Val::Dict(); for (auto& p : o.GetDictionary()) v.dict[p.first.GetRawData()] = fromPdf(p.second); break;
        default: break;
    }
    return v;
}

string streamData(const PdfObject& o)
{
    charbuff b;
    o.MustGetStream().CopyTo(b);
    return string(b.data(), b.size());
}
string rawStream(const PdfObject& o)
{
    charbuff b;
    o.MustGetStream().CopyTo(b, true);
    return string(b.data(), b.size());
}

void collectRefs(const Val& v, vector<Ref>& out)
{
    if (v.t == VT::Ref) out.push_back(v.ref);
    for (auto& e : v.arr) collectRefs(e, out);
    for (auto& p : v.dict) collectRefs(p.second, out);
}

set<Ref> reachable(const Model& m, Ref root)
{
    set<Ref> seen;
    vector<Ref> todo{ root };
    while (!todo.empty())
    {
        Ref r = todo.back(); todo.pop_back();
        auto it = m.find(r);
        if (it == m.end() || !seen.insert(r).second) continue;
        collectRefs(it->second.v, todo);
    }
    return seen;
}

PdfFilterList pickFilters(uint64_t sel)
{
    switch (sel % 9)
    {
        case 0: return {};
        case 1: return { PdfFilterType::FlateDecode };
        case 2: return { PdfFilterType::ASCIIHexDecode };
        case 3: return { PdfFilterType::ASCII85Decode };
        case 4: return { PdfFilterType::ASCII85Decode, PdfFilterType::FlateDecode };
        case 5: return { PdfFilterType::ASCIIHexDecode, PdfFilterType::FlateDecode };
        case 6: return { PdfFilterType::FlateDecode, PdfFilterType::FlateDecode };
        case 7: return { PdfFilterType::FlateDecode, PdfFilterType::ASCIIHexDecode };
        default: return { PdfFilterType::ASCIIHexDecode, PdfFilterType::ASCII85Decode, PdfFilterType::FlateDecode };
    }
}

// ---------------------------------------------------------------- documents
DevOpts devOpts(uint64_t sel)
{
    DevOpts o;
    o.chunking = (int)(sel % 5);
    o.lazyEof = (sel / 5) % 2 == 1;
    o.seed = sel + 17;
    return o;
}

shared_ptr<SimDevice> makeDevice(const string& bytes, DevOpts opts, DeviceAccess access)
{
    return make_shared<SimDevice>(make_shared<string>(bytes), access, opts);
}

unique_ptr<PdfMemDocument> loadDoc(const string& bytes, const string& password, DevOpts opts)
{
    auto doc = make_unique<PdfMemDocument>();
    doc->LoadFromDevice(makeDevice(bytes, opts), password);
    return doc;
}

static string objText(PdfObject& o, bool streams)
{
    bool st = o.HasStream();
    string t = canon(o, st);
    if (st)
    {
        if (streams) { auto d = streamData(o); t += strf(" stream[%zu:%016llx]", d.size(), (unsigned long long)hashBytes(d)); }
        else t += " stream";
    }
    return t;
}

map<Ref, string> snapshot(PdfMemDocument& doc, bool streams)
{
    vector<PdfReference> refs;
    for (auto o : doc.GetObjects()) refs.push_back(o->GetIndirectReference());
    map<Ref, string> out;
    for (auto& r : refs)
    {
        auto o = doc.GetObjects().GetObject(r);
        if (!o) { out[fromRef(r)] = "<unlisted>"; continue; }
        out[fromRef(r)] = objText(*o, streams);
    }
    return out;
}

string snapText(const map<Ref, string>& s)
{
    string t;
    for (auto& p : s) t += refText(p.first) + " " + p.second + "\n";
    return t;
}

string firstDiff(const map<Ref, string>& a, const map<Ref, string>& b)
{
    for (auto& p : a)
    {
        auto it = b.find(p.first);
        if (it == b.end()) return refText(p.first) + " missing, was " + p.second.substr(0, 300);
        if (it->second != p.second) return refText(p.first) + " was " + p.second.substr(0, 300) + " is " + it->second.substr(0, 300);
    }
    for (auto& p : b) if (!a.count(p.first)) return refText(p.first) + " appeared: " + p.second.substr(0, 300);
    return {};
}

static void walkRefs(const PdfObject& o, vector<PdfReference>& out, bool skipRoot = false)
{
    if (o.IsReference()) out.push_back(o.GetReference());
    else if (o.IsArray()) for (auto& e : o.GetArray()) walkRefs(e, out);
    else if (o.IsDictionary()) for (auto& p : o.GetDictionary()) { if (skipRoot && p.first.GetRawData() == "SimRoot") continue; walkRefs(p.second, out); }
}

set<Ref> structuralRefs(PdfMemDocument& doc)
{
    set<Ref> seen;
    vector<PdfReference> todo;
    walkRefs(doc.GetTrailer().GetObject(), todo);
    // the encryption dictionary exists in the file only
    if (auto e = doc.GetTrailer().GetDictionary().GetKey("Encrypt"))
        if (e->IsReference()) { auto r = e->GetReference(); todo.erase(remove(todo.begin(), todo.end(), r), todo.end()); }
    auto cat = doc.GetCatalog().GetObject().GetIndirectReference();
    while (!todo.empty())
    {
        auto r = todo.back(); todo.pop_back();
        if (!seen.insert(fromRef(r)).second) continue;
        auto o = doc.GetObjects().GetObject(r);
        if (o) walkRefs(*o, todo, r == cat);
    }
    return seen;
}

static bool isPlumbing(PdfObject& o)
{
    if (!o.IsDictionary()) return false;
    auto t = o.GetDictionary().GetKey("Type");
    if (t && t->IsName())
    {
        auto& n = t->GetName().GetRawData();
        if (n == "XRef" || n == "ObjStm") return true;
    }
    return false;
}

map<Ref, string> userSnapshot(PdfMemDocument& doc)
{
    auto st = structuralRefs(doc);
    map<Ref, string> all = snapshot(doc), out;
    for (auto& p : all)
        if (!st.count(p.first) && !isPlumbing(*doc.GetObjects().GetObject(toRef(p.first)))) out.insert(p);
    return out;
}

void verifyDoc(PdfMemDocument& doc, const Model& model, const set<Ref>& structural, const set<Ref>& dead, const char* where, bool streams)
{
    auto& c = ctx();
    auto& objs = doc.GetObjects();
    // registry consistency
    PdfReference prev(0, 0);
    set<uint32_t> numbers;
    vector<PdfReference> refs;
    for (auto o : objs)
    {
        auto r = o->GetIndirectReference();
        c.check(numbers.insert(r.ObjectNumber()).second, "object-number-alias", strf("%s: two live objects share number %u", where, r.ObjectNumber()));
        c.check(objs.GetObject(r) == o, "object-lookup", strf("%s: lookup of %s gives another object", where, refText(fromRef(r)).c_str()));
        refs.push_back(r);
    }
    c.check(objs.size() == refs.size(), "object-count", string(where) + ": size of the object list disagrees with its contents");
    for (auto& p : model)
    {
        auto o = objs.GetObject(toRef(p.first));
        if (!o) c.fail("object-lost", strf("%s: object %s is gone; should be %s", where, refText(p.first).c_str(), canon(p.second.v).substr(0, 200).c_str()));
        bool st = o->HasStream();
        if (st != p.second.stream) c.fail("stream-presence", strf("%s: object %s has %s stream", where, refText(p.first).c_str(), st ? "an unexpected" : "lost its"));
        auto want = canon(p.second.v, p.second.stream), got = canon(*o, st);
        if (want != got) c.fail("object-value", strf("%s: object %s should be %s but is %s", where, refText(p.first).c_str(), want.substr(0, 400).c_str(), got.substr(0, 400).c_str()));
        if (st && streams)
        {
            auto d = streamData(*o);
            if (d != p.second.data)
            {
                size_t i = 0; while (i < d.size() && i < p.second.data.size() && d[i] == p.second.data[i]) i++;
                c.fail("stream-content", strf("%s: stream of %s has %zu bytes, should have %zu; first difference at %zu; dictionary %s", where, refText(p.first).c_str(), d.size(), p.second.data.size(), i, canon(*o).substr(0, 300).c_str()));
            }
        }
    }
    for (auto& r : refs)
    {
        auto k = fromRef(r);
        if (model.count(k) || structural.count(k)) continue;
        auto o = objs.GetObject(r);
        if (o && isPlumbing(*o)) continue;
        c.fail("object-phantom", strf("%s: object %s should not exist: %s", where, refText(k).c_str(), o ? canon(*o).substr(0, 300).c_str() : "null"));
    }
    for (auto& d : dead)
        if (!model.count(d) && objs.GetObject(toRef(d)) && !structural.count(d))
            c.fail("stale-reference", strf("%s: reference %s of a removed object resolves", where, refText(d).c_str()));
}

// ---------------------------------------------------------------- history engine
void Hist::create()
{
    doc = make_unique<PdfMemDocument>();
    auto& page = doc->GetPages().CreatePage(PdfPage::CreateStandardPageSize(PdfPageSize::A4));
    (void)page;
    auto& arr = doc->GetObjects().CreateArrayObject();
    root = fromRef(arr.GetIndirectReference());
    doc->GetCatalog().GetDictionary().AddKeyIndirect("SimRoot", arr);
    model.clear();
    model[root].v = Val::Arr();
    dead.clear();
    structural.clear();
    noteStructural();
    stored = false;
}

void Hist::adopt(const string& file, const Model& m, Ref rootRef, const set<Ref>& d, const set<Ref>& pl)
{
    plumbing = pl;
    if (ctx().verbose) writeFile("/tmp/sim-dump.pdf", file);
    bytes = file;
    model = m; durable = m;
    root = rootRef;
    dead = d; durableDead = d;
    stored = true;
    structural.clear();
    revEnds = { bytes.size() };
    revModels = { m };
}

void Hist::noteStructural()
{
    auto s = structuralRefs(*doc);
    for (auto& r : s) if (!model.count(r)) structural.insert(r);
    for (auto& r : plumbing) if (!model.count(r)) structural.insert(r);
}

vector<Ref> Hist::live() const { vector<Ref> v; for (auto& p : model) v.push_back(p.first); return v; }
vector<Ref> Hist::dicts() const { vector<Ref> v; for (auto& p : model) if (p.second.v.t == VT::Dict) v.push_back(p.first); return v; }
PdfObject& Hist::obj(Ref r)
{
    auto o = doc->GetObjects().GetObject(toRef(r));
    if (!o) ctx().fail("object-lost", "live object " + refText(r) + " not found during the history");
    return *o;
}

uint64_t Hist::stateSig() const
{
    string s;
    for (auto& p : model) { s += refText(p.first); s += canon(p.second.v); s += strf("%zu;", p.second.data.size()); }
    return hashBytes(s);
}

bool Hist::edit(const Op& op)
{
    auto& c = ctx();
    auto lv = live();
    vector<Ref> refs = lv;
    { size_t n = 0; for (auto& d : dead) { if (n++ >= 3) break; refs.push_back(d); } }   // some dangling references too
    auto pickLive = [&](uint64_t i) { return lv[i % lv.size()]; };
    auto ds = dicts();
    Rng vr(op.u(1) ^ 0xabcdef);

    if (op.k == "new")
    {
        c.setStage("new");
        MObj m;
        PdfObject* o;
        uint64_t kind = op.u(0) % 5;
        size_t before = doc->GetObjects().size();
        if (kind == 0) { o = &doc->GetObjects().CreateDictionaryObject(); m.v = Val::Dict(); }
        else if (kind == 1) { o = &doc->GetObjects().CreateArrayObject(); m.v = Val::Arr(); }
        else
        {
            m.v = kind == 2 ? randomVal(vr, refs, 3) : randomDict(vr, refs, 3);
            o = &doc->GetObjects().CreateObject(toPdf(m.v));
            // a bare null or reference as an indirect object has no identity of its own to check: wrap it
            if (m.v.t == VT::Null || m.v.t == VT::Ref) { Val a = Val::Arr(); a.arr.push_back(m.v); *o = toPdf(a); m.v = a; }
        }
        Ref r = fromRef(o->GetIndirectReference());
        c.check(doc->GetObjects().size() == before + 1, "object-number-alias", "creating an object did not add one to the list (" + refText(r) + ")");
        c.check(!model.count(r) && !structural.count(r), "object-number-alias", "a new object got the reference of a live one: " + refText(r));
        for (auto& p : model) c.check(p.first.first != r.first, "object-number-alias", "a new object got the number of a live one: " + refText(r));
        c.check(!dead.count(r), "reference-reuse", "a new object got the reference of a removed one: " + refText(r));
        for (auto& d : dead) if (d.first == r.first) c.check(d.second < r.second, "generation-order", "number reused with a lower generation: " + refText(r) + " after " + refText(d));
        model[r] = m;
        uint64_t lk = op.u(2) % 8;
        if (lk < 6) { obj(root).GetArray().Add(PdfObject(toRef(r))); model[root].v.arr.push_back(Val::R(r)); }
        else if (!ds.empty())
        {
            Ref p = ds[op.u(2) / 8 % ds.size()];
            auto key = strf("L%d", (int)(vr.below(6)));
            obj(p).GetDictionary().AddKey(PdfName(key), PdfObject(toRef(r)));
            model[p].v.dict[key] = Val::R(r);
        }
        c.ev("new", r.first, r.second);
        return true;
    }
    if (op.k == "set")
    {
        c.setStage("set");
        Ref r = pickLive(op.u(0));
        if (r == root) return true;
        Val v = randomVal(vr, refs, 3);
        if (v.t == VT::Null || v.t == VT::Ref) v = Val::Int((int64_t)vr.below(100));
        obj(r) = toPdf(v);
        model[r].v = v; model[r].stream = false; model[r].data.clear();
        c.ev("set", r.first, (int64_t)v.t);
        return true;
    }
    if (op.k == "key")
    {
        c.setStage("key");
        Ref r = pickLive(op.u(0));
        auto& m = model[r];
        auto& o = obj(r);
        if (m.v.t == VT::Dict)
        {
            auto k = randomName(vr);
            if (vr.chance(1, 4) && !m.v.dict.empty())
            {
                auto it = m.v.dict.begin(); advance(it, vr.below(m.v.dict.size()));
                k = it->first;
            }
            if (vr.chance(1, 4)) { o.GetDictionary().RemoveKey(PdfName::FromRaw(k)); m.v.dict.erase(k); }
            else
            {
                Val v = randomVal(vr, refs, 2);
                o.GetDictionary().AddKey(PdfName::FromRaw(k), toPdf(v));
                m.v.dict[k] = v;
            }
        }
        else if (m.v.t == VT::Arr && r != root)
        {
            Val v = randomVal(vr, refs, 2);
            auto& a = o.GetArray();
            size_t n = m.v.arr.size();
            switch (vr.below(4))
            {
                case 0: a.Add(toPdf(v)); m.v.arr.push_back(v); break;
                case 1: if (n) { auto i = vr.below(n); a.SetAt((unsigned)i, toPdf(v)); m.v.arr[i] = v; } break;
                case 2: if (n) { auto i = vr.below(n); a.RemoveAt((unsigned)i); m.v.arr.erase(m.v.arr.begin() + i); } break;
                default: { auto i = vr.below(n + 1); a.insert(a.begin() + i, toPdf(v)); m.v.arr.insert(m.v.arr.begin() + i, v); break; }
            }
        }
        else if (m.v.t == VT::Int) { m.v.i = (int64_t)vr.below(1000000); o.SetNumber(m.v.i); }
        c.ev("key", r.first);
        return true;
    }
    if (op.k == "mut")
    {
        // the other ways to change a container; indirect variants add a reference to an object of the document
        c.setStage("mut");
        Ref r = pickLive(op.u(0));
        Ref t = pickLive(op.u(1) / 7);
        auto& m = model[r];
        auto& o = obj(r);
        auto kind = vr.below(12);
        if (m.v.t == VT::Arr && r != root)
        {
            auto& a = o.GetArray();
            auto& ma = m.v.arr;
            size_t n = ma.size();
            switch (kind)
            {
                case 0: a.AddIndirect(obj(t)); ma.push_back(Val::R(t)); break;
                case 1: a.AddIndirectSafe(obj(t)); ma.push_back(Val::R(t)); break;
                case 2: if (n) { auto i = vr.below(n); a.SetAtIndirect((unsigned)i, &obj(t)); ma[i] = Val::R(t); } break;
                case 3: if (n) { auto i = vr.below(n); a.SetAtIndirectSafe((unsigned)i, obj(t)); ma[i] = Val::R(t); } break;
                case 4: a.Clear(); ma.clear(); break;
                case 5: { auto i = vr.below(n + 1), j = i + vr.below(n - i + 1); a.erase(a.begin() + i, a.begin() + j); ma.erase(ma.begin() + i, ma.begin() + j); break; }
                case 6: { Val v = randomVal(vr, refs, 1); auto k = vr.below(n + 4); if (vr.chance(1, 3)) { v = Val::Dict(); a.resize(k); } else a.Resize((unsigned)k, toPdf(v)); ma.resize(k, v); break; }
                case 7: { Val v = Val::Arr(); auto k = vr.below(5); for (uint64_t i = 0; i < k; i++) v.arr.push_back(randomVal(vr, refs, 2)); auto x = toPdf(v); a = x.GetArray(); m.v = v; break; }
                case 8: { Val v = Val::Arr(); auto k = vr.below(5); for (uint64_t i = 0; i < k; i++) v.arr.push_back(randomVal(vr, refs, 2)); auto x = toPdf(v); a = std::move(x.GetArray()); m.v = v; break; }
                case 9: if (n > 1) { auto i = vr.below(n), j = vr.below(n); if (i != j) { PdfObject tmp(a[i]); a[i] = a[j]; a[j] = tmp; swap(ma[i], ma[j]); } } break;
                case 10: { Val v = randomVal(vr, refs, 2), w = randomVal(vr, refs, 2); PdfArray extra; extra.Add(toPdf(v)); extra.Add(toPdf(w)); auto i = vr.below(n + 1); a.insert(a.begin() + i, extra.begin(), extra.end()); ma.insert(ma.begin() + i, { v, w }); break; }
                default: { Val v = randomVal(vr, refs, 2); a.Add(toPdf(v)) = PdfObject((int64_t)7); ma.push_back(Val::Int(7)); break; }
            }
        }
        else if (m.v.t == VT::Dict)
        {
            auto& d = o.GetDictionary();
            auto k = randomName(vr);
            switch (kind)
            {
                case 0: case 1: d.AddKeyIndirect(PdfName::FromRaw(k), obj(t)); m.v.dict[k] = Val::R(t); break;
                case 2: case 3: d.AddKeyIndirectSafe(PdfName::FromRaw(k), obj(t)); m.v.dict[k] = Val::R(t); break;
                case 4: if (!m.stream) { d.Clear(); m.v.dict.clear(); } break;
                case 5: if (!m.stream) { Val v = randomDict(vr, refs, 2); auto x = toPdf(v); d = x.GetDictionary(); m.v = v; } break;
                case 6: if (!m.stream) { Val v = randomDict(vr, refs, 2); auto x = toPdf(v); d = std::move(x.GetDictionary()); m.v = v; } break;
                case 7: if (!m.v.dict.empty()) { auto it = m.v.dict.begin(); advance(it, vr.below(m.v.dict.size())); Val v = randomVal(vr, refs, 2); auto f = d.GetKey(it->first); if (f) { *f = toPdf(v); it->second = v; } } break;
                case 8: if (!m.v.dict.empty()) { auto it = m.v.dict.begin(); advance(it, vr.below(m.v.dict.size())); if (d.RemoveKey(it->first)) m.v.dict.erase(it); else c.fail("object-value", "key to remove not found"); } break;
                default: { Val v = randomVal(vr, refs, 2); d.AddKey(PdfName::FromRaw(k), toPdf(v)) = PdfObject((int64_t)9); m.v.dict[k] = Val::Int(9); break; }
            }
        }
        c.ev("mut", r.first, (int64_t)kind);
        return true;
    }
    if (op.k == "deep")
    {
        // change a value nested inside a container of an object, through references obtained by reading
        c.setStage("deep");
        Ref r = pickLive(op.u(0));
        if (r == root) return true;
        Val* v = &model[r].v;
        PdfObject* o = &obj(r);
        for (int d = 0; d < 4; d++)
        {
            if (v->t == VT::Dict && !v->dict.empty())
            {
                auto it = v->dict.begin(); advance(it, vr.below(v->dict.size()));
                if (model[r].stream && d == 0 && (it->first == "Length" || it->first == "Filter")) return true;
                o = o->GetDictionary().GetKey(it->first);
                if (!o) c.fail("object-value", "key of " + refText(r) + " not found: " + hex(it->first));
                v = &it->second;
            }
            else if (v->t == VT::Arr && !v->arr.empty())
            {
                auto i = vr.below(v->arr.size());
                o = &o->GetArray()[i];
                v = &v->arr[i];
            }
            else break;
        }
        if (o == &obj(r) && model[r].stream) return true;
        switch (v->t)
        {
            case VT::Bool: v->i = !v->i; o->SetBool(v->i != 0); break;
            case VT::Int: v->i = (int64_t)vr.below(100000); o->SetNumber(v->i); break;
            case VT::Real: v->r = (double)vr.below(1000) / 8; if (o->IsRealStrict()) o->SetReal(v->r); else *o = PdfObject(v->r); break;   // whole reals are stored like integers
            case VT::Str: v->s = randomBytes(vr, vr.below(20), 0); o->SetString(PdfString::FromRaw(v->s, v->hexs)); break;
            case VT::Name: v->s = "Z"; o->SetName(PdfName("Z")); break;
            case VT::Ref: v->ref = refs[vr.below(refs.size())]; o->SetReference(toRef(v->ref)); break;
            case VT::Arr: { Val e = Val::Int((int64_t)vr.below(99)); o->GetArray().Add(toPdf(e)); v->arr.push_back(e); break; }
            case VT::Dict: { Val e = Val::Int((int64_t)vr.below(99)); o->GetDictionary().AddKey("Zk", toPdf(e)); v->dict["Zk"] = e; break; }
            default: break;
        }
        c.ev("deep", r.first);
        return true;
    }
    if (op.k == "stm" || op.k == "app")
    {
        if (ds.empty()) return true;
        bool app = op.k == "app";
        c.setStage(op.k);
        Ref r = ds[op.u(0) % ds.size()];
        auto& m = model[r];
        string data = randomData(vr, op.u(3) % 50 == 0 ? 70000 : 3000);
        auto filters = pickFilters(op.u(2));
        auto& s = obj(r).GetOrCreateStream();
        if (app)
        {
            // appending may repeat the stream's filters or name others
            auto out = (op.u(2) / 9) % 2 ? s.GetOutputStream(filters, true) : s.GetOutputStream(true);
            size_t off = 0;
            while (off < data.size()) { size_t n = min<size_t>(data.size() - off, 1 + vr.below(2000)); out.Write(string_view(data).substr(off, n)); off += n; }
            m.data += data;
        }
        else
        {
            switch ((op.u(2) / 9) % 4)
            {
                case 0: s.SetData(data, filters); break;
                case 1: s.SetData(data); break;
                case 2: { SimInput in(data, devOpts(op.u(1))); s.SetData(in, filters); break; }
                default:
                {
                    auto out = s.GetOutputStream(filters);
                    size_t off = 0;
                    while (off < data.size()) { size_t n = min<size_t>(data.size() - off, 1 + vr.below(2000)); out.Write(string_view(data).substr(off, n)); off += n; }
                }
            }
            m.data = data;
        }
        m.stream = true;
        m.v.dict.erase("Length"); m.v.dict.erase("Filter"); m.v.dict.erase("DecodeParms");
        c.ev(op.k.c_str(), r.first, (int64_t)data.size());
        return true;
    }
    if (op.k == "copy")
    {
        // assign one object to another, stream included
        c.setStage("copy");
        Ref a = pickLive(op.u(0)), b = pickLive(op.u(1));
        if (a == b || b == root || a == root) return true;
        obj(b) = obj(a);
        auto keep = model[a];
        model[b] = keep;
        c.ev("copy", a.first, b.first);
        return true;
    }
    if (op.k == "unlink")
    {
        auto& arr = model[root].v.arr;
        if (arr.empty()) return true;
        c.setStage("unlink");
        size_t i = op.u(0) % arr.size();
        obj(root).GetArray().RemoveAt((unsigned)i);
        arr.erase(arr.begin() + i);
        c.ev("unlink", (int64_t)i);
        return true;
    }
    if (op.k == "link")
    {
        c.setStage("link");
        Ref r = pickLive(op.u(0));
        if (r == root) return true;
        obj(root).GetArray().Add(PdfObject(toRef(r)));
        model[root].v.arr.push_back(Val::R(r));
        return true;
    }
    if (op.k == "del")
    {
        c.setStage("del");
        Ref r = pickLive(op.u(0));
        if (r == root) return true;
        auto gone = doc->GetObjects().RemoveObject(toRef(r));
        c.check(gone != nullptr, "object-lost", "removing live object " + refText(r) + " found nothing");
        c.check(doc->GetObjects().GetObject(toRef(r)) == nullptr, "remove-object", "removed object " + refText(r) + " still resolves");
        model.erase(r);
        dead.insert(r);
        c.ev("del", r.first);
        return true;
    }
    if (op.k == "gc")
    {
        c.setStage("gc");
        doc->CollectGarbage();
        gc();
        c.ev("gc", (int64_t)model.size());
        return true;
    }
    if (op.k == "replace")
    {
        // put another object in the place of a live one, or try to where there is none
        c.setStage("replace");
        Ref r = pickLive(op.u(0));
        if (r == root) return true;
        if (op.u(2) % 4 == 0)
        {
            Ref bad = op.u(2) % 8 && !dead.empty() ? *dead.begin() : Ref{ r.first, r.second + 5 };
            if (model.count(bad) || structural.count(bad)) return true;
            auto o = make_unique<PdfObject>(PdfDictionary());
            bool failed = false;
            try { (void)doc->GetObjects().ReplaceObject(toRef(bad), o.get()); }
            catch (const PdfError&) { failed = true; }
            if (!failed) { o.release(); c.fail("replace-missing", "replacing the missing object " + refText(bad) + " was accepted"); }
            return true;
        }
        Val v = randomVal(vr, refs, 2);
        if (v.t == VT::Null || v.t == VT::Ref) v = Val::Int((int64_t)vr.below(100));
        auto o = new PdfObject(toPdf(v));
        auto old = doc->GetObjects().ReplaceObject(toRef(r), o);
        c.check(old && old.get() != o, "replace-missing", "replacing " + refText(r) + " gave no old object");
        model[r] = MObj{ v, false, {} };
        c.ev("replace", r.first);
        return true;
    }
    if (op.k == "reuse")
    {
        doc->GetObjects().SetCanReuseObjectNumbers(op.u(0) % 2);
        return true;
    }
    if (op.k == "touch")
    {
        c.setStage("touch");
        Ref r = pickLive(op.u(0));
        auto& o = obj(r);
        auto& m = model[r];
        auto got = canon(o, m.stream), want = canon(m.v, m.stream);
        if (got != want) c.fail("object-value", strf("reading %s: should be %s but is %s", refText(r).c_str(), want.substr(0, 400).c_str(), got.substr(0, 400).c_str()));
        if (m.stream && op.u(1) % 2)
        {
            c.check(o.HasStream(), "stream-presence", "stream lost: " + refText(r));
            if (streamData(o) != m.data) c.fail("stream-content", "reading " + refText(r) + ": stream differs");
        }
        c.ev("touch", r.first);
        return true;
    }
    if (op.k == "free")
    {
        c.setStage("free");
        Ref r = pickLive(op.u(0));
        auto o = dynamic_cast<PdfParserObject*>(&obj(r));
        if (o) { doc->FreeObjectMemory(o, false); c.probe("free-memory"); c.ev("free", r.first); }
        return true;
    }
    return false;
}

void Hist::gc()
{
    auto keep = reachable(model, root);
    for (auto it = model.begin(); it != model.end();)
    {
        if (!keep.count(it->first)) { dead.insert(it->first); it = model.erase(it); }
        else ++it;
    }
}

PdfSaveOptions saveOpts(uint64_t sel)
{
    return (PdfSaveOptions)(((sel & 1) ? 4 : 0) | ((sel & 2) ? 8 : 0) | ((sel & 4) ? 32 : 0));
}

static bool collects(PdfSaveOptions o) { return ((int)o & 8) == 0; }

void Hist::save(PdfSaveOptions opts, DevOpts dev)
{
    auto& c = ctx();
    c.setStage("save");
    auto out = make_shared<string>();
    SimDevice d(out, DeviceAccess::ReadWrite, dev);
    doc->Save(d, opts);
    if (collects(opts)) gc();
    noteStructural();
    bytes = *out;
    if (c.verbose) writeFile("/tmp/sim-dump2.pdf", bytes);
    stored = false;       // the document object still reads from its old source
    revEnds = { bytes.size() };
    revModels = { model };
    durable = model; durableDead = dead;
    saves++;
    c.ev("save", (int64_t)bytes.size(), (int64_t)hashBytes(bytes));
    c.state(stateSig());
}

void Hist::update(PdfSaveOptions opts, DevOpts dev)
{
    auto& c = ctx();
    if (!stored) return;
    c.setStage("update");
    auto out = make_shared<string>(bytes);
    SimDevice d(out, DeviceAccess::ReadWrite, dev);
    doc->SaveUpdate(d, opts);
    if (collects(opts)) gc();
    noteStructural();
    c.check(out->size() >= bytes.size() && out->compare(0, bytes.size(), bytes) == 0, "append-only", "an incremental update changed bytes of earlier revisions");
    bytes = *out;
    if (c.verbose) writeFile("/tmp/sim-dump2.pdf", bytes);
    revEnds.push_back(bytes.size());
    revModels.push_back(model);
    durable = model; durableDead = dead;
    updates++;
    c.ev("update", (int64_t)bytes.size(), (int64_t)hashBytes(bytes));
    c.state(stateSig());
}

void Hist::reload(DevOpts dev, bool sameObject)
{
    auto& c = ctx();
    if (bytes.empty()) return;
    c.setStage("reload");
    if (!sameObject || !doc) doc = make_unique<PdfMemDocument>();
    doc->LoadFromDevice(makeDevice(bytes, dev), password);
    model = durable; dead = durableDead;
    structural.clear();
    noteStructural();
    stored = true;
    reloads++;
    c.ev("reload", (int64_t)doc->GetObjects().size());
}

void Hist::verify(const char* where, bool streams)
{
    ctx().setStage(string("verify ") + where);
    noteStructural();
    verifyDoc(*doc, model, structural, dead, where, streams);
}

void Hist::verifyBytes(const char* where, DevOpts dev)
{
    ctx().setStage(string("reopen ") + where);
    auto d = loadDoc(bytes, password, dev);
    auto st = structuralRefs(*d);
    st.insert(plumbing.begin(), plumbing.end());
    for (auto& p : durable) st.erase(p.first);
    verifyDoc(*d, durable, st, durableDead, where);
}

void addEditOp(Rng& rng, Plan& p, bool)
{
    auto big = [&]() { return (int64_t)rng.below(1000); };
    auto seed = [&]() { return (int64_t)rng.below(1000000007); };
    switch (rng.below(24))
    {
        case 0: case 1: case 2: case 3: case 4: p.add("new", { (int64_t)rng.below(5), seed(), (int64_t)rng.below(64) }); break;
        case 5: case 6: p.add("set", { big(), seed() }); break;
        case 7: case 8: p.add("key", { big(), seed() }); break;
        case 9: p.add("mut", { big(), seed() }); break;
        case 10: case 11: p.add("deep", { big(), seed() }); break;
        case 12: case 13: case 14: p.add("stm", { big(), seed(), (int64_t)rng.below(36), big() }); break;
        case 15: p.add("app", { big(), seed(), (int64_t)rng.below(18), big() }); break;
        case 16: p.add("copy", { big(), big() }); break;
        case 17: p.add("unlink", { big() }); break;
        case 18: p.add("link", { big() }); break;
        case 19: p.add("del", { big() }); break;
        case 20: p.add("gc"); break;
        case 21: case 22: p.add("touch", { big(), big() }); break;
        default: p.add("free", { big() }); break;
    }
}

// ---------------------------------------------------------------- reference encoders
string encFlate(string_view d, int level)
{
    uLongf n = compressBound(d.size()) + 64;
    string out(n, '\0');
    compress2((Bytef*)&out[0], &n, (const Bytef*)d.data(), d.size(), level);
    out.resize(n);
    return out;
}
string encHex(string_view d, Rng& rng, bool eod)
{
    const char* H = rng.chance(1, 2) ? "0123456789ABCDEF" : "0123456789abcdef";
    bool ws = rng.chance(1, 2);
    string out;
    for (size_t i = 0; i < d.size(); i++)
    {
        unsigned char c = (unsigned char)d[i];
        out += H[c >> 4];
        if (ws && rng.chance(1, 30)) out += "\n \t"[rng.below(3)];
        // a final odd digit stands for one followed by zero
        if (i + 1 == d.size() && eod && (c & 15) == 0 && rng.chance(1, 2)) break;
        out += H[c & 15];
        if (ws && rng.chance(1, 30)) out += "\n \t"[rng.below(3)];
    }
    if (eod) out += '>';
    return out;
}
string enc85(string_view d, Rng& rng, bool eod)
{
    bool ws = rng.chance(1, 2);
    string out;
    for (size_t i = 0; i < d.size(); i += 4)
    {
        size_t n = min<size_t>(4, d.size() - i);
        uint32_t v = 0;
        for (size_t k = 0; k < 4; k++) v = (v << 8) | (k < n ? (unsigned char)d[i + k] : 0);
        if (v == 0 && n == 4) out += 'z';
        else
        {
            char b[5];
            for (int k = 4; k >= 0; k--) { b[k] = (char)(33 + v % 85); v /= 85; }
            for (size_t k = 0; k < n + 1; k++) { out += b[k]; if (ws && rng.chance(1, 40)) out += '\n'; }
        }
    }
    if (eod) out += "~>";
    return out;
}
string encRle(string_view d, Rng& rng)
{
    string out;
    size_t i = 0;
    while (i < d.size())
    {
        size_t run = 1;
        while (i + run < d.size() && run < 128 && d[i + run] == d[i]) run++;
        if (run >= 2 && rng.chance(3, 4)) { out += (char)(257 - run); out += d[i]; i += run; }
        else
        {
            size_t n = min<size_t>(d.size() - i, 1 + rng.below(rng.chance(1, 4) ? 128 : 10));
            out += (char)(n - 1);
            out.append(d.substr(i, n));
            i += n;
        }
    }
    out += (char)128;
    return out;
}
string encLzw(string_view d, bool early)
{
    string out;
    uint64_t acc = 0; int bits = 0;
    auto put = [&](unsigned code, int width) {
        acc = (acc << width) | code; bits += width;
        while (bits >= 8) { out += (char)((acc >> (bits - 8)) & 0xff); bits -= 8; }
    };
    map<string, unsigned> table;
    unsigned next = 258; int width = 9;
    auto reset = [&]() { table.clear(); for (int i = 0; i < 256; i++) table[string(1, (char)i)] = (unsigned)i; next = 258; width = 9; };
    reset();
    put(256, width);
    string w;
    for (char ch : d)
    {
        string wc = w + ch;
        if (table.count(wc)) { w = wc; continue; }
        put(table[w], width);
        table[wc] = next++;
        if (next + (early ? 1 : 0) > (1u << width) && width < 12) width++;
        if (next >= 4095) { put(256, width); reset(); }
        w = string(1, ch);
    }
    if (!w.empty())
    {
        put(table[w], width);
        next++;
        if (next + (early ? 1 : 0) > (1u << width) && width < 12) width++;
    }
    put(257, width);
    if (bits) put(0, 8 - bits);
    return out;
}
string encPng(string_view d, int colors, int bpc, int columns, Rng& rng, int fixed)
{
    size_t row = ((size_t)colors * bpc * columns + 7) / 8, bpp = ((size_t)colors * bpc + 7) / 8;
    string in(d);
    while (in.size() % row) in.push_back('\0');
    string out;
    string prev(row, '\0');
    for (size_t o = 0; o < in.size(); o += row)
    {
        string cur = in.substr(o, row);
        int f = fixed >= 0 ? fixed : (int)rng.below(5);
        out += (char)f;
        for (size_t i = 0; i < row; i++)
        {
            int a = i >= bpp ? (unsigned char)cur[i - bpp] : 0, b = (unsigned char)prev[i], c = i >= bpp ? (unsigned char)prev[i - bpp] : 0;
            int pred = 0;
            switch (f)
            {
                case 1: pred = a; break;
                case 2: pred = b; break;
                case 3: pred = (a + b) / 2; break;
                case 4: { int p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c); pred = pa <= pb && pa <= pc ? a : pb <= pc ? b : c; break; }
            }
            out += (char)((unsigned char)cur[i] - pred);
        }
        prev = cur;
    }
    return out;
}
string encTiff(string_view d, int colors, int bpc, int columns)
{
    size_t row = ((size_t)colors * bpc * columns + 7) / 8;
    string in(d), out;
    while (in.size() % row) in.push_back('\0');
    for (size_t o = 0; o < in.size(); o += row)
        for (size_t i = 0; i < row; i++)
            out += (char)((unsigned char)in[o + i] - (i >= (size_t)colors ? (unsigned char)in[o + i - colors] : 0));
    return out;
}

// ---------------------------------------------------------------- independent producer
namespace {
struct Ext
{
    Rng& rng; const ExtOpts& o; string out;
    string nl() { return o.eol == 0 ? "\n" : o.eol == 1 ? "\r\n" : "\r"; }
    string sp()
    {
        if (!o.prettySpace) return " ";
        switch (rng.below(8)) { case 0: return "  "; case 1: return nl(); case 2: return "\t"; case 3: return " % a comment" + nl(); default: return " "; }
    }
    string name(const string& s)
    {
        string r = "/";
        for (unsigned char c : s)
        {
            bool reg = c > 32 && c < 127 && !strchr("()<>[]{}/%#", c);
            if (!reg || rng.chance(1, 20)) r += strf(rng.chance(1, 2) ? "#%02X" : "#%02x", c);
            else r += (char)c;
        }
        return r;
    }
    string str(const Val& v)
    {
        string r;
        if (v.hexs)
        {
            r = "<";
            for (size_t i = 0; i < v.s.size(); i++)
            {
                unsigned char c = (unsigned char)v.s[i];
                string h = strf(rng.chance(1, 2) ? "%02x" : "%02X", c);
                if (i + 1 == v.s.size() && (c & 15) == 0 && rng.chance(1, 2)) h.pop_back();
                r += h;
                if (o.prettySpace && rng.chance(1, 15)) r += nl();
            }
            return r + ">";
        }
        r = "(";
        int depth = 0;
        for (size_t i = 0; i < v.s.size(); i++)
        {
            unsigned char c = (unsigned char)v.s[i];
            if (c == '\\') r += "\\\\";
            else if (c == '(' ) { // balanced pairs may stay bare
                size_t close = v.s.find_first_of("()", i + 1);
                if (close != string::npos && v.s[close] == ')' && depth == 0 && v.s.substr(i, close - i).find('\r') == string::npos && rng.chance(1, 2)) { r += '('; depth++; }
                else r += "\\(";
            }
            else if (c == ')') { if (depth > 0) { r += ')'; depth--; } else r += "\\)"; }
            else if (c == '\r') r += rng.chance(1, 2) ? "\\r" : "\\015";
            else if (c == '\n') { int k = (int)rng.below(r.back() == '\r' ? 2 : 3); r += k == 0 ? "\\n" : k == 1 ? "\\012" : "\n"; }
            else if (rng.chance(1, 25))
            {
                bool nextDigit = i + 1 < v.s.size() && isdigit((unsigned char)v.s[i + 1]);
                r += (!nextDigit && rng.chance(1, 2)) ? strf("\\%o", c) : strf("\\%03o", c);
            }
            else if (isalpha(c) && !strchr("nrtbf", c) && rng.chance(1, 40)) r += string("\\") + (char)c;   // meaningless backslash
            else r += (char)c;
            if (o.prettySpace && rng.chance(1, 30)) r += "\\" + nl();   // line continuation
        }
        return r + ")";
    }
    void val(string& r, const Val& v)
    {
        switch (v.t)
        {
            case VT::Null: r += "null"; break;
            case VT::Bool: r += v.i ? "true" : "false"; break;
            case VT::Int: r += rng.chance(1, 10) && v.i >= 0 ? strf("+%lld", (long long)v.i) : strf("%lld", (long long)v.i); break;
            case VT::Real:
            {
                string t = strf("%.7f", v.r); while (t.back() == '0') t.pop_back();
                if (rng.chance(1, 4)) { if (t.compare(0, 2, "0.") == 0 && t.size() > 2) t.erase(0, 1); else if (t.compare(0, 3, "-0.") == 0 && t.size() > 3) t.erase(1, 1); }
                if (t[0] != '-' && rng.chance(1, 10)) t = "+" + t;
                r += t; break;
            }
            case VT::Str: r += str(v); break;
            case VT::Name: r += name(v.s); break;
            case VT::Ref: r += strf("%u%s%u%sR", v.ref.first, sp().c_str(), v.ref.second, sp().c_str()); break;
            case VT::Arr: r += "["; for (auto& e : v.arr) { r += sp(); val(r, e); } r += sp(); r += "]"; break;
            case VT::Dict:
                r += "<<";
                for (auto& p : v.dict)
                {
                    r += o.prettySpace && rng.chance(1, 2) ? "" : sp();
                    r += name(p.first); r += sp(); val(r, p.second);
                }
                r += sp(); r += ">>";
                break;
        }
    }
};
}

ExtOpts randomExt(Rng& rng)
{
    ExtOpts o;
    o.xref = (int)rng.below(3);
    o.objstm = o.xref != 0 && rng.chance(2, 3);
    o.revisions = 1 + (int)rng.below(3);
    o.eol = (int)rng.below(3);
    o.predictor = rng.chance(1, 2);
    o.prettySpace = rng.chance(1, 2);
    o.filters = (int)rng.below(2);
    o.oddGens = rng.chance(1, 4);
    o.defaults = rng.chance(1, 3);
    o.hybrid = o.xref != 1 && rng.chance(1, 3);
    if (o.hybrid) o.objstm = true;
    return o;
}

ExtDoc makeExternal(Rng& rng, unsigned objects, const ExtOpts& o)
{
    ExtDoc d;
    Ext e{ rng, o, {} };
    // 1 catalog, 2 pages, 3 page, 4 contents, 5 info, 6 SimRoot, 7.. user objects
    const uint32_t rootNum = 6, firstUser = 7;
    d.root = { rootNum, 0 };
    uint32_t next = firstUser;
    struct Entry { int type; uint64_t a; uint32_t b; };     // 0 free (next, gen), 1 offset gen, 2 stream index
    map<uint32_t, Entry> table;
    string& out = e.out;
    out = "%PDF-1.6" + e.nl() + "%\xE2\xE3\xCF\xD3" + e.nl();
    size_t prev = 0;
    Model& m = d.model;
    m[d.root].v = Val::Arr();
    map<uint32_t, string> fixedObjs;
    auto writeObj = [&](uint32_t num, uint32_t gen, const string& body) {
        table[num] = { 1, out.size(), gen };
        out += strf("%u %u obj", num, gen) + e.nl() + body + e.nl() + "endobj" + e.nl();
    };
    string id = "0123456789ABCDEF0123456789ABCDEF";
    map<uint32_t, uint32_t> freedNow;    // number, generation
    for (int rev = 0; rev < o.revisions; rev++)
    {
        map<uint32_t, Entry> sect;
        table.clear();
        freedNow.clear();
        set<Ref> changed;
        if (rev == 0)
        {
            writeObj(1, 0, "<< /Type /Catalog /Pages 2 0 R /SimRoot 6 0 R >>");
            writeObj(2, 0, "<< /Type /Pages /Count 1 /Kids [ 3 0 R ] >>");
            writeObj(3, 0, "<< /Type /Page /Parent 2 0 R /MediaBox [ 0 0 595 842 ] /Resources << >> /Contents 4 0 R >>");
            string content = "q 1 0 0 1 0 0 cm 0 0 m 10 10 l S Q";
            writeObj(4, 0, strf("<< /Length %zu >>", content.size()) + e.nl() + "stream\n" + content + "\nendstream");
            writeObj(5, 0, "<< /Producer (ext) /CreationDate (D:20200101000000Z) >>");
        }
        vector<Ref> live;
        for (auto& p : m) live.push_back(p.first);
        unsigned n = rev == 0 ? objects : max(1u, objects / 3);
        // remove some objects in later revisions
        if (rev > 0 && rng.chance(1, 2))
            for (auto& r : live)
                if (r != d.root && rng.chance(1, 6))
                {
                    m.erase(r); d.dead.insert(r);
                    auto& arr = m[d.root].v.arr;
                    arr.erase(remove_if(arr.begin(), arr.end(), [&](const Val& v) { return v.ref == r; }), arr.end());
                    freedNow[r.first] = r.second;
                }
        live.clear();
        for (auto& p : m) live.push_back(p.first);
        for (unsigned i = 0; i < n; i++)
        {
            Ref r;
            if (rev > 0 && rng.chance(1, 2) && live.size() > 1)
            {
                r = live[rng.below(live.size())];
                if (r == d.root) continue;
                if (changed.count(r)) continue;
            }
            else
            {
                r = { next++, o.oddGens && rng.chance(1, 4) ? 1 + (uint32_t)rng.below(3) : 0 };
                if (o.base && rev == 0 && i == n / 2) next = max(next, o.base);
                if (rng.chance(1, 10)) next += (uint32_t)rng.below(4);     // gaps
                live.push_back(r);
                m[d.root].v.arr.push_back(Val::R(r));
            }
            changed.insert(r);
            MObj mo;
            mo.stream = rng.chance(1, 3);
            mo.v = mo.stream ? randomDict(rng, live, 2) : randomVal(rng, live, 3);
            if (mo.v.t == VT::Null || mo.v.t == VT::Ref) mo.v = Val::Int((int64_t)rng.below(1000));
            if (mo.stream) mo.data = randomData(rng, 4000);
            m[r] = mo;
        }
        changed.insert(d.root);
        // some objects go into object streams
        vector<Ref> packed;
        bool stream = o.xref == 1 || (o.xref == 2 && rev > 0);
        map<uint32_t, Entry> hidden;
        bool hybrid = o.hybrid && !stream;      // a table whose section is completed by a stream (/XRefStm)
        for (auto& r : changed)
        {
            auto& mo = m[r];
            string body;
            if (!mo.stream && (stream || hybrid) && o.objstm && r.second == 0 && rng.chance(2, 3)) { packed.push_back(r); continue; }
            if (mo.stream)
            {
                Val dict = mo.v;
                string enc = mo.data;
                int f = (int)rng.below(o.filters ? 8 : 3);
                Val fl;
                switch (f)
                {
                    case 1: enc = encFlate(enc); fl = Val::Name("FlateDecode"); break;
                    case 2: enc = encFlate(enc, 1); fl = Val::Arr(); fl.arr.push_back(Val::Name("FlateDecode")); break;
                    case 3: enc = encHex(enc, rng); fl = Val::Name("ASCIIHexDecode"); break;
                    case 4: enc = enc85(enc, rng); fl = Val::Name("ASCII85Decode"); break;
                    case 5: enc = encRle(enc, rng); fl = Val::Name("RunLengthDecode"); break;
                    case 6: enc = encLzw(enc); fl = Val::Name("LZWDecode"); break;
                    case 7: enc = enc85(encFlate(enc), rng); fl = Val::Arr(); fl.arr = { Val::Name("ASCII85Decode"), Val::Name("FlateDecode") }; break;
                    default: break;
                }
                if (fl.t != VT::Null) dict.dict["Filter"] = fl;
                // the length may be an indirect number written after the stream
                bool indirect = rng.chance(1, 4) && !o.directLen;
                uint32_t lenNum = 0;
                if (indirect) { lenNum = next++; Ref lr{ lenNum, 0 }; dict.dict["Length"] = Val::R(lr); d.plumbing.insert(lr); }
                else dict.dict["Length"] = Val::Int((int64_t)enc.size());
                e.val(body, dict);
                body += e.nl() + "stream" + (o.eol == 1 ? "\r\n" : "\n") + enc + e.nl() + "endstream";
                writeObj(r.first, r.second, body);
                if (indirect) writeObj(lenNum, 0, strf("%zu", enc.size()));
            }
            else if (r == d.root) continue;   // written last: it still grows
            else { e.val(body, mo.v); writeObj(r.first, r.second, body); }
        }
        if (find(packed.begin(), packed.end(), d.root) == packed.end()) { string body; e.val(body, m[d.root].v); writeObj(d.root.first, 0, body); }
        while (!packed.empty())
        {
            size_t take = min<size_t>(packed.size(), 1 + rng.below(12));
            vector<Ref> now(packed.begin(), packed.begin() + take);
            packed.erase(packed.begin(), packed.begin() + take);
            uint32_t num = next++;
            string head, body;
            uint32_t idx = 0;
            for (auto& r : now)
            {
                head += strf("%u %zu ", r.first, body.size());
                e.val(body, m[r].v);
                body += e.nl();
                table[r.first] = { 2, num, idx++ };
            }
            string data = head + body;
            bool comp = rng.chance(3, 4);
            string enc = comp ? encFlate(data) : data;
            table[num] = { 1, out.size(), 0 };
            out += strf("%u 0 obj\n<< /Type /ObjStm /N %zu /First %zu /Length %zu%s >>\nstream\n", num, now.size(), head.size(), enc.size(), comp ? " /Filter /FlateDecode" : "");
            out += enc + "\nendstream\nendobj\n";
        }
        for (auto& f : freedNow)
        {
            uint32_t g = f.second + 1;
            if (o.oddGens && rng.chance(1, 2)) { g = rng.chance(1, 2) ? 65535 : 2 + (uint32_t)rng.below(65533); if (g <= f.second) g = f.second + 1; d.dead.insert({ f.first, g - 1 }); }
            table[f.first] = { 0, 0, g };
        }
        // cross-reference section
        size_t xpos;
        string trailerKeys = strf("/Size %u /Root 1 0 R /Info 5 0 R /ID [ <%s> <%s> ]", next + (stream ? 1 : 0), id.c_str(), id.c_str());
        if (rev > 0) trailerKeys += strf(" /Prev %zu", prev);
        if (hybrid)
        {
            // the table leaves out what only the stream knows of
            hidden.clear();
            for (auto it = table.begin(); it != table.end();)
                if (it->second.type == 2) { hidden.insert(*it); it = table.erase(it); } else ++it;
            if (!hidden.empty())
            {
                uint32_t num = next++;
                size_t pos = out.size();
                hidden[num] = { 1, pos, 0 };
                string index, data;
                for (auto& h : hidden)
                {
                    index += strf("%u 1 ", h.first);
                    auto be = [&](uint64_t v, int w) { for (int k = w - 1; k >= 0; k--) data += (char)((v >> (8 * k)) & 255); };
                    be((uint64_t)h.second.type, 1); be(h.second.a, 4); be(h.second.b, 2);
                }
                trailerKeys = strf("/Size %u /Root 1 0 R /Info 5 0 R /ID [ <%s> <%s> ]", next, id.c_str(), id.c_str());
                out += strf("%u 0 obj\n<< /Type /XRef %s /W [ 1 4 2 ] /Index [ %s] /Length %zu >>\nstream\n", num, trailerKeys.c_str(), index.c_str(), data.size());
                out += data + "\nendstream\nendobj\n";
                if (rev > 0) trailerKeys += strf(" /Prev %zu", prev);
                trailerKeys += strf(" /XRefStm %zu", pos);
                d.plumbing.insert({ num, 0 });
                ctx().probe("ext-hybrid");
            }
        }
        if (!stream)
        {
            if (rev == 0)
            {
                table[0] = { 0, 0, 65535 };
                // numbers never used are free
                for (uint32_t i = 1; i < next && (i < 400 || i + 20 > next); i++) if (!table.count(i) && !hidden.count(i) && rng.chance(1, 2)) table[i] = { 0, 0, 65535 };
            }
            else if (!freedNow.empty()) table[0] = { 0, freedNow.begin()->first, 65535 };
            xpos = out.size();
            out += "xref" + e.nl();
            auto it = table.begin();
            while (it != table.end())
            {
                auto j = it; uint32_t cnt = 0;
                while (j != table.end() && j->first == it->first + cnt) { ++j; cnt++; }
                out += strf("%u %u", it->first, cnt) + e.nl();
                for (; it != j; ++it)
                    out += strf("%010llu %05u %c", (unsigned long long)it->second.a, it->second.b, it->second.type == 1 ? 'n' : 'f') + (o.eol == 1 ? "\r\n" : o.eol == 0 ? " \n" : " \r");
            }
            out += "trailer" + e.nl() + "<< " + trailerKeys + " >>" + e.nl();
        }
        else
        {
            uint32_t num = next++;
            xpos = out.size();
            table[num] = { 1, xpos, 0 };
            if (rev == 0) table[0] = { 0, 0, 65535 };
            int w0 = 1, w1 = out.size() > 65535 || next > 65535 ? 3 : 2 + (int)rng.below(3), w2 = 2;
            if (rev == 0 && rng.chance(1, 4)) w1 = 4;
            // forms of the section that lean on the defaults: no index, no type field, no generation field
            bool noIndex = false;
            if (o.defaults)
            {
                bool allInUse = true, zeroLast = true;
                for (auto& q : table) { if (q.second.type != 1) allInUse = false; if (q.first != 0 && q.second.b != 0) zeroLast = false; }
                if (rev == 0 && next < 2000)
                {
                    noIndex = true;
                    for (uint32_t i = 1; i < next; i++) if (!table.count(i)) { table[i] = { 0, 0, 65535 }; zeroLast = false; }
                }
                if (allInUse) w0 = 0;
                if (zeroLast) { w2 = 0; if (table.count(0)) table[0].b = 0; }
            }
            string index, data;
            auto it = table.begin();
            while (it != table.end())
            {
                auto j = it; uint32_t cnt = 0;
                while (j != table.end() && j->first == it->first + cnt) { ++j; cnt++; }
                index += strf("%u %u ", it->first, cnt);
                for (; it != j; ++it)
                {
                    auto be = [&](uint64_t v, int w) { for (int k = w - 1; k >= 0; k--) data += (char)((v >> (8 * k)) & 255); };
                    be((uint64_t)it->second.type, w0); be(it->second.a, w1); be(it->second.b, w2);
                }
            }
            string parms, enc = data;
            string filter;
            if (o.predictor)
            {
                enc = encFlate(encPng(data, 1, 8, w0 + w1 + w2, rng));
                filter = strf(" /Filter /FlateDecode /DecodeParms << /Predictor 12 /Columns %d >>", w0 + w1 + w2);
            }
            else if (rng.chance(1, 2)) { enc = encFlate(data); filter = " /Filter /FlateDecode"; }
            out += strf("%u 0 obj\n<< /Type /XRef %s /W [ %d %d %d ]%s /Length %zu%s >>\nstream\n", num, trailerKeys.c_str(), w0, w1, w2, noIndex ? "" : (" /Index [ " + index + "]").c_str(), enc.size(), filter.c_str());
            if (noIndex) ctx().probe("ext-no-index");
            if (w0 == 0 || w2 == 0) ctx().probe("ext-default-fields");
            out += enc + "\nendstream\nendobj\n";
        }
        prev = xpos;
        out += "startxref" + e.nl() + strf("%zu", xpos) + e.nl() + "%%EOF" + e.nl();
        d.revEnds.push_back(out.size());
        d.revModels.push_back(m);
    }
    d.bytes = out;
    return d;
}

void genStart(Rng& rng, Plan& p)
{
    p.cfg["start"] = (int64_t)rng.below(3) == 0 ? 0 : 1;       // 0 new document, 1 external file
    p.cfg["ext"] = (int64_t)rng.below(1000000);
    p.cfg["objects"] = rng.skew(25);
}

void startHist(const Plan& p, Hist& h)
{
    if (p.c("start") == 0) { h.create(); return; }
    Rng r((uint64_t)p.c("ext") + 5);
    auto o = randomExt(r);
    o.base = (uint32_t)p.c("base");
    o.directLen = p.c("direct") != 0;
    if (p.c("gens")) { o.oddGens = true; o.revisions = max(o.revisions, 2); }
    auto d = makeExternal(r, (unsigned)p.c("objects"), o);
    h.adopt(d.bytes, d.model, d.root, d.dead, d.plumbing);
    h.reload(devOpts((uint64_t)p.c("ext")));
    ctx().probe(o.xref == 0 ? "ext-table" : o.xref == 1 ? "ext-xrefstream" : "ext-mixed");
    if (o.objstm) ctx().probe("ext-objstm");
}


map<Ref, string> docSnapshot(PdfMemDocument& doc, bool skipDates)
{
    set<Ref> skip;
    if (skipDates)
    {
        // a save that stamps the modification date changes these (and may create them)
        for (auto k : { "Info" }) { auto o = doc.GetTrailer().GetDictionary().GetKey(k); if (o && o->IsReference()) skip.insert(fromRef(o->GetReference())); }
        auto o = doc.GetCatalog().GetDictionary().GetKey("Metadata");
        if (o && o->IsReference()) skip.insert(fromRef(o->GetReference()));
    }
    auto all = snapshot(doc);
    map<Ref, string> out;
    auto catalog = fromRef(doc.GetCatalog().GetObject().GetIndirectReference());
    for (auto& q : all)
    {
        if (skip.count(q.first) || isPlumbing(*doc.GetObjects().GetObject(toRef(q.first)))) continue;
        if (skipDates && q.first == catalog)
        {
            PdfObject copy(doc.GetCatalog().GetObject());
            copy.GetDictionary().RemoveKey("Metadata");
            out[q.first] = canon(copy);
        }
        else out.insert(q);
    }
    for (auto k : { "Root", "Info" })
    {
        if (skipDates && string(k) == "Info") continue;
        auto o = doc.GetTrailer().GetDictionary().GetKey(k);
        if (o) out[Ref{ 0, (uint32_t)(unsigned char)k[0] }] = canon(*o);
    }
    return out;
}

void keepReachable(map<Ref, string>& s, PdfMemDocument& doc)
{
    set<Ref> seen;
    vector<PdfReference> todo;
    walkRefs(doc.GetTrailer().GetObject(), todo);
    while (!todo.empty())
    {
        auto r = todo.back(); todo.pop_back();
        if (!seen.insert(fromRef(r)).second) continue;
        auto o = doc.GetObjects().GetObject(r);
        if (o) walkRefs(*o, todo);
    }
    for (auto it = s.begin(); it != s.end();) if (it->first.first && !seen.count(it->first)) it = s.erase(it); else ++it;
}

} // namespace sim
