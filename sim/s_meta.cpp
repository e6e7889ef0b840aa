// C16: modification stamps, metadata and file identifiers follow the clock and the history.
#include "docutil.h"
#include <ctime>
#include <array>
using namespace std;
using namespace mm;
using namespace sim;

namespace {

int64_t big(Rng& rng) { return (int64_t)rng.below(1u << 30); }

enum { Title, Author, Subject, Keywords, Creator, Producer, CDate, MDate, NFields };
const char* kNames[] = { "Title", "Author", "Subject", "Keywords", "Creator", "Producer", "CreationDate", "ModDate" };
const char* kXmp[] = { "dc:title", "dc:creator", "dc:description", "pdf:Keywords", "xmp:CreatorTool", "pdf:Producer", "xmp:CreateDate", "xmp:ModifyDate" };

// A field: absent, or text; dates as "seconds/offset"
struct F { bool has = false; string s; bool operator==(const F& o) const { return has == o.has && s == o.s; } };
using Meta = array<F, NFields>;
F val(string s) { return { true, move(s) }; }
string show(const F& f) { return f.has ? "'" + f.s.substr(0, 80) + "'" : "(none)"; }

const char* kTexts[] = { "Hello", "AT&T <b>bold</b> \"q\" 'a'", "\xC3\xA9t\xC3\xA9 \xE2\x82\xAC \xF0\x9F\x98\x80", "(paren\\s) ]]> &amp; %20", "x", "two\nlines\ttab", " lead and trail ", "&lt;&#65;&nbsp;", "Writer;Other, Third", "\xD8\xB3\xD9\x84\xD8\xA7\xD9\x85", "&", "<!-- c -->" };
string text(uint64_t i)
{
    const uint64_t n = sizeof(kTexts) / sizeof(*kTexts);
    if (i % 17 == 16) return string(700 + i % 900, 'L') + "&";
    return string(kTexts[i % n]) + (i / n % 3 ? strf(" %d", (int)(i / n % 50)) : "");
}

const char* kZones[] = { "UTC", "America/New_York", "Europe/Berlin", "Asia/Kathmandu", "Australia/Lord_Howe", "America/St_Johns", "Pacific/Apia", "Europe/Moscow", "America/Caracas", "Africa/Casablanca", "EST5EDT,M3.2.0,M11.1.0", "<+14>-14", "<-12>12", "Asia/Kolkata", "Asia/Pyongyang" };
const int64_t kMoments[] = { 1711846800, 1729990800, 1710054000, 1730613600, 1414274400, 1462086000, 1703980800, 951782400, 4102444800ll, 2147483647, 1, 1325242800, 9000000000ll, 1439564400, 1196031600 };
void setClock(uint64_t sel, uint64_t jitter)
{
    auto& w = world();
    w.setZone(kZones[sel % (sizeof(kZones) / sizeof(*kZones))]);
    int64_t t = kMoments[(sel / 64) % (sizeof(kMoments) / sizeof(*kMoments))];
    if (jitter % 3 == 0) t += (int64_t)(jitter / 3 % 7) - 3;
    else if (jitter % 3 == 1) t += (int64_t)(jitter / 3 % 400000) - 200000;
    else t = (int64_t)(jitter * 2654435761ull % 4102444800ull);
    if (t < 0) t += 86400 * 30;      // the clock shows instants since the epoch
    static const int64_t steps[] = { 0, 0, 1, 1000, 400000000ll, 1000000000ll };
    w.setClock(t, steps[jitter / 7 % 6]);
    w.clockNs += (int64_t)(jitter % 1000) * 999999;
    ctx().fault("clock-jump");
    ctx().clockAdvance += t > 0 ? t % 100000000 : 0;
}
int64_t nowSec() { auto ns = world().clockNs; return ns >= 0 ? ns / 1000000000 : -((-ns + 999999999) / 1000000000); }
int zoneMinutes(int64_t sec) { time_t t = (time_t)sec; struct tm l; memset(&l, 0, sizeof l); localtime_r(&t, &l); return (int)(l.tm_gmtoff / 60); }
string dateText(int64_t sec, int off, bool hasOff) { return hasOff ? strf("%lld/%d", (long long)sec, off) : strf("%lld/-", (long long)sec); }
F dateVal(const nullable<PdfDate>& d)
{
    if (d == nullptr) return {};
    auto m = d->GetMinutesFromUtc();
    return val(dateText(d->GetSecondsFromEpoch().count(), m.has_value() ? (int)m->count() : 0, m.has_value()));
}
int64_t civil(int y, int m, int d) { y -= m <= 2; int era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153u * (unsigned)(m + (m > 2 ? -3 : 9)) + 2) / 5 + (unsigned)d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return (int64_t)era * 146097 + (int64_t)doe - 719468; }
// Full dates as the library must write them: D:YYYYMMDDHHmmSS[Z|+hh'mm'] or the W3C form
bool parseDate(const string& s, F& out)
{
    int v[6], n = 0; size_t i = 0;
    bool pdf = s.compare(0, 2, "D:") == 0;
    if (pdf) i = 2;
    static const int len[] = { 4, 2, 2, 2, 2, 2 };
    static const char sep[] = "--T::";
    for (; n < 6; n++)
    {
        if (n && !pdf) { if (i >= s.size() || s[i] != sep[n - 1]) return false; i++; }
        int x = 0;
        for (int k = 0; k < len[n]; k++, i++) { if (i >= s.size() || !isdigit((unsigned char)s[i])) return false; x = x * 10 + (s[i] - '0'); }
        v[n] = x;
    }
    if (v[1] < 1 || v[1] > 12 || v[2] < 1 || v[2] > 31 || v[3] > 23 || v[4] > 59 || v[5] > 59) return false;
    int off = 0; bool has = false;
    if (i < s.size())
    {
        has = true;
        char c = s[i++];
        if (c != 'Z')
        {
            if (c != '+' && c != '-') return false;
            int h = 0, m = 0, used = 0;
            if (sscanf(s.c_str() + i, pdf ? "%2d'%2d'%n" : "%2d:%2d%n", &h, &m, &used) < 2 || !used || i + (size_t)used != s.size()) return false;
            off = (h * 60 + m) * (c == '-' ? -1 : 1);
        }
        else if (i != s.size()) return false;
    }
    int64_t sec = civil(v[0], v[1], v[2]) * 86400 + v[3] * 3600 + v[4] * 60 + v[5] - off * 60;
    out = val(dateText(sec, off, has));
    return true;
}

string xmlEscape(const string& s) { string r; for (char c : s) { if (c == '&') r += "&amp;"; else if (c == '<') r += "&lt;"; else if (c == '>') r += "&gt;"; else if (c == '"') r += "&quot;"; else if (c == '\n') r += "&#10;"; else if (c == '\t') r += "&#9;"; else r += c; } return r; }
string xmlUnescape(const string& s)
{
    string r;
    for (size_t i = 0; i < s.size(); i++)
    {
        if (s[i] != '&') { r += s[i]; continue; }
        auto e = s.find(';', i);
        if (e == string::npos) return r + "<bad entity>";
        auto n = s.substr(i + 1, e - i - 1);
        if (n == "amp") r += '&'; else if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "quot") r += '"'; else if (n == "apos") r += '\'';
        else if (!n.empty() && n[0] == '#')
        {
            unsigned c = n[1] == 'x' ? (unsigned)strtoul(n.c_str() + 2, nullptr, 16) : (unsigned)strtoul(n.c_str() + 1, nullptr, 10);
            if (c < 0x80) r += (char)c;
            else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
            else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
            else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
        }
        else return r + "<bad entity>";
        i = e;
    }
    return r;
}
// The properties of an XMP packet as this library serialises it (and our own producer)
bool xmpFields(const string& xmp, Meta& out, string& level)
{
    out = {}; level.clear();
    if (xmp.find("xmpmeta") == string::npos) return false;
    auto get = [&](const string& tag, F& f, bool list) {
        size_t n = 0, p = xmp.find("<" + tag);
        for (auto q = p; q != string::npos; q = xmp.find("<" + tag, q + 1)) { char c = xmp[q + tag.size() + 1]; if (c == '>' || c == ' ' || c == '/') { n++; p = q; } }
        if (n == 0)
        {
            // a property may also be an attribute
            auto a = xmp.find(" " + tag + "=\"");
            if (a == string::npos) return;
            a += tag.size() + 3;
            f = val(xmlUnescape(xmp.substr(a, xmp.find('"', a) - a)));
            return;
        }
        if (n > 1) ctx().fail("xmp-duplicate", "XMP has " + to_string(n) + " elements " + tag);
        auto e = xmp.find('>', p);
        if (xmp[e - 1] == '/') { f = val(""); return; }
        auto end = xmp.find("</" + tag + ">", e);
        if (end == string::npos) ctx().fail("xmp-malformed", "XMP element " + tag + " isn't closed");
        string body = xmp.substr(e + 1, end - e - 1);
        if (list)
        {
            auto l = body.find("<rdf:li");
            if (l == string::npos) { f = val("<no list item>"); return; }
            auto le = body.find('>', l);
            if (body[le - 1] == '/') { f = val(""); return; }
            auto lend = body.find("</rdf:li>", le);
            body = body.substr(le + 1, lend - le - 1);
        }
        f = val(xmlUnescape(body));
    };
    for (int i = 0; i < NFields; i++) get(kXmp[i], out[i], i <= Subject);
    F a, b;
    get("pdfaid:part", a, false); get("pdfaid:conformance", b, false);
    if (a.has || b.has) level = a.s + b.s;
    return true;
}

struct Model
{
    Meta info, xmp, cur;         // stored in Info, stored in XMP, current values
    F trapped;
    bool hasXmp = false;         // stored XMP metadata
    bool packet = false;         // there will be XMP metadata at the next synchronisation
    string level, xmpLevel;      // current, stored
    string id;                   // first file identifier of the stored file
    bool equal() const { for (int i = 0; i < NFields; i++) if (!(xmp[i] == cur[i])) return false; return level == xmpLevel; }
    void sync() { if (!packet) return; xmp = cur; xmpLevel = level; hasXmp = true; }
    void reinit()
    {
        for (int i = 0; i < NFields; i++) cur[i] = info[i].has ? info[i] : hasXmp ? xmp[i] : F{};
        level = hasXmp ? xmpLevel : "";
        packet = hasXmp;
    }
};

string pdfText(const string& utf8, uint64_t form)
{
    // strings of another producer: literal PDFDocEncoding or UTF-16 with a mark, literal or hexadecimal
    bool ascii = true;
    for (char c : utf8) if ((unsigned char)c >= 0x80) ascii = false;
    string b = utf8;
    if (!ascii || form % 3 == 2)
    {
        b = "\xFE\xFF";
        for (size_t i = 0; i < utf8.size();)
        {
            unsigned char c = (unsigned char)utf8[i]; unsigned cp; int n;
            if (c < 0x80) { cp = c; n = 1; } else if (c < 0xE0) { cp = c & 31; n = 2; } else if (c < 0xF0) { cp = c & 15; n = 3; } else { cp = c & 7; n = 4; }
            for (int k = 1; k < n; k++) cp = cp << 6 | ((unsigned char)utf8[i + k] & 63);
            i += (size_t)n;
            auto put = [&](unsigned u) { b += (char)(u >> 8); b += (char)u; };
            if (cp >= 0x10000) { cp -= 0x10000; put(0xD800 | cp >> 10); put(0xDC00 | (cp & 1023)); } else put(cp);
        }
    }
    if (form / 3 % 2) { string h = "<"; for (char c : b) h += strf("%02X", (unsigned char)c); return h + ">"; }
    string l = "(";
    for (char c : b) { if (c == '(' || c == ')' || c == '\\') l += '\\'; if (c == '\r') { l += "\\r"; continue; } if (c == '\n') { l += "\\n"; continue; } l += c; }
    return l + ")";
}
// A date of another producer, in one of the legal forms
string extDate(Rng& rng, bool xmp, F& v)
{
    int y = 1980 + (int)rng.below(80), m = 1 + (int)rng.below(12), d = 1 + (int)rng.below(28), h = (int)rng.below(24), mi = (int)rng.below(60), s = (int)rng.below(60);
    int off = ((int)rng.below(27) - 12) * 60 + (rng.chance(1, 4) ? 30 : 0);
    int zone = (int)rng.below(3);     // none, Z, offset
    if (xmp)
    {
        int form = (int)rng.below(6);   // YYYY, YYYY-MM, YYYY-MM-DD, no seconds, full, fraction
        if (form < 3) { if (form < 2) d = 1; if (form < 1) m = 1; v = val(dateText(civil(y, m, d) * 86400, 0, false)); return form == 0 ? strf("%04d", y) : form == 1 ? strf("%04d-%02d", y, m) : strf("%04d-%02d-%02d", y, m, d); }
        if (form == 3) s = 0;
        string t = strf("%04d-%02d-%02dT%02d:%02d", y, m, d, h, mi);
        if (form > 3) t += strf(":%02d", s);
        if (form == 5) t += strf(".%d", (int)rng.below(1000));
        if (form == 3 && zone == 0) zone = 1;
        if (zone == 1) t += "Z";
        if (zone == 2) t += strf("%c%02d:%02d", off < 0 ? '-' : '+', abs(off) / 60, abs(off) % 60);
        v = val(dateText(civil(y, m, d) * 86400 + h * 3600 + mi * 60 + s - (zone == 2 ? off * 60 : 0), zone == 2 ? off : 0, zone != 0));
        return t;
    }
    int parts = rng.chance(1, 3) ? 1 + (int)rng.below(6) : 6;
    if (parts < 6) s = 0; if (parts < 5) mi = 0; if (parts < 4) h = 0; if (parts < 3) d = 1; if (parts < 2) m = 1;
    if (parts < 4) zone = 0;
    string t = strf("D:%04d%02d%02d%02d%02d%02d", y, m, d, h, mi, s).substr(0, 4 + (size_t)parts * 2);
    if (zone == 1) t += "Z";
    if (zone == 2) t += strf("%c%02d'%02d", off < 0 ? '-' : '+', abs(off) / 60, abs(off) % 60) + (rng.chance(1, 2) ? "'" : "");
    v = val(dateText(civil(y, m, d) * 86400 + h * 3600 + mi * 60 + s - (zone == 2 ? off * 60 : 0), zone == 2 ? off : 0, zone != 0));
    return t;
}
string extXmp(Rng& rng, Model& m)
{
    m.xmp = {}; m.hasXmp = true; m.xmpLevel.clear();
    string parts[3];
    bool attrs = rng.chance(1, 4);
    string attr;
    for (int i = 0; i < NFields; i++)
    {
        if (rng.chance(1, 3)) continue;
        string v;
        if (i >= CDate) { if (rng.chance(1, 12)) { v = "not a date"; parts[0] += strf("<%s>", kXmp[i]) + v + strf("</%s>", kXmp[i]); m.xmp[i] = {}; continue; } v = extDate(rng, true, m.xmp[i]); }
        else { v = text(rng.below(200)); if (i == Keywords || i == Creator || i == Producer) for (auto& c : v) if (c == '\n' || c == '\t') c = ' '; m.xmp[i] = val(v); }
        string& out = parts[rng.below(3)];
        if (i == Title || i == Subject) out += strf("<%s><rdf:Alt><rdf:li xml:lang=\"x-default\">", kXmp[i]) + xmlEscape(v) + strf("</rdf:li></rdf:Alt></%s>", kXmp[i]);
        else if (i == Author) out += strf("<%s>\n <rdf:Seq>\n  <rdf:li>", kXmp[i]) + xmlEscape(v) + strf("</rdf:li>\n </rdf:Seq>\n</%s>", kXmp[i]);
        else if (attrs) attr += strf(" %s=\"", kXmp[i]) + xmlEscape(v) + "\"";
        else out += strf("<%s>", kXmp[i]) + xmlEscape(v) + strf("</%s>\n", kXmp[i]);
    }
    if (rng.chance(1, 4)) { parts[1] += "<pdfaid:part>2</pdfaid:part><pdfaid:conformance>B</pdfaid:conformance>"; m.xmpLevel = "2B"; }
    string ns = " xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:pdf=\"http://ns.adobe.com/pdf/1.3/\" xmlns:xmp=\"http://ns.adobe.com/xap/1.0/\" xmlns:pdfaid=\"http://www.aiim.org/pdfa/ns/id/\"";
    string x = "<?xpacket begin=\"\xEF\xBB\xBF\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\n<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"><rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">";
    bool one = rng.chance(1, 2);
    x += "<rdf:Description rdf:about=\"\"" + ns + attr + ">" + parts[0];
    if (!one) x += "</rdf:Description>\n<rdf:Description rdf:about=\"\"" + ns + ">";
    x += parts[1];
    if (!one) x += "</rdf:Description>\n<rdf:Description rdf:about=\"\"" + ns + ">";
    x += parts[2] + "</rdf:Description></rdf:RDF></x:xmpmeta>\n<?xpacket end=\"w\"?>";
    return x;
}
string extFile(Rng& rng, Model& m)
{
    vector<string> objs = { "", "<</Type/Pages/Count 1/Kids[3 0 R]>>", "<</Type/Page/Parent 2 0 R/MediaBox[0 0 100 100]/Resources<<>>>>" };
    string trailer;
    m = {};
    if (rng.chance(3, 4))
    {
        string d = "<<";
        for (int i = 0; i < NFields; i++)
        {
            if (rng.chance(1, 3)) continue;
            if (i >= CDate)
            {
                if (rng.chance(1, 12)) { d += strf("/%s(yesterday)", kNames[i]); continue; }
                d += strf("/%s(", kNames[i]) + extDate(rng, false, m.info[i]) + ")";
            }
            else { m.info[i] = val(text(rng.below(200))); d += strf("/%s", kNames[i]) + pdfText(m.info[i].s, rng.below(6)); }
        }
        if (rng.chance(1, 4)) { m.trapped = val("True"); d += "/Trapped/True"; }
        objs.push_back(d + ">>");
        trailer += strf("/Info %zu 0 R", objs.size());
    }
    string cat = "<</Type/Catalog/Pages 2 0 R";
    if (rng.chance(1, 2))
    {
        auto x = extXmp(rng, m);
        string dict = "/Type/Metadata/Subtype/XML", data = x;
        if (rng.chance(1, 4)) { data = encFlate(x); dict += "/Filter/FlateDecode"; }
        objs.push_back("<<" + dict + strf("/Length %zu>>\nstream\n", data.size()) + data + "\nendstream");
        cat += strf("/Metadata %zu 0 R", objs.size());
    }
    objs[0] = cat + ">>";
    switch (rng.below(3))
    {
        case 0: { string h; for (int i = 0; i < 16; i++) h += strf("%02X", (int)rng.below(256)); trailer += "/ID[<" + h + "><00112233445566778899AABBCCDDEEFF>]"; break; }
        case 1: { string s; for (int i = 0; i < 16; i++) { char c = (char)rng.below(256); if (c == '\\' || c == '(' || c == ')' || c == '\r' || c == '\n') c = 'x'; s += c; } if (rng.chance(1, 4)) { s[0] = '\xFE'; s[1] = '\xFF'; } trailer += "/ID[(" + s + ")(0123456789abcdef)]"; break; }
        default: break;
    }
    string f = "%PDF-1.4\n%\xE2\xE3\xCF\xD3\n";
    string xref = strf("xref\n0 %zu\n0000000000 65535 f \n", objs.size() + 1);
    for (size_t i = 0; i < objs.size(); i++) { xref += strf("%010zu 00000 n \n", f.size()); f += strf("%zu 0 obj\n", i + 1) + objs[i] + "\nendobj\n"; }
    auto at = f.size();
    f += xref + strf("trailer\n<</Size %zu/Root 1 0 R", objs.size() + 1) + trailer + strf(">>\nstartxref\n%zu\n%%%%EOF\n", at);
    m.reinit();
    return f;
}

string fileId(PdfMemDocument& doc)
{
    auto id = doc.GetTrailer().GetDictionary().FindKey("ID");
    if (!id || !id->IsArray() || id->GetArray().GetSize() < 1 || !id->GetArray()[0].IsString()) return "";
    return id->GetArray()[0].GetString().GetRawData();
}
F str(const nullable<PdfString>& s) { if (s == nullptr) return {}; return val(s->GetString()); }
Meta getters(PdfMetadata& m) { return { str(m.GetTitle()), str(m.GetAuthor()), str(m.GetSubject()), str(m.GetKeywordsRaw()), str(m.GetCreator()), str(m.GetProducer()), dateVal(m.GetCreationDate()), dateVal(m.GetModifyDate()) }; }

void same(const char* cls, const char* where, const char* what, const Meta& want, const Meta& got)
{
    for (int i = 0; i < NFields; i++)
        if (!(want[i] == got[i]) && !((want[i].s.empty() && got[i].s.empty())))
            ctx().fail(strf("%s:%s", cls, kNames[i]), strf("%s: %s of %s should be ", where, kNames[i], what) + show(want[i]) + " but is " + show(got[i]));
}

// What is stored in a document: the Info dictionary and the XMP metadata
void verifyStored(PdfMemDocument& doc, const Model& m, const char* where)
{
    Meta info, xmp;
    auto obj = doc.GetTrailer().GetDictionary().FindKey("Info");
    F trapped;
    if (obj)
    {
        auto& d = obj->GetDictionary();
        for (int i = 0; i < NFields; i++)
        {
            auto o = d.FindKey(kNames[i]);
            if (!o || !o->IsString()) continue;
            auto s = o->GetString().GetString();
            // dates of other producers stay as they are until set: compared where they are read
            if (i >= CDate) { if (!parseDate(s, info[i])) info[i] = m.info[i]; } else info[i] = val(s);
        }
        auto t = d.FindKey("Trapped");
        if (t && t->IsName()) trapped = val(t->GetName().GetString());
    }
    same("info", where, "the Info dictionary", m.info, info);
    ctx().check(trapped == m.trapped, "info:Trapped", strf("%s: Trapped should be ", where) + show(m.trapped) + " but is " + show(trapped));
    auto x = doc.GetCatalog().GetMetadataStreamValue();
    string level;
    bool has = xmpFields(x, xmp, level);
    ctx().check(has == m.hasXmp, "xmp-presence", strf("%s: XMP metadata is %s", where, has ? "there although it was never made" : "missing"));
    if (!has) return;
    for (int i = CDate; i < NFields; i++) if (xmp[i].has) { F v; if (parseDate(xmp[i].s, v)) xmp[i] = v; else xmp[i] = m.xmp[i]; }
    same("xmp", where, "the XMP metadata", m.xmp, xmp);
    ctx().check(level == m.xmpLevel, "xmp:PdfALevel", strf("%s: PDF/A level of the XMP metadata should be '%s' but is '%s'", where, m.xmpLevel.c_str(), level.c_str()));
}

const char* kLevels[] = { "", "1B", "1A", "2B", "2A", "2U", "3B", "3A", "3U", "4E", "4F" };
PdfALevel level(const string& s)
{
    static const PdfALevel l[] = { PdfALevel::Unknown, PdfALevel::L1B, PdfALevel::L1A, PdfALevel::L2B, PdfALevel::L2A, PdfALevel::L2U, PdfALevel::L3B, PdfALevel::L3A, PdfALevel::L3U, PdfALevel::L4E, PdfALevel::L4F };
    for (int i = 0; i < 11; i++) if (s == kLevels[i]) return l[i];
    return PdfALevel::Unknown;
}

void verifyLive(PdfMemDocument& doc, const Model& m, const char* where)
{
    auto& md = doc.GetMetadata();
    same("value", where, "the document", m.cur, getters(md));
    ctx().check(md.GetPdfALevel() == level(m.level), "value:PdfALevel", strf("%s: PDF/A level of the document should be '%s'", where, m.level.c_str()));
    string t = m.trapped.has && (m.trapped.s == "True" || m.trapped.s == "False") ? m.trapped.s : "Unknown";
    ctx().check(md.GetTrapped() == t, "value:Trapped", strf("%s: trapped state should be %s", where, t.c_str()));
}

void gen16(Rng& rng, Plan& p)
{
    p.cfg["start"] = (int64_t)rng.below(3);      // 0: new document, else: another producer's file
    p.cfg["ext"] = big(rng);
    p.cfg["clock"] = big(rng);
    p.cfg["jit"] = big(rng);
    p.cfg["enc"] = rng.chance(1, 6) ? 1 + (int64_t)rng.below(5) : 0;
    auto n = 2 + rng.below(18);
    for (uint64_t i = 0; i < n; i++)
        switch (rng.below(24))
        {
            case 0: case 1: case 2: case 3: case 4: case 5: case 6:
                p.add("set", { (int64_t)rng.below(NFields), rng.chance(1, 5) ? -1 : (int64_t)rng.below(200), (int64_t)rng.below(2) }); break;
            case 7: p.add("sync", { (int64_t)rng.below(2) }); break;
            case 8: p.add("level", { (int64_t)rng.below(11), (int64_t)rng.below(2) }); break;
            case 9: p.add("ensure"); break;
            case 10: p.add("take"); break;
            case 11: p.add("setxmp", { big(rng) }); break;
            case 12: p.add("trapped", { (int64_t)rng.below(3) }); break;
            case 13: case 14: p.add("clock", { big(rng), big(rng) }); break;
            case 15: case 16: p.add("save", { (int64_t)rng.below(32), big(rng) }); break;
            case 17: case 18: case 19: p.add("update", { (int64_t)rng.below(32), big(rng) }); break;
            case 20: p.add("reopen", { big(rng), (int64_t)rng.below(2) }); break;
            case 21: p.add("failsave", { (int64_t)rng.below(5000), (int64_t)rng.below(3), (int64_t)rng.below(2) }); break;
            case 22: p.add("copy"); break;
            default: p.add("check"); break;
        }
}

void run16(const Plan& p)
{
    auto& c = ctx();
    setClock(p.u("clock"), p.u("jit"));
    unique_ptr<PdfMemDocument> doc;
    Model m;
    string stored;               // the file the document was loaded from ("" : none)
    string pw;
    auto stamp = [&](int64_t t0, F& v) {
        // the stamp's instant must be one the clock showed meanwhile; its zone the one in effect then
        auto t1 = nowSec();
        if (t1 < t0) t1 = t0;
        bool ok = false;
        string allowed;
        for (int64_t t = t0; t <= t1 && t <= t0 + 400 && !ok; t++)
            for (int64_t z = t0; z <= t1 && z <= t0 + 400 && !ok; z++) { if (v == val(dateText(t, zoneMinutes(z), true))) ok = true; }
        c.check(v.has && ok, "stamp", strf("modification date is %s, but the clock showed %lld to %lld in zone %s (%d minutes)", show(v).c_str(), (long long)t0, (long long)t1, getenv("TZ"), zoneMinutes(t0)));
    };
    if (p.c("start") == 0)
    {
        auto t0 = nowSec();
        doc = make_unique<PdfMemDocument>();
        doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100));
        auto g = getters(doc->GetMetadata());
        stamp(t0, g[CDate]);
        m.info[CDate] = g[CDate];
        m.info[Producer] = g[Producer];
        c.check(g[Producer].has, "value:Producer", "a new document has no producer");
        m.reinit();
    }
    else
    {
        Rng rng(p.u("ext"));
        stored = extFile(rng, m);
        doc = loadDoc(stored);
        m.id = fileId(*doc);
        c.probe("ext-start");
    }
    if (p.c("enc") && p.c("start") == 0)
    {
        static const PdfEncryptAlgorithm algs[] = { PdfEncryptAlgorithm::RC4V1, PdfEncryptAlgorithm::RC4V2, PdfEncryptAlgorithm::AESV2, PdfEncryptAlgorithm::AESV3, PdfEncryptAlgorithm::AESV3R6 };
        auto a = algs[(p.c("enc") - 1) % 5];
        doc->SetEncrypted("user", "owner", PdfPermissions::Default, a, a == PdfEncryptAlgorithm::RC4V1 ? PdfKeyLength::L40 : a >= PdfEncryptAlgorithm::AESV3 ? PdfKeyLength::L256 : PdfKeyLength::L128);
        pw = "user";
    }
    auto reopen = [&](const string& bytes, uint64_t dev, bool sameObject) {
        if (sameObject) doc->LoadFromDevice(makeDevice(bytes, devOpts(dev)), pw);
        else doc = loadDoc(bytes, pw, devOpts(dev));
        stored = bytes;
        m.reinit();
        c.probe(sameObject ? "reopen-same" : "reopen");
    };
    auto afterWrite = [&](const string& bytes, bool update, uint64_t dev, const char* where) {
        auto d = loadDoc(bytes, pw, devOpts(dev));
        verifyStored(*d, m, where);
        Model r = m;
        r.reinit();
        verifyLive(*d, r, where);
        auto id = fileId(*d);
        c.check(!id.empty(), "id-missing", strf("%s: the file has no identifier", where));
        if (update && !m.id.empty()) c.check(id == m.id, "id-changed", strf("%s: first file identifier was %s and is %s", where, hex(m.id).c_str(), hex(id).c_str()));
        if (update) m.id = id;
        return id;
    };
    auto written = [&](PdfSaveOptions o, int64_t t0) {
        if ((o & PdfSaveOptions::NoModifyDateUpdate) != PdfSaveOptions::None) { c.probe("save-nostamp"); return; }
        auto v = dateVal(doc->GetMetadata().GetModifyDate());
        stamp(t0, v);
        m.info[MDate] = m.cur[MDate] = v;
        m.sync();
        c.probe("save-stamped");
    };
    for (auto& op : p.ops)
    {
        c.setStage(op.k);
        auto& md = doc->GetMetadata();
        if (op.k == "set")
        {
            int f = (int)(op.u(0) % NFields);
            bool sync = op.at(2) != 0;
            F v;
            nullable<PdfDate> date;
            if (op.at(1) >= 0)
            {
                if (f >= CDate)
                {
                    Rng r(op.u(1));
                    int64_t sec = (int64_t)r.below(4102444800ull); bool z = r.chance(3, 4); int off = ((int)r.below(27) - 12) * 60 + (r.chance(1, 3) ? 45 : 0);
                    date = z ? PdfDate(chrono::seconds(sec), nullable<chrono::minutes>(chrono::minutes(off))) : PdfDate(chrono::seconds(sec), nullable<chrono::minutes>());
                    v = val(dateText(sec, z ? off : 0, z));
                }
                else v = val(text(op.u(1)));
                if (f == Keywords) { v.s = strf("word%d&", (int)op.u(1)); }
            }
            if (m.cur[f] == v && !m.equal()) continue;      // setting the current value again needn't synchronise others
            PdfString s(v.s);
            nullable<const PdfString&> ps;
            if (v.has) ps = s;
            switch (f)
            {
                case Title: md.SetTitle(ps, sync); break;
                case Author: md.SetAuthor(ps, sync); break;
                case Subject: md.SetSubject(ps, sync); break;
                case Keywords: if (v.has) md.SetKeywords({ v.s }, sync); else md.SetKeywords({}, sync); break;
                case Creator: md.SetCreator(ps, sync); break;
                case Producer: md.SetProducer(ps, sync); break;
                case CDate: md.SetCreationDate(date, sync); break;
                default: md.SetModifyDate(date, sync); break;
            }
            if (!(m.cur[f] == v)) { m.info[f] = m.cur[f] = v; if (sync) m.sync(); }
            c.ev("set", f, op.at(1), sync);
        }
        else if (op.k == "sync") { md.SyncXMPMetadata(op.at(0) != 0); if (op.at(0)) m.packet = true; m.sync(); }
        else if (op.k == "level")
        {
            string l = kLevels[op.u(0) % 11];
            if (l == m.level && !m.equal()) continue;
            md.SetPdfALevel(level(l), op.at(1) != 0);
            if (l != m.level)
            {
                if (!l.empty()) { m.packet = true; m.info[CDate] = m.cur[CDate]; m.info[MDate] = m.cur[MDate]; }
                m.level = l;
                if (op.at(1)) m.sync();
            }
        }
        else if (op.k == "ensure") { md.EnsureXMPMetadata(); m.packet = true; m.info[CDate] = m.cur[CDate]; m.info[MDate] = m.cur[MDate]; }
        else if (op.k == "take")
        {
            bool had = m.packet;
            auto want = m;
            want.sync();
            verifyLive(*doc, m, "before taking the packet");
            auto pk = md.TakeXMPPacket();
            c.check((pk != nullptr) == had, "take", had ? "no packet was handed out" : "a packet was handed out though there is none");
            if (pk)
            {
                Meta x; string l;
                c.check(xmpFields(pk->ToString(), x, l), "take", "the packet handed out isn't XMP");
                for (int i = CDate; i < NFields; i++) if (x[i].has) { F v; if (parseDate(x[i].s, v)) x[i] = v; else x[i] = want.xmp[i]; }
                // a packet that is up to date is handed out as it is
                if (!m.equal()) same("take", "packet taken", "the packet", want.xmp, x);
            }
            m.reinit();
        }
        else if (op.k == "setxmp")
        {
            Rng r(op.u(0));
            doc->GetCatalog().SetMetadataStreamValue(extXmp(r, m));
            m.reinit();
            c.probe("setxmp");
        }
        else if (op.k == "trapped")
        {
            static const char* t[] = { "True", "False", "Unknown" };
            PdfName n(t[op.u(0) % 3]);
            md.SetTrapped(n);
            m.trapped = val(t[op.u(0) % 3]);
        }
        else if (op.k == "clock") setClock(op.u(0), op.u(1));
        else if (op.k == "save")
        {
            auto o = (PdfSaveOptions)(op.u(0) & (4 | 8 | 16));
            auto t0 = nowSec();
            auto dev = makeDevice("", devOpts(op.u(1)), DeviceAccess::ReadWrite);
            doc->Save(*dev, o);
            written(o, t0);
            c.state(hashBytes(strf("s%d%d", (int)m.hasXmp, (int)o)));
            auto id = afterWrite(*dev->data, false, op.u(1) / 64, "after save");
            if (op.u(0) / 8 % 2) { reopen(*dev->data, op.u(1) / 1024, op.u(1) % 2); m.id = id; }
        }
        else if (op.k == "update")
        {
            if (stored.empty() || (!pw.empty() && doc->GetEncrypt() == nullptr)) continue;
            auto o = (PdfSaveOptions)(op.u(0) & (4 | 8 | 16));
            auto t0 = nowSec();
            auto dev = makeDevice(stored, devOpts(op.u(1)), DeviceAccess::ReadWrite);
            doc->SaveUpdate(*dev, o);
            written(o, t0);
            c.probe("update");
            afterWrite(*dev->data, true, op.u(1) / 64, "after update");
            reopen(*dev->data, op.u(1) / 1024, op.u(1) % 2);
        }
        else if (op.k == "reopen")
        {
            auto dev = makeDevice("", {}, DeviceAccess::ReadWrite);
            doc->Save(*dev, PdfSaveOptions::NoModifyDateUpdate);
            auto id = afterWrite(*dev->data, false, op.u(0), "after save before reopening");
            reopen(*dev->data, op.u(0) / 64, op.at(1) != 0);
            m.id = id;
        }
        else if (op.k == "failsave")
        {
            // a save that fails part way: the metadata of the document stays intact
            auto dev = makeDevice(op.at(2) && !stored.empty() ? stored : "", {}, DeviceAccess::ReadWrite);
            dev->opts.capacity = (int64_t)dev->data->size() + op.at(0);
            auto t0 = nowSec();
            bool failed = false;
            try { if (op.at(2) && !stored.empty()) doc->SaveUpdate(*dev); else doc->Save(*dev); }
            catch (const std::exception&) { failed = true; }
            if (failed) c.probe("save-failed");
            written(PdfSaveOptions::None, t0);
            if (!failed && op.at(2) && !stored.empty()) { reopen(*dev->data, 0, false); m.id = fileId(*doc); }
        }
        else if (op.k == "copy")
        {
            PdfMemDocument copy(*doc);
            auto r = m;
            verifyStored(copy, r, "copied document");
            r.reinit();
            verifyLive(copy, r, "copied document");
        }
        else verifyLive(*doc, m, "in memory");
        verifyStored(*doc, m, op.k.c_str());
        c.state(hashBytes(op.k + strf("%d%d%d", (int)m.hasXmp, (int)m.packet, (int)m.equal())));
    }
    verifyLive(*doc, m, "at the end");
}

Register r16({ "C16", "metadata", 1, 6000, gen16, run16 });

} // namespace
