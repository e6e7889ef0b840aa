// C10: encryption protects and preserves documents
#include "rich.h"
#include <zlib.h>
#include <openssl/evp.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
using namespace std;
using namespace mm;
using namespace sim;

namespace {

int64_t big(Rng& rng) { return (int64_t)rng.below(1000); }

// ---------------------------------------------------------------- reference implementation of the standard security handler
// Written from ISO 32000 (7.6), only on top of OpenSSL's primitives.
string md5(const string& s) { unsigned char d[16]; EVP_Digest(s.data(), s.size(), d, nullptr, EVP_md5(), nullptr); return string((char*)d, 16); }
string sha(int bits, const string& s)
{
    unsigned char d[64]; unsigned n = 0;
    EVP_Digest(s.data(), s.size(), d, &n, bits == 256 ? EVP_sha256() : bits == 384 ? EVP_sha384() : EVP_sha512(), nullptr);
    return string((char*)d, n);
}
string rc4(const string& key, string s)
{
    unsigned char st[256]; for (int i = 0; i < 256; i++) st[i] = (unsigned char)i;
    for (int i = 0, j = 0; i < 256; i++) { j = (j + st[i] + (unsigned char)key[i % key.size()]) & 255; swap(st[i], st[j]); }
    int a = 0, b = 0;
    for (auto& ch : s) { a = (a + 1) & 255; b = (b + st[a]) & 255; swap(st[a], st[b]); ch = (char)(ch ^ st[(st[a] + st[b]) & 255]); }
    return s;
}
bool aes(const string& key, const string& iv, const string& in, string& out, bool enc, bool pad)
{
    auto c = EVP_CIPHER_CTX_new();
    out.assign(in.size() + 32, 0);
    int n = 0, m = 0;
    bool ok = EVP_CipherInit_ex(c, key.size() == 16 ? EVP_aes_128_cbc() : EVP_aes_256_cbc(), nullptr, (const unsigned char*)key.data(), (const unsigned char*)iv.data(), enc) == 1;
    EVP_CIPHER_CTX_set_padding(c, pad);
    ok = ok && EVP_CipherUpdate(c, (unsigned char*)&out[0], &n, (const unsigned char*)in.data(), (int)in.size()) == 1;
    ok = ok && EVP_CipherFinal_ex(c, (unsigned char*)&out[n], &m) == 1;
    EVP_CIPHER_CTX_free(c);
    out.resize(ok ? n + m : 0);
    return ok;
}
const string kPad("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A", 32);
string padPw(const string& pw) { return (pw + kPad).substr(0, 32); }
struct Enc
{
    int V = 0, R = 0, bits = 40;
    uint32_t P = 0;
    string O, U, OE, UE, Perms, id;
    bool meta = true, aes = false;
    int n() const { return bits / 8; }
};
string refKey(const Enc& e, const string& padded)
{
    string s = padded + e.O;
    for (int i = 0; i < 4; i++) s += (char)(e.P >> (8 * i));
    s += e.id;
    if (e.R >= 4 && !e.meta) s += "\xff\xff\xff\xff";
    string d = md5(s);
    if (e.R >= 3) for (int i = 0; i < 50; i++) d = md5(d.substr(0, e.n()));
    return d.substr(0, e.R == 2 ? 5 : e.n());
}
string refU(const Enc& e, const string& key)
{
    if (e.R == 2) return rc4(key, kPad);
    string d = md5(kPad + e.id);
    for (int i = 0; i < 20; i++) { string k = key; for (auto& ch : k) ch = (char)(ch ^ i); d = rc4(k, d); }
    return d;
}
string ownerKey(const Enc& e, const string& owner)
{
    string d = md5(padPw(owner));
    if (e.R >= 3) for (int i = 0; i < 50; i++) d = md5(d.substr(0, e.n()));
    return d.substr(0, e.R == 2 ? 5 : e.n());
}
string refO(const Enc& e, const string& user, const string& owner)
{
    string k0 = ownerKey(e, owner), d = padPw(user);
    if (e.R == 2) return rc4(k0, d);
    for (int i = 0; i < 20; i++) { string k = k0; for (auto& ch : k) ch = (char)(ch ^ i); d = rc4(k, d); }
    return d;
}
string hash5(int R, const string& pw, const string& salt, const string& udata)
{
    string k = sha(256, pw + salt + udata);
    if (R < 6) return k;
    for (int i = 0; ; i++)
    {
        string one = pw + k + udata, k1, e;
        for (int j = 0; j < 64; j++) k1 += one;
        aes(k.substr(0, 16), k.substr(16, 16), k1, e, true, false);
        int sum = 0; for (int j = 0; j < 16; j++) sum += (unsigned char)e[j];
        k = sha(sum % 3 == 0 ? 256 : sum % 3 == 1 ? 384 : 512, e);
        if (i >= 63 && (unsigned char)e.back() <= i - 31) break;
    }
    return k.substr(0, 32);
}
// 0 refused, 1 user, 2 owner
int refAuth(const Enc& e, const string& pw0, string& key)
{
    if (e.V == 5)
    {
        string pw = pw0.substr(0, 127), z(16, 0);
        auto cut = [](const string& s, size_t a, size_t n) { return s.size() >= a + n ? s.substr(a, n) : string(n, 0); };
        string u48 = e.U.substr(0, 48);
        if (hash5(e.R, pw, cut(e.U, 32, 8), "") == cut(e.U, 0, 32)) { aes(hash5(e.R, pw, cut(e.U, 40, 8), ""), z, e.UE.substr(0, 32), key, false, false); return 1; }
        if (hash5(e.R, pw, cut(e.O, 32, 8), u48) == cut(e.O, 0, 32)) { aes(hash5(e.R, pw, cut(e.O, 40, 8), u48), z, e.OE.substr(0, 32), key, false, false); return 2; }
        return 0;
    }
    size_t cmp = e.R == 2 ? 32 : 16;
    key = refKey(e, padPw(pw0));
    if (refU(e, key).substr(0, cmp) == e.U.substr(0, cmp)) return 1;
    string d = e.O.substr(0, 32), k0 = ownerKey(e, pw0);
    if (e.R == 2) d = rc4(k0, d);
    else for (int i = 19; i >= 0; i--) { string k = k0; for (auto& ch : k) ch = (char)(ch ^ i); d = rc4(k, d); }
    key = refKey(e, d);
    return refU(e, key).substr(0, cmp) == e.U.substr(0, cmp) ? 2 : 0;
}
string objKey(const Enc& e, const string& key, Ref r)
{
    if (e.V == 5) return key;
    string s = key;
    s += (char)r.first; s += (char)(r.first >> 8); s += (char)(r.first >> 16); s += (char)r.second; s += (char)(r.second >> 8);
    if (e.aes) s += "sAlT";
    return md5(s).substr(0, min<size_t>(16, key.size() + 5));
}
bool refDecrypt(const Enc& e, const string& key, Ref r, const string& in, string& out)
{
    string k = objKey(e, key, r);
    if (!e.aes) { out = rc4(k, in); return true; }
    if (in.size() < 32) return false;
    return aes(k, in.substr(0, 16), in.substr(16), out, false, true);
}
string refEncrypt(const Enc& e, const string& key, Ref r, const string& in, Rng& rng)
{
    string k = objKey(e, key, r);
    if (!e.aes) return rc4(k, in);
    string iv, out; for (int i = 0; i < 16; i++) iv += (char)rng.below(256);
    aes(k, iv, in, out, true, true);
    return iv + out;
}

bool inflate(string& s)
{
    string o(1 << 20, 0);
    uLongf n = (uLongf)o.size();
    if (uncompress((Bytef*)&o[0], &n, (const Bytef*)s.data(), (uLong)s.size()) != Z_OK) return false;
    s = o.substr(0, n);
    return true;
}

// ---------------------------------------------------------------- reading the stored bytes without the library's document layer
PdfVariant parseAt(const string& bytes, size_t at)
{
    string buf = bytes.substr(at, 1 << 20);
    SpanStreamDevice d(buf.data(), buf.size());
    PdfTokenizer t; PdfVariant v;
    t.ReadNextVariant(d, v);
    return v;
}
// The last definition of an object
size_t findObj(const string& bytes, Ref r)
{
    string k = strf("%u %u obj", r.first, r.second);
    for (size_t at = bytes.rfind(k); at != string::npos; at = at ? bytes.rfind(k, at - 1) : string::npos)
        if (at == 0 || !isdigit((unsigned char)bytes[at - 1])) return at + k.size();
    return string::npos;
}
string rawStr(const PdfObject& o) { auto d = o.GetString().GetRawData(); return string(d.data(), d.size()); }
bool readEnc(const string& bytes, Enc& e)
{
    size_t at = bytes.rfind("/Encrypt ");
    if (at == string::npos) return false;
    unsigned n = 0, g = 0;
    if (sscanf(bytes.c_str() + at + 9, "%u %u R", &n, &g) != 2) return false;
    size_t o = findObj(bytes, { n, g });
    if (o == string::npos) ctx().fail("encrypt-dict", strf("the encryption dictionary %u %u R does not exist", n, g));
    auto v = parseAt(bytes, o);
    auto& d = v.GetDictionary();
    e.V = (int)d.MustGetKey("V").GetNumber(); e.R = (int)d.MustGetKey("R").GetNumber();
    e.bits = d.HasKey("Length") ? (int)d.MustGetKey("Length").GetNumber() : 40;
    if (e.V == 1) e.bits = 40;
    e.P = (uint32_t)d.MustGetKey("P").GetNumber();
    e.O = rawStr(d.MustGetKey("O")); e.U = rawStr(d.MustGetKey("U"));
    if (e.V == 5) { e.OE = rawStr(d.MustGetKey("OE")); e.UE = rawStr(d.MustGetKey("UE")); e.Perms = rawStr(d.MustGetKey("Perms")); }
    if (d.HasKey("EncryptMetadata")) e.meta = d.MustGetKey("EncryptMetadata").GetBool();
    e.aes = e.V == 5;
    if (e.V == 4) e.aes = d.MustGetKey("CF").GetDictionary().MustGetKey("StdCF").GetDictionary().MustGetKey("CFM").GetName().GetString() == "AESV2";
    size_t id = bytes.rfind("/ID");
    auto a = parseAt(bytes, id + 3);
    e.id = rawStr(a.GetArray()[0]);
    return true;
}

// ---------------------------------------------------------------- scenario
const PdfPermissions kPerms[] = { PdfPermissions::Print, PdfPermissions::Edit, PdfPermissions::Copy, PdfPermissions::EditNotes, PdfPermissions::FillAndSign, PdfPermissions::Accessible, PdfPermissions::DocAssembly, PdfPermissions::HighPrint };
const PdfEncryptAlgorithm kAlgs[] = { PdfEncryptAlgorithm::RC4V1, PdfEncryptAlgorithm::RC4V2, PdfEncryptAlgorithm::AESV2, PdfEncryptAlgorithm::AESV3, PdfEncryptAlgorithm::AESV3R6 };
const PdfKeyLength kLens[] = { PdfKeyLength::L40, PdfKeyLength::L56, PdfKeyLength::L80, PdfKeyLength::L96, PdfKeyLength::L128, PdfKeyLength::L256 };

string password(uint64_t sel, bool utf8)
{
    Rng r(Rng::mix(sel * 7919 + 3));
    if (sel % 6 == 0) return "";
    size_t n = sel % 5 == 0 ? 28 + r.below(12) : 1 + r.below(16);
    if (sel % 17 == 0) n = 120 + r.below(20);
    string s;
    while (s.size() < n) { if (sel % 7 == 3 && r.chance(1, 4)) s += utf8 ? "\xc3\xa9" : "\xe9"; else s += (char)(33 + r.below(94)); }
    return s;
}
struct Sec
{
    bool on = false;
    string user, owner;
    PdfPermissions perms = PdfPermissions::None;
    PdfEncryptAlgorithm alg = PdfEncryptAlgorithm::AESV2;
    PdfKeyLength len = PdfKeyLength::L128;
    bool v5() const { return alg == PdfEncryptAlgorithm::AESV3 || alg == PdfEncryptAlgorithm::AESV3R6; }
    string effOwner() const { return owner.empty() ? user : owner; }
    bool opens(const string& pw) const
    {
        size_t n = v5() ? 127 : 32;
        auto f = [&](const string& s) { return v5() ? s.substr(0, n) : padPw(s); };
        return f(pw) == f(user) || f(pw) == f(effOwner());
    }
};
struct Secret { Ref str, stream; string text, data; };

void gen10(Rng& rng, Plan& p)
{
    genStart(rng, p);
    p.cfg["ext"] = rng.chance(1, 5) ? 1 + big(rng) : 0;
    p.cfg["clock"] = (int64_t)rng.below(2000000000);
    bool wide = rng.chance(1, 30);
    if (wide) p.cfg["base"] = 65500 + (int64_t)rng.below(100);
    p.cfg["gens"] = rng.chance(1, 4);
    auto n = 3 + rng.below(wide ? 3 : 16);
    p.add("encrypt", { (int64_t)rng.below(5), (int64_t)rng.below(6), (int64_t)rng.below(256), big(rng), big(rng) });
    for (uint64_t i = 0; i < n; i++)
        switch (rng.below(14))
        {
            case 0: case 1: p.add("psave", { big(rng), big(rng) }); break;
            case 2: case 3: p.add("pupdate", { big(rng), big(rng) }); break;
            case 4: case 5: p.add("popen", { big(rng), big(rng), big(rng) }); break;
            case 6: p.add("encrypt", { (int64_t)rng.below(5), (int64_t)rng.below(6), (int64_t)rng.below(256), big(rng), big(rng) }); break;
            case 7: p.add(rng.chance(1, 3) ? "decrypt" : "pcopy", { big(rng) }); break;
            case 8: p.add("psave-fault", { big(rng), (int64_t)rng.below(60), 2 + (int64_t)rng.below(2), big(rng) }); break;
            case 9: case 10: p.add("secret", { big(rng), big(rng) }); break;
            default: addEditOp(rng, p, true);
        }
    p.add("psave", { big(rng), big(rng) });
    p.add("popen", { big(rng), big(rng), big(rng) });
}

// A small file encrypted by the reference implementation, with forms the library does not write itself
struct ExtEnc { string bytes; Sec sec; map<Ref, string> str, stream; Enc enc; };
ExtEnc externalEncrypted(uint64_t sel)
{
    Rng rng(Rng::mix(sel * 31 + 11));
    ExtEnc x;
    Enc& e = x.enc;
    string cf;
    switch (sel % 5)
    {
        case 0: e.V = 1; e.R = 2; e.bits = 40; x.sec.alg = PdfEncryptAlgorithm::RC4V1; break;
        case 1: e.V = 2; e.R = 3; e.bits = 40 + 8 * (int)rng.below(12); x.sec.alg = PdfEncryptAlgorithm::RC4V2; break;
        case 2: e.V = 2; e.R = 3; e.bits = 40; x.sec.alg = PdfEncryptAlgorithm::RC4V2; break;        // without /Length
        case 3: e.V = 4; e.R = 4; e.bits = 128; e.aes = true; x.sec.alg = PdfEncryptAlgorithm::AESV2; break;
        default: e.V = 4; e.R = 4; e.bits = 128; x.sec.alg = PdfEncryptAlgorithm::RC4V2; cf = "V2"; break;
    }
    if (e.V == 4 && rng.chance(1, 2)) e.meta = false;     // part of the key of the document
    x.sec.on = true;
    x.sec.user = password(sel * 3 + 1, false); x.sec.owner = password(sel * 5 + 2, false);
    for (int i = 0; i < 8; i++) if (rng.chance(1, 2)) x.sec.perms = (PdfPermissions)((int)x.sec.perms | (int)kPerms[i]);
    e.P = 0xFFFFF0C0u | (uint32_t)x.sec.perms;
    for (int i = 0, n = 1 + (int)rng.below(32); i < n; i++) e.id += (char)rng.below(256);
    e.O = refO(e, x.sec.user, x.sec.effOwner());
    string key = refKey(e, padPw(x.sec.user));
    e.U = refU(e, key); e.U.resize(32, (char)rng.below(256));
    auto hex = [](const string& s) { string o = "<"; for (unsigned char ch : s) o += strf("%02X", ch); return o + ">"; };
    // the keys of objects depend on their numbers and generations
    unsigned base = sel % 3 == 0 ? 65530 + (unsigned)rng.below(60000) : sel % 3 == 1 ? (unsigned)rng.below(600) : 0;
    unsigned gens[4]; for (auto& g : gens) g = rng.chance(1, 3) ? (unsigned)rng.below(1000) : 0;
    auto ref = [&](unsigned i) { return i < 4 ? Ref{ i, 0 } : Ref{ base + i, i < 8 ? (uint16_t)gens[i - 4] : (uint16_t)0 }; };
    string& b = x.bytes;
    b = "%PDF-1.6\n";
    vector<size_t> off(1);
    auto obj = [&](const string& body) { off.push_back(b.size()); auto r = ref((unsigned)off.size() - 1); b += strf("%u %u obj\n", (unsigned)r.first, (unsigned)r.second) + body + "\nendobj\n"; };
    auto text = [&](unsigned i) { auto r = ref(i); return strf("%u %u R ", (unsigned)r.first, (unsigned)r.second); };
    obj("<</Type/Catalog/Pages 2 0 R/Mine[" + text(4) + text(5) + text(6) + text(7) + "]>>");
    obj("<</Type/Pages/Kids[3 0 R]/Count 1>>");
    obj("<</Type/Page/Parent 2 0 R/MediaBox[0 0 10 10]>>");
    for (unsigned i = 4; i <= 5; i++)
    {
        Ref r = ref(i);
        string s; for (int k = 0, n = (int)rng.below(50); k < n; k++) s += (char)(65 + rng.below(26));
        x.str[r] = s;
        obj(s.empty() ? "()" : hex(refEncrypt(e, key, r, s, rng)));
    }
    for (unsigned i = 6; i <= 7; i++)
    {
        Ref r = ref(i);
        string s; for (int k = 0, n = (int)rng.skew(9000); k < n; k++) s += (char)rng.below(256);
        x.stream[r] = s;
        string enc = refEncrypt(e, key, r, s, rng);
        if (s.empty() && rng.chance(1, 2)) enc.clear();      // also seen: nothing at all
        obj(strf("<</Length %zu>>stream\n", enc.size()) + enc + "\nendstream");
    }
    string d = strf("<</Filter/Standard/V %d/R %d/P %d/O%s/U%s", e.V, e.R, (int)e.P, hex(e.O).c_str(), hex(e.U).c_str());
    if (e.V > 1 && sel % 5 != 2) d += strf("/Length %d", e.bits);
    if (e.V == 4) d += strf("/StmF/StdCF/StrF/StdCF/CF<</StdCF<</CFM/%s/AuthEvent/DocOpen/Length 16>>>>", e.aes ? "AESV2" : "V2");
    if (!e.meta) d += "/EncryptMetadata false";
    else if (e.V == 4 && rng.chance(1, 2)) d += "/EncryptMetadata true";
    // the dictionary may also stand in the trailer itself
    bool direct = rng.chance(1, 4);
    if (direct) obj("null"); else obj(d + ">>");
    size_t xr = b.size();
    b += "xref\n0 4\n0000000000 65535 f \n";
    for (unsigned i = 1; i < 4; i++) b += strf("%010zu 00000 n \n", off[i]);
    b += strf("%u 5\n", base + 4);
    for (unsigned i = 4; i <= 8; i++) b += strf("%010zu %05u n \n", off[i], (unsigned)ref(i).second);
    b += strf("trailer\n<</Size %u/Root 1 0 R/Encrypt ", base + 9) + (direct ? d + ">>" : text(8)) + strf("/ID[%s%s]>>\nstartxref\n%zu\n%%%%EOF\n", hex(e.id).c_str(), hex(e.id).c_str(), xr);
    return x;
}

struct Run
{
    const Plan& p;
    Hist h;
    Sec sec, stored;             // in memory / in h.bytes
    vector<Secret> secrets;
    set<string> keys;            // user entries seen
    Run(const Plan& pl) : p(pl) { }

    bool opens(const string& bytes, const string& pw, string& err)
    {
        try { PdfMemDocument d; d.LoadFromBuffer(bufferview(bytes.data(), bytes.size()), pw); return true; }
        catch (const PdfError& e) { err = string(PdfError::ErrorName(e.GetError())); return false; }
    }
    void addSecret(const Op& op)
    {
        if (!h.doc) return;
        Rng rng(Rng::mix(op.u(0) * 131 + op.u(1) + secrets.size()));
        Secret s;
        s.text = "Sec"; for (int i = 0, n = 20 + (int)rng.below(30); i < n; i++) s.text += (char)('a' + rng.below(26));
        s.data = "Dat"; for (int i = 0, n = 20 + (int)rng.skew(9000); i < n; i++) s.data += (char)('A' + rng.below(26));
        auto& o = h.doc->GetObjects().CreateObject(PdfVariant(PdfString(s.text)));
        auto& t = h.doc->GetObjects().CreateDictionaryObject();
        t.GetOrCreateStream().SetData(bufferview(s.data.data(), s.data.size()), { });
        s.str = fromRef(o.GetIndirectReference()); s.stream = fromRef(t.GetIndirectReference());
        // kept alive from the catalog
        auto key = strf("Secret%zu", secrets.size());
        h.doc->GetCatalog().GetDictionary().AddKey(key, o.GetIndirectReference());
        h.doc->GetCatalog().GetDictionary().AddKey(key + "S", t.GetIndirectReference());
        h.structural.insert(s.str); h.structural.insert(s.stream);
        secrets.push_back(s);
    }
    vector<Secret> durableSecrets;
    void checkDoc(PdfMemDocument& doc, const Sec& s, const vector<Secret>& sc, const char* where)
    {
        auto& c = ctx();
        auto enc = doc.GetEncrypt();
        if ((enc != nullptr) != s.on) c.fail("encrypted-state", strf("%s: document is %sencrypted", where, enc ? "" : "not "));
        if (enc)
        {
            if (enc->GetEncryptAlgorithm() != s.alg) c.fail("algorithm", strf("%s: algorithm %d, expected %d", where, (int)enc->GetEncryptAlgorithm(), (int)s.alg));
            bool got[] = { doc.IsPrintAllowed(), doc.IsEditAllowed(), doc.IsCopyAllowed(), doc.IsEditNotesAllowed(), doc.IsFillAndSignAllowed(), doc.IsAccessibilityAllowed(), doc.IsDocAssemblyAllowed(), doc.IsHighPrintAllowed() };
            for (int i = 0; i < 8; i++) if (got[i] != (((int)s.perms & (int)kPerms[i]) != 0)) c.fail("permissions", strf("%s: permission %d is %d", where, i, got[i]));
        }
        for (auto& q : sc)
        {
            auto o = doc.GetObjects().GetObject(toRef(q.str)); auto t = doc.GetObjects().GetObject(toRef(q.stream));
            if (!o || !t) c.fail("secret-lost", strf("%s: %s or %s is missing", where, refText(q.str).c_str(), refText(q.stream).c_str()));
            if (!o->IsString() || rawOf(*o) != q.text) c.fail("string-altered", strf("%s: string %s reads %s", where, refText(q.str).c_str(), canon(*o).substr(0, 200).c_str()));
            if (streamData(*t) != q.data) c.fail("stream-altered", strf("%s: stream %s differs", where, refText(q.stream).c_str()));
        }
    }
    static string rawOf(const PdfObject& o) { return string(o.GetString().GetString()); }
    // Everything that must hold for the stored bytes
    void checkBytes(const char* where)
    {
        auto& c = ctx();
        const auto& b = h.bytes;
        const Sec& s = stored;
        durableSecrets = secrets;
        if (!s.on) { h.password = ""; return; }
        for (auto& q : secrets)
        {
            string hex; for (unsigned char ch : q.text.substr(0, 20)) hex += strf("%02X", ch);
            if (b.find(q.text) != string::npos || b.find(hex) != string::npos) c.fail("plaintext", strf("%s: string %s is stored in clear", where, refText(q.str).c_str()));
            if (b.find(q.data.substr(0, 20)) != string::npos) c.fail("plaintext", strf("%s: stream %s is stored in clear", where, refText(q.stream).c_str()));
        }
        Enc e;
        if (!readEnc(b, e)) c.fail("encrypt-dict", strf("%s: no encryption dictionary in the stored file", where));
        string ku, ko;
        int au = refAuth(e, s.user, ku), ao = refAuth(e, s.effOwner(), ko);
        if (au != 1) c.fail("reference-user", strf("%s: the user password does not open the file by the standard's algorithm (%d)", where, au));
        if (!ao || ku != ko) c.fail("reference-owner", strf("%s: the owner password does not open the file by the standard's algorithm (%d)", where, ao));
        if ((e.P & 0xF3C) != ((uint32_t)s.perms & 0xF3C)) c.fail("reference-permissions", strf("%s: /P is %08x", where, e.P));
        if (e.V == 5)
        {
            string perms, z(16, 0);
            aes(ku, z, e.Perms.substr(0, 16), perms, false, false);
            uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)(unsigned char)perms[i] << (8 * i);
            if (v != e.P || perms.substr(9, 3) != "adb") c.fail("reference-permissions", strf("%s: /Perms does not match /P", where));
        }
        for (auto& q : secrets)
        {
            size_t at = findObj(b, q.str), st = findObj(b, q.stream);
            if (at == string::npos || st == string::npos) continue;
            string out;
            PdfObject v(parseAt(b, at));
            if (!refDecrypt(e, ku, q.str, rawStr(v), out) || out != q.text) c.fail("reference-string", strf("%s: string %s does not decrypt by the standard's algorithm", where, refText(q.str).c_str()));
            size_t len = (size_t)parseAt(b, st).GetDictionary().MustGetKey("Length").GetNumber();
            size_t data = b.find("stream", st); data = b.find('\n', data) + 1;
            bool dec = refDecrypt(e, ku, q.stream, b.substr(data, len), out);
            if (dec && parseAt(b, st).GetDictionary().HasKey("Filter")) dec = inflate(out);
            if (!dec || out != q.data) c.fail("reference-stream", strf("%s: stream %s does not decrypt by the standard's algorithm", where, refText(q.stream).c_str()));
        }
        c.state(Rng::mix((uint64_t)e.V * 1000 + e.R * 100 + e.bits) ^ hashBytes(s.user + "/" + s.owner));
        // the library opens it with both and with nothing else
        string err;
        for (auto pw : { s.user, s.effOwner() }) if (!opens(b, pw, err)) c.fail("refused", strf("%s: the %s password is refused: %s", where, pw == s.user ? "user" : "owner", err.c_str()));
        for (auto pw : { string(), s.user + "x", s.effOwner() + "x", s.user.empty() ? string("y") : s.user.substr(1), string("wrong"), s.effOwner().substr(0, s.effOwner().size() / 2) })
        {
            if (s.opens(pw)) continue;
            c.probe("wrong-password");
            if (opens(b, pw, err)) c.fail("wrong-password", strf("%s: opened with the password \"%s\" (user \"%s\", owner \"%s\")", where, pw.c_str(), s.user.c_str(), s.owner.c_str()));
            if (err != "PdfErrorCode::InvalidPassword") c.fail("wrong-password-error", strf("%s: a wrong password was refused with %s", where, err.c_str()));
        }
        h.password = s.user;
    }
    void external()
    {
        auto& c = ctx();
        c.setStage("file of another producer");
        auto x = externalEncrypted(p.u("ext") - 1);
        Rng rng(Rng::mix(p.u("ext")));
        auto check = [&](const string& bytes, const char* where, uint64_t dev) {
            for (auto pw : { x.sec.user, x.sec.effOwner() })
            {
                PdfMemDocument doc;
                doc.LoadFromDevice(makeDevice(bytes, devOpts(dev)), pw);
                Sec s = x.sec;
                checkDoc(doc, s, {}, where);
                for (auto& q : x.str) { auto o = doc.GetObjects().GetObject(toRef(q.first)); if (!o || !o->IsString() || rawOf(*o) != q.second) c.fail("external-string", strf("%s: string %s reads %s", where, refText(q.first).c_str(), o ? canon(*o).substr(0, 100).c_str() : "missing")); }
                for (auto& q : x.stream) { auto o = doc.GetObjects().GetObject(toRef(q.first)); if (!o || streamData(*o) != q.second) c.fail("external-stream", strf("%s: stream %s differs", where, refText(q.first).c_str())); }
            }
            string err;
            for (auto pw : { string(), x.sec.user + "x", string("nope") })
                if (!x.sec.opens(pw)) { if (opens(bytes, pw, err)) c.fail("wrong-password", strf("%s: opened with the password \"%s\"", where, pw.c_str())); if (err != "PdfErrorCode::InvalidPassword") c.fail("wrong-password-error", strf("%s: refused with %s", where, err.c_str())); }
        };
        check(x.bytes, "external file", rng.below(1000));
        for (int i = 0; i < 3; i++)
        {
            PdfMemDocument doc;
            doc.LoadFromDevice(makeDevice(x.bytes, devOpts(rng.below(1000))), rng.chance(1, 2) ? x.sec.user : x.sec.effOwner());
            doc.GetCatalog().GetDictionary().AddKey("Touched", PdfObject((int64_t)i));
            auto o = make_shared<string>(x.bytes);
            SimDevice d(o, DeviceAccess::ReadWrite, devOpts(rng.below(1000)));
            if (i == 1) doc.SaveUpdate(d, saveOpts(rng.below(8))); else { d.Close(); o->clear(); SimDevice d2(o, DeviceAccess::ReadWrite, devOpts(rng.below(1000))); doc.Save(d2, QuietSave | PdfSaveOptions::NoCollectGarbage); }
            check(*o, i == 1 ? "external file updated" : "external file saved", rng.below(1000));
            if (i == 1) x.bytes = *o;
        }
        c.probe("external-encrypted");
    }
    void run()
    {
        auto& c = ctx();
        auto& w = world();
        w.setClock(p.c("clock"));
        if (p.c("ext")) external();
        c.setStage("start");
        startHist(p, h);
        for (auto& op : p.ops)
        {
            c.setStage(op.k);
            if (!h.doc) break;
            if (op.k == "encrypt")
            {
                sec.on = true;
                sec.alg = kAlgs[op.u(0) % 5]; sec.len = kLens[op.u(1) % 6]; sec.perms = PdfPermissions::None;
                for (int i = 0; i < 8; i++) if (op.u(2) >> i & 1) sec.perms = (PdfPermissions)((int)sec.perms | (int)kPerms[i]);
                sec.user = password(op.u(3), sec.v5()); sec.owner = op.u(4) % 9 == 0 ? sec.user : password(op.u(4), sec.v5());
                h.doc->SetEncrypted(sec.user, sec.owner, sec.perms, sec.alg, sec.len);
                changed = true;
                c.probe(strf("alg%d", (int)sec.alg).c_str());
            }
            else if (op.k == "decrypt") { sec = Sec(); h.doc->SetEncrypt(nullptr); changed = true; c.probe("decrypt"); }
            else if (op.k == "secret") addSecret(op);
            else if (op.k == "psave")
            {
                pw(sec);
                h.save(saveOpts(op.u(0)), devOpts(op.u(1)));
                stored = sec;
                checkBytes("saved");
                if (op.u(0) % 2) reopen(op.u(1), op.u(0), 0);
                else { h.stored = false; }
                c.probe("saved");
            }
            else if (op.k == "pupdate")
            {
                if (!h.stored) continue;
                if (changed)
                {
                    // an update can not change how the existing part is encrypted: must be refused, leaving the file alone
                    auto o = make_shared<string>(h.bytes);
                    SimDevice d(o, DeviceAccess::ReadWrite);
                    bool ok = false;
                    try { h.doc->SaveUpdate(d, QuietSave | PdfSaveOptions::NoCollectGarbage); ok = true; } catch (const PdfError&) { }
                    if (ok)
                    {
                        Sec keep = stored; auto keepB = h.bytes;
                        try { auto t = loadDoc(*o, sec.on ? sec.user : string()); (void)snapshot(*t); checkDoc(*t, sec, secrets, "updated with a changed encryption"); }
                        catch (const PdfError& e) { c.fail("update-unreadable", string("an update that changes the encryption left an unreadable file: ") + string(PdfError::ErrorName(e.GetError()))); }
                    }
                    else if (o->compare(0, h.bytes.size(), h.bytes) != 0) c.fail("update-damaged", "a refused update changed the stored file");
                    c.probe(ok ? "update-changed" : "update-refused");
                    continue;
                }
                pw(sec);
                h.update(saveOpts(op.u(0)), devOpts(op.u(1)));
                stored = sec;
                checkBytes("updated");
                reopen(op.u(1), op.u(0), 0);
                c.probe("updated");
            }
            else if (op.k == "popen") { if (h.stored || !h.bytes.empty()) reopen(op.u(0), op.u(1), op.u(2)); }
            else if (op.k == "pcopy")
            {
                // a copy is encrypted alike and stores the same
                PdfMemDocument copy(*h.doc);
                checkDoc(copy, sec, {}, "copied");
                auto o = make_shared<string>();
                SimDevice d(o, DeviceAccess::ReadWrite, devOpts(op.u(0)));
                copy.Save(d, QuietSave | PdfSaveOptions::NoCollectGarbage);
                for (auto pw : { sec.user, sec.effOwner() })
                {
                    string err;
                    if (!opens(*o, pw, err)) c.fail("refused", "the saved copy is refused: " + err);
                    auto t = loadDoc(*o, pw);
                    checkDoc(*t, sec, secrets, "saved copy");
                    if (!sec.on) break;
                }
                string err;
                if (sec.on && !sec.opens("bad") && opens(*o, "bad", err)) c.fail("wrong-password", "a saved copy opens with any password");
                c.probe("copied");
            }
            else if (op.k == "psave-fault")
            {
                auto o = make_shared<string>();
                SimDevice d(o, DeviceAccess::ReadWrite, devOpts(op.u(0)));
                Op f{ "fault", { (int64_t)Io::Write, op.at(1), op.at(2), 3, 0 } };
                addFaultOp(d.faults, f);
                auto before = userSnapshot(*h.doc);
                bool ok = false;
                try { h.doc->Save(d, QuietSave | PdfSaveOptions::NoCollectGarbage); ok = true; } catch (const std::exception&) { }
                if (!ok) { auto diff = firstDiff(before, userSnapshot(*h.doc)); if (!diff.empty()) c.fail("failed-save-altered", "a failed save altered the document: " + diff); c.probe("save-failed"); }
            }
            else (void)h.edit(op);
        }
    }
    bool changed = false;
    void pw(const Sec& s) { h.password = s.on ? s.user : string(); }
    void reopen(uint64_t dev, uint64_t which, uint64_t kind)
    {
        auto& c = ctx();
        h.password = !stored.on ? string() : which % 2 ? stored.user : stored.effOwner();
        h.reload(devOpts(dev), kind % 3 == 0);
        sec = stored; secrets = durableSecrets; changed = false;
        checkDoc(*h.doc, sec, secrets, which % 2 ? "reopened with the user password" : "reopened with the owner password");
        h.verify("reopened");
        c.probe(which % 2 ? "user" : "owner");
    }
};
void run10(const Plan& p)
{
    Run r(p);
    r.run();
    // the random key must not be a function of the clock: two documents encrypted in the same second
    if (p.seed % 16 == 0)
    {
        auto& w = world();
        Enc e[2];
        string key[2];
        for (int i = 0; i < 2; i++)
        {
            w.setClock(p.c("clock"));
            PdfMemDocument d; d.GetPages().CreatePage(PdfRect(0, 0, 10, 10));
            d.SetEncrypted("u", i ? "o1" : "o2", PdfPermissions::Default, PdfEncryptAlgorithm::AESV3R6, PdfKeyLength::L256);
            auto o = make_shared<string>(); SimDevice dev(o, DeviceAccess::ReadWrite); d.Save(dev, PdfSaveOptions::None);
            if (!readEnc(*o, e[i]) || refAuth(e[i], "u", key[i]) != 1) ctx().fail("reference-user", "the user password does not open the file");
        }
        if (key[0] == key[1]) ctx().fail("key-repeated", "two documents encrypted in the same second share their random key");
        ctx().probe("random-key");
    }
}
Register r10({ "C10", "encryption", 1, 2500, gen10, run10 });

} // namespace
