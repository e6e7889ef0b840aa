// C12: signing. A simulated signer records what it is fed and misbehaves; the target device splits, fails or dies.
#include "rich.h"
#include <sstream>
#include <cstring>
using namespace std;
using namespace mm;
using namespace sim;

namespace {

int64_t big(Rng& rng) { return (int64_t)rng.below(1u << 30); }

struct SignerError : std::runtime_error { using std::runtime_error::runtime_error; };

struct SimSigner final : PdfSigner
{
    size_t reserve = 0;         // size of the dry run
    string value;               // what it finally returns
    int failAt = 0;             // 1 dry run, 2 reset, 3 append, 4 compute
    unsigned failAppend = 0;
    string type = "Sig", sub = "ETSI.CAdES.detached", filter = "Adobe.PPKLite";
    string fed, calls;          // recorded
    vector<size_t> sizes;
    bool threw = false;
    void boom() { threw = true; ctx().fault("signer-error"); throw SignerError("simulated signer error"); }
    void Reset() override { world().step(); calls += 'r'; if (failAt == 2) boom(); fed.clear(); }
    void AppendData(const bufferview& d) override
    {
        world().step();
        if (calls.empty() || calls.back() != 'a') calls += 'a';
        if (failAt == 3 && sizes.size() == failAppend) boom();
        sizes.push_back(d.size());
        fed.append(d.data(), d.size());
    }
    void ComputeSignature(charbuff& b, bool dry) override
    {
        world().step();
        calls += dry ? 'd' : 'c';
        if (failAt == (dry ? 1 : 4)) boom();
        if (dry) b.resize(reserve); else b.assign(value.begin(), value.end());
    }
    string GetSignatureFilter() const override { return filter; }
    string GetSignatureSubFilter() const override { return sub; }
    string GetSignatureType() const override { return type; }
};

struct Signed
{
    string field;
    Ref v;
    int64_t range[4];
    string contents;            // padded value
    uint64_t covered;           // hash of what the signer saw
    bool gone = false;          // the file was rewritten: the signature no longer holds, its dictionary is still readable
    string reason;
};

int64_t numberAt(const string& s, size_t& i, bool& ok)
{
    while (i < s.size() && strchr(" \r\n\t", s[i])) i++;
    size_t b = i;
    int64_t v = 0;
    while (i < s.size() && isdigit((unsigned char)s[i])) v = v * 10 + (s[i++] - '0');
    if (i == b) ok = false;
    return v;
}

// The signature dictionary as an independent reader of the file sees it: byte range and position of the value
struct RawSig { bool ok = false; int64_t range[4]; size_t lt = 0, gt = 0; string value; string body; };
RawSig readRaw(const string& f, Ref ref, size_t from)
{
    RawSig r;
    auto head = strf("%u %u obj", ref.first, ref.second);
    size_t at = string::npos;
    for (size_t p = f.find(head, from); p != string::npos; p = f.find(head, p + 1)) if (p == 0 || f[p - 1] == '\n' || f[p - 1] == '\r') at = p;
    if (at == string::npos) return r;
    size_t end = f.find("endobj", at);
    if (end == string::npos) return r;
    r.body = f.substr(at, end - at);
    size_t b = f.find("/ByteRange", at), cpos = f.find("/Contents", at);
    if (b > end || cpos > end) return r;
    b += 10;
    while (b < end && strchr(" \r\n\t", f[b])) b++;
    if (f[b] != '[') return r;
    b++;
    bool ok = true;
    for (auto& x : r.range) x = numberAt(f, b, ok);
    while (b < end && strchr(" \r\n\t", f[b])) b++;
    if (!ok || f[b] != ']') return r;
    cpos += 9;
    while (cpos < end && strchr(" \r\n\t", f[cpos])) cpos++;
    if (f[cpos] != '<') return r;
    r.lt = cpos;
    r.gt = f.find('>', cpos);
    if (r.gt == string::npos || r.gt > end) return r;
    for (size_t i = r.lt + 1; i + 1 < r.gt; i += 2)
    {
        auto hex = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
        if (!isxdigit((unsigned char)f[i]) || !isxdigit((unsigned char)f[i + 1])) return r;
        r.value += (char)(hex(f[i]) * 16 + hex(f[i + 1]));
    }
    r.ok = (r.gt - r.lt) % 2 == 1;
    return r;
}

PdfSignature* findField(PdfMemDocument& doc, const string& name)
{
    auto form = doc.GetAcroForm();
    if (!form) return nullptr;
    for (unsigned i = 0; i < form->GetFieldCount(); i++)
    {
        auto& f = form->GetFieldAt(i);
        auto n = f.GetName();
        if (n.has_value() && n->GetString() == name && f.GetType() == PdfFieldType::Signature) return &static_cast<PdfSignature&>(f);
    }
    return nullptr;
}

struct SignState
{
    Hist h;
    vector<Signed> sigs;
    set<string> fields;         // existing signature fields in memory
    set<string> stored;         // those in the file
    unsigned counter = 0;
    bool encrypted = false;

    void checkFile(const char* where)
    {
        auto& c = ctx();
        auto& b = h.bytes;
        for (auto& s : sigs)
        {
            if (s.gone) continue;
            auto e1 = (size_t)(s.range[0] + s.range[1]), b2 = (size_t)s.range[2], e2 = b2 + (size_t)s.range[3];
            c.check(e2 <= b.size(), "signed-bytes", string(where) + ": the file is shorter than the signed bytes of " + s.field);
            c.check(hashBytes(b.substr(0, e1) + b.substr(b2, e2 - b2)) == s.covered, "signed-bytes", string(where) + ": the signed bytes of " + s.field + " changed");
        }
    }
    void checkDoc(PdfMemDocument& doc, const char* where)
    {
        auto& c = ctx();
        for (auto& s : sigs)
        {
            auto f = findField(doc, s.field);
            c.check(f != nullptr, "signature-lost", string(where) + ": the signature field " + s.field + " is missing");
            auto v = f->GetObject().GetDictionary().FindKey("V");
            c.check(v && v->IsDictionary(), "signature-lost", string(where) + ": no signature dictionary in " + s.field);
            auto br = v->GetDictionary().FindKey("ByteRange");
            c.check(br && br->IsArray() && br->GetArray().size() == 4, "signature-lost", string(where) + ": no byte range in " + s.field);
            for (int i = 0; i < 4; i++)
                c.check(br->GetArray()[i].IsNumber() && br->GetArray()[i].GetNumber() == s.range[i], "signature-lost", string(where) + ": another byte range in " + s.field);
            auto ct = v->GetDictionary().FindKey("Contents");
            c.check(ct && (ct->IsString() || ct->IsRawData()), "signature-lost", string(where) + ": no signature value in " + s.field);
            if (!encrypted && ct->IsString()) c.check(string(ct->GetString().GetRawData()) == s.contents, "signature-lost", string(where) + ": another signature value in " + s.field);
            if (!s.reason.empty())
            {
                auto r = f->GetSignatureReason();
                c.check(r.has_value() && r->GetString() == s.reason, "signature-lost", string(where) + ": another reason in " + s.field);
            }
        }
    }
    void checkAll(const char* where)
    {
        checkFile(where);
        ctx().setStage(string("reopening ") + where);
        auto d = loadDoc(h.bytes, h.password);
        checkDoc(*d, where);
        // the rest of the document is what the history says
        set<Ref> st;
        for (auto& o : d->GetObjects()) st.insert(fromRef(o->GetIndirectReference()));
        for (auto& m : h.durable) st.erase(m.first);
        verifyDoc(*d, h.durable, st, h.durableDead, where);
    }

    void sign(const Plan& p, size_t at)
    {
        auto& c = ctx();
        auto& op = p.ops[at];
        Rng rng(op.u(1));
        if (!h.stored) return;
        auto& doc = *h.doc;
        c.setStage("preparing a signature");
        // pick or make a field
        PdfSignature* f = nullptr;
        string name;
        if (rng.chance(1, 2))
            for (auto& n : fields) if (none_of(sigs.begin(), sigs.end(), [&](auto& s) { return s.field == n; })) { f = findField(doc, n); name = n; break; }
        if (f) c.probe("existing-field");
        else
        {
            name = strf("sig%u", counter++);
            if (rng.chance(1, 4)) { f = &static_cast<PdfSignature&>(doc.GetOrCreateAcroForm().CreateField(name, PdfFieldType::Signature)); c.probe("field-without-widget"); }
            else
            {
                auto& pages = doc.GetPages();
                auto& page = pages.GetCount() ? pages.GetPageAt(0) : pages.CreatePage(PdfRect(0, 0, 300, 300));
                f = &static_cast<PdfSignature&>(page.CreateField(name, PdfFieldType::Signature, PdfRect(10, 10, 50, 20)));
            }
            fields.insert(name);
        }
        string reason;
        if (rng.chance(1, 3))
        {
            f->EnsureValueObject();
            reason = "reason " + to_string(rng.below(100));
            f->SetSignatureReason(PdfString(reason));
            f->SetSignerName(PdfString("signer"));
            f->SetSignatureDate(PdfDate(chrono::seconds(1600000000), nullptr));
            f->SetSignatureLocation(rng.chance(1, 2) ? nullable<const PdfString&>() : nullable<const PdfString&>(PdfString("here")));
            if (sigs.empty() && rng.chance(1, 3)) f->AddCertificationReference(PdfCertPermission::FormFill);
        }
        SimSigner signer;
        signer.reserve = rng.chance(1, 12) ? 0 : rng.chance(1, 8) ? 60000 + rng.below(12000) : 1 + rng.skew(5000);
        size_t n = signer.reserve;
        bool over = false;
        switch (rng.below(8)) { case 0: n = rng.below(n + 1); break; case 1: n = 0; break; case 2: if (rng.chance(1, 2)) { n += 1 + rng.below(20); over = true; } break; }
        signer.value = randomBytes(rng, n, (int)rng.below(4));
        if (rng.chance(1, 6)) signer.type = "DocTimeStamp", signer.sub = "ETSI.RFC3161";
        if (rng.chance(1, 8)) { signer.failAt = 1 + (int)rng.below(4); signer.failAppend = (unsigned)rng.below(3); }
        auto kind = op.u(2) % 6;
        auto opts = saveOpts(op.u(3));
        string old = h.bytes, got;
        bool ok = false, fired = false;
        string err;
        vector<pair<size_t, string>> log;
        auto attempt = [&](StreamDevice& d) {
            c.setStage("signing");
            try { SignDocument(doc, d, signer, *f, opts); ok = true; }
            catch (const SignerError& e) { err = e.what(); }
            catch (const PdfError& e) { err = string(PdfError::ErrorName(e.GetError())); }
            catch (const std::exception& e) { err = e.what(); }
        };
        switch (kind)
        {
            case 0: { got = old; StringStreamDevice d(got, DeviceAccess::ReadWrite, true); attempt(d); break; }
            case 1:
            {
                auto path = world().scratch("sign.pdf");
                writeFile(path, old);
                { FileStreamDevice d(path, FileMode::Open, DeviceAccess::ReadWrite); attempt(d); }
                got = readFile(path);
                break;
            }
            case 2: { stringstream ss(old, ios::in | ios::out | ios::binary); StandardStreamDevice d(static_cast<iostream&>(ss)); attempt(d); got = ss.str(); break; }
            default:
            {
                auto out = make_shared<string>(old);
                SimDevice d(out, DeviceAccess::ReadWrite, devOpts(op.u(4)));
                d.log = &log;
                for (size_t i = at + 1; i < p.ops.size() && p.ops[i].k == "fault"; i++) addFaultOp(d.faults, p.ops[i]);
                attempt(d);
                fired = d.faults.fired > 0;
                got = *out;
            }
        }
        c.ev("sign", ok, (int64_t)got.size(), (int64_t)hashBytes(got));
        c.check(got.size() >= old.size() && got.compare(0, old.size(), old) == 0, "append-only", "signing changed bytes of the previous revision");
        for (auto& w : log) c.check(w.first >= old.size(), "append-only", "signing wrote into the previous revision");
        if (!ok)
        {
            if (!fired && !signer.threw && !over) c.fail("unexpected-exception", "signing failed for no reason: " + err);
            c.probe("sign-failed");
            // it may have got as far as collecting garbage
            auto before = h.model; auto dead = h.dead;
            h.gc();
            bool collected = false;
            for (auto& m : before) if (!h.model.count(m.first) && !doc.GetObjects().GetObject(toRef(m.first))) collected = true;
            if (!collected) { h.model = before; h.dead = dead; }
            // what is on the device is thrown away; the previous revision still opens
            if (op.u(5) % 3 == 0) { c.setStage("reading the previous revision"); auto d = loadDoc(got.substr(0, old.size()), h.password); checkDoc2(*d); }
            return;
        }
        if (fired) c.fail("error-swallowed", "signing on a failing device returned normally");
        if (signer.threw) c.fail("error-swallowed", "signing with a failing signer returned normally");
        if (over) c.fail("error-swallowed", "a signature larger than the space reserved for it was accepted");
        signedCheck(got, old, signer, *f, name, reason, opts);
    }
    // what a successful signing must have done
    void signedCheck(const string& got, const string& old, SimSigner& signer, PdfSignature& f, const string& name, const string& reason, PdfSaveOptions opts)
    {
        auto& c = ctx();
        c.check(signer.calls == "drac", "signer-protocol", "the signer was called in the order " + signer.calls + " instead of drac");
        auto v = f.GetObject().GetDictionary().GetKey("V");
        c.check(v && v->IsReference(), "signature-lost", "no signature dictionary after signing");
        auto raw = readRaw(got, fromRef(v->GetReference()), old.size());
        c.check(raw.ok, "signature-syntax", "the signature dictionary in the file is not readable: " + raw.body.substr(0, 300));
        c.check(raw.range[0] == 0 && raw.range[1] == (int64_t)raw.lt && raw.range[2] == (int64_t)raw.gt + 1 && raw.range[2] + raw.range[3] == (int64_t)got.size(), "byte-range",
            strf("byte range %lld %lld %lld %lld; the value is at %zu..%zu of %zu bytes", (long long)raw.range[0], (long long)raw.range[1], (long long)raw.range[2], (long long)raw.range[3], raw.lt, raw.gt + 1, got.size()));
        auto covered = got.substr(0, raw.lt) + got.substr(raw.gt + 1);
        if (signer.fed != covered)
        {
            size_t i = 0; while (i < signer.fed.size() && i < covered.size() && signer.fed[i] == covered[i]) i++;
            c.fail("signed-content", strf("the signer was fed %zu bytes, the byte range covers %zu; first difference at %zu", signer.fed.size(), covered.size(), i));
        }
        auto padded = signer.value; padded.resize(signer.reserve);
        c.check(raw.value == padded, "signature-value", "the embedded value is not the one the signer returned");
        auto has = [&](const string& s) { return raw.body.find(s) != string::npos; };
        c.check(has("/" + signer.filter) && has("/" + signer.sub) && has("/" + signer.type), "signature-syntax", "filter, sub filter or type is missing");
        Signed s;
        s.field = name; s.v = fromRef(v->GetReference());
        memcpy(s.range, raw.range, sizeof s.range);
        s.contents = padded; s.covered = hashBytes(covered); s.reason = reason;
        sigs.push_back(s);
        if ((opts & PdfSaveOptions::NoCollectGarbage) == PdfSaveOptions::None) h.gc();
        h.noteStructural();
        h.bytes = got;
        h.durable = h.model; h.durableDead = h.dead;
        stored = fields;
        c.probe("signed");
        if (signer.reserve > 32768) c.probe("large-signature");
        if (got.size() > 65536 * 2) c.probe("several-blocks");
        if (sigs.size() > 1) c.probe("several-signatures");
        checkAll("after signing");
    }
    // Make the gap or the end of what is signed fall on a multiple of the size of the blocks it is read in: a twin tells
    // where it comes to lie, and a string before it is made as long as it takes
    void align(const Plan& p, size_t at)
    {
        auto& c = ctx();
        if (!h.stored || encrypted) return;
        h.reload({});
        fields = stored;
        auto& op = p.ops[at];
        Rng rng(op.u(0));
        SimSigner a, b;
        a.reserve = b.reserve = 1 + rng.below(3000);
        a.value = b.value = randomBytes(rng, a.reserve, 1);
        auto name = strf("sig%u", counter++);
        auto prepare = [&](PdfMemDocument& doc, size_t n) -> PdfSignature& {
            auto& pages = doc.GetPages();
            auto& page = pages.GetCount() ? pages.GetPageAt(0) : pages.CreatePage(PdfRect(0, 0, 300, 300));
            doc.GetCatalog().GetDictionary().AddKey("Align", PdfObject(PdfString(string(n, 'x'))));
            return static_cast<PdfSignature&>(page.CreateField(name, PdfFieldType::Signature, PdfRect(10, 10, 50, 20)));
        };
        auto position = [&](const string& f, PdfSignature& field, size_t from) -> size_t {
            auto raw = readRaw(f, fromRef(field.GetObject().GetDictionary().GetKey("V")->GetReference()), from);
            c.check(raw.ok, "signature-syntax", "the signature dictionary in the file is not readable: " + raw.body.substr(0, 300));
            return op.u(1) % 3 == 0 ? f.size() - (raw.gt + 1 - raw.lt) : op.u(1) % 3 == 1 ? raw.gt + 1 : raw.lt;
        };
        const size_t Block = 65536, n0 = 20000;
        size_t wanted = (Block + op.u(2) % 5 - 2) % Block, n;
        {
            c.setStage("aligning a signature");
            auto twin = loadDoc(h.bytes, h.password);
            auto& f = prepare(*twin, n0);
            auto out = h.bytes;
            StringStreamDevice d(out, DeviceAccess::ReadWrite, true);
            SignDocument(*twin, d, a, f, QuietSave);
            n = n0 + (wanted + Block - position(out, f, h.bytes.size()) % Block) % Block;
        }
        auto& f = prepare(*h.doc, n);
        fields.insert(name);
        string old = h.bytes, got = old;
        c.setStage("signing");
        if (op.u(3) % 2) { StringStreamDevice d(got, DeviceAccess::ReadWrite, true); SignDocument(*h.doc, d, b, f, QuietSave); }
        else { auto out = make_shared<string>(old); SimDevice d(out, DeviceAccess::ReadWrite, devOpts(op.u(3) / 2)); SignDocument(*h.doc, d, b, f, QuietSave); got = *out; }
        c.check(got.compare(0, old.size(), old) == 0, "append-only", "signing changed bytes of the previous revision");
        if (position(got, f, old.size()) % Block == wanted) c.probe("aligned");
        signedCheck(got, old, b, f, name, "", QuietSave);
    }
    void checkDoc2(PdfMemDocument& d)
    {
        checkDoc(d, "previous revision");
        set<Ref> st;
        for (auto& o : d.GetObjects()) st.insert(fromRef(o->GetIndirectReference()));
        for (auto& m : h.durable) st.erase(m.first);
        verifyDoc(d, h.durable, st, h.durableDead, "previous revision");
    }
};

void run(const Plan& p)
{
    auto& c = ctx();
    SignState s;
    auto& h = s.h;
    startHist(p, h);
    if (!h.stored) { if (p.c("enc")) { h.doc->SetEncrypted("user", "owner", PdfPermissions::Default, p.c("enc") % 2 ? PdfEncryptAlgorithm::AESV2 : PdfEncryptAlgorithm::AESV3R6, p.c("enc") % 2 ? PdfKeyLength::L128 : PdfKeyLength::L256); h.password = "user"; s.encrypted = true; } h.save(QuietSave, {}); }
    h.reload({});
    for (size_t i = 0; i < p.ops.size(); i++)
    {
        auto& op = p.ops[i];
        if (op.k == "fault") continue;
        c.setStage(op.k);
        if (op.k == "sign") s.sign(p, i);
        else if (op.k == "align") s.align(p, i);
        else if (op.k == "field")
        {
            auto name = strf("sig%u", s.counter++);
            auto& pages = h.doc->GetPages();
            auto& page = pages.GetCount() ? pages.GetPageAt((unsigned)(op.u(0) % pages.GetCount())) : pages.CreatePage(PdfRect(0, 0, 300, 300));
            page.CreateField(name, PdfFieldType::Signature, PdfRect(10, 10, 50, 20));
            s.fields.insert(name);
        }
        else if (op.k == "bulk") // make the file larger than the blocks it is signed in
        {
            auto& o = h.doc->GetObjects().CreateDictionaryObject();
            Rng rng(op.u(0));
            o.GetOrCreateStream().SetData(randomBytes(rng, 30000 + rng.below(150000), 0));
            h.doc->GetCatalog().GetDictionary().AddKey(PdfName(strf("Bulk%d", (int)(op.u(0) % 5))), PdfObject(o.GetIndirectReference()));
        }
        else if (op.k == "update") { if (h.stored) { h.update(saveOpts(op.u(0)), devOpts(op.u(1))); s.stored = s.fields; s.checkAll("after an update"); c.probe("update"); } }
        else if (op.k == "save")
        {
            // A rewritten file breaks signatures; the document is reopened from it
            if (s.encrypted) continue;
            h.save(saveOpts(op.u(0)), devOpts(op.u(1)));
            for (auto& x : s.sigs) x.gone = true;
            s.stored = s.fields;
            h.stored = false;
            s.checkAll("after a full save");
            h.reload(devOpts(op.u(2)));
        }
        else if (op.k == "reload") { h.reload(devOpts(op.u(0))); s.fields = s.stored; s.checkDoc(*h.doc, "reopened"); }
        else if (op.k[0] == 'r') { try { richOp(*h.doc, op); } catch (const std::runtime_error&) { } catch (const PdfError&) { } }
        else h.edit(op);
    }
    c.setStage("end");
    s.checkAll("at the end");
}

void gen(Rng& rng, Plan& p)
{
    genStart(rng, p);
    p.cfg["enc"] = rng.chance(1, 5) ? (int64_t)(1 + rng.below(2)) : 0;
    bool faulty = rng.chance(1, 2);
    size_t n = 3 + rng.below(14);
    for (size_t i = 0; i < n; i++)
        switch (rng.below(12))
        {
            case 0: case 1: case 2: case 3:
                p.add("sign", { 0, big(rng), (int64_t)rng.below(6), (int64_t)rng.below(1000), (int64_t)rng.below(1000), (int64_t)rng.below(1000) });
                if (faulty && rng.chance(1, 2))
                {
                    static const Io kinds[] = { Io::Write, Io::Write, Io::Read, Io::Seek, Io::Flush };
                    for (size_t k = 1 + rng.below(2); k > 0; k--)
                    {
                        auto io = kinds[rng.below(5)];
                        int64_t at = io == Io::Flush ? (int64_t)rng.below(4) : io == Io::Seek ? (int64_t)rng.below(7) : io == Io::Read ? (int64_t)rng.below(12) : rng.skew(400);
                        p.add("fault", { (int64_t)io, at, (int64_t)rng.below(4), rng.chance(1, 3) ? -1 : rng.skew(500), rng.chance(1, 2) });
                    }
                }
                break;
            case 4: if (rng.chance(1, 3)) p.add("align", { big(rng), (int64_t)rng.below(6), (int64_t)rng.below(5), (int64_t)rng.below(1000) }); else p.add("field", { big(rng) }); break;
            case 5: p.add("update", { (int64_t)rng.below(1000), (int64_t)rng.below(1000) }); break;
            case 6: p.add("reload", { (int64_t)rng.below(1000) }); break;
            case 7: if (rng.chance(1, 4)) { p.add("save", { (int64_t)rng.below(1000), (int64_t)rng.below(1000), (int64_t)rng.below(1000) }); break; } [[fallthrough]];
            case 8: if (rng.chance(1, 3)) { p.add("bulk", { big(rng) }); break; } [[fallthrough]];
            case 9: addEditOp(rng, p, true); break;
            default: { Plan q; do { q.ops.clear(); addRichOp(rng, q, false); } while (q.ops[0].k == "rfield" || q.ops[0].k == "rmpage"); p.ops.push_back(q.ops[0]); break; }
        }
}

Register r({ "C12", "signatures", 1, 2500, gen, run, 40 });

} // namespace
