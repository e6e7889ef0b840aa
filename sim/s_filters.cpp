// C08: stream filters are exact however data is chunked, and report failures
#include "docutil.h"
using namespace std;
using namespace mm;
using namespace sim;

namespace {

const PdfFilterType encTypes[] = { PdfFilterType::ASCIIHexDecode, PdfFilterType::ASCII85Decode, PdfFilterType::FlateDecode };

PdfFilterList chainOf(int64_t sel)
{
    PdfFilterList l;
    for (uint64_t v = (uint64_t)sel; v; v /= 4) if (v % 4) l.push_back(encTypes[v % 4 - 1]);
    if (l.empty()) l.push_back(PdfFilterType::FlateDecode);
    return l;
}
string chainText(const PdfFilterList& l) { string s; for (auto f : l) s += string(s.empty() ? "" : "+") + string(mm::FilterToName(f)); return s; }

string dataOf(const Plan& p)
{
    Rng rng((uint64_t)p.c("data"));
    string s;
    size_t len = (size_t)p.c("len");
    // several kinds of content in one piece of data
    while (s.size() < len) s += randomBytes(rng, min(len - s.size(), (size_t)(1 + rng.skew((int64_t)len))), (int)rng.below(5));
    return s;
}

// Faults on the n-th operation, n below the number of operations of the undisturbed run
FaultSchedule place(const Plan& p, const uint64_t* counts, bool out)
{
    FaultSchedule s;
    for (auto op : p.ops)
        if (op.k == "fault")
        {
            auto io = (Io)(op.u(0) % (uint64_t)Io::Count);
            if (out ? (io != Io::Write && io != Io::Flush) : io != Io::Read) continue;
            if (counts) { auto n = counts[(int)io]; if (!n) continue; op.a[1] = (int64_t)(op.u(1) % n); }
            addFaultOp(s, op);
        }
    return s;
}

// How the caller cuts its reads and writes
struct Cuts
{
    vector<size_t> n; size_t i = 0;
    Cuts(const Plan& p, const char* k) { for (auto& op : p.ops) if (op.k == k) n.push_back((size_t)op.u(0)); }
    size_t next(size_t dflt) { return n.empty() ? dflt : n[i++ % n.size()]; }
};

void writeCut(OutputStream& out, const string& data, Cuts& cuts)
{
    size_t pos = 0, zero = 0;
    while (pos < data.size())
    {
        size_t n = min(cuts.next(data.size()), data.size() - pos);
        if (n == 0 && ++zero > 50) n = 1;
        if (n == 1 && pos % 2) out.Write(data[pos]); else out.Write(data.data() + pos, n);
        pos += n;
    }
}

// Read to the end the way the plan cuts it. Faults of the source end it with an exception and the data so far in `got`.
void readCut(InputStream& in, string& got, Cuts& cuts, size_t limit)
{
    bool eof = false;
    size_t zero = 0;
    while (!eof)
    {
        size_t n = cuts.next(4096);
        if (n == 0 && ++zero > 50) n = 1;
        if (n == 1) { char ch; if (!in.Read(ch)) break; got += ch; }
        else
        {
            // the bytes already delivered by a call that throws are not looked at
            string buf(n + 1, '#');
            size_t k = in.Read(buf.data(), n, eof);
            if (k > n) ctx().fail("overrun", "a read returned more than asked for");
            if (k < n && !eof) ctx().fail("short-read", strf("a read of %zu bytes returned %zu without end of data", n, k));
            if (buf[n] != '#') ctx().fail("overrun", "a read wrote behind the buffer");
            got.append(buf.data(), k);
        }
        if (got.size() > limit) ctx().fail("too-much", strf("decoding gave more than the expected %zu bytes", limit));
    }
    char ch;
    if (in.Read(ch)) ctx().fail("after-end", "data after the end of data");
}

void same(const char* cls, const string& what, const string& got, const string& want)
{
    if (got == want) return;
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    ctx().fail(cls, strf("%s: %zu bytes, expected %zu, first difference at %zu (%s, expected %s)", what.c_str(), got.size(), want.size(), i, hex(string_view(got).substr(min(i, got.size()), 8)).c_str(), hex(string_view(want).substr(min(i, want.size()), 8)).c_str()));
}

template <typename F> bool attempt(string& err, F fn)
{
    try { fn(); return true; }
    catch (const PdfError& e) { err = string(PdfError::ErrorName(e.GetError())); }
    catch (const std::exception& e) { err = e.what(); }
    return false;
}

void genCuts(Rng& rng, Plan& p, const char* k)
{
    auto n = rng.below(6);
    for (uint64_t i = 0; i < n; i++) p.add(k, { rng.chance(1, 3) ? rng.skew(10) : rng.chance(1, 8) ? 4096 + (int64_t)rng.below(3) - 1 : rng.skew(9000) });
}
void genFault(Rng& rng, Plan& p)
{
    if (rng.chance(1, 2)) return;
    auto n = 1 + rng.below(2);
    for (uint64_t i = 0; i < n; i++)
        p.add("fault", { (int64_t)rng.pick<Io>({ Io::Read, Io::Read, Io::Write, Io::Write, Io::Flush }), (int64_t)rng.below(1 << 20), (int64_t)(2 + rng.below(2)), rng.skew(100), rng.chance(1, 2) });
}
int64_t dataLen(Rng& rng) { return rng.chance(1, 6) ? rng.skew(200000) : rng.chance(1, 3) ? rng.skew(30) : rng.skew(9000); }

// decode `enc`, healthy and then (if the plan says so) with a failing source
void decodeBothWays(const Plan& p, const string& enc, const PdfFilterList& chain, const vector<const PdfDictionary*>& parms, const string& want, const string& what)
{
    auto& c = ctx();
    c.setStage("decoding");
    uint64_t counts[(int)Io::Count];
    {
        auto src = make_shared<SimInput>(enc, devOpts((uint64_t)p.c("src")));
        string got, err;
        Cuts cuts(p, "r");
        if (!attempt(err, [&] { auto in = PdfFilterFactory::CreateDecodeStream(src, chain, parms); readCut(*in, got, cuts, want.size()); }))
            c.fail("decode-error", what + ": decoding failed: " + err);
        same("decoded", what, got, want);
        memcpy(counts, src->faults.count, sizeof(counts));
        c.ev("decoded", (int64_t)got.size());
    }
    {
        auto src = make_shared<SimInput>(enc, devOpts((uint64_t)p.c("src")));
        src->faults = place(p, counts, false);
        if (src->faults.faults.empty()) return;
        string got, err;
        Cuts cuts(p, "r");
        unique_ptr<InputStream> in;
        bool ok = attempt(err, [&] { in = PdfFilterFactory::CreateDecodeStream(src, chain, parms); readCut(*in, got, cuts, want.size()); });
        c.ev("faulty-decode", ok, (int64_t)got.size());
        if (ok && src->faults.fired) c.fail("error-swallowed", strf("%s: decoding %zu of %zu bytes ended normally although the source failed", what.c_str(), got.size(), want.size()));
        if (!ok && !src->faults.fired) c.fail("spurious-error", what + ": decoding failed although the source did not: " + err);
        if (ok) { same("decoded", what, got, want); return; }
        c.probe("source-failure-seen");
        if (want.compare(0, got.size(), got) != 0) same("wrong-prefix", what + " before the source failed", got, want);
        // going on after the error never yields wrong data: either further errors or the right continuation
        src->faults.clear();
        string more;
        if (in && p.c("goon") && attempt(err, [&] { char buf[257]; bool eof = false; while (!eof) { size_t k = in->Read(buf, 256, eof); more.append(buf, k); if (more.size() > want.size() + 1000) break; } }))
        {
            // what one throwing call had already taken is lost to the caller; the rest must be a tail
            if (more.size() > want.size() || want.compare(want.size() - more.size(), more.size(), more) != 0)
                c.fail("wrong-data-after-error", strf("%s: reading on after a failure of the source gave %zu bytes that are not the rest of the data", what.c_str(), more.size()));
            c.probe("read-on-after-failure");
        }
    }
}

// the block interface of one filter
void blocks(const Plan& p, PdfFilterType type, const PdfDictionary* parms, bool encode, const string& data, const string& want, const string& what)
{
    auto& c = ctx();
    c.setStage(encode ? "encoding blocks" : "decoding blocks");
    uint64_t counts[(int)Io::Count] = {};
    for (int faulty = 0; faulty < 2; faulty++)
    {
        SimOutput out;
        if (faulty) { out.faults = place(p, counts, true); if (out.faults.faults.empty()) return; }
        auto f = PdfFilterFactory::Create(type);
        Cuts cuts(p, "w");
        string err;
        bool ok = attempt(err, [&] {
            if (encode) f->BeginEncode(out); else f->BeginDecode(out, parms);
            size_t pos = 0, zero = 0;
            while (pos < data.size())
            {
                size_t n = min(cuts.next(data.size()), data.size() - pos);
                if (n == 0 && ++zero > 50) n = 1;
                string block = data.substr(pos, n);      // exact allocation, overreads show
                if (encode) f->EncodeBlock({ block.data(), block.size() }); else f->DecodeBlock({ block.data(), block.size() });
                pos += n;
            }
            if (encode) f->EndEncode(); else f->EndDecode();
        });
        c.ev("blocks", ok, (int64_t)out.data.size());
        memcpy(counts, out.faults.count, sizeof(counts));
        if (ok && out.faults.fired) c.fail("error-swallowed", what + ": ended normally although the sink failed");
        if (!ok && !out.faults.fired) c.fail("spurious-error", what + " failed although the sink did not: " + err);
        if (ok && !encode) same("decoded", what, out.data, want);
        if (ok && encode)
        {
            charbuff back;
            f = PdfFilterFactory::Create(type);
            if (!attempt(err, [&] { f->DecodeTo(back, { out.data.data(), out.data.size() }, parms); })) c.fail("decode-error", what + ": decoding failed: " + err);
            same("decoded", what, string(back), data);
        }
        if (!ok && !encode && want.compare(0, out.data.size(), out.data) != 0) same("wrong-prefix", what + " before the sink failed", out.data, want);
        if (!ok) c.probe("sink-failure-seen");
    }
}

// ---------------------------------------------------------------- what the library encodes comes back
void genRound(Rng& rng, Plan& p)
{
    p.cfg["chain"] = 1 + (int64_t)rng.below(rng.chance(1, 2) ? 3 : 63);
    p.cfg["data"] = (int64_t)rng.below(1000000007);
    p.cfg["len"] = dataLen(rng);
    p.cfg["src"] = (int64_t)rng.below(100);
    p.cfg["mode"] = (int64_t)rng.below(4);
    p.cfg["goon"] = rng.chance(1, 2);
    genCuts(rng, p, "w");
    genCuts(rng, p, "r");
    if (p.c("mode") == 1) { auto n = rng.below(4); for (uint64_t i = 0; i < n; i++) p.add("session", { (int64_t)rng.below(64), rng.chance(2, 3), rng.skew(3000), (int64_t)rng.below(1000000007), (int64_t)rng.below(4) }); }
    genFault(rng, p);
}
void runRound(const Plan& p)
{
    auto& c = ctx();
    auto data = dataOf(p);
    auto chain = chainOf(p.c("chain"));
    auto what = chainText(chain) + strf(" of %zu bytes", data.size());
    c.state(Rng::mix(hashBytes(chainText(chain)) ^ (uint64_t)p.c("mode") ^ (data.size() > 4096 ? 8 : data.size() == 0 ? 16 : 0)));
    vector<const PdfDictionary*> none(chain.size(), nullptr);
    string err;
    switch (p.c("mode"))
    {
        case 0:
        {
            string enc;
            uint64_t counts[(int)Io::Count];
            for (int faulty = 0; faulty < 2; faulty++)
            {
                c.setStage("encoding");
                auto sink = make_shared<SimOutput>();
                if (faulty) { sink->faults = place(p, counts, true); if (sink->faults.faults.empty()) break; }
                Cuts cuts(p, "w");
                bool ok = attempt(err, [&] { auto out = PdfFilterFactory::CreateEncodeStream(sink, chain); writeCut(*out, data, cuts); });
                c.ev("encoded", ok, (int64_t)sink->data.size());
                memcpy(counts, sink->faults.count, sizeof(counts));
                if (!ok && !sink->faults.fired) c.fail("spurious-error", what + ": encoding failed although the sink did not: " + err);
                if (ok && !sink->faults.fired)
                {
                    if (faulty) same("encoded", what + ": encoding again", sink->data, enc);
                    enc = sink->data;
                }
                if (faulty && sink->faults.fired) c.probe(ok ? "sink-failed-at-the-end" : "sink-failure-seen");
            }
            decodeBothWays(p, enc, chain, none, data, what);
            break;
        }
        case 1:
        {
            // streams of objects, written in several sessions, replaced and appended
            c.setStage("stream of an object");
            PdfMemDocument doc;
            auto& obj = doc.GetObjects().CreateDictionaryObject();
            auto& s = obj.GetOrCreateStream();
            Cuts w(p, "w"), r(p, "r");
            string all = data;
            { auto out = s.GetOutputStream(chain); writeCut(out, data, w); }
            for (auto& op : p.ops)
            {
                if (op.k != "session") continue;
                Rng rng(op.u(3));
                auto more = randomBytes(rng, (size_t)op.u(2), (int)rng.below(5));
                bool append = op.at(1) != 0;
                if (!append) all.clear();
                auto l = chainOf(op.at(0));
                switch (op.u(4) % 4)
                {
                    case 0: { auto out = s.GetOutputStream(append); writeCut(out, more, w); break; }
                    case 1: { auto out = s.GetOutputStreamRaw(append); writeCut(out, more, w); break; }
                    case 2: { auto out = s.GetOutputStream(l, append); writeCut(out, more, w); break; }
                    default:
                    {
                        all.clear();
                        SimInput in(more, devOpts(op.u(0)));
                        if (op.u(0) % 2) s.SetData(in, l); else s.SetData(bufferview(more.data(), more.size()), l);
                    }
                }
                all += more;
            }
            string got;
            { auto in = s.GetInputStream(); readCut(in, got, r, all.size()); }
            same("stream", what + ": read from the object", got, all);
            same("stream", what + ": copy", string(s.GetCopy()), all);
            SimOutput out;
            s.CopyTo(out);
            same("stream", what + ": copied to a sink", out.data, all);
            {
                // through the raw bytes and the dictionary of the object only
                auto raw = string(s.GetCopy(true));
                auto l = PdfFilterFactory::CreateFilterList(obj);
                auto again = raw;
                if (l.size()) decodeBothWays(p, raw, l, vector<const PdfDictionary*>(l.size(), nullptr), all, chainText(l) + ": raw data of the object");
                else same("stream", "raw data of an unfiltered stream", raw, all);
            }
            {
                // copies, moves and unwrapping
                PdfObject copy(obj);
                same("stream", what + ": copied object", string(copy.MustGetStream().GetCopy()), all);
                copy.MustGetStream().Unwrap();
                same("stream", what + ": unwrapped", string(copy.MustGetStream().GetCopy()), all);
                if (PdfFilterFactory::CreateFilterList(copy).size()) c.fail("unwrap", what + ": filters left after unwrapping");
                same("stream", what + ": unwrapped raw", string(copy.MustGetStream().GetCopy(true)), all);
                auto& other = doc.GetObjects().CreateDictionaryObject();
                other.GetOrCreateStream().SetData(bufferview("xyz", 3), encTypes[(uint64_t)p.c("src") % 3] == PdfFilterType::FlateDecode ? PdfFilterList{} : PdfFilterList{ encTypes[(uint64_t)p.c("src") % 3] });
                if (p.c("src") % 2) { other.MustGetStream() = s; same("stream", what + ": source of an assignment", string(s.GetCopy()), all); }
                else other.MustGetStream() = std::move(s);
                same("stream", what + ": assigned stream", string(other.MustGetStream().GetCopy()), all);
            }
            // a sink that fails while a stream is copied to it
            SimOutput bad;
            bad.faults = place(p, out.faults.count, true);
            if (!bad.faults.faults.empty() && p.c("src") % 2)
            {
                bool ok = attempt(err, [&] { s.CopyTo(bad); });
                if (ok && bad.faults.fired) c.fail("error-swallowed", what + ": copying to a failing sink returned normally");
                if (!ok && !bad.faults.fired) c.fail("spurious-error", what + ": " + err);
                if (all.compare(0, bad.data.size(), bad.data) != 0) same("wrong-prefix", what + " before the sink failed", bad.data, all);
                same("stream", what + ": after a failed copy", string(s.GetCopy()), all);
            }
            // a source that fails while it is stored: reported, and the object stays usable
            SimInput probe(all, devOpts((uint64_t)p.c("src"))); 
            auto& third = doc.GetObjects().CreateDictionaryObject();
            third.GetOrCreateStream().SetData(probe, chain);
            same("stream", what + ": stored from a source", string(third.MustGetStream().GetCopy()), all);
            SimInput src(all, devOpts((uint64_t)p.c("src")));
            src.faults = place(p, probe.faults.count, false);
            if (!src.faults.faults.empty())
            {
                bool ok = attempt(err, [&] { third.MustGetStream().SetData(src, chain); });
                if (ok && src.faults.fired) c.fail("error-swallowed", what + ": storing from a failing source returned normally");
                third.MustGetStream().SetData(bufferview(all.data(), all.size()), chain);
                same("stream", what + ": stored again after a failure", string(third.MustGetStream().GetCopy()), all);
                c.probe("store-failure");
            }
            break;
        }
        case 2:
            blocks(p, chain[0], nullptr, true, data, data, string(mm::FilterToName(chain[0])) + strf(" of %zu bytes in blocks", data.size()));
            break;
        default:
        {
            // the same filter object used again and again, also after a failure
            c.setStage("reusing a filter");
            auto f = PdfFilterFactory::Create(chain[0]);
            auto name = string(mm::FilterToName(chain[0]));
            charbuff enc;
            string other = data.substr(data.size() / 2);
            for (int i = 0; i < 3; i++)
            {
                auto& d = i == 1 ? other : data;
                if (i == 1)
                {
                    SimOutput bad;
                    bad.faults = place(p, nullptr, true);
                    for (auto& x : bad.faults.faults) x.at = 0;
                    bool ok = attempt(err, [&] { f->EncodeTo(bad, { d.data(), d.size() }); });
                    if (ok && bad.faults.fired) c.fail("error-swallowed", name + ": encoding to a failing sink returned normally");
                }
                enc.clear();
                if (!attempt(err, [&] { f->EncodeTo(enc, { d.data(), d.size() }); })) c.fail("spurious-error", name + ": encoding again failed: " + err);
                charbuff back;
                if (!attempt(err, [&] { f->DecodeTo(back, { enc.data(), enc.size() }); })) c.fail("decode-error", name + ": decoding again failed: " + err);
                same("decoded", name + ": encoded and decoded again", string(back), d);
            }
        }
    }
}
Register r08({ "C08", "roundtrip", 1, 10000, genRound, runRound });

// ---------------------------------------------------------------- data of other producers
void genForeign(Rng& rng, Plan& p)
{
    p.cfg["data"] = (int64_t)rng.below(1000000007);
    p.cfg["len"] = dataLen(rng);
    if (rng.chance(1, 2)) p.cfg["len"] = rng.skew(3000);
    p.cfg["src"] = (int64_t)rng.below(100);
    p.cfg["enc"] = (int64_t)rng.below(1000000007);
    p.cfg["mode"] = (int64_t)rng.below(3);
    p.cfg["goon"] = rng.chance(1, 2);
    auto n = 1 + rng.below(3);
    for (uint64_t i = 0; i < n; i++) p.add("filter", { (int64_t)rng.below(12), (int64_t)rng.below(4), (int64_t)rng.below(4), 1 + rng.skew(300), (int64_t)rng.below(8) });
    genCuts(rng, p, "w");
    genCuts(rng, p, "r");
    genFault(rng, p);
}
void runForeign(const Plan& p)
{
    auto& c = ctx();
    auto data = dataOf(p);
    Rng rng((uint64_t)p.c("enc"));
    vector<Op> fs;
    for (auto& op : p.ops) if (op.k == "filter") fs.push_back(op);
    if (fs.empty()) return;
    if (p.c("mode") == 1) fs.resize(1);
    // the first filter of the list is the outermost: encode from the last to the first
    PdfFilterList chain;
    vector<PdfDictionary> dicts(fs.size());
    vector<const PdfDictionary*> parms(fs.size(), nullptr);
    string cur = data, what;
    vector<string> plain(fs.size());
    for (size_t k = fs.size(); k-- > 0;)
    {
        auto& op = fs[k];
        auto t = op.u(0) % 12;
        PdfFilterType type;
        string name;
        const int colorsOf[] = { 1, 2, 3, 4 }, bpcOf[] = { 8, 16, 4, 1 };
        int colors = colorsOf[op.u(1) % 4], bpc = bpcOf[op.u(2) % 4], columns = (int)op.u(3);
        bool pred = t >= 7;
        bool lzw = t == 4 || t == 5 || t == 10 || t == 11;
        if (pred)
        {
            bool tiff = t == 9 || t == 11;
            if (tiff) bpc = 8;
            size_t row = ((size_t)colors * bpc * columns + 7) / 8;
            if (cur.size() > 60000 && k + 1 == fs.size()) cur.resize(60000);
            cur.resize((cur.size() + row - 1) / row * row);
            if (k + 1 == fs.size()) data = cur;
        }
        plain[k] = cur;
        if (pred)
        {
            bool tiff = t == 9 || t == 11;
            auto& d = dicts[k];
            int fixed = -1;
            int64_t predictor = tiff ? 2 : 10 + (int64_t)op.u(4) % 6;
            if (!tiff && predictor < 15) fixed = op.u(4) >= 6 ? -1 : (int)(predictor - 10);
            cur = tiff ? encTiff(cur, colors, bpc, columns) : encPng(cur, colors, bpc, columns, rng, fixed);
            d.AddKey("Predictor", PdfObject(predictor));
            if (colors != 1 || op.u(4) % 2) d.AddKey("Colors", PdfObject((int64_t)colors));
            if (bpc != 8 || op.u(4) % 2) d.AddKey("BitsPerComponent", PdfObject((int64_t)bpc));
            if (columns != 1 || op.u(4) % 2) d.AddKey("Columns", PdfObject((int64_t)columns));
            parms[k] = &d;
            name = strf("predictor %d (%d colors, %d bits, %d columns) ", (int)predictor, colors, bpc, columns);
        }
        if (lzw)
        {
            bool early = t != 5;
            if (t != 4 && t != 5) early = op.u(4) % 3 != 0;
            cur = encLzw(cur, early);
            if (!early) { dicts[k].AddKey("EarlyChange", PdfObject((int64_t)0)); parms[k] = &dicts[k]; }
            type = PdfFilterType::LZWDecode;
            if (!early) name += "late ";
        }
        else switch (t)
        {
            case 0: cur = encHex(cur, rng, rng.chance(3, 4)); type = PdfFilterType::ASCIIHexDecode; break;
            case 1: cur = enc85(cur, rng, rng.chance(3, 4)); type = PdfFilterType::ASCII85Decode; break;
            case 2: cur = encRle(cur, rng); type = PdfFilterType::RunLengthDecode; break;
            default: cur = encFlate(cur, 1 + (int)rng.below(9)); type = PdfFilterType::FlateDecode; break;
        }
        chain.insert(chain.begin(), type);
        what = string(mm::FilterToName(type)) + " " + name + what;
    }
    what += strf("of %zu bytes", data.size());
    c.state(hashBytes(what));
    if (p.c("mode") == 1) blocks(p, chain[0], parms[0], false, cur, data, what);
    else decodeBothWays(p, cur, chain, parms, data, what);
    if (p.c("mode") == 2)
    {
        // the same as a stream in a file, with one or too many entries of decode parameters
        c.setStage("foreign stream in a file");
        bool any = false;
        for (auto d : parms) any = any || d != nullptr;
        auto text = [](const PdfDictionary* d) { if (d == nullptr) return string("null"); return PdfVariant(*d).ToString(); };
        string file = "%PDF-1.7\n1 0 obj\n<< /Type /Catalog /Pages 2 0 R /S 3 0 R >>\nendobj\n";
        size_t o1 = 9, o2 = file.size();
        file += "2 0 obj\n<< /Type /Pages /Kids [ ] /Count 0 >>\nendobj\n";
        size_t o3 = file.size();
        file += "3 0 obj\n<< /Length " + to_string(cur.size());
        bool single = chain.size() == 1 && p.c("src") % 2;
        if (single) file += " /Filter /" + string(mm::FilterToName(chain[0]));
        else { file += " /Filter ["; for (auto f : chain) file += "/" + string(mm::FilterToName(f)); file += "]"; }
        if (any)
        {
            if (single) file += " /DecodeParms " + text(parms[0]);
            else { file += " /DecodeParms ["; for (auto d : parms) file += text(d) + " "; for (int64_t i = p.c("src") % 5; i > 2; i--) file += "<< /Predictor 1 >> "; file += "]"; }
        }
        file += " >>\nstream\n" + cur + "\nendstream\nendobj\n";
        size_t x = file.size();
        file += "xref\n0 4\n0000000000 65535 f \n" + strf("%010zu 00000 n \n%010zu 00000 n \n%010zu 00000 n \n", o1, o2, o3) + "trailer\n<< /Size 4 /Root 1 0 R >>\nstartxref\n" + to_string(x) + "\n%%EOF\n";
        auto doc = loadDoc(file, {}, devOpts((uint64_t)p.c("src")));
        auto& s = doc->GetObjects().MustGetObject(PdfReference(3, 0)).MustGetStream();
        string got; Cuts r(p, "r");
        { auto in = s.GetInputStream(); readCut(in, got, r, data.size()); }
        same("stream", what + " in a file", got, data);
        same("stream", what + " in a file, raw", string(s.GetCopy(true)), cur);
        s.Unwrap();
        same("stream", what + " in a file, unwrapped", string(s.GetCopy()), data);
        c.probe("foreign-in-file");
    }
    c.probe("foreign");
}
Register r08b({ "C08", "foreign", 1, 10000, genForeign, runForeign });

} // namespace
