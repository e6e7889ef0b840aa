// C09: every stream device behaves like one byte array with a cursor
#include "docutil.h"
#include <sstream>
using namespace std;
using namespace mm;
using namespace sim;

namespace {

// A stream buffer of the application that hands out its data in pieces
class PieceBuf final : public streambuf
{
public:
    PieceBuf(string d, int chunking, uint64_t seed) : m_data(std::move(d)), m_chunking(chunking), m_rng(seed) { }
protected:
    int_type underflow() override
    {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        m_base += (size_t)(egptr() - eback());
        if (m_base >= m_data.size()) { setg(nullptr, nullptr, nullptr); return traits_type::eof(); }
        size_t n = chunkSize(m_rng, m_chunking, m_data.size() - m_base);
        setg(&m_data[m_base], &m_data[m_base], &m_data[m_base] + n);
        return traits_type::to_int_type(*gptr());
    }
    pos_type seekoff(off_type off, ios_base::seekdir dir, ios_base::openmode) override
    {
        off_type cur = (off_type)m_base + (gptr() - eback());
        off_type to = dir == ios_base::beg ? off : dir == ios_base::cur ? cur + off : (off_type)m_data.size() + off;
        if (to < 0 || to > (off_type)m_data.size()) return pos_type(off_type(-1));
        m_base = (size_t)to;
        setg(nullptr, nullptr, nullptr);
        return to;
    }
    pos_type seekpos(pos_type p, ios_base::openmode m) override { return seekoff(off_type(p), ios_base::beg, m); }
private:
    string m_data; size_t m_base = 0; int m_chunking; Rng m_rng;
};

enum Kind { KString, KBuff, KVector, KSpan, KSpanRead, KIoStream, KIStream, KOStream, KPiece, KFile, KNull, KKinds };
const char* kindName[] = { "string container", "buffer container", "vector container", "span", "read-only span", "iostream", "istream", "ostream", "istream over a piecewise buffer", "file", "null device" };

struct Dev
{
    int kind = 0;
    string str; charbuff buff; vector<char> vec; string span;
    stringstream ss; istringstream is; ostringstream os; unique_ptr<PieceBuf> pb; unique_ptr<istream> pis;
    unique_ptr<StreamDevice> dev;
    string path;
    // the model
    string data; size_t pos = 0;
    bool r = false, w = false, fixed = false, zeros = false;
    bool exists = true;           // the file
    bool broken = false;          // an operation failed for real: content no longer predicted

    string content() const
    {
        switch (kind)
        {
            case KString: return str;
            case KBuff: return string(buff.data(), buff.size());
            case KVector: return string(vec.data(), vec.size());
            case KSpan: case KSpanRead: return span;
            case KIoStream: return ss.str();
            case KOStream: return os.str();
            case KFile: return readFile(path);
            default: return data;
        }
    }
    const char* name() const { return kindName[kind]; }
};

// the expected outcome of opening a file, see the documentation of FileMode
bool modeOk(FileMode m, DeviceAccess a, bool exists)
{
    switch (m)
    {
        case FileMode::CreateNew: return a != DeviceAccess::Read && !exists;
        case FileMode::Create: return a != DeviceAccess::Read;
        case FileMode::Open: return exists;
        case FileMode::OpenOrCreate: return a != DeviceAccess::Read;
        case FileMode::Truncate: return a != DeviceAccess::Read && exists;
        default: return a == DeviceAccess::Write && exists;
    }
}

void openFile(Dev& d, const Op& op)
{
    auto& c = ctx();
    auto mode = (FileMode)(1 + op.u(0) % 6);
    auto acc = (DeviceAccess)(1 + op.u(1) % 3);
    bool want = modeOk(mode, acc, d.exists);
    auto fired = world().disk.fired;
    string err;
    try { d.dev.reset(new FileStreamDevice(d.path, mode, acc)); }
    catch (const std::exception& e) { err = e.what(); d.dev.reset(); }
    c.ev("open", (int64_t)mode, (int64_t)acc, d.dev ? 1 : 0);
    bool real = world().disk.fired != fired;
    auto what = strf("opening %s file, mode %d access %d", d.exists ? "an existing" : "a missing", (int)mode, (int)acc);
    if (real) { if (d.dev) c.fail("error-swallowed", what + ": returned normally although an operation failed"); d.broken = true; return; }
    if (want != (d.dev != nullptr)) c.fail(want ? "open-refused" : "open-allowed", what + (want ? ": " + err : string(": succeeded")));
    if (!d.dev) { c.probe("open-refused"); return; }
    d.r = (acc & DeviceAccess::Read) != DeviceAccess{};
    d.w = (acc & DeviceAccess::Write) != DeviceAccess{};
    if (mode == FileMode::Create || mode == FileMode::Truncate || !d.exists) d.data.clear();
    d.exists = true;
    d.pos = mode == FileMode::Append ? d.data.size() : 0;
    if (readFile(d.path) != d.data) c.fail("open-content", what + strf(": the file holds %zu bytes, expected %zu", readFile(d.path).size(), d.data.size()));
    c.probe("open-ok");
}

void start(const Plan& p, Dev& d)
{
    d.kind = (int)((uint64_t)p.c("kind") % KKinds);
    Rng rng((uint64_t)p.c("data"));
    d.data = randomBytes(rng, (size_t)p.c("len"), (int)rng.below(5));
    auto acc = (DeviceAccess)(1 + (uint64_t)p.c("access") % 3);
    d.r = (acc & DeviceAccess::Read) != DeviceAccess{}; d.w = (acc & DeviceAccess::Write) != DeviceAccess{};
    bool ate = p.c("ate") != 0;
    switch (d.kind)
    {
        case KString: d.str = d.data; d.dev.reset(new StringStreamDevice(d.str, acc, ate)); break;
        case KBuff: d.buff = charbuff(string_view(d.data)); d.dev.reset(new BufferStreamDevice(d.buff, acc, ate)); break;
        case KVector: d.vec.assign(d.data.begin(), d.data.end()); d.dev.reset(new VectorStreamDevice(d.vec, acc, ate)); break;
        case KSpan: d.span = d.data; d.fixed = true; ate = false; d.dev.reset(new SpanStreamDevice(d.span.data(), d.span.size(), acc)); break;
        case KSpanRead: d.span = d.data; d.fixed = true; ate = false; d.r = true; d.w = false; d.dev.reset(new SpanStreamDevice(bufferview(d.span.data(), d.span.size()))); break;
        case KIoStream: d.ss.str(d.data); ate = false; d.r = d.w = true; d.dev.reset(new StandardStreamDevice(static_cast<iostream&>(d.ss))); break;
        case KIStream: d.is.str(d.data); ate = false; d.r = true; d.w = false; d.dev.reset(new StandardStreamDevice(static_cast<istream&>(d.is))); break;
        case KOStream: d.data.clear(); ate = false; d.r = false; d.w = true; d.dev.reset(new StandardStreamDevice(static_cast<ostream&>(d.os))); break;
        case KPiece: ate = false; d.r = true; d.w = false; d.pb.reset(new PieceBuf(d.data, (int)((uint64_t)p.c("access") % 4), 5)); d.pis.reset(new istream(d.pb.get())); d.dev.reset(new StandardStreamDevice(*d.pis)); break;
        case KFile:
            ate = false; d.r = d.w = false;
            d.path = world().scratch("dev.bin");
            d.exists = p.c("exists") != 0;
            if (d.exists) writeFile(d.path, d.data); else d.data.clear();
            break;
        default: d.data.clear(); ate = false; d.r = d.w = true; d.zeros = true; d.dev.reset(new NullStreamDevice()); break;
    }
    d.pos = ate ? d.data.size() : 0;
}

void checkState(Dev& d, const char* after)
{
    auto& c = ctx();
    auto& v = *d.dev;
    auto where = strf("%s after %s", d.name(), after);
    size_t pos = v.GetPosition();
    if (pos != d.pos) c.fail("position", strf("%s: position %zu, expected %zu", where.c_str(), pos, d.pos));
    size_t len = v.GetLength();
    if (len != d.data.size()) c.fail("length", strf("%s: length %zu, expected %zu", where.c_str(), len, d.data.size()));
    if (v.GetPosition() != d.pos) c.fail("position", where + ": asking for the length moved the position");
    if (d.r && v.Eof() != (d.pos >= d.data.size())) c.fail("end-of-data", strf("%s: Eof() is %d at %zu of %zu", where.c_str(), v.Eof(), d.pos, d.data.size()));
    if (!v.CanSeek()) c.fail("can-seek", where + ": can't seek");
}

void expectBytes(Dev& d, const char* what, const string& got, size_t at)
{
    string want = d.data.substr(at, got.size());
    if (d.zeros) want.assign(got.size(), '\0');
    if (got != want)
    {
        size_t i = 0; while (got[i] == want[i]) i++;
        ctx().fail("bytes", strf("%s: %s of %zu bytes at %zu: byte %zu is %02x, expected %02x", d.name(), what, got.size(), at, i, (unsigned char)got[i], (unsigned char)want[i]));
    }
}

// One operation. Returns normally when the device did what the model says.
void step(Dev& d, const Op& op)
{
    auto& c = ctx();
    auto& v = *d.dev;
    size_t n = (size_t)op.u(0);
    auto refused = [&](bool allowed, const char* what, auto fn) {
        string err; bool threw = false;
        auto fired = world().disk.fired;
        try { fn(); } catch (const std::exception& e) { threw = true; err = e.what(); }
        bool real = world().disk.fired != fired;
        if (real) { d.broken = true; c.probe("io-error"); if (!threw) c.fail("error-swallowed", strf("%s: %s returned normally although an operation of the system failed", d.name(), what)); return false; }
        if (d.broken) return false;
        if (threw && allowed) c.fail("refused", strf("%s: %s failed: %s", d.name(), what, err.c_str()));
        if (!threw && !allowed) c.fail("allowed", strf("%s: %s succeeded outside of its access rights or bounds", d.name(), what));
        if (threw) c.probe("refused");
        return !threw;
    };
    if (op.k == "write")
    {
        Rng rng(op.u(1));
        string s = randomBytes(rng, n, (int)rng.below(5));
        bool fits = !d.fixed || d.pos + s.size() <= d.data.size();
        if (op.u(2) % 3 == 0 && s.size() == 1) { if (!refused(d.w && fits, "writing a character", [&] { v.Write(s[0]); })) return; }
        else if (op.u(2) % 3 == 1) { if (s.empty()) { v.Write(string_view(s)); return; } if (!refused(d.w && fits, "writing", [&] { v.Write(string_view(s)); })) return; }
        else { if (s.empty()) { v.Write(s.data(), 0); return; } if (!refused(d.w && fits, "writing", [&] { v.Write(s.data(), s.size()); })) return; }
        if (d.pos + s.size() > d.data.size()) d.data.resize(d.pos + s.size());
        memcpy(&d.data[d.pos], s.data(), s.size());
        d.pos += s.size();
        c.probe("written");
    }
    else if (op.k == "read")
    {
        size_t rest = d.data.size() - d.pos;
        string buf(n + 1, '#');
        if (op.u(1) % 2)
        {
            // exactly n bytes or an error
            if (!d.r) { refused(false, "reading", [&] { v.Read(buf.data(), n); }); return; }
            bool ok = refused(n <= rest, "reading an exact number of bytes", [&] { v.Read(buf.data(), n); });
            if (d.broken) return;
            size_t got = min(n, rest);
            if (ok) expectBytes(d, "exact read", buf.substr(0, got), d.pos);
            d.pos += got;
        }
        else
        {
            bool eof = false; size_t got = 0;
            if (!refused(d.r, "reading", [&] { got = v.Read(buf.data(), n, eof); })) return;
            if (got != min(n, rest)) c.fail("short-read", strf("%s: reading %zu of the remaining %zu bytes gave %zu", d.name(), n, rest, got));
            expectBytes(d, "read", buf.substr(0, got), d.pos);
            d.pos += got;
            if (eof != (d.pos >= d.data.size())) c.fail("end-of-data", strf("%s: reading up to %zu of %zu said end of data: %d", d.name(), d.pos, d.data.size(), eof));
        }
        if (buf[n] != '#') c.fail("overrun", strf("%s: reading wrote behind the buffer", d.name()));
        c.probe("read");
    }
    else if (op.k == "getc")
    {
        char ch = '#'; bool got = false, more = d.pos < d.data.size();
        if (op.u(0) % 2) { if (!refused(d.r, "reading a character", [&] { got = v.Read(ch); })) return; }
        else { bool ok = refused(d.r && more, "reading a character", [&] { ch = v.ReadChar(); }); if (d.broken || !d.r) return; got = ok; }
        if (got != more) c.fail("end-of-data", strf("%s: reading a character at %zu of %zu returned %d", d.name(), d.pos, d.data.size(), got));
        if (got) { expectBytes(d, "character read", string(1, ch), d.pos); d.pos++; }
    }
    else if (op.k == "peek")
    {
        char ch = '#'; bool got = false, more = d.pos < d.data.size();
        if (!refused(d.r, "peeking", [&] { got = v.Peek(ch); })) return;
        if (got != more) c.fail("end-of-data", strf("%s: peeking at %zu of %zu returned %d", d.name(), d.pos, d.data.size(), got));
        if (got) expectBytes(d, "peek", string(1, ch), d.pos);
    }
    else if (op.k == "seek")
    {
        ssize_t len = (ssize_t)d.data.size(), to = (ssize_t)(op.u(0) % (uint64_t)(len + 1));
        bool bad = op.u(2) % 8 == 7;
        if (bad) to = op.u(0) % 2 || d.kind == KFile ? -1 - (ssize_t)(op.u(0) % 5) : len + 1 + (ssize_t)(op.u(0) % 5);
        bool ok;
        switch (op.u(1) % 4)
        {
            case 0: ok = refused(!bad, "seeking from the beginning", [&] { v.Seek(to, SeekDirection::Begin); }); break;
            case 1: ok = refused(!bad, "seeking from the current position", [&] { v.Seek(to - (ssize_t)d.pos, SeekDirection::Current); }); break;
            case 2: ok = refused(!bad, "seeking from the end", [&] { v.Seek(to - len, SeekDirection::End); }); break;
            default: if (bad) return; ok = refused(true, "seeking", [&] { v.Seek((size_t)to); });
        }
        if (ok) d.pos = (size_t)to;
    }
    else if (op.k == "flush")
    {
        if (!d.w) return;
        if (refused(true, "flushing", [&] { v.Flush(); }) && d.kind == KFile && readFile(d.path) != d.data) c.fail("flushed-bytes", strf("the file holds other bytes after a flush (%zu, expected %zu)", readFile(d.path).size(), d.data.size()));
    }
    else if (op.k == "copy")
    {
        string target; StringStreamDevice t(target);
        size_t rest = d.data.size() - d.pos, want = op.u(1) % 2 ? rest : min(rest, n);
        if (!refused(d.r, "copying", [&] { if (op.u(1) % 2) v.CopyTo(t); else v.CopyTo(t, n); })) return;
        if (target.size() != want) c.fail("copy-size", strf("%s: copying %zu of the remaining %zu bytes gave %zu", d.name(), op.u(1) % 2 ? rest : n, rest, target.size()));
        expectBytes(d, "copy", target, d.pos);
        d.pos += want;
    }
}

void finish(Dev& d)
{
    auto& c = ctx();
    if (d.kind == KFile && d.dev)
    {
        auto fired = world().disk.fired;
        bool threw = false;
        try { d.dev->Close(); } catch (const std::exception&) { threw = true; }
        if (world().disk.fired != fired)
        {
            if (!threw) c.fail("error-swallowed", "closing a file returned normally although an operation of the system failed");
            d.broken = true;
        }
        else if (threw && !d.broken) c.fail("refused", "closing a file failed");
        d.dev.reset();
    }
    if (d.broken) return;
    if (d.kind == KOStream || d.kind == KIoStream || d.kind <= KSpanRead || d.kind == KFile)
    {
        if (d.kind == KFile && !d.exists) return;
        auto have = d.content();
        if (have != d.data)
        {
            size_t i = 0; while (i < have.size() && i < d.data.size() && have[i] == d.data[i]) i++;
            c.fail("content", strf("%s: holds %zu bytes at the end, expected %zu; first difference at %zu", d.name(), have.size(), d.data.size(), i));
        }
    }
}

void genOps(Rng& rng, Plan& p, int kind)
{
    auto n = 2 + rng.below(30);
    auto opSize = [&] { switch (rng.below(6)) { case 0: return (int64_t)rng.below(2); case 1: return rng.skew(20000); case 2: return (int64_t)(4090 + rng.below(12)); case 3: return (int64_t)(8185 + rng.below(14)); default: return rng.skew(40); } };
    if (kind == KFile) p.add("open", { (int64_t)rng.below(6), (int64_t)rng.below(3) });
    for (uint64_t i = 0; i < n; i++)
        switch (rng.below(13))
        {
            case 0: case 1: case 2: p.add("write", { rng.chance(1, 4) ? 1 : opSize(), (int64_t)rng.below(100000), (int64_t)rng.below(3) }); break;
            case 3: case 4: p.add("read", { opSize(), (int64_t)rng.below(2) }); break;
            case 5: p.add("getc", { (int64_t)rng.below(2) }); break;
            case 6: p.add("peek"); break;
            case 7: case 8: case 9: p.add("seek", { (int64_t)rng.below(1000000), (int64_t)rng.below(4), (int64_t)rng.below(8) }); break;
            case 10: p.add("flush"); break;
            case 11: p.add("copy", { opSize(), (int64_t)rng.below(2) }); break;
            default: if (kind == KFile) p.add("open", { (int64_t)rng.below(6), (int64_t)rng.below(3) });
        }
}

void gen09(Rng& rng, Plan& p)
{
    int kind = rng.chance(1, 3) ? (int)KFile : (int)rng.below(KKinds);
    p.cfg["kind"] = kind;
    p.cfg["data"] = (int64_t)rng.below(100000);
    p.cfg["len"] = rng.chance(1, 8) ? 0 : rng.chance(1, 4) ? 8000 + (int64_t)rng.below(400) : rng.skew(12000);
    p.cfg["access"] = (int64_t)rng.below(12);
    p.cfg["ate"] = rng.chance(1, 3);
    p.cfg["exists"] = rng.chance(3, 4);
    genOps(rng, p, kind);
    if (kind == KFile && rng.chance(1, 2))
    {
        auto n = 1 + rng.below(5);
        bool hard = rng.chance(1, 2);
        for (uint64_t i = 0; i < n; i++)
        {
            Io io = rng.pick(vector<Io>{ Io::Write, Io::Write, Io::Read, Io::Read, Io::Seek, Io::Close, Io::Open });
            p.add("fault", { (int64_t)io, rng.skew(12), hard && i == 0 ? 2 + (int64_t)rng.below(2) : (int64_t)rng.below(2), rng.chance(1, 3) ? -1 : rng.skew(9000), rng.chance(1, 2) });
        }
    }
}

void run09(const Plan& p)
{
    auto& c = ctx();
    Dev d;
    start(p, d);
    for (auto& op : p.ops) addFaultOp(world().disk, op);
    c.setStage("device operations");
    uint64_t sig = (uint64_t)d.kind;
    for (auto& op : p.ops)
    {
        if (op.k == "fault") continue;
        if (op.k == "open")
        {
            finish(d);
            if (d.broken) break;
            openFile(d, op);
            if (d.broken) break;
        }
        else if (d.dev) { step(d, op); c.ev(op.k.c_str(), (int64_t)d.pos, (int64_t)d.data.size()); }
        if (d.broken) break;
        if (d.dev)
        {
            auto fired = world().disk.fired;
            try { checkState(d, op.k.c_str()); }
            catch (const PdfError& e)
            {
                if (world().disk.fired == fired) c.fail("refused", strf("%s: asking for position, length or end of data after %s failed: %s", d.name(), op.k.c_str(), e.what()));
                d.broken = true; break;
            }
            catch (const std::ios_base::failure& e)
            {
                if (world().disk.fired == fired) c.fail("refused", strf("%s: asking for position, length or end of data after %s failed: %s", d.name(), op.k.c_str(), e.what()));
                d.broken = true; break;
            }
            if (world().disk.fired != fired) c.fail("error-swallowed", strf("%s: position, length and end of data were given after %s although an operation of the system failed", d.name(), op.k.c_str()));
        }
        sig = Rng::mix(sig ^ hashBytes(op.k) ^ (d.pos < d.data.size()) ^ (d.data.size() > 8192 ? 2 : 0));
    }
    finish(d);
    c.state(sig);
    c.probe(d.name());
    if (d.broken) c.probe("broken");
    world().disk.clear();
}

} // namespace
static Register r09({ "C09", "devices", 1, 40000, gen09, run09 });
