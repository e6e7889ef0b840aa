// C20: files, images and raw data embedded from outside are stored exactly, or the failure is reported.
#include "docutil.h"
#include <zlib.h>
#include <cstdio>
extern "C" {
#include <jpeglib.h>
}
using namespace std;
using namespace mm;
using namespace sim;

namespace {

int64_t big(Rng& rng) { return (int64_t)rng.below(1u << 30); }

// ---------------------------------------------------------------- pixels and independent image producers
struct Pix
{
    unsigned w = 0, h = 0; int ch = 1; unsigned maxv = 255;
    vector<uint16_t> v;           // w*h*ch
    bool hasAlpha = false;
    vector<uint16_t> alpha;       // w*h, 0..255
};
struct Img { string bytes; Pix pix; bool unsupported = false; string kind; };

string be32(uint32_t v) { string s(4, 0); for (int i = 0; i < 4; i++) s[(size_t)i] = (char)(v >> (24 - 8 * i)); return s; }
string be16(uint32_t v) { string s(2, 0); s[0] = (char)(v >> 8); s[1] = (char)v; return s; }
void packRow(string& out, const vector<uint16_t>& samples, int depth)
{
    unsigned acc = 0; int nb = 0;
    for (auto s : samples)
    {
        if (depth == 16) { out += (char)(s >> 8); out += (char)s; continue; }
        acc = (acc << depth) | s; nb += depth;
        if (nb == 8) { out += (char)acc; acc = 0; nb = 0; }
    }
    if (nb) out += (char)(acc << (8 - nb));
}
void dims(Rng& rng, Pix& p)
{
    p.w = 1 + (unsigned)rng.below(rng.chance(1, 12) ? 180 : 24);
    p.h = 1 + (unsigned)rng.below(rng.chance(1, 12) ? 120 : 16);
}
vector<uint16_t> samples(Rng& rng, size_t n, unsigned limit)
{
    vector<uint16_t> v(n);
    int mode = (int)rng.below(3);
    for (size_t i = 0; i < n; i++) v[i] = (uint16_t)(mode == 0 ? rng.below(limit) : mode == 1 ? i % limit : (i / 7 * 37) % limit);
    return v;
}

Img makePng(Rng& rng)
{
    Img im; im.kind = "png";
    auto& p = im.pix;
    dims(rng, p);
    static const int combos[][2] = { {0,1},{0,2},{0,4},{0,8},{0,16},{2,8},{2,16},{3,1},{3,2},{3,4},{3,8},{4,8},{4,16},{6,8},{6,16} };
    auto& cb = combos[rng.below(15)];
    int ct = cb[0], depth = cb[1];
    int fileCh = ct == 0 || ct == 3 ? 1 : ct == 2 ? 3 : ct == 4 ? 2 : 4;
    unsigned lim = 1u << depth;
    unsigned ncol = 0;
    if (ct == 3) ncol = 1 + (unsigned)rng.below(lim);
    auto s = samples(rng, (size_t)p.w * p.h * (size_t)fileCh, ct == 3 ? ncol : lim);
    bool inter = rng.chance(1, 4), trns = (ct == 0 || ct == 2 || ct == 3) && rng.chance(1, 3);
    string plte = ct == 3 ? randomBytes(rng, ncol * 3, 0) : "";
    string trnsData; vector<uint16_t> key;
    if (trns)
    {
        if (ct == 3) trnsData = randomBytes(rng, 1 + rng.below(ncol), 0);
        else for (int i = 0; i < fileCh; i++) { key.push_back(s[rng.below((uint64_t)p.w * p.h) * (uint64_t)fileCh + (uint64_t)i]); trnsData += be16(key.back()); }
        if (ct == 2 && rng.chance(1, 2)) { auto px = rng.below((uint64_t)p.w * p.h); trnsData.clear(); for (int i = 0; i < 3; i++) { key[(size_t)i] = s[px * 3 + (uint64_t)i]; trnsData += be16(key[(size_t)i]); } }
    }
    // filtered rows, in up to seven passes
    string raw;
    static const int ax[] = { 0,4,0,2,0,1,0 }, ay[] = { 0,0,4,0,2,0,1 }, dx[] = { 8,8,4,4,2,2,1 }, dy[] = { 8,8,8,4,4,2,2 };
    int bpp = max(1, fileCh * depth / 8);
    for (int pass = 0; pass < (inter ? 7 : 1); pass++)
    {
        unsigned x0 = inter ? (unsigned)ax[pass] : 0, y0 = inter ? (unsigned)ay[pass] : 0, xs = inter ? (unsigned)dx[pass] : 1, ys = inter ? (unsigned)dy[pass] : 1;
        if (x0 >= p.w) continue;
        string prev;
        for (unsigned y = y0; y < p.h; y += ys)
        {
            vector<uint16_t> r;
            for (unsigned x = x0; x < p.w; x += xs) for (int c = 0; c < fileCh; c++) r.push_back(s[((size_t)y * p.w + x) * (size_t)fileCh + (size_t)c]);
            string row; packRow(row, r, depth);
            if (prev.empty()) prev.assign(row.size(), 0);
            int f = (int)rng.below(5);
            raw += (char)f;
            for (size_t i = 0; i < row.size(); i++)
            {
                int a = i >= (size_t)bpp ? (unsigned char)row[i - (size_t)bpp] : 0, b = (unsigned char)prev[i], c = i >= (size_t)bpp ? (unsigned char)prev[i - (size_t)bpp] : 0;
                int pa = abs(b - c), pb = abs(a - c), pc = abs(a + b - 2 * c);
                int pr = f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : (pa <= pb && pa <= pc ? a : pb <= pc ? b : c);
                raw += (char)((unsigned char)row[i] - pr);
            }
            prev = row;
        }
    }
    auto chunk = [&](const string& type, const string& data) { string td = type + data; return be32((uint32_t)data.size()) + td + be32((uint32_t)crc32(0, (const Bytef*)td.data(), (uInt)td.size())); };
    string ihdr = be32(p.w) + be32(p.h) + (char)depth + (char)ct + string(2, '\0') + (char)(inter ? 1 : 0);
    im.bytes = string("\x89PNG\r\n\x1a\n") + chunk("IHDR", ihdr);
    if (rng.chance(1, 4)) im.bytes += chunk("gAMA", be32(45455));
    if (ct == 3) im.bytes += chunk("PLTE", plte);
    if (trns) im.bytes += chunk("tRNS", trnsData);
    if (rng.chance(1, 4)) im.bytes += chunk("tEXt", string("Comment\0hello", 13));
    string z = encFlate(raw, (int)rng.below(10));
    while (!z.empty()) { size_t n = rng.chance(1, 2) ? z.size() : 1 + rng.below(z.size()); im.bytes += chunk("IDAT", z.substr(0, n)); z.erase(0, n); }
    im.bytes += chunk("IEND", "");
    // what the picture shows, at 8 bits
    auto to8 = [&](unsigned v) { return (uint16_t)(depth == 16 ? v >> 8 : depth == 8 ? v : v * 255 / (lim - 1)); };
    p.ch = ct == 2 || ct == 3 || ct == 6 ? 3 : 1;
    p.hasAlpha = trns || ct == 4 || ct == 6;
    for (size_t i = 0; i < (size_t)p.w * p.h; i++)
    {
        if (ct == 3)
        {
            for (size_t c = 0; c < 3; c++) p.v.push_back((unsigned char)plte[s[i] * 3u + c]);
            if (trns) p.alpha.push_back(s[i] < trnsData.size() ? (unsigned char)trnsData[s[i]] : 255);
            continue;
        }
        for (int c = 0; c < p.ch; c++) p.v.push_back(to8(s[i * (size_t)fileCh + (size_t)c]));
        if (ct >= 4) p.alpha.push_back(to8(s[i * (size_t)fileCh + (size_t)fileCh - 1]));
        else if (trns) { bool eq = true; for (int c = 0; c < fileCh; c++) eq = eq && s[i * (size_t)fileCh + (size_t)c] == key[(size_t)c]; p.alpha.push_back(eq ? 0 : 255); }
    }
    im.kind = strf("png type %d depth %d%s%s", ct, depth, inter ? " interlaced" : "", trns ? " tRNS" : "");
    return im;
}

Img makeTiff(Rng& rng)
{
    Img im;
    auto& p = im.pix;
    dims(rng, p);
    struct K { const char* n; int photo, bps, spp; bool bad; };
    static const K kinds[] = { {"bilevel",1,1,1,0},{"bilevel inverted",0,1,1,0},{"gray8",1,8,1,0},{"gray8 inverted",0,8,1,0},{"gray16",1,16,1,0},{"gray16 inverted",0,16,1,0},{"rgb",2,8,3,0},{"cmyk",5,8,4,0},
        {"palette1",3,1,1,0},{"palette2",3,2,1,0},{"palette4",3,4,1,0},{"palette8",3,8,1,0},{"rgba",2,8,4,1},{"gray alpha",1,8,2,1},{"rgb16",2,16,3,1},{"gray4",1,4,1,1},{"rotated",2,8,3,1},{"planar",2,8,3,1},{"gray 4+4",1,4,2,1},{"palette16",3,16,1,1} };
    auto& k = kinds[rng.below(rng.chance(1, 4) ? 20 : 12)];
    im.unsupported = k.bad;
    string kn = k.n;
    bool le = rng.chance(1, 2);
    int comp; switch (rng.below(4)) { case 0: comp = 1; break; case 1: comp = 32773; break; case 2: comp = 8; break; default: comp = 5; }
    bool pred = (comp == 8 || comp == 5) && k.bps == 8 && rng.chance(1, 2);
    unsigned lim = 1u << k.bps;
    auto s = samples(rng, (size_t)p.w * p.h * (size_t)k.spp, lim);
    auto u16 = [&](unsigned v) { string r(2, 0); r[le ? 0 : 1] = (char)v; r[le ? 1 : 0] = (char)(v >> 8); return r; };
    auto u32 = [&](uint32_t v) { string r(4, 0); for (int i = 0; i < 4; i++) r[(size_t)(le ? i : 3 - i)] = (char)(v >> (8 * i)); return r; };
    unsigned rps = rng.chance(1, 2) ? p.h : 1 + (unsigned)rng.below(p.h);
    bool planar = kn == "planar";
    int planes = planar ? 3 : 1, pch = planar ? 1 : k.spp;
    vector<string> strips;
    for (int pl = 0; pl < planes; pl++) for (unsigned y0 = 0; y0 < p.h; y0 += rps)
    {
        string plain, packed;
        for (unsigned y = y0; y < min(p.h, y0 + rps); y++)
        {
            vector<uint16_t> r;
            for (unsigned x = 0; x < p.w; x++) for (int c = 0; c < pch; c++) r.push_back(s[((size_t)y * p.w + x) * (size_t)k.spp + (size_t)(planar ? pl : c)]);
            string row;
            if (k.bps == 16) for (auto v : r) row += u16(v); else packRow(row, r, k.bps);
            if (pred) for (size_t i = row.size(); i-- > (size_t)pch;) row[i] = (char)(row[i] - row[i - (size_t)pch]);
            plain += row;
            if (comp == 32773) { auto e = encRle(row, rng); if (!e.empty()) e.pop_back(); packed += e; }
        }
        strips.push_back(comp == 1 ? plain : comp == 32773 ? packed : comp == 8 ? encFlate(plain) : encLzw(plain));
    }
    struct Tag { int id, type; uint32_t n; string val; };
    vector<Tag> tags;
    auto shorts = [&](int id, vector<unsigned> v) { string d; for (auto x : v) d += u16(x); tags.push_back({ id, 3, (uint32_t)v.size(), d }); };
    auto longs = [&](int id, vector<uint32_t> v) { string d; for (auto x : v) d += u32(x); tags.push_back({ id, 4, (uint32_t)v.size(), d }); };
    bool first = rng.chance(1, 2);      // directory before or after the pixels
    auto build = [&](const vector<uint32_t>& offs) {
        tags.clear();
        longs(256, { p.w }); longs(257, { p.h });
        shorts(258, vector<unsigned>((size_t)k.spp, (unsigned)k.bps)); shorts(259, { (unsigned)comp }); shorts(262, { (unsigned)k.photo });
        longs(273, offs);
        if (kn == "rotated") shorts(274, { 3 }); else if (le) shorts(274, { 1 });
        shorts(277, { (unsigned)k.spp }); longs(278, { rps });
        vector<uint32_t> cnt; for (auto& x : strips) cnt.push_back((uint32_t)x.size()); longs(279, cnt);
        if (planar) shorts(284, { 2 });
        if (pred) shorts(317, { 2 });
        if (k.photo == 3) { Rng cr(lim * 77u + p.w); vector<unsigned> cm; for (size_t i = 0; i < 3 * (size_t)lim; i++) cm.push_back((unsigned)cr.below(256) * 257); shorts(320, cm); }
        if (kn == "rgba" || kn == "gray alpha") shorts(338, { 2 });
        string ifd = u16((unsigned)tags.size()), extra;
        return make_pair(ifd, extra);
    };
    auto serialize = [&](uint32_t at) {
        string ifd = u16((unsigned)tags.size()), extra;
        uint32_t extraAt = at + 2 + 12 * (uint32_t)tags.size() + 4;
        for (auto& t : tags)
        {
            ifd += u16((unsigned)t.id) + u16((unsigned)t.type) + u32(t.n);
            if (t.val.size() <= 4) { auto v = t.val; v.resize(4, 0); ifd += v; }
            else { ifd += u32(extraAt + (uint32_t)extra.size()); extra += t.val; if (extra.size() & 1) extra += '\0'; }
        }
        return ifd + u32(0) + extra;
    };
    string head = le ? string("II*\0", 4) : string("MM\0*", 4);
    vector<uint32_t> offs(strips.size());
    build(offs);
    uint32_t pos = first ? 8 + (uint32_t)serialize(8).size() : 8;
    string pixels;
    for (size_t i = 0; i < strips.size(); i++) { offs[i] = pos + (uint32_t)pixels.size(); pixels += strips[i]; if (pixels.size() & 1) pixels += '\0'; }
    build(offs);
    if (first) im.bytes = head + u32(8) + serialize(8) + pixels;
    else { auto at = 8 + (uint32_t)pixels.size(); im.bytes = head + u32(at) + pixels + serialize(at); }
    // meaning
    if (k.photo == 3) p.ch = 3; else p.ch = k.photo == 2 ? 3 : k.photo == 5 ? 4 : 1;
    p.maxv = k.bps == 16 && k.photo != 3 ? 65535 : 255;
    Rng cr(lim * 77u + p.w); vector<unsigned> cm; if (k.photo == 3) for (size_t i = 0; i < 3 * (size_t)lim; i++) cm.push_back((unsigned)cr.below(256));
    for (size_t i = 0; i < (size_t)p.w * p.h && !im.unsupported; i++)
    {
        if (k.photo == 3) { for (size_t c = 0; c < 3; c++) p.v.push_back((uint16_t)cm[c * lim + s[i]]); continue; }
        for (int c = 0; c < p.ch; c++)
        {
            unsigned v = s[i * (size_t)k.spp + (size_t)c];
            v = v * p.maxv / (lim - 1);
            if (k.photo == 0) v = p.maxv - v;
            p.v.push_back((uint16_t)v);
        }
    }
    im.kind = strf("tiff %s compression %d%s", k.n, comp, le ? " le" : " be");
    return im;
}

void jpgErr(j_common_ptr) { throw runtime_error("jpeg"); }
Img makeJpeg(Rng& rng)
{
    Img im;
    auto& p = im.pix;
    dims(rng, p);
    static const int chs[] = { 1, 3, 3, 4 };
    p.ch = chs[rng.below(4)];
    auto px = randomBytes(rng, (size_t)p.w * p.h * (size_t)p.ch, (int)rng.below(3));
    jpeg_compress_struct c; jpeg_error_mgr e;
    c.err = jpeg_std_error(&e); e.error_exit = jpgErr;
    jpeg_create_compress(&c);
    unsigned char* buf = nullptr; unsigned long len = 0;
    jpeg_mem_dest(&c, &buf, &len);
    c.image_width = p.w; c.image_height = p.h; c.input_components = p.ch;
    c.in_color_space = p.ch == 1 ? JCS_GRAYSCALE : p.ch == 3 ? JCS_RGB : JCS_CMYK;
    jpeg_set_defaults(&c);
    if (p.ch == 4) { jpeg_set_colorspace(&c, rng.chance(1, 2) ? JCS_CMYK : JCS_YCCK); c.write_Adobe_marker = TRUE; }
    jpeg_set_quality(&c, 10 + (int)rng.below(90), TRUE);
    if (rng.chance(1, 3)) jpeg_simple_progression(&c);
    jpeg_start_compress(&c, TRUE);
    for (unsigned y = 0; y < p.h; y++) { JSAMPROW r = (JSAMPROW)&px[(size_t)y * p.w * (size_t)p.ch]; jpeg_write_scanlines(&c, &r, 1); }
    jpeg_finish_compress(&c);
    im.bytes.assign((char*)buf, len);
    jpeg_destroy_compress(&c); free(buf);
    im.kind = strf("jpeg %d channels", p.ch);
    return im;
}
// Decoded pixels of a JPEG, by the JPEG library alone
vector<uint16_t> jpegPixels(const string& bytes, int ch)
{
    jpeg_decompress_struct d; jpeg_error_mgr e;
    d.err = jpeg_std_error(&e); e.error_exit = jpgErr;
    jpeg_create_decompress(&d);
    jpeg_mem_src(&d, (const unsigned char*)bytes.data(), bytes.size());
    jpeg_read_header(&d, TRUE); jpeg_start_decompress(&d);
    vector<uint16_t> v; vector<unsigned char> row(d.output_width * (size_t)ch);
    while (d.output_scanline < d.output_height) { JSAMPROW r = row.data(); jpeg_read_scanlines(&d, &r, 1); v.insert(v.end(), row.begin(), row.end()); }
    jpeg_destroy_decompress(&d);
    return v;
}

// ---------------------------------------------------------------- reading a stored image object independently
bool storedPixels(const PdfObject& obj, Pix& out, string& why)
{
    auto& d = obj.GetDictionary();
    auto num = [&](const char* k) { auto o = d.FindKey(k); return o != nullptr && o->IsNumber() ? o->GetNumber() : (int64_t)-1; };
    out.w = (unsigned)num("Width"); out.h = (unsigned)num("Height");
    auto bpc = num("BitsPerComponent");
    auto cs = d.FindKey("ColorSpace");
    if (cs == nullptr) { why = "no color space"; return false; }
    string lookup; int comps = 0; bool indexed = false; int64_t hival = 0;
    auto nameComps = [](const string& n) { return n == "DeviceGray" ? 1 : n == "DeviceRGB" ? 3 : n == "DeviceCMYK" ? 4 : 0; };
    if (cs->IsName()) comps = nameComps(string(cs->GetName().GetString()));
    else if (cs->IsArray())
    {
        auto& a = cs->GetArray();
        if (a.size() != 4 || !a[0].IsName() || a[0].GetName().GetString() != "Indexed" || !a[1].IsName()) { why = "color space " + canon(*cs); return false; }
        indexed = true; comps = nameComps(string(a[1].GetName().GetString()));
        hival = a.FindAt(2)->GetNumber();
        lookup = streamData(*a.FindAt(3));
        if (lookup.size() < (size_t)(hival + 1) * (size_t)comps) { why = "short palette"; return false; }
    }
    if (!comps) { why = "color space " + canon(*cs); return false; }
    if (bpc != 1 && bpc != 2 && bpc != 4 && bpc != 8 && bpc != 16) { why = strf("bits per component %d", (int)bpc); return false; }
    int per = indexed ? 1 : comps;
    size_t row = ((size_t)out.w * (size_t)per * (size_t)bpc + 7) / 8;
    auto data = streamData(obj);
    if (data.size() != row * out.h) { why = strf("%d bytes of pixels, %d x %d rows make %d", (int)data.size(), (int)row, (int)out.h, (int)(row * out.h)); return false; }
    bool inv = false;
    if (auto dec = d.FindKey("Decode"))
    {
        auto& a = dec->GetArray();
        if (a.size() != (size_t)per * 2) { why = "decode array " + canon(*dec); return false; }
        double hi = indexed ? (double)((1 << bpc) - 1) : 1.0;
        inv = a[0].GetReal() > a[1].GetReal();
        for (unsigned i = 0; i < a.size(); i++) if (a[i].GetReal() != ((i % 2 == 0) == inv ? hi : 0.0)) { why = "decode array " + canon(*dec); return false; }
        if (indexed && inv) { why = "inverted palette"; return false; }
    }
    out.ch = comps; out.maxv = bpc == 16 ? 65535 : 255;
    unsigned lim = (1u << bpc) - 1;
    for (unsigned y = 0; y < out.h; y++) for (unsigned x = 0; x < out.w * (unsigned)per; x++)
    {
        auto at = (const unsigned char*)data.data() + y * row;
        unsigned v = bpc == 16 ? (unsigned)(at[2 * x] << 8 | at[2 * x + 1]) : bpc == 8 ? at[x] : (unsigned)(at[x * (unsigned)bpc / 8] >> (8 - bpc - (x * bpc) % 8)) & lim;
        if (indexed)
        {
            if ((int64_t)v > hival) { why = "index beyond the palette"; return false; }
            for (int c = 0; c < comps; c++) out.v.push_back((unsigned char)lookup[v * (unsigned)comps + (unsigned)c]);
        }
        else { v = v * out.maxv / lim; out.v.push_back((uint16_t)(inv ? out.maxv - v : v)); }
    }
    if (auto sm = d.FindKey("SMask"))
    {
        Pix a; string w2;
        if (!storedPixels(*sm, a, w2)) { why = "soft mask: " + w2; return false; }
        if (a.ch != 1 || a.w != out.w || a.h != out.h) { why = "soft mask of another shape"; return false; }
        out.hasAlpha = true; out.alpha = a.v;
    }
    return true;
}
string pixDiff(const Pix& got, const Pix& want)
{
    if (got.w != want.w || got.h != want.h) return strf("size %ux%u instead of %ux%u", got.w, got.h, want.w, want.h);
    if (got.ch != want.ch || got.maxv != want.maxv) return strf("%d channels up to %u instead of %d up to %u", got.ch, got.maxv, want.ch, want.maxv);
    for (size_t i = 0; i < want.v.size(); i++) if (got.v[i] != want.v[i]) return strf("sample %d is %d instead of %d", (int)i, got.v[i], want.v[i]);
    if (got.hasAlpha != want.hasAlpha) return want.hasAlpha ? "transparency lost" : "transparency from nowhere";
    for (size_t i = 0; i < want.alpha.size(); i++) if (got.alpha[i] != want.alpha[i]) return strf("alpha %d is %d instead of %d", (int)i, got.alpha[i], want.alpha[i]);
    return {};
}

// ---------------------------------------------------------------- run
enum { Attach, Png, Tiff, Jpeg, SetPix, StreamPlain, StreamRaw, ImageRaw, Icc, NWhat };
const char* whatName[] = { "attachment", "PNG image", "TIFF image", "JPEG image", "pixel data", "stream data", "raw stream data", "raw image data", "color profile" };

struct Item { int what; bool dead = false; string name; string bytes; PdfFilterList filters; Pix pix; string kind; };

void gen20(Rng& rng, Plan& p)
{
    unsigned n = 1 + (unsigned)rng.below(6);
    for (unsigned i = 0; i < n; i++)
    {
        int64_t io = (int64_t)rng.below(4), at = rng.chance(1, 3) ? 0 : rng.skew(40), eff = (int64_t)rng.below(4), arg = rng.skew(5000), sticky = (int64_t)rng.below(2);
        if (rng.chance(1, 2)) io = -1;
        p.add("emb", { (int64_t)rng.below(NWhat), big(rng), (int64_t)rng.below(4), rng.chance(1, 8) ? 1 + (int64_t)rng.below(1000) : 0, rng.chance(1, 5) ? 1 : 0, io, at, eff, arg, sticky, rng.chance(1, 20) ? 1 : 0 });
        if (rng.chance(1, 3)) p.add("save", { big(rng), (int64_t)rng.below(3), (int64_t)rng.below(8) });
        while (rng.chance(1, 2))
        {
            int64_t io2 = rng.chance(1, 2) ? -1 : (int64_t)rng.below(6);
            p.add("ext", { big(rng), (int64_t)rng.below(4), io2, rng.chance(1, 3) ? 0 : rng.skew(20), (int64_t)rng.below(4), rng.skew(5000), (int64_t)rng.below(2), big(rng) });
        }
    }
    if (rng.chance(2, 3)) p.add("save", { big(rng), (int64_t)rng.below(3), (int64_t)rng.below(8) });
}

void arm(FaultSchedule& s, int64_t io, int64_t at, int64_t eff, int64_t arg, int64_t sticky)
{
    s.clear();
    if (io < 0) return;
    static const Io map[] = { Io::Read, Io::Read, Io::Open, Io::Seek, Io::Write, Io::Flush };
    Fault f{ map[io % 6], (uint64_t)at, (Eff)(1 + eff % 4), arg, false };
    f.sticky = sticky && (f.eff == Eff::Full || f.eff == Eff::Error);
    if (f.io == Io::Open) f.at %= 3;
    s.faults.push_back(f);
}

struct World20
{
    unique_ptr<PdfMemDocument> doc;
    vector<Item> items;
    unsigned serial = 0;
    string path;             // of the file the document was loaded from, if any

    PdfArray& list() { return doc->GetCatalog().GetDictionary().MustFindKey("SimEmb").GetArray(); }
    PdfObject& object(size_t i)
    {
        if (items[i].what == Attach)
        {
            unique_ptr<PdfFileSpec> fs(doc->GetAttachment(doc->GetCatalog().GetDictionary().MustFindKey("SimNames").GetArray()[(unsigned)i].GetString()));
            ctx().check(fs != nullptr, "missing", "attachment " + items[i].name + " is gone");
            auto ef = fs->GetObject().GetDictionary().FindKey("EF");
            ctx().check(ef != nullptr && ef->IsDictionary(), "missing", "attachment " + items[i].name + " has no file");
            auto f = ef->GetDictionary().FindKey("F");
            ctx().check(f != nullptr && f->HasStream(), "missing", "attachment " + items[i].name + " has no content");
            return *f;
        }
        auto o = list().FindAt((unsigned)i);
        ctx().check(o != nullptr && o->IsDictionary() && o->HasStream(), "missing", strf("%s %d has no content", whatName[items[i].what], (int)i));
        return *o;
    }
    // throws library errors
    void verify(size_t i, const char* where)
    {
        auto& it = items[i];
        if (it.dead) return;
        auto& c = ctx();
        c.setStage(strf("verify %s (%s) %s", whatName[it.what], it.kind.c_str(), where));
        auto& o = object(i);
        auto ctxt = strf("%s %s (%s)", where, whatName[it.what], it.kind.c_str());
        switch (it.what)
        {
            case Attach: case StreamPlain: case Icc:
            {
                auto got = streamData(o);
                c.check(got == it.bytes, "content", strf("%s: %d bytes stored instead of %d", ctxt.c_str(), (int)got.size(), (int)it.bytes.size()));
                if (it.what == Attach)
                {
                    auto par = o.GetDictionary().FindKey("Params");
                    auto sz = par == nullptr ? nullptr : par->GetDictionary().FindKey("Size");
                    c.check(sz != nullptr && sz->GetNumber() == (int64_t)it.bytes.size(), "params", ctxt + ": wrong size recorded");
                }
                break;
            }
            case StreamRaw: case Jpeg: case ImageRaw:
            {
                auto got = it.filters.empty() ? streamData(o) : rawStream(o);       // (saving may compress what isn't)
                c.check(got == it.bytes, "content", strf("%s: %d bytes stored instead of %d", ctxt.c_str(), (int)got.size(), (int)it.bytes.size()));
                if (it.what == StreamRaw) break;
                auto& d = o.GetDictionary();
                auto f = d.FindKey("Filter");
                string want = it.filters.empty() ? "" : string(FilterToName(it.filters[0]));
                string have = f == nullptr ? "" : f->IsArray() && f->GetArray().size() == 1 ? string(f->GetArray()[0].GetName().GetString()) : f->IsName() ? string(f->GetName().GetString()) : "?";
                if (want.empty() && have == "FlateDecode") have.clear();
                c.check(have == want, "image", ctxt + ": filter " + have + " instead of " + want);
                c.check(d.FindKey("Width")->GetNumber() == it.pix.w && d.FindKey("Height")->GetNumber() == it.pix.h, "image", ctxt + ": wrong size");
                auto cs = d.FindKey("ColorSpace");
                c.check(cs != nullptr && cs->IsName() && cs->GetName().GetString() == (it.pix.ch == 1 ? "DeviceGray" : it.pix.ch == 3 ? "DeviceRGB" : "DeviceCMYK"), "image", ctxt + ": wrong color space");
                c.check(d.FindKey("BitsPerComponent")->GetNumber() == 8, "image", ctxt + ": wrong depth");
                break;
            }
            default:
            {
                Pix got; string why;
                c.check(storedPixels(o, got, why), "image", ctxt + ": " + why);
                auto diff = pixDiff(got, it.pix);
                c.check(diff.empty(), "pixels", ctxt + ": " + diff);
            }
        }
        c.probe("content-verified");
    }
};

void run20(const Plan& plan)
{
    auto& c = ctx();
    auto& w = world();
    World20 s;
    s.doc = make_unique<PdfMemDocument>();
    s.doc->GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    s.doc->GetCatalog().GetDictionary().AddKey("SimEmb", PdfArray());
    s.doc->GetCatalog().GetDictionary().AddKey("SimNames", PdfArray());
    for (auto& op : plan.ops)
    {
        c.steps++;
        if (op.k == "emb")
        {
            Rng rng(op.u(1) * 977 + 3);
            int what = (int)(op.u(0) % NWhat), src = (int)(op.u(2) % 4);
            Item it; it.what = what;
            Img im;
            string data, ext = ".bin";
            bool mayFail = false;
            switch (what)
            {
                case Png: im = makePng(rng); ext = rng.chance(1, 3) ? ".PNG" : ".png"; break;
                case Tiff: im = makeTiff(rng); ext = rng.chance(1, 2) ? ".tif" : ".tiff"; break;
                case Jpeg: im = makeJpeg(rng); ext = rng.chance(1, 2) ? ".jpg" : ".jpeg"; it.filters = { PdfFilterType::DCTDecode }; break;
                default: break;
            }
            it.kind = im.kind;
            PdfPixelFormat fmt = PdfPixelFormat::RGB24; int stride = -1;
            if (what == SetPix)
            {
                auto& p = im.pix;
                dims(rng, p);
                static const PdfPixelFormat fmts[] = { PdfPixelFormat::Grayscale, PdfPixelFormat::RGB24, PdfPixelFormat::BGR24 };
                fmt = fmts[rng.below(3)];
                p.ch = fmt == PdfPixelFormat::Grayscale ? 1 : 3;
                unsigned row = p.w * (unsigned)p.ch, def = (row + 3) / 4 * 4, sz = def;
                if (rng.chance(1, 2)) { sz = row + (unsigned)rng.below(9); stride = (int)sz; }
                if (rng.chance(1, 30) && row > 1) { sz = row - 1; stride = (int)sz; mayFail = true; }
                im.bytes = randomBytes(rng, (size_t)sz * p.h, 0);
                for (unsigned y = 0; y < p.h && !mayFail; y++) for (unsigned x = 0; x < p.w; x++) for (int k = 0; k < p.ch; k++)
                    p.v.push_back((unsigned char)im.bytes[(size_t)y * sz + x * (unsigned)p.ch + (unsigned)(fmt == PdfPixelFormat::BGR24 ? 2 - k : k)]);
                it.kind = strf("format %d %ux%u stride %d", (int)fmt, p.w, p.h, stride);
            }
            if (what == Attach || what == StreamPlain || what == StreamRaw || what == Icc || what == ImageRaw)
            {
                im.bytes = randomData(rng, rng.chance(1, 6) ? 120000 : 9000);
                if (what == StreamPlain) it.filters = pickFilters(rng.next());
                if (what == ImageRaw) { dims(rng, im.pix); static const int cc[] = { 1, 3, 4 }; im.pix.ch = cc[rng.below(3)]; it.filters = rng.chance(1, 2) ? PdfFilterList{ PdfFilterType::DCTDecode } : rng.chance(1, 2) ? PdfFilterList{ PdfFilterType::JPXDecode } : PdfFilterList{}; }
                it.kind = strf("%d bytes", (int)im.bytes.size());
            }
            data = im.bytes;
            bool isImg = what == Png || what == Tiff || what == Jpeg;
            // (the TIFF library shows a palette image without its palette as gray: no failure to report)
            bool cut = op.at(3) && (isImg || what == SetPix) && data.size() > 1 && im.kind.find("palette") == string::npos;
            if (cut)
            {
                data.resize(data.size() * op.u(3) / 1001);       // a file cut short
                mayFail = true;
                c.probe("truncated-source");
            }
            if (im.unsupported) mayFail = true;
            bool missing = op.at(10) != 0 && (src == 0 || src == 3) && what != Icc;
            it.bytes = data; it.pix = im.pix;
                        it.name = strf("file%u", s.serial++);
            string path = w.scratch(it.name + ext);
            bool viaFile = src == 0 || src == 3;
            if (viaFile && !missing) { w.disk.enabled = false; writeFile(path, data); w.disk.enabled = true; }
            // an existing image may be replaced
            int reuse = -1;
            if (op.at(4) && (what == Png || what == Tiff || what == Jpeg || what == SetPix || what == ImageRaw))
                for (size_t i = 0; i < s.items.size(); i++) if (!s.items[i].dead && (s.items[i].what == Tiff || s.items[i].what == Jpeg || s.items[i].what == SetPix || s.items[i].what == ImageRaw || (s.items[i].what == Png && (!s.items[i].pix.hasAlpha || im.pix.hasAlpha)))) reuse = (int)i;
            if (reuse >= 0 && s.items[(size_t)reuse].pix.hasAlpha && !im.pix.hasAlpha) reuse = -1;    // a soft mask stays until it's replaced
            c.setStage(strf("embed %s (%s) from source %d%s%s", whatName[what], it.kind.c_str(), src, missing ? " missing" : "", cut ? " cut short" : ""));
            DevOpts dopt = devOpts(rng.next());
            SimInput in(data, dopt);
            FaultSchedule* fs = &w.disk;
            bool useSim = !viaFile && !isImg && !(what == Attach) && !(src == 1);
            if (useSim) fs = &in.faults;
            w.disk.clear();
            arm(*fs, op.at(5), op.at(6), op.at(7), op.at(8), op.at(9));
            bool threw = false; string err;
            PdfObject* target = nullptr;
            unique_ptr<PdfImage> img;
            PdfString attachName;
            try
            {
                switch (what)
                {
                    case Attach:
                    {
                        if (viaFile) { PdfFileSpec spec(*s.doc, path, true, rng.chance(1, 2)); attachName = spec.GetFilename(false); s.doc->AttachFile(spec); }
                        else { PdfFileSpec spec(*s.doc, it.name + ext, data.data(), data.size()); attachName = spec.GetFilename(false); s.doc->AttachFile(spec); }
                        break;
                    }
                    case Png: case Tiff: case Jpeg: case SetPix: case ImageRaw:
                    {
                        if (reuse >= 0) { if (!PdfXObject::TryCreateFromObject(s.object((size_t)reuse), img)) c.fail("image", "a stored image isn't accepted any more"); }
                        else img = s.doc->CreateImage();
                        target = &img->GetObject();
                        if (isImg) { if (viaFile) img->LoadFromFile(path); else { vector<char> exact(data.begin(), data.end()); img->LoadFromBuffer(bufferview(exact.data(), exact.size())); } break; }
                        unique_ptr<FileStreamDevice> f;
                        if (viaFile) f = make_unique<FileStreamDevice>(path);
                        if (what == SetPix)
                        {
                            if (viaFile) img->SetData(*f, im.pix.w, im.pix.h, fmt, stride);
                            else if (useSim) img->SetData(in, im.pix.w, im.pix.h, fmt, stride);
                            else img->SetData(bufferview(data.data(), data.size()), im.pix.w, im.pix.h, fmt, stride);
                        }
                        else
                        {
                            PdfImageInfo info;
                            info.Width = im.pix.w; info.Height = im.pix.h; info.BitsPerComponent = 8; info.Filters = it.filters;
                            info.ColorSpace = im.pix.ch == 1 ? PdfColorSpace::DeviceGray : im.pix.ch == 3 ? PdfColorSpace::DeviceRGB : PdfColorSpace::DeviceCMYK;
                            if (viaFile) img->SetDataRaw(*f, info);
                            else if (useSim) img->SetDataRaw(in, info);
                            else img->SetDataRaw(bufferview(data.data(), data.size()), info);
                        }
                        break;
                    }
                    case StreamPlain: case StreamRaw:
                    {
                        auto& o = s.doc->GetObjects().CreateDictionaryObject();
                        target = &o;
                        auto& st = o.GetOrCreateStream();
                        unique_ptr<FileStreamDevice> f;
                        if (viaFile) f = make_unique<FileStreamDevice>(path);
                        if (what == StreamRaw) { if (viaFile) st.SetData(*f, true); else if (useSim) st.SetData(in, true); else st.SetData(bufferview(data.data(), data.size()), true); }
                        else { if (viaFile) st.SetData(*f, it.filters); else if (useSim) st.SetData(in, it.filters); else st.SetData(bufferview(data.data(), data.size()), it.filters); }
                        break;
                    }
                    case Icc:
                    {
                        auto im2 = s.doc->CreateImage();
                        string px(12, '\x40');
                        im2->SetData(bufferview(px.data(), px.size()), 2, 2, PdfPixelFormat::Grayscale, 2);
                        if (viaFile) { FileStreamDevice f(path); im2->SetICCProfile(f, 3); }
                        else if (useSim) im2->SetICCProfile(in, 3);
                        else { SpanStreamDevice sp(bufferview(data.data(), data.size())); im2->SetICCProfile(sp, 3); }
                        target = im2->GetObject().GetDictionary().MustFindKey("ColorSpace").GetArray().FindAt(1);
                        break;
                    }
                }
            }
            catch (const std::exception& e) { threw = true; err = e.what(); }
            bool fired = fs->fired != 0, firedAny = fs->firedAny != 0;
            w.disk.clear();
            if (threw)
            {
                c.probe("embed-error");
                bool cstdio = viaFile && (what == Png || what == Jpeg);
                c.check(fired || (cstdio && firedAny) || mayFail || missing, "spurious-error", strf("embedding %s (%s) failed without a reason: %s", whatName[what], it.kind.c_str(), err.c_str()));
                if (reuse >= 0) s.items[(size_t)reuse].dead = true;
                continue;
            }
            c.check(!missing, "missing-file", strf("embedding %s from a missing file succeeded", whatName[what]));
            c.probe(fired ? "embedded-despite-fault" : "embedded");
            if (im.unsupported) { c.fail("unsupported", strf("%s was accepted though it can't be stored", it.kind.c_str())); }
            if (what == SetPix && mayFail && !cut) c.fail("stride", "rows shorter than the pixels were accepted");
            if (what == SetPix && cut) it.bytes = im.bytes;
            if (reuse >= 0) { auto idx = (size_t)reuse; s.items[idx] = it; }
            else
            {
                s.items.push_back(it);
                if (target != nullptr) s.list().Add(target->GetIndirectReference()); else s.list().Add(PdfObject(PdfVariant()));
                s.doc->GetCatalog().GetDictionary().MustFindKey("SimNames").GetArray().Add(PdfObject(attachName));
            }
            s.verify(reuse >= 0 ? (size_t)reuse : s.items.size() - 1, "after embedding");
            c.state(hashBytes(strf("%d%d%d", what, src, (int)firedAny) + im.kind));
        }
        else if (op.k == "ext")
        {
            if (s.items.empty()) continue;
            size_t i = op.u(0) % s.items.size();
            auto& it = s.items[i];
            if (it.dead) continue;
            int sink = (int)(op.u(1) % 4);
            c.setStage(strf("extract %s (%s) to sink %d", whatName[it.what], it.kind.c_str(), sink));
            w.disk.clear();
            SimOutput out;
            bool raw = !it.filters.empty() && it.what != StreamPlain;
            bool threw = false, unsupported = false; string err, got, want = it.bytes;
            string path = w.scratch(strf("out%u", s.serial++));
            auto attempt = [&](bool faults) {
                threw = false; got.clear(); out.data.clear(); out.faults.clear(); w.disk.clear(); unsupported = false;
                if (faults) { arm(sink == 1 ? out.faults : w.disk, op.at(2), op.at(3), op.at(4), op.at(5), op.at(6)); }
                try
                {
                    auto& o = s.object(i);
                    if (sink == 3 && (it.what == Png || it.what == Tiff || it.what == SetPix || it.what == Jpeg))
                    {
                        static const PdfPixelFormat fmts[] = { PdfPixelFormat::Grayscale, PdfPixelFormat::RGB24, PdfPixelFormat::BGR24, PdfPixelFormat::RGBA, PdfPixelFormat::BGRA };
                        auto fmt = fmts[op.u(7) % 5];
                        unsigned bp = fmt == PdfPixelFormat::Grayscale ? 1 : fmt == PdfPixelFormat::RGB24 || fmt == PdfPixelFormat::BGR24 ? 3 : 4;
                        auto& p = it.pix;
                        auto v = it.what == Jpeg && p.ch != 4 ? jpegPixels(it.bytes, p.ch) : p.v;
                        // formats that decoding doesn't support, or that have no exact meaning
                        if (p.ch == 4 || p.maxv != 255 || (p.ch == 3 && bp == 1) || o.GetDictionary().HasKey("Decode") || o.GetDictionary().MustFindKey("ColorSpace").IsArray() || o.GetDictionary().MustFindKey("BitsPerComponent").GetNumber() != 8) unsupported = true;
                        unsigned row = p.w * bp, def = (row + 3) / 4 * 4;
                        int stride = op.u(7) / 5 % 2 ? (int)(def + op.u(7) / 10 % 9) : -1;
                        unique_ptr<PdfImage> img;
                        if (!PdfXObject::TryCreateFromObject(o, img)) c.fail("image", "a stored image isn't accepted any more");
                        charbuff buf;
                        img->DecodeTo(buf, fmt, stride);
                        got.assign(buf.data(), buf.size());
                        want.assign((size_t)(stride < 0 ? (int)def : stride) * p.h, 0);
                        if (!unsupported && got.size() == want.size())
                            for (unsigned y = 0; y < p.h; y++)
                            {
                                size_t at = (size_t)y * (want.size() / p.h);
                                for (unsigned x = 0; x < p.w; x++)
                                {
                                    size_t px = (size_t)y * p.w + x;
                                    for (unsigned k = 0; k < bp; k++)
                                    {
                                        unsigned comp = fmt == PdfPixelFormat::BGR24 || fmt == PdfPixelFormat::BGRA ? (k < 3 ? 2 - k : 3) : k;
                                        want[at + x * bp + k] = (char)(comp == 3 ? (p.hasAlpha ? p.alpha[px] : 255) : p.ch == 1 ? v[px] : v[px * 3 + comp]);
                                    }
                                }
                                for (size_t k = at + row; k < at + want.size() / p.h; k++) want[k] = got[k];      // padding
                            }
                        return;
                    }
                    if (it.what != StreamRaw && !raw && (it.what == Png || it.what == Tiff || it.what == SetPix)) { want = streamData(o); }
                    auto& st = o.MustGetStream();
                    if (sink == 1) { st.CopyTo(out, raw); got = out.data; }
                    else if (sink == 2) { { FileStreamDevice f(path, FileMode::Create); st.CopyTo(f, raw); f.Flush(); } w.disk.enabled = false; got = readFile(path); w.disk.enabled = true; }
                    else { charbuff b; st.CopyTo(b, raw); got.assign(b.data(), b.size()); }
                }
                catch (const std::exception& e) { w.disk.enabled = true; threw = true; err = e.what(); }
            };
            attempt(true);
            bool fired = w.disk.fired + out.faults.fired != 0;
            w.disk.clear();
            if (threw)
            {
                c.probe("extract-error");
                c.check(fired || unsupported, "spurious-error", strf("extracting %s (%s) failed without a reason: %s", whatName[it.what], it.kind.c_str(), err.c_str()));
                if (fired && sink != 3)
                {
                    attempt(false);
                    c.check(!threw, "retry", strf("extracting %s (%s) fails for good after an error that has passed: %s", whatName[it.what], it.kind.c_str(), err.c_str()));
                    c.check(got == want, "extract", strf("%s (%s) extracted again: %d bytes, %d expected or different", whatName[it.what], it.kind.c_str(), (int)got.size(), (int)want.size()));
                }
            }
            else if (!unsupported)
            {
                c.probe("extracted");
                c.check(got == want, "extract", strf("%s (%s) extracted to sink %d: %d bytes, %d expected or different%s", whatName[it.what], it.kind.c_str(), sink, (int)got.size(), (int)want.size(), fired ? ", and a failure wasn't reported" : ""));
            }
            c.state(hashBytes(strf("x%d%d%d%d", it.what, sink, (int)fired, (int)threw)));
        }
        else if (op.k == "save")
        {
            c.setStage("save and reopen");
            w.disk.clear();
            auto dev = makeDevice("", {}, DeviceAccess::ReadWrite);
            s.doc->Save(*dev, saveOpts(op.u(2)) | PdfSaveOptions::NoModifyDateUpdate);
            auto bytes = *dev->data;
            if (op.u(1) % 3 == 0)
            {
                auto path = w.scratch(strf("doc%u.pdf", s.serial++));
                writeFile(path, bytes);
                s.doc = make_unique<PdfMemDocument>();
                s.doc->Load(path);
            }
            else s.doc = loadDoc(bytes, {}, devOpts(op.u(0)));
            if (op.u(1) % 3 != 2) for (size_t i = 0; i < s.items.size(); i++) s.verify(i, "after reopening");
            c.probe("reopened");
        }
    }
    for (size_t i = 0; i < s.items.size(); i++) s.verify(i, "at the end");
}

Register r20({ "C20", "embedding", 1, 6000, gen20, run20 });

} // namespace
