#include "rich.h"
#include <zlib.h>
using namespace std;
using namespace mm;

namespace sim {

static const char* kTexts[] = { "Hello", "World of PDF", "aWord (with) parens", "line one\nline two", "\xC3\xA9t\xC3\xA9 \xE2\x82\xAC", "x", "" , "The quick brown fox jumps over the lazy dog" };
static const char* text(uint64_t i) { return kTexts[i % (sizeof(kTexts) / sizeof(*kTexts))]; }

string pngBytes(Rng& rng, unsigned w, unsigned h, bool alpha)
{
    auto be = [](uint32_t v) { string s(4, 0); for (int i = 0; i < 4; i++) s[i] = (char)(v >> (24 - 8 * i)); return s; };
    auto chunk = [&](const string& type, const string& data) {
        string td = type + data;
        return be((uint32_t)data.size()) + td + be((uint32_t)crc32(0, (const Bytef*)td.data(), (uInt)td.size()));
    };
    string raw;
    unsigned ch = alpha ? 4 : 3;
    for (unsigned y = 0; y < h; y++) { raw += '\0'; raw += randomBytes(rng, w * ch, (int)rng.below(3)); }
    string ihdr = be(w) + be(h) + string("\x08", 1) + string(1, alpha ? 6 : 2) + string(3, '\0');
    return "\x89PNG\r\n\x1a\n" + chunk("IHDR", ihdr) + chunk("IDAT", encFlate(raw)) + chunk("IEND", "");
}

void addRichOp(Rng& rng, Plan& p, bool fonts)
{
    auto big = [&]() { return (int64_t)rng.below(1000); };
    auto seed = [&]() { return (int64_t)rng.below(1000000007); };
    switch (rng.below(20))
    {
        case 0: case 1: case 2: p.add("rpage", { big(), big() }); break;
        case 3: case 4: case 5: case 6: p.add("rdraw", { big(), seed(), fonts && rng.chance(1, 12) ? 2 : (int64_t)rng.below(2), (int64_t)rng.below(8) }); break;
        case 7: p.add("rimg", { big(), seed(), big() }); break;
        case 8: p.add("rform", { big(), seed() }); break;
        case 9: p.add("routline", { big(), big(), big() }); break;
        case 10: p.add("rdest", { big(), big() }); break;
        case 11: p.add("rattach", { big(), seed() }); break;
        case 12: case 13: p.add("rannot", { big(), big(), big() }); break;
        case 14: p.add("rfield", { big(), big(), big() }); break;
        case 15: case 16: p.add("rmeta", { big(), big(), (int64_t)rng.below(2) }); break;
        case 17: p.add("rmpage", { big() }); break;
        case 18: p.add("rmove", { big(), big() }); break;
        default: p.add("robj", { big(), seed() }); break;
    }
}

bool richOp(PdfMemDocument& doc, const Op& op)
{
    if (op.k.empty() || op.k[0] != 'r') return false;
    auto& c = ctx();
    auto& pages = doc.GetPages();
    unsigned n = pages.GetCount();
    auto page = [&]() -> PdfPage& {
        if (n == 0) { n = 1; return pages.CreatePage(PdfRect(0, 0, 400, 500)); }
        return pages.GetPageAt((unsigned)(op.u(0) % n));
    };
    Rng rng(op.u(1) ^ 0x51c4);
    if (op.k == "rpage")
    {
        c.setStage("rich page");
        PdfRect r = op.u(1) % 3 ? PdfRect(0, 0, 100 + (double)(op.u(1) % 500), 200) : PdfPage::CreateStandardPageSize(PdfPageSize::A4);
        if (op.u(0) % 2) pages.CreatePageAt((unsigned)(op.u(0) / 2 % (n + 1)), r);
        else pages.CreatePage(r);
    }
    else if (op.k == "rdraw")
    {
        c.setStage("rich draw");
        auto& pg = page();
        PdfPainter painter((PdfPainterFlags)(op.u(3) & 6));
        painter.SetCanvas(pg);
        auto ops = 1 + rng.below(5);
        for (uint64_t i = 0; i < ops; i++)
            switch (rng.below(6))
            {
                case 0: painter.DrawLine((double)rng.below(100), 1.5, 30, (double)rng.below(300)); break;
                case 1: painter.Rectangle(1, 2, (double)rng.below(100), 44); painter.Fill(); break;
                case 2: painter.Circle(50, 60, 10); painter.Stroke(); break;
                case 3: painter.Save(); painter.GetGraphicsState().SetLineWidth(1 + (double)rng.below(8)); painter.DrawLine(0, 0, 9, 9); painter.Restore(); break;
                case 4: painter.GetGraphicsState().SetFillColor(PdfColor(0.25, 0.5, 0.75)); break;
                default:
                {
                    if (op.u(2) == 0) break;
                    PdfFont* font = op.u(2) == 1 ? doc.GetFonts().GetStandard14Font((PdfStandard14FontType)(1 + rng.below(4)), PdfFontCreateParams{ {}, PdfFontCreateFlags::DontEmbed })
                                                 : doc.GetFonts().GetFont("DejaVu Sans");
                    if (font)
                    {
                        painter.GetTextState().SetFont(*font, 8 + (double)rng.below(20));
                        painter.DrawText(op.u(2) == 1 ? strf("Drawn (%u)", (unsigned)rng.below(99)) : strf("\xC3\x84pfel %u", (unsigned)rng.below(99)), (double)rng.below(200), 50);
                    }
                }
            }
        painter.FinishDrawing();
    }
    else if (op.k == "rimg")
    {
        c.setStage("rich image");
        auto& pg = page();
        auto img = doc.CreateImage();
        unsigned w = 1 + (unsigned)(op.u(2) % 7), h = 1 + (unsigned)(op.u(2) / 7 % 9);
        if (op.u(2) % 3 == 0) { auto png = pngBytes(rng, w, h); img->LoadFromBuffer(png); }
        else
        {
            string px = randomBytes(rng, ((w * 3 + 3) & ~3u) * h, 0);
            img->SetData(bufferview(px.data(), px.size()), w, h, PdfPixelFormat::RGB24, (int)((w * 3 + 3) & ~3u));
        }
        PdfPainter painter;
        painter.SetCanvas(pg);
        painter.DrawImage(*img, 10, 20);
        painter.FinishDrawing();
    }
    else if (op.k == "rform")
    {
        c.setStage("rich form");
        auto& pg = page();
        auto form = doc.CreateXObjectForm(PdfRect(0, 0, 50, 60));
        {
            PdfPainter painter;
            painter.SetCanvas(*form);
            painter.DrawLine(0, 0, (double)rng.below(50), 50);
            painter.FinishDrawing();
        }
        PdfPainter painter;
        painter.SetCanvas(pg);
        painter.DrawXObject(*form, 10, 20);
        painter.FinishDrawing();
    }
    else if (op.k == "routline")
    {
        c.setStage("rich outline");
        auto& pg = page();
        auto& outlines = doc.GetOrCreateOutlines();
        auto root = outlines.First();
        if (!root) root = outlines.CreateRoot(PdfString("root"));
        for (uint64_t d = op.u(1) % 4; d > 0 && root->Next(); d--) root = root->Next();
        auto dest = make_shared<PdfDestination>(pg, PdfDestinationFit::Fit);
        if (op.u(2) % 2) root->CreateChild(PdfString(text(op.u(2))), dest); else root->CreateNext(PdfString(text(op.u(2))), dest);
    }
    else if (op.k == "rdest")
    {
        c.setStage("rich destination");
        doc.AddNamedDestination(PdfDestination(page(), PdfDestinationFit::Fit), PdfString(strf("dest%d", (int)(op.u(1) % 7))));
    }
    else if (op.k == "rattach")
    {
        c.setStage("rich attachment");
        auto data = randomData(rng, 3000);
        doc.AttachFile(PdfFileSpec(doc, strf("file%d.bin", (int)(op.u(0) % 5)), data.data(), data.size()));
    }
    else if (op.k == "rannot")
    {
        c.setStage("rich annotation");
        auto& pg = page();
        auto& as = pg.GetAnnotations();
        if (op.u(1) % 4 == 0 && as.GetCount()) as.RemoveAnnotAt((unsigned)(op.u(2) % as.GetCount()));
        else
        {
            static const PdfAnnotationType types[] = { PdfAnnotationType::Text, PdfAnnotationType::Link, PdfAnnotationType::Highlight, PdfAnnotationType::FreeText };
            auto& a = as.CreateAnnot(types[op.u(2) % 4], PdfRect(1, 2, 30, 40));
            a.SetContents(PdfString(text(op.u(1))));
            if (op.u(1) % 3) a.SetTitle(PdfString("who"));
        }
    }
    else if (op.k == "rfield")
    {
        c.setStage("rich field");
        auto& pg = page();
        auto name = strf("field%d", (int)(op.u(1)));
        switch (op.u(2) % 4)
        {
            case 0: { auto& f = static_cast<PdfTextBox&>(pg.CreateField(name, PdfFieldType::TextBox, PdfRect(1, 2, 30, 40))); f.SetText(PdfString(text(op.u(2) / 4))); break; }
            case 1: { auto& f = static_cast<PdfCheckBox&>(pg.CreateField(name, PdfFieldType::CheckBox, PdfRect(1, 2, 30, 40))); f.SetChecked(op.u(2) / 4 % 2); break; }
            case 2: { auto& f = static_cast<PdfComboBox&>(pg.CreateField(name, PdfFieldType::ComboBox, PdfRect(1, 2, 30, 40))); f.InsertItem(PdfString("a")); f.InsertItem(PdfString("b")); f.SetSelectedIndex((int)(op.u(2) / 4 % 2)); break; }
            default: pg.CreateField(name, PdfFieldType::Signature, PdfRect(1, 2, 30, 40)); break;
        }
    }
    else if (op.k == "rmeta")
    {
        c.setStage("rich metadata");
        auto& m = doc.GetMetadata();
        bool sync = op.u(2) % 2;
        PdfString s(text(op.u(1)));
        switch (op.u(0) % 6)
        {
            case 0: m.SetTitle(s, sync); break;
            case 1: m.SetAuthor(s, sync); break;
            case 2: m.SetSubject(s, sync); break;
            case 3: m.SetKeywords({ "one", "two" }, sync); break;
            case 4: m.SetCreationDate(PdfDate(chrono::seconds(1600000000 + (int64_t)op.u(1) * 1000), nullable<chrono::minutes>(chrono::minutes(60))), sync); break;
            default: m.SyncXMPMetadata(op.u(1) % 2); break;
        }
    }
    else if (op.k == "rmpage")
    {
        c.setStage("rich remove page");
        if (n > 1) pages.RemovePageAt((unsigned)(op.u(0) % n));
    }
    else if (op.k == "rmove")
    {
        c.setStage("rich move page");
        if (n > 1) pages.GetPageAt((unsigned)(op.u(0) % n)).MoveAt((unsigned)(op.u(1) % n));
    }
    else if (op.k == "robj")
    {
        c.setStage("rich object");
        auto v = randomDict(rng, {}, 2);
        auto& o = doc.GetObjects().CreateObject(toPdf(v));
        if (op.u(0) % 2) o.GetOrCreateStream().SetData(randomData(rng, 3000), pickFilters(op.u(0) / 2));
        doc.GetCatalog().GetDictionary().AddKey(PdfName(strf("Rich%d", (int)(op.u(0) % 9))), PdfObject(o.GetIndirectReference()));
    }
    else return false;
    c.ev(op.k.c_str(), (int64_t)doc.GetObjects().size());
    return true;
}

} // namespace sim
