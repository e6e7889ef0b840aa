// Executable reference model of a document's objects, a history engine that drives a real document and the
// model side by side, and an independent producer of PDF files in the other legal forms.
#pragma once
#include "world.h"

namespace sim {

using Ref = std::pair<uint32_t, uint32_t>;   // number, generation
inline mm::PdfReference toRef(Ref r) { return mm::PdfReference(r.first, (uint16_t)r.second); }
inline Ref fromRef(const mm::PdfReference& r) { return { r.ObjectNumber(), r.GenerationNumber() }; }
inline std::string refText(Ref r) { return strf("%u %u R", r.first, r.second); }

enum class VT { Null, Bool, Int, Real, Str, Name, Arr, Dict, Ref };
struct Val
{
    VT t = VT::Null;
    int64_t i = 0;
    double r = 0;
    std::string s;
    bool hexs = false;
    std::vector<Val> arr;
    std::map<std::string, Val> dict;
    Ref ref{ 0, 0 };
    static Val Int(int64_t v) { Val x; x.t = VT::Int; x.i = v; return x; }
    static Val Name(std::string v) { Val x; x.t = VT::Name; x.s = std::move(v); return x; }
    static Val Str(std::string v, bool h = false) { Val x; x.t = VT::Str; x.s = std::move(v); x.hexs = h; return x; }
    static Val R(sim::Ref v) { Val x; x.t = VT::Ref; x.ref = v; return x; }
    static Val Dict() { Val x; x.t = VT::Dict; return x; }
    static Val Arr() { Val x; x.t = VT::Arr; return x; }
};

struct MObj
{
    Val v;
    bool stream = false;
    std::string data;
};
using Model = std::map<Ref, MObj>;

Val randomVal(Rng& rng, const std::vector<Ref>& refs, int depth);
Val randomDict(Rng& rng, const std::vector<Ref>& refs, int depth);
std::string randomBytes(Rng& rng, size_t n, int kind);       // 0 random, 1 text-like, 2 repetitive, 3 zeros, 4 operators
std::string randomData(Rng& rng, size_t max);
void canonTo(std::string& out, const Val& v, bool streamDict = false);
std::string canon(const Val& v, bool streamDict = false);
void canonTo(std::string& out, const mm::PdfObject& o, bool streamDict = false);
std::string canon(const mm::PdfObject& o, bool streamDict = false);
std::string textBytes(const std::string& utf8);      // how a text is stored: PdfDocEncoding or UTF-16 with a mark
mm::PdfObject toPdf(const Val& v);
Val fromPdf(const mm::PdfObject& o);
std::string streamData(const mm::PdfObject& o);
std::string rawStream(const mm::PdfObject& o);
void collectRefs(const Val& v, std::vector<Ref>& out);
std::set<Ref> reachable(const Model& m, Ref root);
mm::PdfFilterList pickFilters(uint64_t sel);

// Load bytes through a simulated device
std::shared_ptr<SimDevice> makeDevice(const std::string& bytes, DevOpts opts = {}, mm::DeviceAccess access = mm::DeviceAccess::Read);
std::unique_ptr<mm::PdfMemDocument> loadDoc(const std::string& bytes, const std::string& password = {}, DevOpts opts = {});
DevOpts devOpts(uint64_t sel);
// Every object of a document as text (forces everything to load)
std::map<Ref, std::string> snapshot(mm::PdfMemDocument& doc, bool streams = true);
std::string snapText(const std::map<Ref, std::string>& s);
std::string firstDiff(const std::map<Ref, std::string>& a, const std::map<Ref, std::string>& b);
// Refs of catalog, info, metadata, page tree etc.
std::set<Ref> structuralRefs(mm::PdfMemDocument& doc);
// Drop structural objects and the parts of the snapshot that saving may legitimately change
std::map<Ref, std::string> userSnapshot(mm::PdfMemDocument& doc);

// ---------------------------------------------------------------- history engine
struct Hist
{
    std::unique_ptr<mm::PdfMemDocument> doc;
    Model model;
    Ref root{ 0, 0 };                 // the SimRoot array (an indirect object, in the model)
    std::set<Ref> structural;         // structural objects seen in this document
    std::set<Ref> plumbing;           // indirect stream lengths of an external producer: may stay or go
    std::set<Ref> dead;               // references of removed objects: must never resolve again
    std::string bytes;                // current durable file
    bool stored = false;              // bytes is valid and doc was loaded from it
    std::string password;             // to reopen
    bool sane = true;
    unsigned saves = 0, updates = 0, reloads = 0;
    std::vector<size_t> revEnds;      // ends of revisions in `bytes`
    std::vector<Model> revModels;     // model at each of those ends
    // durable state of the model: what reopening `bytes` must yield
    Model durable;
    std::set<Ref> durableDead;
    DevOpts nextDev;

    void create();                    // empty new document with the SimRoot array
    void adopt(const std::string& file, const Model& m, Ref rootRef, const std::set<Ref>& dead, const std::set<Ref>& plumbing = {});   // start from a stored file
    bool edit(const Op& op);          // in-memory operations; true if handled
    void gc();                        // model side of garbage collection
    void save(mm::PdfSaveOptions opts, DevOpts dev);        // full save into `bytes` (document object stays)
    void update(mm::PdfSaveOptions opts, DevOpts dev);      // incremental save, only when stored
    void reload(DevOpts dev, bool sameObject = false);      // sameObject: load into the existing document
    void verify(const char* where, bool streams = true);
    void verifyBytes(const char* where, DevOpts dev);
    void noteStructural();
    std::vector<Ref> live() const;
    std::vector<Ref> dicts() const;
    mm::PdfObject& obj(Ref r);
    uint64_t stateSig() const;
};
void verifyDoc(mm::PdfMemDocument& doc, const Model& model, const std::set<Ref>& structural, const std::set<Ref>& dead, const char* where, bool streams = true);
// Plan generator for Hist::edit operations
void addEditOp(Rng& rng, Plan& plan, bool loaded);
mm::PdfSaveOptions saveOpts(uint64_t sel);   // any combination, modification date update left on
constexpr mm::PdfSaveOptions QuietSave = mm::PdfSaveOptions::NoModifyDateUpdate;

// Start of a history from plan configuration: a new document or a file of the independent producer
void genStart(Rng& rng, Plan& p);
void startHist(const Plan& p, Hist& h);
// Every object but cross-reference and object streams, plus the trailer's references; without what a date stamp changes
std::map<Ref, std::string> docSnapshot(mm::PdfMemDocument& doc, bool skipDates = false);
void keepReachable(std::map<Ref, std::string>& s, mm::PdfMemDocument& doc);

// ---------------------------------------------------------------- independent file producer
struct ExtOpts
{
    int xref = 0;            // 0 table, 1 stream, 2 hybrid-like (table for revision 1, stream for later)
    bool objstm = false;
    int revisions = 1;
    int eol = 0;             // 0 LF 1 CRLF 2 CR
    bool predictor = false;
    bool prettySpace = false;
    int filters = 0;         // 0 flate, 1 mixed
    bool oddGens = false;    // objects with generations other than 0, free numbers with high generations
    bool defaults = false;   // cross-reference streams without /Index, type or generation fields where those are optional
    bool hybrid = false;     // tables completed by a stream (/XRefStm)
    bool directLen = false;  // no indirect stream lengths
    uint32_t base = 0;       // jump of the object numbers after the first few (0: none)
};
struct ExtDoc { std::string bytes; Model model; Ref root; std::vector<size_t> revEnds; std::vector<Model> revModels; std::set<Ref> dead; std::set<Ref> plumbing; /* indirect stream lengths */ };
ExtDoc makeExternal(Rng& rng, unsigned objects, const ExtOpts& o);
ExtOpts randomExt(Rng& rng);

// Reference encoders of the stream filters (independent of the library)
std::string encFlate(std::string_view d, int level = 6);
std::string encHex(std::string_view d, Rng& rng, bool eod = true);
std::string enc85(std::string_view d, Rng& rng, bool eod = true);
std::string encRle(std::string_view d, Rng& rng);
std::string encLzw(std::string_view d, bool early = true);
std::string encPng(std::string_view d, int colors, int bpc, int columns, Rng& rng, int fixed = -1);   // PNG predictors; d is padded to rows
std::string encTiff(std::string_view d, int colors, int bpc, int columns);

} // namespace sim
