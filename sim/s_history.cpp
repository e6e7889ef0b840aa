// C04 (history equivalence), C05 (object numbers and garbage), C07 (lazy loading)
#include "rich.h"
using namespace std;
using namespace mm;
using namespace sim;

static void genC04(Rng& rng, Plan& p)
{
    genStart(rng, p);
    auto n = 2 + rng.below(rng.chance(1, 4) ? 60 : 20);
    for (uint64_t i = 0; i < n; i++)
    {
        auto k = rng.below(12);
        if (k == 0) p.add("save", { (int64_t)rng.below(8), (int64_t)rng.below(100) });
        else if (k == 1) p.add("update", { (int64_t)rng.below(8), (int64_t)rng.below(100) });
        else if (k == 2) p.add("reload", { (int64_t)rng.below(100) });
        else if (k == 3) p.add("saveload", { (int64_t)rng.below(8), (int64_t)rng.below(100) });
        else addEditOp(rng, p, true);
    }
    p.add("saveload", { (int64_t)rng.below(8), (int64_t)rng.below(100) });
}

static bool storageOp(Hist& h, const Op& op)
{
    if (op.k == "save") { h.save(saveOpts(op.u(0)), devOpts(op.u(1))); h.verifyBytes("after save", devOpts(op.u(1) / 3)); h.verify("in memory after save"); return true; }
    if (op.k == "update") { if (h.stored) { h.update(saveOpts(op.u(0)), devOpts(op.u(1))); h.verifyBytes("after update", devOpts(op.u(1) / 3)); h.verify("in memory after update"); } return true; }
    if (op.k == "reload") { if (!h.bytes.empty()) { h.reload(devOpts(op.u(0)), op.u(0) % 3 == 0); } return true; }
    if (op.k == "saveload") { h.save(saveOpts(op.u(0)), devOpts(op.u(1))); h.reload(devOpts(op.u(1) / 2)); h.verify("after reopening"); return true; }
    return false;
}

static void runC04(const Plan& p)
{
    Hist h;
    startHist(p, h);
    for (auto& op : p.ops)
        if (!storageOp(h, op)) h.edit(op);
    h.verify("at the end");
    ctx().state(h.stateSig());
}
static Register r04({ "C04", "history", 1, 12000, genC04, runC04 });

// ---------------------------------------------------------------- C05
static void genC05(Rng& rng, Plan& p)
{
    genStart(rng, p);
    if (p.c("start")) p.cfg["gens"] = rng.chance(2, 3);
    // numbers around the width limits of 16 bits
    if (p.c("start") && rng.chance(1, 25)) { p.cfg["base"] = 65520 + (int64_t)rng.below(20); p.cfg["objects"] = 4 + rng.skew(20); }
    auto big = [&]() { return (int64_t)rng.below(1000); };
    auto seed = [&]() { return (int64_t)rng.below(1000000007); };
    p.cfg["memory"] = rng.chance(1, 8);
    auto n = 5 + rng.below(rng.chance(1, 4) ? 100 : 30);
    for (uint64_t i = 0; i < n; i++)
        switch (rng.below(24))
        {
            case 0: case 1: case 2: case 3: case 4: case 5: case 6: p.add("new", { (int64_t)rng.below(5), seed(), (int64_t)rng.below(64) }); break;
            case 7: case 8: case 9: p.add("del", { big() }); break;
            case 10: case 11: p.add("unlink", { big() }); break;
            case 12: p.add("link", { big() }); break;
            case 13: case 14: p.add("gc"); break;
            case 15: p.add("replace", { big(), seed(), big() }); break;
            case 16: if (p.c("memory")) p.add("reuse", { (int64_t)rng.below(3) }); break;     // forgets the free numbers: only in memory
            case 17: p.add("key", { big(), seed() }); break;
            case 18: p.add("set", { big(), seed() }); break;
            case 19: if (!p.c("memory")) p.add("save", { (int64_t)rng.below(8), (int64_t)rng.below(100) }); break;
            case 20: if (!p.c("memory")) p.add("update", { (int64_t)rng.below(8), (int64_t)rng.below(100) }); break;
            case 21: if (!p.c("memory")) p.add("reload", { (int64_t)rng.below(100) }); break;
            case 22: if (!p.c("memory")) p.add("saveload", { (int64_t)rng.below(8), (int64_t)rng.below(100) }); break;
            default: p.add("stm", { big(), seed(), (int64_t)rng.below(36), big() }); break;
        }
    p.add("gc");
    if (!p.c("memory")) p.add("saveload", { (int64_t)rng.below(8), (int64_t)rng.below(100) });
}
static void runC05(const Plan& p)
{
    Hist h;
    startHist(p, h);
    for (auto& op : p.ops)
    {
        if (storageOp(h, op)) continue;
        h.edit(op);
        if (op.k == "gc" || op.k == "replace") h.verify("after garbage collection", false);
    }
    h.verify("at the end");
    ctx().state(h.stateSig());
}
static Register r05({ "C05", "numbers", 30, 6000, genC05, runC05 });

// Long chains of references: collecting garbage must neither drop nor crash on them
static void genC05b(Rng& rng, Plan& p)
{
    p.cfg["length"] = 1000 + rng.skew(25000);
    p.cfg["via"] = (int64_t)rng.below(3);
    p.cfg["cut"] = (int64_t)rng.below(100);
    p.cfg["stop"] = 0;
    p.add("run");
}
static void runC05b(const Plan& p)
{
    if (p.ops.empty()) return;
    auto& c = ctx();
    PdfMemDocument doc;
    doc.GetPages().CreatePage(PdfRect(0, 0, 100, 100));
    int64_t n = p.c("length"), cut = n * p.c("cut") / 100;
    int via = (int)p.c("via");
    vector<PdfObject*> objs;
    c.setStage("building a chain");
    for (int64_t i = 0; i < n; i++) objs.push_back(via == 1 ? &doc.GetObjects().CreateArrayObject() : &doc.GetObjects().CreateDictionaryObject());
    for (int64_t i = 0; i + 1 < n; i++)
    {
        if (i + 1 == cut) continue;     // the rest of the chain is garbage
        PdfObject ref(objs[i + 1]->GetIndirectReference());
        if (via == 0) objs[i]->GetDictionary().AddKey("Next", ref);
        else if (via == 1) objs[i]->GetArray().Add(ref);
        else { PdfArray a; a.Add(ref); objs[i]->GetDictionary().AddKey("Kids", a); }
    }
    PdfReference first = objs[0]->GetIndirectReference();
    doc.GetCatalog().GetDictionary().AddKey("Chain", PdfObject(first));
    vector<PdfReference> refs;
    for (auto o : objs) refs.push_back(o->GetIndirectReference());
    c.setStage("collecting a chain");
    doc.CollectGarbage();
    for (int64_t i = 0; i < n; i++)
    {
        bool keep = cut == 0 || i < cut;
        if ((doc.GetObjects().GetObject(refs[i]) != nullptr) != keep)
            c.fail(keep ? "object-lost" : "object-phantom", strf("chain element %lld of %lld (cut at %lld)", (long long)i, (long long)n, (long long)cut));
    }
    c.ev("chain", n, cut, via); c.ev("a"); c.ev("b"); c.ev("c"); c.ev("d");
}
static Register r05b({ "C05", "chains", 1, 6000, genC05b, runC05b });

// ---------------------------------------------------------------- C07
// Two documents of the same bytes: one is read eagerly and in order, the other is poked in random order, parsed
// without loading on demand, and has memory released in between. Same edits on both; same values, same saved bytes.
static void genC07(Rng& rng, Plan& p)
{
    p.cfg["start"] = 1;
    p.cfg["ext"] = (int64_t)rng.below(1000000);
    p.cfg["objects"] = 1 + rng.skew(25);
    p.cfg["presave"] = rng.chance(1, 3);
    p.cfg["opts"] = (int64_t)rng.below(8);
    p.cfg["ondemand"] = rng.chance(3, 4);
    auto n = 2 + rng.below(rng.chance(1, 4) ? 60 : 20);
    auto big = [&]() { return (int64_t)rng.below(1000); };
    for (uint64_t i = 0; i < n; i++)
        switch (rng.below(10))
        {
            case 0: case 1: case 2: p.add("touch", { big(), big() }); break;
            case 3: case 4: case 5: p.add("free", { big() }); break;
            case 6: p.add("freeall", { big() }); break;
            case 7: p.add("twinsave", { (int64_t)rng.below(8), big() }); break;
            default: addEditOp(rng, p, true); break;
        }
    // collecting an indirect stream length depends on whether its stream was loaded, and shifts later object numbers
    p.cfg["direct"] = rng.chance(1, 2);
    if (!p.c("direct")) p.ops.erase(remove_if(p.ops.begin(), p.ops.end(), [](const Op& o) { return o.k == "gc"; }), p.ops.end());
}
static void runC07(const Plan& p)
{
    auto& c = ctx();
    Hist a, b;
    startHist(p, a);
    if (p.c("presave")) { a.save(saveOpts((uint64_t)p.c("opts")), devOpts(3)); a.reload(devOpts(1)); }
    b.adopt(a.bytes, a.model, a.root, a.dead, a.plumbing);
    b.reload(devOpts((uint64_t)p.c("ext") + 1));
    // an eager reader of the same bytes sees the same objects
    if (!p.c("ondemand"))
    {
        c.setStage("eager parse");
        auto dev = makeDevice(a.bytes, devOpts((uint64_t)p.c("ext") + 2));
        PdfMemDocument holder;
        auto& list = holder.GetObjects();
        list.Clear();
        PdfParser parser(list);
        parser.Parse(*dev, false);
        for (auto& m : a.model)
        {
            auto o = list.GetObject(toRef(m.first));
            if (!o) c.fail("object-lost", "not loaded by the eager parser: " + refText(m.first));
            auto want = canon(m.second.v, m.second.stream), got = canon(*o, o->HasStream());
            if (want != got) c.fail("object-value", strf("eager parser: %s should be %s but is %s", refText(m.first).c_str(), want.substr(0, 300).c_str(), got.substr(0, 300).c_str()));
        }
        c.probe("eager-parser");
    }
    (void)snapshot(*a.doc);       // a is loaded completely and in order
    for (auto& op : p.ops)
    {
        if (op.k == "touch" || op.k == "free") { b.edit(op); continue; }
        if (op.k == "freeall")
        {
            c.setStage("freeall");
            Rng r(op.u(0));
            for (auto& m : b.live())
                if (r.chance(1, 2))
                    if (auto o = dynamic_cast<PdfParserObject*>(&b.obj(m))) { o->FreeObjectMemory(false); c.probe("free-memory"); }
            continue;
        }
        if (op.k == "twinsave")
        {
            // saving in between is invisible too, also when only one of the twins does it
            auto o = make_shared<string>();
            SimDevice d(o, DeviceAccess::ReadWrite, devOpts(op.u(1)));
            b.doc->Save(d, saveOpts(op.u(0) | 2) | QuietSave);
            c.ev("twinsave", (int64_t)o->size());
            continue;
        }
        a.edit(op);
        b.edit(op);
    }
    a.verify("in the eagerly read document");
    b.verify("in the poked document");
    auto out = [&](Hist& h, uint64_t sel) {
        auto o = make_shared<string>();
        SimDevice d(o, DeviceAccess::ReadWrite, devOpts(sel));
        world().rnd.reseed(99);
        world().setClock(1700000000);
        h.doc->Save(d, saveOpts((uint64_t)p.c("opts")) | QuietSave);
        return *o;
    };
    bool saved = false;
    for (auto& op : p.ops) saved = saved || op.k == "twinsave";
    auto x = out(a, 4), y = out(b, 7);
    if (!saved && x != y) c.fail("save-differs", strf("saving after lazy access wrote other bytes (%zu against %zu)", x.size(), y.size()));
    {
        auto da = loadDoc(x), db = loadDoc(y);
        auto sa = userSnapshot(*da), sb = userSnapshot(*db);
        for (auto& r : a.plumbing) { sa.erase(r); sb.erase(r); }
        auto d = firstDiff(sa, sb);
        if (!d.empty()) c.fail("save-differs", "the saved documents differ: " + d);
    }
    c.state(a.stateSig());
}
static Register r07({ "C07", "twins", 1, 12000, genC07, runC07 });
