#!/usr/bin/env python3
"""Writes /verif/checks.json and /verif/MANIFEST.json. The list below is the single source of both."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DET = ("Within each run every source of nondeterminism (clock, random numbers, allocation failures, device and disk behaviour, "
       "chunking) is drawn from the run's seed; a failure is only reported if the same plan fails the same way again in fresh processes.")
C = {}
def check(id, technique, rule, note, assumptions=(), state=None, real=None, stubs=None, level="exploration"):
    C[id] = dict(technique="deterministic simulation with fault injection: " + technique, rule=rule, level=level, level_note=note + " " + DET,
                 assumptions=list(assumptions))
    if state: C[id]["state_measure"] = state
    if real: C[id]["real"] = real
    if stubs: C[id]["stubs"] = stubs

MODEL_TRUST = "the reference model of objects and values in sim/docutil.cpp is right"
EXT_TRUST = "the independent file producer in sim/docutil.cpp writes legal files"

check("C04", "seeded edit/save/update/reopen histories against an executable object model, on a chunking simulated device",
      "Random histories of object and stream edits, garbage collection, memory release, full saves, incremental updates and reopenings, starting from new documents or from files of an independent producer; after every storage operation the reopened file is compared with the model.",
      "Exploration: no counterexample among the histories executed.", [MODEL_TRUST, EXT_TRUST])

check("C05", "seeded create/remove/collect/replace/save/reopen histories against a set model of live and dead references",
      "Histories biased to creating and removing objects, garbage collection, replacing objects, loading into the same document, high and maximum generations and numbers beyond 16 bits; after every collection and storage operation live, dead and garbage references are compared with the model. A second scenario collects long reference chains with a cut.",
      "Exploration: no counterexample among the histories executed.", [MODEL_TRUST, EXT_TRUST])
check("C07", "twin executions of one history, one loaded eagerly and in order, the other poked, released and reloaded in a seeded order",
      "The same file is opened twice through devices that chunk reads differently; one twin loads everything first, the other touches objects and releases their memory in random order (also with saves in between), both get the same edits; values, streams and the bytes saved at the end must agree, with each other and with the object model. A third reader parses the same file without loading on demand.",
      "Exploration: no counterexample among the histories executed.", [MODEL_TRUST, EXT_TRUST])

check("C01", "seeded update histories with crash (torn append) and disk fault injection, revisions compared byte for byte and by content",
      "Histories of edits and incremental updates, to files and devices; after each update all earlier bytes must be unchanged and the reopened document must equal the model. The appended tail is torn at seeded positions (any byte, write boundaries, the ends) and the torn file must open to the old or the new revision or be refused, and the old one must be recoverable by truncation. Crashed updates (the disk dies at a seeded write) are checked the same way.",
      "Exploration: no counterexample among the histories and cut points executed.", [MODEL_TRUST, EXT_TRUST, "storage keeps a prefix of the appended bytes after a crash (append-only writes reach storage in order)"])
check("C02", "seeded faults (short, interrupted, full, failed) on the system calls and device operations of a save, against a healthy twin",
      "One document is built twice; one twin is saved undisturbed, the other with faults placed on seeded write/flush/seek/close/open operations of the same save. A normal return must mean that exactly the bytes of the healthy twin arrived and reopen to the document; a failed operation must be reported; only short or interrupted operations must not be an error.",
      "Exploration: no counterexample among the faults placed.", [MODEL_TRUST, EXT_TRUST])
check("C03", "seeded faults on repeated saves of one document, memory compared before and after against a healthy twin",
      "A document gets random edits and is then saved or updated several times with seeded faults (system calls, devices, streams and failing memory allocations at seeded points of the save); after every attempt its content in memory must be unchanged (garbage may be collected), and saving it to a healthy device must yield that content.",
      "Exploration: no counterexample among the faults placed.", [MODEL_TRUST, EXT_TRUST, "fonts used for drawing are finished by the first save, which is part of building the document"])
check("C09", "seeded operation sequences with short, interrupted and failing system calls on every device kind, against a byte array with a cursor",
      "Random writes, reads, peeks, seeks (from all three origins, also outside), flushes and reopenings on every stream device kind and file open mode; bytes, position, length, end-of-data and refusals are compared with a byte array after every operation; system call faults are injected below file devices.",
      "Exploration: no counterexample among the sequences executed.", ["the byte array model in sim/s_devices.cpp is right"], state="hash of device kind, length and position after each operation")

check("C08", "seeded chunking of writes and reads plus source and sink faults around every filter chain, against independent encoders",
      "Data of seeded kinds and sizes is encoded through filter chains (streams, object streams in several sessions, block interface, reused filter objects) with seeded write sizes and decoded with seeded read sizes from sources that chunk at will; independently encoded data (all five filters, PNG and TIFF predictors, early and late LZW) must decode to the original, also from a stream in a file. Faults (library and standard exceptions) are placed on every kind of source and sink operation: they must be reported, the data before them must be a right prefix and reading on must not give wrong data.",
      "Exploration: no counterexample among the executions.", ["the reference encoders in sim/docutil.cpp are right", "a sink that fails only while an encoding stream is destroyed is known to the sink's owner (destructors can't throw)"], state="hash of filter chain, mode and size class")

check("C10", "seeded encryption histories (random sources, chunking, save faults, wrong passwords) against an independent implementation of the standard security handler",
      "Documents with seeded contents are encrypted with every algorithm, key length, permission set and seeded passwords, saved (also in several revisions, copied, after failed saves, with the encryption changed or removed in between) and read by the reference implementation and by the library with right, wrong, empty and long passwords; files encrypted by the reference implementation must open to their content; no plaintext marker may be found in the file; keys, salts and vectors come from the simulated random source and must not repeat.",
      "Exploration: no counterexample among the histories executed.", [MODEL_TRUST, "the reference security handler in sim/s_crypt.cpp is right"], state="hash of algorithm, key length, kind of history and outcome")

check("C06", "twin loads through chunking devices, files and streams with seeded short, interrupted and failing reads",
      "One stored file (independent producer, library, encrypted, updated) is loaded through every way to feed the library with seeded chunking and compared with a plain load; read and seek faults are placed on loading, on lazy access (with releases in between) and on the reads a save makes. What succeeds must be right, errors must only follow faults, and once the fault has gone the retry must give the right content.",
      "Exploration: no counterexample among the faults placed.", [EXT_TRUST, "a plain load from memory is right (decided under C04 and C07)"], state="hash of file, way to load and kind of fault")
check("C11", "seeded storage damage (flips, zeros, drops, duplicates, swaps, stale blocks, truncation, cyclic and deep structures, wild numbers) under AddressSanitizer with work limits",
      "Stored files are damaged by seeded block faults and targeted mutations, loaded on demand or eagerly, then every object, stream, page, annotation, outline, name tree, field and metadata is read, and the file is resaved and read again. Any memory error, abort, stack overflow, exceeded allocation or time limit is a violation; errors are fine.",
      "Exploration: no counterexample among the damaged files.", [EXT_TRUST, "limits: CPU 20 s per run, 1 GB per allocation, stack 8 MB"], state="hash of what could be read")

check("C14", "seeded page histories (create, insert, remove, move, import, save, update, reopen) over page trees of any shape against a list model",
      "A plain list of pages (identity, content, boxes, rotation, resources, inherited attributes) is the model; documents start empty or from a producer of nested page trees with inherited attributes and odd fan-out; after every step count, order, index, page number, content and attributes of every page are compared, in memory and after reopening through chunking devices.",
      "Exploration: no counterexample among the histories executed.", [EXT_TRUST], state="hash of tree shape, page count and kind of step")
check("C15", "seeded import and copy histories over several documents, with read faults on the source during imports and destruction of either side",
      "Pages, page ranges, forms made from pages and whole documents are copied between documents of every origin (built, lazily loaded, encrypted, external); content and everything reachable of every copy is compared with a model of the source at the time of copying, then source and copy are edited, released, reloaded or destroyed and compared again; reads of the source fail at seeded points during the import, which must be reported and not store partial content.",
      "Exploration: no counterexample among the histories executed.", [MODEL_TRUST, EXT_TRUST], state="hash of kinds of source, copy and later edits")
check("C16", "seeded metadata histories under a simulated clock and time zone (jumps, daylight changes, far dates) against a model of Info, XMP and identifiers",
      "A model of every metadata field predicts the Info dictionary, the XMP packet (read by an independent parser) and the values the library shows after every set, save, update, failed save, reopening, copying and packet exchange; the clock and the time zone jump to seeded moments (daylight changes, odd offsets, far dates) and every stamp must denote the instant the clock showed; the first part of the identifier must stay.",
      "Exploration: no counterexample among the histories executed.", ["the XMP and date readers in sim/s_meta.cpp are right", "instants since the epoch only"], state="hash of operation, presence of XMP and agreement of both places")
check("C22", "seeded histories of document-wide settings with saves, updates, reopenings, copies and saves to full disks, against a map",
      "Version, vendor extensions, viewer preferences, page mode and layout, language and base URI are set and removed in seeded order on new documents and files of an independent producer (also with these dictionaries kept as objects of their own), interleaved with full saves, updates, saves to a disk that fills up, copies and collections; a map predicts what memory, the interface and every reopened file hold.",
      "Exploration: no counterexample among the histories executed.", [EXT_TRUST, "an update can't lower the version of the file it is appended to"], state="hash of all settings")
check("C20", "embedding and extraction of seeded files, images and raw data with seeded open, read, seek, write and flush faults, short and interrupted transfers, truncation and missing files",
      "Files, PNG, TIFF and JPEG images of every supported form from independent encoders, pixel buffers, raw and filtered stream data and colour profiles are embedded from files, buffers and streams while simulated faults hit the source; what was stored is read back by an independent image model, in memory, after reopening and through extraction to failing sinks. Either the exact content is there or an error followed a fault, and an extraction repeated after the fault gives the exact content.",
      "Exploration: no counterexample among the histories executed.", ["the image encoders and the image model in sim/s_embed.cpp are right", "JPEG pixels are those of the JPEG library"], state="hash of what was embedded, source and faults")
check("C21", "seeded drawing sessions over pages and forms, interleaved with saves, updates and reopenings, against a model of every content stream",
      "A model predicts the operators of every page and form after painter sessions with any flags, nesting and resources (fonts, images, forms, graphics states, colour spaces), on new and on existing pages with content in several streams; earlier content must be preserved byte for byte, sessions appear once and in order, saves and restores balance, and every resource named must exist.",
      "Exploration: no counterexample among the histories executed.", [EXT_TRUST], state="hash of kinds of canvas, flags and operators")

check("C12", "seeded signing histories (recording signer, chunking devices, later updates) with failing signers, device faults and cuts during signing",
      "Documents of every origin get signature fields and are signed with a recording simulated signer of seeded kind, size and behaviour, through chunking devices; the recorded byte range must cover the whole file except exactly the value, the signer must have been fed exactly those bytes once and in order, and the embedded value must be the one it returned. Later updates, more signatures and reopenings must leave the signed bytes and the value untouched; failing signers and faulted devices must be reported and leave the previous revision recoverable.",
      "Exploration: no counterexample among the histories executed.", [MODEL_TRUST, EXT_TRUST, "the byte range reader in sim/s_sign.cpp is right"], state="hash of document origin, signer, fault and outcome")
check("C13", "a seeded cooperative scheduler over real threads (preemption at compiler-inserted edges, locks and guards simulated) against solo runs",
      "Two to four threads work on documents of their own (building, editing, text, fonts, parsing, encryption, saving, damaged input); only one runs at a time and the seed decides after how many basic blocks another continues, with cold or warm shared tables; every thread's results and saved bytes must be those of the same work alone. Function-local statics, mutexes, read-write locks and once flags are simulated so that the scheduler decides who gets them; AddressSanitizer watches.",
      "Exploration: no counterexample among the interleavings executed.", ["sequentially consistent memory", "threads are preempted inside pdfmm's code only: calls to FreeType, fontconfig and OpenSSL are atomic"], state="hash of the sequence of switches")
check("C17", "twin executions of one seeded history in environments that differ in heap layout, memory contents, devices, chunking, locale, reading order and other documents",
      "The same history (edits, pages, fonts, images, forms, annotations, encryption, saves, updates, reloads) is executed in two environments under the same clock and random numbers; every saved file must be the same bytes and every refused operation must be refused the same way.",
      "Exploration: no counterexample among the pairs executed.", [EXT_TRUST, "the process has one locale at a time; its time zone is part of the options"], state="hash of the saved bytes")
check("C19", "seeded histories of outlines, destinations, attachments, annotations and form fields with saves, updates and reopenings against list models",
      "Plain lists and maps model outlines (tree), named destinations, attachments, annotations of every page and form fields with their values; documents start empty or from an independent producer of nested, indirect and partly malformed structures; after every step the library must show exactly the model, and the stored bytes, read by an independent reader, must have consistent sibling, parent and child links and sorted names.",
      "Exploration: no counterexample among the histories executed.", [EXT_TRUST], state="hash of the kinds and sizes of the collections")

check("C18", "seeded allocation failures (one, or every n-th) inside load, edit, save, update, import and encryption, against a healthy twin",
      "The same operation runs healthy, then with the n-th memory allocation failing (n seeded over all allocations of the operation, with a bias to its end, optionally with repeated failures), then healthy again. The failing run must report an error or give the healthy result, without crashing or touching freed memory; the document must stay readable, writable and destructible; the stored bytes an update appends to must be unchanged; the last run must give the healthy result.",
      "Exploration: no counterexample among the failing allocations placed.", [EXT_TRUST, "allocations made by operator new (pdfmm and the C++ library); malloc inside zlib, FreeType, libxml2 and OpenSSL is not failed"])

NA = [
 ("N01", "A pure function of its input: no clock, schedule, I/O or multi-party behaviour for a simulator to control. (Strings surviving storage are decided under C04 and C19.)"),
 ("N02", "Pure arithmetic without any nondeterminism to schedule or fault to inject."),
 ("N03", "Pure arithmetic without any nondeterminism to schedule or fault to inject."),
 ("N04", "A pure function of font and text; nothing to schedule and no fault to inject."),
]
TODO = "No scenario decides this property, so nothing is claimed."

def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    na = dict(NA)
    checks = []
    for id in props:
        if id in C:
            c = C[id]
            checks.append(dict(property=id, quick_cmd="python3 vsim.py check " + id, thorough_cmd="VERIF_TIER=thorough python3 vsim.py check " + id,
                               evidence_file="evidence/%s.json" % id, technique=c["technique"], level=c["level"], level_note=c["level_note"]))
        elif id not in na:
            na[id] = TODO
    man = dict(version=1, setup_cmd="python3 vsim.py clean-stale",
               checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
               notes="All commands run in /verif. Each check compiles /repo's working tree together with the simulator (sim/) and searches seeds; 'python3 vsim.py replay FILE' replays a violation. No hooks in /repo are needed: device, clock, random number, allocator and system call seams are interposed at link level.")
    with open(os.path.join(HERE, "checks.json"), "w") as f: json.dump(C, f, indent=1); f.write("\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")

main()
