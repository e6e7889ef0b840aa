#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the single source of the property texts."""
import json, os
B = "src/pdfmm/base/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[B+f if "/" not in f else f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **(dict(state=[dict(name=a, meaning=b, where=c) for a, b, c in state]) if state else {}),
            **(dict(observe_at=observe) if observe else {}),
            hook_needed=hook)))

prop("C01", "Incremental update is append-only and crash-atomic",
 "An incremental save (SaveUpdate) only appends to the file it updates: every byte of every earlier revision stays where it was, so truncating the file to the end of any earlier revision yields exactly that revision. "
 "If the update is interrupted after any prefix of its bytes reached storage, the file still holds either the complete previous revision (recoverable by truncation to its end) or, once the last byte is there, the complete new one, and opening the torn file never yields a document that mixes the two silently or crashes. "
 "Once SaveUpdate returned, reopening the file yields the new revision in full, across any number of successive updates.",
 ["crash_points", "histories"],
 "for every history of edits and successive incremental updates and every byte offset at which an update is cut",
 "Tests save once and never cut a write; the claim quantifies over every crash offset and every chain of updates.",
 ["PdfMemDocument.cpp", "PdfWriter.cpp", "PdfXRef.cpp", "PdfXRefStream.cpp", "PdfParser.cpp"],
 [("SaveUpdate seeks to the end and writes dirty objects only", B+"PdfMemDocument.cpp SaveUpdate, "+B+"PdfWriter.cpp WritePdfObjects"),
  ("xref section chained with /Prev; startxref/%%EOF last", B+"PdfXRef.cpp Write, "+B+"PdfParser.cpp ReadXRefContents")],
 [("dirty flag", "decides which objects are part of the update", B+"PdfObject.cpp"), ("previous xref offset", "start of the chain", B+"PdfMemDocument.cpp m_PrevXRefOffset")],
 ["bytes handed to the OutputStreamDevice", "PdfMemDocument::LoadFromDevice on each prefix"])

prop("C02", "A save that returns has delivered every byte; a failed one says so",
 "If Save or SaveUpdate to a file or device returns normally, all bytes of the document have been accepted by the operating system or device and reopening them yields the document that was saved. "
 "If any write, flush, seek or close underneath fails (full disk, I/O error), the call reports an error; short writes and interrupted system calls are retried without losing, duplicating or reordering bytes.",
 ["fault_sequences", "histories"],
 "for every document and save variant and every sequence of write-side faults at any system call of the save",
 "Tests only write to healthy files and memory; no test makes a write fail, and the last buffered block is exactly where errors get lost.",
 ["PdfMemDocument.cpp", "PdfWriter.cpp", "PdfStreamDevice.cpp", "PdfOutputStream.cpp", "PdfObject.cpp"],
 [("device error propagation", B+"PdfStreamDevice.cpp writeBuffer/flush/close"), ("save entry points", B+"PdfMemDocument.cpp Save/SaveUpdate")],
 None, ["return or exception of Save/SaveUpdate against the simulated disk's record of accepted bytes"])

prop("C03", "A failed operation leaves the in-memory document usable and unchanged",
 "When a save, incremental save, signing or load-time access fails part way (device error at any point), the in-memory document still has exactly the content it had before the call, and repeating the save on a healthy device produces a file that reopens to that content. "
 "Saving, however often and with whatever options, never changes the document's own objects or streams apart from the modification date it stamps.",
 ["fault_sequences", "histories"],
 "for every document, every interleaving of saves with edits and every failure point inside a save",
 "Tests never fail a save and then keep using the document.",
 ["PdfMemDocument.cpp", "PdfWriter.cpp", "PdfObject.cpp", "PdfObjectStream.cpp"],
 [("save writes through const access and temporaries", B+"PdfObject.cpp Write"), ("encryption dictionary added for the save and removed on failure", B+"PdfWriter.cpp Write")],
 None, ["deep snapshot of all objects before and after", "reopened retry"])

prop("C04", "Documents survive any history of edits, saves, updates and reopenings",
 "After any history of creating, changing and removing objects and streams, saving (any option), updating incrementally and reopening, the document reopened from storage holds exactly the reachable objects, values and decoded stream contents that a simple in-memory model of the same history holds. "
 "No object, key, array element or stream byte is lost, duplicated, altered or attributed to another object, whatever form (cross-reference table or stream, object streams, string and name encodings, stream filters) it was stored in.",
 ["histories", "configurations"],
 "for every history of object-level operations interleaved with save/update/reopen in any mode",
 "Tests round-trip a few fixed files; the state that breaks (dirty flags, free lists, lazily loaded streams, xref chains) only builds up over histories.",
 ["PdfMemDocument.cpp", "PdfIndirectObjectList.cpp", "PdfObject.cpp", "PdfVariant.cpp", "PdfDictionary.cpp", "PdfArray.cpp", "PdfString.cpp", "PdfName.cpp", "PdfWriter.cpp", "PdfXRef.cpp", "PdfXRefStream.cpp", "PdfParser.cpp", "PdfParserObject.cpp", "PdfTokenizer.cpp", "PdfObjectStreamParser.cpp"],
 [("serialisation", B+"PdfObject.cpp Write, "+B+"PdfVariant.cpp Write"), ("dirty tracking", B+"PdfDataContainer.cpp, "+B+"PdfObject.cpp SetDirty"), ("parsing", B+"PdfParser.cpp, "+B+"PdfParserObject.cpp")],
 None, ["PdfIndirectObjectList iteration and PdfObject accessors after reopening"])

prop("C05", "Object numbers never alias; garbage collection drops only unreachable objects",
 "At every moment each live indirect object has its own object number; creating an object never replaces or aliases a live one, and a number is reused only after its object was removed and then with a higher generation, so a stale reference never resolves to a later object. "
 "Garbage collection removes exactly the objects not reachable from the trailer, and both facts persist through saving, updating and reopening.",
 ["histories"],
 "for every history of creation, removal, replacement, garbage collection, save, update, reload and document copy, including more than 65535 objects and exhausted generations",
 "Tests allocate a handful of objects; reuse, generation exhaustion and large counts are never reached.",
 ["PdfIndirectObjectList.cpp", "PdfIndirectObjectList.h", "PdfXRef.cpp", "PdfXRefStream.cpp", "PdfParser.cpp"],
 [("free list and number allocation", B+"PdfIndirectObjectList.cpp getNextFreeObject/tryAddFreeObject"), ("garbage collection", B+"PdfIndirectObjectList.cpp CollectGarbage/visitObject")],
 [("m_FreeObjects", "references available for reuse", B+"PdfIndirectObjectList.h"), ("m_ObjectCount", "next number", B+"PdfIndirectObjectList.h")],
 ["GetIndirectReference/GetObject after each step"])

prop("C06", "Loading is independent of device chunking, and read errors surface",
 "Loading a file from any device that returns the same bytes gives the same document, however the device splits its reads and wherever the file is backed by memory, a stream or a file. "
 "A read error during loading or during later lazy access is reported as an error and never turns into missing, truncated or altered content; once the fault has gone, retrying the load or the access gives the correct content.",
 ["fault_sequences", "schedules"],
 "for every file, every division of reads into chunks and every position and kind of read fault",
 "Tests read from healthy files and buffers that always deliver full reads.",
 ["PdfParser.cpp", "PdfTokenizer.cpp", "PdfParserObject.cpp", "PdfXRefStreamParserObject.cpp", "PdfObjectStreamParser.cpp", "PdfInputStream.cpp", "PdfInputDevice.cpp", "PdfStreamDevice.cpp", "PdfMemDocument.cpp"],
 [("tokenizer reads byte-wise with peek and seek", B+"PdfTokenizer.cpp"), ("lazy objects keep the device", B+"PdfParserObject.cpp")],
 None, ["full dump of the loaded document compared with the fault-free dump"])

prop("C07", "Lazy loading and freeing object memory are invisible",
 "The value of every object and stream of a loaded document is the same whatever the order in which objects are touched, whether they are loaded on demand, and however often their memory is released in between; an object with unsaved changes never loses them to a (non-forced) release. "
 "Saving after any such interleaving writes the same document.",
 ["schedules", "histories"],
 "for every order and interleaving of object access, stream access, modification, memory release and save",
 "Tests load and read in file order; the interleavings of access and release are unbounded.",
 ["PdfParserObject.cpp", "PdfObject.cpp", "PdfMemDocument.cpp", "PdfObjectStreamParser.cpp", "PdfParser.cpp"],
 [("delayed loading", B+"PdfObject.cpp DelayedLoad/DelayedLoadStream"), ("releasing", B+"PdfParserObject.cpp FreeObjectMemory")],
 [("delay-load flags", "what has been materialised", B+"PdfObject.h")], ["object dump per access"])

prop("C08", "Stream filters are exact however data is chunked, and report failures",
 "Encoding data through any supported filter chain and decoding it again yields the original bytes no matter how the data is split into writes and reads, and externally produced data for these filters decodes to the same bytes no matter how it is split. "
 "If the underlying source or sink fails, the failure is reported to the caller as an error (never a crash or abort) and does not yield wrong data.",
 ["schedules", "fault_sequences"],
 "for every data, filter chain and division into chunks, and every source or sink fault position",
 "Tests encode one buffer in one call; chunk boundaries inside codes and sink errors during finishing are not sampled.",
 ["PdfFilter.cpp", "src/pdfmm/private/PdfFiltersPrivate.cpp", "PdfObjectStream.cpp", "PdfMemoryObjectStream.cpp"],
 [("block-wise filter state", "src/pdfmm/private/PdfFiltersPrivate.cpp"), ("filtered input/output streams", B+"PdfFilter.cpp")],
 None, ["bytes read back; exceptions"])

prop("C09", "Every stream device behaves like one byte array",
 "For any sequence of writes, reads, peeks, seeks, flushes and reopenings, each device kind (memory container, fixed span, standard stream, file in each open mode, counting null device) shows the bytes, position, length and end-of-data that a plain byte array with a cursor would show within that device's access rights, and refuses operations outside them with an error. "
 "File-backed devices keep this under short and interrupted system calls, and report real I/O errors; a file-open mode creates, truncates or preserves exactly what it documents.",
 ["histories", "fault_sequences"],
 "for every sequence of device operations and every schedule of system-call faults",
 "Tests use each device for one straight read or write pass.",
 ["PdfStreamDevice.cpp", "PdfStreamDevice.h", "PdfStreamDeviceBase.cpp", "PdfInputStream.cpp", "PdfOutputStream.cpp", "PdfInputDevice.cpp", "PdfOutputDevice.cpp"],
 [("device implementations", B+"PdfStreamDevice.cpp/.h"), ("read/peek helpers", "src/pdfmm/private/PdfDeclarationsPrivate.cpp utls::ReadBuffer/ReadChar")],
 None, ["return values of the device API and the simulated file's content"])

prop("C10", "Encryption protects and preserves documents",
 "A document saved with any enabled encryption algorithm, key length, permission set and password pair reopens with the user or owner password to exactly the content, permissions and algorithm it had, and refuses any other password; this holds for any clock and random seed, any read chunking, and through resaving and incremental updates. "
 "No string or stream content of an encrypted document appears in clear in the saved bytes.",
 ["configurations", "histories", "schedules"],
 "for every algorithm, password pair, permission set, document, clock/random state and history of save, update and reopen",
 "Tests encrypt one small buffer per algorithm and never reopen an updated or resaved encrypted file.",
 ["PdfEncrypt.cpp", "PdfStatefulEncrypt.cpp", "PdfWriter.cpp", "PdfParser.cpp", "PdfParserObject.cpp", "PdfString.cpp", "PdfMemoryObjectStream.cpp"],
 [("key generation and authentication", B+"PdfEncrypt.cpp"), ("per-object encryption on save / decryption on load", B+"PdfWriter.cpp, "+B+"PdfParserObject.cpp")],
 None, ["PdfMemDocument load with password; raw saved bytes"], "clock and random number sources are replaced at link time")

prop("C11", "Damaged storage is rejected or survived, never a crash or hang",
 "Loading, reading every object and stream, walking the pages and resaving a file whose bytes were damaged in any way by storage faults (flipped, dropped, duplicated, zeroed, swapped or truncated blocks, stale blocks of an earlier revision) either succeeds or ends in a reported error, with no memory error, abort or unbounded recursion. "
 "The work done is bounded: reading never loops, in particular not on cyclic cross-reference or object structures.",
 ["fault_sequences", "inputs"],
 "for every valid file the system can write and every sequence of storage corruptions applied to it",
 "Tests feed a fixed list of malformed files.",
 ["PdfParser.cpp", "PdfTokenizer.cpp", "PdfParserObject.cpp", "PdfXRefStreamParserObject.cpp", "PdfObjectStreamParser.cpp", "PdfFilter.cpp", "PdfPageCollection.cpp", "PdfEncrypt.cpp", "PdfIndirectObjectList.cpp"],
 [("bounds and recursion checks in the parser", B+"PdfParser.cpp, "+B+"PdfTokenizer.cpp"), ("visited-offset set", B+"PdfParser.cpp m_visitedXRefOffsets")],
 None, ["process outcome under AddressSanitizer and an I/O step budget"])

prop("C12", "A signature covers exactly the bytes it claims and survives later updates",
 "After signing, the byte range recorded in the file covers the whole file except exactly the signature value, the signer was fed precisely those bytes in order exactly once, and the embedded value is the one the signer returned, whatever the device's chunking, document history and signature size. "
 "Signing only appends to a previously saved file, later incremental updates leave the signed bytes untouched, and if signing fails part way the error is reported and the previous revision is still recoverable.",
 ["histories", "schedules", "fault_sequences", "crash_points"],
 "for every document history, signer behaviour, device chunking and failure point during signing",
 "Tests sign one file with a fixed signer on a healthy device.",
 ["PdfSigner.cpp", "PdfSignature.cpp", "PdfData.cpp", "PdfMemDocument.cpp"],
 [("beacons mark ByteRange and Contents offsets while writing", B+"PdfSigner.cpp SignDocument"), ("placeholder rewriting", B+"PdfSigner.cpp")],
 None, ["saved bytes; calls recorded by the simulated signer"])

prop("C13", "Independent documents can be used from concurrent threads",
 "Threads that each work on their own documents, in any interleaving, get exactly the results and output bytes each would get running alone, with no crash or interference through shared library state.",
 ["schedules"],
 "for every interleaving of two or more threads operating on independent documents",
 "Tests are single-threaded; interleavings are not enumerable by examples.",
 ["PdfTokenizer.cpp", "PdfEncodingMapFactory.cpp", "PdfEncodingFactory.cpp", "PdfEncoding.cpp", "PdfFontMetricsStandard14.cpp", "PdfCommon.cpp", "PdfEncrypt.cpp", "PdfParser.cpp", "PdfFontManager.cpp"],
 [("function-local statics and thread_local guards", "src/pdfmm/private/PdfEncodingPrivate.cpp, "+B+"PdfTokenizer.cpp"), ("no mutable global document state", "whole library")],
 None, ["per-thread result digests against the solo run"], "compiler-inserted edge callbacks (-fsanitize-coverage) used as preemption points; no source hook")

prop("C14", "The page sequence behaves like a list",
 "After any history of creating, inserting, removing, moving and importing pages, interleaved with saving, updating and reopening, the document's pages are exactly those of a plain list model in the same order: page count, every page's identity, content, boxes and inherited attributes, page index and page number all agree. "
 "This holds whatever the shape (depth, fan-out) of the page tree.",
 ["histories", "configurations"],
 "for every history of page operations over every page tree shape",
 "Tests build one or two trees and perform single insertions.",
 ["PdfPageCollection.cpp", "PdfPageTreeCache.cpp", "PdfPage.cpp", "PdfDocument.cpp"],
 [("page tree editing and count maintenance", B+"PdfPageCollection.cpp"), ("page cache", B+"PdfPageTreeCache.cpp")],
 [("page cache", "index to page mapping that must follow edits", B+"PdfPageTreeCache.h")], ["GetPageAt/GetCount and reopened file"])

prop("C15", "Imported and copied content is complete and independent of its source",
 "A page or document copied into another (append, insert, form from page, document copy) reproduces the source's content, resources and everything reachable from it, leaves the source unchanged, and stays correct after the source is edited, has its memory released, or is destroyed; later edits of either never show in the other. "
 "If reading the source fails during the copy, an error is reported and no partially read content is silently stored.",
 ["histories", "fault_sequences"],
 "for every pair of documents, every history of imports, edits and destruction, and every read fault during an import",
 "Tests append once and keep both documents alive and untouched.",
 ["PdfDocument.cpp", "PdfMemDocument.cpp", "PdfPageCollection.cpp", "PdfXObjectForm.cpp", "PdfIndirectObjectList.cpp", "PdfObject.cpp"],
 [("object copying with reference renumbering", B+"PdfDocument.cpp append/fixObjectReferences"), ("copy constructors", B+"PdfMemDocument.cpp, "+B+"PdfIndirectObjectList.cpp")],
 None, ["object dumps of both documents and their reopened files"])

prop("C16", "Timestamps, metadata and file identifiers follow the clock and the history",
 "Each save stamps the modification date with the instant the clock showed (unless told not to), in the document information and in the XMP metadata alike, correctly for every time zone, daylight change and clock jump; the other metadata fields keep the values last set through any history of saves, updates and reopenings, in both places. "
 "The first part of the file identifier stays fixed through incremental updates.",
 ["histories", "configurations", "schedules"],
 "for every clock behaviour (zone, jumps, far dates), every metadata edit history and save mode",
 "Tests run at whatever the real clock shows in one time zone.",
 ["PdfDate.cpp", "PdfMetadata.cpp", "PdfInfo.cpp", "PdfXMPMetadata.cpp", "PdfXMPPacket.cpp", "PdfWriter.cpp", "PdfMemDocument.cpp"],
 [("local time conversion", B+"PdfDate.cpp LocalNow"), ("info and XMP synchronisation", B+"PdfMetadata.cpp"), ("identifier", B+"PdfWriter.cpp CreateFileIdentifier")],
 None, ["/Info, XMP packet and /ID of the saved file"], "clock replaced at link time")

prop("C17", "Saving is deterministic",
 "Given the same document history, options, clock and random numbers, saving writes the same bytes, whatever the memory layout, the device kind, the way reads and writes are chunked, or what other documents the process handled before.",
 ["schedules", "configurations", "histories"],
 "for every document history and every pair of environments that differ only in address layout, device, chunking and earlier activity",
 "A single run cannot compare environments.",
 ["PdfWriter.cpp", "PdfIndirectObjectList.cpp", "PdfDictionary.cpp", "PdfXRef.cpp", "PdfObject.cpp", "PdfFontManager.cpp"],
 [("ordered containers everywhere on the write path", B+"PdfIndirectObjectList.h, "+B+"PdfDictionary.h, "+B+"PdfXRef.h")],
 None, ["saved bytes"], "clock and random sources replaced at link time")

prop("C22", "Document-wide settings keep their history",
 "The version, the vendor extensions, the viewer preferences, the page mode and layout, the language and the base URI of a document are those last set, in memory and to every reader of a stored file, after any history of setting and removing them, full saves, incremental updates, failed saves, copies and reopenings; setting one leaves the others alone. (An update can't lower the version of the file it is appended to.)",
 ["histories", "fault_sequences"],
 "for every order of settings, save modes and reopenings, on documents of every origin",
 "Tests hardly touch these settings and never across updates.",
 ["PdfCatalog.cpp", "PdfMemDocument.cpp", "PdfExtension.cpp", "PdfMetadata.cpp", "PdfParser.cpp", "PdfWriter.cpp"],
 [("viewer preferences, mode and layout", B+"PdfCatalog.cpp"), ("extensions and version", B+"PdfMemDocument.cpp Save, SaveUpdate, AddPdfExtension"), ("version on loading", B+"PdfParser.cpp UpdateDocumentVersion")],
 None, ["settings read back after each operation"])

prop("C18", "Running out of memory is reported, never corrupting",
 "If any single memory allocation fails during loading, editing, reading or saving, the operation reports the failure as an error without crashing, leaving objects destructible, and a file already on storage is not harmed; once memory is available again the same operation on a fresh load succeeds with the right result.",
 ["fault_sequences"],
 "for every operation and every allocation within it that fails",
 "No test injects allocation failure.",
 ["PdfParser.cpp", "PdfObject.cpp", "PdfIndirectObjectList.cpp", "PdfWriter.cpp", "PdfFilter.cpp", "PdfObjectStream.cpp"],
 [("RAII ownership and exception propagation", "whole library"), ("error translation", B+"PdfError.cpp")],
 None, ["exception or success; AddressSanitizer; fresh retry"], "operator new replaced at link time")

prop("C19", "Outlines, names, attachments, annotations and form fields keep their history",
 "After any history of adding and removing outline items, named destinations, attachments, annotations and form fields, interleaved with saves, updates and reopenings, each collection lists exactly the entries a simple model holds, in the order it holds them, with their values, and the structure on storage is consistent (sibling and parent links, sorted names).",
 ["histories"],
 "for every history of collection edits interleaved with persistence",
 "Tests add one or two entries and do not reopen.",
 ["PdfOutlines.cpp", "PdfNameTree.cpp", "PdfAnnotationCollection.cpp", "PdfAnnotation.cpp", "PdfAcroForm.cpp", "PdfField.cpp", "PdfFileSpec.cpp", "PdfDocument.cpp"],
 [("linked outline items", B+"PdfOutlines.cpp"), ("name tree splitting", B+"PdfNameTree.cpp"), ("annotation array and object map", B+"PdfAnnotationCollection.cpp")],
 None, ["collection APIs on the live and the reopened document"])

prop("C20", "Files embedded from outside are embedded exactly or the failure is reported",
 "Embedding an external file (attachment, image, raw stream data) stores exactly the file's bytes or pixels however its reads are split or interrupted, and a missing file or a failing read or write is reported as an error instead of storing partial or empty content.",
 ["fault_sequences", "schedules"],
 "for every file content and every schedule of short, interrupted and failing reads while it is embedded or extracted",
 "Tests embed from healthy files only.",
 ["PdfFileSpec.cpp", "PdfImage.cpp", "PdfObjectStream.cpp", "PdfStreamDevice.cpp"],
 [("file embedding", B+"PdfFileSpec.cpp EmbedFile"), ("image loading", B+"PdfImage.cpp"), ("file helpers", "src/pdfmm/private/PdfDeclarationsPrivate.cpp utls::ReadTo")],
 None, ["decoded embedded stream against the file's bytes"])

prop("C21", "Drawing on a page only ever adds to it",
 "Drawing on pages in any number of painter sessions, on new or existing pages and with any append mode, leaves every page's content stream equal to what a model predicts: earlier content is preserved byte for byte unless replaced explicitly, each session's operators appear once and in order, graphics state is balanced around them, and all resources named by the content exist, through saves, updates and reopenings.",
 ["histories"],
 "for every history of drawing sessions over one or more pages, interleaved with persistence",
 "Tests draw one session on an empty page.",
 ["PdfPainter.cpp", "PdfContents.cpp", "PdfCanvas.cpp", "PdfPage.cpp", "PdfResources.cpp", "PdfXObjectForm.cpp"],
 [("content stream appending", B+"PdfContents.cpp GetStreamForAppending"), ("painter sessions", B+"PdfPainter.cpp SetCanvas/FinishDrawing")],
 None, ["decoded content streams tokenised and compared with the model"])

prop("N01", "Text encodings convert exactly",
 "Converting text to PDF string bytes and back through each predefined encoding is the identity on the encoding's repertoire.",
 ["inputs"], "for every text over every encoding's repertoire", "Tests sample a few strings.",
 ["PdfEncoding.cpp", "PdfPredefinedEncoding.cpp"], [("code maps", B+"PdfEncodingMap.cpp")])
prop("N02", "Geometry operations obey matrix algebra",
 "Transforming points, rectangles and matrices follows the algebra of affine maps.",
 ["inputs"], "for every matrix, point and rectangle", "Tests sample a few values.",
 ["PdfRect.cpp"], [("rect arithmetic", B+"PdfRect.cpp")])
prop("N03", "Colour conversions stay in range and are consistent",
 "Converting between grey, RGB and CMYK colours keeps components in range and round-trips where the spaces overlap.",
 ["inputs"], "for every colour", "Tests sample a few colours.",
 ["PdfColor.cpp"], [("conversions", B+"PdfColor.cpp")])
prop("N04", "Font metrics give additive text widths",
 "The width computed for a text is the sum of its glyph widths scaled by size and spacing for every font and text.",
 ["inputs"], "for every text and font state", "Tests sample a few strings.",
 ["PdfFont.cpp", "PdfFontMetrics.cpp"], [("width computation", B+"PdfFont.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
