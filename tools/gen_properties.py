#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "C API tolerates NULL for every pointer argument",
 "Every function of the C API accepts NULL for any of its pointer arguments without dereferencing it: it reports failure through its return value (a NULL, zero or error result) instead. No pointer argument, nor a C string or buffer built from it, is read or written on a path where it may still be NULL.",
 ["inputs", "histories"], "every exported function, every pointer parameter, every path through the function and the helpers it passes the pointer to",
 "Tests call a few functions with valid handles; a missing NULL test only shows when a C program passes NULL to that very parameter on that very path.",
 ["src/capi.rs", "src/capi/rawfile.rs", "src/capi/rawdata.rs", "src/capi/thumbnail.rs", "src/capi/bitmap.rs", "src/capi/ifd.rs", "src/capi/iterator.rs", "src/capi/metavalue.rs", "src/capi/mosaic.rs", "src/capi/mime.rs"],
 [("or_unwrap!/or_unwrap_mut! null guards", "src/capi.rs"), ("is_null tests before raw pointer use", "src/capi/*.rs")])

prop("C02", "C API objects have one owner and one matching release function",
 "An object the C API hands out for the caller to own comes from an allocation that exactly one release function, for the same object type, gives back; that release function frees it, exactly once, and no other function frees a caller's object. A pointer returned or stored for the caller to borrow points into the argument object, into another live object, or into static storage, never into a temporary that is gone when the call returns.",
 ["histories", "inputs"], "every exported function and every pointer it returns, stores through an out-parameter, or takes back",
 "Leaks, double frees and dangling results stay invisible to functional tests; the property concerns who owns each pointer on every path, not returned values.",
 ["src/capi.rs", "src/capi/rawfile.rs", "src/capi/rawdata.rs", "src/capi/thumbnail.rs", "src/capi/bitmap.rs", "src/capi/iterator.rs", "src/capi/metavalue.rs"],
 [("Box::into_raw / Box::from_raw pairs", "src/capi/*.rs"), ("borrowed results cast from references", "src/capi/*.rs"), ("iterator keeps the raw file alive", "src/capi/iterator.rs")])

prop("C03", "Installed C headers describe the library that is built",
 "Every function the public C headers declare under the library's prefix is exported by the library with the same number of parameters and binary-compatible parameter and return types. Every constant of the headers' enumerations that has a counterpart in the library has the same numeric value, and every value the library can return for such an enumeration has a name in the header.",
 ["configurations", "inputs"], "every declaration of the public headers, every exported symbol, every enumerator",
 "The C tests link against only a handful of functions and compare a few constants; a drifted prototype or enumerator compiles, links and passes until the affected call or value is used.",
 ["include/libopenraw/libopenraw.h", "include/libopenraw/consts.h", "include/libopenraw/types.h", "include/libopenraw/rawfile.h", "include/libopenraw/rawdata.h", "include/libopenraw/metadata.h", "src/capi.rs"],
 [("#[no_mangle] extern \"C\" functions", "src/capi/*.rs"), ("repr(C)/repr(u32) enumerations", "src/capi.rs, src/capi/ifd.rs, src/rawfile.rs, src/bitmap.rs, src/mosaic.rs"), ("C declarations", "include/libopenraw/*.h")])

prop("C04", "Strings and string lists crossing to C are NUL terminated",
 "Every character pointer the C API returns or stores for the caller designates a NUL-terminated string, and every list of strings it returns ends with a NULL entry. No raw text without a terminator ever reaches C.",
 ["inputs"], "every character pointer and string list leaving the API, on every path",
 "An unterminated string often happens to be followed by a zero byte in test builds; the property is about how the bytes were produced.",
 ["src/capi/ifd.rs", "src/capi/metavalue.rs", "src/capi/iterator.rs", "src/capi/mime.rs", "src/capi.rs"],
 [("CString/CStr producers", "src/capi/*.rs"), ("static string tables", "src/capi.rs, src/capi/mime.rs")])

prop("C05", "C API error reports agree with the outcome",
 "A C API function with an error out-parameter stores a result through it on every path when it is not NULL: the no-error value exactly when a usable result is returned, and a failure value exactly when NULL is returned. Each C error code converts to its own library error and converting that error back gives the same code; only the no-error value maps to no-error, so no failure is ever reported as success.",
 ["inputs", "fault_sequences"], "every exported function with an error result or error out-parameter, every path, every error variant",
 "Error paths need damaged files or failing I/O at a specific step; tests exercise success and one or two failures.",
 ["src/capi.rs", "src/capi/rawfile.rs", "src/capi/rawdata.rs", "src/capi/thumbnail.rs", "src/lib.rs"],
 [("or_error out-parameter writes", "src/capi/rawfile.rs"), ("conversion between Error and or_error", "src/capi.rs")])

prop("C06", "C API accessors report the object's own attributes",
 "A C API accessor reports the attribute it is named for of the object it is given: each dimension, rectangle coordinate, level, illuminant and matrix goes to its own result or out-parameter and is never exchanged with another, and a colour matrix or illuminant is the one of the index asked for. An array is reported with its own number of elements, a data size is the size in bytes of the buffer the data accessor of the same object returns, and nothing is copied into a caller's array unless the size the caller gave was checked against the number of values (a larger array being no error). Each C enumeration value is the counterpart of the library's value of the same name.",
 ["inputs"], "every exported accessor of a raw file, raw data, thumbnail, bitmap, mosaic information, IFD or metadata value, on every path",
 "The C tests read a handful of attributes of one or two objects whose dimensions are often equal or zero; an exchanged or mis-sized result shows for particular images and buffer sizes only.",
 ["src/capi/rawdata.rs", "src/capi/rawfile.rs", "src/capi/bitmap.rs", "src/capi/thumbnail.rs", "src/capi/mosaic.rs", "src/capi/metavalue.rs", "src/capi/ifd.rs", "src/capi.rs"],
 [("accessor functions", "src/capi/*.rs"), ("From conversions to C enumerations", "src/capi.rs, src/capi/*.rs"), ("caller-sized copies", "src/capi/rawfile.rs, src/capi/metavalue.rs")])

prop("M01", "Uninitialised memory never reaches a result",
 "No buffer or value that was allocated or sized without being initialised is ever read, returned, stored or handed to other code before every one of its bytes has been written. When the read that should fill it fails or falls short, the buffer is discarded and an error is reported.",
 ["inputs", "fault_sequences"], "every buffer sized without initialisation, on every path including failed and short reads",
 "Uninitialised contents look like plausible data; exposing them needs truncated files or failing reads, and even then the outcome varies run to run.",
 ["src/container.rs", "src/utils.rs", "src/tiff/entry.rs", "src/fujifilm/raf.rs", "src/decompress/tiled.rs"],
 [("uninit_vec! and Vec::set_len", "src/utils.rs and its users"), ("read_exact into the buffer", "src/container.rs, src/tiff/entry.rs, src/fujifilm/raf.rs")])

prop("M02", "Unsafe code never forges an invalid value or slice",
 "A number coming from a file or a C caller is turned into an enumeration value only when it is one of that enumeration's values. A raw view of memory as a slice covers exactly the memory of the object or the caller-provided buffer it is made from, with a compatible element type and within its lifetime.",
 ["inputs"], "every unchecked conversion, raw slice construction and unchecked access in the library",
 "An out-of-range discriminant or an overlong slice is undefined behaviour with no reliable symptom; it needs the one value outside the checked range.",
 ["src/tiff/exif.rs", "src/utils.rs", "src/capi/rawfile.rs", "src/tiff/entry.rs"],
 [("transmute to TagType guarded by a range test", "src/tiff/exif.rs"), ("slice::from_raw_parts views", "src/utils.rs, src/capi/rawfile.rs")])

prop("S01", "The library only reads: no side effects on the host",
 "Identifying, parsing, dumping, decoding and rendering a file have no effect outside the process's memory: the library never creates, writes, renames or deletes files, never spawns processes or opens network connections, never changes the environment, never terminates the process, and never prints to standard output or error on its own. Its results do not depend on the clock, the environment, random numbers or hash-iteration order.",
 ["inputs", "configurations", "histories"], "every function of the library crate, whatever input reaches it",
 "A stray side effect or environment dependence sits on one rarely taken path and does not change the value a test compares.",
 ["src/lib.rs", "src/rawfile.rs", "src/io.rs", "src/rawimage.rs", "src/dump.rs"],
 [("file access through File::open and Read/Seek only", "src/rawfile.rs, src/io.rs"), ("diagnostics through the log facade only", "whole crate"), ("dump output through the caller's writer only", "src/dump.rs")])

prop("S02", "Raw files are independent: no shared mutable state",
 "Two raw file objects never influence each other: the library keeps no global state that changes after its first initialisation, so the outcome for a file does not depend on which files were handled before or at the same time on other threads. Apart from the output buffer that one Fujifilm decoding call fills from parallel workers, no type holding unsynchronised interior state is declared shareable between threads.",
 ["schedules", "histories"], "every static item, thread-local and unsafe thread-safety declaration of the library",
 "Cross-talk needs particular sequences or races between files that a single-file test does not create.",
 ["src/rawfile.rs", "src/factory.rs", "src/identify.rs", "src/canon.rs", "src/nikon.rs"],
 [("statics are immutable or initialise-once", "whole crate"), ("interior mutability lives in per-file objects", "src/io.rs, src/canon/cr2.rs and siblings")])

prop("R01", "No file content can trigger a deliberate panic",
 "Whatever bytes a file contains, opening, identifying, listing, dumping, extracting and decoding it never runs into a deliberate panic: an absent tag, a failed or short read, an unsupported value, a lazily loaded part that failed to load, or an inconsistent structure is answered with an error, an absent value or a default. No such condition is merely assumed away by an unwrap, expect, assertion or unreachable marker.",
 ["inputs", "fault_sequences"], "every panicking construct in the library that is not statically impossible, on every path",
 "Each such construct needs its own malformed file; the tests have well-formed snippets only and the sample corpus is not part of the tree.",
 ["src/tiff/iterator.rs", "src/minolta.rs", "src/fujifilm/decompress.rs", "src/canon/cr2.rs", "src/dng.rs", "src/sony.rs", "src/mp4/container.rs", "src/container.rs", "src/io.rs"],
 [("lazy container/OnceCell access", "src/canon/cr2.rs and every other RawFileImpl"), ("Option/Result handling of tag reads", "src/tiff/*.rs and vendor modules"), ("Endian::Unset arms", "src/container.rs, src/io.rs, src/tiff/container.rs")])

prop("R02", "Fixed positions are read only in data known to be long enough",
 "Code that picks a fixed position or fixed range out of variable-length data coming from a file (tag values, maker-note blobs, white-balance and crop arrays, headers) first establishes that the data is at least that long. Data that is too short yields an error or an absent value, never an out-of-bounds access. A lookup by position that can report absence (a track, directory, matrix or metadata block) does so for every position outside what there is.",
 ["inputs"], "every fixed-position or fixed-range access to variable-length data in the library, on every path",
 "Only a file whose tag has fewer values than the camera normally writes reaches the failing access; no test carries such a file for each tag.",
 ["src/canon/cr2.rs", "src/canon/colour.rs", "src/nikon.rs", "src/sony.rs", "src/epson.rs", "src/dng.rs", "src/olympus.rs", "src/fujifilm.rs", "src/metadata.rs", "src/mp4/container.rs"],
 [("length tests before indexing tag arrays", "vendor modules"), ("slice/get accessors", "src/tiff/entry.rs, src/metadata.rs")])

prop("R03", "No division by a value a file can make zero",
 "Every integer division or remainder whose divisor is not a non-zero constant is performed only when the divisor has been established to be non-zero. A zero denominator, block size, sampling factor or width in a file leads to an error or a default, not to a crash.",
 ["inputs"], "every integer division and remainder in the library, on every path",
 "The divisor is non-zero in every genuine file; only a crafted value reaches the failing case.",
 ["src/tiff/entry.rs", "src/decompress/ljpeg.rs", "src/decompress/tiled.rs", "src/canon/crw/decompress.rs", "src/nikon.rs", "src/mosaic.rs"],
 [("guards before / and %", "whole crate")])

prop("R04", "Parsing and decoding always terminate",
 "Every loop and every recursion in the library is bounded whatever the file contains: it iterates over a finite collection, counts towards a bound that does not move, or consumes input on every turn and stops when input runs out. A chain of offsets, nested containers or nested blocks taken from the file cannot be followed for ever nor recurse without limit.",
 ["inputs"], "every loop and every cycle of the call graph of the library",
 "Only self-referential or deeply nested crafted files make a chain endless; tests have acyclic, shallow ones.",
 ["src/tiff/container.rs", "src/tiff/dir.rs", "src/canon/crw/ciff.rs", "src/decompress/ljpeg.rs", "src/mp4/parse/mod.rs", "src/jpeg/container.rs", "src/minolta.rs"],
 [("next-IFD chain", "src/tiff/container.rs"), ("nested heaps and boxes", "src/canon/crw/ciff.rs, src/mp4/parse/mod.rs"), ("marker and bit-stream loops", "src/decompress/*.rs")])

prop("R05", "A small file cannot demand a huge buffer",
 "The size of every buffer that is allocated in proportion to a count, length or dimension found in a file is first limited, either by the amount of data actually available or by a fixed bound; or it is allocated fallibly and the failure to allocate is passed on as an error. A forged length or dimension leads to an error rather than to an attempt to allocate an arbitrary amount of memory.",
 ["inputs"], "every allocation in the library whose size derives from file content",
 "Allocation sizes are sane in genuine files; only forged counts trigger the attempt, and tests would abort rather than fail.",
 ["src/container.rs", "src/tiff/entry.rs", "src/canon/crw/ciff.rs", "src/fujifilm/raf.rs", "src/tiff.rs", "src/decompress/tiled.rs"],
 [("length checks before Vec allocation", "src/container.rs, src/tiff/entry.rs"), ("fallible buffers in the MP4 parser", "src/mp4/parse/mod.rs")])

prop("R06", "Interior borrows never conflict at run time",
 "While a part of the library holds a run-time-checked mutable borrow of a shared view or cache, nothing it calls tries to borrow the same object again, and no lazily initialised part triggers its own initialisation again. Therefore no borrow ever panics, whatever order the accessors of a file are called in.",
 ["histories", "inputs"], "every run-time-checked borrow and lazy initialiser of the library and everything callable while it is held",
 "The conflict appears only when a particular accessor is first called from inside another; tests call accessors in one order.",
 ["src/container.rs", "src/tiff/container.rs", "src/canon/crw/ciff/container.rs", "src/mp4/container.rs", "src/minolta.rs", "src/fujifilm/raf.rs", "src/io.rs"],
 [("RefCell<View> borrow_view_mut", "src/container.rs and implementors"), ("OnceCell initialisers", "vendor modules")])

prop("R07", "I/O failures are never silently dropped",
 "When seeking in or reading from the file fails, the failure is passed on or makes the affected item absent: the library never carries on as if the operation had succeeded, and never uses the contents of a buffer a failed or short read was supposed to fill.",
 ["fault_sequences", "inputs"], "every call in the library that performs or forwards file I/O",
 "Needs an I/O error or truncation at one precise operation; ordinary test files read completely.",
 ["src/io.rs", "src/container.rs", "src/canon/crw.rs", "src/canon/crw/ciff.rs", "src/tiff/container.rs", "src/minolta.rs", "src/fujifilm/raf.rs", "src/nikon.rs"],
 [("? propagation on Read/Seek results", "whole crate"), ("read_exact rather than read", "whole crate")])

prop("R08", "Byte order is honoured consistently",
 "Wherever the library selects between byte orders, data declared big-endian is decoded with big-endian operations and data declared little-endian with little-endian operations, for every data type and in every decoder. The order applied is the one declared by the container or directory the data came from.",
 ["inputs"], "every place where a byte order decides how bytes are decoded",
 "Most samples and tests are little-endian; a swapped or constant branch for one type in one decoder passes them.",
 ["src/container.rs", "src/io.rs", "src/tiff.rs", "src/tiff/entry.rs", "src/tiff/exif.rs", "src/tiff/dir.rs", "src/tiff/container.rs", "src/minolta.rs"],
 [("match on Endian", "src/container.rs, src/io.rs, src/tiff/*.rs"), ("ByteOrder type parameters", "src/tiff/dir.rs, src/tiff/exif.rs")])

prop("T01", "File type tables agree with one another",
 "The tables that describe supported file types are mutually consistent: every type named by a file extension, a MIME type or content recognition has a decoder, and the decoder registered for a type reports that type or the format it is a variant of (GPR is DNG, NRW is NEF, RW is RW2, SR2 is ARW). Every raw format a decoder reports has a MIME type. Each extension (in lower case) and each MIME type names exactly one type, the MIME tables in the two directions agree, and mapping a type to its name and back returns the type.",
 ["inputs", "configurations"], "every file type, extension, MIME type and decoder registration",
 "Tests try a few extensions and formats; an inconsistent row only matters for that one format.",
 ["src/rawfile.rs", "src/factory.rs", "src/identify.rs", "src/mime.rs", "include/libopenraw/consts.h"],
 [("extension table", "src/identify.rs"), ("decoder registry", "src/factory.rs"), ("MIME tables", "src/mime.rs"), ("Type enumeration", "src/rawfile.rs")])

prop("T02", "Camera identities and per-camera tables are consistent",
 "Vendor numbers, and within a vendor the camera numbers, are unique unless one is declared as an alias of the other, and a camera or vendor that the public C header names has the same number there. A camera identity pairs a vendor with a camera of that vendor, and a vendor's tables refer only to its cameras (or brands it builds). No lookup table holds two different entries for the same key; in the tables from model names to cameras a name that is a camera's own never leads to another camera, and in the tables from model numbers to cameras no two numbers lead to the same camera; every camera with a built-in colour matrix can be identified, and every declared camera (numbers kept in reserve aside) is the identity some model name leads to.",
 ["inputs", "configurations"], "every camera identifier and every row of every per-camera table",
 "There are hundreds of cameras and no sample files in the tree; a wrong row affects one model.",
 ["src/camera_ids.rs", "include/libopenraw/cameraids.h", "src/canon.rs", "src/canon/matrices.rs", "src/nikon.rs", "src/nikon/matrices.rs", "src/sony.rs", "src/olympus.rs", "src/pentax.rs", "src/panasonic.rs", "src/fujifilm.rs"],
 [("identifier constants", "src/camera_ids.rs"), ("model-to-identifier maps and matrices", "vendor modules")])

prop("T03", "Tag value types are decoded with their TIFF size and kind",
 "For every TIFF value type, the size used to locate a value's data, the number of bytes consumed per element, the decoder applied and the kind of metadata value reported to the user are those the TIFF/Exif specification gives to that type. The same holds whichever accessor is used: single value, array, converted integer or metadata iteration.",
 ["inputs"], "every TIFF value type and every accessor of a tag's value",
 "Tests touch the common types; sizes and decoders for the rare types (signed, floating, rational) are never sampled.",
 ["src/tiff/exif.rs", "src/tiff/entry.rs", "src/tiff/iterator.rs", "src/tiff/dir.rs", "src/metadata.rs"],
 [("unit size table", "src/tiff/exif.rs"), ("typed value readers", "src/tiff/exif.rs, src/tiff/entry.rs"), ("metadata conversion", "src/tiff/iterator.rs")])

prop("T04", "Asking for raw data undecoded never decodes it",
 "When the caller asks for the raw data without decompression, no format's decoder runs any decompression of pixel data (unpacking fixed-width samples is not decompression), and the request reaches the decoder unchanged from every public entry point. When the caller asks for decompression, the request is not dropped on the way.",
 ["inputs", "configurations"], "every format's raw data loader and every entry point leading to it",
 "There are no sample raw files in the tree, so no test loads raw data from any format in either mode.",
 ["src/rawfile.rs", "src/capi/rawfile.rs", "src/capi.rs", "src/canon/cr2.rs", "src/canon/crw.rs", "src/nikon.rs", "src/olympus.rs", "src/panasonic.rs", "src/pentax.rs", "src/sony.rs", "src/fujifilm.rs", "src/dng.rs", "src/minolta.rs", "src/epson.rs", "src/tiff.rs"],
 [("skip_decompress parameter of load_rawdata", "src/rawfile.rs and every RawFileImpl"), ("option bit in the C API", "src/capi/rawfile.rs")])

prop("T05", "Image attributes are never crossed",
 "Widths, heights, horizontal and vertical positions, right and bottom edges, black and white levels, bits per sample, channel counts, and the offset and byte length of a piece of data keep their meaning from the tag they are read from to the image, tile or thumbnail they describe: none is ever stored, passed, combined or compared as another. In particular a crop or active area has the origin and the size its tags give in the format's order, a size made from two edges is the difference of the edges of one axis, rows are laid out with the stride of their image, a white balance divides each colour by its own level, and an accessor returns and a setter changes the attribute it is named for.",
 ["inputs", "configurations"], "every attribute of every image and thumbnail, for every format and file",
 "Exchanged attributes only show for images that are not square or have borders, in formats no test has a sample of.",
 ["src/rawimage.rs", "src/geometry.rs", "src/tiff.rs", "src/dng.rs", "src/sony.rs", "src/canon.rs", "src/canon/cr2.rs", "src/canon/cr3.rs", "src/canon/crw.rs", "src/nikon.rs", "src/pentax.rs", "src/olympus.rs", "src/panasonic.rs", "src/epson.rs", "src/fujifilm.rs", "src/minolta.rs", "src/decompress/tiled.rs", "src/thumbnail.rs"],
 [("image attributes", "src/rawimage.rs, src/geometry.rs"), ("where tags become attributes", "vendor modules, src/tiff.rs"), ("row and tile layout", "src/decompress/tiled.rs, src/nikon.rs")])

prop("T06", "Tag numbers, names and directories agree",
 "A tag is the same thing wherever it is read, named or written: every named tag constant has the number the specifications give that tag; the tables of names give each number its published name; a directory's entries are named from the table of its own kind of directory, under the namespace of that directory, each by its own tag; a sub-directory is opened from the tag that points to it; a maker note recognised by its signature gets the identifier, start and value base of that format; and entries made up for formats without TIFF metadata (CIFF) hold each setting under its own tag, in the directory and value type they declare.",
 ["inputs", "configurations"], "every tag, table, directory and maker note format, for every file",
 "A wrong number, name or base only shows for files that use that very tag or maker note; tests have samples of almost none.",
 ["src/tiff/exif/tags.rs", "src/tiff/exif/generated.rs", "src/tiff/dir.rs", "src/tiff/container.rs", "src/tiff/iterator.rs", "src/olympus.rs", "src/fujifilm/raf.rs", "src/panasonic.rs", "src/canon/crw/ciff.rs", "src/canon/crw/ciff/container.rs"],
 [("tag constants and name tables", "src/tiff/exif/tags.rs, src/tiff/exif/generated.rs"), ("maker notes and sub-directories", "src/tiff/dir.rs, src/olympus.rs"), ("entries made up", "src/canon/crw/ciff/container.rs")])

prop("N01", "Decoded sensor data equals the camera's data",
 "For every supported compressed or packed format, decoding yields exactly the sensor values the camera encoded, bit for bit, in the right row and column.",
 ["inputs"], "every conforming compressed stream", "Needs every possible stream of every codec; tests decode at most one tiny stream per codec.",
 ["src/decompress/ljpeg.rs", "src/olympus/decompress.rs", "src/panasonic/decompress.rs", "src/pentax/decompress.rs", "src/fujifilm/decompress.rs", "src/nikon/diffiterator.rs", "src/canon/crw/decompress.rs"],
 [("codec implementations", "src/decompress/*.rs and vendor decompress modules")])
prop("N02", "Rendering maps sensor values to the requested colours",
 "A rendered image has the dimensions of the active area and, for every pixel, the value obtained by black/white scaling, white balance, demosaicing and conversion to the requested colour space.",
 ["inputs"], "every image, option set and pixel", "A numeric specification over all images; tests compare one small image.",
 ["src/rawimage.rs", "src/render.rs", "src/render/demosaic.rs", "src/colour.rs"], [("rendering pipeline", "src/rawimage.rs, src/render/*.rs")])
prop("N03", "Thumbnail requests return the best available size",
 "A request for a thumbnail of a given size returns the smallest available thumbnail that is at least that large, or the largest one when all are smaller; listed sizes are those of the images actually stored.",
 ["inputs"], "every set of stored thumbnails and every requested size", "Depends on every combination of stored sizes and the request.",
 ["src/thumbnail.rs", "src/rawfile.rs", "src/tiff.rs"], [("thumbnail selection", "src/rawfile.rs")])
prop("N04", "Offset and size arithmetic never overflows",
 "No offset, length, count or pixel arithmetic on values from a file wraps around or is truncated in a way that changes which bytes are read.",
 ["inputs"], "every arithmetic operation on file-derived quantities", "Only extreme values overflow; genuine files have none.",
 ["src/tiff/entry.rs", "src/tiff/dir.rs", "src/container.rs", "src/io.rs", "src/canon/crw/ciff.rs", "src/mp4/parse/mod.rs"], [("offset arithmetic", "parsers")])
prop("N05", "Files of supported cameras are identified as such",
 "Every file written by a supported camera is recognised as its format and its make and model are mapped to that camera's identifier; other files are rejected.",
 ["inputs"], "every file of every supported camera", "Needs the content of real files of every camera.",
 ["src/identify.rs", "src/canon.rs", "src/nikon.rs", "src/sony.rs"], [("content identification and model maps", "src/identify.rs, vendor modules")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
