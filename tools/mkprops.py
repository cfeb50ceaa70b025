#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it can be reviewed as text)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A finished document is a complete PDF file with exact object offsets",
 "Finishing a document yields a header carrying the chosen version and binary marker, every object that was written (once, in order, unchanged), a cross-reference section located exactly by startxref, a trailer naming exactly the catalog, info dictionary and file identifier that were set, and the end-of-file marker. Every in-use cross-reference entry is the exact byte position at which that object's header begins. This holds for either way of writing the cross-reference section.",
 ["inputs","histories","configurations"],
 "every history of header settings, object writes (any ids, order and content, direct or from chunks) and every settings/capacity configuration, ended by any of the finishing calls",
 "The two tests in the crate root look at an empty file and two fixed id sets with one-line objects; offsets depend on the length of everything written before, on merged chunks and on the finishing variant.",
 ["src/lib.rs","src/chunk.rs"],
 [("header bytes written at construction and patched in place","src/lib.rs Pdf::with_settings_and_capacity, set_version, set_binary_marker"),("offset recorded when an indirect object starts","src/chunk.rs Chunk::indirect"),("offset rebasing when chunks are merged","src/chunk.rs Chunk::extend"),("trailer and startxref","src/lib.rs Pdf::finish, finish_with_xref_stream_inner, finish_trailer")],
 [("offsets","object id and byte position of every object written so far","src/chunk.rs Chunk::offsets"),("trailer data","catalog, info and file id","src/lib.rs TrailerData")],
 ["bytes returned by the finishing calls"])
p("C02","Cross-reference sections cover 0..Size with a well-formed free list",
 "For any set of distinct object numbers, the cross-reference section has exactly one entry for every number from 0 to the largest used one, with the declared size one larger than that number. Used numbers are marked in use with generation 0; all others are free and form a single chain that starts at object 0 (generation 65535), visits every free number exactly once and returns to 0. This holds for both the table (fixed 20-byte entries) and the stream form, whose fields are wide enough for every value stored.",
 ["inputs","histories"],
 "every set of distinct object numbers (dense, sparse, gaps of any length at any place, numbers far larger than the file) written in every order",
 "The tests sample two id sets in small files; the free-list successor computation depends on the shape of every gap and the field width on the relation between file size and largest number.",
 ["src/lib.rs"],
 [("free-list construction over sorted offsets","src/lib.rs write_offsets"),("fixed-width table entries","src/lib.rs PlainXRefWriter"),("field width choice and truncation to it","src/lib.rs determine_field_width, XRefStreamWriter::write")],
 None,["bytes returned by the finishing calls"])
p("C03","Cross-reference stream and table describe the same document",
 "Finishing the same document with a cross-reference stream instead of a table describes the same objects at the same offsets with the same free numbers, plus the cross-reference stream object itself, and the same catalog, info and identifier entries. The filter callback is called exactly once with the unfiltered entries, its output is stored verbatim, and the filter or filters it reports are declared in the order given. Decoding the stored data with those filters yields the entries again.",
 ["inputs","histories","configurations"],
 "every document, every id chosen for the cross-reference stream, every filter callback (none, one, several, empty list)",
 "Tests cover one small document per variant; agreement between the two encodings is a relation over all documents and filters.",
 ["src/lib.rs"],
 [("shared entry generation for both encodings","src/lib.rs write_offsets, XRefWriter"),("filter closure and declaration","src/lib.rs finish_with_xref_stream_inner, XRefFilter")],
 None,["bytes returned by the finishing calls, arguments seen by the filter callback"])
p("C04","Reused object numbers are always rejected, distinct ones never",
 "Finishing a document panics if and only if some object number was written more than once, and the message names a number that really was reused. This holds wherever the repetition came from: direct writes, merged or renumbered chunks, the catalog or info dictionary, or the number picked for the cross-reference stream.",
 ["histories","inputs"],
 "every history of object writes, chunk merges, renumberings and finishing calls, with zero, one or many repeated numbers at any positions",
 "No test exercises a repeated number at all; detection relies on the running free-list counter for every pattern of gaps and repetitions.",
 ["src/lib.rs","src/chunk.rs"],
 [("duplicate detection while writing entries","src/lib.rs write_offsets")],
 None,["panic or result of the finishing calls"])
p("C05","Numbers, booleans, null and references are written losslessly",
 "Reading back what was written for any 32-bit integer, finite 32-bit float, boolean, null or indirect reference gives exactly the value passed in (floats after rounding the decimal text to 32-bit precision). Every number is a plain PDF number token: optional sign, digits and at most one decimal point, never an exponent.",
 ["inputs"],
 "all 2^32 integers, all finite floats, all references, in every position (indirect object, array item, dictionary value, rectangle, content operand)",
 "About ten literals are tested; the code switches between integer, fast and extreme formatting paths on value ranges.",
 ["src/buf.rs","src/object.rs"],
 [("integer/float formatting selection","src/buf.rs push_int, push_float, push_decimal"),("reference formatting","src/object.rs impl Sealed for Ref")],
 None,["bytes of the written object"])
p("C06","Byte strings and names are written losslessly",
 "Any byte sequence written as a string or as a name is read back byte for byte by a conforming PDF parser, as one single token of the right kind, whatever comes before or after it. Characters that need quoting in a name or string never end the token early, start another one or get lost. Names consist of visible ASCII characters only and strings of ASCII, everything else being escaped, so that (as documented for the binary marker) a file can be kept ASCII-only.",
 ["inputs"],
 "all byte sequences including unbalanced and nested parentheses, backslashes, control and high bytes, delimiters, number signs, empty and very long sequences, in pretty and compact layout next to any other token",
 "A dozen literals are tested; escaping choices depend on the whole content (balance, ASCII-ness) and on neighbouring tokens.",
 ["src/object.rs","src/buf.rs"],
 [("string escaping and hex fallback","src/object.rs impl Sealed for Str, Str::is_balanced"),("name escaping","src/object.rs impl Sealed for Name, is_regular_character"),("padding between tokens","src/object.rs Obj::primitive, is_delimiter_character; src/content.rs Operation::drop")],
 None,["bytes of the written object"])
p("C07","Text strings, language-tagged text and dates decode to what was given",
 "Any Unicode text written as a text string decodes under PDF text-string rules to the same text, and text written with language identifiers decodes to the same sequence of languages and texts. Dates are written in the PDF date format with every field clamped to its documented range and cut off at the first missing field, so that reading the date back gives exactly the clamped fields.",
 ["inputs"],
 "all Unicode strings (without U+001B, which the format cannot escape), all language/region pairs, all combinations of present, absent and out-of-range date fields",
 "Tests sample a few strings and dates; encoding selection depends on every character and date output on every field combination.",
 ["src/object.rs"],
 [("encoding choice and UTF-16BE output","src/object.rs impl Sealed for TextStr, TextStrWithLang"),("date clamping and formatting","src/object.rs Date")],
 None,["bytes of the written object"])
p("C08","Nested arrays and dictionaries come out exactly as they were built",
 "Whatever nesting of arrays, dictionaries and primitive values is built, parsing the output yields exactly that structure: same items, same keys, same order, same depth, and the length reported by each open container equals the number of entries added so far. It makes no difference whether a builder is finished explicitly, dropped at the end of its scope, dropped while a panic unwinds, or used through its typed form.",
 ["programs","histories"],
 "all object trees (any depth and width, including beyond 127 levels, empty containers at any place) and all ways of ending each builder, in pretty and compact layout",
 "Tests write a handful of flat arrays and dictionaries; closing and padding is decided by drop order, indentation and the previously written byte.",
 ["src/object.rs","src/chunk.rs"],
 [("drop-based closing","src/object.rs impl Drop for Array, Dict"),("padding and indentation","src/object.rs Obj::primitive, Array::push, Dict::insert"),("typed wrappers","src/object.rs TypedArray, TypedDict")],
 [("len","items written so far","src/object.rs Array::len, Dict::len")],["bytes of the written objects, reported lengths"])
p("C09","Layout settings never change the meaning of the output",
 "The same sequence of calls made with pretty and with compact layout produces files, chunks and content streams that parse to identical objects, operators and operands. Compact files are never longer than pretty ones, and initial capacities, reservations and repeated runs do not change a single byte.",
 ["configurations","programs"],
 "all call sequences, each run under both layouts and under several capacities and reservation patterns",
 "Compact layout is exercised by a few fixed strings; its whitespace omission depends on every pair of adjacent tokens.",
 ["src/object.rs","src/content.rs","src/chunk.rs","src/lib.rs"],
 [("layout decisions","src/object.rs Obj::primitive, Array::push, Dict::insert; src/content.rs Operation::obj, Operation::drop"),("capacity handling","src/chunk.rs, src/content.rs constructors and reserve")],
 None,["bytes of chunks, content streams and files"])
p("C10","Stream data is stored verbatim with an exact length",
 "Every stream object holds exactly the bytes handed in, bracketed by the stream keywords, with a length entry equal to their number, and its dictionary holds exactly the entries added, in order. No content of the data (keywords, line ends, delimiters, object-like text, emptiness) changes this, for every kind of stream the library can write.",
 ["inputs","configurations"],
 "all byte sequences as data of plain streams and of every typed stream writer, in both layouts",
 "Tests use two short data strings; binary data containing keywords or line ends at the boundary is never tried.",
 ["src/object.rs","src/chunk.rs"],
 [("stream start and drop","src/object.rs Stream::start, impl Drop for Stream"),("typed stream constructors","src/chunk.rs")],
 None,["bytes of the written objects"])
p("C11","Merging chunks concatenates their objects without loss",
 "Extending a chunk or document by another chunk appends precisely the other chunk's bytes and object list, in order, leaving the source unchanged, so that splitting the same writes over any number of chunks and merging them gives the same document as writing them directly. Length, byte view and object list of a chunk always agree with what has been written, and a clone is independent of its original.",
 ["histories","programs"],
 "all ways of distributing objects over chunks, merging them in any nesting and order (including empty chunks, self-copies and repeated merges) and querying in between",
 "One test merges one chunk; offset rebasing has to be right for every nesting of merges.",
 ["src/chunk.rs","src/buf.rs","src/lib.rs"],
 [("extend with rebased offsets","src/chunk.rs Chunk::extend"),("buffer concatenation","src/buf.rs extend_buf"),("object list","src/chunk.rs Chunk::refs")],
 None,["Chunk::as_bytes, len, refs; bytes of the finished document"])
p("C12","Renumbering rewrites every object number and reference consistently",
 "Renumbering a chunk with a mapping replaces the number of every object and every indirect reference inside its objects by the mapped number, leaving the generation as it was, so that parsing the result equals parsing the source and applying the mapping. The mapping is consulted once for each object and once for each reference occurrence, in the order they appear.",
 ["inputs","programs","histories"],
 "all chunks the library can write (and any content in them), all mappings including non-injective, stateful, identity, growing and shrinking ones, repeated and composed renumberings",
 "One test with a fixed chunk exists; the textual scan has to be right for every adjacency of tokens, strings, names, comments and stream data.",
 ["src/renumber.rs","src/chunk.rs"],
 [("reference scan and validation","src/renumber.rs patch_object, validate_ref"),("object header parsing","src/renumber.rs extract_object")],
 None,["Chunk::as_bytes and refs of the result; calls seen by the mapping"])
p("C13","Renumbering leaves everything that is not a reference untouched",
 "Strings, names, hexadecimal strings, numbers and stream data pass through renumbering byte for byte, even when they contain text that looks like references, object headers, keywords or comments. What the target chunk already held stays unchanged, the renumbered objects are appended with a correct object list, and the source is not modified; renumbering with the identity mapping is a byte-for-byte copy when the layouts agree.",
 ["inputs","histories"],
 "all chunks with adversarial string, name and stream content, any previous content of the target, both layouts",
 "One fixed chunk is tested; skipping of strings and streams is a hand-written scan that must be right for all content.",
 ["src/renumber.rs","src/chunk.rs"],
 [("skipping strings, comments and streams","src/renumber.rs patch_object, validate_stream"),("target bookkeeping","src/renumber.rs renumber")],
 None,["Chunk::as_bytes and refs of source and target"])
p("C14","Content streams contain exactly the operations issued, in order",
 "Parsing a finished content stream yields exactly the sequence of operations issued, each with the operator the method stands for and exactly the operands given, in order, for every operator method and for custom operators. The reported state nesting depth always equals saves minus restores, never below zero, and the byte view and length agree with the stream as it grows.",
 ["programs","inputs","configurations"],
 "all sequences of operator calls with all finite operands, strings, names and property lists, in pretty and compact layout",
 "Four short fixed streams are tested; roughly sixty operators with arbitrary operands in arbitrary adjacency are not.",
 ["src/content.rs","src/object.rs"],
 [("operation writer","src/content.rs Operation::obj, Operation::drop"),("operator methods","src/content.rs impl Content"),("nesting depth","src/content.rs save_state, restore_state")],
 [("q_depth","current nesting depth","src/content.rs Content::q_depth")],["Content::as_bytes, len, state_nesting_depth, finish"])
p("C15","Reported limits are the true maxima of what was written",
 "The limits reported for a chunk or content stream are the largest integer and real magnitudes, the longest name and string, the largest array and the largest dictionary actually written, and never understate any of them (a magnitude the reporting type cannot hold is reported as the largest it can). Merging limits, extending and renumbering give the fieldwise maximum of everything involved.",
 ["inputs","histories"],
 "all sequences of writes of every value kind (including extreme integers, non-ASCII text, dates and streams), merges, extensions and renumberings",
 "Two tests compare limits for two small samples; extremes such as the smallest integer and re-encoded text are not covered.",
 ["src/buf.rs","src/object.rs","src/chunk.rs","src/renumber.rs"],
 [("registration at each write","src/buf.rs register_*; callers in src/object.rs"),("merging","src/buf.rs Limits::merge, src/chunk.rs merge_limits, extend")],
 [("limits","running maxima","src/buf.rs Limits")],["Chunk::limits, Buf::limits"])
p("C16","Unicode character maps decode to exactly the mappings added",
 "A to-Unicode character map lists exactly the glyph-to-text pairs added, in order, each with the right glyph code width and UTF-16BE text, and declares the matching codespace, the given name and system info and the write mode. Mapping blocks announce their true number of entries and never exceed 100.",
 ["inputs","histories"],
 "all sequences of pair and multi-character insertions for one- and two-byte glyph ids, any number of mappings around and beyond block boundaries, any scalar values",
 "No test covers character maps; block flushing depends on the number of mappings modulo 100 and the interleaving of insertion kinds.",
 ["src/font.rs"],
 [("block buffering and flushing","src/font.rs UnicodeCmap"),("glyph width","src/font.rs GlyphId")],
 [("count","mappings in the open block","src/font.rs UnicodeCmap::count")],["bytes returned by UnicodeCmap::finish"])
p("C17","Calculator functions encode exactly the program given",
 "Encoding a calculator program yields one braced procedure whose tokens are exactly the operators and literals given, in order, with nested conditional blocks correctly braced. Integer literals stay integers, real literals stay reals with the same 32-bit value and a decimal point, and executing the encoded text gives the result the program defines.",
 ["programs","inputs"],
 "all operator sequences with arbitrarily nested conditionals and all finite literals",
 "One fixed program is tested; number formatting extremes and nesting combinations are not.",
 ["src/functions.rs","src/buf.rs"],
 [("program encoding","src/functions.rs PostScriptOp::encode, write"),("forced decimal point","src/buf.rs push_decimal")],
 None,["bytes returned by PostScriptOp::encode"])
p("C18","Document-structure writers emit the documented entries",
 "Every method of the catalog, page tree, page, outline, destination, name and number tree, page label, viewer preference, document info and metadata writers emits exactly the dictionary entry it documents, with exactly the value given, in the documented shape, and nothing else. Type and subtype entries required by the format are always present.",
 ["inputs","programs"],
 "every method with every argument value, in every combination and nesting, in both layouts",
 "Only annotations and a few structure writers have tests; a wrong key or value in any other method passes the suite.",
 ["src/structure.rs","src/object.rs","src/chunk.rs"],
 [("document-structure writers","src/structure.rs"),("name and number trees","src/object.rs NameTree, NumberTree")],
 None,["bytes of the written objects"])
p("C19","Interactive writers (annotations, actions, forms, media) are faithful",
 "Every method of the annotation, action, form field, signature, rendition and file specification writers emits exactly the dictionary entry it documents, with exactly the value given, in the documented shape, and nothing else. Type and subtype entries required by the format are always present.",
 ["inputs","programs"],
 "every method with every argument value, in every combination and nesting, in both layouts",
 "Tests cover three annotation samples; actions, forms, signatures and renditions have none.",
 ["src/annotations.rs","src/actions.rs","src/forms.rs","src/renditions.rs","src/files.rs"],
 [("annotation and border/appearance writers","src/annotations.rs"),("actions and additional actions","src/actions.rs"),("forms and signatures","src/forms.rs"),("renditions and file specs","src/renditions.rs, src/files.rs")],
 None,["bytes of the written objects"])
p("C20","Font writers emit the documented entries, widths and encodings",
 "Every method of the simple, composite, descriptor, encoding, width and character-map dictionary writers emits exactly the entry it documents with exactly the value given. Width and encoding-difference arrays contain exactly the runs that were added, in order, with their starting codes.",
 ["inputs","programs"],
 "every method with every argument value, in every combination and nesting (including empty runs), in both layouts",
 "One fixed CID width and descriptor sample exists; the remaining methods are untested.",
 ["src/font.rs"],
 [("font dictionaries","src/font.rs Type1Font, Type3Font, Type0Font, CidFont, FontDescriptor"),("runs","src/font.rs Differences, Widths")],
 None,["bytes of the written objects"])
p("C21","Color, pattern, function, XObject and graphics-state writers are faithful",
 "Every method of the color space, shading, pattern, function, image and form XObject, group, soft mask, graphics state, resource, decode-parameter, output-intent and transition writers emits exactly the entry, array or stream it documents with exactly the values given, in the documented shape. Type and subtype entries required by the format are always present.",
 ["inputs","programs"],
 "every method with every argument value, in every combination and nesting, in both layouts",
 "Tests cover a DeviceN sample and one form; most methods are never called by a test.",
 ["src/color.rs","src/functions.rs","src/xobject.rs","src/content.rs","src/transitions.rs","src/object.rs"],
 [("color spaces, shadings, patterns, output intents","src/color.rs"),("functions","src/functions.rs"),("XObjects","src/xobject.rs"),("graphics state and resources","src/content.rs"),("transitions","src/transitions.rs"),("decode parameters","src/object.rs DecodeParms")],
 None,["bytes of the written objects"])
p("C22","Tagged-PDF writers emit the documented entries",
 "Every method of the structure tree, structure element, marked-content reference, role map, class map, namespace and structure attribute writers emits exactly the entry it documents, with exactly the value given, in the documented shape, and nothing else. Each attribute dictionary names its owner, and children lists contain exactly the children added, in order.",
 ["inputs","programs"],
 "every method with every argument value, in every combination and nesting, in both layouts",
 "Tests cover role conversions only; the attribute writers have no tests.",
 ["src/structure.rs","src/attributes.rs"],
 [("structure tree","src/structure.rs StructTreeRoot, StructElement, StructChildren, RoleMap, Namespace"),("attributes","src/attributes.rs")],
 None,["bytes of the written objects"])
p("C23","Enumerated options and flags map to the values the PDF standard assigns",
 "Every enumerated option accepted by the library is written as the name or number the PDF standard assigns to it, in every place it can be written, and distinct options never collapse into the same value. Flag sets are written as the sum of the bit positions the standard assigns. The default of an option that has one is the value the standard lets apply when the entry is absent.",
 ["inputs"],
 "every option of every enumeration, every flag and flag combination, at every method that accepts it",
 "A handful of options occur in tests; the others could be swapped or misspelt unnoticed.",
 ["src/structure.rs","src/annotations.rs","src/forms.rs","src/font.rs","src/content.rs","src/color.rs","src/attributes.rs","src/actions.rs","src/transitions.rs","src/object.rs","src/renditions.rs","src/files.rs","src/xobject.rs","src/functions.rs"],
 [("conversion of each enumeration to a name or integer","to_name/to_int functions across src"),("flag definitions","bitflags definitions in src/annotations.rs, src/actions.rs, src/forms.rs, src/font.rs, src/structure.rs")],
 None,["bytes of the written objects"])
p("C24","Structure roles keep their names and meaning across standard versions",
 "Each standard structure role is written under its standard name; converting a role to the newer standard keeps every role that standard still has under the same name and either maps a retired role as the options say or reports that it has no counterpart. Role classifications (block, inline, grouping and so on) are consistent between a role and its converted form.",
 ["inputs"],
 "every role of both standards, every heading level, every combination of conversion options",
 "Tests check a few conversions; the tables have about a hundred rows.",
 ["src/structure.rs"],
 [("role tables and conversion","src/structure.rs StructRole, StructRole2, StructRole2Compat, RoleMapOpts")],
 None,["role names written, results of the conversion functions"])
p("C25","Documented argument checks reject exactly the invalid values",
 "Every documented argument restriction (object numbers, line width, flatness, colour component counts, bit depths, pattern steps, page-mode and outline-count restrictions, separation and DeviceN ordering) panics for every value outside the documented domain and accepts every value inside it. A rejected call leaves no partial entry behind that a later read would see as valid data.",
 ["inputs"],
 "all argument values on both sides of each documented boundary, including extremes and non-numbers",
 "No test calls any of these methods with an invalid value.",
 ["src/object.rs","src/content.rs","src/color.rs","src/structure.rs"],
 [("explicit assertions","src/object.rs Ref::new, DecodeParms; src/content.rs set_line_width, set_flatness; src/color.rs IccProfile::n, TilingPattern, Separation, DeviceN; src/structure.rs Outline::count, ViewerPreferences")],
 None,["panic or bytes written"])
p("C26","No accepted call sequence panics, overflows or touches invalid memory",
 "For every sequence of calls with arguments inside their documented domains, including extreme values, very deep nesting and very large inputs, no call panics, overflows an integer, aborts or performs undefined behaviour. Output stays parseable throughout.",
 ["programs","inputs","histories"],
 "all call sequences over the public interface, built with arithmetic checks, and under memory and undefined-behaviour checking",
 "Tests use small, well-behaved values; extremes such as the smallest integer, thousands of nesting levels and repeated state restores are not tried.",
 ["src/buf.rs","src/object.rs","src/content.rs","src/chunk.rs","src/lib.rs","src/renumber.rs","src/font.rs","src/functions.rs"],
 [("checked and saturating arithmetic","src/object.rs indent, src/content.rs q_depth, src/buf.rs limits"),("unsafe code forbidden","src/lib.rs")],
 None,["sanitizer, interpreter and overflow-check reports; panics"])
p("C27","Builders on different threads never influence each other",
 "Building chunks, content streams, character maps and documents concurrently on several threads, and reading, cloning, merging or renumbering a finished chunk from several threads at once, gives byte for byte the results of doing the same work sequentially. No interleaving produces a race, a deadlock or a different result.",
 ["schedules","programs"],
 "all interleavings of independent builders and of shared read-only chunks",
 "All tests are single threaded and build one thing at a time.",
 ["src/chunk.rs","src/buf.rs","src/content.rs","src/lib.rs"],
 [("no shared mutable state; builders own their buffers","src/buf.rs Buf, src/chunk.rs Chunk, src/content.rs Content")],
 None,["bytes produced on each thread; race detector reports"])
p("C28","The same calls write the same bytes in every build and on every platform",
 "What a sequence of calls writes depends on the calls alone: a debug, release or size-optimized build, 32-bit or 64-bit words and either byte order give the same bytes, the same recorded limits and the same refusals (a documented panic happens in every build). Nothing that is written relies on a debug assertion, on overflow checks, on the width of usize or on the order of bytes in memory.",
 ["programs","configurations"],
 "all programs on every build profile and target",
 "The tests run in one profile on one platform.",
 ["src/object.rs","src/buf.rs","src/lib.rs","src/content.rs","src/functions.rs","src/structure.rs"],
 [("debug assertions and overflow checks never change what is written","src/buf.rs, src/object.rs"),("offsets are written most significant byte first, as u64","src/lib.rs XRefStreamWriter::write")],
 None,["bytes, limits and panics of the same program in another profile or under another target"])
p("C29","Time and memory stay proportional to what is written",
 "Building, merging, renumbering and finishing take CPU time, allocations and memory in proportion to the size of the input and output (up to a logarithmic factor), however many objects, items, mappings, operations or bytes there are, in whatever order and however special the data. Nothing is kept in memory after the builders and their results are dropped.",
 ["programs","inputs"],
 "all programs, as their size grows",
 "The tests are tiny and do not look at cost.",
 ["src/buf.rs","src/chunk.rs","src/object.rs","src/lib.rs","src/renumber.rs","src/font.rs","src/content.rs"],
 [("the free list and the table are written in one pass over the sorted objects","src/lib.rs write_offsets"),("renumbering scans each object once","src/renumber.rs"),("balance of parentheses is decided once per string","src/object.rs Str")],
 None,["CPU time of the thread, bytes requested from the allocator, peak and remaining memory at several sizes"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
