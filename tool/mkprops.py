"""Source of /verif/properties.jsonl (run: python3 tool/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          **({"observe_at": observe} if observe else {})}})
S = "src/geoarrow/"
prop("M01", "WKB decoding never reads outside the supplied bytes",
     "For every byte buffer whatsoever, decoding it as WKB (through the C reader or the C++ parser) reads only bytes inside the buffer, and every coordinate sequence it hands out lies entirely inside the buffer. A buffer that is too short for what its headers announce is rejected with an error.",
     ["inputs"], "every byte string of every length, including lying counts, truncation at every position and nested collections",
     "Tests decode a few hundred well-formed blobs plus a handful of truncations; an out-of-bounds read needs a specific lying count and is silent without a sanitizer.",
     [S+"wkb_reader.c", S+"hpp/wkb_util.hpp"],
     [("remaining-size checks before each read; cursor and remaining size advanced together", S+"wkb_reader.c: WKBReaderReadEndian/ReadUInt32/ReadNodeCoordinates"),
      ("CheckRemaining/Advance", S+"hpp/wkb_util.hpp: WKBParser")],
     ["GeoArrowWKBReaderRead", "GeoArrowWKBReaderVisit", "WKBParser::Parse"],
     [("cursor data/size pair", "pointer to the next unread byte and the number of bytes left", S+"wkb_reader.c: struct WKBReaderPrivate")])
prop("M02", "WKT and metadata parsing never reads outside the supplied text",
     "For every string view, with or without a terminating NUL and of any length including zero, parsing it as WKT or as extension metadata JSON, or unescaping a CRS from it, reads only characters inside the view and never lets its remaining length become negative. Text that ends early is rejected with an error or treated as ended, never read past.",
     ["inputs"], "every text of every length, cut at every position, with arbitrary bytes",
     "Tests only use complete literals stored in NUL-terminated memory, where reading one byte too far returns the terminator and looks correct.",
     [S+"wkt_reader.c", S+"metadata.c"],
     [("peek/skip/advance helpers guarded by the remaining size", S+"wkt_reader.c"), ("ParseChar/FindString/FindNumber/FindBool/FindNull/FindList/FindObject", S+"metadata.c")],
     ["GeoArrowWKTReaderVisit", "GeoArrowMetadataViewInit", "GeoArrowUnescapeCrs"],
     [("cursor data/size pair", "next unread character and number of characters left", S+"wkt_reader.c, "+S+"metadata.c")])
prop("M03", "Output is never written beyond the capacity made available for it",
     "Whenever the library appends to a growing output buffer or fills a caller-supplied one, the bytes stored never exceed the space that was reserved or declared beforehand, for every input geometry, precision, dimension and metadata value. If not enough space can be made available the call fails or reports the size needed instead of writing.",
     ["inputs"], "every geometry, number of coordinates, precision setting, metadata and output size",
     "An overrun only shows when the particular buffer is exactly full, which depends on the growth history; tests reach a few sizes.",
     [S+"wkb_writer.c", S+"wkt_writer.c", S+"builder.c", S+"native_writer.c", S+"metadata.c", S+"geoarrow_type_inline.h", S+"double_print.c"],
     [("reserve calls dominate the unsafe appends", S+"wkb_writer.c, "+S+"wkt_writer.c, "+S+"native_writer.c"), ("capacity checks before unsafe appends", S+"geoarrow_type_inline.h"), ("declared size checked before each store", S+"metadata.c: GeoArrowMetadataSerialize, GeoArrowUnescapeCrs")],
     ["writers' output buffers", "GeoArrowBuilderAppend*", "GeoArrowMetadataSerialize"])
prop("M04", "Fixed-size bookkeeping is never indexed beyond its capacity",
     "Per-nesting-level counters, per-dimension pointer tables, per-type lookup tables and buffer tables have a fixed capacity, and no input (any nesting depth, dimension value, geometry type value or callback order) makes the library index them outside it. Input that would need more levels than supported is rejected with an error.",
     ["inputs", "histories"], "every nesting depth, every order of visitor calls, every dimension and type value",
     "Depths just around the capacity, or callbacks in an unexpected order, are not sampled by tests and an off-by-one store silently corrupts a neighbour field.",
     [S+"wkb_writer.c", S+"wkt_writer.c", S+"geometry.c", S+"array_view.c", S+"builder.c", S+"native_writer.c", S+"kernel.c"],
     [("level guard before the array store", S+"wkb_writer.c: geom_start_wkb; "+S+"wkt_writer.c: geom_start_wkt; "+S+"geometry.c: geom_start_geometry")],
     ["visitor callbacks", "writers"],
     [("level", "current nesting depth", "writer private structs")])
prop("M05", "Recursion depth is bounded and every parsing loop makes progress",
     "No input makes the library recurse without a depth limit or loop forever: in the WKT, WKB (C reader and C++ WKBParser) and metadata parsers, the visitor traversals, writers, builders and kernels, each call on a finite input returns after finitely many steps with bounded stack use. Every loop consumes input or moves a counter towards a limit it does not change, without wrapping before it gets there; every recursion counts its depth and is refused beyond a fixed limit, so that deeper nesting than supported yields an error. (Loops inside the bundled nanoarrow and callbacks that re-enter the library are out of scope.)",
     ["inputs"], "every input text, blob, geometry view and array",
     "Stack exhaustion needs adversarially deep nesting and non-termination a specific malformed byte; neither occurs among the sampled inputs.",
     [S+"wkt_reader.c", S+"wkb_reader.c", S+"metadata.c", S+"geometry.c", S+"hpp/wkb_util.hpp"],
     [("depth counter checked in each recursive cycle", S+"wkt_reader.c, "+S+"wkb_reader.c, "+S+"geometry.c"), ("each loop iteration advances a cursor or counter towards its bound", "all parsers")],
     ["GeoArrowWKTReaderVisit", "GeoArrowWKBReaderRead", "GeoArrowMetadataViewInit", "GeoArrowGeometryViewVisit"])
prop("M06", "Imported schemas and arrays are validated before they are dereferenced",
     "When a schema or array produced elsewhere is attached, the number of children and the number of buffers are checked against what the type requires before any child or buffer entry is accessed, at every nesting level and for every supported type; a mismatch gives an error.",
     ["inputs"], "every combination of type, child count and buffer count, at each nesting level",
     "Tests attach a few wrong arrays; each missing check is a wild pointer read for one type and level only.",
     [S+"array_view.c", S+"schema_view.c", S+"array_reader.c", S+"kernel.c"],
     [("n_children/n_buffers comparisons that return EINVAL", S+"array_view.c: GeoArrowArrayViewSetArray*"), ("child count and format checks", S+"schema_view.c: ParseNested/ParsePoint/ParseBox")],
     ["GeoArrowArrayViewSetArray", "GeoArrowSchemaViewInit"])
prop("M07", "Serialized values are read at any alignment and in the stated byte order",
     "Multi-byte integers and coordinates inside serialized input are never accessed through a pointer that assumes alignment, and each one read from WKB is byte-swapped exactly when the blob's declared byte order differs from the machine's. What the WKB writer emits carries the byte-order mark of the bytes it writes.",
     ["inputs", "configurations"], "every placement of a blob in memory and both declared byte orders, on hosts of either endianness",
     "The test host tolerates unaligned loads and is little-endian, so an aligned-only access or a missing swap on one path is invisible.",
     [S+"wkb_reader.c", S+"wkb_writer.c", S+"geoarrow_type_inline.h", S+"geometry.c", S+"hpp/wkb_util.hpp", S+"hpp/array_util.hpp"],
     [("memcpy based loads", S+"wkb_reader.c, "+S+"geometry.c"), ("swap flag derived from the endian byte", S+"wkb_reader.c: WKBReaderReadUInt32, WKBReaderReadNodeCoordinates"), ("swap on flag when coordinates are consumed", S+"geometry.c, "+S+"geoarrow_type_inline.h")],
     ["GeoArrowWKBReaderRead", "GeoArrowGeometryViewVisit", "GeoArrowWKBWriterFinish"])
prop("E01", "A failing step makes the whole operation fail",
     "If any internal step, allocation helper or visitor callback invoked during a library operation reports an error code, the operation stops treating that step as done and itself returns a non-zero code, on every path. An operation that has recorded an error message never returns success.",
     ["fault_sequences", "inputs"], "every position at which a callee, allocator helper or visitor callback can fail",
     "Failure of most steps (allocation, a callback on the n-th item) is never triggered in tests, so ignoring the result changes nothing they see.",
     [S+f for f in ["array_reader.c","array_view.c","array_writer.c","builder.c","geometry.c","kernel.c","metadata.c","native_writer.c","schema.c","schema_view.c","visitor.c","wkb_reader.c","wkb_writer.c","wkt_reader.c","wkt_writer.c"]],
     [("NANOARROW_RETURN_NOT_OK / GEOARROW_RETURN_NOT_OK / explicit propagation", "all C sources")],
     ["return code of every public function and visitor callback"])
prop("E02", "Memory exhaustion is reported and never dereferenced",
     "Whenever an allocation can return nothing, the result is checked before it is used and the operation returns an error (or, for C++ wrappers, throws) instead of accessing it. A failed growth keeps the old block reachable so that it can still be released.",
     ["fault_sequences"], "failure of every single allocation call",
     "Tests never make an allocation fail.",
     [S+f for f in ["array_reader.c","array_writer.c","builder.c","geometry.c","kernel.c","native_writer.c","schema.c","scalar_udf.c","wkb_reader.c","wkb_writer.c","wkt_reader.c","wkt_writer.c","hpp/geometry_data_type.hpp"]],
     [("NULL checks after ArrowMalloc/ArrowRealloc/malloc", "init functions")],
     ["*Init functions", "GeoArrowGeometryResizeNodes"])
prop("R01", "No path leaks or doubly frees what an operation acquired",
     "On every path through a library call, including each failing one, memory, arrays, schemas and nested readers or writers acquired during the call are either released exactly once or stored in an object whose reset or release function will release them. Failed initialisation leaves nothing behind that the caller would have to free.",
     ["fault_sequences", "histories"], "every exit of every function that acquires a resource, for every failing step",
     "Leak checks in tests only see the success path and one or two simple errors.",
     [S+f for f in ["array_reader.c","array_writer.c","builder.c","geometry.c","kernel.c","native_writer.c","schema.c","scalar_udf.c","wkb_reader.c","wkb_writer.c","wkt_reader.c","wkt_writer.c"]],
     [("release/ArrowFree on each error exit; reset functions release every owned member", "init/reset pairs")],
     ["*Init", "*Reset", "*Finish", "kernel callbacks"])
prop("R02", "Released and reset objects are marked as released",
     "After its release or reset entry point has run, an object's own marker (the release callback for kernels, UDFs, schemas and arrays; the private-data pointer for readers, writers and builders) is cleared on every path, so that owners which test the marker never release twice.",
     ["histories"], "every order of release/reset calls by owning wrappers, on every object kind",
     "A second release is not exercised by the tests because it is undefined behaviour when the marker is stale.",
     [S+f for f in ["array_reader.c","array_writer.c","builder.c","geometry.c","kernel.c","native_writer.c","scalar_udf.c","wkb_reader.c","wkb_writer.c","wkt_reader.c","wkt_writer.c"]],
     [("marker = NULL after freeing", "release callbacks and *Reset functions")],
     ["GeoArrowKernel.release", "GeoArrow*Reset"])
prop("V01", "Readers drive visitors with well-nested, complete call sequences",
     "Every producer of visitor calls (array, WKB, WKT and geometry traversal) opens and closes features, geometries and rings in properly nested pairs: on each successful path every start has exactly its matching end, rings occur only inside a geometry, and coordinates or nulls only inside a feature. After a callback reports an error no further callback is issued by that producer for the feature.",
     ["inputs", "histories"], "every input and every position at which a callback may stop the traversal",
     "Tests compare outputs for some geometries; unbalanced calls on an unusual shape (empty ring, null row, nested empty) or a call after an error are not sampled.",
     [S+"array_view.c", S+"wkb_reader.c", S+"wkt_reader.c", S+"geometry.c", S+"array_reader.c", S+"kernel.c"],
     [("paired feat/geom/ring start and end calls", "visit functions")],
     ["GeoArrowVisitor callbacks"])
prop("V02", "Every visitor initialiser installs the complete callback set",
     "Whatever a visitor structure held before, each function that initialises one for a consumer sets each of the eight slots to a function made for that slot, connects the visitor to private data of the type those functions expect, and leaves the caller's error slot untouched.",
     ["histories", "configurations"], "every consumer kind and every geometry type selected, on visitors with arbitrary previous contents",
     "Tests re-use freshly zeroed visitors and only call the callbacks their geometry needs.",
     [S+f for f in ["visitor.c","wkb_writer.c","wkt_writer.c","native_writer.c","geometry.c","kernel.c","array_writer.c"]],
     [("GeoArrowVisitorInitVoid followed by overrides", "*InitVisitor functions")],
     ["GeoArrow*InitVisitor"])
prop("V03", "Writers account for every feature exactly once",
     "For every sequence of features, null or not, each writer (native via visitor or append, WKT, WKB via visitor or append, the box kernel) adds exactly one element per accepted feature: length, the offsets of every list level, coordinates and validity bits advance together; nulls are marked invalid and counted; once a null has been seen every later feature also gets its validity bit; and nothing of one feature (coordinates, rings, nesting level, null mark, also of one that was abandoned) carries over into the next. The WKT element size limit applies to every element. Finishing hands over exactly these totals and buffers and starts the next array from zero. Kernels visit each row of a batch exactly once and end the feature of a row whose visit stopped early.",
     ["histories", "inputs"], "every interleaving of null and non-null features and repeated finish",
     "Only a few null positions are tested, and re-use of a writer after finish hardly at all.",
     [S+"wkb_writer.c", S+"wkt_writer.c", S+"native_writer.c", S+"kernel.c"],
     [("feat_start/null_feat/feat_end bookkeeping", "writers"), ("finish resets counters", "*WriterFinish")],
     ["GeoArrowWKBWriterFinish", "GeoArrowWKTWriterFinish", "GeoArrowNativeWriterFinish"],
     [("length / null_count / validity bitmap", "rows seen, nulls seen, per-row flags", "writer private structs")])
prop("T01", "Type identifiers decompose and recompose consistently",
     "For every type identifier, geometry type, dimension and coordinate layout: composing a type from its parts and taking the parts back gives the same parts; a combination with an unknown part gives the uninitialised type, and one that has no identifier never gives another valid identifier; parts of serialized types are the documented ones; and C, C++ trait and Python views of the identifiers agree.",
     ["inputs", "configurations"], "all combinations of enum values (a finite domain, checked exhaustively)",
     "Tests check a sample of combinations by hand.",
     [S+"geoarrow_type.h", S+"geoarrow_type_inline.h", S+"hpp/geometry_type_traits.hpp", "python/geoarrow-c/src/geoarrow/c/_lib.pyx"],
     [("arithmetic encoding and switch tables", S+"geoarrow_type_inline.h"), ("TypeTraits", S+"hpp/geometry_type_traits.hpp")],
     ["GeoArrowMakeType", "GeoArrow*FromType"])
prop("T02", "Names and codes are the same in both directions",
     "Every table that turns an identifier into text or a wire code agrees with the code that recognises that text or code: extension names, WKT keywords and dimension suffixes, WKB geometry and dimension codes, edge and CRS type names, storage formats, child names and child nullability written into schemas (the columns inside a geometry column are declared non-nullable). What the library emits it also accepts, as the same identifier, and distinct identifiers never share a name. A name is recognised by its whole text, not by a prefix of it.",
     ["inputs", "configurations"], "every identifier of every table (finite, enumerated from the source)",
     "Round trips are tested for some entries; a divergence in one entry of one direction needs that particular type and dimension.",
     [S+"schema.c", S+"schema_view.c", S+"metadata.c", S+"wkb_reader.c", S+"wkb_writer.c", S+"wkt_reader.c", S+"wkt_writer.c", S+"geoarrow_type_inline.h"],
     [("switch/if tables of literals", "schema.c, schema_view.c, metadata.c, wkt/wkb reader and writer")],
     ["GeoArrowSchemaInitExtension vs GeoArrowSchemaViewInit", "GeoArrowMetadataSerialize vs GeoArrowMetadataViewInit"])
prop("T03", "Changing dimensions keeps each ordinate in its role or fills it with NaN",
     "For every pair of source and destination dimensions, copying coordinates places X, Y, Z and M values into the destination's X, Y, Z and M positions respectively; ordinates absent from the source become NaN (also when the source is byte-swapped) and ordinates absent from the destination are dropped, never relabelled. The C++ coordinate casts, vertex and edge visits and coordinate sequences do the same, and the native writer copies with the dimensions last announced to it.",
     ["inputs", "configurations"], "all source/destination dimension pairs (a finite domain, checked exhaustively)",
     "Only some of the sixteen combinations are tested per consumer.",
     [S+"geoarrow_type_inline.h", S+"native_writer.c", S+"hpp/array_util.hpp"],
     [("GeoArrowMapDimensions", S+"geoarrow_type_inline.h"), ("CoordCast", S+"hpp/array_util.hpp")],
     ["GeoArrowMapDimensions", "GeoArrowCoordViewCopy", "CoordCast"])
prop("N01", "Sizes that do not fit the output's offset width are refused",
     "Element and list offsets stored in 32-bit output, and counts stored in 32-bit WKB fields, are never silently truncated or wrapped: a total that does not fit is reported as an error before the array is handed out. Products of attacker-controlled counts used as byte sizes are formed without wrapping.",
     ["inputs", "histories"], "every accumulated size, including those above 2^31 and 2^32",
     "Reaching the limits needs gigabytes of input.",
     [S+"wkb_writer.c", S+"wkt_writer.c", S+"native_writer.c", S+"wkb_reader.c", S+"geoarrow_type_inline.h", S+"builder.c"],
     [("EOVERFLOW checks", S+"wkb_writer.c, "+S+"wkt_writer.c, "+S+"native_writer.c")],
     ["*WriterFinish return code", "offset buffers"])
prop("S01", "Independent objects share no mutable state",
     "The library keeps no writable static or global state, so operations on distinct objects may run concurrently in any interleaving without affecting one another, and results never depend on what was done before with other objects.",
     ["schedules", "histories"], "every interleaving of calls on distinct objects in several threads",
     "Tests are single-threaded and each uses one object at a time.",
     [S+"*.c", S+"ryu/d2s.c", S+"geoarrow_type_inline.h", S+"hpp/*.hpp"],
     [("no writable globals; state lives in caller-owned objects", "whole library")],
     ["whole API"])
prop("S02", "Inputs are only read",
     "No public C function or callback of the library writes to memory its caller only lends, nor frees it or calls its release callback. Lent is everything reachable from a pointer-to-const parameter or a by-value view (strings, buffers, geometry views, coordinate views, ArrowArray and ArrowSchema with their children and buffers), and from the schema and arrays handed to a kernel's start and push_batch or a scalar function. This includes writes through pointers a reader or view keeps in its own state, and writes that are undone before returning, so inputs may be shared between readers and mapped read-only. The buffer handed to GeoArrowBuilderSetOwnedBuffer is the one exception: its ownership moves.",
     ["inputs", "schedules"], "every input and every sharing of an input between readers",
     "Tests do not compare inputs before and after, do not map them read-only and do not share them.",
     [S+"array_reader.c", S+"array_view.c", S+"wkb_reader.c", S+"wkt_reader.c", S+"geometry.c", S+"schema_view.c", S+"metadata.c", S+"kernel.c"],
     [("const-qualified inputs and view structs", "public API")],
     ["input ArrowArray/ArrowSchema/views"])
prop("A01", "Sliced arrays give the same rows as their logical window",
     "Every access to row i of an array, at each nesting level and for validity, offsets, serialized values and coordinates alike, takes the array's logical offset at that level into account, in the C visitors, the C++ views and the Python buffer export. Visiting a sub-range looks at exactly the requested rows.",
     ["inputs"], "every array offset, length and visited sub-range, for each type",
     "Most tests use offset zero, where omitting an offset changes nothing.",
     [S+"array_view.c", S+"array_reader.c", S+"hpp/array_util.hpp", "python/geoarrow-c/src/geoarrow/c/_lib.pyx"],
     [("offset[level] added to each index", S+"array_view.c: GeoArrowArrayViewVisitNative*"), ("offset in sequences", S+"hpp/array_util.hpp")],
     ["GeoArrowArrayViewVisitNative", "GeoArrowArrayReaderVisit"])
prop("K01", "Every supported selection is implemented and every other one refused",
     "For each type identifier and each kernel or function name, initialising an array view, builder, array reader, array writer, kernel or scalar function either fails or yields an object that fits the selection, with every callback set. Array views and builders have the number of offset levels, ordinates, buffers and the coordinate stride of their type (builders refuse the VIEW types). An array reader exists for every type: visiting one element announces a null, or exactly the type's geometry type and dimensions with its coordinates, or hands the element to the parser of its encoding; only boxes with more than two dimensions are refused, when visited. Array writers exist for WKT, WKB and the native types other than boxes, take a geometry of their own type and keep all its coordinates; the two WKT settings are refused by every other writer. Appending to a native writer takes any empty geometry and exactly the geometries its type can represent (POINT: at most one coordinate; LINESTRING and POLYGON: that type or a multi of one part; MULTIPOINT, MULTILINESTRING, MULTIPOLYGON: that type or its single counterpart) and refuses the others. Visiting a geometry announces each of its nodes with its type and dimensions. Kernel and function names outside the documented set, compared in full, are refused. No admitted selection falls through to a silent no-op. A kernel reads batches only once it was started successfully, and refuses a missing output in the step that writes one, and an output in a finish that writes none.",
     ["configurations", "inputs"], "every type identifier, kernel and function name",
     "Tests instantiate many but not all combinations of type and operation.",
     [S+f for f in ["kernel.c","scalar_udf.c","array_reader.c","array_writer.c","array_view.c","builder.c","native_writer.c","schema.c","schema_view.c"]],
     [("switch dispatch with failing default", "dispatch functions"), ("kernel table", S+"kernel.c: GeoArrowKernelInit")],
     ["GeoArrowKernelInit", "GeoArrow*InitFromType", "GeoArrowArrayViewVisitNative"])
prop("C01", "C++ wrappers own what they hold and turn every failure into an exception",
     "For the reader, writer, builder and type classes of the C++ API: a failing C call ends the function with an exception that carries its status and the message it left (or its status is returned), and nothing further is asked of C. Each method calls the C function it stands for exactly once, on its own object and with its own arguments. A C object a wrapper holds is released exactly once, and wrappers that hold one are not copied; a replaced array, an object whose buffer could not be handed over and a schema that could not be completed are released too. After construction, copy, move and assignment (also to itself) the CRS of a type points into that object's own string and every other part is kept; a moved-from type has none. Types selected from a type (Simple, Multi, XY.., With..) are those of its geometry type, dimensions, coordinate type, CRS and edges, with the one thing changed, and combinations that do not exist throw.",
     ["inputs", "fault_sequences", "histories"], "every path through every wrapper function, every failing C call and every order of copies, moves and assignments",
     "Tests do not make C calls fail, and copies of short strings hide pointers into another object.",
     [S+"hpp/array_writer.hpp", S+"hpp/array_reader.hpp", S+"hpp/geometry_data_type.hpp", S+"hpp/internal.hpp", S+"hpp/exception.hpp"],
     [("GEOARROW_THROW_NOT_OK around C calls; destructors testing private_data; GeometryDataType::MoveFrom", "hpp headers")],
     ["geoarrow::ArrayReader/ArrayWriter/ArrayBuilder/GeometryDataType"])
prop("C02", "The C++ array views read exactly what the arrays hold",
     "For every coordinate type, array class and layout: element i of a sequence is the ordinate at (offset + i) strides of each dimension, in the byte order asked for; list or blob i spans offsets[offset + i] to offsets[offset + i + 1], counted from the child's own offset; element i is null exactly if bit offset + i of the bitmap is cleared. Slices, every iterator operation and Coords() agree with element access. Init accepts exactly the array views of its nesting, with enough values, and of its dimensions or (except boxes) ones losing only trailing dimensions, and then takes that level's offset, length and buffers. VisitVertices and VisitEdges call the function once, in order, for each vertex, or pair of consecutive vertices of one coordinate sequence (a point being a degenerate edge), of each element that is not null; ordinates are converted by name, missing ones being NaN. Box accessors return the minimum or maximum they name. The traits and dispatch macros select the class of that geometry type and dimensions, and a type without a class is refused.",
     ["inputs"], "every array layout, offset, length, stride, validity and conversion between coordinate types",
     "Tests read a handful of small arrays, mostly at offset zero, XY and without nulls.",
     [S+"hpp/array_util.hpp", S+"hpp/geometry_type_traits.hpp"],
     [("CoordSequence, UnalignedCoordSequence, ListSequence, BinarySequence, Array and their iterators", "array_util.hpp"), ("TypeTraits, GEOARROW_DISPATCH_*_ARRAY_CALL", "geometry_type_traits.hpp")],
     ["geoarrow::array_util::*", "geoarrow::type_traits::*"])
prop("P01", "The Python bindings raise every failure of the C layer",
     "For every binding function and method, every C call that returns a status has it tested before anything else is called, and a failure raises GeoArrowCException with that status and, where C takes an error object, the message left in it, whatever bytes the message quotes. C++ methods that can throw are declared so that the exception is translated. Kernel methods forward to the C callback of their name with their own arguments; an output is passed exactly by those that return one, and what is returned is the holder C filled.",
     ["inputs", "fault_sequences"], "every binding method and every failing C call",
     "Python tests exercise success paths of selected methods.",
     ["python/geoarrow-c/src/geoarrow/c/_lib.pyx"],
     [("if result != GEOARROW_OK: raise", "_lib.pyx"), ("except +ValueError", "_lib.pyx: GeometryDataType"), ("CKernel", "_lib.pyx")],
     ["geoarrow.c._lib classes"])
prop("P02", "Memory crossing the Python boundary stays valid and is released exactly once",
     "CArrayView.buffers() returns one buffer per level of offsets and per coordinate array, whatever the nesting depth and layout: each starts at the offset of the array, has the number of elements in use, its item size and format, is read-only, and holds the view, which holds the array. CBuilder.set_buffer_*() gives C exactly the bytes of a contiguous export of the right element type, kept alive by a reference that is dropped once, under the GIL, when C frees the buffer, and kept only if C took it. None, released arrays and uninitialised types raise instead of reaching C. Each holder releases what it owns exactly once.",
     ["inputs", "histories"], "every nesting depth, layout, array offset and length, every buffer object and every order of release",
     "Python tests use a few unsliced arrays, contiguous buffers and never check reference counts.",
     ["python/geoarrow-c/src/geoarrow/c/_lib.pyx", "python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h"],
     [("_base references", "_lib.pyx: CArrayView, CArrayViewBuffer"), ("set_buffer_*", "_lib.pyx: CBuilder"), ("PyGeoArrowBufferFree", "geoarrow_python.h")],
     ["geoarrow.c._lib.CArrayView/CBuilder/SchemaHolder/ArrayHolder"])
prop("P03", "The Python module declares and exposes the C API as it is",
     "Every structure field, function, method and enumerator declared to Cython has the type or value it has in C, no enumerator of C is missing from the exported enumerations, and each constant of the geoarrow.c classes is the C value of its name, with none missing. Each accessor, with_*(), Make/From*() and schema method of CGeometryDataType calls the C++ method of its name with its own arguments, and equality compares type, edges, CRS type and CRS.",
     ["inputs", "configurations"], "every declaration, enumeration member, constant and accessor",
     "Python tests read a few constants and accessors.",
     ["python/geoarrow-c/src/geoarrow/c/_lib.pyx", "python/geoarrow-c/src/geoarrow/c/lib.py", "python/geoarrow-c/src/geoarrow/c/__init__.py"],
     [("cdef extern from", "_lib.pyx"), ("classes of constants", "lib.py"), ("CGeometryDataType", "_lib.pyx")],
     ["geoarrow.c enumerations, constants and CGeometryDataType"])
prop("G01", "The declared API is exactly the implemented API in every configuration",
     "In each supported configuration (either number parser, either number printer, bundled into single files or not, with or without a symbol prefix) the library compiles, every declared public function is defined exactly once with the declared signature, every exported symbol is declared (the bundled ryu functions excepted) and carries the configured prefix, and nothing is left undefined. Public structures and enumerations have the same layout and values in C and C++, with and without debugging macros, and in every configuration. Each header compiles on its own and can be included in any number of units.",
     ["configurations"], "all combinations of the build options",
     "The tests build three of the configurations, each linked only with itself, and never compare their symbols or layouts.",
     [S+"geoarrow.h", S+"geoarrow_type.h", S+"geoarrow_config.h.in", S+"double_parse_std.c", S+"double_parse_fast_float.cc", S+"double_print.c"],
     [("namespace #defines", S+"geoarrow_type.h"), ("#if GEOARROW_USE_FAST_FLOAT / GEOARROW_USE_RYU", "double_*.c")],
     ["symbols and declarations of the library"])
prop("X01", "Conversions between encodings preserve every coordinate and the structure",
     "Converting any geometry between WKB, WKT and native arrays in any order and back yields the same geometry: same types, nesting, emptiness and bit-identical ordinates (for text, up to the chosen precision).",
     ["inputs"], "every geometry and every chain of conversions",
     "Tests round-trip a finite corpus.",
     [S+"wkb_reader.c", S+"wkb_writer.c", S+"wkt_reader.c", S+"wkt_writer.c", S+"native_writer.c", S+"array_view.c"],
     [("visitor pipeline from readers to writers", "readers and writers")])
prop("X02", "Numbers are parsed and printed correctly rounded",
     "Parsing a decimal gives the nearest double and printing with a given precision gives a decimal that reads back to the same value at that precision, in both number back ends and independent of the process locale.",
     ["inputs", "configurations"], "all 2^64 doubles and all decimal strings",
     "Tests check a few dozen literals.",
     [S+"double_parse_fast_float.cc", S+"double_parse_std.c", S+"double_print.c", S+"ryu/d2s.c"],
     [("vendored fast_float and ryu", S+"fast_float.h, "+S+"ryu")])
prop("X03", "Kernels compute the right values",
     "Bounding boxes are the tightest boxes containing all coordinates, unique geometry type results contain exactly the types present, and formatted text equals the full text truncated to the requested size, for every batch sequence.",
     ["inputs", "histories"], "every input batch sequence",
     "Tests compare a few hand-written batches.",
     [S+"kernel.c"], [("box and unique-type visitors", S+"kernel.c")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
