#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are maintained)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
R, RC = "src/data_raster.hpp", "src/data_raster.cpp"
A, AC = "src/utils_array.h", "src/utils_array.cpp"
M, F, FH = "src/utils_math.h", "src/utils_filesystem.cpp", "src/utils_filesystem.h"
S, SH, T, D, DH = "src/utils_string.cpp", "src/utils_string.h", "src/utils_time.cpp", "src/db_mongoc.cpp", "src/db_mongoc.h"
B, APP = "src/basic.cpp", "apps/mask_rasterio.cpp"

prop("C01", "Parallel loops are free of data races",
     "Every loop the library runs in parallel gives the result of running its iterations one after another, whatever the number of threads and the schedule. "
     "Two different iterations never access the same memory location with at least one of them writing it, unless that location is a declared reduction variable or the access is inside a critical or atomic region; nothing shared is written by a routine called from an iteration.",
     ["schedules", "inputs"], "every schedule, thread count and raster content, for every OpenMP region in the library",
     "Tests run one schedule on a handful of small rasters; a racy accumulator gives the right answer almost every time.",
     [R, M, A, AC], [("reduction clauses and loop-private variables of the parallel loops", R + ", " + M), ("iteration-indexed stores", R)],
     ["statistics, converted and masked cell values"])
prop("C02", "Everything acquired is released on every exit",
     "Whatever an operation acquires for itself while it runs (heap memory, files, directory handles, GDAL datasets, option lists and buffers, BSON documents, MongoDB handles) is, on every path out of the operation including every early failure return, either released or handed over to the caller or to an object that owns it. "
     "A failing read, write or query therefore never leaks.",
     ["inputs", "fault_sequences"], "every return path of every function, including each failure branch of the underlying GDAL, libc, BSON and MongoDB calls",
     "Tests neither inject failures into GDAL/MongoDB nor run under a leak checker; the MongoDB part is never executed.",
     [R, RC, D, DH, F, T, AC, A, S, APP], [("paired release calls before each return", "ReadRasterFileByGdal, WriteSingleGeotiff, MongoClient/MongoGridFs/MongoCollection methods, FindFiles, DateTime")],
     ["process memory, open files and handles"])
prop("C03", "Arrays are released once and only by their owner",
     "A raster or subset object releases exactly the arrays it allocated or adopted: position arrays borrowed from a mask or handed in by the caller are never released by the borrower, and no array is released twice. "
     "After an owned array is released its owner no longer refers to it.",
     ["histories", "inputs"], "every sequence of construction, masking, copying, position setting, subset building and destruction",
     "Tests use a few fixed call orders; a double release needs a specific combination of masking followed by copy or position replacement.",
     [R, RC, A], [("store_pos_ ownership flag of the position arrays", R), ("alloc_ ownership flag of subset positions", RC), ("Release*Array nulls its argument", A)],
     ["heap consistency after destruction"],
     [dict(name="store_pos_", meaning="position arrays belong to this raster", where=R), dict(name="alloc_", meaning="subset arrays belong to this subset", where=R)])
prop("C04", "Memory is released by the family that allocated it",
     "Every block is released with the function that belongs to the allocator it came from (new/delete, new[]/delete[], malloc/free, GDAL's CPLMalloc/CPLFree, bson and mongoc constructors and their own destroy functions), also when the block crosses from one function or class to another.",
     ["inputs", "programs"], "every allocation that reaches every release in the library and in its applications",
     "Mismatched pairs usually work on glibc; the MongoDB pairs are never executed by the tests.",
     [R, D, DH, A, AC, F], [("Release1DArray/Release2DArray for new[]", A), ("CPLFree for CPLMalloc", R), ("bson_free/bson_destroy/mongoc_*_destroy", D)],
     ["allocator behaviour"])
prop("C05", "Nothing uninitialised is ever used",
     "Each constructor gives every data member of the object a defined value on every path, also when it reports failure, so destroying or querying the object is always defined. "
     "No function reads, returns or branches on a local variable that some path leaves unset.",
     ["inputs", "fault_sequences"], "every constructor and every path of every function, including failed parsing, failed reads and empty inputs",
     "Uninitialised memory often happens to hold zero, so tests pass; failure paths of constructors are not exercised.",
     [R, RC, D, T, F, S, M, A], [("InitializeRasterClass", R), ("member initialisation in constructors", RC + ", " + D)],
     ["object state and results on failure paths"])
prop("C06", "Cell accessors reject what lies outside the raster",
     "For every row, column, cell index and layer a caller passes, reading or setting a cell value or looking up a position touches the raster and position arrays only after row, column (or index) and layer have been found inside [0, rows), [0, columns), [0, cells) and [1, layers], and only when the raster holds data; otherwise it reports NoData or an error and touches nothing. Operations on the whole raster (statistics, replacing, reclassifying, writing) likewise touch nothing when the raster holds no data.",
     ["inputs"], "every integer row, column, index and layer on every raster, 1D or 2D, with or without stored positions",
     "Tests try a few out-of-range values on a few methods; off-by-one limits and unchecked siblings stay invisible.",
     [R], [("ValidateRasterData/ValidateRowCol/ValidateLayer/ValidateIndex", R)], ["GetValue, GetValueByIndex, SetValue, GetPosition, IsNoData"])
prop("C07", "Coordinates map to the cell that contains them",
     "Converting a cell to the coordinate of its centre and back gives the same cell, and every coordinate on or outside the outer border is either reported as outside or mapped to a row and column inside the raster. "
     "All coordinate conversions agree on the same grid: cell (row, col) is centred at x = xll + col*size and y = yll + (rows-1-row)*size.",
     ["inputs"], "every coordinate and every header (extent, cell size, rows, columns)",
     "Tests use interior points of one grid; border coordinates and the second, sibling conversion are not compared.",
     [R], [("GetCoordinateByRowCol, GetPositionByCoordinate, GetPosition(x, y)", R)], ["row/column results and the cells read through them"])
prop("C08", "Cell data types agree across names, readers and writers",
     "For every supported cell data type, its name, its C++ element type, its GDAL type, its range limits and its default NoData value are the same in every place that reads, converts or writes rasters, to GeoTIFF or to GridFS. "
     "The element type of a buffer always matches the type announced to GDAL or stored in the metadata, every type that can be requested for output can be written and read back, and an unknown type is refused.",
     ["inputs", "configurations"], "every data type and every conversion between element type and requested output type",
     "Tests write three or four of the ten types, and never through GridFS.",
     [R, RC], [("type/name/GDAL conversion functions", RC), ("per-type branches of the GDAL reader and writer", R), ("per-type branches of the GridFS reader and writer", R)],
     ["data type and values of the written and re-read raster"])
prop("C09", "Statistics ignore NoData and report the right figure",
     "Cells equal to the NoData value contribute to no statistic (count, mean, minimum, maximum, standard deviation, range), for 1D rasters and each layer of 2D rasters alike. "
     "Asking for a statistic by name returns that statistic of the requested layer, computed the same way for 1D and 2D rasters.",
     ["inputs"], "every raster content, layer and statistic name",
     "Tests compare some statistics of a few rasters; siblings (1D, 2D, all layers) are not compared with each other.",
     [M, R], [("BasicStatistics", M), ("CalculateStatistics/GetStatistics", R)], ["values returned by the statistics queries"])
prop("C10", "Written geo-referencing is the one read back",
     "The position, cell size, NoData value and size written to a raster file are those of the raster's header, and reading such a file reconstructs the same header: for GeoTIFF the writer's affine transform and the reader's header computation are inverse to each other, and corner-based text headers are shifted by exactly half a cell in both directions to the centre-based convention.",
     ["inputs"], "every header: any origin, cell size, number of rows and columns",
     "Tests round-trip a few files whose geometry hides sign, half-cell or row/column mix-ups.",
     [R, RC], [("geotransform computation in the GDAL writer and reader", R), ("ASC header writer and reader", R + ", " + RC)], ["header of the re-read raster, geotransform in the file"])
prop("C11", "Failures of reading and writing are reported, not dropped",
     "When reading, writing, masking, subsetting or removing data fails at any step, the library operation that the caller invoked, if it returns a status (true or false, a pointer, zero or negative), reports failure and does not go on with data it did not get; it never reports success after a failed step.",
     ["fault_sequences", "inputs"], "every failure of every step (any file, layer, subset or database operation)",
     "Tests exercise the success paths and a few missing-file cases, never a failure in a later layer or in the database.",
     [R, RC, F, D, AC, S, APP], [("boolean results of the read/write/prepare/initialise steps", R + ", " + D + ", " + F)], ["return values"])
prop("C12", "A result that may be null is checked before it is used",
     "Every pointer that an operation may return as null (opening files, directories, datasets, bands, drivers, GridFS files and cursors, collections; the library's own Init and Get functions; optional pointer parameters) is tested before it is dereferenced or passed on to something that dereferences it.",
     ["fault_sequences", "inputs"], "every failing acquisition and every null optional argument",
     "Tests do not make GDAL, MongoDB or allocation fail and rarely pass null.",
     [R, RC, D, DH, F, T, APP], [("null tests after acquisition", R + ", " + D + ", " + F)], ["absence of crashes on failure"])
prop("C13", "Only what was asked for is deleted",
     "File-system deletion happens only through the delete and clean operations and only for paths inside the directory (or the file) that the caller named: the parent and current directory entries and the targets of symbolic links are never descended into or deleted in place of the link, subdirectories only when the caller asked for it, and no path is deleted that was cut off or otherwise differs from an entry of that directory. "
     "No other operation deletes, renames or truncates files apart from the single output file it writes.",
     ["inputs", "histories"], "every directory tree and every path given to the library",
     "Tests delete a couple of flat scratch directories; links, special entries and over-long names are absent.",
     [F, FH, R, RC, S, T, B], [("DeleteDirectory, CleanDirectory, DeleteExistedFile", F)], ["surviving files"])
prop("C14", "Text buffers are never overrun and parsed fields are always set",
     "Every write into a fixed-size character buffer is bounded by that buffer's size and leaves it terminated, whatever the length of names, paths and formats, and room for every value when a number is formatted. "
     "No field of a parsed text is used unless its conversion is known to have succeeded, and no part of a split text unless that part is known to exist.",
     ["inputs"], "every path, name, format string and text to be parsed",
     "Tests use short well-formed strings.",
     [F, T, S, SH, RC, B, D], [("size arguments of snprintf, strftime, readlink, getcwd ...", F + ", " + T), ("results of sscanf/strto*", T + ", " + S)], ["memory safety, parse results"])
prop("C15", "No hidden shared state between calls",
     "Operations on different objects, or pure functions, called from different threads do not influence each other: the library keeps no modifiable global or function-local static data and calls no routine of the C library that returns or modifies process-wide hidden state (gmtime, localtime, strtok, setlocale, chdir, ...).",
     ["schedules", "histories"], "every interleaving of calls from several threads",
     "Tests are single-threaded and one process per case.",
     [B, F, S, T, M, R, RC, A, AC, D], [("_r variants and local buffers", T), ("constant tables", "src/utils_math.cpp, " + T)], ["results under concurrency"])
prop("C16", "Every declared operation exists and can be instantiated",
     "Each function, member function and class template declared in the public headers can be used by a client program: it has a definition that links, and its template body compiles for the documented element types, from any translation unit and with only its own header included.",
     ["programs", "configurations"], "every client program that uses any declared operation with any supported element type",
     "Tests instantiate a small subset of the templates.",
     [A, AC, M, SH, FH, "src/utils_time.h", DH, R, "src/basic.h"], [("header/implementation split", A + ", " + R)], ["client builds"])
prop("C17", "Owning objects cannot be copied by accident",
     "An object that owns raw resources (rasters, subsets, 2D arrays, MongoDB client, database, collection and GridFS handles) can be duplicated only through its explicit copy operation, which duplicates the resources: a client program that copies or assigns such an object implicitly does not compile, so no two objects ever own the same resource.",
     ["programs"], "every client program",
     "A test cannot show that a program does not compile, nor that no program double-frees.",
     [R, DH, A, "src/basic.h"], [("NotCopyable base, deleted copy operations", "src/basic.h, " + R + ", " + DH)], ["compilation of client programs"])
prop("C18", "Database fields are read with their own type",
     "A field of a BSON document is only ever read by the accessor of the type it was found to have, each numeric, boolean, date and string reader accepts every BSON type that can represent its result, and what is read keeps its meaning (true is true, a wide integer keeps its width). "
     "A field of any other type, or a missing field, gives the documented default and is reported.",
     ["inputs"], "every document, key and field type",
     "No test ever runs the database code (no server).",
     [D, DH], [("type tests around bson_iter_* accessors", D + ", " + DH)], ["values returned by Get*FromBson*"])
prop("C19", "Returned text and pointers stay valid",
     "No operation returns a pointer or reference into an object that ends its life with the call (a temporary string, a local array or container), and none keeps using memory it has already released.",
     ["inputs", "programs"], "every call of every operation that returns a pointer or reference",
     "The bytes of a dead temporary often survive until the test has compared them.",
     [R, RC, F, S, T, D, B, A], [("values returned by value, heap or member storage", R + ", " + F)], ["returned strings and arrays"])
prop("C20", "Looking up what is absent never throws",
     "A key, option, class value, statistic or header entry that is not present is reported or replaced by the documented default; library operations never let a container's missing-element exception escape, whatever data, files or options they are given.",
     ["inputs"], "every map content: any raster values, reclassification table, option and header",
     "Tests only ask for keys that exist.",
     [R, RC, S, SH, D, APP], [("find/count tests before at()", R), ("headers and option maps initialised with all keys", RC)], ["absence of exceptions"])
prop("C21", "A cell is stored at one place, for every way to reach it",
     "All operations that read or write the value of cell (row, column) of layer k use the same element: row*columns + column in a full raster, the index of that pair in the position arrays of a compacted raster, and entry k-1 within it. "
     "Every loop over cells or layers stays inside the lengths the arrays were created with, a search covers the whole array, and a raster that has positions is always read through them.",
     ["inputs"], "every raster shape (rows differing from columns, any number of layers), full or compacted",
     "Tests read a few cells; swapped rows/columns or a layer off by one show only on non-square or multi-layer data.",
     [R, RC], [("row-major index computation, layer - 1", R)], ["values returned for (row, col, layer)"])
prop("C22", "Parallel execution is always given at least one thread",
     "Whatever number of threads is requested or detected, the library asks the parallel runtime for a count of at least one.",
     ["configurations", "inputs"], "every requested count, including zero and negatives, and every number of processors",
     "Tests run on one machine with several processors and request sane counts.",
     [B, APP], [("SetDefaultOpenMPThread, SetOpenMPThread", B)], ["argument of omp_set_num_threads"])
prop("C23", "No argument is silently ignored",
     "Every argument of every public operation takes part in what the operation returns, writes or calls: there is no parameter whose value can never make a difference, and an operation that passes its work on to another passes on the layer, position, mask, default value and options it was given.",
     ["inputs"], "every public operation and every value of each of its parameters",
     "A test notices an ignored argument only if it calls the operation with the one value that should have mattered.",
     [R, RC, T, S, SH, F, D, DH, M, A], [("parameter uses in function bodies", "all of src")], ["results for differing arguments"])
prop("C24", "Text rasters use one vocabulary and one NoData value",
     "The text-raster writer emits exactly the header keywords that the reader accepts, each with the value the reader assigns to it, in 1D and 2D output alike, and every cell without data is written as the NoData value that the header of the same file announces, so that re-reading recognises it.",
     ["inputs"], "every raster with any NoData value, one or several layers, full or compacted",
     "Tests use a NoData value equal to the library default, which hides the difference.",
     [R, RC], [("WriteAscHeaders/WriteSingleAsc/OutputAscFile and ReadAscFile", R + ", " + RC)], ["text raster files"])
prop("C25", "Queries and writers leave the cell data untouched",
     "Reading a value, a position, a coordinate, a statistic or a flag, and writing arrays to a file or to the database, never changes a cell value of the raster or of a mask, an element of the caller's input arrays, or a header or option map passed as input.",
     ["inputs", "histories"], "every query and every write on every raster",
     "Tests look at the returned value, not at what happened to the rest of the data.",
     [R, RC, M, A], [("const access in queries and writers", R)], ["cell values before and after"])
prop("C26", "A number is accepted only if the whole text is that number",
     "Text-to-number conversion reports success only when at least one character was converted and the conversion consumed the entire text, and for integers only when the value fits the result type; an empty or partly numeric text is a reported failure, identically for all integer widths, signedness and floating point. "
     "Code that converts text it was given (fields of a line, addresses, command line arguments) looks at that report before it uses the number.",
     ["inputs"], "every string",
     "Tests try a few strings per function.",
     [S, SH, D], [("end-pointer and range tests after strto*", S)], ["success flag and value"])
prop("C27", "Every loop comes to an end",
     "Every loop of the library terminates for every input: each has an exit that is decided by a counter or cursor which every iteration moves towards a bound that the loop does not move away, by a reader, list or directory cursor whose end or failure leaves the loop, or by a limited number of retries; every recursive operation has a way out and makes progress.",
     ["inputs", "fault_sequences"], "every loop of every function and every input, file and failure of a reader",
     "Tests feed small well-formed inputs and never make a reader fail in the middle of a loop.",
     [S, F, T, R, M, A, D], [("loop counters, reader and directory cursors", F + ", " + S + ", " + T + ", " + R)], ["termination"])
prop("C28", "The command-line tool reports failure in its exit status",
     "Whenever the mask-and-decompose tool fails to read its configuration, the mask or an input, to build subsets, or to fill, convert or write an output, it ends with a status other than 0, whatever the remaining items do; once it has printed an error, or has ended early because of missing or wrong arguments, its status is not 0 either. Status 0 means that every one of these steps succeeded. Options that fall back to their default value are no failures.",
     ["inputs", "fault_sequences"], "every failure of every step, whatever succeeds before and after it",
     "No test runs the tool, let alone with an input that cannot be read or an output that cannot be written.",
     ["apps/mask_rasterio.cpp"], [("main", "apps/mask_rasterio.cpp")], ["error-handling", "api"])
prop("C29", "A path is taken apart and put together at the same places",
     "The directory of a file path is everything up to and including the last separator, the suffix is what follows the last dot of the file's own name (none if that name has no dot, whatever dots the directories have), and the core name is the rest; concatenating the three gives the path again, with exactly one separator and a dot only in front of a suffix. "
     "Appending to, prefixing or changing the suffix of a file name changes that part and nothing else, however many dots and separators the path has and wherever they are.",
     ["inputs"], "every path text made of directories and a file name with none, one or several dots (not at its ends), absolute or relative, with and without separators",
     "Tests use a few paths with one dot, in the file's name.",
     [F], [("GetPathFromFullName, GetCoreFileName, GetSuffix, ReplaceSuffix, AppendCoreFileName, PrefixCoreFileName, ConcatFullName", F)], ["returned text"])
prop("C30", "Dates keep the meaning of their fields",
     "Wherever a date moves between calendar numbers, text, the C library's broken-down time, DateTime and milliseconds, every field keeps its quantity and unit: years are counted from 1900 and months from 0 only inside the broken-down time and nowhere else, "
     "each field is filled from, read as and returned as the same quantity (years to seconds in the order of the text), what is set or adjusted inside a broken-down time stays in the field's range, milliseconds become seconds by 1000, moving forward adds and moving backward subtracts, "
     "and whether UTC or local time is meant is taken from the caller's flag at every step.",
     ["inputs"], "every date, time zone and flag",
     "Tests convert one date of one month in UTC; the local-time, daylight-saving and DateTime paths run at most in the tester's time zone.",
     [T, "src/utils_time.h"], [("ConvertToString*, ConvertToTime, ConvertYMDToTime, GetDateInfoFromTimet, GetYear/Month/Day, DayOfYear, JulianDay, DateTime", T)], ["returned dates, numbers and texts"])
prop("N01", "Fast approximations stay within their stated error",
     "The fast exponential, logarithm, power and square-root routines differ from the exact functions by no more than their documented error over their documented input range.",
     ["inputs"], "every floating-point input", "Tests sample a few inputs.", ["src/utils_math.cpp", M], [("ApprExp, ApprLn, ApprPow, ApprSqrt", "src/utils_math.cpp")])
prop("N02", "Masking keeps exactly the masked cells' values",
     "A raster read with a mask holds, for each cell position of the mask, the value of the source cell that contains the centre of that position, the default value where the source has no data, and NoData outside the source extent.",
     ["inputs"], "every pair of raster and mask geometry", "Tests cover a few geometries.", [R], [("MaskAndCalculateValidPosition", R)])
prop("N03", "Calendar arithmetic is exact",
     "Converting between dates, Julian days and local or UTC time and shifting dates forwards and backwards follows the proleptic Gregorian calendar exactly and is inverse where it should be.",
     ["inputs"], "every date and time", "Tests sample dates.", [T], [("DateTime, JulianDay conversion, Forward/Backward", T)])
prop("N04", "Splitting and merging subsets reproduces the raster",
     "Writing a raster as separate subset files and as one combined file and reading them back gives, cell by cell, the values of the original raster.",
     ["inputs", "histories"], "every raster and grouping", "Tests cover two groupings.", [R], [("BuildSubSet, Prepare*SubsetData", R)])
prop("N05", "GridFS storage survives server faults",
     "A raster stored in the database is either completely stored under its name or reported as failed, whatever the server or the network does.",
     ["fault_sequences", "crash_points"], "every server fault", "No server is available to the tests.", [D, R], [("WriteStreamData retry loop", R)])
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
