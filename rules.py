"""What each check analyses and the rule it applies, in words (copied into the evidence)."""
WRITERS = ["the input file stream is open and memory allocation succeeds inside a writer",
           "an outline has at least one segment",
           "the shape handed to a writer is not changed while the writer runs",
           "counters do not wrap around"]
RULES = {
    "C01": {
        "explanation": "Each registered writer is inlined into one function, specialised for straight, curved and mixed segments, and "
                       "its drawing loops are analysed on the resulting control flow graph.",
        "rule": "some loop over the outlines covers 0..length of the shape, a loop inside it covers 0..length of the outline, every path "
                "through one round of it writes the points of the segment (x and y), the start point is written before, and no path "
                "returns success or passes to the next outline without them",
        "assumptions": WRITERS,
        "technique": "loop coverage (scalar evolution) and must-emit dataflow over inlined, specialised writers",
        "level_note": "Decides all paths of every registered writer under the listed assumptions; trusts clang/LLVM's front end and simplifications.",
    },
    "C02": {
        "explanation": "Each registered writer is inlined into one function and specialised for straight and for curved segments; every "
                       "number it writes or buffers that comes from one axis of the shape's points is turned into a polynomial over the "
                       "point's coordinate, the writer's parameters and its settings.",
        "rule": "per writer and axis all these polynomials are equal once all points are given the same coordinate (blended points "
                "included), all are converted to integers the same way, and the two coordinates of a point are written in the same order",
        "assumptions": WRITERS + ["arithmetic is read as arithmetic on real numbers, conversions to integers excepted"],
        "technique": "symbolic normal forms of all written coordinates over inlined, specialised writers, compared with each other",
        "level_note": "Coordinates computed from points remembered across rounds of a loop (the bends UGS computes, PLT's last point) are "
                      "counted as not decided.",
    },
    "C03": {
        "explanation": "Each registered writer is inlined into one function and specialised for straight and curved segments, for outlines that "
                       "are not holes and for holes painted in the background colour. Every written value, buffer store and comparison that "
                       "comes from a colour channel is traced back to that channel, and the colour in force is followed through the loop "
                       "over the outlines, separately for the first and for later rounds.",
        "rule": "on every path of a round the three channels of this outline's colour are written, or found equal to the remembered colour "
                "that was written, before (in POV: after) the outline is drawn; the remembered colour is always the one last written; "
                "the channels are written in order red, green, blue in the same form, stored in and compared with their own place",
        "assumptions": WRITERS + ["UGS and ER files carry no colour"],
        "technique": "must-dataflow of the colour in force plus channel provenance of written values over inlined, specialised writers",
        "level_note": "Palette searches (DXF, ILD, PLT) are checked for completeness and channel agreement, not for the quality of the match.",
    },
    "C04": {
        "explanation": "Each writer of a format that can both stroke and fill is inlined into one function and specialised for centreline traces "
                       "with open, closed and mixed outlines, for open outlines without centreline and for closed outlines without centreline. "
                       "The constant part of everything it writes is put together and searched for the painting operators, records and "
                       "properties that the format's specification defines.",
        "rule": "no operator of the wrong kind can be reached; every outline's points are preceded (prefix operators) or followed on every "
                "path (postfix operators) by the right one; no path is dropped (newpath) or recoloured before it is painted",
        "assumptions": WRITERS + ["the outlines of a shape that is not a centreline trace are all open or all closed, as the tracer makes them",
                                  "UGS, ER, DXF, POV, PLT and ILD have one kind of path only"],
        "technique": "reachability and must-pass-through of format operators over inlined writers specialised per configuration",
        "level_note": "Operators are recognised by a table of each format's own vocabulary (12 formats); a shape that mixes open and closed "
                      "outlines without being a centreline trace (never produced by tracing) is outside.",
    },
    "C05": {
        "explanation": "The writers of EMF, PDF and CGM, inlined and specialised to empty, straight, curved, open and closed shapes, get a ghost counter of the "
                       "bytes and records written. Announced numbers and the counter are evaluated as sums of named terms (lengths of printed "
                       "values, numbers of segments, amounts a round of a loop can add) along every way through the writer with its inner "
                       "loops summed up, and compared. For CGM the states of a reader that trusts the element headers are followed over all "
                       "paths of the writer.",
        "rule": "the size returned by a function that writes a record, and the size in the record, equal the bytes it writes; the number of points "
                "in a record equals the points that follow; file size and record count in the EMF header equal what is written; every PDF "
                "cross reference is the offset of its object, the start of the cross references is theirs, and the stream length is the "
                "length of the stream; every CGM element header is followed by as many parameter bytes as it announces, filled up to an even "
                "number, and the file ends with its last element",
        "assumptions": ["all segments of the shape have one degree and all its outlines are open or all closed",
                        "decisions taken alike in the measuring and the writing pass are matched by the amounts they lead to, not by their "
                        "conditions", "printing the same value with the same format twice gives the same length"],
        "technique": "ghost byte counter over specialised LLVM IR, compared as linear forms with loop summaries",
        "level_note": "All numbers announced by the EMF, PDF and CGM writers; the counts in DR2D, POV, ER and FIG files are not decided.",
    },
    "C06": {
        "explanation": "Every reader, writer and interface function is inlined into one function in which each variable that outlives a call, "
                       "and that some call changes, becomes a local variable with an unknown value at the start; that value is followed along "
                       "all paths. A second pass gives every local variable a value that stands for 'not set' where its life begins.",
        "rule": "no path leads from the unknown value at the start of a call to a use of it, unless every call leaves the variable as it was "
                "when the process started; for arrays no path leads to a read of a member without a store to it in the same call; no call of "
                "a random generator that was not seeded in the same call; no path uses a local variable that has not been set",
        "assumptions": WRITERS[:3] + ["registering formats and setting the log file are meant to last",
                                      "a store to a moving place of an array covers the places read later"],
        "technique": "def-use path search on inlined calls with persistent variables made symbolic tokens (reaching definitions, path sensitive)",
        "level_note": "Variables touched inside recursive functions are counted as not decided; memory from the heap is assumed to be set before it "
                      "is read; a table computed once and kept is reported although it does not change results.",
    },
    "C07": {
        "explanation": "Every function of the interface and every registered reader and writer is inlined into one function. Its calls that "
                       "can end the process, the places that report a fatal error, the object each of them reports through, and the paths "
                       "on which reading or writing fails are analysed.",
        "rule": "no call that ends the process can be reached, except checks of allocation results and listed internal assertions; every "
                "fatal report goes through an object made from the message callback and data the caller gave to that same call, and "
                "always calls that callback as fatal; libpng has a place to return to before any of its calls that can fail; no path gives "
                "back an empty picture or a failed write, or leaves after a failed file operation, without a fatal report",
        "assumptions": ["memory allocation succeeds", "the internal assertions listed in DESIGN.md cannot fail (they state "
                        "invariants of the library's own data, not of its input)", "memory errors are the subject of C10 and C18"],
        "technique": "reachability of process-ending calls, origin tracking of the error object, and path search for unreported failures",
        "level_note": "Covers the C interface and all registered formats; the C++ wrapper is outside. A failed read of pixel data that the "
                      "reader tolerates (it goes on with what it has) is not a failure in this sense.",
    },
    "C08": {
        "explanation": "The calls that return a shape are analysed with the functions of their file inlined: every place where the cancel callback "
                       "is asked or an error can be raised, there or in anything called. The functions that raise and ask for errors, and all "
                       "functions that take part in a trace, are analysed for what becomes of the error and of what was acquired.",
        "rule": "from every such place every path on which cancel stays answered with yes (the error stays raised) ends in a return of no shape; "
                "raising an error marks the exception object on every path, asking says so, no call after it unmarks it, and the object is handed "
                "on to everything that can raise; what a function acquired is released or handed on along every path",
        "assumptions": ["cancel goes on being answered with yes, as the statement says", "memory does not run out"],
        "technique": "path search with the answers of the callback and the error state fixed, and ownership analysis over summaries of all functions",
        "level_note": "All places and all paths, with correlated conditions folded; a warning in another function than the one that saw the error "
                      "is not followed.",
    },
    "C09": {
        "explanation": "Every parameter that takes a callback, every place a callback is called, stored or handed on, and every number handed "
                       "to a progress callback is analysed in the resolved program.",
        "rule": "a callback is called only where it was found to be there (in the function itself or in all its callers); the data handed "
                "over with it is the parameter that came with it or the member it was stored in next to it; every progress value is a "
                "quotient of polynomials over loop counters and sizes that lies in 0..1 at every corner of the counters' ranges for all sizes",
        "assumptions": ["a size a progress value is computed from does not change while the loop around it runs",
                        "a picture has fewer than 2^31 pixels", "arithmetic is read as arithmetic on real numbers"],
        "technique": "guard dominance across calls, pairing of callback and data at every hand-over, and polynomial bounds of progress values",
        "level_note": "All calls of callbacks and all hand-overs; progress values in a form that is not a quotient of polynomials are counted as "
                      "not decided.",
    },
    "C11": {
        "explanation": "Every function of the library and the command line program: what it acquires (memory, files), hands to its caller, keeps "
                       "or releases, by access path from its parameters and result, as summaries to a fixpoint over the call graph; then every "
                       "path from every acquisition.",
        "rule": "on every path from an acquisition to the end of the function, to the next round of it, or to where its place is overwritten, the "
                "thing is released or handed on (the path where it is null excepted); when something is released all parts it was acquired with "
                "are released before; memory held by a parameter is released before something fresh replaces it; the function that frees a "
                "result releases every part the call that makes it can put there",
        "assumptions": ["an allocation that fails ends the program or gives null", "a loop that frees the elements of a list frees all of them",
                        "an unknown function neither keeps nor releases what it is given, free, fclose and the like excepted"],
        "technique": "interprocedural ownership summaries and path-sensitive search for acquisitions that are lost",
        "level_note": "All acquisitions in the C sources; members of things several links away from a variable and memory kept in static variables "
                      "are not followed.",
    },
    "C12": {
        "module": "wrap",
        "explanation": "For every function of the library and the C++ wrapper and every pointer it is given: which memory reached through it is "
                       "written or released, directly or through a pointer found in it, bottom up over the call graph. The functions that make "
                       "copies or results are inlined, and pointers taken from an argument are followed to the memory that is handed back. The "
                       "copying operations the compiler supplies for the option classes are made to appear and analysed like the others.",
        "rule": "no interface function, reader or writer stores to or releases memory of the options, shapes, names or const objects it is given "
                "(a value changed for a while and put back on every way on excepted); no pointer found in an argument, nor the argument itself, "
                "is left in what is handed back, unless it is null on that path or replaced on every way to the return",
        "assumptions": ["tracing may change the picture, as documented", "a function whose only parameter is an object it releases ends that object's life",
                        "callbacks and registered handlers called through a pointer are analysed on their own"],
        "technique": "interprocedural effect analysis (mod sets per parameter and access path) and pointer-sharing typestate over inlined copy functions",
        "level_note": "Pointers stored into memory other than local variables are not followed further inside the effect analysis.",
    },
    "C13": {
        "explanation": "The command line program is inlined into one function (the library's interface is not). Its option table is read, and for "
                       "each option the code from one call of getopt to the next is explored with that option found, following only the "
                       "branches that option leads to.",
        "rule": "an option that has the name of a setting changes that setting on every path and no other, with the option's own argument, "
                "unchanged, not narrowed and with its fraction; flags have the size getopt stores, are distinct and decide what their name "
                "says; names and formats given are the ones opened and used; options that print do; nothing else in the program changes a "
                "setting; the settings are the ones handed to the library and the library reads each of them",
        "assumptions": ["getopt_long_only behaves as documented"],
        "technique": "per-option specialisation (constant folding of the option found) with effect and value-origin analysis, plus who-reads checks",
        "level_note": "All 33 options of the table, all paths between two calls of getopt.",
    },
    "C14": {
        "explanation": "The numeric locale is followed as a state (known to be C, or anything) through every interface function and the command "
                       "line program down to each call of a writer, and on through every registered writer.",
        "rule": "the C numeric locale has been selected on every path to a call of a writer, and in a writer no number with a fraction is "
                "formatted after anything else was selected; C++ streams, which have a locale of their own, format no numbers",
        "assumptions": ["setlocale and newlocale succeed for C", "the calling program does not use a locale of its own for the thread (uselocale)",
                        "message callbacks do not change the locale"],
        "technique": "typestate of the numeric locale (forward must-dataflow) over inlined callers of writers and inlined writers",
        "level_note": "All paths of all callers and writers; trusts the C library's formatting in the C locale.",
    },
    "C15": {
        "module": "wrap",
        "explanation": "The classes with a constructor from JSON and a toJson function are found, and both functions are inlined down to the "
                       "JSON library's own functions. Every byte of every option is followed through the writing function to the name it is "
                       "stored under, and from each name through the reading function to the option it ends up in. The functions that copy "
                       "option sets (C and C++) are followed the same way, byte by byte.",
        "rule": "every option is written under its own name and read back from that name; none is narrowed, computed with on one side only, or "
                "refused for a legal value (limits and values around them are tried through the reader's conditions); an option missing from the "
                "JSON is left at its default; a copy gets every member from the same member of the original and memory of its own for what is "
                "pointed to",
        "assumptions": ["the JSON library keeps names and numbers", "the legal values of an option lie inside its type's range and the ranges "
                        "its documentation gives"],
        "technique": "byte-wise label propagation from names to members and back, must-set and guard search for sample values",
        "level_note": "Names read from a table at run time could not be told apart and would be counted as undecided, not reported.",
    },
    "C16": {
        "explanation": "The registrations are read as a table. The functions that register and look up formats are inlined except for the C++ "
                       "library's own functions and read as operations on the suffix string and the table of formats; lookups are also "
                       "specialised for a missing suffix and for a name without a dot.",
        "rule": "no two formats share a suffix, every reader and writer is registered and none under the suffix of another format (recognised "
                "by what the file formats' specifications require); both sides fold the whole suffix to the same case before it reaches the "
                "table and change nothing else; lookups are exact, use a found entry only after the test that it was found, take the suffix "
                "right after the last dot, and read nothing through a null pointer when there is none",
        "assumptions": ["the C++ library's containers and strings behave as specified"],
        "technique": "registration table consistency, provenance and must-pass-through of the key string, guard dominance, specialisation for missing suffixes",
        "level_note": "CGM and two other formats have no distinctive text; for them only a clash with another format's content is reported.",
    },
}
NOT_APPLICABLE = {
    "C10": "the indices used while tracing follow edge directions and recursive fills; their bounds rest on invariants of the pixel data (an "
           "outline closes before it leaves the picture) which interval and difference bounds cannot express, so a rule quiet on the correct "
           "code accepts broken code too",
    "C17": "each reader's mapping of bytes to channels and rows is fixed by layouts computed at run time from the file (BMP masks, TGA "
           "orientation); the provenance analysis built for the writers does not follow values through such tables",
    "C18": "reading the code shows many stores the readers do not bound (BMP headers and pixel loops, TGA, colour map indices, GF counts), "
           "each needing its own repair; listing all of them as known would leave nothing the check could report",
    "C19": "the distance of a fitted curve is the outcome of an iterative numeric approximation; no static argument bounds it without "
           "executing it",
    "C20": "the number of colours left by the reduction is a count of distinct run-time values; a static rule can only restate how the "
           "present algorithm is written",
}
