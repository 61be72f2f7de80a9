#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so that the prose is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

ENT = ["src/entities/entity%d.cpp" % n for n in
       (100,102,104,108,110,120,122,124,126,128,142,144,154,164,180,186,308,314,406,408,502,504,508,510,514)]

p("C01", "Reading any byte sequence as IGES is memory safe and terminates",
  "Reading any file as an IGES model, however malformed, truncated or hostile, either succeeds or reports failure, in time and memory bounded by the file's size, without invalid memory access, undefined behaviour, uncaught exception, leak or hang. After the attempt the model object can be inspected, written, unit-converted, cleared and then read into again, and destroyed, all equally safely.",
  ["inputs"],
  "All byte sequences given to the reader: mutations of valid files at byte, field, record and pointer level; truncations at any offset; records and fields out of range; cyclic, dangling, duplicated and mistyped cross references; huge counts; each followed by the ordinary operations on the resulting object.",
  "The tests read only the well-formed files that the library itself has just written; a handful of them, none malformed.",
  ["src/iges/iges.cpp", "src/iges/iges_io.cpp", "src/entities/iges_entity.cpp"] + ENT,
  [("record reader and free-format field parsers with bounds and type checks", "src/iges/iges_io.cpp ReadIGESRecord, ParseInt, ParseReal, ParseHString, DEItemToInt"),
   ("per-entity parameter parsers rejecting bad counts and values", "src/entities/entity*.cpp readPD"),
   ("cross-reference resolution with type and range checks", "src/entities/entity*.cpp associate"),
   ("top-level reader", "src/iges/iges.cpp IGES::Read, readGlobals, readDE, readPD, readTS")],
  observe=["sanitizer reports", "exit status of the harness process", "return value of Read and of the follow-up operations"])

p("C02", "Every successfully written file is a well-formed IGES file",
  "Whenever writing a model reports success, the file is a structurally valid IGES file: 80-column records in Start, Global, Directory Entry, Parameter Data, Terminate order with consecutive sequence numbers, terminate counts that match, directory entries paired with exactly their parameter lines and their line counts, and no parameter token that breaks the format. Every cross reference in it denotes an existing directory entry of a permitted type, and the library reads the file back unless its geometry is degenerate at the resolution the file states.",
  ["inputs", "histories"],
  "All models: built through the API or read from files, all supported entity types and forms, any size of integers, reals and strings, comments, labels, colours, transforms, optional parameters, custom delimiters, and any edits between reading and writing.",
  "The tests check that a few generated models are read back by the same library; nothing validates the written records independently, and only 12 of the 25 supported entity types ever get written.",
  ["src/iges/iges.cpp", "src/iges/iges_io.cpp", "src/entities/iges_entity.cpp"] + ENT,
  [("record and field formatting", "src/iges/iges_io.cpp FormatPDREC, AddPDItem, FormatDEInt, FormatPDREal"),
   ("sequence number assignment and section writers", "src/iges/iges.cpp IGES::Write, writeStart, writeGlobals"),
   ("directory entry writer", "src/entities/iges_entity.cpp writeDE, writePD"),
   ("per-entity formatters", "src/entities/entity*.cpp format")],
  observe=["bytes of the written file, parsed by an independent validator"])

p("C03", "Read and write preserve every entity's data and relationships",
  "For every valid model, reading a file and writing it produces a file describing the same entities: the same multiset of entities with the same type, form, status, attributes (level, line font and weight, colour, label, transform, comments) and parameters, reals agreeing to the documented precision, and the same graph of references. Equivalent spellings of the same input (whitespace, defaulted fields, exponent letters, delimiters, line packing) give the same result, and writing, reading and writing again reproduces the first output. What the getters of the API tell of an entity that was read, or built with the setters, is what the file states or the setters were given: attributes, parameters, comments and links to other entities.",
  ["inputs"],
  "All valid files over the supported entity types and forms, random reference graphs among them, boundary numeric values, and all spellings of free-format parameter data; and their repeated round trips.",
  "No test compares the data of a model before and after a read or write; success of the reader is the only observation.",
  ["src/iges/iges.cpp", "src/iges/iges_io.cpp", "src/entities/iges_entity.cpp"] + ENT,
  [("parameter data parsing", "src/entities/entity*.cpp readPD"), ("parameter data formatting", "src/entities/entity*.cpp format"),
   ("directory entry parsing and writing", "src/entities/iges_entity.cpp readDE, writeDE"),
   ("pointer resolution", "src/entities/entity*.cpp associate"),
   ("number parsing and printing", "src/iges/iges_io.cpp")],
  observe=["parsed content of input and output files compared as labelled graphs"])

p("C04", "Start and Global section data survive reading and writing",
  "Every Start-section line and every Global-section parameter that is set through the API or read from a file comes back unchanged after writing and reading, apart from the documented normalisations (data are brought to millimetres and scale 1 with units adjusted to match) and the fields the writer must set itself (file name, IGES version, maximum coordinate, modification date). Omitted Global parameters take the default the standard gives them, and reading accepts every permitted delimiter pair, string and date form.",
  ["inputs", "configurations"],
  "All values of the 26 Global parameters including strings with delimiters and Hollerith-like content, all permitted delimiters, omitted or defaulted fields, early end of record, any split over lines; Start sections of any number and length of lines.",
  "The tests write one fixed Global section with default delimiters and never look at what is read back.",
  ["src/iges/iges.cpp", "src/iges/iges_io.cpp"],
  [("Global section parser and defaults", "src/iges/iges.cpp readGlobals"), ("Global section writer", "src/iges/iges.cpp writeGlobals"),
   ("Start section", "src/iges/iges.cpp AddToHeader, writeStart"), ("Hollerith strings", "src/iges/iges_io.cpp ParseHString, AddSecItem")],
  observe=["global data of the model after reading", "Global and Start records in the written file"])

p("C05", "Changing units or model scale scales every length and nothing else",
  "Converting the units or the scale of a model multiplies every length-valued quantity of every entity and of the global data by the one factor that the conversion requires and leaves every count, flag, direction, angle, weight, knot, colour and name unchanged, so the geometry is the same real-world shape as before. Reading a file in any unit or scale gives the same model as reading the equivalent file in millimetres, and converting there and back restores it.",
  ["inputs", "configurations", "histories"],
  "All models over all supported entity types, all pairs of the ten supported units, positive scale factors, and any sequence of conversions, on reading and on demand.",
  "All test models are in millimetres with scale 1, so no scaling code runs in the tests.",
  ["src/iges/iges.cpp"] + ENT,
  [("unit conversion", "src/iges/iges.cpp ConvertUnits, ChangeModelScale, readGlobals"), ("per-entity scaling", "src/entities/entity*.cpp rescale")],
  observe=["parsed parameters of files written before and after the conversion", "curve evaluation before and after"])

p("C06", "The entity reference graph stays consistent through any API history",
  "Under any sequence of creating, linking, unlinking, replacing, transferring and deleting entities, references stay symmetric: an entity deleted or removed disappears from everything that referred to it, and everything still referred to stays alive and reachable with the data it had. An entity which becomes part of another passes into its model and is marked as physically dependent. No operation touches freed memory, frees twice or corrupts another entity, rejected operations change nothing, and destroying the model releases everything exactly once.",
  ["histories"],
  "All sequences of public operations on models and entities (add, set, delete, unlink, clear, cull, export, read, write, destroy), in any order, with valid and invalid arguments, over every entity type that refers to others.",
  "The tests build a few models once and never delete, replace or unlink anything before destruction.",
  ["src/entities/iges_entity.cpp", "src/iges/iges.cpp"] + ENT,
  [("back-reference lists", "src/entities/iges_entity.cpp addReference, delReference"),
   ("removal of children", "src/entities/entity*.cpp unlink, destructors"),
   ("ownership list", "src/iges/iges.cpp DelEntity, UnlinkEntity, AddEntity, Cull, Clear")],
  observe=["sanitizer and leak reports", "references returned by the public getters compared with a model of the graph", "written files"])

p("C07", "Export merges a model into another without losing or altering anything",
  "Exporting a model as a part into another model moves every entity across exactly once, leaves the source empty and the target's earlier content and globals unchanged, and returns a subfigure definition that lists the part's top-level geometry (its instances, or else its trimmed surfaces, or else its solids), each exactly once; a model without such geometry is left as it is. Lengths are brought to the target's units and scale, line weights to its number of gradations, and repeated or nested exports, with instances placed by transforms, write out as one valid file describing the same parts.",
  ["inputs", "histories"],
  "All pairs and chains of source and target models over the supported entity types, units, scales and line-weight tables, with instances, nested subassemblies and transforms.",
  "One test merges two fixed models in the same units and checks only that the result can be written.",
  ["src/iges/iges.cpp", "src/entities/entity308.cpp", "src/entities/entity408.cpp"],
  [("model merge", "src/iges/iges.cpp Export"), ("subfigure membership", "src/entities/entity308.cpp"), ("instances", "src/entities/entity408.cpp")],
  observe=["files written before the export and after it, compared as labelled graphs"])

p("C08", "Line, arc and circle intersections are exactly the geometric ones",
  "For any two outline segments (lines, arcs, circles), the reported intersection points are exactly the points common to both, each lying on both segments within tolerance, and the result does not depend on the order of the two, on their direction of travel, or on where the figure is moved or rotated. Overlap, containment and identity are reported as such by the flag; two arcs or circles which are tangent are reported by the flag alone (a circle tangent to the inside of another counts as inside it). Splitting a segment at points on it yields consecutive pieces that cover exactly the original.",
  ["inputs"],
  "All pairs of lines, clockwise and counterclockwise arcs and circles in general and degenerate position (tangent, concentric, collinear, sharing endpoints, spanning the angle wrap), at any location and rotation and over a range of sizes.",
  "Some thirty fixed configurations are tested, mostly axis-aligned and centred near the origin; agreement under motion, reversal and swapping is not.",
  ["src/geom/mcad_segment.cpp", "src/geom/mcad_helpers.cpp", "src/geom/mcad_elements.cpp"],
  [("pairwise intersection", "src/geom/mcad_segment.cpp GetIntersections, checkArcs, checkCircles, checkArcLine, checkLines, calcCircleIntercepts"), ("splitting", "src/geom/mcad_segment.cpp Split"),
   ("point comparison tolerance", "src/geom/mcad_helpers.cpp")],
  observe=["returned points and flags compared with an independent computation"])

p("C09", "Outline addition and subtraction compute the union and difference of regions",
  "For simple closed outlines whose boundaries cross at exactly two points, adding or subtracting an outline or circle returns true and leaves a closed, contiguous, counterclockwise boundary that encloses exactly the union or difference of the two regions. If the boundaries do not meet the operation returns false without an error; if they meet in any other way (at one point, at more than two, along a stretch, or touching in two points without overlapping) it returns false with the error flag set; in both cases the outline and the argument are unchanged and the argument stays with the caller, while on success it belongs to the outline. AddCutout subtracts a cutout which crosses the edge, merges it with a cutout it crosses, or else keeps it separately. IsInside tells for every point whether it is within or on the outline.",
  ["inputs", "histories"],
  "All outlines of lines, arcs and circles; overlapping in two points, nested, or disjoint; in any position, start segment and direction; and sequences of additions, subtractions and holes.",
  "The tests run two fixed shapes and check that files are written, not that the resulting region is right.",
  ["src/geom/mcad_outline.cpp", "src/geom/mcad_segment.cpp"],
  [("boolean operations", "src/geom/mcad_outline.cpp AddOutline, SubOutline, AddCutout"), ("contiguity check", "src/geom/mcad_outline.cpp IsContiguous"), ("point location", "src/geom/mcad_outline.cpp IsInside")],
  observe=["segments of the resulting outline: contiguity, enclosed area, point membership"])

p("C10", "Solid models generated from outlines are closed, matching surfaces",
  "A solid generated from a valid outline, with its cutouts and holes, consists of trimmed faces that together form a closed shell: every boundary curve of a face is a closed chain that lies on the face's surface, its parameter-space and model-space versions describe the same points, and each edge is shared by exactly two faces. Every face looks out of the solid. The top and bottom faces lie at the requested heights and have the outline's shape and area. A wall is the quadrilateral through its four points, and a cylinder covers exactly the arc it was given, seen from the side that was asked for.",
  ["inputs"],
  "All valid outlines of lines and arcs, circles, cutouts and holes, any pair of heights, any colour and instance placement; walls, planes and cylinders.",
  "The tests write files for a few shapes and read them back; nothing evaluates the geometry that is written.",
  ["src/geom/mcad_outline.cpp", "src/geom/mcad_segment.cpp", "src/geom/geom_wall.cpp", "src/geom/geom_cylinder.cpp", "src/geom/iges_geom_pcb.cpp"],
  [("trimmed planes", "src/geom/iges_geom_pcb.cpp GetTrimmedPlane"), ("vertical surfaces", "src/geom/iges_geom_pcb.cpp GetVerticalSurface"), ("walls and cylinders", "src/geom/geom_wall.cpp, src/geom/geom_cylinder.cpp")],
  observe=["entities of the written file evaluated by an independent NURBS evaluator"])

p("C11", "Curve queries and transforms agree with the geometry the data define",
  "For every curve entity, the start point, end point, closedness and segment count returned by the API are those of the curve its parameters define, with the entity's transform applied when asked for and not otherwise; composite curves follow their members in order. Transform composition, inverse and application agree with matrix algebra, and setting NURBS data and reading it back returns what was set.",
  ["inputs", "histories"],
  "All curve types (lines, arcs, conics, composite and NURBS curves) with arbitrary valid parameters, chains of transforms, and interpolation parameters over the whole range including its ends.",
  "The tests evaluate no curve apart from writing one sample per type.",
  ["src/entities/iges_curve.cpp", "src/entities/entity100.cpp", "src/entities/entity102.cpp", "src/entities/entity104.cpp", "src/entities/entity110.cpp", "src/entities/entity124.cpp", "src/entities/entity126.cpp", "src/entities/entity128.cpp", "src/geom/mcad_elements.cpp"],
  [("end points and interpolation", "src/entities/entity1*.cpp GetStartPoint, GetEndPoint, Interpolate"), ("transform algebra", "src/geom/mcad_elements.cpp, src/entities/entity124.cpp"), ("NURBS data", "src/entities/entity126.cpp, entity128.cpp")],
  observe=["values returned by the public queries compared with an independent evaluator"])

p("C12", "Reading any byte sequence as IDF is memory safe and terminates",
  "Loading any board or component-library file, however malformed or truncated, either succeeds or reports failure in time and memory bounded by its size, without invalid memory access, undefined behaviour, uncaught exception, hang or leak of resources. The converter program run on such input exits on its own with an error status and never leaves a file that claims to be a complete model.",
  ["inputs"],
  "All byte sequences: mutations of valid board and library files at byte, token, line and section level, truncations, missing or mismatched library files, extreme numbers, unbalanced quotes and unusual line endings.",
  "The tests convert only the twelve valid sample boards.",
  ["src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/idf/idf_helpers.cpp", "src/idf/idf_common.cpp", "src/idf/idf2igs.cpp"],
  [("section parsers", "src/idf/idf_parser.cpp"), ("tokeniser", "src/idf/idf_helpers.cpp"), ("outline readers", "src/idf/idf_outlines.cpp")],
  observe=["sanitizer reports", "exit status and output files of the converter"])

p("C13", "IDF to IGES conversion puts every part in the right place and shape",
  "For every valid board, the converted assembly contains the board body with its outline, thickness, cutouts and holes, and exactly one instance for each placed component with a usable outline, positioned, rotated, mounted on the side and raised as the board file states. The result does not depend on whether the input is in millimetres or mils, on the order of independent records, or on the direction in which the outlines of components are drawn.",
  ["inputs", "configurations"],
  "All valid boards: outlines of lines and arcs, cutouts, plated and unplated holes on and off the edge, components on top and bottom at any angle and offset, both units, both format versions the reader supports, all converter options.",
  "Twelve sample boards are converted; only the exit status and readability of the output are tested, not the model's content.",
  ["src/idf/idf2igs.cpp", "src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/geom/iges_geom_pcb.cpp"],
  [("conversion driver", "src/idf/idf2igs.cpp"), ("outline and placement data", "src/idf/idf_outlines.cpp"), ("model assembly", "src/iges/iges.cpp Export")],
  observe=["written file evaluated independently: instances, transforms, bounding boxes, face areas"])

p("C14", "Results do not depend on the process locale, which is left untouched",
  "Reading, writing and converting give byte-for-byte the same results whatever numeric locale the calling program has installed, including locales with a decimal comma or digit grouping. After every call, successful or failed, the program's locale is what it was before.",
  ["configurations", "inputs"],
  "All locales for the C and C++ global locale, all models, all success and failure paths of reading and writing.",
  "The tests run in the default C locale only.",
  ["src/iges/iges.cpp", "src/iges/iges_io.cpp", "src/iges/mcad_utils.cpp", "src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/idf/idf_common.cpp"],
  [("scoped switch to the C numeric locale", "src/iges/mcad_utils.cpp MCAD_LOCALE, src/iges/iges.cpp"), ("IDF numeric locale guard", "src/idf/idf_helpers.cpp, src/idf/idf_parser.cpp")],
  observe=["setlocale queries around each call", "bytes of files written under each locale"])

p("C15", "A failed or refused write is reported and never harms other data",
  "Writing reports success only if the complete file has been stored: when the disk is full, a size limit is hit, the target cannot be created or any write fails at any point, the call reports failure. An existing file is left untouched unless overwriting was asked for, the in-memory model is unchanged by any write, successful or not (apart from what a write records of itself: file name and date, flags the format prescribes, and a board's version counter and unit), and a later write to a good destination produces the complete file.",
  ["fault_sequences", "crash_points"],
  "All points at which an output operation can fail (each write call, flush and close; file size limits at every offset class), all kinds of unwritable target, with and without overwrite permission, repeated.",
  "The tests inject no fault and always write to fresh files in a writable directory.",
  ["src/iges/iges.cpp", "src/entities/iges_entity.cpp"],
  [("writer with overwrite check", "src/iges/iges.cpp Write"), ("entity writers checking the stream", "src/entities/iges_entity.cpp writeDE, writePD")],
  observe=["return value against the bytes on disk under injected faults"])

p("C16", "API wrapper objects track the life of what they wrap",
  "A wrapper object reports itself valid exactly while it refers to a live model, entity, outline or segment: deleting, clearing or destroying the underlying object by any route (culling included) invalidates every wrapper of it and no other, handing it over to another owner leaves it valid, and no call on an invalid wrapper touches freed memory or reports success. Operations through a wrapper have the same effect and result as the direct operation.",
  ["histories"],
  "All sequences of creating, attaching, detaching, re-attaching, using and destroying wrappers interleaved with direct and wrapped deletions, clears, reads and exports of the underlying objects.",
  "The tests of the wrappers create objects once and use them in order; none invalidates an object under a wrapper.",
  ["src/dllapi/dll_iges.cpp", "src/dllapi/dll_iges_entity.cpp", "src/dllapi/dll_iges_curve.cpp", "src/dllapi/dll_mcad_outline.cpp", "src/dllapi/dll_mcad_segment.cpp", "src/dllapi/dll_iges_geom_pcb.cpp", "src/entities/iges_entity.cpp", "src/iges/iges.cpp"],
  [("validation flags registered with the wrapped object", "AttachValidFlag, DetachValidFlag in src/iges/iges.cpp, src/entities/iges_entity.cpp, src/geom/mcad_*.cpp")],
  observe=["validity reported by each wrapper compared with a model", "sanitizer reports"])

p("C17", "The same calls on the same input give the same results",
  "Reading, building, querying, changing, converting, exporting and writing depend on the input and the preceding calls on the objects involved only: repeating the same calls gives the same answers and byte-for-byte the same files (apart from time stamps and the part names made from them), whatever the memory that the library is given held before, wherever its objects happen to lie, and whatever other models the process has handled. No result depends on a value that was never set, also for entities that were created and given no data.",
  ["inputs", "histories", "configurations"],
  "All sequences of calls, on valid and broken input, in all states of memory and all orders of addresses.",
  "The tests run each sequence once in a fresh process, whose memory is mostly zero, and compare nothing with a second run.",
  ["src/entities/", "src/iges/iges.cpp", "src/geom/", "src/idf/"],
  [("default values set by constructors", "src/entities/entity*.cpp init(), src/geom/*.cpp constructors"), ("order of entities in files", "src/iges/iges.cpp Write")],
  observe=["answers and files of runs with differently filled memory and randomised placement", "memcheck reports"])

p("C18", "An IDF board that is written and read again is the same board",
  "Whatever valid board and library the IDF reader has read, of either version and in either unit, writing it in millimetres or in mils gives files which the reader accepts and which describe the same board: the same outlines, cutouts, keepouts and regions with their owners, layers, sides and heights, the same drilled holes, notes, placements, component outlines and properties, and the same comments, with lengths and angles equal to the last place the writer gives. Writing the board that was read from these files gives the same files again, apart from the date and the version counter. The files are named after the name that was asked for with the extensions of the format.",
  ["inputs", "configurations"],
  "All valid boards and libraries of both versions, in both units and at all board sizes, all section kinds and record fields (quoted names, owners, associated parts, plating styles, fixed and unplaced components), and both output units.",
  "The tests convert boards to IGES; the IDF writer is not called by any test.",
  ["src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/idf/idf_common.cpp"],
  [("board writer", "src/idf/idf_parser.cpp WriteFile, writeBoardFile, writeLibFile"), ("section writers", "src/idf/idf_outlines.cpp writeData"),
   ("drills and notes", "src/idf/idf_common.cpp")],
  observe=["written board and library texts compared field by field with the input by an independent reader"])

p("C19", "Records without a meaning are refused, never misread",
  "A file in which a record has no meaning is refused as a whole: reading reports failure and does not hand out a model in which the record was guessed, shortened or left out. For IGES this covers numbers, strings and pointers that are none, pointers to nothing, to half an entry or to an entity which cannot stand there, missing parameters, counts that do not match, values outside those defined (flags, degrees, weights, decreasing knots, list indices), directory entries or parameter records that contradict each other, and missing, repeated, misnumbered or mislabelled lines. For IDF it covers fields that are no number or no keyword, missing fields, unknown units, negative drill diameters, outlines that are not closed or not numbered in order, and sections that do not end. The same file without the mistake is read.",
  ["inputs"],
  "All valid files with any one record spoiled in any field, of all entity types and section kinds, spellings, versions and units.",
  "The tests read well-formed files only, except for a few broken ones for single entities.",
  ["src/iges/iges.cpp", "src/iges/iges_io.cpp", "src/entities/", "src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/idf/idf_common.cpp", "src/idf/idf_helpers.cpp"],
  [("field parsers", "src/iges/iges_io.cpp ParseInt, ParseReal, ParseHString, DEItemToInt"), ("entity readers", "src/entities/entity*.cpp readDE, readPD, associate"),
   ("IDF records", "src/idf/idf_outlines.cpp readOutlines, readData; src/idf/idf_common.cpp read")],
  observe=["success or failure of reading each spoiled file, and of the file it was made from"])

p("C20", "Boards built or edited with the IDF API hold and write exactly what was accepted",
  "Whatever sequence of calls builds a board with the IDF library or edits one that was read, each call is either accepted with exactly its documented effect or refused without any: outlines, slots, holes, components, component outlines, parts, comments, thickness and header data that the getters tell, and the files that are written, are those of the calls accepted. An object owned by the other kind of CAD system (MCAD, ECAD) cannot be changed or removed; a second component of one reference, a hole or an outline which belongs elsewhere, and values outside their range are refused. An object given to a board is released exactly once, by the board, and one that was refused or taken back stays the user's. Loose segments in any order and direction are joined to the closed loops which they make up.",
  ["inputs", "histories"],
  "All sequences of calls of the editing API on empty boards and on boards read from files, as either kind of CAD system; all sets of segments which make up disjoint loops, in any order and direction.",
  "No test calls the editing API of the IDF library.",
  ["src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/idf/idf_common.cpp", "src/idf/idf_helpers.cpp"],
  [("boards and components", "src/idf/idf_parser.cpp IDF3_BOARD, IDF3_COMPONENT, IDF3_COMP_OUTLINE_DATA"), ("outlines and parts", "src/idf/idf_outlines.cpp BOARD_OUTLINE, IDF3_COMP_OUTLINE"),
   ("segments, holes, loops", "src/idf/idf_common.cpp IDF_SEGMENT, IDF_DRILL_DATA, IDF3::GetOutline")],
  observe=["answer of each call, state told by the getters after it, written files, sanitizer and leak reports"])

p("C21", "File paths keep their parts, whatever was asked or changed before",
  "A file path tells the folder, name, base name and extension of the path it was given, with the separators of the other system converted, whatever questions were asked before: the name is the last part; the extension is what follows the last dot of the name, if that is not its first character; the base name is the rest, and the whole name if there is no extension. Setting an extension, with or without its dot, replaces the present one or adds one, and setting none removes it; appending adds a separator only to a path which is not empty; each call tells whether it was accepted, and one that was refused changes nothing. The questions for a file, a folder or anything at the path are answered as the file system has it, links followed; a device, pipe or socket is neither file nor folder.",
  ["inputs", "histories"],
  "All paths, with folders, spaces, leading and repeated dots, of any length, and all sequences of calls; all kinds of file system objects.",
  "The tests convert a few files whose names have one dot.",
  ["src/iges/mcad_utils.cpp", "src/idf/idf2igs.cpp", "src/idf/idf_parser.cpp"],
  [("paths", "src/iges/mcad_utils.cpp MCAD_FILEPATH"), ("names of output files", "src/idf/idf2igs.cpp main, src/idf/idf_parser.cpp WriteFile")],
  observe=["answers of each call compared with a model of the path and with the objects made in a scratch folder"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
