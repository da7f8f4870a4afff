#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Reading a GiD-JSON project yields exactly the model it describes",
 "For every well-formed project document of the supported version, reading it yields a model whose solver options, materials, layers, coordinates, elements, grid, connectors, sources and output requests are exactly those the document states, with every number, name, id and cross-reference preserved and the stated geometry scaling applied once. The result does not depend on how the bytes are delivered by the stream, on where the allocator places objects, on the prior content of memory, or on which documents were read before in the same process.",
 ["inputs","schedules","configurations"],
 "All well-formed documents over every material, magnitude, source, output-request and grid kind the reader knows; all chunkings of the input stream; all heap placements and fill patterns; all earlier read histories.",
 "The six tests only check that five fixed files and an empty document do not throw; they look at no value, use one chunking and one heap layout.",
 ["src/parser/json/Parser.cpp","src/parser/json/Parser.h","src/core/parser/Parser.cpp","src/core/parser/Parser.h"],
 [("document sections mapped to model objects","src/parser/json/Parser.cpp: Parser::read"),("element records resolved to ids","src/parser/json/Parser.h: readElemStrAs"),("scaling after the read","src/core/parser/Parser.cpp: postReadOperations")],
 observe=["the model returned by the reader"])

prop("C02","A damaged or cut-off project document is refused, never half-read",
 "When a project document is truncated, its stream fails part-way, or an entry the format requires is missing, has the wrong type, refers to an id that does not exist or describes a grid that cannot be, reading ends with an exception. It never returns a model from which part of what the document describes is missing, never corrupts memory or crashes, always terminates, and leaves the process able to read a good document correctly.",
 ["fault_sequences","inputs"],
 "Every truncation point, read-error point and delivery schedule, and every single removal, retyping or dangling reference among required entries, of every generated document.",
 "No test feeds a damaged document to the reader; the damage positions are as many as the bytes of the document.",
 ["src/parser/json/Parser.cpp","src/parser/json/Parser.h"],
 [("required entries are looked up with a throwing accessor","src/parser/json/Parser.cpp"),("dangling ids throw from the id index","src/core/group/Identifiable.hpp: getId")],
 observe=["exception or model returned by the reader"])

prop("C03","Running out of memory during a read surfaces as an exception",
 "If an allocation fails at any point while a project document or STL file is being read, the caller gets an exception and never a model that lacks part of the input; no memory is read or written out of bounds, used after release or released twice. The same process can afterwards read the same input and gets the complete model.",
 ["fault_sequences"],
 "Every allocation of every generated read, failing once or from then on for a while.",
 "Tests never make an allocation fail; a read makes thousands of them.",
 ["src/parser/json/Parser.cpp","src/parser/stl/Parser.cpp","src/core/group/Group.hpp","src/core/group/Identifiable.hpp","src/core/geometry/coordinate/Group.hpp"],
 [("exceptions propagate out of the readers","src/parser/json/Parser.cpp: Parser::read"),("groups own their elements through shared pointers","src/core/group/Group.hpp")],
 observe=["exception or model returned by the readers","accesses to the simulated heap"])

prop("C04","Reading an ASCII STL file yields exactly its solids and facets",
 "For every well-formed ASCII STL file the model has one layer per solid, in order and with its name (the first word after solid), and one triangle per facet, in order, in its solid's layer and with exactly its three vertices in order; equal positions share one coordinate inside facets and every triangle carries the model's single perfectly conducting material. The result does not depend on stream chunking, indentation, heap placement, memory content or earlier reads.",
 ["inputs","schedules"],
 "All well-formed files up to the generator's size, all chunkings, heap placements and read histories.",
 "Two fixed files are read and only element counts are looked at.",
 ["src/parser/stl/Parser.cpp"],
 [("two-pass scan: vertices, then solids and loops","src/parser/stl/Parser.cpp: Parser::read"),("vertices found again by position","src/core/geometry/coordinate/Group.hpp: getPos")],
 observe=["the model returned by the reader"])

prop("C05","A damaged or cut-off STL file never yields invented geometry",
 "When an STL stream is truncated, fails part-way or has corrupted bytes, reading terminates without memory errors and either ends with an exception or returns a model all of whose triangles are complete facets present in the bytes that were delivered, in order. A file cut inside a facet is refused with an exception.",
 ["fault_sequences","inputs"],
 "Every truncation and read-error point of every generated file, and byte flips, deletions and duplications at arbitrary places.",
 "No test reads a damaged STL file.",
 ["src/parser/stl/Parser.cpp"],
 [("loop over vertex labels until the end of the loop","src/parser/stl/Parser.cpp: Parser::read")],
 observe=["exception or model returned by the reader"])

prop("C06","Tabulated data files are read exactly or refused",
 "Loading a tabulated excitation gives exactly the samples in its file, interpolated linearly between neighbours and held constant outside; loading grid positions from a file gives exactly the listed positions. If the file is missing, is a directory, is empty, contains something that is not a sample or cannot be read to its end, loading ends with an exception, and it always terminates.",
 ["inputs","fault_sequences"],
 "All generated sample and position files, delivered by the simulated disk in all read sizes, with open and read errors, interruptions and truncations at every point.",
 "The only test interpolates over in-memory samples; no file is read and no read fails in any test.",
 ["src/core/math/function/LinearInterpolation.hpp","src/core/source/magnitude/Numerical.cpp","src/parser/json/Parser.cpp"],
 [("stream extraction into a sorted map","src/core/math/function/LinearInterpolation.hpp: initFromFile"),("grid positions read through an intermediate string","src/parser/json/Parser.cpp: readGrids")],
 observe=["interpolated values","grid of the model read"])

prop("C07","Tabulating an excitation stores a faithful table or reports failure",
 "Turning an analytic excitation into a tabulated one writes a file that, when loaded, reproduces the excitation at every sampling instant within the written precision, and the new excitation behaves as one loaded from that file. If the file cannot be created or completely written, construction ends with an exception. A source that has a table keeps it, and no file is written.",
 ["inputs","fault_sequences","crash_points"],
 "All generated excitations, steps and durations; write errors, full disks, close errors and crashes at every output operation.",
 "No test tabulates an excitation, let alone on a failing disk.",
 ["src/core/source/magnitude/Numerical.cpp"],
 [("samples written unless collinear with their neighbours","src/core/source/magnitude/Numerical.cpp: Numerical::Numerical")],
 observe=["bytes on the simulated disk","exception or object returned"])

prop("C08","A VTK export describes the model completely and consistently",
 "After a VTK export the collection file names, once each and in order, exactly the non-empty parts of the model (each material in each layer, each source, each output request, boundaries and grid for structured meshes); every part file holds exactly that part's elements in order with their types, vertex order and positions to the single precision it announces, and its counts, offsets and connectivity agree. The model is left unchanged and exporting again produces identical files.",
 ["inputs","histories","configurations"],
 "All generated models, unstructured and structured; repeated exports; all heap placements; interrupted and short writes that storage allows.",
 "No test exercises the exporter.",
 ["src/exporter/vtk/Exporter.cpp","src/core/exporter/Exporter.cpp"],
 [("one part file per non-empty element selection","src/exporter/vtk/Exporter.cpp: writeFile_")],
 observe=["files on the simulated disk, read back by an independent reader"])

prop("C09","A VTK export that meets a storage fault reports it, and re-export repairs",
 "If creating the output folder, opening, writing or closing any output file fails during a VTK export, the export ends with an exception; an export that ends normally has left every file complete. After a failed export or a crash at any point, with whatever subset of the output survived, exporting again to the same name produces exactly the files a clean export would.",
 ["fault_sequences","crash_points"],
 "Every file-system operation of every generated export failing in each way it can (no space, I/O error, quota, permission, close error), transiently or permanently, and a crash at each of them.",
 "Tests never export, and never see a disk error or a crash.",
 ["src/exporter/vtk/Exporter.cpp","src/core/filesystem/Project.cpp"],
 [("output folder creation is checked","src/core/filesystem/Project.cpp: initDir_"),("stream state after writing","src/exporter/vtk/Exporter.cpp: writeFile_")],
 observe=["exception from the export","files on the simulated disk"])

prop("C10","A GiD export is self-consistent, whatever other exports are open",
 "Every post-process mesh file written for GiD contains exactly the model's non-empty parts, each as a mesh whose nodes and elements have ids unique in that file, whose connectivity refers only to nodes of that file at the right positions (with the geometry scaling undone) and whose elements match the model in type, order and number. This holds for any number of exports opened, used and closed in any interleaving.",
 ["inputs","schedules","histories"],
 "All generated models and all interleavings of opening, flushing and closing several exporters in one process.",
 "No test exercises the exporter; its counters and the library below it are process-wide state.",
 ["src/exporter/gid/Exporter.cpp","external/gidpost/gidpost.c","external/gidpost/gidpostInt.c","external/gidpost/gidpostHash.c"],
 [("running node and element counters","src/exporter/gid/Exporter.cpp: writeElements_"),("library start and stop by number of open exporters","src/exporter/gid/Exporter.cpp: init_")],
 state=[("open exporter count, node and element counters","shared by all exporters of the process","src/exporter/gid/Exporter.cpp")],
 observe=["files on the simulated disk, read back by an independent reader"])

prop("C11","A GiD export that cannot be stored is reported",
 "If the GiD mesh file cannot be created, or its content cannot be stored completely, the export ends with an exception; an export that ends normally and is closed without error has left a complete file. A failed or crashed export leaves the process, or its successor, able to export correctly.",
 ["fault_sequences","crash_points"],
 "Every open and write of every generated export failing in each way it can, and a crash at each of them, followed by another export.",
 "Tests never export, and never see a disk error.",
 ["src/exporter/gid/Exporter.cpp","external/gidpost/gidpostInt.c","external/gidpost/gidpost.c"],
 [("flush after the mesh is written","src/exporter/gid/Exporter.cpp: writeMesh_")],
 observe=["exception from the export","files on the simulated disk"])

prop("C12","Exporting leaves the model untouched",
 "No export, in any format, any number of times, in any order, successful or failed, changes anything observable of the model given to it: materials, options, coordinates, elements, grid, sources and output requests read back identical afterwards, and later exports are identical to the first.",
 ["histories","fault_sequences"],
 "All sequences of exports of a generated model to both formats, with storage and allocation faults in some of them.",
 "No test exports and looks at the model again.",
 ["src/exporter/gid/Exporter.cpp","src/exporter/vtk/Exporter.cpp"],
 [("the model is passed as read-only","src/exporter/gid/Exporter.h, src/exporter/vtk/Exporter.h")],
 observe=["the model before and after","files on the simulated disk"])

prop("C13","Mesh connectivity answers are correct and independent of memory layout",
 "For every mesh, the neighbour of a face is exactly the other volume element sharing that face's nodes, or none on the boundary, neighbourhood is reciprocal, and a surface's inner and outer faces are the faces of the volumes on its two sides, with the inner one chosen by the surface's normal: the one whose own face, by the order of its nodes, has the surface's normal. A face shared by more than two volumes makes the mesh non-reciprocal, and one of the others is told. Elements that are not in the mesh have no neighbours. Copies answer as their original did, also when it is gone. All answers, and connected components and their order, depend only on the mesh, never on where objects were allocated.",
 ["inputs","schedules"],
 "All generated tetrahedral, hexahedral and surface meshes, under all heap placements and memory contents the simulated allocator can produce.",
 "The tests use one two-element mesh with whatever addresses malloc gives, and one of them passes or fails with the addresses.",
 ["src/core/geometry/graph/Connectivities.cpp","src/core/geometry/graph/Element.hpp","src/core/geometry/graph/Graph.hpp","src/core/geometry/graph/Vertices.hpp"],
 [("adjacency graph over shared nodes","src/core/geometry/graph/Vertices.hpp: init"),("face matching among neighbours","src/core/geometry/graph/Connectivities.cpp: getMatchingFace_")],
 observe=["answers of the connectivity queries"])

prop("C14","Wires are assembled from lines the same way in every run",
 "For every mesh of lines with wire and connector materials, the wires found use every wire line exactly once, each wire is a connected run of lines with one wire material, in order, with its end connectors on the right ends and its per-line reversal marks consistent with the line directions; the result depends only on the mesh and never on where objects were allocated.",
 ["inputs","schedules"],
 "All generated open, branching, closed and connector-terminated line sets, under all heap placements.",
 "No test builds wires at all.",
 ["src/core/util/wire/Group.hpp","src/core/geometry/graph/Vertices.hpp","src/core/geometry/graph/Element.hpp"],
 [("splitting of the line graph at wire ends","src/core/util/wire/Group.hpp: constructGraph_"),("walking neighbours","src/core/util/wire/Group.hpp: getLines_")],
 observe=["wires, ids and reversal marks returned"])

prop("C15","File-system questions are answered truthfully, even when calls fail",
 "Whether a path is a folder, can be opened or executed, and what its full path, folder, base name, extension and path relative to another are, always agree with the state of the file system and the text of the path at that moment. When the underlying call fails the answer is no (or an exception, for full paths), never a guess depending on earlier memory content, and never a crash.",
 ["fault_sequences","inputs","histories"],
 "All generated directory trees, paths and histories of changes between calls; failing, interrupted and permission-denied calls; all prior stack and heap contents.",
 "The one test class for this is excluded as flaky because the answers depend on uninitialised memory.",
 ["src/core/filesystem/Project.cpp","src/core/filesystem/Project.h"],
 [("stat, realpath and name splitting","src/core/filesystem/Project.cpp")],
 observe=["return values of the queries"])

prop("C16","Making and removing project folders affects exactly the named folder",
 "Making a folder creates it, or does nothing if it exists, or ends with an exception if it cannot be created; removing a folder removes exactly that folder and what is inside it, or nothing if there is no such folder, whatever characters its name has. No other file or folder is created, changed or removed, and a failed removal is not reported as done.",
 ["inputs","fault_sequences","histories"],
 "All generated trees, folder names with blanks and special characters, sequences of operations, concurrent creation or removal by others, and failing calls.",
 "The only test makes and removes one folder with a plain name and is excluded as flaky.",
 ["src/core/filesystem/Project.cpp"],
 [("existence check then mkdir","src/core/filesystem/Project.cpp: initDir_"),("recursive removal","src/core/filesystem/Project.cpp: deleteDirIfExists_")],
 observe=["the simulated file system before and after"])

prop("C17","Progress display stays well-formed under any clock and terminal",
 "Whatever the terminal width, the number and size of steps and the behaviour of the clock (standing still, jumping forward or backward), each refresh prints one line no wider than the terminal in which percentage, step counter and bar agree with the progress made, the times shown are well-formed and never negative, and the final refresh shows completion. On something that is not a terminal only the title line is printed.",
 ["schedules","configurations","fault_sequences"],
 "All generated clocks with skew and jumps, terminal sizes including unknown, and histories of start, advance and end.",
 "No test runs the display, and no test controls clock or terminal.",
 ["src/core/util/ProgressBar.cpp"],
 [("elapsed time and layout arithmetic","src/core/util/ProgressBar.cpp: printLine_")],
 observe=["text written to the simulated terminal"])

prop("C18","Identified collections behave as sets keyed by id under any history",
 "After any sequence of insertions (with given or assigned ids), replacements, removals by position or id, sub-selections, copies and clears, including rejected or out-of-memory ones, a collection's size, order, ids, lookups by id and newly assigned ids are those of a simple list of distinct non-zero ids: every member is found under its id, nothing else is found, selecting by kind gives the members of that kind in order, and assigned ids are consecutive and continue after the largest id held (from one in a collection that is new or cleared). A rejected or failed insertion leaves the collection as it was. Collections without ids (sources, output requests) are the plain list of what was put into them, under the same operations.",
 ["histories","fault_sequences"],
 "All generated operation histories over layers, materials, elements, coordinates, sources and output requests, with duplicate and zero ids and with allocation failures at arbitrary points.",
 "Tests check three constructors and a copy; order-dependent index corruption needs longer histories and failures.",
 ["src/core/group/Identifiable.hpp","src/core/group/Group.hpp"],
 [("id index kept beside the element list","src/core/group/Identifiable.hpp: postprocess_, remove")],
 state=[("id index and last assigned id","where each id is in the list; ids handed out so far","src/core/group/Identifiable.h")],
 observe=["queries on the collection"])

prop("C19","Coordinates are found by position under any history",
 "After any history of adding coordinates or positions (allowing overlap or not), replacing, removing, scaling, copying and clearing, looking up a position returns a coordinate that is there and only if one is there, adding a position without overlap never duplicates one that was there before the call, and coordinates and elements moved to a new collection refer only to members of it.",
 ["histories","fault_sequences"],
 "All generated histories over grid-aligned and real positions, with overlapping positions and allocation failures.",
 "One test looks up one position after one insertion.",
 ["src/core/geometry/coordinate/Group.hpp","src/core/geometry/coordinate/Group.h"],
 [("position index kept beside the list","src/core/geometry/coordinate/Group.hpp: postprocess_, remove, applyScalingFactor")],
 state=[("position index","ordered by position, points into the list","src/core/geometry/coordinate/Group.h")],
 observe=["queries on the collection"])

prop("C20","Copies of a model are equal to it and independent of it",
 "A copied or assigned model, mesh, source or material has the same observable content as its source, all its references point inside the copy, and whatever is done afterwards to either one (change, scaling, export, destruction) leaves the other unchanged and usable. If copying runs out of memory, the source is unchanged and nothing released is used.",
 ["histories","fault_sequences"],
 "All generated models with and without mesh, sources and output requests; all histories of copy, assign, modify and destroy; allocation failures at every point.",
 "No test copies a model and then changes or destroys the original; a dangling reference shows only when memory is reused.",
 ["src/core/Data.cpp","src/core/geometry/mesh/Unstructured.cpp","src/core/geometry/mesh/Structured.cpp","src/core/geometry/mesh/Geometric.cpp","src/core/geometry/element/Group.hpp"],
 [("clone, then re-point to the clone's parts","src/core/Data.cpp: Data::Data"),("re-pointing by id","src/core/geometry/element/Group.hpp: reassignPointers")],
 observe=["the copies' content","accesses to the simulated heap"])

prop("C21","Converting a mesh to the grid and back keeps what lies on the grid",
 "Converting a mesh whose elements are aligned with the grid to structured form and back keeps every such element with its id, type, layer, material, vertex order and positions and every grid-aligned coordinate with its id and position; elements that are not aligned are left out rather than altered. The converted mesh stays valid after its source is destroyed and running out of memory during conversion leaves the source unchanged.",
 ["inputs","histories","fault_sequences"],
 "All generated regular and irregular grids and meshes with aligned and unaligned elements, heap placements and allocation failures, and source destruction in between.",
 "No test converts a mesh.",
 ["src/core/geometry/mesh/Structured.cpp","src/core/geometry/mesh/Unstructured.cpp","src/core/geometry/Grid.hpp"],
 [("per-element conversion against the new coordinate collection","src/core/geometry/element: toStructured, toUnstructured")],
 observe=["content of the converted meshes"])

prop("C22","Describing objects never disturbs the program's output stream",
 "Asking any printable object (mesh, layer, material, excitation, source, output request) for its description as text returns exactly what printing it would print, and afterwards everything printed by the program still reaches its real output in the format it had chosen, also when producing the description fails part-way or runs out of memory. Printing one of the library's objects leaves the format of the output as it was, too.",
 ["fault_sequences","histories"],
 "All generated objects of every printable kind; allocation failures and nested requests at every point.",
 "No test asks for a description, and the redirection is only unsafe when something fails in between.",
 ["src/core/class/Printable.h"],
 [("temporary redirection of standard output","src/core/class/Printable.h: str")],
 observe=["text returned and text reaching the simulated standard output"])

prop("C23","Solver settings hold exactly what was stored in them under any history",
 "Settings (solver settings, parsed options) behave as an ordered tree of named members, lists and values: under any sequence of adding, changing, removing, copying, moving, merging (also of a part of a tree into the tree itself), lookups by name and position agree, values come back exactly as they were stored (numbers to the last digit, text unchanged) and print accordingly, merging keeps every member with the right-hand one winning, copies are independent. An operation that is refused or runs out of memory leaves all settings as they were, and a question never gets a guessed answer.",
 ["histories","fault_sequences"],
 "All generated histories over several trees, with aliasing operands, values of every kind and allocation failures at every point.",
 "Tests store two values; what breaks needs removals followed by lookups, parts of a tree given to the tree itself, or failures part-way.",
 ["src/core/argument/Object.h","src/core/argument/Object.hpp","src/core/argument/StringParser.h","src/core/solver/Info.h"],
 [("members, names and name index kept in step","src/core/argument/Object.h: addMember, eraseMember, operator()"),("values kept as text","src/core/argument/Object.hpp: set, get, is")],
 observe=["queries of settings and text printed"])

prop("C24","A command line gives its settings, whatever the parser did before",
 "A parser with declared options, switches, positions, groups and exclusive groups gives for every well-formed command line (short, long, abbreviated, joined and attached forms, values before, between and after options) exactly the settings that line was written for: values as written, defaults for what is absent, nothing else; arguments it does not know are handed back or refused; a line that misses something required, repeats a single option, lacks a value, has a value of the wrong kind or uses two of an exclusive group is refused. The help names every declared argument. The answer does not depend on lines parsed, refused or failed for lack of memory before, nor on declarations that were refused.",
 ["histories","inputs","fault_sequences"],
 "All generated declarations and command lines, in all orders on one parser, with refused declarations and allocation failures at every point.",
 "The one test parses a single switch once.",
 ["src/core/argument/Parser.cpp","src/core/argument/GroupBase.cpp","src/core/argument/Group.cpp","src/core/argument/StringParser.h"],
 [("what was parsed so far is kept in the groups","src/core/argument/GroupBase.cpp: parsePosition, parseOption, parsePostprocess"),("declarations in several indexes, also of the enclosing groups","src/core/argument/GroupBase.cpp: addOptionProcess")],
 observe=["settings and rest of arguments returned by the parser"])

prop("C25","Options hold exactly what the settings say, whatever was set or refused before",
 "The options of mesher and solver hold, after any history of settings given to them, for each option the value of the last accepted settings that named it, and otherwise its default: numbers exact, modes, meshers and boundaries of the kind named, a number of steps and a final time replacing each other (the number of steps counts when both are given at once), the command line made from them, and what they print of themselves, saying the same. Settings with an unknown label or a value of the wrong kind are refused, and then (as after a failed allocation) all options stay as they were. Copies are independent; nothing depends on memory content.",
 ["histories","inputs","fault_sequences"],
 "All histories of settings, good and bad, copies and assignments, with allocation failures at every point.",
 "No test touches the options.",
 ["src/mesher/Options.cpp","src/solver/Options.cpp"],
 [("each named setting is taken over","src/mesher/Options.cpp: set; src/solver/Options.cpp: set"),("ending by time or by steps","src/solver/Options.cpp: setFinalTime, setNumberOfTimeSteps")],
 observe=["getters of the options","arguments made from solver options"])

prop("C26","Opening, running or entering a path does exactly that or is refused",
 "Executing a path runs that file and nothing else, once and with the arguments as given, whatever characters the path holds; opening it for writing or reading reaches that file's content; changing into it makes that folder the current one; listing it gives its entries of an extension. Where this can not be done (not there, no permission, a folder, a failing call) an exception tells it and nothing is run, opened or changed.",
 ["fault_sequences","inputs","histories"],
 "All generated trees, names and histories, with failing calls.",
 "No stable test runs, opens or enters anything.",
 ["src/core/filesystem/Project.cpp"],
 [("commands are given to the shell","src/core/filesystem/Project.cpp: exec"),("streams and the working directory","src/core/filesystem/Project.cpp: openFile_, openAsInput, changeDir")],
 observe=["exceptions","programs run","content read and written","current folder"])

prop("C27","The help of a command line is complete and readable on any terminal",
 "Usage and help print every word of what was declared exactly once and in order: the usage with the form of every argument, the description, every argument with its help, in which the program's name, the default and the choices are filled in, the groups with their names and descriptions, and the epilog. No line is wider than the terminal (80 columns where there is none or its width is not known) unless it holds what can not be broken, lines are broken only where the next word does not fit, and the lines of an argument's help line up. The text depends on nothing else, such as what memory held or what was printed before; running out of memory is an exception, never a shortened text.",
 ["fault_sequences","inputs","histories"],
 "All generated declarations, texts and terminals, with failing calls and allocations.",
 "No stable test prints a help or usage.",
 ["src/core/argument/Formatter.cpp","src/core/argument/Parser.cpp","src/core/argument/Group.cpp","src/core/argument/MutuallyExclusiveGroup.cpp"],
 [("placeholders are filled in","src/core/argument/Formatter.cpp: replaceProg_, replaceDefault_, replaceChoices_"),("wrapping and the terminal's width","src/core/argument/Formatter.cpp: formatText, getTermWidth_")],
 observe=["text printed","exceptions"])

prop("C28","Matrices are tables of numbers under any history",
 "After any history of making, copying, assigning (also from themselves, lists and numbers), filling, adding, multiplying, cutting, reshaping, transposing, sorting by columns, merging sorted rows, removing repeated rows and inverting, a matrix of any size, also of a fixed one, holds exactly the numbers the same history gives for a plain table, and its determinant, order, symmetry and largest values are those of the table; sorting keeps the rows as they are and only orders them, looking for a row in a sorted matrix gives its first occurrence, and inverting a matrix that has no inverse because a row or column is nothing but zeros is refused with an exception. An operation that runs out of memory leaves the matrix as it was; no operation changes another matrix or touches memory that is not the matrix's.",
 ["histories","fault_sequences","inputs"],
 "All generated histories over matrices of real and whole numbers of any shape, with allocation failures.",
 "Tests add, multiply and invert one small matrix; nothing is sorted, cut or run out of memory.",
 ["src/core/math/matrix/Dynamic.hpp","src/core/math/matrix/Matrix.hpp"],
 [("owned array beside the sizes","src/core/math/matrix/Dynamic.hpp: resizeVal"),("row sorting and searching","src/core/math/matrix/Matrix.hpp: QSRows_, partitionRows_, binarySearch_")],
 observe=["values, sizes and answers","exceptions","accesses to the simulated heap"])

prop("C29","A grid is edited completely or not at all",
 "After any history of making grids from extents, steps, numbers of cells or lines, copying, assigning, replacing lines, scaling, adding lines beyond a bound and padding, a grid consists of exactly the lines the same history gives for plain lists, in order, and its answers (numbers of cells, steps, extent, the cell of a line or point) follow from them. Padding keeps all lines, adds some only where asked, in order, in cells that begin like those at the border and end with the size asked for, covering about the padding, and always ends, however close the sizes are. An edit or grid that is impossible (no lines, lines out of order, no or negative cells, nothing to take the size of cells from) is refused with an exception, and a refused edit, or one that runs out of memory, leaves the grid as it was in every direction; no edit touches another grid.",
 ["histories","fault_sequences","inputs"],
 "All generated histories of edits, including impossible ones, with allocation failures.",
 "Tests pad two regular grids and look up some points; no edit fails, and no sizes are close.",
 ["src/core/geometry/Grid.hpp"],
 [("padding","src/core/geometry/Grid.hpp: enlarge, enlargeBound"),("lines beyond a bound","src/core/geometry/Grid.hpp: setAdditionalSteps"),("positions by direction","src/core/geometry/Grid.hpp: setPos, operator=")],
 observe=["positions of all grids","answers","exceptions","accesses to the simulated heap"])

prop("C30","Collections of elements answer by material, layer and place under any history",
 "After any history of adding elements (nodes, lines, conformal lines, polylines, surfaces and volumes of first and second order), changing the material or layer of one, all or a selection, setting a vertex, removing by material or place, copying, and replacing all coordinates, layers or materials by others with the same ids, every element refers to exactly the coordinates, layer and material the same history gives in plain records, and the collection tells exactly the elements of a material, of a layer, of both, with a coordinate, with a set of vertices or inside a box, in order, the coordinate closest to a point, its extent and that of faces of its volumes, and each element its extent, its first and last vertex, the coordinates of each of its sides and which face a surface is. An edit that is refused (an id that is missing or taken, replacements without a coordinate, layer or material in use, a coordinate that is not conformal for a conformal line) throws and leaves every element as it was, as does one that runs out of memory. Elements of different numbers of coordinates are never equal, a polyhedron is accepted exactly when its faces close it, and coordinates on edges and inside of cells are copied, compared and placed in space as they were given.",
 ["histories","fault_sequences","inputs"],
 "All generated histories of edits of collections of elements, including refused ones, with allocation failures and several heap layouts.",
 "Tests build a few elements and ask single questions; nothing replaces coordinates, refuses or runs out of memory.",
 ["src/core/geometry/element/","src/core/geometry/coordinate/"],
 [("questions by material, layer, vertex and place","src/core/geometry/element/Group.hpp"),("replacing what elements refer to","src/core/geometry/element/Group.hpp: reassignPointers"),("extent, first and last vertex, sides","src/core/geometry/element/Element.hpp"),("conformal lines","src/core/geometry/element/LineConformal.cpp"),("closed polyhedra","src/core/geometry/element/Polyhedron.cpp: checkClosedness"),("coordinates in cells","src/core/geometry/coordinate/Relative.cpp, Conformal.cpp")],
 observe=["what every element refers to","answers","exceptions","accesses to the simulated heap"])

prop("C31","Polynomials and boxes hold what was put into them under any history",
 "After any history of adding terms to polynomials, deriving, dividing, multiplying them in the same or in separate variables, copying, cloning and assigning, each polynomial has exactly the terms that arithmetic on plain lists gives, its value at any point and its highest power are those of the terms, and a derivative keeps no term that is zero. After any history of making, extending, setting, scaling, converting and copying boxes of real or whole numbers, each box has exactly the extent given by what was put into it, tells its kind, direction, normal, length, corners, sides, inner points, order and intersection with others by that extent, and the pieces a box is cut into, in steps or along the lines of any grid, cover it exactly, each once, and end only at multiples of the step or at lines of the grid. An operation that runs out of memory leaves every object as it was.",
 ["histories","fault_sequences","inputs"],
 "All generated histories of operations on polynomials and boxes, with allocation failures and several contents of memory.",
 "Tests never touch a polynomial, and only count the pieces of a few boxes.",
 ["src/core/math/function/Polynomial.h","src/core/math/function/Polynomial.hpp","src/core/geometry/Box.h","src/core/geometry/Box.hpp"],
 [("terms and products","src/core/math/function/Polynomial.hpp: addMonomial, operator*, operator^"),("derivatives and zeros","src/core/math/function/Polynomial.hpp: derive, removeZeros"),("extent and questions","src/core/geometry/Box.hpp"),("pieces","src/core/geometry/Box.hpp: chop")],
 observe=["terms, values and powers","extents, answers and pieces","accesses to the simulated heap"])

prop("C32","Materials, sources and requests keep their data under any history",
 "A material, wire, termination, surface or boundary, a source of any kind and an output request tell exactly the data they were made with: names, identifiers, parameters, poles, layers, directions, modes, types, domains, elements and excitations, also after any history of copying, cloning, assigning, naming, exchanging the ends of wires, and replacing or adding elements, and whatever happens to other objects and to those they were copied from. A description shows that data. Data that contradict themselves (a plane wave without direction or polarization or not perpendicular to it, a port outside its plane, without elements or without mode, a layer without permittivity, a table file of another kind or that is missing, bulk currents on elements with a material) are refused. An operation that is refused or runs out of memory leaves what exists as it was.",
 ["histories","fault_sequences","inputs"],
 "All generated histories of operations on materials, sources and output requests, with allocation failures and several contents of memory.",
 "Tests make a handful of materials and sources and never copy, edit or describe them.",
 ["src/core/physicalModel","src/core/source","src/core/outputRequest","src/core/math/axis/Local.cpp"],
 [("materials","src/core/physicalModel/volume/Dispersive.cpp, wire/Extremes.cpp, surface/Multilayer.cpp"),("sources","src/core/source/PlaneWave.cpp, OnLine.cpp, port/TEMCoaxial.cpp, port/Waveguide.cpp"),("requests","src/core/outputRequest/OutputRequest.hpp, Domain.cpp")],
 observe=["everything the objects tell","descriptions","refusals","accesses to the simulated heap"])

prop("C33","What the program did before never changes what it reads and writes",
 "Reading a document or an STL file, exporting a model in any of the formats, tabulating an excitation and taking a command line apart give, in a process that has done any number of other things before, exactly what they give as the first thing a fresh process does: the same model or the same refusal, the same files with the same content, the same text on the terminal. This also holds when what was done before was refused, met storage faults or ran out of memory, or is still in progress, and whatever is left in memory or is already loaded.",
 ["histories","fault_sequences","inputs"],
 "All generated sessions of reads, exports, tabulations and command lines, some refused, interrupted by faults or unfinished.",
 "Every test starts from a fresh state of its own and compares a few values of one operation.",
 ["src/parser","src/exporter","src/core/argument","src/core/source/magnitude","external/gidpost"],
 [("reading","src/parser/json/Parser.cpp, src/parser/stl/Parser.cpp"),("writing","src/exporter/gid/Exporter.cpp, src/exporter/vtk/Exporter.cpp, src/core/source/magnitude/Numerical.cpp"),("command lines","src/core/argument/Parser.cpp")],
 observe=["models and refusals","files","texts printed","accesses to the simulated heap"])

# ---- properties this technique cannot address (listed under not_applicable in MANIFEST.json)
def na(id,title,statement,why,files,mech):
    prop(id,title,statement,["inputs"],"All admissible inputs.",why,files,mech)

na("N01","Grid cell arithmetic is consistent",
 "For every grid and point, the cell and offset found for the point reproduce it, positions in a range are exactly the grid lines in it, and padding a grid adds exactly the requested padding without changing existing lines.",
 "Tests use two or three fixed grids.",["src/core/geometry/Grid.hpp"],[("cell search","src/core/geometry/Grid.hpp: getCellPair")])
na("N02","Simplex integration matrices are exact for their order",
 "For every order and dimension, simplex basis functions form a partition of unity and the mass, stiffness and lifting data integrate polynomials of that order exactly.",
 "There is no test of the matrices.",["src/core/math/simplex"],[("basis construction","src/core/math/simplex/*.hpp")])
na("N03","Matrix and vector algebra is correct",
 "Products, inverses, QR and eigen decompositions of static and dynamic matrices satisfy their defining equations within rounding for every well-conditioned input.",
 "Tests use a few fixed matrices.",["src/core/math/matrix","src/core/math/vector"],[("linear algebra kernels","src/core/math/matrix/*.hpp")])
na("N04","Local axes rotations are orthogonal and invertible",
 "Transforming a vector or tensor to a local frame and back gives the original for every set of angles.",
 "Tests use a few fixed angles.",["src/core/math/axis"],[("Euler rotation","src/core/math/axis")])
na("N05","Plane waves are transverse",
 "Every plane wave accepted has direction, polarisation and magnetic field mutually perpendicular, and angle and vector definitions agree.",
 "One test uses fixed angles.",["src/core/source/PlaneWave.cpp"],[("perpendicularity check","src/core/source/PlaneWave.cpp: init_")])
na("N06","Port fields follow their analytic mode formulas",
 "Waveguide and coaxial port fields equal the analytic mode at every point of every port cross-section and vanish on the conductors.",
 "Tests sample a few points of one geometry.",["src/core/source/port"],[("mode formulas","src/core/source/port/*.cpp")])
na("N07","Element geometry is correct",
 "Areas, volumes, normals, face numbering, containment and bounds of every element type agree with its vertices for every non-degenerate element.",
 "Hardly any element is tested.",["src/core/geometry/element"],[("per-type geometry","src/core/geometry/element/*.hpp")])
na("N10","Material models evaluate their defining formulas",
 "Impedances, admittances and dispersive responses returned by material models equal their defining formulas for every parameter and frequency.",
 "One test checks one vacuum flag.",["src/core/physicalModel"],[("formulas","src/core/physicalModel")])

if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for p in P:
            assert len(p["title"])<=80,(p["id"],len(p["title"]))
            f.write(json.dumps(p,ensure_ascii=False)+"\n")
    try:
        import jsonschema
        s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p in P: jsonschema.validate(p,s)
    except ImportError: pass
    print(len(P),"properties")
