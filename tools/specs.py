#!/usr/bin/env python3
"""What each check is, for MANIFEST.json and the evidence files. Run to write specs.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL = "all OpenSEMBA sources under /repo/src and /repo/external/gidpost that the scenario reaches, compiled from the working tree; libstdc++ and libc formatting"
STUB = "operator new/delete (simulated heap); "
S = {}
def spec(p, technique, note, rule, state, stub, quick_s=20, thorough_s=600):
    S[p] = dict(technique=technique, note=note, rule=rule, state=state, real=REAL, stub=STUB + stub, quick_s=quick_s, thorough_s=thorough_s)

spec("C04", "seeded stream delivery schedules, heap layouts and read histories; generated files with known truth",
     "Samples; files up to 3 solids of 5 facets, up to three reads per process.",
     "A run generates one to three STL files and reads them in one process under a seeded heap layout and delivery schedule; non-trivial: the last file has more than one facet.",
     "hash of file bytes", "input stream buffer")
spec("C05", "stream cuts, read errors and byte damage at seeded places; independent scanner of complete facets; step budget",
     "Samples; one damaged file per run, then a good one.",
     "A run generates a file, damages it (cut, read error in any pass, changed, deleted, repeated or inserted bytes), reads it, then reads a good file; non-trivial: a damage was applied.",
     "hash of the bytes delivered", "input stream buffer")

spec("C18", "seeded operation histories with rejected insertions and allocation failures, checked against a plain list after every operation",
     "Samples; up to three collections of layers, materials or coordinates, up to 28 operations.",
     "A run applies a seeded history of insertions, removals, selections, copies, assignments and clears, some of them out of memory, and compares every collection with its list after every operation; every run is non-trivial.",
     "hash of the lists after an operation", "none besides the heap")

spec("C19", "seeded operation histories with overlapping positions, scaling and allocation failures, checked against a plain list of positions after every operation",
     "Samples; up to three collections of real or grid coordinates, up to 26 operations; collections sharing coordinates are not scaled.",
     "A run applies a seeded history of position and coordinate insertions, removals, scalings, copies, assignments and element moves, some of them out of memory, and looks up every position used so far after every operation; every run is non-trivial.",
     "hash of the position lists after an operation", "none besides the heap")

spec("C15", "seeded directory trees, failing system calls, other actors changing the path during a question, and prior stack and heap content; the simulated disk is the oracle",
     "Samples; trees of up to 4 levels, up to 14 questions; names without backslashes.",
     "A run builds a tree and asks up to 14 questions, some with a failing call or another actor; non-trivial: at least one failing call, race, full path, base name or relative path.",
     "hash of question, path, answer and fault", "disk, realpath, stat, current folder")

spec("C16", "seeded directory trees with odd names and links, failing system calls at any point, other actors making or removing entries midway; the whole simulated disk before and after is the oracle",
     "Samples; trees of up to 4 levels, up to 6 operations.",
     "A run builds two trees and makes or removes up to 6 folders, some with failing calls or another actor; non-trivial: a folder removal, a failing call or a race.",
     "hash of operation, name, outcome and number of entries left", "disk, stat, mkdir, remove, directory listing, shell commands (rm, mkdir, rmdir, mv, cp are modelled)")

spec("C17", "seeded terminals (width, resizing, no terminal, unknown width), wall clock jumps and stalls at any reading, step sizes up to the largest representable; every refresh is parsed back",
     "Samples; up to three bars one after the other, up to 20 steps each; the parts of a line that have no room may be left out.",
     "A run shows up to three progress bars on a simulated terminal; non-trivial: at least one refresh reached a terminal.",
     "hash of the text of a refresh", "terminal, clock, standard output")

spec("C22", "seeded models, output formats and states, allocation failures and printing that throws midway; printing to the simulated standard output is the oracle",
     "Samples; models of up to 5 elements besides sources and requests, up to 8 descriptions.",
     "A run builds a model and describes up to 8 of its objects, some out of memory, some with an output that failed before, some whose printing throws; every run is non-trivial.",
     "hash of object kind, text and whether memory ran out", "standard output")

spec("C20", "seeded histories of copying, assigning, changing and destroying models and meshes with allocation failures; canonical text of every live model after every operation",
     "Samples; up to five live models of up to 6 elements plus ports, up to 12 operations.",
     "A run builds one or two generated models and applies a seeded history of copies, assignments (some out of memory), changes and destructions, comparing the canonical text of every live model, references included, after every operation; non-trivial: something was copied, assigned or destroyed.",
     "hash of the texts of all live models", "none besides the heap")

spec("C08", "seeded models exported under seeded heap layouts, short and interrupted transfers and histories of repeated exports; an independent VTK reader checks the simulated disk against the generated truth",
     "Samples; up to two models of up to 10 elements plus sources, requests, bounds and grid, up to four exports.",
     "A run builds one or two generated models, exports them one to four times to various names and reads the files back; non-trivial: an exported model has elements.",
     "hash of files written", "disk")

spec("C09", "every kind of failing, full, interrupted and crashing disk at seeded operations of an export, loss of volatile writes, then exporting again; the files of a clean export are the oracle",
     "Samples; models of up to 5 elements plus sources, requests, bounds and grid, up to three faulty exports each.",
     "A run exports a generated model cleanly, then one to three times on a failing or crashing disk, then cleanly again; non-trivial: a fault fired.",
     "hash of the whole disk after a faulty export", "disk")

spec("C10", "seeded models exported in text and binary form with several exporters open at once, seeded interleavings of opening, flushing and closing; an independent reader (with its own inflate) checks the simulated disk against the generated truth",
     "Samples; up to two models of up to 8 elements plus sources, requests, bounds and grid, up to four exporters open, up to 9 operations.",
     "A run builds one or two generated models and opens, flushes and closes exporters of them in a seeded interleaving, reading the file concerned back after every operation; non-trivial: an exported model has elements.",
     "hash of the whole disk after an operation", "disk")

spec("C11", "every kind of failing, full, interrupted and crashing disk at seeded operations of a GiD export, loss of volatile writes, another exporter open meanwhile, then exporting again; the file of a clean export is the oracle",
     "Samples; models of up to 60 elements plus sources, requests, bounds and grid, up to three faulty exports each.",
     "A run exports a generated model cleanly, then one to three times on a failing or crashing disk, then cleanly again; non-trivial: a fault fired.",
     "hash of the whole disk after a faulty export", "disk")

spec("C12", "seeded sequences of exports of one or two models in three formats, with failing disks and failing allocations in some and exporters left open; canonical text of every model, references included, before and after every step",
     "Samples; up to two models of up to 8 elements plus sources, requests, bounds and grid, up to 7 exports; allocation failures in VTK exports only, because the bundled GiD library ends the process by assertion when its own allocations fail.",
     "A run builds one or two generated models, exports them two to seven times in seeded formats and compares their canonical texts after every export and closing; every run is non-trivial.",
     "hash of the whole disk after an export", "disk")

spec("C21", "seeded histories of conversions to the grid and back, from model meshes and from converted ones, with sources destroyed in between and failing allocations; which elements lie on the grid is known from the generated model",
     "Samples; meshes of up to 12 elements besides those of sources and requests on grids of up to 3x3x3 cells, up to five conversions, tolerances up to a tenth of a cell.",
     "A run builds a model and converts its mesh one to five times, comparing the whole converted mesh and its references with the generated truth; non-trivial: an element lies on the grid.",
     "hash of the text of a converted mesh", "none besides the heap")

spec("C06", "seeded sample and grid position files delivered by a disk with short and interrupted reads, failing opens and reads, cuts and damage; an independent scanner of the file is the oracle",
     "Samples; tables up to 700 samples, up to three files per process; files without two samples at one place.",
     "A run loads one to three files, some missing, folders, empty, cut, damaged or unreadable, and evaluates what was loaded at, between and beyond the samples; non-trivial: an intact file was loaded.",
     "hash of text, damage and outcome", "disk")

spec("C07", "seeded excitations, steps and durations tabulated to a disk that fails, fills up or crashed before; closed formulas of the excitations are the oracle",
     "Samples; up to 1200 sampling instants, two tables per process.",
     "A run tabulates one or two excitations (directly or through a source), some on failing or full disks, over older files or after a crash, and compares the file and the new excitation with the formula at every instant; non-trivial: a table was stored without failure.",
     "hash of the file", "disk")

spec("C01", "seeded project documents over every kind of material, grid, element, source and request, delivered in seeded chunks under seeded heap layouts and after earlier reads; the truth is written beside the document by the generator",
     "Samples; documents of up to 120 coordinates, 100 elements and 12 materials, up to three documents per process; origin and radii of coaxial ports only without scaling; graded padding only by its shape.",
     "A run reads one to three generated documents and compares the whole model with the truth; non-trivial: a document had a mesh.",
     "hash of the text", "disk, streams")

spec("C02", "seeded project documents cut off at any byte, delivered by streams and disks that fail, or damaged in one required entry (removed, of another type, dangling, too few numbers, unknown label, missing file); an exception is the only right answer, and good documents read afterwards are compared with their truth",
     "Samples; one damage per document; up to three documents per process; numbers and booleans are taken to convert into one another; ids out of the range of int are not tried.",
     "A run damages one to three generated documents and reads a good one after some of them; non-trivial: a damaged document was read.",
     "hash of text and damage", "disk, streams")

spec("C03", "seeded project documents and STL files read while one, some or all allocations from a seeded one on fail; the truth written beside the input decides whether a model that was returned is complete",
     "Samples; up to eight failing reads per process, then a good one; leaked memory is not looked at.",
     "A run counts the allocations of a read, repeats it with failures at seeded ones, and reads a good input at the end; non-trivial: a failing read took place.",
     "hash of the text", "streams and disk (without faults)")

spec("C13", "seeded meshes of tetrahedra of both orders, hexahedra, surfaces, lines and nodes, built again under different seeded heap layouts, with copies, assignments and failing allocations; a table of shared nodes is the oracle",
     "Samples; up to 72 volumes and 13 other elements, two meshes per process; where a face is shared by more than two volumes any of them may be told, but always the same one.",
     "A run builds one mesh two or three times under different heap layouts, asks every question about it and about copies, and compares answers with the table and with the first time; non-trivial: the mesh has two volumes.",
     "hash of all answers", "none besides the heap")

spec("C14", "seeded meshes of wires, branches, loops and connectors whose wires are known to the generator, assembled again under different seeded heap layouts, in different orders of storage, from copies and after failed attempts without memory",
     "Samples; up to five wires of up to eight lines, in meshes of whole and of real coordinates; no two lines of one wire join the same two nodes; a connector that points away from its wire may be taken or refused.",
     "A run builds one mesh two or three times under different heap layouts and compares the assembled wires with the truth and with the first time; every run is non-trivial.",
     "hash of mesh and wires", "none besides the heap")

spec("C23", "seeded histories of changes, copies, moves and merges of settings, within one tree as well, with allocation failures; a plain tree of values is the oracle after every operation",
     "Samples; up to three trees of up to 40 nodes, up to 24 operations.",
     "A run applies a seeded history of operations to up to three trees of settings, some out of memory or refused, and compares every tree, node by node, with its plain counterpart after every operation; every run is non-trivial.",
     "hash of all trees after an operation", "standard output")

spec("C24", "seeded histories of declarations (clashing ones too) and command lines (damaged ones too) on one parser with allocation failures; each line is written from the settings it has to give",
     "Samples; parsers of up to 15 options and positions in nested and exclusive groups, up to 8 lines.",
     "A run declares options, positions and groups, some of them clashing or out of memory, and parses several lines with the same parser, some damaged, some out of memory; what a good line gives is compared with what it was written for; non-trivial: a line was parsed.",
     "hash of the settings given by a line", "standard output and error")

spec("C25", "seeded histories of settings (some refused, some out of memory), copies and assignments on mesher and solver options placed on memory of seeded content; a table of names and values is the oracle",
     "Samples; up to three option objects of a kind, up to 12 steps of up to seven settings.",
     "A run puts settings on up to three option objects and compares every getter of every object with the table after each step; every run is non-trivial.",
     "hash of all tables after a step", "none besides the heap")

spec("C26", "seeded trees of files and folders with awkward names on a simulated disk with failing calls; programs run are taken from a simulated shell, and the whole disk is compared after every request",
     "Samples; trees of up to some twenty entries, up to 14 requests; the shell is a small one.",
     "A run executes, opens, enters and lists seeded paths and compares what was run, written, read and changed with the state of the simulated disk; non-trivial: something was done.",
     "hash of request, path and fault", "disk, shell")

spec("C27", "seeded declarations, texts and orders of printing on simulated terminals of any width, without one or with one that does not tell, memory filled differently and failing allocations; the text printed is read back word by word",
     "Samples; up to some twenty arguments in three levels of groups, texts of up to 60 words, up to five printings; ASCII only.",
     "A run declares a command line, prints its usage or help several times and compares the words, the line breaks, the widths and the columns with those of the declaration; non-trivial: something was printed.",
     "hash of the text printed", "terminal, memory")

spec("C28", "seeded histories of operations on dynamic matrices of real and whole numbers, with allocation failures, on memory of seeded content; plain tables are the oracle after every operation",
     "Samples; up to three matrices of up to 14 rows and a few columns (larger after products), up to 30 operations; small numbers, so that results are exact; inverses of well-conditioned matrices only.",
     "A run applies a seeded history of operations to up to three matrices and compares all of them with plain tables after each; every run is non-trivial.",
     "hash of all matrices after an operation", "none besides the heap")

spec("C29", "seeded histories of edits of grids, some impossible, with allocation failures, on memory of seeded content; plain lists of positions are the oracle after every edit",
     "Samples; up to three grids of up to some hundred lines, up to 20 edits; how fast graded cells grow is only bounded.",
     "A run applies a seeded history of edits to up to three grids and compares all of them and their answers with plain lists after each; every run is non-trivial.",
     "hash of all grids after an edit", "none besides the heap")

spec("C30", "seeded histories of edits of collections of elements, some refused, with allocation failures and several heap layouts; plain records of what every element refers to are the oracle after every edit",
     "Samples; one collection of up to some sixty elements over up to 26 coordinates, up to 24 edits; positions are multiples of a quarter, so that extents and distances are exact.",
     "A run applies a seeded history of edits to a collection and compares every element and the answers of the collection with plain records after each; every run is non-trivial.",
     "hash of all elements after an edit", "none besides the heap")

spec("C31", "seeded histories of operations on polynomials and boxes, with allocation failures, on memory of seeded content; plain lists of terms and extents are the oracle after every operation",
     "Samples; up to three polynomials of up to four variables or three boxes, up to 30 operations; coefficients and corners are short fractions, so that results are exact or nearly so; boxes without content are not cut or compared.",
     "A run applies a seeded history of operations to polynomials, or to boxes of real or of whole numbers, and compares all of them and their answers with plain lists after each; every run is non-trivial.",
     "hash of all objects after an operation", "none besides the heap")

spec("C32", "seeded histories of making, copying, assigning, editing and describing materials, sources, output requests and their domains, some of them refused, with allocation failures, on memory of seeded content; plain records of what was given are the oracle after every operation",
     "Samples; up to seven materials of 24 kinds, six sources of six kinds and six requests of five kinds on 14 elements, up to 40 operations; a target whose assignment ran out of memory is discarded; formulas of fields and materials are only compared where they follow from single numbers given.",
     "A run applies a seeded history of operations and compares everything all objects tell with plain records after each; every run is non-trivial.",
     "hash of kinds, names, elements and domains after an operation", "none besides the heap and one data file in the simulated file system")

spec("C33", "seeded sessions of reads, exports, tabulations and command lines in one process, with refused, failing and unfinished ones in between; what each of them gives alone in a process forked before any of them ran is the oracle",
     "Samples; up to four operations of nine kinds per session, carried out up to eight times in all; documents, files and models of the size of the other checks; excitations are tabulated from Gaussians only.",
     "A run plans its operations, performs each alone in a forked process, and then all of them in one process among others that fail, and compares everything they give; a run is non-trivial when an operation followed another one.",
     "hash of what an operation gave", "disk, allocator, input streams")

if __name__ == "__main__":
    json.dump(S, open(os.path.join(V, "tools", "specs.json"), "w"), indent=1)
    print(len(S), "specs")
