#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
LOAD=["TMFMesh::read_tmf","TMFMesh::read_tmf_one","TMFMesh::read_tmf_async","TMFMesh::read_tmf_one_async"]
SAVE=["TMFMesh::write_tmf","TMFMesh::write_tmf_one"]
p("C01","An acknowledged save reads back as the same meshes, also after a crash",
"Once a save has reported success and the bytes it handed over are durable, loading them after any crash and through any stream that eventually delivers returns the same meshes: same order, names, arrays present, array lengths, triangle indices, custom data names and order, and custom integers exactly. Every vertex coordinate is within the requested fraction of the mesh's shortest non-zero edge of the original, every UV within the requested pixel deviation, every custom float and colour within its stated precision, and every normal and tangent keeps its signs and handedness and is within one step of the requested angular precision (all up to single-precision rounding). This holds for every valid mesh, including empty ones, point clouds, degenerate triangles, several meshes per file, and meshes whose data was reordered or unified before saving.",
["inputs","crash_points","fault_sequences","configurations"],"every valid mesh set and precision setting x every way the sink splits and interrupts the save x every crash after the durable point x every delivery of the file on reload",
"The tests save a handful of fixed models to a healthy file or vector once and mostly only check that loading does not fail; they never combine odd shapes and settings with short, interrupted I/O and restarts, and vertex round trips of whole models are not compared at all.",
["src/tmf_exporter.rs","src/tmf_importer.rs","src/tmf.rs","src/vertices.rs","src/normals.rs","src/tangents.rs","src/uv.rs","src/custom_data.rs","src/unaligned_rw.rs","src/lib.rs"],
[("segment collection, merging and splitting before encoding","src/tmf_exporter.rs write_mesh, merge_segments, opt_tris, opt_vertices"),("per-array quantisation to bit-packed data","src/vertices.rs, src/normals.rs, src/tangents.rs, src/uv.rs, src/custom_data.rs"),("decoded segments appended in file order","src/tmf.rs DecodedSegment::apply, src/tmf_importer.rs import_mesh")],
[("segment sequence","ordered list of typed arrays that make up a mesh in the file","src/tmf.rs EncodedSegment")],SAVE+LOAD)
p("C02","A save produces the same bytes whatever the sink, schedule or process does",
"Saving the same meshes with the same settings always hands over exactly the same bytes. It makes no difference how the sink accepts them (short writes, interruptions, transient refusals that ask for a retry), which thread saves, what else is loaded or saved concurrently or before in the process, or how the process's hash randomisation is seeded.",
["schedules","fault_sequences","inputs"],"every mesh set and setting x every sink behaviour that eventually accepts everything x every interleaving with other calls x every hash seed",
"The tests never compare two saves byte for byte and only use sinks that take everything at once in one thread with whatever hash seed the process got.",
["src/tmf_exporter.rs","src/tmf.rs","src/unaligned_rw.rs","src/vertices.rs"],
[("all segments are encoded to memory, then written in order with retrying whole-buffer writes","src/tmf_exporter.rs write_mesh"),("segment header and data written with write_all","src/tmf.rs EncodedSegment::write")],None,SAVE)
p("C03","A failed save is reported, leaves only a prefix, and can be retried",
"If the sink fails during a save (an error, a full disk, or accepting nothing), the save returns that failure, with the sink's error kind, instead of success or a panic. What the sink has accepted by then is exactly a prefix of the bytes a successful save would have produced, and repeating the save on a healthy sink yields the complete, identical file.",
["fault_sequences","crash_points","inputs"],"every mesh set x every position in the save at which the sink fails x every failure kind x every acceptance pattern before it",
"No test injects a write failure; every sink in the suite is a vector or a healthy file.",
["src/tmf_exporter.rs","src/tmf.rs","src/lib.rs"],
[("every write to the caller's sink propagates its error","src/tmf_exporter.rs write_tmf_header, write_mesh_name, write_mesh; src/tmf.rs EncodedSegment::write"),("IO errors are carried in the export error","src/lib.rs TMFExportError")],None,SAVE)
p("C04","A save cut short never loads",
"If a crash leaves only part of a saved file, that is any proper prefix of it, every way of loading it returns an end-of-data error. It never yields meshes, neither some of them nor shortened or zero-filled ones, and it never panics.",
["crash_points","inputs","fault_sequences"],"every saved file x every length at which it can be cut x every delivery of the remaining bytes",
"Only complete files are loaded in the tests; the fuzz regressions use a few fixed byte strings.",
["src/tmf_importer.rs","src/tmf.rs","src/read_extension.rs","src/unaligned_rw.rs"],
[("exact-length reads of header, names, counts and segment data","src/tmf_importer.rs import, import_mesh, read_string; src/tmf.rs EncodedSegment::read"),("all segments of a mesh must decode before the mesh is returned","src/tmf_importer.rs import_mesh")],None,LOAD)
p("C05","Loading does not depend on how the stream delivers the bytes",
"A file loads to exactly the same result (bit-identical meshes, or the same error) whether the stream hands the bytes over at once, in pieces of any size down to single bytes, or with any number of interrupted reads in between.",
["fault_sequences","schedules","inputs"],"every file x every partition of it into reads x every placement of interruptions",
"The tests load from in-memory slices and local files, which deliver everything asked for and are never interrupted.",
["src/tmf_importer.rs","src/tmf.rs","src/read_extension.rs","src/unaligned_rw.rs"],
[("exact-length reads that retry short and interrupted reads","src/read_extension.rs, src/tmf.rs EncodedSegment::read, src/tmf_importer.rs read_string")],None,LOAD)
p("C06","A failing stream makes the load fail with that error, never partial data",
"If the stream fails at any point of a load, the load returns an I/O error of the same kind the stream reported; it does not return meshes, mistake the failure for the end of the file, panic or hang. Loading the same file again from a healthy stream afterwards succeeds with the full, normal result.",
["fault_sequences","crash_points","inputs"],"every file x every read at which the stream can fail x every error kind x every delivery pattern before it",
"No test uses a stream that fails.",
["src/tmf_importer.rs","src/tmf.rs","src/lib.rs"],
[("stream errors are propagated out of every read","src/tmf_importer.rs import, import_mesh; src/tmf.rs EncodedSegment::read"),("already started segment decodes are abandoned on error","src/tmf_importer.rs import_mesh")],None,LOAD)
p("C07","A load takes exactly its own file's bytes from the stream",
"A successful load consumes exactly the bytes of its file, so that files stored back to back in one stream, or followed by unrelated data, load one after another, each giving the same result as on its own. Asking for a single mesh from a file holding none or several is refused with the matching error after the file was consumed. A stream that does not start with a TMF header, or requires a newer version than supported, is refused with the matching error without consuming anything past the header.",
["inputs","histories","fault_sequences"],"every sequence of files in one stream x every trailing data x every delivery pattern",
"Tests always load one whole slice or file and drop it; nobody looks at where the stream stands afterwards.",
["src/tmf_importer.rs","src/tmf.rs","src/lib.rs"],
[("no read-ahead: lengths are read, then exactly that many bytes","src/tmf_importer.rs import, import_mesh; src/tmf.rs EncodedSegment::read"),("magic and minimum-version check first","src/tmf_importer.rs read_tmf_header"),("single mesh selection","src/lib.rs read_tmf_one")],None,LOAD)
p("C08","A damaged file ends in a result or an error, in bounded time and memory",
"Loading a file whose bytes were damaged in any way (bits flipped, fields overwritten, pieces lost, duplicated or moved, lengths and counts changed, ends cut) always finishes with meshes or an error. It never panics, aborts or hangs, and the memory it uses stays within a fixed multiple of the number of bytes the stream really delivered plus a constant, except for arrays the file declares as zero bits per element, where the declared element count takes the place of the bytes.",
["inputs","fault_sequences"],"every corruption of a stored file, including several at once x every delivery and truncation",
"The suite has a few fixed crash inputs found by fuzzing; they neither cover the format nor measure memory.",
["src/tmf_importer.rs","src/tmf.rs","src/vertices.rs","src/normals.rs","src/tangents.rs","src/uv.rs","src/custom_data.rs","src/unaligned_rw.rs"],
[("limits on declared lengths and precisions","src/tmf.rs EncodedSegment::read; read functions of src/vertices.rs, src/normals.rs, src/uv.rs, src/tangents.rs, src/custom_data.rs, src/tmf_importer.rs"),("end-of-data detection in the bit reader","src/unaligned_rw.rs UnalignedReader")],None,LOAD)
p("C09","A load gives the same result in every decoding order, blocking or async",
"The segments of a file may be decoded concurrently, but in whatever order and on however many workers that happens, and whether the blocking or the asynchronous call is used, a load returns the same meshes, with the file's array and custom-data order, or the same error.",
["schedules","inputs","configurations"],"every file x every interleaving of segment decoding, worker count and wake-up order x every load entry point",
"The suite runs whatever order the runtime happens to choose, on small files where it is nearly always the same.",
["src/tmf_importer.rs","src/tmf.rs","src/lib.rs"],
[("decoded segments are joined in file order before being applied","src/tmf_importer.rs import_mesh"),("segment decoding spawned on the shared runtime","src/tmf_importer.rs import_mesh, src/lib.rs TOKIO_RUNTIME")],
[("spawned decode tasks","one per segment, joined in order","src/tmf_importer.rs import_mesh")],LOAD)
p("C10","Callers on different threads do not affect each other",
"When several threads load, save, import, export, optimise or inspect meshes at the same time, every call returns exactly what it would have returned alone, and all of them finish. This also holds when some of the calls fail, work on damaged files, or are torn down because their stream panics.",
["schedules","fault_sequences","inputs"],"every mix of operations on several threads x every interleaving at I/O, allocation and synchronisation points x failures and panics in some of them",
"The tests never run two operations of the library concurrently on purpose, and never with a failing neighbour.",
["src/lib.rs","src/tmf_importer.rs","src/tmf_exporter.rs","src/unify_data.rs"],
[("no shared mutable state between calls apart from the runtime","src/lib.rs TOKIO_RUNTIME"),("task results returned only to the load that spawned them","src/tmf_importer.rs import_mesh")],None,LOAD+SAVE+["TMFMesh::read_from_obj","TMFMesh::write_obj","TMFMesh::unify_index_data"])
p("C11","An abandoned load leaves nothing behind",
"A load that is given up part way (its future dropped at any point, its stream panicking, its stream failing) lets go of its stream and of all memory it used once outstanding work has drained, does not disturb loads running at the same time, and does not keep later loads from giving their normal result, however often it happens.",
["schedules","fault_sequences","crash_points"],"every point at which a load can be dropped or torn down x every interleaving with its decode work and with other loads x repeated many times",
"No test drops a load future or unwinds out of one, and none measures memory.",
["src/tmf_importer.rs","src/lib.rs"],
[("decode tasks own their data and are detached when the load is dropped","src/tmf_importer.rs import_mesh"),("the stream is owned by the load","src/tmf_importer.rs import")],None,LOAD)
p("C12","Unifying or reordering keeps every corner and never depends on hash seeds",
"Unifying a mesh's index arrays leaves every triangle corner with exactly the vertex, normal, UV and tangent it had, makes all index arrays that have data identical, leaves custom data alone, and doing it again changes nothing; reordering a mesh's data likewise leaves every corner unchanged. The outcome is the same under every hash seed, on every thread and whatever runs at the same time.",
["schedules","configurations","inputs"],"every valid mesh x every hash randomisation of the process and thread x interleavings with other threads",
"The tests look at one model and compare lengths and index arrays under one hash seed; corner values are not compared.",
["src/unify_data.rs","src/utilis.rs","src/lib.rs"],
[("combination ids assigned in order of first use and sorted back out of the hash map","src/unify_data.rs unfiy_data_common"),("first-use renumbering","src/utilis.rs optimize_triangle_indices")],None,["TMFMesh::unify_index_data","TMFMesh::reorder_data"])
p("C13","OBJ import gives what the text says, however and whether it is delivered",
"Importing an OBJ returns its objects in order with their names and, for every face corner, exactly the position, UV and normal the text gives it, in the same way however the stream splits or interrupts the text. A stream failure makes the import fail with that error kind, never with a partial result, and damaged text ends in a result or an error, never in a panic or hang.",
["fault_sequences","inputs"],"every OBJ text in the supported subset x every delivery x every failure point and kind x every corruption of the text",
"The tests import three fixed files from a healthy local disk and compare almost nothing but names.",
["src/obj.rs","src/model_importer.rs","src/triangulation.rs","src/utilis.rs"],
[("line parser with error propagation","src/obj.rs read_from_obj, parse_line"),("object assembly and pruning of leading unused data","src/model_importer.rs next_mesh, finish; src/utilis.rs fast_prune")],
[("accumulated arrays","positions, normals and UVs seen so far, shared by all objects of the file","src/model_importer.rs ModelImporter")],["TMFMesh::read_from_obj","TMFMesh::read_from_obj_one"])
p("C14","An acknowledged OBJ export is complete; a failed one says so",
"When an OBJ export reports success, the sink holds the whole text, and reading it gives back every mesh of the set in order with its name, exactly its coordinates, and every face corner referring to exactly the vertex, UV and normal it had, whatever the mix of meshes in the set. If the sink fails at any point, including only when flushed, the export returns an error of that kind and the sink holds just a prefix of that text; the text itself never depends on how the sink accepts it.",
["fault_sequences","crash_points","inputs"],"every set of valid meshes x every sink acceptance pattern x every failing write or flush",
"The tests export single models to healthy files and never read them back or fail a write.",
["src/obj.rs","src/lib.rs"],
[("buffered writer flushed explicitly with its error propagated","src/obj.rs write_obj"),("index offsets accumulated over objects","src/obj.rs write_obj, save_obj")],
[("index offsets","numbers of positions, UVs and normals already written","src/obj.rs write_obj")],["TMFMesh::write_obj","TMFMesh::write_obj_one"])
p("C15","The bit-packed stream layer loses and invents nothing over faulty streams",
"Values written through the bit-packed writer and read back through the bit-packed reader with the same sequence of widths (0 to 63 bits, one, two, or three at a time) are the same, whatever pieces the underlying streams move and however often they are interrupted. If the underlying stream fails, that failure is returned by the call or by the final flush, a successful final flush means every bit was handed over, and reading past the end is an error; neither dropping the writer nor any read panics.",
["fault_sequences","inputs","crash_points"],"every sequence of widths and values x every way the sink accepts and the source delivers x every failure point",
"The tests use a few fixed width sequences over vectors and slices, which neither split, interrupt nor fail.",
["src/unaligned_rw.rs"],
[("accumulator refill from short reads","src/unaligned_rw.rs read_to_internal_storage, read_unaligned, read2_unaligned, read3_unaligned, read_pair_unaligned"),("partial byte carried between writes, emitted at the end","src/unaligned_rw.rs write_unaligned, flush, Drop")],
[("accumulator","bits fetched or pending","src/unaligned_rw.rs UnalignedReader, UnalignedWriter")],["unaligned_rw::UnalignedReader","unaligned_rw::UnalignedWriter"])
p("C16","Repeated load and save cycles neither drift, grow nor start failing",
"Loading a file and saving it again with the same settings can be repeated any number of times, with crashes and failed attempts in between: every cycle succeeds, and each result stays as close to the previous one as the settings allow. From the first loaded generation on, names, indices, custom data and UVs no longer change at all, normals and tangents stay within rounding of where they are (with the approximate trigonometry of the fast_trig feature: their third component does, the others stay as close to the previous cycle as the approximation allows), vertices move by no more than rounding per cycle as long as the grid they are saved on stays the same, and the file does not keep growing.",
["histories","crash_points","fault_sequences"],"every mesh and setting x every number of load/save generations x crashes, failed saves and failed loads between them",
"No test saves what it has loaded, let alone many times.",
["src/custom_data.rs","src/vertices.rs","src/normals.rs","src/tangents.rs","src/uv.rs","src/tmf_exporter.rs"],
[("precision of custom data recovered on load","src/custom_data.rs CustomDataSegment::read"),("grids recomputed from loaded data","src/vertices.rs save_tmf_vertices")],None,SAVE+LOAD)
p("C17","Files pass between versions and independent readers unchanged",
"Files in the legacy layout (reader requirement up to 0.1) and files by newer writers that still allow this reader load correctly, with segments of unknown types (stored with a compression type this version knows) skipped without affecting the rest, over any delivery. In turn every saved file follows the published container layout: an independent decoder of the format finds in it the same names, counts, indices and values the library itself loads from it.",
["configurations","inputs","fault_sequences"],"every mesh content expressed in each supported layout version x unknown segments at any place x every segment split x every delivery pattern",
"The suite only loads files the same build just wrote, so any change made to both sides at once goes unnoticed.",
["src/tmf_importer.rs","src/tmf.rs","src/tmf_exporter.rs"],
[("field widths chosen by the file's minimum reader version","src/tmf_importer.rs SegLenWidth, SegTypeWidth, read_traingle_min"),("unknown segment types decode to nothing","src/tmf.rs SectionType::from_u8, DecodedSegment::decode")],None,SAVE+LOAD)
# not applicable
def n(id,title,statement,files,mech,why):
    p(id,title,statement,["inputs"],"every mesh",why,files,mech)
n("N01","Verification accepts exactly the meshes whose indices and values are valid","The integrity check reports an error exactly when an index is out of its array, an array is missing, a normal is not normalised or a UV is out of range.",["src/verify.rs"],[("per-array checks","src/verify.rs")],"One or two fixed models are verified.")
n("N02","Corner buffers expand to exactly the referenced elements","The per-corner vertex, normal and UV buffers hold, for each index in order, the element it refers to; normalising scales each normal to unit length and nothing else.",["src/lib.rs"],[("buffer expansion","src/lib.rs get_vertex_buffer, get_normal_buffer, get_uv_buffer, normalize")],"Only documentation examples touch them.")
n("N03","Triangulating a convex polygon covers it exactly once","With triangulation on, a convex face with n corners becomes n-2 non-overlapping triangles using its corners.",["src/triangulation.rs"],[("ear clipping","src/triangulation.rs triangulate")],"One model is imported and not checked.")
n("N04","Angles and edge lengths stay within the documented maximum deviation","The angle between an original and a loaded normal, and the change of any edge's length, never exceed the requested maximum.",["src/normals.rs","src/vertices.rs"],[("precision modes","src/normals.rs, src/vertices.rs")],"Random normals are checked against a much looser bound.")
n("N05","Saved files are smaller than OBJ and fast to load","Saved files reach the advertised compression ratio and load speed.",["src/tmf_exporter.rs"],[("splitting and merging","src/tmf_exporter.rs")],"Benchmarks only.")
n("N06","Setters, getters and appends behave like plain arrays","Setting returns the old array, getting returns what was set, appending concatenates, and custom data can be looked up by name.",["src/lib.rs"],[("accessors","src/lib.rs")],"Documentation examples sample them.")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
