#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": None}})

H="src/hnsw.rs"; IO="src/hnswio.rs"; DM="src/datamap.rs"; FL="src/flatten.rs"; FI="src/filter.rs"; API="src/api.rs"; EXT="src/libext.rs"

p("C01","Search answers are well formed and truthful",
  "For any index and any query, a search for k neighbours returns at most k answers, sorted by non-decreasing distance, never naming a stored point twice, each naming a point that was inserted, with that point's own id and position and with exactly the distance the index's distance function gives between the query and that point's vector. A non-empty index always returns at least one answer when k >= 1 and an empty index returns none; the answers do not depend on which of the equivalent search entry points is used.",
  ["inputs","configurations","histories"],
  "every element type and distance, every vector set (duplicates, zero vectors, variable length), every M, ef_construction, number of layers, flags, insertion history, every query, k and ef (ef < k, k > n, ef = 0 included)",
  "Tests run a handful of random f32/u16 sets with default flags and never compare reported distances, order or uniqueness with the inserted data.",
  [H,API], [("search","src/hnsw.rs:Hnsw::search"),("search_filter","src/hnsw.rs:Hnsw::search_filter"),("search_layer","src/hnsw.rs:Hnsw::search_layer"),("search_neighbours","src/api.rs:AnnT")],
  [("layer_indexed_points","stored points, per layer","src/hnsw.rs:Hnsw")], ["Hnsw::search","Hnsw::search_possible_filter","AnnT::search_neighbours"])
p("C02","Exhaustive search on a fully connected small index is exact",
  "On an index restricted to a single layer and holding no more than 2*M+1 points, a search whose ef is at least the number of points returns exactly the true k nearest stored points (as a multiset of distances, min(k,n) answers), whatever ef_construction (>= 1), pruning flags, data, distance or insertion order were used to build it.",
  ["inputs","configurations","histories"],
  "all data sets of n <= 2M+1 points, all insertion orders, all flags, all ef_construction >= 1, all queries, all k, all ef >= n, sequential or concurrent building, before or after a reload",
  "No test computes exact neighbours on small indexes; examples only print recall. Connectivity of the graph depends on every link-maintenance path, which no test asserts.",
  [H], [("reverse_update_neighborhood_simple","src/hnsw.rs"),("select_neighbours","src/hnsw.rs"),("search_layer","src/hnsw.rs")], (), ["Hnsw::search"])
p("C03","Filtered search returns only, and finds, accepted points",
  "A filtered search never returns a point its filter rejects; a filter accepting everything gives exactly the unfiltered answer, one rejecting everything gives no answer, and an id-list filter and the equivalent closure give the same answer. On a single-layer index of at most 2*M+1 points with ef at least the number of points, it returns exactly the true k nearest accepted points. On any index, when the filter accepts fewer points than max(k, ef), no accepted point that the layer 0 links reach from wherever the search may start is missed.",
  ["inputs","configurations"],
  "all accepted-id sets (empty, singleton, sparse, complement, all), all indexes including multi-layer ones, all queries, k and ef (k = ef = 1 included)",
  "filtertest.rs runs two fixed scenarios with one id range each and many matching points; never an empty or tiny accepted set nor an exact oracle.",
  [H,FI], [("search_layer filter branch","src/hnsw.rs:Hnsw::search_layer"),("search_filter","src/hnsw.rs:Hnsw::search_filter"),("FilterT impls","src/filter.rs")], (), ["Hnsw::search_filter","Hnsw::search_possible_filter"])
p("C04","The index stores exactly the points inserted",
  "After any sequence of insertions (single, slice, parallel batch, through the trait interface) and searches, the index holds exactly the inserted (id, vector) pairs, once each: the point counts, per-layer counts, whole-index and per-layer iterations (read at once or by pieces, and asked for more after their end), lookups by position and reported dimension all agree with the history. Positions are unique and dense within each layer, the reported maximum level is the highest level holding a point, lookups at positions that do not exist return nothing, and all of this is also true of an empty index.",
  ["inputs","histories","configurations"],
  "all histories mixing insert, insert_slice, parallel_insert, parallel_insert_slice, trait insertion and searches; all ids over the full usize range; all vectors; all layer limits; n = 0 included",
  "test_iter_point and test_iter_layerpoint only count points of one f32 set; nothing compares stored vectors or ids with the history, nor looks at the empty index.",
  [H,API], [("generate_new_point","src/hnsw.rs:PointIndexation"),("IterPoint","src/hnsw.rs"),("IterPointLayer","src/hnsw.rs"),("get_point_data","src/hnsw.rs:PointIndexation")],
  [("points_by_layer","points by layer and rank","src/hnsw.rs:PointIndexation"),("nb_point","number of points","src/hnsw.rs:PointIndexation"),("entry_point","point of highest level","src/hnsw.rs:PointIndexation")],
  ["Hnsw::get_nb_point","PointIndexation::get_layer_nb_point","&PointIndexation::into_iter","get_layer_iterator","get_point_data","get_max_level_observed"])
p("C05","Neighbour lists are bounded, sorted, truthful and never isolated",
  "In every reachable index each point's neighbour list holds at most 2*M entries at layer 0 and at most M at each layer above, is sorted by non-decreasing distance, contains neither the point itself nor the same point twice, and every entry names a stored point, of a level at least that layer, with its true id, position and distance. As soon as two points are stored, every point has at least one neighbour, and as long as no more than 2*M+1 points are stored the layer 0 links join all of them in one piece, whatever their levels. In an index built sequentially a link is recorded at both ends, unless the list of the other end is full of points at least as near.",
  ["inputs","histories","configurations","schedules"],
  "all data sets (many duplicates included), all M, ef_construction, flags, layer limits and insertion histories, sequential and parallel",
  "No test looks inside neighbour lists except a reload equality check; degree bounds and truthfulness of stored links are never asserted.",
  [H], [("select_neighbours","src/hnsw.rs"),("reverse_update_neighborhood_simple","src/hnsw.rs"),("insert_slice","src/hnsw.rs")],
  [("neighbours","per layer sorted neighbour lists","src/hnsw.rs:Point")], ["Point::get_neighborhood_id"])
p("C06","Concurrent insertions lose nothing and never deadlock",
  "Whatever the interleaving of threads inserting into the same index (including its very first points), every insertion terminates, all inserted points are stored exactly once with consistent counts, positions and maximum level, every neighbour list satisfies the sequential invariants (links recorded at both ends included), no point is left without a neighbour, and on a single-layer index of at most 2*M+1 points an exhaustive search afterwards is exact.",
  ["schedules","inputs","configurations"],
  "all interleavings, at lock-operation and distance-evaluation granularity, of 2..4 threads inserting into an empty or populated index, all level assignments, M and ef_construction",
  "serpar and the hnsw tests insert in parallel but only under the schedules the OS happens to give, with large M, and check nothing but termination or a count.",
  [H], [("generate_new_point locking","src/hnsw.rs:PointIndexation"),("check_entry_point","src/hnsw.rs:PointIndexation"),("reverse_update_neighborhood_simple","src/hnsw.rs"),("insert_slice","src/hnsw.rs")],
  [("entry_point","RwLock on the entry point","src/hnsw.rs"),("points_by_layer","RwLock on the point table","src/hnsw.rs"),("neighbours","RwLock per point","src/hnsw.rs")], ["Hnsw::insert","Hnsw::get_nb_point","Point::get_neighborhood_id","Hnsw::search"])
p("C07","Searching is read-only, repeatable, and parallel equals sequential",
  "A batch search returns, for each query in input order, exactly what a single search of that query returns, for any batch (empty, repeated queries, any k and ef) and any number of worker threads. Searching leaves the index unchanged: repeating a search gives the same answer and the stored points and links are the same after any number of searches.",
  ["inputs","schedules","histories"],
  "all indexes, all query batches (0, 1 and many queries, duplicates), all k and ef, thread pools of any size",
  "serpar compares nothing between the two search forms; no test runs a batch twice or checks order beyond one fixed set.",
  [H,API], [("parallel_search","src/hnsw.rs:Hnsw::parallel_search"),("search_with_id","src/hnsw.rs")], (), ["Hnsw::parallel_search","AnnT::parallel_search_neighbours"])
p("C08","Dump then reload gives back an equivalent index",
  "Reloading a dump with the same element type and distance yields an index with the same points (ids, vectors, positions), the same neighbour lists with the same distances, the same entry level, point count, M, ef_construction and level-sampling scale, and giving the same answer as the original to every search; the dump's description reports the true parameters. Dumping the reloaded index and reloading again changes nothing, and the dump returns the base name under which it can be reloaded.",
  ["inputs","histories","configurations"],
  "all indexes with the default number of layers, all element types (1 to many bytes, user structs), distances, dimensions, variable-length vectors, level scale modifications, ids, base names and directories, repeated dump/reload cycles, overwriting of older dumps",
  "The dump tests use f32 vectors of dimension 10, ids 0..n and only compare links; they never modify the level scale, use other types, variable lengths or large ids.",
  [IO,API], [("Hnsw::dump","src/hnswio.rs:HnswIoT"),("Description::dump","src/hnswio.rs"),("load_point_indexation","src/hnswio.rs"),("load_point_data","src/hnswio.rs"),("file_dump","src/api.rs:AnnT")],
  [("basename.hnsw.graph","description, layers, links, entry point","src/hnswio.rs"),("basename.hnsw.data","vectors in graph order","src/hnswio.rs")], ["AnnT::file_dump","HnswIo::load_hnsw","HnswIo::load_hnsw_with_dist","load_description"])
p("C09","Reload through memory mapping is equivalent to plain reload",
  "For every reload option (mapping off, on, or on with any in-memory threshold), and whether the options are given at construction, set later or set through deferred initialisation, a reload yields the same points, vectors, links, parameters and search answers as a plain reload. With mapping in effect at most the threshold number of vectors, those of the highest levels, are read into memory and the others stay in the mapped file; without it none is mapped. Asking for mapping where it cannot be used (graph-only reload, reload with an explicit distance, old formats) still gives a correct index or an error, never a crash.",
  ["inputs","configurations"],
  "all dumps of f32/i32/u32/u16/u8/user types, all thresholds (0, 1, n-1, n, n+1, larger), all ways to set the options, both reload functions",
  "One (flaky) test reloads one f32 dump with one threshold; other types, boundaries and the other reload function are never mapped.",
  [IO,DM], [("load_point_indexation mmap selection","src/hnswio.rs"),("DataMap::get_data","src/datamap.rs"),("ReloadOptions","src/hnswio.rs")], (), ["HnswIo::load_hnsw","HnswIo::load_hnsw_with_dist","HnswIo::set_options","HnswIo::set_values"])
p("C10","Dumping a reloaded index never damages an existing dump",
  "Dumping an index obtained by load_hnsw (plain, mapped or graph-only, grown or not), or by another reload from a reloader that maps the data, under a base name whose data file already exists leaves the existing dump's two files byte-for-byte unchanged, even while they are memory mapped, and returns a different base name under which an equivalent index can be reloaded; dumping a freshly built index under an existing name replaces it completely. After the re-dump the mapped index keeps returning the same vectors and answers.",
  ["histories","inputs"],
  "all sequences of dump, reload (mapped or not), insertion and re-dump in one directory, with base names reused or not, any number of earlier dumps",
  "One test re-dumps one mapped index once; nothing checks the old files' bytes, repeated re-dumps or the replacement case.",
  [IO,API], [("DumpInit::new","src/hnswio.rs"),("datamap_opt","src/hnsw.rs:Hnsw")], (), ["AnnT::file_dump","files in the dump directory"])
p("C11","Graph-only reload and flattening keep ids, links and distances",
  "Reloading any dump without its data type (graph only) yields the same ids, positions, neighbour lists and distances as the dumped index, with no vectors. Flattening an index (original, reloaded or graph-only) maps every stored id to exactly the neighbours it has in all layers taken together (one entry per layer in which the neighbour occurs), sorted by non-decreasing distance, and any other id to nothing; flattening an empty index gives an empty map.",
  ["inputs","configurations"],
  "all dumps of all element types and distances, all indexes including empty, single-point and multi-layer ones, all ids",
  "The flatten test looks at the neighbours of one point of one f32 index.",
  [IO,FL,H], [("load_point_data NoData branch","src/hnswio.rs"),("flatten_point","src/flatten.rs"),("FlatNeighborhood::from","src/flatten.rs")], (), ["HnswIo::load_hnsw::<NoData,NoDist>","FlatNeighborhood::get_neighbours"])
p("C12","The data map serves exactly the dumped vectors",
  "Opening a dump as a data map gives, for every id of the index, exactly its vector, nothing for any other id, the exact number of points, the ids in file order, and the dumped type and distance names. Opening it with another element type is refused and its type check accepts the dumped type and no other.",
  ["inputs","configurations"],
  "all dumps of element types of any size, any dimension and variable-length vectors, any ids, any other type asked for (same size, same module, same crate included)",
  "The two datamap tests read one f32 dump of fixed dimension and only u32/f32 names.",
  [DM,IO], [("from_hnswdump","src/datamap.rs"),("get_data","src/datamap.rs"),("check_data_type","src/datamap.rs"),("get_dataid_iter","src/datamap.rs")], (), ["DataMap"])
p("C13","A dump is never reloaded as something it is not",
  "A reload that asks for another element type or another distance than the dumped one, or that combines the graph file of one dump with the data file of a dump lacking one of its ids or having another dimension, never yields an index (distances are compared by their names without crate path). Only the graph-only reload accepts any dumped type and distance.",
  ["inputs","configurations"],
  "all pairs (dumped type and distance, requested type and distance) over built-in and user types and distances, both reload functions, all options; all pairs of dumps with different ids or dimension",
  "No test attempts a mismatched reload.",
  [IO,DM], [("distance name check","src/hnswio.rs:HnswIo::load_hnsw"),("type name check","src/hnswio.rs:load_point_indexation"),("origin id check","src/hnswio.rs:load_point_data")], (), ["HnswIo::load_hnsw","HnswIo::load_hnsw_with_dist"])
p("C14","Incomplete dumps are rejected with an error",
  "When a dump is incomplete - either file missing, empty or cut at any byte, as an interrupted dump leaves it - every reload (plain, mapped, with explicit distance, graph-only) returns an error: no index, no panic, no process exit. The description reader gives the true description when the cut left it whole, and an error otherwise. A data map opened on such files either reports an error or serves only true vectors.",
  ["crash_points","fault_sequences","inputs"],
  "every cut position in the graph file and in the data file of generated dumps, missing files, all reload functions and options",
  "No test reloads anything but a complete dump.",
  [IO,DM], [("read_exact error paths","src/hnswio.rs"),("load_description","src/hnswio.rs"),("from_hnswdump","src/datamap.rs")], (), ["HnswIo::load_hnsw","HnswIo::load_hnsw_with_dist","DataMap::from_hnswdump","load_description"])
p("C15","A dump that reports success is complete",
  "If a file of a dump cannot be created or any write fails (file-size limit or full device at any byte of either file) the dump reports an error, without panic; whenever it reports success the files on disk reload to an equivalent index. A failed dump leaves the in-memory index usable and a later dump of it succeeds. Indexes that cannot be dumped (empty, built with another number of layers than the default, with more connections than the format can hold, or whose distance or type name is too long for the format) are reported as errors.",
  ["fault_sequences","crash_points","inputs"],
  "every byte position at which writing fails for either file, missing or unusable directories and names, all element types, followed by retry; all layer limits; empty indexes",
  "No test makes a write fail.",
  [IO,API], [("flush and dump result","src/api.rs:AnnT::file_dump"),("write_all error propagation","src/hnswio.rs:dump_point"),("DumpInit::flush","src/hnswio.rs")], (), ["AnnT::file_dump"])
p("C16","The foreign-language interface agrees with the library",
  "Every exported function does what the corresponding library operation does for each of its element types: the named distance is the one used (unknown names are refused), inserted and batch-inserted vectors, ids, M, ef_construction and layer limit reach the index unchanged, searches and batch searches return the same ids, distances and counts in the same order, dumps reload through either interface, and the description reports the dumped values.",
  ["inputs","configurations","histories"],
  "all exported element types and distance names, function-pointer distances, all vectors, ids, k, ef, batch sizes and histories of calls",
  "No test calls the exported functions.",
  [EXT,API], [("generate_* macros","src/libext.rs"),("init_hnsw_*/new_hnsw_*","src/libext.rs"),("load_hnsw_description","src/libext.rs")], (), ["extern C functions of src/libext.rs"])
p("C17","Levels follow the documented exponential law within bounds",
  "The level drawn for an inserted point is always below the layer limit, and levels are distributed so that the fraction of points at level l or above is exp(-l/S) (overflow spread uniformly), with S = 1/ln(M) by default. Modifying the scale, of an index empty or not, fresh or reloaded, multiplies S by the given factor limited to [0.2, 1] for the points inserted from then on, successive modifications compound, and an index reloaded from a dump keeps the scale of the dumped one.",
  ["inputs","configurations","histories"],
  "all M >= 2, all layer limits 1..16, all modification factors (in and out of range) and their sequences, fresh and reloaded indexes; statistical over many drawn levels",
  "Nothing tests the level distribution; tests print it.",
  [H,IO], [("LayerGenerator::generate","src/hnsw.rs"),("modify_level_scale","src/hnsw.rs:Hnsw"),("LayerGenerator::new_with_scale","src/hnsw.rs")], (), ["PointIndexation::get_level_scale","Point::get_point_id"])
p("C18","A reloaded index keeps working as the original would",
  "After a reload (plain or mapped) insertion, search, dump and further reload may be interleaved in any order and the index always equals the model: the reloaded points plus the newly inserted ones, satisfying the content, link and search-answer guarantees of a freshly built index.",
  ["histories","inputs","configurations"],
  "all sequences of insert, parallel insert, search, dump, plain or mapped reload on one logical index",
  "Tests stop after the first reload; no test inserts into a reloaded index.",
  [IO,H], [("load_point_indexation","src/hnswio.rs"),("insert_slice","src/hnsw.rs")], (), ["HnswIo::load_hnsw","Hnsw::insert","Hnsw::search","AnnT::file_dump"])
p("C19","Dumps of earlier format versions stay readable",
  "A dump in each earlier supported format (version 3: no level scale; version 2: vectors in serialised form) reloads, plain or graph-only, to the same points, vectors, links and parameters, with the default level scale; version 3 data can also be mapped.",
  ["inputs","configurations"],
  "all version 2 and version 3 encodings of generated indexes of all serialisable element types",
  "The tests only ever read the version they just wrote.",
  [IO], [("load_description versions","src/hnswio.rs"),("load_point_data versions","src/hnswio.rs")], (), ["HnswIo::load_hnsw","load_description"])
p("C20","Dropping an index releases every stored point",
  "When an index goes out of scope - fresh, grown in parallel, reloaded plain, mapped or graph-only, empty - every point and vector it stored is released, although points reference each other.",
  ["histories","configurations","inputs"],
  "all indexes reachable by insertion, parallel insertion and reload, all level assignments and layer limits",
  "No test observes deallocation.",
  [H], [("Drop for PointIndexation","src/hnsw.rs")], (), ["Weak references to points","live instance count of the element type"])
p("C21","The description reader is total and faithful",
  "Reading a description from any byte sequence returns either a description whose fields are those encoded or an error, never a panic, and consumes no more than the description.",
  ["inputs"],
  "all byte sequences: valid headers of the three versions with any field values, mutated, cut, with non-text names, with oversized lengths",
  "Only headers produced by the current writer are ever read.",
  [IO], [("load_description","src/hnswio.rs")], (), ["hnswio::load_description"])
p("C22","Approximate search has high recall at documented settings",
  "At documented settings (M 16-48, ef_construction several hundred, ef at least M and a few times k, pruned neighbours not kept unless the data are uniform) the answers to k-nearest queries contain, on average, nearly all of the true k nearest points, for uniform and clustered data, sequential or parallel construction, before or after reload; recall does not fall when ef grows, and almost every stored point is found when searched for itself.",
  ["inputs","configurations"],
  "seeded random data sets, levels and queries over several dimensions, distances and settings; statistical with wide margins",
  "The recall examples need external data and are not tests; the tests never assert recall.",
  [H], [("insert_slice","src/hnsw.rs"),("select_neighbours","src/hnsw.rs"),("search_layer","src/hnsw.rs")], (), ["Hnsw::search"])
p("C23","A search leaves nothing better next to its answers",
  "The answers of a search are closed under the links it explores: no stored (and, with a filter, accepted) point linked to one of the answers is strictly nearer to the query than the farthest answer without being an answer itself, and fewer than k answers are given only when no linked accepted point is left out. What is explored depends on max(k, ef) only: an answer is the beginning of the one got by asking for all that is explored, and no search without filter answers with a point farther than the entry point.",
  ["inputs","configurations","histories"],
  "all indexes (all distances, with and without ties, several layers, flags changed between insertions), queries, k, ef and filters",
  "Tests look at recall printed on one index; the local optimality of answers is never asserted, and a search that stops early or skips links only lowers recall slightly.",
  [H], [("search_layer","src/hnsw.rs"),("search_general","src/hnsw.rs")], [("neighbours","per layer sorted neighbour lists","src/hnsw.rs:Point")], ["Hnsw::search","Hnsw::search_filter"])
p("C24","An insertion links the new point as documented and changes nothing else",
  "Inserting one point into an index (no other insertion running) links it, in each layer up to its level, to points among those a search of width ef_construction finds in that layer: to all of them when the list can hold them and extension is not asked (it applies to layer 0 only; it adds the neighbours of the candidates), otherwise to those nearer to it than to any nearer chosen one, completed by the nearest discarded ones when pruned candidates are kept. The points it is linked to record it, a full list losing its farthest entry; no other point, vector, id or list changes.",
  ["inputs","configurations","histories"],
  "all insertion histories, data, levels, M, ef_construction, flags changed between insertions, all sequential insertion routes",
  "No test looks at the links an insertion makes; a wrong selection or a lost link only lowers recall slightly.",
  [H], [("insert_slice","src/hnsw.rs"),("select_neighbours","src/hnsw.rs"),("reverse_update_neighborhood_simple","src/hnsw.rs")], [("neighbours","per layer sorted neighbour lists","src/hnsw.rs:Point")], ["Point::get_neighborhood_id","Hnsw::insert"])
p("C25","Reading operations run together and from within each other",
  "Any number of threads may at the same time search (with or without filter), iterate, look up, flatten, dump, and reload or map dumps of the same index, and a filter or a loop over the points may itself read the index in any of these ways: every operation terminates with the result it gives alone, dumps made together in one directory under different names each hold the index, and the index is unchanged. Operations on one index, building another one included, do not influence those on another.",
  ["schedules","inputs","histories"],
  "all interleavings of 2 or more threads reading an index (fresh, reloaded, mapped), all nestings of readings in filters and loops, all data and parameters",
  "The tests run one operation at a time (or one batch of searches); an interference needs a particular interleaving or a nested call.",
  [H,IO,FL,API], [("search_filter","src/hnsw.rs"),("IterPoint::next","src/hnsw.rs"),("PointIndexation::dump","src/hnswio.rs"),("FlatNeighborhood::from","src/flatten.rs")], (), ["Hnsw::search","Hnsw::search_filter","PointIndexation iterators","FlatNeighborhood","AnnT::file_dump","HnswIo::load_hnsw"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
