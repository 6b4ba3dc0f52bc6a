#!/usr/bin/env python3
"""Single source of properties.jsonl (run by hand, output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

L="src/layer/"; I="src/layer/internal/"; S="src/storage/"

prop("C01","Every query answers from exactly the triples a layer holds",
 "For every committed layer, the set of triples obtained by listing everything, and every restricted form of asking (by subject, by subject and predicate, by predicate, by object, single match for subject and predicate, existence of one triple by ids or by strings), equals what follows from the additions and removals of that layer and its ancestors, with no duplicates and nothing missing. The net triple count reported for a layer (additions minus removals over its stack) equals the number of triples listed. Asking about ids or strings the layer does not know yields nothing rather than an error or a wrong triple.",
 ["inputs","histories"],
 "all sequences of layer commits (each any combination of additions/removals over a small triple alphabet that collides in subject, predicate, object, and uses one string as subject, node object and value), on top of bases of many sizes",
 "The tests check a handful of hand-written stacks through one or two query forms; the answer must be right for every stack of additions and removals and every query shape, including shadowing (removed below, re-added above), empty layers and size thresholds of the succinct structures.",
 [I+"mod.rs",I+"base.rs",I+"child.rs",I+"subject_iterator.rs",I+"predicate_iterator.rs",I+"object_iterator.rs",L+"layer.rs",L+"builder.rs"],
 [("merge of additions and removals over the stack", I+"subject_iterator.rs, "+I+"predicate_iterator.rs, "+I+"object_iterator.rs"),("triple existence by walking the stack", I+"mod.rs triple_exists"),("secondary indexes o->ps and predicate wavelet tree", L+"builder.rs build_indexes")],
 observe=["Layer::triples*/triple_exists/single_triple_sp/value_triple_exists/string_triple_to_id"])

prop("C02","Ids and strings form one stable bijection along a layer stack",
 "In every layer each id up to the reported count names exactly one subject/object node or value, each predicate id names exactly one predicate, and looking the string up gives the same id back; nodes and values never share an id even when their text is equal. An id assigned in a layer keeps its meaning in every descendant layer, however the stack was built or rolled up. Unknown strings and out-of-range ids are reported as absent.",
 ["inputs","histories"],
 "all commit sequences over the collision alphabet plus parametric sweeps over dictionary sizes (around block and word boundaries) and value types; rollups included",
 "Tests look up a few ids in two-layer stacks; bijection must hold for every id of every stack and dictionary size.",
 [I+"mod.rs",L+"id_map.rs",L+"simple_builder.rs",L+"builder.rs",S+"delta.rs"],
 [("per-layer dictionary with offsets of all ancestors", I+"mod.rs id lookups"),("dictionary-order to id permutation", L+"id_map.rs")],
 observe=["Layer::subject_id/predicate_id/object_node_id/object_value_id/id_subject/id_predicate/id_object/node_and_value_count/predicate_count"])

prop("C03","A layer's recorded changes are its exact difference from its parent",
 "The additions and removals reported for a layer are exactly the set difference between its triples and its parent's triples, through every form of asking (all, by subject, subject+predicate, predicate, object, single existence, counts). This does not depend on whether the layer is in memory, freshly loaded from disk, or hidden behind a rollup. Additions and removals are disjoint and re-applying them to the parent gives the layer.",
 ["inputs","histories","configurations"],
 "all commit sequences over the alphabet, each layer queried cached, uncached and after every kind of rollup, on every backend",
 "Tests cover two hand-made layers per backend; the file-based and in-memory code paths are separate implementations that must agree on every layer.",
 [S+"layer.rs",S+"cache.rs",I+"mod.rs",I+"child.rs"],
 [("file-based delta iterators", S+"layer.rs file_triple_*"),("in-memory delta iterators", I+"mod.rs internal_triple_*")],
 observe=["StoreLayer::triple_additions*/triple_removals*/triple_layer_addition_count/…"])

prop("C04","A builder commits once and its outcome depends only on what was asked",
 "The layer a builder produces is determined by the set of requested additions and removals alone: the order of requests, repetition, the thread they come from, and whether a triple is given by strings or by ids make no difference; adding a present triple, removing an absent one, and asking for both the addition and the removal of one triple in one builder change nothing. A builder can be committed successfully at most once, even by racing threads, and every later use of it fails with an error. Until it is committed nothing is visible in the store.",
 ["inputs","schedules","histories"],
 "all request lists up to a length over the alphabet (strings and ids), all permutations; all interleavings of 2-3 threads that add and commit the same builder",
 "Tests commit once from one thread with one order of requests.",
 [L+"simple_builder.rs","src/store/mod.rs",L+"builder.rs"],
 [("collect, sort, dedup, cancel, and drop no-ops before writing", L+"simple_builder.rs commit"),("take the inner builder under a write lock", "src/store/mod.rs commit_no_load")],
 observe=["StoreLayerBuilder::add_*/remove_*/commit/committed"], hook="scheduling points on the std lock inside the shared builder (cfg terminus_mc)")

prop("C05","Rollups are invisible to every query",
 "After any sequence of full, bounded or imprecise rollups on any layers of a stack, every layer (rolled up or not, descendant or ancestor) answers every content, id, delta, parent and history query exactly as before, both through existing handles and when loaded anew. New layers built on top of rolled-up layers behave as if no rollup had happened. A rollup request on a valid ancestor always succeeds.",
 ["histories","inputs"],
 "all sequences up to a depth of commits and rollup operations (all layer/bound pairs) interleaved with cache drops and reopens, on memory, directory and archive stores",
 "Tests roll up one fixed stack once; rollups of rollups, bounds inside an existing rollup and children created above are combinations nobody lists by hand.",
 [S+"layer.rs",S+"delta.rs",I+"rollup.rs",S+"cache.rs",S+"memory.rs",S+"archive.rs"],
 [("merging dictionaries, id maps and triples of a stack segment", S+"delta.rs"),("substituting the rollup when loading", S+"layer.rs get_layer_with_cache"),("original layer id and parent kept beside the rollup", I+"rollup.rs")],
 observe=["StoreLayer::rollup/rollup_upto/imprecise_rollup_upto, then all queries"])

prop("C06","Squashing keeps the content and drops exactly the history asked for",
 "Squashing a layer yields a new parentless layer with exactly the same triples, and squashing up to an ancestor yields a new layer whose parent is that ancestor and whose triples are exactly those of the source. The source layer and everything else in the store are unaffected. This holds for any stack, including stacks with rollups, empty layers and triples that were removed and re-added.",
 ["histories","inputs"],
 "all commit/rollup histories over the alphabet up to a depth, every layer squashed fully and up to every ancestor",
 "Tests squash one or two fixed stacks.",
 [S+"layer.rs",L+"builder.rs",L+"id_map.rs"],
 [("re-numbering of used ids into a fresh dictionary", S+"layer.rs squash, squash_upto")],
 observe=["StoreLayer::squash/squash_upto"])

prop("C07","Merging base layers gives the union of their triples",
 "Merging any list of parentless layers produces one parentless layer that holds exactly the union of their triples, with consistent identifiers, whatever the overlap between their nodes, predicates and values. The result does not depend on the order of the inputs, and the inputs are unaffected.",
 ["inputs"],
 "all tuples of up to 3 base layers drawn from all subsets of a colliding triple alphabet (including empty layers and duplicates), all orders; size sweeps",
 "One or two tests merge fixed layers.",
 [I+"base_merge.rs",S+"layer.rs"],
 [("k-way dictionary merge and id remapping", I+"base_merge.rs")],
 observe=["Store::merge_base_layers"])

prop("C08","Packs transport layers faithfully and ignore what they do not hold",
 "Exporting any set of layers and importing any selection of them into another store, of any kind, makes exactly the selected layers that were in the pack retrievable there with the same ids, parents, contents and changes; layers exported from a rolled-up store still carry their own data. Requested layers that are not in the pack are silently ignored and leave no trace: they stay absent and can be imported properly later. Importing a layer that is already there leaves it intact.",
 ["histories","inputs","configurations"],
 "all subsets of layers of small stacks (with rollups) exported, all selections imported (known, unknown, already present, in two steps) over all source/target store kinds",
 "Tests export a full stack once and import it whole into an empty store.",
 [S+"pack.rs",S+"layer.rs",S+"archive.rs",S+"memory.rs"],
 [("tar.gz of per-layer files without rollup links", S+"pack.rs")],
 observe=["Store::export_layers/import_layers"])

prop("C09","Applying a delta or a diff produces exactly the intended layer",
 "Applying another layer's changes to a builder on any base gives the base plus that layer's additions minus its removals; applying the diff towards another layer gives a layer whose triples equal that other layer's. It holds for unrelated layers, for equal layers, for empty layers, for a builder without parent, and across rollups.",
 ["inputs","histories"],
 "all pairs (base stack, source layer) from small histories over the alphabet, in the same and in different stacks, with and without rollups",
 "One test per operation on a fixed pair.",
 ["src/store/mod.rs"],
 [("translation of ids through strings", "src/store/mod.rs apply_delta, apply_diff")],
 observe=["StoreLayerBuilder::apply_delta/apply_diff"])

prop("C10","All store kinds agree, and reopening changes nothing",
 "The same history of operations gives the same observable results (heads, versions, contents, ids, changes, success or failure) on the in-memory, directory, archive and cached-archive stores and through the synchronous interface. Closing a persistent store and opening it again, in this or another process or with another cache size, shows the same labels, versions, layers and answers, and the history can be continued there.",
 ["histories","configurations"],
 "all operation histories (label and layer operations) up to a depth over two labels, replayed on every store kind with a reopen inserted at every position",
 "Tests run one scenario per backend and rarely reopen.",
 ["src/store/mod.rs","src/store/sync.rs",S+"directory.rs",S+"archive.rs",S+"memory.rs",S+"layer.rs"],
 [("one layer store trait, three persistence back ends", S+"layer.rs PersistentLayerStore"),("blocking wrappers", "src/store/sync.rs")],
 observe=["public Store API and sync API"])

prop("C11","Label operations are linearizable compare-and-set under concurrency",
 "For all concurrent creates, reads, conditional updates and deletes of labels by several threads or processes on one store, there is a sequential order consistent with real time that explains every result: one creator wins, an update succeeds only if the label still has exactly the value it was based on, versions grow by one per update, and no successful update is lost. A listing meanwhile shows, for each label, a state that label was in at some time during the listing. No operation fails, blocks for ever or sees a half-written label because another one is in progress.",
 ["schedules"],
 "all interleavings (at file-system call and lock granularity, up to a preemption bound) of 2-3 clients with 1-3 label operations each, on the memory, directory (separate handles, as separate processes) and cached directory label stores",
 "Tests exercise labels from one task; nothing controls the interleaving of file creation, locking, truncation and writing.",
 [S+"directory.rs",S+"locking.rs",S+"memory.rs",S+"label.rs"],
 [("advisory file lock around read-compare-write", S+"directory.rs set_label_option, "+S+"locking.rs"),("exclusive creation", S+"locking.rs create_and_open"),("async rwlock around map", S+"memory.rs, CachedDirectoryLabelStore")],
 observe=["LabelStore trait on all label stores"], hook=None)

prop("C12","A graph head only moves by its rules, even under races",
 "Setting a head succeeds if and only if the graph is empty or the new layer is the current head or one of its descendants, and otherwise leaves head and version untouched and reports failure; forcing always moves it; forcing with a version succeeds if and only if the version is current. With several writers racing, every successful plain update is a fast-forward of the head it replaced, a versioned update succeeds for at most one writer per version, and the version counts the successful updates.",
 ["schedules","histories"],
 "all small trees of layers and all sequences of set/force/versioned updates on them; all interleavings up to a preemption bound of 2-3 writers on memory and directory stores",
 "Tests do one fast-forward, one refused update and one forced update sequentially.",
 ["src/store/mod.rs",S+"layer.rs",S+"directory.rs",S+"memory.rs"],
 [("ancestor walk then compare-and-set on the label read before", "src/store/mod.rs set_head/force_set_head/force_set_head_version"),("layer_is_ancestor_of", S+"layer.rs")],
 observe=["NamedGraph::set_head/force_set_head/force_set_head_version/head_version"])

prop("C13","Acknowledged commits and head updates survive any crash",
 "Once a commit has returned, the layer and all its ancestors are readable with the same contents after a crash (process kill or power loss) at any later moment; once creating a graph or updating a head has returned, no later crash brings back an older value or loses the label. This holds on the directory and archive stores, whatever operation is in progress when the crash happens.",
 ["crash_points","histories"],
 "every prefix of the file-system operations of small histories (create, commit, set head, child commit, rollup, squash, import, second label), combined with every admissible loss of data and directory entries that were not yet synced",
 "Tests never crash; the guarantee is about every point between two system calls and every subset of unsynced writes.",
 [S+"directory.rs",S+"archive.rs",S+"locking.rs",L+"builder.rs","src/store/mod.rs"],
 [("sync of every file and of the containing directory before acknowledging", S+"directory.rs finalize, "+S+"archive.rs store_layer_file"),("sync of the label file", S+"directory.rs set_label_option")],
 observe=["file-system calls under the store directory (intercepted), then reopen"])

prop("C14","A crash leaves every label at the old or the new value and the store usable",
 "After a crash at any moment of any operation, reopening the store finds every label readable, with either the value before or the value after the interrupted update, never a torn, empty or foreign one; the layer it names is complete. The store accepts the full range of operations again, including repeating the interrupted one, without manual repair.",
 ["crash_points","histories"],
 "every prefix of the file-system operations of label creation, first and later head updates, clearing, deletion and re-creation, with every admissible loss of unsynced data; after recovery a follow-up history is run",
 "Tests never crash.",
 [S+"directory.rs",S+"locking.rs",S+"archive.rs"],
 [("label replacement", S+"directory.rs set_label_option, create_label, delete_label")],
 observe=["LabelStore / NamedGraph after reopen"])

prop("C15","A rollup in progress or cut short never disturbs readers",
 "While a rollup of a layer is being built and registered by one process, any other reader of that layer, in the same or in another process, gets the same answers as before; if the rolling process dies at any point, the layer stays readable with the same contents and can be rolled up again. A rollup becomes effective only when it is complete.",
 ["crash_points","schedules"],
 "every crash point (with lost unsynced writes) of rollup, bounded rollup and repeated rollup on directory and archive stores; all interleavings up to a preemption bound of registering a rollup and loading the layer from another handle",
 "Tests run rollups to completion without concurrent readers.",
 [S+"layer.rs",S+"archive.rs",S+"directory.rs",S+"memory.rs"],
 [("rollup pointer written after the rollup layer", S+"layer.rs register_rollup, write_rollup_file/read_rollup_file"),("lock on the layer file around the pointer", S+"archive.rs set_rollup/get_rollup")],
 observe=["Store::get_layer_from_id and queries during/after rollup"])

prop("C16","An I/O error is reported and damages nothing",
 "If any file-system call made by an operation fails (or writes less than asked), the operation either still completes correctly or returns an error; it never reports success for something that is not stored, never panics, and never hangs. Labels keep their old or take their new value, all previously acknowledged data stays readable, and repeating the operation once the fault is gone succeeds.",
 ["fault_sequences","histories"],
 "every single failing file-system call (error or short write, per call site and call number) during create, commit, set head, rollup, squash, import, load, on the directory and archive stores; pairs of faults in the thorough tier",
 "Tests never inject faults.",
 [S+"directory.rs",S+"archive.rs",S+"locking.rs",S+"layer.rs",S+"memory.rs","src/store/mod.rs"],
 [("error propagation with ?; rename/lock cleanup", S+"directory.rs, "+S+"archive.rs")],
 observe=["results of Store operations under injected faults, then state after reopen"])

prop("C17","The archive cache is transparent under concurrency, errors and cancellation",
 "Whatever is cached, being fetched or evicted, reading a layer through the caching archive backend returns exactly the bytes of the stored layer, or the error the underlying store gave, for every interleaving of concurrent readers and writers. Abandoning a read at any point never makes later or concurrent reads fail, panic or hang, and a failed read is not remembered.",
 ["schedules","fault_sequences"],
 "all poll orders of 2-3 concurrent requests (read, partial read, size, store) over 2-3 layers against a backend that suspends at every call, with every choice of one failing call and one abandoned request, for several cache limits",
 "Tests read one layer through the cache sequentially.",
 [S+"archive.rs"],
 [("resolving entry with a barrier lock, resolved entries in an LRU map", S+"archive.rs LruArchiveBackend")],
 observe=["ArchiveBackend/ArchiveMetadataBackend of the caching backend"])

prop("C18","The archive cache never holds more than its configured size",
 "The bytes of layer data kept by the caching archive backend never exceed the configured limit, for any sequence or interleaving of loads and stores, a limit of zero keeps nothing, and entries larger than the limit are served uncached. What is kept is the most recently used data that fits.",
 ["histories","schedules"],
 "all sequences up to a depth of loads and stores of layers of several sizes (smaller than, equal to, larger than the limit) for several limits, and all interleavings of two concurrent requests",
 "No test fills the cache beyond its limit.",
 [S+"archive.rs"],
 [("ensure_enough_cache_space and LRU order", S+"archive.rs")],
 observe=["liveness of the byte buffers handed to the cache, and which reads reach the underlying backend"])

prop("C19","Concurrent use of one store behaves like some sequential use",
 "Threads of one process that load layers, commit new ones, roll up, drop handles and invalidate caches at the same time on the same store all see the same layer contents a sequential execution would give; no interleaving panics, deadlocks, or yields a layer with mixed, stale or missing data. Racing commits on one parent give independent, complete children.",
 ["schedules"],
 "all interleavings up to a preemption bound of 2-3 threads with loads, commits, rollups and handle drops on memory, directory and archive stores, at lock and file-system call granularity",
 "Tests are single-task.",
 [S+"cache.rs",S+"layer.rs",S+"memory.rs",S+"archive.rs","src/store/mod.rs"],
 [("weak layer cache behind a lock", S+"cache.rs"),("construction map until finalize", S+"archive.rs"),("async lock around the layer map", S+"memory.rs")],
 observe=["results of concurrent Store operations"], hook="scheduling points on the std locks of the layer cache and archive construction map (cfg terminus_mc)")

prop("C20","A layer handle is an immutable snapshot",
 "A layer obtained once gives the same answers for as long as it is held, whatever is committed, rolled up, squashed, merged, imported, moved or deleted elsewhere in the store in the meantime. Loading the same id again at any time gives an equal layer.",
 ["histories"],
 "all histories up to a depth of commits, rollups, squashes, head moves, label deletions and cache drops, with every layer's full answer recorded at first sight and compared after every later operation on old and new handles",
 "Tests use handles immediately after creation.",
 [I+"mod.rs",S+"layer.rs",S+"cache.rs",S+"memory.rs"],
 [("layers are write-once files", S+"layer.rs"),("rollup switches the file set only for later loads", S+"layer.rs get_layer_with_cache")],
 observe=["all queries on retained handles"])

prop("C21","Listings show exactly what exists",
 "Listing the labels of a store returns each existing graph exactly once with its current value and nothing that was deleted or never created; listing the layers of a layer store returns each stored layer exactly once. This holds on every store kind and after reopening, and stray files or unfinished leftovers do not make the listing fail.",
 ["histories","configurations"],
 "all histories up to a depth of label creation, deletion, re-creation, updates, commits, rollups and squashes on every store kind, with listings after every step and after reopen",
 "Tests list one or two labels once; layer listing on real directory layouts is untested.",
 [S+"directory.rs",S+"archive.rs",S+"memory.rs"],
 [("directory scan", S+"directory.rs labels/directories, "+S+"archive.rs get_layer_names")],
 observe=["Store::labels, LabelStore::labels, LayerStore::layers"])

prop("C22","Ancestry is reported faithfully",
 "For every layer of every tree of layers, its parent, its list of ancestors from the base up, and the answer to 'is this an ancestor of that' agree with how the layers were created, for every pair of layers, before and after rollups, reopening and transport through a pack. Squashed and merged layers have exactly the parent the operation promises.",
 ["histories","configurations"],
 "all trees of up to 5 layers, all pairs, all rollup placements, on every store kind",
 "Tests check the parent of one child.",
 [S+"layer.rs",S+"archive.rs",S+"delta.rs","src/store/mod.rs"],
 [("parent file walk", S+"layer.rs layer_is_ancestor_of, retrieve_layer_stack_names")],
 observe=["StoreLayer::parent/parent_name/retrieve_layer_stack_names, LayerStore::layer_is_ancestor_of"])

prop("C23","Abandoning an operation part-way leaves the store sound",
 "If the future of any store operation is dropped at any suspension point (timeout, select, client gone), no panic occurs, no lock stays held, and every other and later operation completes normally. The label or layer the abandoned operation was working on has either its old or its new state, and everything acknowledged before is intact.",
 ["fault_sequences","histories"],
 "every suspension point of create, commit, set head, head, rollup, squash, load, import and delete on the memory, directory and archive stores, followed by a full check and a repetition of the operation",
 "Tests always await operations to the end.",
 [S+"locking.rs",S+"directory.rs",S+"archive.rs",S+"memory.rs","src/store/mod.rs"],
 [("lock release in destructors", S+"locking.rs Drop"),("resolving entry clean-up", S+"archive.rs")],
 observe=["store behaviour after a dropped future"])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
