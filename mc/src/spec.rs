//! Per property: what a run enumerates, and what it takes for granted. Copied into the evidence.
pub fn spec(id: &str) -> (&'static str, &'static [&'static str]) {
    const SMALL: &str = "small-scope hypothesis: the alphabets, depths and sizes named in DESIGN.md";
    const SCHED: &str = "threads are interrupted only at file system calls and lock operations (sequentially consistent in between); \
                         no preemption next to accesses that conflict with no other thread's";
    match id {
        "C01" | "C02" | "C03" => (
            "every commit tree of the configured depth over small colliding triple alphabets (each commit toggles any subset; \
             requests by string and by id), size sweeps of every generator over block and width boundaries, and every number of \
             index runs that a small limit of the object index sort gives; histories over rolled up, squashed and merged layers; each layer is observed through held handle, cached load and fresh load and compared with a set model. Distinct: different \
             operation history",
            &[SMALL],
        ),
        "C04" => (
            "all request sequences of add/remove by string/by id up to the bound over present, absent, ancestor-known and unknown \
             triples, with commit, double commit and use after commit (requests, delta, diff); schedules of threads sharing one builder. Distinct: \
             different request sequence or schedule",
            &[SMALL, SCHED, "add_id_triple with ids the parent does not know is outside the contract"],
        ),
        "C05" => (
            "histories: chains of commits x every rollup kind on every layer (pairs, triples of rollups on selected chains) x \
             follow-up commits, with and without cached handles, all store kinds; the layer must answer exactly as before. \
             Distinct: different history",
            &[SMALL],
        ),
        "C06" => ("chains of commits x every squash and bounded squash, with rollups before, commits after. Distinct: different history", &[SMALL]),
        "C07" => ("all ordered single, pairs and triples of base layers over six scenes, merges of merged, squashed and rolled up layers, size sweeps, all input orders. Distinct: different history", &[SMALL]),
        "C08" => (
            "every subset of a five layer tree exported, every subset imported (and re-imported, then the rest) into every store kind, with \
             rollups present (quick: between store kinds not in memory only what was exported; from or into one also all, single \
             layers and all but one); the parents told by a pack; packs of large layers; trees with squashed and merged layers; rollup layers sent along; packs sent on. Distinct: different (export, import, source, target)",
            &[SMALL],
        ),
        "C09" => ("every ordered pair of layers of small trees: apply delta, apply diff, apply merge. Distinct: different history", &[SMALL]),
        "C10" => ("operation sequences over the whole API run on every store kind and across reopening; canonical states compared. Distinct: (sequence, store kind)", &[SMALL]),
        "C11" => (
            "label stores (memory, directory, directory with cached labels): 2-3 threads with scripts of create, read, conditional \
             update, delete and list; every schedule within the preemption bound, scheduling points at every file system call and \
             every lock; results checked for linearizability. Distinct: different (scenario, schedule)",
            &[SMALL, SCHED],
        ),
        "C15" => (
            "rollups of every kind against readers, committers and other rollups, in one store and in separate stores on the same \
             files: every schedule within the preemption bound; and every crash point and post-crash state of a rollup. Distinct: \
             different (scenario, schedule) or (history, file tree)",
            &[SMALL, SCHED, "crash model as for C13"],
        ),
        "C19" => (
            "pairs and triples of operation scripts (load, hold, drop, commit, rollup, squash, merge, delta, invalidate, listings) on \
             one store: every schedule within the preemption bound; every layer seen is compared with the sequential result. \
             Distinct: different (scenario, schedule)",
            &[SMALL, SCHED],
        ),
        "C12" => (
            "every sequence of head updates (set, force, versioned force) over small trees on every label store, and all \
             schedules of racing writers within the preemption bound. Distinct: different history or schedule",
            &[SMALL, SCHED],
        ),
        "C13" | "C14" => (
            "every history of 1-2 operations (14-operation alphabet) after a fixed set-up, on directory, archive, cached archive \
             and cached-label stores; a crash before and after every file system event of the last operation; every state the \
             crash model admits (kill with torn write; ordered metadata journal x unsynced data; strict POSIX: any subset of \
             unsynced changes when few, else bounded deviations from all-kept and all-lost); reopened with the real code and \
             compared with the model. Distinct: different (history, file tree)",
            &[
                SMALL,
                "crash model: an operation on a directory is durable once that directory is synced, data once the file is synced; \
                 unsynced operations on one directory are lost from the end; rename and link are atomic",
            ],
        ),
        "C16" => (
            "every file system call made by every operation (create, commit, set/force head, delete, rollups, squashes, merge, delta, \
             diff, export, import, load, listing, ancestry, opening) fails in turn with every error kind listed for that call \
             (or transfers less than asked, or all later modifying calls fail too), on directory, archive, cached archive and \
             cached-label stores, warm, reopened and rolled up; then everything is read back, the operation repeated, further \
             operations run and the store reopened. Distinct: different (history, operation, failing call, kind)",
            &[SMALL, "a failing call has no effect; errors of close are not injected"],
        ),
        "C17" | "C18" => (
            "the caching archive backend over a backend whose answers the explorer gives: every order of polls and answers of 2-3 \
             concurrent requests (read, partial read, slice, metadata, store; small, half, exactly full, too large and absent \
             layers; limits 0-2 MiB; cold and warm caches), with every choice of an operation to abandon at any suspension point \
             and of a failing call; all thread schedules of such requests within a preemption bound, abandoned at their k-th wait; \
             then every layer is read again. C18 also: every sequence of reads and stores up to length 4-6 (thorough 6-8), compared \
             with a model keeping the most recently used data that fits, and all memory handed out by the backend counted while \
             alive. Distinct: different scenario and choices",
            &[SCHED, "the underlying backend answers each call once, with the stored bytes or an error; an answer takes effect at the next poll of its request"],
        ),
        "C23" => (
            "27 operations (label and head operations, load, commits, rollups, squashes, merge, delta, queries, listings, export, import,              commit of a shared builder) on memory, directory, cached-label, archive and cached archive stores: the future is              dropped at every suspension point (quick: one per class of consecutive points between which nothing visible to others              changed, by kind of the last call), with what it left running finished first or last, while and before other              operations and the same one again run; label results checked for linearizability with the dropped operation happening              or not, every layer, listing and label checked afterwards in the same and in a reopened store. Distinct: different              (scenario, choices)",
            &[SMALL, "a blocking task that has started runs to its end; tasks are dropped only where they are suspended"],
        ),
        "C20" => ("histories in which handles and iterators taken earlier are observed again after every later operation. Distinct: different history", &[SMALL]),
        "C21" => ("every sequence of label and layer operations of the bound with listings after each, reopening, stray files. Distinct: different history", &[SMALL]),
        "C22" => ("every tree shape of the bound, every pair of layers, before and after rollups, squashes, merges, reopening; the parents told by the packs of every subset of every tree. Distinct: different history", &[SMALL]),
        _ => ("?", &[]),
    }
}
