"""Which units (Verus templates) and which replay harness decide each property."""
REPO = "/repo"
SL = ("The client object is verified sequentially: every access to the queue is inside the mutex and the lock discipline is part of the "
      "contracts; spawned futures are inlined at their spawn point.")
# harness: "main" = /verif/harness crate, "lift" = crate generated from /verif/lift/<id>.rs, None
PROPS = {
    "C03": dict(units=["req"], harness="main", note=SL),
    "C05": dict(units=["req"], harness="main", note=SL + " Ids are unique while fewer than 2^31 requests were sent."),
    "C04": dict(units=["lspsrv"], harness="main", note=SL),
    "C06": dict(units=["dapsrv"], harness="main", note=SL),
    "C16": dict(units=["lspsrv", "dapsrv"], harness="main", note=SL + " Handlers are reached through the driver's maps only; registration (LsBuilder) is replayed."),
    "C01": dict(units=["framing"], harness="main", note="Encoding and decoding the JSON text is serde's (assumed)."),
    "C02": dict(units=["framing"], harness="main", note="Decoding the JSON text is serde's (assumed)."),
    "C07": dict(units=["mirror"], harness=["main", "lift"], note="Opening the streams and the thread plumbing of the transport are replayed, not proved."),
    "C08": dict(units=["hash"], harness="main", note="base64 is assumed canonical and length-exact; little-endian byte conversion is assumed to be a bijection."),
    "C09": dict(units=["fmap"], harness="main", note="The map behind each lock and the iterator over it are assumed; the default shard number is replayed."),
    "C10": dict(units=["path"], harness="main", note="std's path components, push and pop are assumed (Unix); names are valid Unicode."),
    "C11": dict(units=["path"], harness="main", note="std's path components and the path-clean and pathdiff crates are assumed."),
    "C12": dict(units=["atomic"], harness="main", note="The file system calls and the tempfile crate are assumed; a crash is a stop after any recorded step."),
    "C14": dict(units=["l10n"], harness="main", note="How numbers and debug values print is std's (assumed); the table of translations is read once per message."),
    "C15": dict(units=["catalog"], harness="main", note="Proved for catalogues that have an English text for every message and consist of keys without line breaks, language tags without equals signs and trimmed one-line texts; section headers are closed. Sorting is taken as a permutation, maps as finite maps. load_translations and update_disk_translations (file access, JSON strings) are exercised, not proved."),
    "C17": dict(units=["query"], harness="main", note="std's OnceLock (set once; racing initialisers run one computation) is assumed; the contracts are those of one cell between its reads, the races are replayed with threads."),
    "C20": dict(units=["tokens"], harness="lift", note="Token arrays of less than 858993459 tokens (the wire format counts numbers in 32 bits); equality of tokens is that of their five numbers."),
    "C22": dict(units=["pages"], harness="lift", note="str::trim is assumed to keep text without outer white space; number parsing is std's, defined over digits."),
    "C25": dict(units=["respath"], harness="lift", note="Unix; file names are Unicode text; diff and unix_slash of tinymist-std by the contracts proved under C10 and C11; Path::join by components."),
    "C24": dict(units=["wsid"], harness="lift", note="std's maps, number printing and parsing, typst's interned file ids and path-clean are assumed; up to 2^16 roots."),
    "C23": dict(units=["overlay"], harness="lift", note="rpds maps (a copy shares nothing that can change), file system calls and the root resolver (C24) are assumed; equality of paths is std's, by components."),
    "C30": dict(units=["vfs"], harness="lift", note="Mutexes, OnceLock, the maps (std, rpds, dashmap) and typst's Source are assumed; a view is verified between its own reads (the locks serialise them); the resolver of file ids does not change. Dropping a RevisingVfs is its finish step. reset_mapping and reset_all are replayed."),
    "C21": dict(units=["location"], harness="lift", note="typst's Source (lines, offsets, columns) is assumed, and line breaks are typst's; documents and their lines count below 2^32."),
    "C26": dict(units=["lock"], harness="lift", note="The toml, serde and semver crates are assumed, and serialize_resolve by what it writes for a lock (replayed with a reader of its own); the lock itself is C13's. A failure between truncating the file and the end of writing leaves a broken lock (the code says so); the materials a commit leaves in the cache directory are not part of the lock."),
    "C27": dict(units=["watch"], harness="lift", note="The operating system's watcher, file reads and tokio's channels, timers and select are assumed (any order of the waiting messages); the watcher reports the changes of the files it watches. Times are replayed on a virtual clock, not proved."),
    "C28": dict(units=["input"], harness="lift", note="typst's Source (lines and edit) is assumed, and line breaks are typst's; the client sends ranges that name places in order; documents count below 2^32. The project gets its events in the order they are sent."),
    "C29": dict(units=["compiler"], harness="lift", note="A compilation itself (WorldComputeGraph, typst) is assumed, also that its diagnostics count below 2^30; the closure that run_compile returns is judged as run when it is made; revisions and ticks stay below 2^64; the handler changes nothing and a full channel is not an error. clear_dedicates (not called) is left out."),
    "C40": dict(units=["threads"], harness="main", note="Each thread is judged as a process over its channel, and what will ever be sent on a channel is fixed ahead (a prophecy), which covers every schedule of the others: the channels are assumed to be first in first out without loss, a receive to end when no sender is left, and the server to listen while the reader runs. Spawned threads are inlined where they are spawned; they do not panic. Reading and writing one message is C01 and C02; opening the streams is replayed (C07)."),
    "C13": dict(units=["flock"], harness="main", note="flock(2), statfs(2) and opening a file are assumed; Linux."),
}
NOT_APPLICABLE = {
    "C41": "needs the meaning of a Typst document, that is typst's compiler (a dependency whose source is not in this sandbox) under contract; what is this repository's own part of it - file contents, revisions, commits of results - is decided under C23, C28, C29 and C30",
    "C42": "needs typst's parser and evaluator (dependencies whose source is not in this sandbox) to say what a name is bound to; the conversions and encodings the features answer with are decided under C20, C21 and C28",
}
