TECH={
"C09":"abstract interpretation of the entries into the caching layers over path terms (joined elements, escaped and hexadecimal texts, fresh names, tests passed on the way); a depth-below-the-cache-directory judgement at every os call",
"C21":"abstract interpretation of the resolver, from index to result, over families of packages with undetermined versions, pins, disqualifications and map orders; on every path each selected package is judged against the candidate, constraint and conflict rules",
"C11":"whole-module taint analysis over SSA with per-function summaries: from every text that becomes a request or a parsed URL (found backwards) and every unredacted url.URL, through formatting, containers, fields, closures and calls, to error results, panics and Error methods",
"C16":"abstract interpretation of every writer and reader over named values with provenance terms for formatting, joining, encoding and their inverses; per field, letter and entry, what the reader stores is compared with what the writer wrote it from",
"C19":"abstract interpretation of the comparison over symbolic version fields with a decision tree of interval/order facts, compared leaf by leaf with the lexicographic order; grammar-to-rank table extraction from the pattern and the parser; truth table of every operator spelling",
"C28":"value-range analysis over SSA (parser widths, dominating conditions, field-store closure, call sites) at every lossy integer conversion, plus value-preservation and error-flow dataflow from every parsed number and archive header field",
"C24":"path-sensitive dataflow over SSA: symbolic contents of every archive header where it is written, decision table over the configured overrides, provenance of the given time and of option values",
"C13":"path-sensitive typestate over SSA: wait-before-record, per-iteration pairing of unpacking and recording, complete scan of installed names, decision table of the file filter",
"C14":"happens-before dataflow over SSA: slot/channel pairs with equal index (set before close, receive before read), single start of the installing goroutine, ascending index",
"C15":"path-sensitive dataflow over SSA: a complete pairwise scan (nested loops, membership helpers or sets) between computed conflicts and installed names, and no outstanding error, at every call that unpacks packages",
"C12":"path-sensitive typestate over SSA per archive entry: facts about the recorded owner at every removal, exclusive creation, and settlement of each entry before the next is read",
"C17":"difference-constraint bounds analysis over SSA: each index and slice bound is discharged from dominating branch conditions, value definitions, library and helper summaries, induction steps and call sites",
"C18":"error-flow dataflow over the control-flow graph: from each failing I/O call (and directory-walk callback) to every return that could report success, plus finish-before-success typestate of writers and scanners",
"C31":"ownership dataflow over the control-flow graph of every function that acquires a file, response, expanded package or temporary name, with inferred take/wrap/own summaries for helpers, closures and defers",
"C01":"path-sensitive typestate dataflow over SSA (interprocedural)",
"C03":"path-sensitive must-verify dataflow over SSA: hash comparison facts on every path from package source to installation",
"C04":"symbolic-term dataflow over SSA: provenance of the name each cache section is renamed to or taken from",
"C05":"path-sensitive typestate over SSA (write/flush/close/rename) plus provenance of every created path",
"C06":"path-sensitive typestate dataflow over SSA: response status facts at every body use",
"C07":"path-sensitive reachability over SSA: no network call on a path with the offline fact",
"C08":"taint/containment dataflow over SSA: every OS path argument is a contained join",
"C10":"path-sensitive dataflow over SSA: provenance of basic-auth arguments and host facts",
"C02":"provenance dataflow over SSA: every policy input of a memoized load must reach the memo key",
"C26":"symbolic-offset dataflow over SSA: linear delivered-byte counter against range start and discard length",
"C22":"call-graph cycle analysis with a decreasing-measure check (visited set, counter, smaller argument) on every path of each cycle; tree-shape check of child maps",
"C23":"lockset and lock-typestate dataflow over SSA",
"C25":"path-sensitive dataflow over SSA: paired disk/overlay updates on every success return",
"C27":"typestate dataflow over SSA: fetches only inside the once function of the key, outcome stored under that key and returned from it",
"C20":"effect and commutativity analysis of loops over unordered collections, dataflow of unsorted slices, comparator totality",
"C30":"typestate and provenance dataflow over SSA: digest input, written sequence and rename of the signed index",
"C29":"provenance dataflow over SSA: context argument of every network request",
}
_D="Decided on every path of the current source up to the analysis' store abstraction; library calls are modelled or opaque. "
NOTE={
"C21":"Families of up to four packages with up to two constraints and provided names each; version parsing and version satisfaction are undetermined predicates, followed both ways (their meaning is C19). Only soundness of what is selected: that an answer is found when there is one, or the best one, is not claimed (C40). Packages added by install_if are judged against disqualifications only.",
"C11":_D+"Field-sensitive by declared field, flow-insensitive within containers. Errors of (*http.Client).Do are clean because net/http strips the password; log lines are not errors; what the code takes for a local path (no lower-case http:// or https:// prefix) is not a request. The file system between writing and reading the repositories file is bridged by treating both sides as locations.",
"C09":_D+"Lexical containment: symbolic links inside of the cache directory are not followed. A download shared within the process may lie in the cache directory of the client that made it. What fetches the package itself (FetchPackage) opens the repository, not the cache.",
"C16":_D+"Texts are taken to be free of the separators of their format; lists are followed as wholes, or up to two elements where their elements are handled one by one; entry sequences are a fixed set of shapes covering the reader's per-line state.",
"C19":_D+"Component lists of up to three entries per side; longer lists go through the same loop, whose body is checked to treat every index alike. The order of component lists of unequal length follows the code's rule (common prefix, then count).",
"C28":_D+"Integers are taken to be 64 bits wide; exported fields are taken to be set by the module only. Ids that callers pass to the filesystem interface directly are not input that was read.",
"C24":_D+"Header contents are followed one field at a time; the file contents and the order of entries are the walk's (C20). Extended attributes are not covered.",
"C13":_D+"Goroutines are analysed one after the other with their memory shared; C14 covers their ordering. The contents of a record are C16 and C18.",
"C14":_D+"Slots are slice elements (or fields of them) indexed by loop variables; other hand-over mechanisms would be reported as undecided.",
"C15":_D+"Conflict names are compared as the resolver returns them; which conflicts it computes is C40's subject.",
"C12":_D+"Links and directories are covered only in that nothing is removed for them. Filesystems that take whole entries (WriteHeader) are not part of this module; only the recording of what they report is checked.",
"C02":_D+"Option fields are enumerated from the type; the memo is identified by its sync.Map / once operations.",
"C26":_D+"Overflow of the byte counter is not considered.",
"C01":_D+"Trusts crypto/rsa, gzip, tar.",
"C03":_D+"A cached section is trusted by the content address it is filed under (C04); its bytes are not rehashed.",
"C04":_D+"Bytes already in the cache directory are trusted to match the name they are filed under.",
"C05":_D+"Lexical same-directory argument; fsync is not considered.",
"C06":_D+"Bodies consumed through interfaces outside the module are out of view.",
"C07":_D+"Relies on net/http being the only network entry point of the module.",
"C08":_D+"Lexical containment; symlinks already on disk are not covered.",
"C10":_D+"Redirect handling is net/http's.",
"C23":_D+"Covers map fields of nodes; scalar node fields (mode, owner) are not lock-protected in this code base and not claimed.",
"C25":_D+"Equality of contents written is not compared, only that the paired operation happened with the same name.",
"C29":_D+"",
"C22":"Every cycle of the static call graph is examined; recursion through stored function values is not. Bounds depth, not running time: nested symbolic links can still make one lookup visit exponentially many nodes below the depth limit.",
"C27":_D+"Holds per process and per memo object; packages fetched without a cache directory and responses without an ETag are outside the memo by configuration.",
"C20":"Every iteration over a map (or over a slice built from one and not sorted since) in the module is examined. Distinct entries are assumed to have distinct derived keys; the choice among several errors and the order of log lines are not results; goroutine completion order is covered only for appends to a shared variable.",
"C30":_D+"The archive writer itself is covered by C18 and C24.",
"C17":"Every index and slice expression of the module outside pkg/fs (which moves data and parses nothing); nil dereferences and conversions are not covered.",
"C18":"Every call that moves, produces or finishes content, in every function that can report an error. DirFS has no error result, so what its initial walk misses is outside. Failures of the JSON/ini parsers count as failures of content.",
"C31":"Control-flow ownership per function with summaries for helpers; correlations between flags other than the error of the acquiring call are not tracked (they could only raise false alarms, and none occur). Objects handed to the caller are the caller's; memory-backed readers of an archive index are not counted.",

}
NA={
"C40":"optimality of the selection among all candidates quantifies over runtime index contents; no static argument in reach bounds the search the resolver performs",
"C41":"equality of a value with its parsed serialisation is a functional round-trip over runtime strings; only the writer/reader table agreement (C16) is statically decidable",
"C42":"observational equivalence of two filesystem implementations over operation sequences is a relational property of runtime states",
}
