#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the source of the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

A="pkg/apk/"
p("C01","Repository indexes are authenticated before they are used",
 "A repository index is parsed and handed to the caller only after an RSA signature over exactly the bytes that follow the signature segment of that index has verified under one of the keys the caller supplied. The only exceptions are that the caller asked to ignore signatures altogether, or explicitly listed that very index (same repository and architecture, exact match) as exempt. With no keys, an unparsable signature segment or no matching key the request fails with an error.",
 ["inputs","configurations"],"every index byte string, every key set, every combination of trust options",
 "Tests sign a handful of indexes with one key; they cannot enumerate every malformed index, key set and option combination on which the verification could be bypassed.",
 [A+"index.go","pkg/signature/rsa.go","pkg/signature/sign.go"],
 [("signature verification before conversion of the bytes","pkg/apk/index.go getRepositoryIndex"),("exemption decision","pkg/apk/index.go shouldCheckSignatureForIndex"),("digest and RSA verification","pkg/signature")],
 ["return of GetRepositoryIndexes"])
p("C02","A memoized index never crosses trust policies",
 "An index that was loaded once in this process under one trust policy (its signature not checked, or checked against a different set of keys) is never handed to a later request whose own policy requires verification against its own keys.",
 ["histories","schedules"],"every sequence of index requests in one process with differing keys and trust options",
 "Existing tests reset the process-wide memo between cases and never repeat a URL under two policies.",
 [A+"index.go"],[("process-wide index memo and its key","pkg/apk/index.go indexCache.get")],["return of GetRepositoryIndexes"],
 [("globalIndexCache","parsed indexes shared by all requests of the process","pkg/apk/index.go")])
p("C03","Package contents are bound to the index by checksums before installation",
 "A package's files are installed, and the package recorded, only if the hash of the control section actually read equals the checksum of the package in its repository index (when the index gives one) and the hash of the data section actually read equals the data hash declared in that control section (when it declares one). Every regular file in the data section whose header carries a checksum is compared with that checksum while the package is unpacked, and a mismatch is an error. This holds equally for packages served from the on-disk cache and from the in-process memo.",
 ["inputs","histories"],"every package byte string, every index entry, every cache content",
 "Tests install well-formed packages that match their index; no test substitutes a different package or corrupts a section on every path by which packages arrive.",
 [A+"implementation.go","pkg/expandapk/expandapk.go"],[("integrity check on the expanded package","pkg/apk/implementation.go expandPackage"),("per-file checksum pass","pkg/expandapk/expandapk.go checkSums"),("hash of each gzip stream","pkg/expandapk/expandapk.go ExpandApk")],
 ["call that installs the package's files"])
p("C04","Package cache entries are content-addressed",
 "Every package section placed in the package cache is filed under the hash computed from its own bytes (signature and control sections under the control hash, data sections under the data hash), and a cached control section is only used when it is filed under the checksum the index gives for the requested package; the cached data section used with it is the one filed under the data hash declared by that control section.",
 ["inputs","histories"],"every package, every order of cache fills and lookups",
 "Tests fill the cache with one package per URL, so a lookup that ignored the checksum, or a section filed under another name, would go unnoticed.",
 [A+"implementation.go"],[("naming on fill","pkg/apk/implementation.go cachePackage"),("naming on lookup","pkg/apk/implementation.go cachedPackage")],["os.Rename into the cache","os.Open/os.Stat of cache entries"])
p("C05","Published files appear atomically and complete",
 "A file that other runs will trust by its final name (an entry of the HTTP cache, a section of the package cache, the decompressed data section next to it, a signed index) is written under a temporary name in the same directory and renamed to its final name only after every write to it, any flush, and its close have succeeded; no final name is ever opened for truncating or creating write.",
 ["crash_points","fault_sequences"],"every crash point and every failing write, flush or close while a cache entry or signed index is produced",
 "Tests never crash or inject a failing write between creating a cache file and finishing it.",
 [A+"cache.go",A+"implementation.go","pkg/expandapk/expandapk.go","pkg/signature/sign.go"],[("temporary file then rename","pkg/apk/cache.go retrieveAndSaveFile"),("rename of expanded sections","pkg/apk/implementation.go cachePackage"),("regeneration of the decompressed data","pkg/expandapk/expandapk.go PackageData"),("signed index output","pkg/signature/sign.go SignIndex")],["os.Create/os.OpenFile/os.CreateTemp/os.Rename calls"])
p("C06","HTTP error responses are never consumed as content",
 "The body of an HTTP response is used as an index, a package, a key, a release list or a cache entry only when the response's status says success (200; 206 for a resumed range; any 2xx for configured keys); for any other status the operation fails, or the response is passed on with its status, and nothing is written.",
 ["inputs","fault_sequences"],"every status code the server may answer to every request",
 "Tests answer most requests with 200 and only a few with 404; each request site and status combination is a separate path.",
 [A+"index.go",A+"cache.go",A+"implementation.go",A+"transport.go"],[("status checks at each request site","pkg/apk/index.go, cache.go, implementation.go, transport.go")],["reads of http.Response.Body"])
p("C07","Offline mode performs no network request",
 "When an offline cache is configured, fetching repository indexes, packages and configured keyring keys never issues a network request: a resource missing from the cache is an error.",
 ["configurations","inputs"],"every request path taken with the offline option set, whatever is or is not in the cache",
 "Tests exercise offline mode for a few URLs with warm caches, not each request path with a cold, partial or unreadable cache.",
 [A+"cache.go",A+"options.go",A+"implementation.go",A+"repo.go"],[("offline gate in the caching transport","pkg/apk/cache.go RoundTrip"),("routing of clients through the cache","pkg/apk/implementation.go, pkg/apk/repo.go")],["calls to http.Client.Do and friends"])
p("C08","A directory-backed filesystem stays inside its base directory",
 "No operation of a directory-backed filesystem, given any name (absolute, containing '..', or sharing a textual prefix with the base), passes to the operating system a path that is lexically outside the base directory it was created for; such names are rejected or clamped inside. (Symbolic links already present on disk are followed by the operating system and are not covered.)",
 ["inputs"],"every name passed to every operation of the directory-backed filesystem",
 "Tests try a couple of '..' names on single operations; the guarantee is for every operation and every name.",
 ["pkg/fs/rwosfs.go"],[("path sanitisation","pkg/fs/rwosfs.go sanitizePath and its callers")],["os.* and unix.* calls with a path"])
p("C09","Cache paths never leave the cache directory",
 "Whatever the URL of a request and whatever headers (such as an ETag) a server returns, every path the caching layers create, rename to, list or open lies inside the configured cache directory.",
 ["inputs"],"every URL and every server-controlled header value",
 "Tests use two or three benign URLs and one ETag value; they never feed hostile path segments or header values.",
 [A+"cache.go",A+"implementation.go"],[("prefix check on the derived path","pkg/apk/cache.go cachePathFromURL"),("etag to file name","pkg/apk/cache.go cacheFileFromEtag")],["os.* calls in the caching layers"])
p("C10","Credentials are sent only to the host they belong to",
 "HTTP basic-auth credentials are attached to a request only if they come from that request's own URL, or were configured for exactly the host that request is sent to.",
 ["inputs","configurations"],"every set of configured credentials and every requested URL",
 "Tests check that credentials arrive at the right host; they do not check that no other host receives them on every request path.",
 [A+"index.go",A+"implementation.go",A+"options.go"],[("lookup of credentials by host","pkg/apk/index.go, implementation.go"),("credential configuration","pkg/apk/options.go WithAuthEnv/WithAuth")],["(*http.Request).SetBasicAuth"])
p("C11","URL passwords do not leak into errors",
 "When an http or https URL of a repository, package or key embeds a password, no error value or panic message produced for that URL (being parsed, requested, cached or retried) contains the password.",
 ["inputs","fault_sequences"],"every failing request to a URL with embedded credentials",
 "Tests check success with credentials in URLs, not the text of each of the many error paths.",
 [A+"index.go",A+"implementation.go",A+"transport.go",A+"cache.go"],[("use of the redacted form of URLs","pkg/apk/index.go, implementation.go, transport.go")],["fmt.Errorf and panic arguments"])
p("C12","A file owned by another package is replaced only when allowed",
 "Installing a package deletes or overwrites an existing regular file only if the contents differ, the file was installed by a package that does not declare it replaces the new one, and either that package has the same, non-empty origin as the new package, or the new package declares that it replaces it. A package whose owner declares it replaces the new one keeps its file, an identical file is left alone, and in every other case (a new package without origin, a file nobody installed, unrelated owners) the installation fails. New files are created exclusively, never opened over an existing one, and the owner recorded for a file is the last package that created it.",
 ["inputs","histories"],"every sequence of packages with overlapping files, origins and replaces",
 "Tests cover a few two-package overlaps on one filesystem; ownership, origin and replaces combinations and retry paths are unbounded.",
 [A+"install.go"],[("overwrite decision","pkg/apk/install.go installRegularFile"),("exclusive creation","pkg/apk/install.go writeOneFile")],["Remove and OpenFile on the target filesystem"])
p("C13","The installed database lists exactly what was installed",
 "Packages are appended to the installed database only after all packages of the request have been fetched, verified and unpacked without error; on success every package installed by the request has been recorded with its files, and on any failure an error is returned and no package of the request is recorded. A package that was already installed is neither unpacked nor recorded again, and a file that a later package took over is listed only under its new owner.",
 ["fault_sequences","schedules","histories"],"every failure point and completion order of the concurrent fetches",
 "Tests install without faults and cannot drive each failure point or goroutine completion order.",
 [A+"implementation.go",A+"installed.go"],[("wait before recording","pkg/apk/implementation.go InstallPackages"),("append to database","pkg/apk/installed.go AddInstalledPackage")],["AddInstalledPackage calls","return of InstallPackages"])
p("C14","Packages are installed one at a time in the given order",
 "Whatever order concurrent downloads finish in, packages are unpacked onto the target filesystem by a single sequential worker in exactly the order given, each only after its own download and expansion has completed, and a result is published to the worker before it is announced as ready.",
 ["schedules"],"every completion order and interleaving of the concurrent downloads",
 "The race is only visible under particular interleavings that tests do not control.",
 [A+"implementation.go"],[("one worker iterating over per-package ready channels","pkg/apk/implementation.go InstallPackages"),("publish then close","pkg/apk/implementation.go InstallPackages, CalculateWorld")],["close of the ready channel","install call"])
p("C15","Conflicts block installation",
 "Synchronising the world fails without unpacking any package when a package named in the computed conflicts is already installed, and never proceeds to installation when resolving the world, or looking up any conflict, failed.",
 ["inputs","histories"],"every world, index and installed set",
 "Tests contain a single conflict scenario.",
 [A+"implementation.go"],[("conflict loop before install","pkg/apk/implementation.go FixateWorld")],["InstallPackages call"])
p("C16","What the writers emit, the readers of the same format accept",
 "For each on-disk text format written and read here (installed database, repository index, passwd and group entries, world and repository lists): every field letter or column a writer emits is read back by the corresponding reader into the same field, using the same list separator, numeric base and checksum prefix, a line that is left out stands for the reader's default, every letter a reader stores is one its writer emits, and permission and checksum lines apply to the entry they follow. (Values are taken not to contain the separators of the format.)",
 ["inputs"],"every package and entry value",
 "Tests round-trip selected fields; a field dropped or formatted differently on one side goes unnoticed for values the fixtures do not contain.",
 [A+"package.go",A+"installed.go",A+"apkindex.go","pkg/passwd/passwd.go","pkg/passwd/group.go"],[("field writers","PackageToInstalled, AddInstalledPackage, index template, passwd/group Write"),("field readers","ParseInstalled, ParsePackageIndex, passwd/group Parse")],["writer format strings and reader switch cases"])
p("C17","Parsers never index out of range on malformed input",
 "Parsing an installed database, repository index, version, dependency constraint, repository list, passwd or group file, package archive listing or signature name never indexes or slices out of range, whatever the input bytes: malformed input yields an error or is skipped.",
 ["inputs"],"every byte string given to each parser",
 "Tests feed well-formed input and a few malformed lines; out-of-range panics need specific short or odd lines.",
 [A+"installed.go",A+"apkindex.go",A+"version.go",A+"index.go",A+"install.go","pkg/passwd","internal/tarfs/tarfs.go",A+"repository.go"],[("length guards before indexing","each parser")],["index and slice expressions in parsers"])
p("C18","Failures of I/O are reported, never turned into success",
 "When reading, decompressing, writing, flushing, renaming or closing-for-write fails while producing or consuming an index, package, cache entry, database, keyring, archive, passwd or group file, the operation returns a non-nil error; no truncated or partial result is returned as success.",
 ["fault_sequences","inputs"],"every failing I/O call on every path",
 "Tests rarely inject I/O failures; each ignored error needs its own fault.",
 ["pkg/apk","pkg/expandapk","pkg/tarball","pkg/signature","pkg/passwd","internal/tarfs"],[("error checks at each call","throughout")],["error results of I/O calls"])
p("C19","Version comparison is a consistent total preorder matching the format",
 "Comparing two parsed versions is decided lexicographically by numeric components, then component count, letter, pre-release suffix (any pre-release before none), its number, post-release suffix, its number and revision, so that it is antisymmetric and transitive. The relational constraint operators agree with that comparison and with their spelling, and every suffix spelling the grammar accepts maps to its own rank in the documented order.",
 ["inputs"],"every pair and triple of versions and every operator",
 "Tests compare a table of version pairs; antisymmetry, transitivity and operator agreement quantify over all versions.",
 [A+"version.go"],[("comparison cascade","pkg/apk/version.go CompareVersions"),("operator table","pkg/apk/version.go satisfies, resolvePackageNameVersionPin"),("suffix ranks","pkg/apk/version.go ParseVersion")],["return of CompareVersions"])
p("C20","Results do not depend on map iteration order",
 "Given the same inputs, dependency resolution, the order of installed packages, directory listings, generated archives and written databases are produced in the same order on every run: no ordered output is built by iterating an unordered map without a subsequent total sort, and no outcome depends on which map entry is visited first. (Which of several simultaneous failures is reported, and the order of log lines, are left open.)",
 ["schedules","inputs"],"every map iteration order the runtime may choose",
 "Go randomises map iteration; a test that passes under one order says nothing about the others.",
 [A+"repo.go",A+"installed.go",A+"implementation.go","pkg/fs/memfs.go","pkg/fs/apkfs.go","pkg/fs/rwosfs.go","pkg/tarball","internal/tarfs/tarfs.go"],[("sorting of collected keys, order-insensitive bodies","map ranges throughout")],["range over map statements"])
p("C21","The resolver never selects a package it must not",
 "A package offered or selected for a dependency constraint has not been disqualified, comes from a pinned repository only if the constraint allows or prefers that pin (or exactly that package is already selected), and, when the constraint carries a version, its own version or one it provides satisfies it. Selecting a package disqualifies its conflicting providers before any further selection, and constraints are applied before candidates are chosen.",
 ["inputs"],"every set of indexes, constraints, pins and disqualifications",
 "Tests resolve a few fixture worlds; the filter must hold for every combination of pin, version and disqualification.",
 [A+"repo.go",A+"version.go"],[("candidate filter","pkg/apk/version.go filterPackages"),("disqualification","pkg/apk/repo.go constrain, disqualifyConflicts")],["candidates appended by the filter","selection calls"])
p("C22","Recursion over untrusted structure terminates",
 "Cyclic dependencies between packages, symbolic-link loops in an in-memory or archive filesystem, and self-referential directory entries cannot make an operation recurse without bound: every recursive descent is cut by a visited set, a depth limit or a strictly smaller argument.",
 ["inputs"],"every dependency graph, link graph and list of archive entries",
 "Tests contain one small cycle and one self link; a missing bound shows only on other shapes.",
 [A+"repo.go",A+"installed.go","pkg/fs/memfs.go","pkg/fs/apkfs.go","internal/tarfs/tarfs.go"],[("parents set","pkg/apk/repo.go getPackageDependencies"),("maximum link depth","pkg/fs/memfs.go"),("tree descent","pkg/apk/installed.go sortChildrenTarHeaders")],["recursive call sites"])
p("C23","Concurrent use of the in-memory filesystem does not corrupt directories",
 "Every read, write, iteration or deletion of a directory's entries or of a file's extended attributes in the in-memory filesystem happens while holding that node's lock, every path releases the locks it took exactly once, and no lock is acquired while already holding it.",
 ["schedules"],"every interleaving of operations on a shared in-memory filesystem",
 "Concurrent map access and deadlocks need particular interleavings.",
 ["pkg/fs/memfs.go"],[("per-node mutex","pkg/fs/memfs.go")],["accesses to node children and xattrs"])
p("C24","Archives are reproducible",
 "Every entry of a generated archive carries normalised metadata: timestamps are the configured source date epoch with access and change times cleared, configured owner, group and name overrides are applied to every entry including directories and links, and scripts added to the scripts archive carry the given source date epoch when there is one.",
 ["inputs","configurations"],"every filesystem content and every combination of archive options",
 "Tests compare a couple of archives; each entry type and option is its own path.",
 ["pkg/tarball/write.go",A+"installed.go"],[("header normalisation","pkg/tarball/write.go writeTar"),("script headers","pkg/apk/installed.go updateScriptsTar")],["(*tar.Writer).WriteHeader"])
p("C25","Directory-backed changes are reflected in the in-memory view",
 "Whenever a create, write, link, symlink, mkdir, mknod, chmod, chown, xattr or remove on a directory-backed filesystem reports success, the same change has been applied to the in-memory overlay that answers metadata queries, and, when the name is one that lives on disk, to the disk; a failure of the required part is reported. Metadata kept only in memory (modes, ownership, devices, links, attributes) is always answered from the overlay.",
 ["inputs","histories"],"every operation sequence on a directory-backed filesystem",
 "Tests check single operations; divergence between disk and overlay shows up only in later queries.",
 ["pkg/fs/rwosfs.go"],[("paired update","pkg/fs/rwosfs.go")],["overlay calls on success returns"])
p("C26","Resumed downloads continue exactly where they stopped",
 "When a download is interrupted, the retry asks for the byte range starting at exactly the number of bytes already delivered to the reader, and if the server ignores the range exactly that many bytes are discarded before delivery resumes, so the reader sees every byte once and in order; anything but 200 or 206 ends the download with an error.",
 ["fault_sequences"],"every position and number of interruptions, for servers with and without range support",
 "Tests interrupt a few fixed positions; byte accounting must hold for every one.",
 [A+"transport.go"],[("progress accounting and range request","pkg/apk/transport.go")],["Range header","bytes returned by Read"])
p("C27","Each resource is fetched at most once and its outcome is shared",
 "Within one process, concurrent and repeated requests for the same cached index, package or conditional resource run the expensive fetch at most once per key, every caller receives the stored outcome (including its error), and an outcome is always stored before any caller looks it up. (Local indexes are loaded again when their modification time moved on; packages fetched without a cache directory, and responses that carry no ETag, are deliberately not shared.)",
 ["schedules","histories"],"every interleaving of concurrent requests for the same resource",
 "The window between first request and stored outcome is only hit under particular interleavings.",
 [A+"cache.go",A+"index.go",A+"implementation.go"],[("sync.Once per key and result map","pkg/apk/cache.go, index.go, implementation.go")],["sync.Once.Do and result load"])
p("C28","Numeric ids and sizes are never silently truncated",
 "A user, group, mode, size or device number read from a file or archive is either represented exactly or rejected with an error; it never wraps into a different value.",
 ["inputs"],"every numeric string and header value",
 "Tests use small ids; wrap-around needs values beyond 32 bits or negative ones.",
 ["pkg/passwd/passwd.go","pkg/passwd/group.go",A+"installed.go"],[("range-checked parsing","pkg/passwd")],["integer conversions of parsed values"])
p("C29","Cancellation reaches every network request",
 "Every network request made on behalf of a call that received a context is made with that context (or one derived from it), so cancelling the call cancels the request and its retries.",
 ["schedules","inputs"],"every request path",
 "Tests do not cancel in the middle of each request path.",
 ["pkg/apk"],[("request construction with the caller's context","pkg/apk")],["http.NewRequest* calls"])
p("C30","Signing an index signs exactly the index bytes and is idempotent",
 "Signing an index file prepends a signature over exactly the original file's bytes, followed by exactly those bytes, named after the key, and leaves an already signed index untouched; on any failure the original index is left as it was.",
 ["inputs","fault_sequences"],"every index file and key, every failing step",
 "Tests sign one index and verify it once, with no failures injected.",
 ["pkg/signature/sign.go","pkg/signature/rsa.go"],[("already-signed test, digest of file bytes, write-out","pkg/signature/sign.go SignIndex")],["writes to the index file"])
p("C31","Temporary files and response bodies are released on every path",
 "Files, response bodies and readers opened while fetching, caching, expanding or installing are closed, and temporary files and directories created on the way are removed or handed to the caller, on every return path including failures.",
 ["fault_sequences"],"every failing step after a resource was acquired",
 "Tests do not count leaked descriptors or temporary directories on failing paths.",
 ["pkg/apk","pkg/expandapk","pkg/signature"],[("deferred close and cleanup","throughout")],["open and temp-creation calls"])
p("C40","The selected version of a package is the best one available",
 "Among all candidates allowed for a constraint the resolver selects one of highest preference under the documented ordering, and a solvable world is always solved.",
 ["inputs"],"every set of indexes and worlds",
 "Optimality and completeness quantify over all index contents.",
 [A+"repo.go"],[("comparator and greedy search","pkg/apk/repo.go")])
p("C41","Writing then reading a database or index reproduces the value",
 "Serialising any list of packages and parsing the result yields equal packages.",
 ["inputs"],"every list of packages",
 "Equality of values over all inputs cannot be sampled exhaustively.",
 [A+"package.go",A+"installed.go",A+"apkindex.go"],[("writer and reader","pkg/apk")])
p("C42","The in-memory and directory-backed filesystems behave alike",
 "Any sequence of filesystem operations gives the same observable results on the in-memory and on the directory-backed implementation.",
 ["histories"],"every operation sequence",
 "Equivalence over all operation sequences is beyond sampled tests.",
 ["pkg/fs"],[("two implementations of one interface","pkg/fs")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
