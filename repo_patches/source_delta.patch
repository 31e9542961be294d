From cbad5fd75a2d08cb623d57e1772dad9a5ac67b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 01/72] fix: reject one-character lines instead of panicking in
 index and installed parsers

---
 pkg/apk/apkindex.go  | 2 +-
 pkg/apk/installed.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/apkindex.go b/pkg/apk/apkindex.go
index 36fc91c..88f9d79 100644
--- a/pkg/apk/apkindex.go
+++ b/pkg/apk/apkindex.go
@@ -120,7 +120,7 @@ func ParsePackageIndex(apkIndexUnpacked io.Reader) ([]*Package, error) {
 			continue
 		}
 
-		if len(line) > 1 && line[1:2] != ":" {
+		if len(line) < 2 || line[1:2] != ":" {
 			return nil, fmt.Errorf("cannot parse line %d: expected \":\" in not found", linenr)
 		}
 
diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 141a763..2f06a80 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -255,7 +255,7 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			continue
 		}
 
-		if len(line) > 1 && line[1:2] != ":" {
+		if len(line) < 2 || line[1:2] != ":" {
 			return nil, fmt.Errorf("cannot parse line %d: expected \":\" in not found", linenr)
 		}
 
-- 
2.43.0


From 1788d722d2b741326e13fc3216b7b8e42ec3b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 02/72] fix: keep permissions read from M: and a: lines of the
 installed database

---
 pkg/apk/installed.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 2f06a80..ed8f6db 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -242,6 +242,7 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 	pkg := &InstalledPackage{}
 	linenr := 1
 	var lastDir, lastFile *tar.Header
+	var lastDirIdx int
 
 	for indexScanner.Scan() {
 		line := indexScanner.Text()
@@ -331,6 +332,7 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 				Gid:      0,
 				Typeflag: tar.TypeDir,
 			}
+			lastDirIdx = len(pkg.Files)
 			pkg.Files = append(pkg.Files, *lastDir)
 			lastFile = nil
 		case "M":
@@ -345,6 +347,8 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			lastDir.Uid = uid
 			lastDir.Gid = gid
 			lastDir.Mode = perms
+			// pkg.Files holds copies, so record the permissions there too.
+			pkg.Files[lastDirIdx] = *lastDir
 		case "R":
 			fullpath := val
 			if lastDir != nil {
@@ -369,6 +373,8 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			lastFile.Uid = uid
 			lastFile.Gid = gid
 			lastFile.Mode = perms
+			// pkg.Files holds copies, so record the permissions there too.
+			pkg.Files[len(pkg.Files)-1] = *lastFile
 		}
 
 		linenr++
-- 
2.43.0


From 25521b1324c840d7ba4bd2cf4b473a0ba984a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 03/72] fix: read empty repeated fields of the installed
 database as empty lists

---
 pkg/apk/installed.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index ed8f6db..9441cbb 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -281,11 +281,11 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 		case "U":
 			pkg.URL = val
 		case "D":
-			pkg.Dependencies = strings.Split(val, " ")
+			pkg.Dependencies = splitRepeatedField(val)
 		case "p":
-			pkg.Provides = strings.Split(val, " ")
+			pkg.Provides = splitRepeatedField(val)
 		case "r":
-			pkg.Replaces = strings.Split(val, " ")
+			pkg.Replaces = splitRepeatedField(val)
 		case "c":
 			pkg.RepoCommit = val
 		case "t":
@@ -296,7 +296,7 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			pkg.BuildDate = i
 			pkg.BuildTime = time.Unix(i, 0).UTC()
 		case "i":
-			pkg.InstallIf = strings.Split(val, " ")
+			pkg.InstallIf = splitRepeatedField(val)
 		case "S":
 			size, err := strconv.ParseUint(val, 10, 64)
 			if err != nil {
-- 
2.43.0


From 577629743ad0404debb7cc1e3f74943e0a9c12d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 04/72] fix: report read errors and long lines when parsing the
 installed database

---
 pkg/apk/installed.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 9441cbb..7df0fbf 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -238,6 +238,8 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 	packages := []*InstalledPackage{}
 
 	indexScanner := bufio.NewScanner(installed)
+	// Same limits as ParsePackageIndex: a provides line can exceed the 64KB default.
+	indexScanner.Buffer(make([]byte, 16*1024), 1024*1024)
 
 	pkg := &InstalledPackage{}
 	linenr := 1
@@ -380,7 +382,7 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 		linenr++
 	}
 
-	return packages, nil
+	return packages, indexScanner.Err()
 }
 
 func parseInstalledPerms(permString string) (uid, gid int, perms int64, err error) {
-- 
2.43.0


From 3361bf768b88911f3ddeebbc6001fe713be3445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 05/72] fix: report errors reading the repositories file

---
 pkg/apk/repo.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index b70f1af..3d353ab 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -127,7 +127,10 @@ func (a *APK) GetRepositories() (repos []string, err error) {
 	for scanner.Scan() {
 		repos = append(repos, scanner.Text())
 	}
-	return
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read repositories file: %w", err)
+	}
+	return repos, nil
 }
 
 // GetRepositoryIndexes returns the indexes for the repositories in the specified root.
-- 
2.43.0


From 1866c5e2813d098215113bd97e8a1ad3eefff8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 06/72] fix: reject out-of-range uids and gids instead of
 wrapping them

---
 pkg/passwd/group.go  | 2 +-
 pkg/passwd/passwd.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/passwd/group.go b/pkg/passwd/group.go
index 5021f4d..ba0f93e 100644
--- a/pkg/passwd/group.go
+++ b/pkg/passwd/group.go
@@ -129,7 +129,7 @@ func (ge *GroupEntry) Parse(line string) error {
 	ge.GroupName = parts[0]
 	ge.Password = parts[1]
 
-	gid, err := strconv.Atoi(parts[2])
+	gid, err := strconv.ParseUint(parts[2], 10, 32)
 	if err != nil {
 		return fmt.Errorf("failed to parse UID %s", parts[2])
 	}
diff --git a/pkg/passwd/passwd.go b/pkg/passwd/passwd.go
index 0a4a667..1481a23 100644
--- a/pkg/passwd/passwd.go
+++ b/pkg/passwd/passwd.go
@@ -133,13 +133,13 @@ func (ue *UserEntry) Parse(line string) error {
 	ue.UserName = parts[0]
 	ue.Password = parts[1]
 
-	uid, err := strconv.Atoi(parts[2])
+	uid, err := strconv.ParseUint(parts[2], 10, 32)
 	if err != nil {
 		return fmt.Errorf("failed to parse UID %s", parts[2])
 	}
 	ue.UID = uint32(uid)
 
-	gid, err := strconv.Atoi(parts[3])
+	gid, err := strconv.ParseUint(parts[3], 10, 32)
 	if err != nil {
 		return fmt.Errorf("failed to parse GID %s", parts[3])
 	}
-- 
2.43.0


From d24692f915b7aa3c3177c3a84da564c3c72023ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 07/72] fix: write install_if as space-separated names, not as
 a Go slice

---
 pkg/apk/apkindex.go | 2 +-
 pkg/apk/package.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/apkindex.go b/pkg/apk/apkindex.go
index 88f9d79..fba86f2 100644
--- a/pkg/apk/apkindex.go
+++ b/pkg/apk/apkindex.go
@@ -62,7 +62,7 @@ var apkIndexTemplate = template.Must(template.New(apkIndexFilename).Funcs(
 		D:{{join .Dependencies}}
 		{{- end}}
 		{{- if .InstallIf}}
-		i:{{.InstallIf}}
+		i:{{join .InstallIf}}
 		{{- end}}
 		{{- if .Provides}}
 		p:{{join .Provides}}
diff --git a/pkg/apk/package.go b/pkg/apk/package.go
index df914de..981d4e4 100644
--- a/pkg/apk/package.go
+++ b/pkg/apk/package.go
@@ -42,7 +42,7 @@ func PackageToInstalled(pkg *Package) (out []string) {
 		out = append(out, fmt.Sprintf("r:%s", strings.Join(pkg.Replaces, " ")))
 	}
 	out = append(out, fmt.Sprintf("c:%s", pkg.RepoCommit))
-	out = append(out, fmt.Sprintf("i:%s", pkg.InstallIf))
+	out = append(out, fmt.Sprintf("i:%s", strings.Join(pkg.InstallIf, " ")))
 	out = append(out, fmt.Sprintf("t:%d", pkg.BuildTime.Unix()))
 	out = append(out, fmt.Sprintf("S:%d", pkg.Size))
 	out = append(out, fmt.Sprintf("I:%d", pkg.InstalledSize))
-- 
2.43.0


From fce8b6a220653df0731b1c6a2478204673a0202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 08/72] fix: do not store an HTTP error page as a repository
 key

---
 pkg/apk/implementation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index c105a25..601263a 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -761,6 +761,9 @@ func (a *APK) fetchAlpineKeys(ctx context.Context, alpineVersions []string) erro
 			return fmt.Errorf("failed to fetch alpine key %s: %w", u, err)
 		}
 		defer res.Body.Close()
+		if res.StatusCode != http.StatusOK {
+			return fmt.Errorf("unable to get alpine key at %s: %v", u, res.Status)
+		}
 		basefilenameEscape := filepath.Base(u)
 		basefilename, err := url.PathUnescape(basefilenameEscape)
 		if err != nil {
-- 
2.43.0


From 29c12461b19bec7ec078091e3ff98bec47b1ba1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 09/72] fix: escape etags used as cache file names

---
 pkg/apk/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 54e7883..6d9a661 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -246,7 +246,8 @@ func cacheFileFromEtag(cacheFile, etag string) string {
 		ext = ".tar.gz"
 	}
 
-	return filepath.Join(cacheDir, etag+ext)
+	// The etag is chosen by the server, so escape it: it must name a single file in cacheDir.
+	return filepath.Join(cacheDir, url.QueryEscape(etag)+ext)
 }
 
 func etagFromResponse(resp *http.Response) (string, bool) {
-- 
2.43.0


From 0b7c6646d259c98309e8af994eb6d0c5ef63a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 10/72] fix: compare whole path elements when checking that a
 cache file is within its root

---
 pkg/apk/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 6d9a661..a7bc916 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -346,7 +346,7 @@ func cachePathFromURL(root string, u url.URL) (string, error) {
 	// validate it is within root
 	cacheFile = filepath.Clean(cacheFile)
 	cleanroot := filepath.Clean(root)
-	if !strings.HasPrefix(cacheFile, cleanroot) {
+	if rel, err := filepath.Rel(cleanroot, cacheFile); err != nil || rel == ".." || strings.HasPrefix(rel, "../") {
 		return "", fmt.Errorf("cache file %s is not within root %s", cacheFile, cleanroot)
 	}
 	return cacheFile, nil
-- 
2.43.0


From a9baf56537a1f5747c94995b606630d427faa2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 11/72] fix: release the body and temporary file when a
 download into the cache fails

---
 pkg/apk/cache.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index a7bc916..68d4c77 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -267,9 +267,13 @@ func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cp cachePlac
 		return "", fmt.Errorf("wrapped client is nil")
 	}
 	resp, err := t.wrapped.Do(request)
-	if err != nil || resp.StatusCode != 200 {
+	if err != nil {
 		return "", err
 	}
+	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		return "", fmt.Errorf("unexpected status code %d", resp.StatusCode)
+	}
 
 	// Determine the file we will caching stuff in based on the URL/response
 	cacheFile, err := cp(resp)
@@ -288,19 +292,20 @@ func (t *cacheTransport) retrieveAndSaveFile(request *http.Request, cp cachePlac
 		return "", fmt.Errorf("unable to create a temporary cache file: %w", err)
 	}
 	if err := func() error {
-		defer tmp.Close()
-		defer resp.Body.Close()
 		if _, err := io.Copy(tmp, resp.Body); err != nil {
+			tmp.Close()
 			return fmt.Errorf("unable to write to cache file: %w", err)
 		}
-		return nil
+		return tmp.Close()
 	}(); err != nil {
+		os.Remove(tmp.Name())
 		return "", err
 	}
 
 	// Now that we have the file has been written, rename to atomically populate
 	// the cache
 	if err := os.Rename(tmp.Name(), cacheFile); err != nil {
+		os.Remove(tmp.Name())
 		return "", fmt.Errorf("unable to populate cache: %v", err)
 	}
 
-- 
2.43.0


From 727c9539eae71dc7ac8e07fdb1ac597506561b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 12/72] fix: compare whole path elements when checking that a
 DirFS path is within its base

---
 pkg/fs/rwosfs.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 2b659fe..6210969 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -441,10 +441,9 @@ func (f *dirFS) Readnod(name string) (dev int, err error) {
 func (f *dirFS) Link(oldname, newname string) error {
 	// for hardlink, we cannot take target as is, as it might be outside of the base.
 	// So we must sanitize it. It should point to a file that is within the filesystem.
-	target := filepath.Join(f.base, oldname)
-	target = filepath.Clean(target)
-	if !strings.HasPrefix(target, f.base) {
-		return fmt.Errorf("hardlink target %s is outside of the filesystem", target)
+	target, err := f.sanitizePath(oldname)
+	if err != nil {
+		return fmt.Errorf("hardlink target %s is outside of the filesystem", oldname)
 	}
 	if f.createOnDisk(newname) {
 		if err := os.Link(target, filepath.Join(f.base, newname)); err != nil {
@@ -537,7 +536,9 @@ func (f *dirFS) sanitizePath(p string) (v string, err error) {
 }
 func sanitizePath(base, p string) (v string, err error) {
 	v = filepath.Join(base, p)
-	if strings.HasPrefix(filepath.Clean(v), base) {
+	// Compare whole path elements: /base-other is not within /base.
+	rel, err := filepath.Rel(base, v)
+	if err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 		return v, nil
 	}
 
-- 
2.43.0


From 035737e6a8d5bffdfb19110553209bb683d340f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 13/72] fix: keep every DirFS operation within its base
 directory

---
 pkg/fs/rwosfs.go | 100 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 78 insertions(+), 22 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 6210969..4c1a909 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -267,9 +267,12 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 // This only works if the user reading the file actually has
 // permissions to change the file permissions.
 func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error) {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return nil, err
+	}
 	var (
 		file File
-		err  error
 	)
 	if flag&os.O_CREATE == os.O_CREATE {
 		file, err = f.overrides.OpenFile(name, flag, perm)
@@ -279,14 +282,14 @@ func (f *dirFS) OpenFile(name string, flag int, perm fs.FileMode) (File, error)
 		// do we create it on disk?
 		if f.createOnDisk(name) {
 			_ = file.Close()
-			file, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
+			file, err = os.OpenFile(fullpath, flag, perm)
 			if err != nil {
 				return nil, err
 			}
 		}
 	} else {
 		if f.caseSensitiveOnDisk(name) {
-			file, err = os.OpenFile(filepath.Join(f.base, name), flag, perm)
+			file, err = os.OpenFile(fullpath, flag, perm)
 		} else {
 			file, err = f.overrides.OpenFile(name, flag, perm)
 		}
@@ -302,16 +305,19 @@ func (f *dirFS) OpenReaderAt(name string) (File, error) {
 }
 
 func (f *dirFS) Stat(name string) (fs.FileInfo, error) {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return nil, err
+	}
 	var (
-		fi  fs.FileInfo
-		err error
+		fi fs.FileInfo
 	)
 	mi, err := f.overrides.Stat(name)
 	if err != nil {
 		return nil, err
 	}
 	if f.caseSensitiveOnDisk(name) {
-		fi, err = os.Stat(filepath.Join(f.base, name))
+		fi, err = os.Stat(fullpath)
 		if err != nil {
 			return nil, err
 		}
@@ -328,11 +334,14 @@ func (f *dirFS) Lstat(name string) (fs.FileInfo, error) {
 }
 
 func (f *dirFS) Create(name string) (File, error) {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return nil, err
+	}
 	// if the underlying filesystem is case-insensitive, check if the file exists and, if so,
 	// do it only in memory.
 	var (
 		file File
-		err  error
 	)
 	file, err = f.overrides.Create(name)
 	if err != nil {
@@ -342,7 +351,7 @@ func (f *dirFS) Create(name string) (File, error) {
 	if f.createOnDisk(name) {
 		// close the memory one
 		_ = file.Close()
-		file, err = os.Create(filepath.Join(f.base, name))
+		file, err = os.Create(fullpath)
 		if err != nil {
 			return nil, err
 		}
@@ -352,23 +361,30 @@ func (f *dirFS) Create(name string) (File, error) {
 }
 
 func (f *dirFS) Remove(name string) error {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return err
+	}
 	if err := f.overrides.Remove(name); err != nil {
 		return err
 	}
 	if f.removeOnDisk(name) {
-		return os.Remove(filepath.Join(f.base, name))
+		return os.Remove(fullpath)
 	}
 	return nil
 }
 
 func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return nil, err
+	}
 	// get those on disk
 	var (
 		onDisk, inMem []fs.DirEntry
-		err           error
 	)
 	if f.caseSensitiveOnDisk(name) {
-		onDisk, err = os.ReadDir(filepath.Join(f.base, name))
+		onDisk, err = os.ReadDir(fullpath)
 		if err != nil {
 			return nil, err
 		}
@@ -405,17 +421,25 @@ func (f *dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
 	return dirEntries, nil
 }
 func (f *dirFS) ReadFile(name string) ([]byte, error) {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return nil, err
+	}
 	if f.caseSensitiveOnDisk(name) {
-		return os.ReadFile(filepath.Join(f.base, name))
+		return os.ReadFile(fullpath)
 	}
 	return f.overrides.ReadFile(name)
 }
 func (f *dirFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return err
+	}
 	var (
 		memContent []byte
 	)
 	if f.createOnDisk(name) {
-		if err := os.WriteFile(filepath.Join(f.base, name), b, mode); err != nil {
+		if err := os.WriteFile(fullpath, b, mode); err != nil {
 			return err
 		}
 	} else {
@@ -429,8 +453,12 @@ func (f *dirFS) WriteFile(name string, b []byte, mode fs.FileMode) error {
 }
 
 func (f *dirFS) Readnod(name string) (dev int, err error) {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return 0, err
+	}
 	if f.caseSensitiveOnDisk(name) {
-		_, err = os.Stat(filepath.Join(f.base, name))
+		_, err = os.Stat(fullpath)
 		if err != nil {
 			return 0, err
 		}
@@ -439,6 +467,10 @@ func (f *dirFS) Readnod(name string) (dev int, err error) {
 }
 
 func (f *dirFS) Link(oldname, newname string) error {
+	fullpath, err := f.sanitizePath(newname)
+	if err != nil {
+		return err
+	}
 	// for hardlink, we cannot take target as is, as it might be outside of the base.
 	// So we must sanitize it. It should point to a file that is within the filesystem.
 	target, err := f.sanitizePath(oldname)
@@ -446,7 +478,7 @@ func (f *dirFS) Link(oldname, newname string) error {
 		return fmt.Errorf("hardlink target %s is outside of the filesystem", oldname)
 	}
 	if f.createOnDisk(newname) {
-		if err := os.Link(target, filepath.Join(f.base, newname)); err != nil {
+		if err := os.Link(target, fullpath); err != nil {
 			return err
 		}
 	}
@@ -454,11 +486,15 @@ func (f *dirFS) Link(oldname, newname string) error {
 }
 
 func (f *dirFS) Symlink(oldname, newname string) error {
+	fullpath, err := f.sanitizePath(newname)
+	if err != nil {
+		return err
+	}
 	// For symlink, take target as is.
 	// If it is outside of the base, it will be resolved by Readlink.
 	// This enables proper symlink behaviour.
 	if f.createOnDisk(newname) {
-		if err := os.Symlink(oldname, filepath.Join(f.base, newname)); err != nil {
+		if err := os.Symlink(oldname, fullpath); err != nil {
 			return err
 		}
 	}
@@ -466,10 +502,14 @@ func (f *dirFS) Symlink(oldname, newname string) error {
 }
 
 func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return err
+	}
 	// just in case, because some underlying systems miss this
 	fullPerm := os.ModeDir | perm
 	if f.createOnDisk(name) {
-		if err := os.MkdirAll(filepath.Join(f.base, name), fullPerm); err != nil {
+		if err := os.MkdirAll(fullpath, fullPerm); err != nil {
 			return err
 		}
 	}
@@ -477,10 +517,14 @@ func (f *dirFS) MkdirAll(name string, perm fs.FileMode) error {
 }
 
 func (f *dirFS) Mkdir(name string, perm fs.FileMode) error {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return err
+	}
 	// just in case, because some underlying systems miss this
 	fullPerm := os.ModeDir | perm
 	if f.createOnDisk(name) {
-		if err := os.Mkdir(filepath.Join(f.base, name), fullPerm); err != nil {
+		if err := os.Mkdir(fullpath, fullPerm); err != nil {
 			return err
 		}
 	}
@@ -488,26 +532,38 @@ func (f *dirFS) Mkdir(name string, perm fs.FileMode) error {
 }
 
 func (f *dirFS) Chmod(path string, perm fs.FileMode) error {
+	fullpath, err := f.sanitizePath(path)
+	if err != nil {
+		return err
+	}
 	if f.caseSensitiveOnDisk(path) {
 		// ignore error, as we track it in memory anyways, and disk filesystem might not support it
-		_ = os.Chmod(filepath.Join(f.base, path), perm)
+		_ = os.Chmod(fullpath, perm)
 	}
 	return f.overrides.Chmod(path, perm)
 }
 func (f *dirFS) Chown(path string, uid, gid int) error {
+	fullpath, err := f.sanitizePath(path)
+	if err != nil {
+		return err
+	}
 	if f.caseSensitiveOnDisk(path) {
 		// ignore error, as we track it in memory anyways, and disk filesystem might not support it
-		_ = os.Chown(filepath.Join(f.base, path), uid, gid)
+		_ = os.Chown(fullpath, uid, gid)
 	}
 	return f.overrides.Chown(path, uid, gid)
 }
 
 func (f *dirFS) Mknod(name string, mode uint32, dev int) error {
+	fullpath, err := f.sanitizePath(name)
+	if err != nil {
+		return err
+	}
 	if f.caseSensitiveOnDisk(name) {
-		err := unix.Mknod(filepath.Join(f.base, name), mode, dev)
+		err := unix.Mknod(fullpath, mode, dev)
 		// what if we could not create it? Just create a regular file there, and memory will override
 		if err != nil {
-			if err := os.WriteFile(filepath.Join(f.base, name), nil, 0); err != nil {
+			if err := os.WriteFile(fullpath, nil, 0); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 1d586089a45914d4504aef509d34d574e5e69aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 14/72] fix: restore permissions of the file that was opened,
 not of its base name in the working directory

---
 pkg/fs/rwosfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index 4c1a909..d6ae429 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -249,7 +249,7 @@ func (f *dirFS) open(name string) (*fileImpl, error) {
 		perms := fi.Mode()
 		return &fileImpl{
 			file:  file,
-			name:  baseName,
+			name:  fullpath,
 			perms: &perms,
 		}, nil
 	}
-- 
2.43.0


From d70eae53e666e723c0e788883896876e7d2df0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 15/72] fix: record existing symlinks when populating a DirFS

---
 pkg/fs/rwosfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index d6ae429..f6d2291 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -141,7 +141,7 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 		case fs.ModeSymlink:
 			var target string
 			target, err = os.Readlink(filepath.Join(dir, path))
-			if err != nil {
+			if err == nil {
 				err = f.overrides.Symlink(target, path)
 			}
 		case fs.ModeCharDevice:
-- 
2.43.0


From 3b8ca89c80be1c1a97b7a6a935a2936d75b65fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 16/72] fix: record existing character devices when populating
 a DirFS

---
 pkg/fs/rwosfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index f6d2291..d94b2f6 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -144,7 +144,7 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 			if err == nil {
 				err = f.overrides.Symlink(target, path)
 			}
-		case fs.ModeCharDevice:
+		case fs.ModeDevice | fs.ModeCharDevice:
 			var dev int
 			sys := fi.Sys()
 			st1, ok1 := sys.(*syscall.Stat_t)
@@ -157,7 +157,7 @@ func DirFS(dir string, opts ...DirFSOption) FullFS {
 			default:
 				return fmt.Errorf("unsupported type %T", sys)
 			}
-			err = f.overrides.Mknod(path, uint32(unix.S_IFCHR|mode), dev)
+			err = f.overrides.Mknod(path, unix.S_IFCHR|uint32(perm), dev)
 		default:
 			var memFile File
 			memFile, err = f.overrides.OpenFile(path, os.O_CREATE, perm)
-- 
2.43.0


From b943515d1a8bc9e1e3ad10c7bb03ee41e146164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 17/72] fix: treat absolute paths alike when creating and
 removing DirFS files, and accept empty paths

---
 pkg/fs/rwosfs.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index d94b2f6..d6ad8ff 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -641,6 +641,7 @@ func (f *dirFS) createOnDisk(p string) bool {
 func (f *dirFS) removeOnDisk(p string) (removeOnDisk bool) {
 	f.caseMapMutex.Lock()
 	defer f.caseMapMutex.Unlock()
+	p = standardizePath(p)
 	key := strings.ToLower(p)
 	if f.caseMap == nil {
 		removeOnDisk = true
@@ -722,8 +723,5 @@ func (d *dirEntry) Info() (fs.FileInfo, error) {
 }
 
 func standardizePath(p string) string {
-	if p[0] == '/' {
-		p = p[1:]
-	}
-	return p
+	return strings.TrimPrefix(p, "/")
 }
-- 
2.43.0


From 6fbf447d26086e32e713f2b274c18a1d830a2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 18/72] fix: hold the node lock for every access to a memFS
 node's children

---
 pkg/fs/memfs.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index acce239..36fd7f2 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -70,10 +70,6 @@ func (m *memFS) getNodeCountLinks(path string, linkDepth int) (*node, error) {
 		if part == "" {
 			continue
 		}
-		if node.children == nil {
-			return nil, os.ErrNotExist
-		}
-		var ok bool
 		node.mu.Lock()
 		childNode, ok := node.children[part]
 		// immediately unlock, no need to wait for defer. This is *really* important in the
@@ -171,11 +167,10 @@ func (m *memFS) MkdirAll(path string, perm fs.FileMode) error {
 		if part == "" {
 			continue
 		}
+		anode.mu.Lock()
 		if anode.children == nil {
 			anode.children = map[string]*node{}
 		}
-		var ok bool
-		anode.mu.Lock()
 		newnode, ok := anode.children[part]
 		if !ok {
 			newnode = &node{
@@ -229,10 +224,10 @@ func (m *memFS) openFile(name string, flag int, perm fs.FileMode, linkCount int)
 	if !parentAnode.dir {
 		return nil, fmt.Errorf("parent is not a directory")
 	}
+	parentAnode.mu.Lock()
 	if parentAnode.children == nil {
 		parentAnode.children = map[string]*node{}
 	}
-	parentAnode.mu.Lock()
 	anode, ok := parentAnode.children[base]
 	if !ok && flag&os.O_CREATE == 0 {
 		parentAnode.mu.Unlock()
@@ -304,10 +299,12 @@ func (m *memFS) ReadDir(name string) ([]fs.DirEntry, error) {
 	if !anode.dir {
 		return nil, fmt.Errorf("not a directory")
 	}
+	anode.mu.Lock()
 	var de = make([]fs.DirEntry, 0, len(anode.children))
 	for name, node := range anode.children {
 		de = append(de, fs.FileInfoToDirEntry(node.fileInfo(name)))
 	}
+	anode.mu.Unlock()
 	// we need them in a consistent order, so sort them by filename, which is what os.ReadDir() does
 	sort.Slice(de, func(i, j int) bool {
 		return de[i].Name() < de[j].Name()
-- 
2.43.0


From 59ab025483316bcad9b31143938128d560abfe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 19/72] fix: return an error instead of panicking when creating
 an entry below a non-directory in memFS

---
 pkg/fs/memfs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 36fd7f2..018b1e5 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -323,6 +323,9 @@ func (m *memFS) Mknod(path string, mode uint32, dev int) error {
 	if err != nil {
 		return err
 	}
+	if !anode.dir {
+		return fmt.Errorf("parent is not a directory")
+	}
 	anode.mu.Lock()
 	defer anode.mu.Unlock()
 	if _, ok := anode.children[base]; ok {
@@ -390,6 +393,9 @@ func (m *memFS) Symlink(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	if !anode.dir {
+		return fmt.Errorf("parent is not a directory")
+	}
 	anode.mu.Lock()
 	defer anode.mu.Unlock()
 	if _, ok := anode.children[base]; ok {
@@ -416,6 +422,9 @@ func (m *memFS) Link(oldname, newname string) error {
 	if err != nil {
 		return os.ErrNotExist
 	}
+	if !anode.dir {
+		return fmt.Errorf("parent is not a directory")
+	}
 	anode.mu.Lock()
 	defer anode.mu.Unlock()
 	if _, ok := anode.children[base]; ok {
-- 
2.43.0


From d2374e8160ee95847f605a4876b1742babc68d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 20/72] fix: memFS files seek, read and write at offsets like
 files on disk

---
 pkg/fs/memfs.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 018b1e5..0fa6e2d 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -544,12 +544,12 @@ func newMemFile(node *node, name string, memfs *memFS, openMode int) *memFile {
 		name:     name,
 		openMode: openMode,
 	}
-	if openMode&os.O_APPEND != 0 {
-		m.offset = int64(len(node.data))
-	}
 	if openMode&os.O_TRUNC != 0 {
 		node.data = nil
 	}
+	if openMode&os.O_APPEND != 0 {
+		m.offset = int64(len(node.data))
+	}
 	return m
 }
 
@@ -585,10 +585,16 @@ func (f *memFile) ReadAt(p []byte, off int64) (n int, err error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
+	if off < 0 {
+		return 0, errors.New("negative offset")
+	}
 	if off >= int64(len(f.node.data)) {
 		return 0, io.EOF
 	}
 	n = copy(p, f.node.data[off:])
+	if n < len(p) {
+		return n, io.EOF
+	}
 	return n, nil
 }
 func (f *memFile) Seek(offset int64, whence int) (int64, error) {
@@ -597,14 +603,17 @@ func (f *memFile) Seek(offset int64, whence int) (int64, error) {
 	}
 	switch whence {
 	case io.SeekStart:
-		f.offset = offset
 	case io.SeekCurrent:
-		f.offset += offset
+		offset += f.offset
 	case io.SeekEnd:
-		f.offset = int64(len(f.node.data)) + offset
+		offset += int64(len(f.node.data))
 	default:
 		return 0, errors.New("invalid whence")
 	}
+	if offset < 0 {
+		return 0, errors.New("negative position")
+	}
+	f.offset = offset
 	return f.offset, nil
 }
 
@@ -612,9 +621,13 @@ func (f *memFile) Write(p []byte) (n int, err error) {
 	if f.node == nil || f.fs == nil {
 		return 0, os.ErrClosed
 	}
-	if f.openMode&os.O_APPEND != 0 && f.openMode&os.O_RDWR != 0 && f.openMode&os.O_WRONLY != 0 {
+	if f.openMode&(os.O_RDWR|os.O_WRONLY) == 0 {
 		return 0, errors.New("file not opened in write mode")
 	}
+	if gap := f.offset - int64(len(f.node.data)); gap > 0 {
+		// Writing past the end fills the gap with zeroes.
+		f.node.data = append(f.node.data, make([]byte, gap)...)
+	}
 	if f.offset+int64(len(p)) > int64(len(f.node.data)) {
 		f.node.data = append(f.node.data[:f.offset], p...)
 	} else {
-- 
2.43.0


From 704070e0dedfb1bed9d22e611a6c50c2811c0e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 21/72] fix: verify downloaded packages against the index
 checksum and their own data hash

---
 pkg/apk/implementation.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 601263a..9ecd8e3 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -947,6 +947,39 @@ func (c *apkCache) get(ctx context.Context, a *APK, pkg InstallablePackage) (*ex
 }
 
 func (a *APK) expandPackage(ctx context.Context, pkg InstallablePackage) (*expandapk.APKExpanded, error) {
+	exp, err := a.getExpandedPackage(ctx, pkg)
+	if err != nil {
+		return nil, err
+	}
+
+	if err := verifyPackage(pkg, exp); err != nil {
+		return nil, errors.Join(err, exp.Close())
+	}
+
+	return exp, nil
+}
+
+// verifyPackage checks that exp is the package that the index describes: the control section must have the
+// checksum recorded in the index (if any), and the data section the hash recorded in the control section (if any).
+func verifyPackage(pkg InstallablePackage, exp *expandapk.APKExpanded) error {
+	if want := strings.TrimPrefix(pkg.ChecksumString(), "Q1"); want != "" {
+		if got := base64.StdEncoding.EncodeToString(exp.ControlHash); got != want {
+			return fmt.Errorf("checksum mismatch for %s: index has %q, package has %q", pkg.PackageName(), want, got)
+		}
+	}
+
+	info, err := packageInfo(exp)
+	if err != nil {
+		return fmt.Errorf("failed to read .PKGINFO for %s: %w", pkg.PackageName(), err)
+	}
+	if got := hex.EncodeToString(exp.PackageHash); info.DataHash != "" && info.DataHash != got {
+		return fmt.Errorf("data hash mismatch for %s: .PKGINFO has %q, package has %q", pkg.PackageName(), info.DataHash, got)
+	}
+
+	return nil
+}
+
+func (a *APK) getExpandedPackage(ctx context.Context, pkg InstallablePackage) (*expandapk.APKExpanded, error) {
 	if a.cache == nil {
 		// If we don't have a cache configured, don't use the global cache.
 		// Calling APKExpanded.Close() will clean up a tempdir.
-- 
2.43.0


From a100b1efa449a0b3e877dd25ff92c884f6df0d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 22/72] fix: report truncated packages when resolving instead
 of returning empty hashes

---
 pkg/apk/resolveapk.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/resolveapk.go b/pkg/apk/resolveapk.go
index 3c4dcb2..ba6eb04 100644
--- a/pkg/apk/resolveapk.go
+++ b/pkg/apk/resolveapk.go
@@ -95,7 +95,8 @@ func ResolveApk(ctx context.Context, source io.Reader) (*APKResolved, error) {
 		}
 
 		if err == io.EOF {
-			break
+			// We stop at the start of the data section, so the package must not end before it.
+			return nil, fmt.Errorf("reading stream %d of package: %w", streamId, io.ErrUnexpectedEOF)
 		} else if err != nil {
 			return nil, fmt.Errorf("creating gzip reader: %w", err)
 		}
-- 
2.43.0


From dc2d4d79aeccfdd63e968c1dcf65f2405eb6b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 23/72] fix: do not leave a partial tar file in the cache when
 decompression fails

---
 pkg/expandapk/expandapk.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 5f4fc4f..ea89591 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -119,20 +119,29 @@ func (a *APKExpanded) PackageData() (*os.File, error) {
 		return nil, fmt.Errorf("parsing %q: %w", a.PackageFile, err)
 	}
 
-	uf, err = os.Create(a.TarFile)
+	// TarFile is trusted whenever it exists, so only create it once it is complete.
+	uf, err = os.CreateTemp(filepath.Dir(a.TarFile), "*.tar.tmp")
 	if err != nil {
 		return nil, fmt.Errorf("opening tar file %q: %w", a.TarFile, err)
 	}
 
 	buf := make([]byte, bufSize)
 	if _, err := io.CopyBuffer(uf, zr, buf); err != nil {
+		uf.Close()
+		os.Remove(uf.Name())
 		return nil, fmt.Errorf("decompressing %q: %w", a.PackageFile, err)
 	}
 
 	if err := uf.Close(); err != nil {
+		os.Remove(uf.Name())
 		return nil, fmt.Errorf("closing %q: %w", a.TarFile, err)
 	}
 
+	if err := os.Rename(uf.Name(), a.TarFile); err != nil {
+		os.Remove(uf.Name())
+		return nil, fmt.Errorf("renaming tar file to %q: %w", a.TarFile, err)
+	}
+
 	return os.Open(a.TarFile)
 }
 
-- 
2.43.0


From aafc468006cbc56068156738b4ab463509a94e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 24/72] fix: remove the temporary directory when expanding a
 package fails

---
 pkg/expandapk/expandapk.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index ea89591..da4cd1b 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -334,7 +334,7 @@ func (r *expandApkReader) EnableFastRead() {
 //
 // Returns an APKExpanded struct containing references to the file. You *must* call APKExpanded.Close()
 // when finished to clean up the various files.
-func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpanded, error) {
+func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (_ *APKExpanded, err error) {
 	ctx, span := otel.Tracer("go-apk").Start(ctx, "ExpandApk")
 	defer span.End()
 
@@ -343,6 +343,13 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (*APKExpa
 		return nil, err
 	}
 
+	// On success, APKExpanded.Close() cleans up.
+	defer func() {
+		if err != nil {
+			os.RemoveAll(dir)
+		}
+	}()
+
 	sw, err := newExpandApkWriter(dir, "stream", "tar.gz")
 	if err != nil {
 		return nil, fmt.Errorf("expandApk error 1: %w", err)
-- 
2.43.0


From 303d67a4bab6af6865bcef300498c1695ca0fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 25/72] fix: return an error instead of panicking when
 expanding an empty package

---
 pkg/expandapk/expandapk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index da4cd1b..20d532d 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -429,6 +429,9 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (_ *APKEx
 		}
 	}
 
+	if gzi == nil {
+		return nil, fmt.Errorf("invalid number of tar streams: %d", len(gzipStreams))
+	}
 	if err := gzi.Close(); err != nil {
 		return nil, fmt.Errorf("expandApk error 6: %w", err)
 	}
-- 
2.43.0


From 0f431dc418c20c59662d06b32af86ca69bb4163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 26/72] fix: close fetched packages after resolving them

---
 pkg/apk/implementation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 9ecd8e3..3a524ae 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -504,6 +504,7 @@ func (a *APK) CalculateWorld(ctx context.Context, allpkgs []*RepositoryPackage)
 			if err != nil {
 				return fmt.Errorf("fetching %s: %w", pkg.Name, err)
 			}
+			defer r.Close()
 			res, err := ResolveApk(gctx, r)
 			if err != nil {
 				return fmt.Errorf("resolving %s: %w", pkg.Name, err)
-- 
2.43.0


From e54029ccb01d16274dc92895b1c9584e0e415d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 27/72] fix: close the temporary file used to hash installed
 files without a checksum

---
 pkg/apk/install.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index b1daadd..7bc844a 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -93,6 +93,7 @@ func (a *APK) installRegularFile(header *tar.Header, tr *tar.Reader, tmpDir stri
 		if err != nil {
 			return false, fmt.Errorf("error creating temporary file: %w", err)
 		}
+		defer f.Close()
 
 		if _, err := io.Copy(f, tee); err != nil {
 			return false, fmt.Errorf("error copying file %s: %w", header.Name, err)
-- 
2.43.0


From f7fa6904bc1e69c68bf25cc9b8fd5a316627db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 28/72] fix: do not panic on packages with an empty file name

---
 pkg/apk/install.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index 7bc844a..78567eb 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -203,7 +203,7 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 		}
 		// if it was a hidden file and not a directory and we have not yet started the data section,
 		// so skip this file
-		if !startedDataSection && header.Name[0] == '.' && !strings.Contains(header.Name, "/") {
+		if !startedDataSection && strings.HasPrefix(header.Name, ".") && !strings.Contains(header.Name, "/") {
 			continue
 		}
 		// whatever it is now, it is in the data section
@@ -318,7 +318,7 @@ func (a *APK) lazilyInstallAPKFiles(ctx context.Context, wh WriteHeaderer, tf *t
 		//  * considered to start the data section of the file.
 		//  * This does not make any sense if the file has v2.0
 		//  * style .PKGINFO
-		if !startedDataSection && file.Header.Name[0] == '.' && !strings.Contains(file.Header.Name, "/") {
+		if !startedDataSection && strings.HasPrefix(file.Header.Name, ".") && !strings.Contains(file.Header.Name, "/") {
 			continue
 		}
 		// whatever it is now, it is in the data section
-- 
2.43.0


From 898f6e5df32261eb84b5f43ae5086f23b9577ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 29/72] fix: remove the temporary files of packages that are
 not installed or cannot be cached

---
 pkg/apk/implementation.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 3a524ae..f17a789 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -595,6 +595,14 @@ func (a *APK) InstallPackages(ctx context.Context, sourceDateEpoch *time.Time, a
 	g.SetLimit(jobs + 1)
 
 	expanded := make([]*expandapk.APKExpanded, len(allpkgs))
+	defer func() {
+		// installPackage closes what it installs; packages that we skip or do not get to need closing too.
+		for _, exp := range expanded {
+			if exp != nil {
+				exp.Close()
+			}
+		}
+	}()
 
 	// Track what files were installed by which packages so we can deduplicate in idb.
 	allFiles := make([][]tar.Header, len(allpkgs))
@@ -1034,7 +1042,12 @@ func expandPackage(ctx context.Context, a *APK, pkg InstallablePackage) (*expand
 		return exp, nil
 	}
 
-	return a.cachePackage(ctx, pkg, exp, cacheDir)
+	cached, err := a.cachePackage(ctx, pkg, exp, cacheDir)
+	if err != nil {
+		return nil, errors.Join(err, exp.Close())
+	}
+
+	return cached, nil
 }
 
 func packageAsURI(pkg InstallablePackage) (uri.URI, error) {
-- 
2.43.0


From 212ec799d70d3f6c605ab323404c12074c2846d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 30/72] fix: parse only the signed part of a repository index

---
 pkg/apk/index.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 9417726..578495d 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -241,6 +241,8 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		return nil, fmt.Errorf("repository scheme %s not supported", asURL.Scheme)
 	}
 
+	var verifiedSignature []byte
+
 	// validate the signature
 	if shouldCheckSignatureForIndex(u, arch, opts) {
 		buf := bytes.NewReader(b)
@@ -306,12 +308,19 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		if !verified {
 			return nil, fmt.Errorf("no key found to verify signature for keyfile %s; tried all other keys as well", matches[1])
 		}
+		// Only the signed bytes may contribute to the index: what precedes them is under control of whoever
+		// served the index, and could e.g. hold a PAX header that changes how the signed entries are read.
+		b = indexData
+		verifiedSignature = signature
 	}
 	// with a valid signature, convert it to an ApkIndex
 	index, err := IndexFromArchive(io.NopCloser(bytes.NewReader(b)))
 	if err != nil {
 		return nil, fmt.Errorf("unable to read convert repository index bytes to index struct at %s: %w", asURL.Redacted(), err)
 	}
+	if verifiedSignature != nil {
+		index.Signature = verifiedSignature
+	}
 
 	return index, err
 }
-- 
2.43.0


From 61af82747d1bfd29decc7ecc4d2cfc8ec1c4bd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 31/72] fix: close the response body when an index request
 fails

---
 pkg/apk/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 578495d..32e394b 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -223,6 +223,7 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		if err != nil {
 			return nil, fmt.Errorf("unable to get repository index at %s: %w", asURL.Redacted(), err)
 		}
+		defer res.Body.Close()
 		switch res.StatusCode {
 		case http.StatusOK:
 			// this is fine
@@ -231,7 +232,6 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		default:
 			return nil, fmt.Errorf("unexpected status code %d when getting repository index for architecture %s at %s", res.StatusCode, arch, asURL.Redacted())
 		}
-		defer res.Body.Close()
 		buf := bytes.NewBuffer(nil)
 		if _, err := io.Copy(buf, res.Body); err != nil {
 			return nil, fmt.Errorf("unable to read repository index at %s: %w", asURL.Redacted(), err)
-- 
2.43.0


From 4d6d44c23e8d273beeadcf7e0495bb40f0fb2b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 32/72] fix: default to http.DefaultClient when fetching
 indexes without WithHTTPClient

---
 pkg/apk/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 32e394b..8739267 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -120,7 +120,7 @@ func GetRepositoryIndexes(ctx context.Context, repos []string, keys map[string][
 	ctx, span := otel.Tracer("go-apk").Start(ctx, "GetRepositoryIndexes")
 	defer span.End()
 
-	opts := &indexOpts{}
+	opts := &indexOpts{httpClient: http.DefaultClient}
 	for _, opt := range options {
 		opt(opts)
 	}
-- 
2.43.0


From 4582b6b43a06e5e5a45cab04d95111febfde9ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 33/72] fix: do not reuse an index that was accepted under a
 different trust policy

---
 pkg/apk/index.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 8739267..d828696 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -18,6 +18,7 @@ import (
 	"archive/tar"
 	"bytes"
 	"context"
+	"crypto/sha256"
 	"errors"
 	"fmt"
 	"io"
@@ -26,6 +27,7 @@ import (
 	"net/url"
 	"os"
 	"regexp"
+	"sort"
 	"strings"
 	"sync"
 	"time"
@@ -63,13 +65,33 @@ type indexCache struct {
 	indexes sync.Map
 }
 
+// indexCacheKey identifies the index at u together with the trust policy that applies to it, so that an index
+// accepted under one policy is never reused under another.
+func indexCacheKey(u string, keys map[string][]byte, arch string, opts *indexOpts) string {
+	if !shouldCheckSignatureForIndex(u, arch, opts) {
+		return u
+	}
+	names := make([]string, 0, len(keys))
+	for name := range keys {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	h := sha256.New()
+	for _, name := range names {
+		fmt.Fprintf(h, "%d %d %s", len(name), len(keys[name]), name)
+		h.Write(keys[name])
+	}
+	return fmt.Sprintf("%s %x", u, h.Sum(nil))
+}
+
 func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte, arch string, opts *indexOpts) (*APKIndex, error) {
+	key := indexCacheKey(u, keys, arch, opts)
 	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {
 		// We don't want remote indexes to change while we're running.
-		once, _ := i.onces.LoadOrStore(u, &sync.Once{})
+		once, _ := i.onces.LoadOrStore(key, &sync.Once{})
 		once.(*sync.Once).Do(func() {
 			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-			i.indexes.Store(u, indexResult{
+			i.indexes.Store(key, indexResult{
 				idx: idx,
 				err: err,
 			})
@@ -85,19 +107,19 @@ func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte,
 		}
 
 		mod := stat.ModTime()
-		before, ok := i.modtimes[u]
+		before, ok := i.modtimes[key]
 		if !ok || mod.After(before) {
 			// If this is the first time or it has changed since the last time...
 			idx, err := getRepositoryIndex(ctx, u, keys, arch, opts)
-			i.indexes.Store(u, indexResult{
+			i.indexes.Store(key, indexResult{
 				idx: idx,
 				err: err,
 			})
-			i.modtimes[u] = mod
+			i.modtimes[key] = mod
 		}
 	}
 
-	v, ok := i.indexes.Load(u)
+	v, ok := i.indexes.Load(key)
 	if !ok {
 		asURL, _ := url.Parse(u)
 		panic(fmt.Errorf("did not see index %q after writing it", asURL.Redacted()))
-- 
2.43.0


From 8d3f98b544d6a6a5e79b38a216afec6ddc3f1387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 34/72] fix: keep passwords in package URLs out of error
 messages

---
 pkg/apk/implementation.go | 6 +++---
 pkg/apk/transport.go      | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index f17a789..127e34d 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -948,7 +948,7 @@ func (c *apkCache) get(ctx context.Context, a *APK, pkg InstallablePackage) (*ex
 
 	v, ok := c.resps.Load(u)
 	if !ok {
-		panic(fmt.Errorf("did not see apk %q after writing it", u))
+		panic(fmt.Errorf("did not see apk of %q after writing it", pkg.PackageName()))
 	}
 
 	result := v.(apkResult)
@@ -1110,11 +1110,11 @@ func (a *APK) FetchPackage(ctx context.Context, pkg InstallablePackage) (io.Read
 		rrt := newRangeRetryTransport(ctx, client)
 		res, err := rrt.RoundTrip(req)
 		if err != nil {
-			return nil, fmt.Errorf("unable to get package apk at %s: %w", u, err)
+			return nil, fmt.Errorf("unable to get package apk at %s: %w", asURL.Redacted(), err)
 		}
 		if res.StatusCode != http.StatusOK {
 			res.Body.Close()
-			return nil, fmt.Errorf("unable to get package apk at %s: %v", u, res.Status)
+			return nil, fmt.Errorf("unable to get package apk at %s: %v", asURL.Redacted(), res.Status)
 		}
 		return res.Body, nil
 	default:
diff --git a/pkg/apk/transport.go b/pkg/apk/transport.go
index 8f3585f..a64bd9f 100644
--- a/pkg/apk/transport.go
+++ b/pkg/apk/transport.go
@@ -92,10 +92,10 @@ func (r *rangeRetryReader) reset(oerr error) (*http.Response, error) {
 		}
 	} else if resp.StatusCode != http.StatusPartialContent {
 		if oerr != nil {
-			return resp, fmt.Errorf("retrying %w: %s %s (Range: %s): unexpected status code: %d", oerr, req.Method, req.URL.String(), rangeHeader, resp.StatusCode)
+			return resp, fmt.Errorf("retrying %w: %s %s (Range: %s): unexpected status code: %d", oerr, req.Method, req.URL.Redacted(), rangeHeader, resp.StatusCode)
 		}
 
-		return resp, fmt.Errorf("%s %s (Range: %s): unexpected status code: %d", req.Method, req.URL.String(), rangeHeader, resp.StatusCode)
+		return resp, fmt.Errorf("%s %s (Range: %s): unexpected status code: %d", req.Method, req.URL.Redacted(), rangeHeader, resp.StatusCode)
 	}
 
 	r.body = resp.Body
-- 
2.43.0


From f13a49434b0cd6a6bf10a6bedb761648fc88606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 35/72] fix: keep passwords in repository URLs out of cache
 paths

---
 pkg/apk/cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 68d4c77..31c74b1 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -338,6 +338,8 @@ func cachePathFromURL(root string, u url.URL) (string, error) {
 	u2.ForceQuery = false
 	u2.RawFragment = ""
 	u2.RawQuery = ""
+	// Cache paths show up in error messages and directory listings.
+	u2.User = nil
 	filename := filepath.Base(u2.Path)
 	archDir := filepath.Dir(u2.Path)
 	dir := filepath.Base(archDir)
-- 
2.43.0


From f3f1ee9b660bfb2b5527d3ad3d83b4f33a6cfb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 36/72] fix: report errors when finishing a tarball

---
 pkg/tarball/write.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/tarball/write.go b/pkg/tarball/write.go
index 55d0d09..1397b9b 100644
--- a/pkg/tarball/write.go
+++ b/pkg/tarball/write.go
@@ -298,9 +298,12 @@ func (c *Context) WriteTargz(ctx context.Context, dst io.Writer, src fs.FS, user
 	defer span.End()
 
 	gzw := gzip.NewWriter(dst)
-	defer gzw.Close()
+	if err := c.WriteTar(ctx, gzw, src, userinfofs); err != nil {
+		gzw.Close()
+		return err
+	}
 
-	return c.WriteTar(ctx, gzw, src, userinfofs)
+	return gzw.Close()
 }
 
 // WriteTar writes a tarball to the provided io.Writer from the provided fs.FS.
@@ -313,11 +316,6 @@ func (c *Context) WriteTar(ctx context.Context, dst io.Writer, src fs.FS, userin
 	defer span.End()
 
 	tw := tar.NewWriter(dst)
-	if !c.SkipClose {
-		defer tw.Close()
-	} else {
-		defer tw.Flush()
-	}
 
 	// get the uname and gname maps
 	usersFile, _ := passwd.ReadUserFile(userinfosrc, "etc/passwd")
@@ -334,5 +332,13 @@ func (c *Context) WriteTar(ctx context.Context, dst io.Writer, src fs.FS, userin
 		return fmt.Errorf("writing TAR archive failed: %w", err)
 	}
 
+	finish := tw.Close
+	if c.SkipClose {
+		finish = tw.Flush
+	}
+	if err := finish(); err != nil {
+		return fmt.Errorf("finishing TAR archive failed: %w", err)
+	}
+
 	return nil
 }
-- 
2.43.0


From e5762e676ab405f1040282ef57704a1a08d719b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 37/72] fix: report errors when finishing index archives and
 scripts.tar

---
 pkg/apk/apkindex.go       | 9 +++++++--
 pkg/apk/implementation.go | 5 +++--
 pkg/apk/installed.go      | 4 +++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/apk/apkindex.go b/pkg/apk/apkindex.go
index fba86f2..3f16f6a 100644
--- a/pkg/apk/apkindex.go
+++ b/pkg/apk/apkindex.go
@@ -258,9 +258,7 @@ func ArchiveFromIndex(apkindex *APKIndex) (archive io.Reader, err error) {
 	// Create the tarball
 	var tarballContents bytes.Buffer
 	gw := gzip.NewWriter(&tarballContents)
-	defer gw.Close()
 	tw := tar.NewWriter(gw)
-	defer tw.Close()
 
 	// Add APKINDEX and DESCRIPTION files to the tarball
 	for _, item := range []struct {
@@ -284,6 +282,13 @@ func ArchiveFromIndex(apkindex *APKIndex) (archive io.Reader, err error) {
 		}
 	}
 
+	if err := tw.Close(); err != nil {
+		return nil, fmt.Errorf("finishing tar: %w", err)
+	}
+	if err := gw.Close(); err != nil {
+		return nil, fmt.Errorf("finishing gzip: %w", err)
+	}
+
 	// Return io.ReadCloser representing the tarball
 	return &tarballContents, nil
 }
diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 127e34d..c4db740 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -293,9 +293,10 @@ func (a *APK) InitDB(ctx context.Context, alpineVersions ...string) error {
 	}
 	defer TarFile.Close()
 	tarWriter := tar.NewWriter(TarFile)
-	defer tarWriter.Close()
-
 	// nothing to add to it; scripts.tar should be empty
+	if err := tarWriter.Close(); err != nil {
+		return fmt.Errorf("could not write tarball file '%s', got error '%w'", scriptsFilePath, err)
+	}
 
 	// get the alpine-keys base keys for our usage
 	if len(alpineVersions) > 0 {
diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 7df0fbf..ef57beb 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -139,7 +139,6 @@ func (a *APK) updateScriptsTar(pkg *Package, controlTarGz io.Reader, sourceDateE
 	}
 
 	tw := tar.NewWriter(scripts)
-	defer tw.Close()
 	for {
 		header, err := tr.Next()
 		if errors.Is(err, io.EOF) {
@@ -174,6 +173,9 @@ func (a *APK) updateScriptsTar(pkg *Package, controlTarGz io.Reader, sourceDateE
 			return fmt.Errorf("unable to write content for %s: %w", header.Name, err)
 		}
 	}
+	if err := tw.Close(); err != nil {
+		return fmt.Errorf("unable to finish scripts file: %w", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 51ba77faba8aafb2671e4d36e6789188e499882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 38/72] fix: list only direct children, sorted by name, in
 APKFS.ReadDir

---
 pkg/fs/apkfs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/fs/apkfs.go b/pkg/fs/apkfs.go
index 0c8ddc5..2c6dafd 100644
--- a/pkg/fs/apkfs.go
+++ b/pkg/fs/apkfs.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"io/fs"
 	"os"
+	"sort"
 	"strings"
 	"time"
 
@@ -247,13 +248,17 @@ func (a *APKFS) ReadDir(path string) ([]fs.DirEntry, error) {
 			pathPrefix += "/"
 		}
 		if strings.HasPrefix(currentPath, pathPrefix) {
-			if strings.LastIndex(currentPath, "/") > len(path)+1 {
+			if strings.Contains(strings.TrimPrefix(currentPath, pathPrefix), "/") {
 				// some sub-sub directory, not yet
 				continue
 			}
 			results = append(results, &apkFSFileInfo{currentFile, currentPath[strings.LastIndex(currentPath, "/"):]})
 		}
 	}
+	// fs.ReadDirFS requires entries to be sorted by filename.
+	sort.Slice(results, func(i, j int) bool {
+		return results[i].Name() < results[j].Name()
+	})
 	return results, nil
 }
 
-- 
2.43.0


From a5fc76f198493fc2050457bf76b3700578f24049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 39/72] fix: replace the index atomically when signing it

---
 pkg/signature/sign.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/signature/sign.go b/pkg/signature/sign.go
index 56852e3..353d33d 100644
--- a/pkg/signature/sign.go
+++ b/pkg/signature/sign.go
@@ -82,10 +82,16 @@ func SignIndex(ctx context.Context, signingKey string, indexFile string) error {
 		return fmt.Errorf("unable to write signature tarball: %w", err)
 	}
 
-	idx, err := os.Create(indexFile)
+	// Replace the index only once the signed one is complete, so that a failure leaves the original in place.
+	fi, err := os.Stat(indexFile)
+	if err != nil {
+		return fmt.Errorf("unable to stat index: %w", err)
+	}
+	idx, err := os.CreateTemp(filepath.Dir(indexFile), filepath.Base(indexFile)+".*.tmp")
 	if err != nil {
 		return fmt.Errorf("unable to open index for writing: %w", err)
 	}
+	defer os.Remove(idx.Name())
 	defer idx.Close()
 
 	if _, err := io.Copy(idx, &sigBuffer); err != nil {
@@ -96,6 +102,16 @@ func SignIndex(ctx context.Context, signingKey string, indexFile string) error {
 		return fmt.Errorf("unable to write index data: %w", err)
 	}
 
+	if err := idx.Chmod(fi.Mode().Perm()); err != nil {
+		return fmt.Errorf("unable to set permissions of signed index: %w", err)
+	}
+	if err := idx.Close(); err != nil {
+		return fmt.Errorf("unable to write signed index: %w", err)
+	}
+	if err := os.Rename(idx.Name(), indexFile); err != nil {
+		return fmt.Errorf("unable to replace index: %w", err)
+	}
+
 	log.Infof("signed index %s with key %s", indexFile, signingKey)
 
 	return nil
-- 
2.43.0


From 8f571899924d8e93e139ec5998100d06cfc76aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 40/72] fix: never serve an incomplete download from the
 offline cache

---
 pkg/apk/cache.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 31c74b1..5c1d50a 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -17,12 +17,15 @@ package apk
 import (
 	"fmt"
 	"io"
+	"io/fs"
 	"net/http"
 	"net/url"
 	"os"
 	"path/filepath"
 	"strings"
 	"sync"
+
+	"golang.org/x/exp/slices"
 )
 
 // This is terrible but simpler than plumbing around a cache for now.
@@ -192,6 +195,10 @@ func (t *cacheTransport) RoundTrip(request *http.Request) (*http.Response, error
 		if err != nil {
 			return nil, fmt.Errorf("listing %q for offline cache: %w", cacheDir, err)
 		}
+		// Leave out directories and downloads that did not complete.
+		des = slices.DeleteFunc(des, func(de fs.DirEntry) bool {
+			return de.IsDir() || filepath.Ext(de.Name()) == ".tmp"
+		})
 
 		if len(des) == 0 {
 			return nil, fmt.Errorf("no offline cached entries for %s", cacheDir)
-- 
2.43.0


From 336e23f5c8f9ed4b923b8981579c087b04a181fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 41/72] fix: make package resolution independent of map
 iteration order

---
 pkg/apk/repo.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 3d353ab..d6d3874 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -243,9 +243,12 @@ func NewPkgResolver(_ context.Context, indexes []NamedIndex) *PkgResolver {
 		}
 	}
 	// create a map of every provided file to its package
+	// (in a fixed order, because providers that are otherwise equal are selected in this order)
+	pkgNames := maps.Keys(pkgNameMap)
+	slices.Sort(pkgNames)
 	allPkgs := make([][]*repositoryPackage, 0, len(pkgNameMap))
-	for _, pkgVersions := range pkgNameMap {
-		allPkgs = append(allPkgs, pkgVersions)
+	for _, name := range pkgNames {
+		allPkgs = append(allPkgs, pkgNameMap[name])
 	}
 	for _, pkgVersions := range allPkgs {
 		for _, pkg := range pkgVersions {
@@ -545,10 +548,12 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 		}
 	}
 	// are there any installIf dependencies?
-	for dep, depPkg := range added {
-		depPkgList, ok := p.installIfMap[dep]
+	// Packages that get added below can trigger further ones, so look at those as well.
+	for i := 0; i < len(dependencies); i++ {
+		depPkg := dependencies[i]
+		depPkgList, ok := p.installIfMap[depPkg.Name]
 		if !ok {
-			depPkgList, ok = p.installIfMap[fmt.Sprintf("%s=%s", dep, depPkg.Version)]
+			depPkgList, ok = p.installIfMap[fmt.Sprintf("%s=%s", depPkg.Name, depPkg.Version)]
 		}
 		if !ok {
 			continue
-- 
2.43.0


From b7c9b2669e2d81247b56ff40b04510a929d8f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 42/72] fix: do not select disqualified packages through
 install_if

---
 pkg/apk/repo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index d6d3874..3a17044 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -560,6 +560,9 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 		}
 		// this package "dep" can trigger an installIf. It might not be enough, so check it
 		for _, installIfPkg := range depPkgList {
+			if _, dqed := dq[installIfPkg.RepositoryPackage]; dqed {
+				continue
+			}
 			var matchCount int
 			for _, subDep := range installIfPkg.InstallIf {
 				// two possibilities: package name, or name=version
-- 
2.43.0


From e61479db8fe0c3510501d8e3b0ab7a5d1c277471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 43/72] fix: order packages consistently when neither version
 can be parsed

---
 pkg/apk/repo.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 3a17044..5a5dea0 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -914,12 +914,15 @@ func (p *PkgResolver) comparePackages(compare *RepositoryPackage, name string, e
 		}
 		// both matched or both did not, so just compare versions
 		// version priority
-		iVersion, err := p.parseVersion(iVersionStr)
-		if err != nil {
+		iVersion, iErr := p.parseVersion(iVersionStr)
+		jVersion, jErr := p.parseVersion(jVersionStr)
+		switch {
+		case iErr != nil && jErr != nil:
+			// Neither is better, but the result must not depend on the order of the arguments.
+			return cmp.Compare(a.Name, b.Name)
+		case iErr != nil:
 			return 1
-		}
-		jVersion, err := p.parseVersion(jVersionStr)
-		if err != nil {
+		case jErr != nil:
 			// If j fails to parse, prefer i.
 			return -1
 		}
@@ -929,12 +932,15 @@ func (p *PkgResolver) comparePackages(compare *RepositoryPackage, name string, e
 		}
 		// if versions are equal, they might not be the same as the package versions
 		if iVersionStr != a.Version || jVersionStr != b.Version {
-			iVersion, err := p.parseVersion(a.Version)
-			if err != nil {
+			iVersion, iErr := p.parseVersion(a.Version)
+			jVersion, jErr := p.parseVersion(b.Version)
+			switch {
+			case iErr != nil && jErr != nil:
+				// Neither is better, but the result must not depend on the order of the arguments.
+				return cmp.Compare(a.Name, b.Name)
+			case iErr != nil:
 				return 1
-			}
-			jVersion, err := p.parseVersion(b.Version)
-			if err != nil {
+			case jErr != nil:
 				// If j fails to parse, prefer i.
 				return -1
 			}
-- 
2.43.0


From 80e6e904b0a5c974812052838f05fb24f34c0580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 44/72] fix: do not recurse forever on packages with an entry
 for the root directory

---
 pkg/apk/installed.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index ef57beb..06bbad7 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -427,6 +427,10 @@ func sortTarHeaders(headers []tar.Header) []tar.Header {
 		cleanedName := filepath.Clean(header.Name)
 
 		dir := filepath.Dir(cleanedName)
+		if dir == cleanedName {
+			// The root directory is its own parent, and is not recorded.
+			continue
+		}
 		directoryChildren[dir] = append(directoryChildren[dir], cleanedName)
 		all[cleanedName] = header
 	}
-- 
2.43.0


From c13fb43041b6003532c28d6b5a72583adb9076e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 45/72] fix: record files at the root in the installed database

---
 pkg/apk/installed.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 06bbad7..70ebe92 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -452,9 +452,15 @@ func sortTarHeaders(headers []tar.Header) []tar.Header {
 		}
 	}
 
-	sort.Strings(topLevelDirs)
+	// Files at the root have no directory to descend into.
+	topLevel := topLevelDirs
+	for _, child := range directoryChildren["."] {
+		if all[child].Typeflag != tar.TypeDir {
+			topLevel = append(topLevel, child)
+		}
+	}
 
-	sorted := sortChildrenTarHeaders(directoryChildren, all, topLevelDirs)
+	sorted := sortChildrenTarHeaders(directoryChildren, all, topLevel)
 	return sorted
 }
 
-- 
2.43.0


From a361f58cc904827e94d2f1f4692e94ebafa14c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 46/72] fix: honour version constraints spelled ~=, =~, => or
 =<

---
 pkg/apk/version.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/apk/version.go b/pkg/apk/version.go
index 089d8a3..cf1bbdb 100644
--- a/pkg/apk/version.go
+++ b/pkg/apk/version.go
@@ -382,11 +382,11 @@ func resolvePackageNameVersionPin(pkgName string) parsedConstraint {
 			p.dep = versionGreater
 		case "<":
 			p.dep = versionLess
-		case ">=":
+		case ">=", "=>":
 			p.dep = versionGreaterEqual
-		case "<=":
+		case "<=", "=<":
 			p.dep = versionLessEqual
-		case "~":
+		case "~", "~=", "=~":
 			p.dep = versionTilde
 		default:
 			p.dep = versionAny
-- 
2.43.0


From 21ac137d44516ea9bca561349739683d0eb449a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 47/72] fix: DirFS Mknod claims its name for the on-disk case
 variant

On a case-insensitive filesystem Mknod went to disk without recording which
variant of the name lives there, so another variant created later was sent to
disk as well and replaced the node.
---
 pkg/fs/rwosfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/fs/rwosfs.go b/pkg/fs/rwosfs.go
index d6ad8ff..ab24838 100644
--- a/pkg/fs/rwosfs.go
+++ b/pkg/fs/rwosfs.go
@@ -559,7 +559,7 @@ func (f *dirFS) Mknod(name string, mode uint32, dev int) error {
 	if err != nil {
 		return err
 	}
-	if f.caseSensitiveOnDisk(name) {
+	if f.createOnDisk(name) {
 		err := unix.Mknod(fullpath, mode, dev)
 		// what if we could not create it? Just create a regular file there, and memory will override
 		if err != nil {
-- 
2.43.0


From a934e86e93906081d9d81d3af1053560336a645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 48/72] fix: reject packages that end before their data section

---
 pkg/expandapk/expandapk.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 20d532d..6a7a241 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -385,7 +385,8 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (_ *APKEx
 		}
 
 		if err == io.EOF {
-			break
+			// The data section always comes last: if the input ends before it, the package is incomplete.
+			return nil, fmt.Errorf("invalid number of tar streams: %d", len(gzipStreams))
 		} else if err != nil {
 			return nil, fmt.Errorf("creating gzip reader: %w", err)
 		}
@@ -429,9 +430,6 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (_ *APKEx
 		}
 	}
 
-	if gzi == nil {
-		return nil, fmt.Errorf("invalid number of tar streams: %d", len(gzipStreams))
-	}
 	if err := gzi.Close(); err != nil {
 		return nil, fmt.Errorf("expandApk error 6: %w", err)
 	}
-- 
2.43.0


From 23bf54f8b27541311ff84ea64769d12f8a5b6a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:10 +0000
Subject: [PATCH 49/72] fix: refuse hard links to directories in memFS

---
 pkg/fs/memfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index 0fa6e2d..a817233 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -425,6 +425,10 @@ func (m *memFS) Link(oldname, newname string) error {
 	if !anode.dir {
 		return fmt.Errorf("parent is not a directory")
 	}
+	if target.dir {
+		// A directory that is linked below itself could never be walked.
+		return fmt.Errorf("cannot create a hard link to a directory")
+	}
 	anode.mu.Lock()
 	defer anode.mu.Unlock()
 	if _, ok := anode.children[base]; ok {
-- 
2.43.0


From 4bd996c49c69487b6f38dadd81ecdd82794ecc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:38 +0000
Subject: [PATCH 50/72] fix: report the same unsatisfiable dependency on every
 run

---
 pkg/apk/repo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 5a5dea0..88424c4 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -752,6 +752,8 @@ func (p *PkgResolver) getPackageDependencies(pkg *RepositoryPackage, allowPin st
 			// Nothing left to solve.
 			continue
 		}
+		// Look at them in the same order on every run, as the first one without candidates is reported.
+		slices.Sort(constraints)
 
 		// Find the constraint with the fewest solutions.
 		lowest := ""
-- 
2.43.0


From 0745171b380bfe0573ecc28057de4a25d365d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 51/72] fix: close the body of a response that is rejected

---
 pkg/apk/transport.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/apk/transport.go b/pkg/apk/transport.go
index a64bd9f..91ee114 100644
--- a/pkg/apk/transport.go
+++ b/pkg/apk/transport.go
@@ -87,10 +87,12 @@ func (r *rangeRetryReader) reset(oerr error) (*http.Response, error) {
 		// we need to discard anything we've already Read().
 		if r.progress != 0 {
 			if _, err := io.CopyN(io.Discard, resp.Body, r.progress); err != nil {
+				resp.Body.Close()
 				return resp, err
 			}
 		}
 	} else if resp.StatusCode != http.StatusPartialContent {
+		resp.Body.Close()
 		if oerr != nil {
 			return resp, fmt.Errorf("retrying %w: %s %s (Range: %s): unexpected status code: %d", oerr, req.Method, req.URL.Redacted(), rangeHeader, resp.StatusCode)
 		}
-- 
2.43.0


From 3ace0a3162dde57a6381dcb503fef6e19bbf49e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 52/72] fix: close the cached file when it cannot be examined

---
 pkg/apk/cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index 5c1d50a..e076a65 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -124,6 +124,7 @@ func (e *etagCache) get(t *cacheTransport, request *http.Request, cacheFile stri
 
 	fi, err := f.Stat()
 	if err != nil {
+		f.Close()
 		return nil, fmt.Errorf("stat(%q): %w", resp.cacheFile, err)
 	}
 
-- 
2.43.0


From 42e3468e522fc48f235a579b52b7754266c31555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 53/72] fix: close the package section when it is not gzip

---
 pkg/fs/apkfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/fs/apkfs.go b/pkg/fs/apkfs.go
index 2c6dafd..8d9f935 100644
--- a/pkg/fs/apkfs.go
+++ b/pkg/fs/apkfs.go
@@ -57,6 +57,7 @@ func (a *APKFS) getTarReader() (*os.File, *tar.Reader, error) {
 	}
 	gzipStream, err := gzip.NewReader(file)
 	if err != nil {
+		file.Close()
 		return nil, nil, err
 	}
 	tr := tar.NewReader(gzipStream)
-- 
2.43.0


From 0318043fb5395127d544bd370be5305142b7e5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 54/72] fix: close package files when expanding fails

---
 pkg/apk/implementation.go  |  2 ++
 pkg/expandapk/expandapk.go | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index c4db740..254e84b 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -912,10 +912,12 @@ func (a *APK) cachedPackage(ctx context.Context, pkg InstallablePackage, cacheDi
 	}
 	info, err := data.Stat()
 	if err != nil {
+		data.Close()
 		return nil, err
 	}
 	exp.TarFS, err = tarfs.New(data, info.Size())
 	if err != nil {
+		data.Close()
 		return nil, err
 	}
 
diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index 6a7a241..eb79805 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -153,6 +153,9 @@ func (a *APKExpanded) APK() (io.ReadCloser, error) {
 		if fn != "" {
 			f, err := os.Open(fn)
 			if err != nil {
+				for _, c := range cs {
+					c.Close()
+				}
 				return nil, err
 			}
 			rs = append(rs, f)
@@ -354,6 +357,12 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (_ *APKEx
 	if err != nil {
 		return nil, fmt.Errorf("expandApk error 1: %w", err)
 	}
+	defer func() {
+		// For the paths that fail before the explicit CloseFile below.
+		if err != nil && sw.f != nil {
+			sw.CloseFile()
+		}
+	}()
 	exR := newExpandApkReader(source)
 	tr := io.TeeReader(exR, sw)
 	var gzi *gzip.Reader
@@ -407,6 +416,8 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (_ *APKEx
 			if err != nil {
 				return nil, fmt.Errorf("opening tar file: %w", err)
 			}
+			// For the paths that fail before the explicit Close below.
+			defer tarfile.Close()
 			bw := bufio.NewWriterSize(tarfile, 1<<20)
 			tr := io.TeeReader(gzi, bw)
 
@@ -492,12 +503,14 @@ func ExpandApk(ctx context.Context, source io.Reader, cacheDir string) (_ *APKEx
 	}
 	info, err := data.Stat()
 	if err != nil {
+		data.Close()
 		return nil, err
 	}
 
 	// TODO: We could overlap this with checkSums.
 	expanded.TarFS, err = tarfs.New(data, info.Size())
 	if err != nil {
+		data.Close()
 		return nil, fmt.Errorf("indexing %q: %w", expanded.TarFile, err)
 	}
 
-- 
2.43.0


From 474eae26d72dff610f9325e45b50c926bdc9b89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 55/72] fix: report failures to examine a local repository
 index

---
 pkg/apk/index.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index d828696..177fa8a 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -102,9 +102,12 @@ func (i *indexCache) get(ctx context.Context, u string, keys map[string][]byte,
 
 		// We do expect local indexes to change, so we check modtimes.
 		stat, err := os.Stat(u)
-		if err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
 			return nil, nil
 		}
+		if err != nil {
+			return nil, fmt.Errorf("failed to stat repository index %s: %w", u, err)
+		}
 
 		mod := stat.ModTime()
 		before, ok := i.modtimes[key]
-- 
2.43.0


From 09975a9508d6caf54ce230e0f4850e0215bfe606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 56/72] fix: report failures to read user and group names for a
 tar

---
 pkg/tarball/write.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/tarball/write.go b/pkg/tarball/write.go
index 1397b9b..886e08d 100644
--- a/pkg/tarball/write.go
+++ b/pkg/tarball/write.go
@@ -20,6 +20,7 @@ import (
 	"context"
 	"crypto/sha1" //nolint:gosec
 	"encoding/hex"
+	"errors"
 	"fmt"
 	"io"
 	"io/fs"
@@ -318,8 +319,14 @@ func (c *Context) WriteTar(ctx context.Context, dst io.Writer, src fs.FS, userin
 	tw := tar.NewWriter(dst)
 
 	// get the uname and gname maps
-	usersFile, _ := passwd.ReadUserFile(userinfosrc, "etc/passwd")
-	groupsFile, _ := passwd.ReadGroupFile(userinfosrc, "etc/group")
+	usersFile, err := passwd.ReadUserFile(userinfosrc, "etc/passwd")
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return fmt.Errorf("failed to read user names: %w", err)
+	}
+	groupsFile, err := passwd.ReadGroupFile(userinfosrc, "etc/group")
+	if err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return fmt.Errorf("failed to read group names: %w", err)
+	}
 	users := map[int]string{}
 	groups := map[int]string{}
 	for _, u := range usersFile.Entries {
-- 
2.43.0


From a61e5d9d98fba1114c901a3caa5cc06c7ff91c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 57/72] fix: report failures to finish writing files

---
 pkg/apk/implementation.go |  6 ++++++
 pkg/apk/install.go        |  3 +++
 pkg/apk/installed.go      | 10 ++++++++++
 pkg/passwd/group.go       | 10 +++++++++-
 pkg/passwd/passwd.go      | 10 +++++++++-
 5 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 254e84b..0bc2028 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -297,6 +297,9 @@ func (a *APK) InitDB(ctx context.Context, alpineVersions ...string) error {
 	if err := tarWriter.Close(); err != nil {
 		return fmt.Errorf("could not write tarball file '%s', got error '%w'", scriptsFilePath, err)
 	}
+	if err := TarFile.Close(); err != nil {
+		return fmt.Errorf("could not finish writing tarball file '%s', got error '%w'", scriptsFilePath, err)
+	}
 
 	// get the alpine-keys base keys for our usage
 	if len(alpineVersions) > 0 {
@@ -788,6 +791,9 @@ func (a *APK) fetchAlpineKeys(ctx context.Context, alpineVersions []string) erro
 		if _, err := io.Copy(f, res.Body); err != nil {
 			return fmt.Errorf("failed to write key file %s: %w", filename, err)
 		}
+		if err := f.Close(); err != nil {
+			return fmt.Errorf("failed to finish writing key file %s: %w", filename, err)
+		}
 	}
 	return nil
 }
diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index 78567eb..8d9f5cb 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -63,6 +63,9 @@ func (a *APK) writeOneFile(header *tar.Header, r io.Reader, allowOverwrite bool)
 	if _, err := io.CopyN(f, r, header.Size); err != nil {
 		return fmt.Errorf("unable to write content for %s: %w", header.Name, err)
 	}
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("unable to finish writing %s: %w", header.Name, err)
+	}
 	// override one of the
 	return nil
 }
diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 70ebe92..91ca944 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -96,6 +96,9 @@ func (a *APK) AddInstalledPackage(pkg *Package, files []tar.Header) error {
 	if _, err := installedFile.Write(b); err != nil {
 		return err
 	}
+	if err := installedFile.Close(); err != nil {
+		return fmt.Errorf("unable to finish writing %s: %w", installedFilePath, err)
+	}
 	return nil
 }
 
@@ -176,6 +179,9 @@ func (a *APK) updateScriptsTar(pkg *Package, controlTarGz io.Reader, sourceDateE
 	if err := tw.Close(); err != nil {
 		return fmt.Errorf("unable to finish scripts file: %w", err)
 	}
+	if err := scripts.Close(); err != nil {
+		return fmt.Errorf("unable to finish writing %s: %w", scriptsFilePath, err)
+	}
 	return nil
 }
 
@@ -223,6 +229,10 @@ func (a *APK) updateTriggers(pkg *Package, controlTarGz io.Reader) error {
 		}
 	}
 
+	if err := triggers.Close(); err != nil {
+		return fmt.Errorf("unable to finish writing triggers file %s: %w", triggersFilePath, err)
+	}
+
 	return nil
 }
 
diff --git a/pkg/passwd/group.go b/pkg/passwd/group.go
index ba0f93e..ac5462b 100644
--- a/pkg/passwd/group.go
+++ b/pkg/passwd/group.go
@@ -103,7 +103,15 @@ func (gf *GroupFile) WriteFile(fsys apkfs.FullFS, filePath string) error {
 	}
 	defer file.Close()
 
-	return gf.Write(file)
+	if err := gf.Write(file); err != nil {
+		return err
+	}
+
+	if err := file.Close(); err != nil {
+		return fmt.Errorf("unable to finish writing %s: %w", filePath, err)
+	}
+
+	return nil
 }
 
 // Write writes an /etc/passwd file into an io.Writer.
diff --git a/pkg/passwd/passwd.go b/pkg/passwd/passwd.go
index 1481a23..98f57cb 100644
--- a/pkg/passwd/passwd.go
+++ b/pkg/passwd/passwd.go
@@ -107,7 +107,15 @@ func (uf *UserFile) WriteFile(filePath string) error {
 	}
 	defer file.Close()
 
-	return uf.Write(file)
+	if err := uf.Write(file); err != nil {
+		return err
+	}
+
+	if err := file.Close(); err != nil {
+		return fmt.Errorf("unable to finish writing %s: %w", filePath, err)
+	}
+
+	return nil
 }
 
 // Write writes an /etc/passwd file into an io.Writer.
-- 
2.43.0


From 317c07bfd51cfffb1b658c342aa6b648d848de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 58/72] fix: report that the root of a tree cannot be read when
 archiving it

---
 pkg/tarball/write.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/tarball/write.go b/pkg/tarball/write.go
index 886e08d..3c90015 100644
--- a/pkg/tarball/write.go
+++ b/pkg/tarball/write.go
@@ -93,15 +93,15 @@ func (c *Context) writeTar(ctx context.Context, tw *tar.Writer, fsys fs.FS, user
 		if err := ctx.Err(); err != nil {
 			return err
 		}
+		if err != nil {
+			return err
+		}
+
 		// skip the root path, superfluous
 		if path == "." {
 			return nil
 		}
 
-		if err != nil {
-			return err
-		}
-
 		info, err := d.Info()
 		if err != nil {
 			return err
-- 
2.43.0


From e570400483c622e0752b575598ea84622c769429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 59/72] fix: do not panic abbreviating a repository without a
 slash

---
 pkg/apk/repository.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/apk/repository.go b/pkg/apk/repository.go
index 0b7f7f5..dd1f87e 100644
--- a/pkg/apk/repository.go
+++ b/pkg/apk/repository.go
@@ -64,6 +64,9 @@ func (r *RepositoryWithIndex) Count() int {
 // and the architecture.
 func (r *RepositoryWithIndex) RepoAbbr() string {
 	parts := strings.Split(r.URI, "/")
+	if len(parts) < 2 {
+		return r.URI
+	}
 	return strings.Join(parts[len(parts)-2:], "/")
 }
 
-- 
2.43.0


From 7a61643ee988468f8b00feed7036a11d5b1ade69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 60/72] fix: accept empty reads of a package stream

---
 pkg/apk/resolveapk.go      | 3 +++
 pkg/expandapk/expandapk.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/apk/resolveapk.go b/pkg/apk/resolveapk.go
index ba6eb04..f825920 100644
--- a/pkg/apk/resolveapk.go
+++ b/pkg/apk/resolveapk.go
@@ -33,6 +33,9 @@ func newNoReadAheadApkReader(r io.Reader) *noReadAheadApkReader {
 }
 
 func (r *noReadAheadApkReader) Read(b []byte) (int, error) {
+	if len(b) == 0 {
+		return 0, nil
+	}
 	buf := make([]byte, 1)
 	n, err := r.Reader.Read(buf)
 	if err != nil && err != io.EOF {
diff --git a/pkg/expandapk/expandapk.go b/pkg/expandapk/expandapk.go
index eb79805..143f78a 100644
--- a/pkg/expandapk/expandapk.go
+++ b/pkg/expandapk/expandapk.go
@@ -310,6 +310,9 @@ func (r *expandApkReader) Read(b []byte) (int, error) {
 	if r.fast {
 		return r.Reader.Read(b)
 	}
+	if len(b) == 0 {
+		return 0, nil
+	}
 	buf := make([]byte, 1)
 	n, err := r.Reader.Read(buf)
 	if err != nil && err != io.EOF {
-- 
2.43.0


From ee5e79c37b59f67a4fbda7ecbfc4763fc7b63318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 61/72] fix: create files exclusively in the in-memory
 filesystem when asked to

---
 pkg/fs/memfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/fs/memfs.go b/pkg/fs/memfs.go
index a817233..c138bd0 100644
--- a/pkg/fs/memfs.go
+++ b/pkg/fs/memfs.go
@@ -237,6 +237,11 @@ func (m *memFS) openFile(name string, flag int, perm fs.FileMode, linkCount int)
 		parentAnode.mu.Unlock()
 		return nil, fmt.Errorf("is a directory")
 	}
+	if ok && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
+		// the caller asked for a new file; do not follow links either
+		parentAnode.mu.Unlock()
+		return nil, os.ErrExist
+	}
 	if flag&os.O_CREATE != 0 && !ok {
 		// create the file
 		anode = &node{
-- 
2.43.0


From 0ffb3c09da562dadf9fdc8df59829a964506d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 62/72] fix: reject malformed numbers in .PKGINFO

Mapping a .PKGINFO left an out-of-range size or date at zero without an error
and panicked on a size that looks like a duration.
---
 pkg/apk/implementation.go |  4 ++--
 pkg/apk/package.go        | 25 +++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 0bc2028..38172cd 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -1148,8 +1148,8 @@ func packageInfo(exp *expandapk.APKExpanded) (*Package, error) {
 	}
 
 	pkg := new(Package)
-	if err = cfg.MapTo(pkg); err != nil {
-		return nil, fmt.Errorf("cfg.MapTo(): %w", err)
+	if err = mapPackageInfo(cfg, pkg); err != nil {
+		return nil, fmt.Errorf("mapping .PKGINFO: %w", err)
 	}
 	pkg.BuildTime = time.Unix(pkg.BuildDate, 0).UTC()
 	pkg.InstalledSize = pkg.Size
diff --git a/pkg/apk/package.go b/pkg/apk/package.go
index 981d4e4..e04aae9 100644
--- a/pkg/apk/package.go
+++ b/pkg/apk/package.go
@@ -122,8 +122,8 @@ func ParsePackage(ctx context.Context, apkPackage io.Reader) (*Package, error) {
 	}
 
 	pkg := new(Package)
-	if err = cfg.MapTo(pkg); err != nil {
-		return nil, fmt.Errorf("cfg.MapTo(): %w", err)
+	if err = mapPackageInfo(cfg, pkg); err != nil {
+		return nil, fmt.Errorf("mapping .PKGINFO: %w", err)
 	}
 	pkg.BuildTime = time.Unix(pkg.BuildDate, 0).UTC()
 	pkg.InstalledSize = pkg.Size
@@ -132,3 +132,24 @@ func ParsePackage(ctx context.Context, apkPackage io.Reader) (*Package, error) {
 
 	return pkg, nil
 }
+
+// mapPackageInfo fills in pkg from the contents of a .PKGINFO file. A number that does not
+// fit its field is an error: by default the ini package leaves such a field at zero, and
+// it panics on an unsigned field whose value looks like a duration.
+func mapPackageInfo(cfg *ini.File, pkg *Package) error {
+	section := cfg.Section("")
+	for _, name := range []string{"size", "provider_priority", "builddate"} {
+		if section.Key(name).String() == "" {
+			section.DeleteKey(name) // as if absent
+		}
+	}
+	for _, name := range []string{"size", "provider_priority"} {
+		if !section.HasKey(name) {
+			continue
+		}
+		if _, err := section.Key(name).Uint64(); err != nil {
+			return fmt.Errorf("%s: %w", name, err)
+		}
+	}
+	return cfg.StrictMapTo(pkg)
+}
-- 
2.43.0


From 7d3d3294cbea621e248e527acd4affe868123d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 63/72] fix: reject archive modes that do not fit a file mode

---
 pkg/fs/apkfs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/fs/apkfs.go b/pkg/fs/apkfs.go
index 8d9f935..895959e 100644
--- a/pkg/fs/apkfs.go
+++ b/pkg/fs/apkfs.go
@@ -4,8 +4,10 @@ import (
 	"archive/tar"
 	"compress/gzip"
 	"context"
+	"fmt"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"sort"
 	"strings"
@@ -112,6 +114,10 @@ func NewAPKFS(ctx context.Context, archive string, apkfsType APKFSType) (*APKFS,
 			return nil, err
 		}
 
+		if header.Mode < 0 || header.Mode > math.MaxUint32 {
+			return nil, fmt.Errorf("mode %o of %s is out of range", header.Mode, header.Name)
+		}
+
 		currentEntry := apkFSFile{mode: correctMode(fs.FileMode(header.Mode), header), name: "/" + header.Name,
 			uid: header.Uid, gid: header.Gid,
 			size: uint64(header.Size), modTime: header.ModTime,
-- 
2.43.0


From 24d1a5175b8d79ed60daf57bb97f4770a76b6cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 64/72] fix: keep set-id and sticky bits of installed
 directories and in the database

---
 pkg/apk/install.go   | 2 +-
 pkg/apk/installed.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/apk/install.go b/pkg/apk/install.go
index 8d9f5cb..1a6a289 100644
--- a/pkg/apk/install.go
+++ b/pkg/apk/install.go
@@ -224,7 +224,7 @@ func (a *APK) installAPKFiles(ctx context.Context, in io.Reader, pkg *Package) (
 					}
 				}
 			}
-			if err := a.fs.MkdirAll(header.Name, header.FileInfo().Mode().Perm()); err != nil {
+			if err := a.fs.MkdirAll(header.Name, header.FileInfo().Mode()&^os.ModeType); err != nil {
 				return nil, fmt.Errorf("error creating directory %s: %w", header.Name, err)
 			}
 			// xattrs
diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 91ca944..4c75230 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -62,7 +62,7 @@ func (a *APK) AddInstalledPackage(pkg *Package, files []tar.Header) error {
 	pkgLines := PackageToInstalled(pkg)
 	// file lines
 	for _, f := range sortedFiles {
-		perm := f.Mode & 0777
+		perm := f.Mode & 0o7777
 		user := f.Uid
 		group := f.Gid
 
-- 
2.43.0


From 9f80fc2157a0f155390fc41a7478fe5b47f3d79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:56 +0000
Subject: [PATCH 65/72] fix: read back the file checksums of the installed
 database

---
 pkg/apk/installed.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/apk/installed.go b/pkg/apk/installed.go
index 4c75230..0d4ac36 100644
--- a/pkg/apk/installed.go
+++ b/pkg/apk/installed.go
@@ -389,6 +389,12 @@ func ParseInstalled(installed io.Reader) ([]*InstalledPackage, error) { //nolint
 			lastFile.Mode = perms
 			// pkg.Files holds copies, so record the permissions there too.
 			pkg.Files[len(pkg.Files)-1] = *lastFile
+		case "Z":
+			// checksum of the file it follows
+			if lastFile != nil {
+				lastFile.PAXRecords = map[string]string{paxRecordsChecksumKey: val}
+				pkg.Files[len(pkg.Files)-1] = *lastFile
+			}
 		}
 
 		linenr++
-- 
2.43.0


From 0202d1b96766ba735ff51e9b2f12b76780879d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 66/72] fix: a group without members has no members when read
 back

---
 pkg/passwd/group.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/passwd/group.go b/pkg/passwd/group.go
index ac5462b..9b9f5de 100644
--- a/pkg/passwd/group.go
+++ b/pkg/passwd/group.go
@@ -143,7 +143,11 @@ func (ge *GroupEntry) Parse(line string) error {
 	}
 	ge.GID = uint32(gid)
 
-	ge.Members = strings.Split(parts[3], ",")
+	// Splitting an empty string would give one member with an empty name.
+	ge.Members = nil
+	if parts[3] != "" {
+		ge.Members = strings.Split(parts[3], ",")
+	}
 
 	return nil
 }
-- 
2.43.0


From c4a6f68b5290357ce712d01aaec9ace6e388801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 67/72] fix: do not take the cache directory itself for a
 cached file

A URL whose path is "/.." had the cache root as its cache path, so that
the files kept for it were placed next to the root, outside of it.
---
 pkg/apk/cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index e076a65..c17d863 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -361,7 +361,7 @@ func cachePathFromURL(root string, u url.URL) (string, error) {
 	// validate it is within root
 	cacheFile = filepath.Clean(cacheFile)
 	cleanroot := filepath.Clean(root)
-	if rel, err := filepath.Rel(cleanroot, cacheFile); err != nil || rel == ".." || strings.HasPrefix(rel, "../") {
+	if rel, err := filepath.Rel(cleanroot, cacheFile); err != nil || rel == "." || rel == ".." || strings.HasPrefix(rel, "../") {
 		return "", fmt.Errorf("cache file %s is not within root %s", cacheFile, cleanroot)
 	}
 	return cacheFile, nil
-- 
2.43.0


From ed58f37e6ad582b609de775bc54df41a32eb132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 68/72] fix: refuse package file names that lead out of the
 cache directory

A package file named "...apk" left ".." as the last element of the path
of its cache directory.
---
 pkg/apk/cache.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/apk/cache.go b/pkg/apk/cache.go
index c17d863..0d23b36 100644
--- a/pkg/apk/cache.go
+++ b/pkg/apk/cache.go
@@ -335,7 +335,13 @@ func cacheDirForPackage(root string, pkg InstallablePackage) (string, error) {
 		return "", fmt.Errorf("unexpected ext (%s) to cache dir: %q", ext, p)
 	}
 
-	return strings.TrimSuffix(p, ".apk"), nil
+	dir := strings.TrimSuffix(p, ".apk")
+	// The file name is chosen by the repository, so what is left of it has to name a directory of its own.
+	if name := filepath.Base(dir); name == "." || name == ".." {
+		return "", fmt.Errorf("unexpected name (%s) of cache dir: %q", name, p)
+	}
+
+	return dir, nil
 }
 
 // cachePathFromURL given a URL, figure out what the cache path would be
-- 
2.43.0


From 6682b3f07ff66e9a3e41bb7264f1636474f765a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 69/72] fix: check the datahash of a cached package before
 using it in a path

The datahash of the control section was joined to the cache directory as
it is, so one with "../" in it had files outside of the cache opened.
---
 pkg/apk/implementation.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 38172cd..1901ee1 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -898,18 +898,19 @@ func (a *APK) cachedPackage(ctx context.Context, pkg InstallablePackage, cacheDi
 		return nil, fmt.Errorf("datahash for %s: %w", pkg, err)
 	}
 
-	dat := filepath.Join(cacheDir, datahash+".dat.tar.gz")
-	df, err := os.Stat(dat)
+	// The datahash is chosen by the package, so make sure that it is one before it becomes part of a path.
+	exp.PackageHash, err = hex.DecodeString(datahash)
 	if err != nil {
 		return nil, err
 	}
-	exp.PackageFile = dat
-	exp.Size += df.Size()
 
-	exp.PackageHash, err = hex.DecodeString(datahash)
+	dat := filepath.Join(cacheDir, datahash+".dat.tar.gz")
+	df, err := os.Stat(dat)
 	if err != nil {
 		return nil, err
 	}
+	exp.PackageFile = dat
+	exp.Size += df.Size()
 
 	exp.TarFile = strings.TrimSuffix(exp.PackageFile, ".gz")
 	data, err := exp.PackageData()
-- 
2.43.0


From 4046d7c795252f52b74d029da9e15ad8ed49571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 70/72] fix: do not quote URLs that may embed a password in
 parse errors

---
 pkg/apk/implementation.go | 43 +++++++++++++++++++++++++++++++--------
 pkg/apk/index.go          | 11 +++++-----
 2 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 1901ee1..8ad5b60 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -384,11 +384,11 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 			var asURL *url.URL
 			var err error
 			if strings.HasPrefix(element, "https://") || strings.HasPrefix(element, "http://") {
-				asURL, err = url.Parse(element)
+				asURL, err = parseURL(element)
 			} else {
 				// Attempt to parse non-https elements into URI's so they are translated into
 				// file:// URLs allowing them to parse into a url.URL{}
-				asURL, err = url.Parse(string(uri.New(element)))
+				asURL, err = parseURL(string(uri.New(element)))
 			}
 			if err != nil {
 				return fmt.Errorf("failed to parse key as URI: %w", err)
@@ -406,7 +406,7 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 				if a.cache != nil {
 					client = a.cache.client(client, true)
 				}
-				req, err := http.NewRequestWithContext(ctx, http.MethodGet, asURL.String(), nil)
+				req, err := newGetRequest(ctx, asURL.String())
 				if err != nil {
 					return err
 				}
@@ -729,7 +729,7 @@ func (a *APK) fetchAlpineKeys(ctx context.Context, alpineVersions []string) erro
 
 	u := alpineReleasesURL
 	client := a.client
-	req, err := http.NewRequestWithContext(ctx, http.MethodGet, u, nil)
+	req, err := newGetRequest(ctx, u)
 	if err != nil {
 		return err
 	}
@@ -764,7 +764,7 @@ func (a *APK) fetchAlpineKeys(ctx context.Context, alpineVersions []string) erro
 	}
 	// get the keys for each URL and save them to a file with that name
 	for _, u := range urls {
-		req, err := http.NewRequestWithContext(ctx, http.MethodGet, u, nil)
+		req, err := newGetRequest(ctx, u)
 		if err != nil {
 			return err
 		}
@@ -1064,7 +1064,11 @@ func packageAsURI(pkg InstallablePackage) (uri.URI, error) {
 	u := pkg.URL()
 
 	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {
-		return uri.Parse(u)
+		asURI, err := uri.Parse(u)
+		if err != nil {
+			return "", errInvalidURL
+		}
+		return asURI, nil
 	}
 
 	return uri.New(u), nil
@@ -1076,7 +1080,30 @@ func packageAsURL(pkg InstallablePackage) (*url.URL, error) {
 		return nil, err
 	}
 
-	return url.Parse(string(asURI))
+	return parseURL(string(asURI))
+}
+
+// errInvalidURL stands in for the errors of url.Parse and its kin, which quote
+// the URL along with any password it embeds.
+var errInvalidURL = errors.New("invalid URL")
+
+// parseURL is url.Parse, with errors that do not quote the URL.
+func parseURL(raw string) (*url.URL, error) {
+	u, err := url.Parse(raw)
+	if err != nil {
+		return nil, errInvalidURL
+	}
+	return u, nil
+}
+
+// newGetRequest returns a GET request for a URL, or an error that does not
+// quote the URL.
+func newGetRequest(ctx context.Context, raw string) (*http.Request, error) {
+	req, err := http.NewRequestWithContext(ctx, http.MethodGet, raw, nil)
+	if err != nil {
+		return nil, errInvalidURL
+	}
+	return req, nil
 }
 
 func (a *APK) FetchPackage(ctx context.Context, pkg InstallablePackage) (io.ReadCloser, error) {
@@ -1108,7 +1135,7 @@ func (a *APK) FetchPackage(ctx context.Context, pkg InstallablePackage) (io.Read
 		if a.cache != nil {
 			client = a.cache.client(client, false)
 		}
-		req, err := http.NewRequestWithContext(ctx, http.MethodGet, u, nil)
+		req, err := newGetRequest(ctx, u)
 		if err != nil {
 			return nil, err
 		}
diff --git a/pkg/apk/index.go b/pkg/apk/index.go
index 177fa8a..d5a42d9 100644
--- a/pkg/apk/index.go
+++ b/pkg/apk/index.go
@@ -150,7 +150,7 @@ func GetRepositoryIndexes(ctx context.Context, repos []string, keys map[string][
 		opt(opts)
 	}
 
-	for _, repo := range repos {
+	for i, repo := range repos {
 		// does it start with a pin?
 		var (
 			repoName string
@@ -160,7 +160,8 @@ func GetRepositoryIndexes(ctx context.Context, repos []string, keys map[string][
 			// it's a pinned repository, get the name
 			parts := strings.Fields(repo)
 			if len(parts) < 2 {
-				return nil, fmt.Errorf("invalid repository line: %q", repo)
+				// The line is not quoted, as it may embed a password.
+				return nil, fmt.Errorf("invalid repository line %d: a pin needs a name and a URL", i+1)
 			}
 			repoName = parts[0][1:]
 			repoURL = parts[1]
@@ -208,11 +209,11 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		err   error
 	)
 	if strings.HasPrefix(u, "https://") || strings.HasPrefix(u, "http://") {
-		asURL, err = url.Parse(u)
+		asURL, err = parseURL(u)
 	} else {
 		// Attempt to parse non-https elements into URI's so they are translated into
 		// file:// URLs allowing them to parse into a url.URL{}
-		asURL, err = url.Parse(string(uri.New(u)))
+		asURL, err = parseURL(string(uri.New(u)))
 	}
 	if err != nil {
 		return nil, fmt.Errorf("failed to parse repo as URI: %w", err)
@@ -229,7 +230,7 @@ func getRepositoryIndex(ctx context.Context, u string, keys map[string][]byte, a
 		}
 	case "https", "http":
 		client := opts.httpClient
-		req, err := http.NewRequestWithContext(ctx, http.MethodGet, asURL.String(), nil)
+		req, err := newGetRequest(ctx, asURL.String())
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4461ee0e0c73dc7112a11eaa2d43678db4a80a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:28 +0000
Subject: [PATCH 71/72] fix: do not leak the password of a key URL into errors
 or file names

---
 pkg/apk/implementation.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/apk/implementation.go b/pkg/apk/implementation.go
index 8ad5b60..cf507f2 100644
--- a/pkg/apk/implementation.go
+++ b/pkg/apk/implementation.go
@@ -395,6 +395,7 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 			}
 
 			var data []byte
+			name := filepath.Base(element)
 			switch asURL.Scheme {
 			case "file": //nolint:goconst
 				data, err = os.ReadFile(element)
@@ -402,6 +403,8 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 					return fmt.Errorf("failed to read apk key: %w", err)
 				}
 			case "https", "http": //nolint:goconst
+				// The name shows up in errors, and a URL without a path ends in the password.
+				name = filepath.Base(asURL.Redacted())
 				client := a.client
 				if a.cache != nil {
 					client = a.cache.client(client, true)
@@ -440,7 +443,7 @@ func (a *APK) InitKeyring(ctx context.Context, keyFiles, extraKeyFiles []string)
 			}
 
 			// #nosec G306 -- apk keyring must be publicly readable
-			if err := a.fs.WriteFile(filepath.Join("etc", "apk", "keys", filepath.Base(element)), data,
+			if err := a.fs.WriteFile(filepath.Join("etc", "apk", "keys", name), data,
 				0o644); err != nil {
 				return fmt.Errorf("failed to write apk key: %w", err)
 			}
@@ -768,16 +771,17 @@ func (a *APK) fetchAlpineKeys(ctx context.Context, alpineVersions []string) erro
 		if err != nil {
 			return err
 		}
+		redacted := req.URL.Redacted()
 		// NB: Not setting basic auth, since we know Alpine doesn't support it.
 		res, err := client.Do(req)
 		if err != nil {
-			return fmt.Errorf("failed to fetch alpine key %s: %w", u, err)
+			return fmt.Errorf("failed to fetch alpine key %s: %w", redacted, err)
 		}
 		defer res.Body.Close()
 		if res.StatusCode != http.StatusOK {
-			return fmt.Errorf("unable to get alpine key at %s: %v", u, res.Status)
+			return fmt.Errorf("unable to get alpine key at %s: %v", redacted, res.Status)
 		}
-		basefilenameEscape := filepath.Base(u)
+		basefilenameEscape := filepath.Base(redacted)
 		basefilename, err := url.PathUnescape(basefilenameEscape)
 		if err != nil {
 			return fmt.Errorf("failed to unescape key filename %s: %w", basefilenameEscape, err)
-- 
2.43.0


From fc82a5b8d273924299199bf39a38a35ea936a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:41 +0000
Subject: [PATCH 72/72] fix: do not resolve a dependency to a package that
 conflicts with the package itself

---
 pkg/apk/repo.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/apk/repo.go b/pkg/apk/repo.go
index 88424c4..2f048cb 100644
--- a/pkg/apk/repo.go
+++ b/pkg/apk/repo.go
@@ -528,10 +528,16 @@ func (p *PkgResolver) GetPackageWithDependencies(pkgName string, existing map[st
 		}
 	}
 
+	if dq == nil {
+		dq = map[*RepositoryPackage]string{}
+	}
+
 	pkg, err := p.resolvePackage(pkgName, dq)
 	if err != nil {
 		return nil, nil, nil, err
 	}
+	// its dependencies must not bring in what conflicts with it
+	p.disqualifyConflicts(pkg, dq)
 
 	pin := p.resolvePackageNameVersionPin(pkgName).pin
 	deps, conflicts, err := p.getPackageDependencies(pkg, pin, true, parents, localExisting, existingOrigins, dq)
-- 
2.43.0

