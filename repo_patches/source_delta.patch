From 5dd076168a25cfcb5de78c3330501101738b575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:14 +0000
Subject: [PATCH 01/17] fix: MatchStandaloneJSON must not modify the Config it
 is called on

The default .json extension was written into the receiver, so later calls
through the same Config stored their snapshots at a different path.
---
 snaps/matchStandaloneJSON.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/snaps/matchStandaloneJSON.go b/snaps/matchStandaloneJSON.go
index 701e81b..754d8d2 100644
--- a/snaps/matchStandaloneJSON.go
+++ b/snaps/matchStandaloneJSON.go
@@ -12,11 +12,13 @@ import (
 func (c *Config) MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
 	t.Helper()
 
-	if c.extension == "" {
-		c.extension = ".json"
+	// work on a copy, the config can be shared with other calls
+	conf := *c
+	if conf.extension == "" {
+		conf.extension = ".json"
 	}
 
-	matchStandaloneJSON(c, t, input, matchers...)
+	matchStandaloneJSON(&conf, t, input, matchers...)
 }
 
 func MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
-- 
2.43.0


From 6ba873aed6b770e032a45f387a6c5b430eaea51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 02/17] fix: matchers must not modify the caller's bytes

sjson's ReplaceInPlace writes the replacement into the input buffer when it
fits, so applying a matcher to a []byte changed the caller's data (and a
shorter replacement that needs JSON escaping was dropped).
---
 match/utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/match/utils.go b/match/utils.go
index a1cabb2..32582c1 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -9,8 +9,7 @@ import (
 var (
 	errPathNotFound = errors.New("path does not exist")
 	setJSONOptions  = &sjson.Options{
-		Optimistic:     true,
-		ReplaceInPlace: true,
+		Optimistic: true,
 	}
 )
 
-- 
2.43.0


From 89ceb822e7dc6eefe82dbb603ac697b148ba09bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 03/17] fix: serialise appending a snapshot with rewriting the
 same file

addNewSnapshot took no lock, so an entry appended while updateSnapshot was
rewriting the file could be lost or torn.
---
 snaps/snapshot.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index ee63b2c..cd96518 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -245,6 +245,9 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 }
 
 func addNewSnapshot(testID, snapshot, snapPath string) error {
+	_m.Lock()
+	defer _m.Unlock()
+
 	if err := os.MkdirAll(filepath.Dir(snapPath), os.ModePerm); err != nil {
 		return err
 	}
-- 
2.43.0


From bda3c25a80ddf51f0277de6b07e8086cc2be23fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 04/17] fix: report texts that differ only in bytes the inline
 diff conflates

The inline diff works on runes, so two single line texts that differ only in
invalid UTF-8 produced an empty report and the assertion passed.
---
 snaps/diff.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/snaps/diff.go b/snaps/diff.go
index 19304e1..bba478f 100644
--- a/snaps/diff.go
+++ b/snaps/diff.go
@@ -77,12 +77,13 @@ func getUnifiedDiff(a, b string) (string, int, int) {
 				received := strings.Join(aLines[i1:i2], "")
 
 				if shouldPrintHighlights(expected, received) {
-					diff, i, d := singlelineDiff(received, expected)
-					s.WriteString(diff)
-					inserted += i
-					deleted += d
+					if diff, i, d := singlelineDiff(received, expected); diff != "" {
+						s.WriteString(diff)
+						inserted += i
+						deleted += d
 
-					continue
+						continue
+					}
 				}
 
 				fallback = true
@@ -248,5 +249,10 @@ func prettyDiff(expected, received, name string, line int) string {
 	}
 
 	diff, i, d := differ(expected, received)
+	if diff == "" {
+		// the texts differ only in bytes the inline diff can't tell apart (e.g. invalid UTF-8)
+		diff, i, d = getUnifiedDiff(expected, received)
+	}
+
 	return buildDiffReport(i, d, diff, name, line)
 }
-- 
2.43.0


From b273b2c7e53970b13a101f1bc738ca61bb152814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 05/17] fix: keep a literal escaped terminator apart from an
 escaped ---

A line holding the text of the escape itself was stored unescaped, so it was
indistinguishable from a stored --- line and changing one into the other
passed silently. Such lines now get an extra slash when stored.
---
 snaps/snapshot.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index cd96518..e297bdd 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -387,11 +387,15 @@ func constructFilename(c *Config, callerFilename, tName string, isStandalone boo
 	return filename
 }
 
+const escapedEndSequence = "/-/-/-/"
+
 func unescapeEndChars(s string) string {
 	ss := strings.Split(s, "\n")
 	for idx, s := range ss {
-		if s == "/-/-/-/" {
+		if s == escapedEndSequence {
 			ss[idx] = endSequence
+		} else if isEscapedEndSequence(s) {
+			ss[idx] = s[1:]
 		}
 	}
 	return strings.Join(ss, "\n")
@@ -401,8 +405,17 @@ func escapeEndChars(s string) string {
 	ss := strings.Split(s, "\n")
 	for idx, s := range ss {
 		if s == endSequence {
-			ss[idx] = "/-/-/-/"
+			ss[idx] = escapedEndSequence
+		} else if isEscapedEndSequence(s) {
+			ss[idx] = "/" + s
 		}
 	}
 	return strings.Join(ss, "\n")
 }
+
+// isEscapedEndSequence checks if a line is the escaped terminator preceded by any number of slashes.
+// Those lines get an extra slash when escaped so they are not mistaken for a terminator.
+func isEscapedEndSequence(s string) bool {
+	return strings.HasSuffix(s, escapedEndSequence) &&
+		strings.Trim(s[:len(s)-len(escapedEndSequence)], "/") == ""
+}
-- 
2.43.0


From fc3fd379f66fbe77d328216d034deae5bb09e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 06/17] fix: a line inside an entry is never taken for another
 entry's id

getPrevSnapshot and updateSnapshot matched the id against every line of the
file, so a value containing a header-looking line made another slot replay
(and update) the wrong text.
---
 snaps/snapshot.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index e297bdd..b400d68 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -215,12 +215,14 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 	}
 
 	lineNumber := 1
+	inEntry := false
 	tid := []byte(testID)
 
 	s := snapshotScanner(bytes.NewReader(f))
 	for s.Scan() {
 		l := s.Bytes()
-		if !bytes.Equal(l, tid) {
+		if inEntry || !bytes.Equal(l, tid) {
+			inEntry = staysInEntry(inEntry, l)
 			lineNumber++
 			continue
 		}
@@ -280,12 +282,14 @@ func updateSnapshot(testID, snapshot, snapPath string) error {
 		updatedSnapFile.Grow(int(i.Size()))
 	}
 
+	inEntry := false
 	s := snapshotScanner(f)
 	for s.Scan() {
 		b := s.Bytes()
 		updatedSnapFile.Write(b)
 		updatedSnapFile.WriteByte('\n')
-		if !bytes.Equal(b, tid) {
+		if inEntry || !bytes.Equal(b, tid) {
+			inEntry = staysInEntry(inEntry, b)
 			continue
 		}
 
@@ -312,6 +316,12 @@ func overwriteFile(f *os.File, b []byte) error {
 	return err
 }
 
+// staysInEntry reports whether the line following l belongs to the same entry as l. Lines of an
+// entry are its content, even the ones that look like the id of another entry.
+func staysInEntry(inEntry bool, l []byte) bool {
+	return (inEntry || len(l) > 0) && !bytes.Equal(l, endSequenceByteSlice)
+}
+
 func removeSnapshot(s *bufio.Scanner) {
 	for s.Scan() {
 		// skip until ---
-- 
2.43.0


From facf4080453a608d3b6f224a66703ac7dcbae1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:45 +0000
Subject: [PATCH 07/17] fix: sorting must not remove obsolete entries outside
 of clean mode

---
 snaps/clean.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 73761d1..2f24c1d 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -251,8 +251,10 @@ func examineSnaps(
 				obsoleteTests = append(obsoleteTests, testID)
 				hasDiffs = true
 
-				removeSnapshot(s)
-				continue
+				if update {
+					removeSnapshot(s)
+					continue
+				}
 			}
 
 			for s.Scan() {
-- 
2.43.0


From 8f691aadd651d83ddf70ccb7430caef9ac5d09be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 08/17] fix: Clean must keep entries whose test name does not
 start with Test

Entries of fuzz targets and of other testing.TB like types were not recognised
and got dropped whenever Clean rewrote the file.
---
 snaps/clean.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 2f24c1d..e7132d4 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -117,19 +117,19 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	}
 }
 
-// getTestID will return the testID if the line is in the form of [Test... - number]
+// getTestID will return the testID if the line is in the form of [... - number]
 func getTestID(b []byte) (string, bool) {
 	if len(b) == 0 {
 		return "", false
 	}
 
-	// needs to start with [Test and end with ]
-	if !bytes.HasPrefix(b, []byte("[Test")) || b[len(b)-1] != ']' {
+	// needs to start with [ and end with ]
+	if b[0] != '[' || b[len(b)-1] != ']' {
 		return "", false
 	}
 
 	// needs to contain ' - '
-	separator := bytes.Index(b, []byte(" - "))
+	separator := bytes.LastIndex(b, []byte(" - "))
 	if separator == -1 {
 		return "", false
 	}
-- 
2.43.0


From 0f4c769966ce186708babda621e8441ae7ea5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 09/17] fix: Clean must not change what an id stored twice
 replays

The bodies were kept in a map by id, so rewriting a file with a duplicate id
(e.g. after a merge) replaced the first body, the one that is replayed.
---
 snaps/clean.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index e7132d4..7773692 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -214,6 +214,11 @@ func examineFiles(
 	return obsolete, used
 }
 
+type snapshotEntry struct {
+	id   string
+	body string
+}
+
 func examineSnaps(
 	registry map[string]map[string]int,
 	used []string,
@@ -223,7 +228,7 @@ func examineSnaps(
 	sort bool,
 ) ([]string, error) {
 	obsoleteTests := []string{}
-	tests := map[string]string{}
+	tests := []snapshotEntry{}
 	data := bytes.Buffer{}
 	testIDs := []string{}
 
@@ -261,7 +266,7 @@ func examineSnaps(
 				line := s.Bytes()
 
 				if bytes.Equal(line, endSequenceByteSlice) {
-					tests[testID] = data.String()
+					tests = append(tests, snapshotEntry{id: testID, body: data.String()})
 
 					data.Reset()
 					break
@@ -283,7 +288,7 @@ func examineSnaps(
 		if !shouldUpdate && !shouldSort {
 			f.Close()
 
-			clear(tests)
+			tests = tests[:0]
 			testIDs = testIDs[:0]
 			data.Reset()
 
@@ -291,25 +296,21 @@ func examineSnaps(
 		}
 
 		if shouldSort {
-			// sort testIDs
-			slices.SortFunc(testIDs, naturalSort)
+			slices.SortStableFunc(tests, func(a, b snapshotEntry) int {
+				return naturalSort(a.id, b.id)
+			})
 		}
 
 		if err := overwriteFile(f, nil); err != nil {
 			return nil, err
 		}
 
-		for _, id := range testIDs {
-			test, ok := tests[id]
-			if !ok {
-				continue
-			}
-
-			fmt.Fprintf(f, "\n[%s]\n%s%s\n", id, test, endSequence)
+		for _, test := range tests {
+			fmt.Fprintf(f, "\n[%s]\n%s%s\n", test.id, test.body, endSequence)
 		}
 		f.Close()
 
-		clear(tests)
+		tests = tests[:0]
 		testIDs = testIDs[:0]
 		data.Reset()
 	}
-- 
2.43.0


From c5bd4d6043e9cd1721516ee07b7f6b4869f99cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 10/17] fix: Clean keeps every slot addressed by any execution
 of a test

Dividing the number of calls by -count loses slots when the executions of a
test don't all make the same number of calls, and -cpu lists run tests more
times than -count. Track the highest occurrence addressed instead.
---
 snaps/clean.go    | 12 +++++-------
 snaps/snapshot.go | 25 +++++++++++++++++++------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 7773692..e857f51 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
-	"strconv"
 	"strings"
 	"sync"
 	"testing"
@@ -80,24 +79,23 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	// This is just for making sure Clean is called from TestMain
 	_ = m
 	runOnly := flag.Lookup("test.run").Value.String()
-	count, _ := strconv.Atoi(flag.Lookup("test.count").Value.String())
 	registeredStandaloneTests := occurrences(
-		standaloneTestsRegistry.cleanup,
-		count,
+		standaloneTestsRegistry.addressed,
+		1,
 		standaloneOccurrenceFMT,
 	)
 
 	obsoleteFiles, usedFiles := examineFiles(
-		testsRegistry.cleanup,
+		testsRegistry.addressed,
 		registeredStandaloneTests,
 		runOnly,
 		shouldClean && !isCI,
 	)
 	obsoleteTests, err := examineSnaps(
-		testsRegistry.cleanup,
+		testsRegistry.addressed,
 		usedFiles,
 		runOnly,
-		count,
+		1,
 		shouldClean && !isCI,
 		opt.Sort && !isCI,
 	)
diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index b400d68..8d4e198 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -134,6 +134,8 @@ func handleError(t testingT, err any) {
 type syncRegistry struct {
 	running map[string]map[string]int
 	cleanup map[string]map[string]int
+	// highest occurrence addressed in any execution of the test
+	addressed map[string]map[string]int
 	sync.Mutex
 }
 
@@ -145,11 +147,15 @@ func (s *syncRegistry) getTestID(snapPath, testName string) string {
 	if _, exists := s.running[snapPath]; !exists {
 		s.running[snapPath] = make(map[string]int)
 		s.cleanup[snapPath] = make(map[string]int)
+		s.addressed[snapPath] = make(map[string]int)
 	}
 
 	s.running[snapPath][testName]++
 	s.cleanup[snapPath][testName]++
 	c := s.running[snapPath][testName]
+	if c > s.addressed[snapPath][testName] {
+		s.addressed[snapPath][testName] = c
+	}
 	s.Unlock()
 
 	return fmt.Sprintf("[%s - %d]", testName, c)
@@ -164,23 +170,27 @@ func (s *syncRegistry) reset(snapPath, testName string) {
 
 func newRegistry() *syncRegistry {
 	return &syncRegistry{
-		running: make(map[string]map[string]int),
-		cleanup: make(map[string]map[string]int),
-		Mutex:   sync.Mutex{},
+		running:   make(map[string]map[string]int),
+		cleanup:   make(map[string]map[string]int),
+		addressed: make(map[string]map[string]int),
+		Mutex:     sync.Mutex{},
 	}
 }
 
 type syncStandaloneRegistry struct {
 	running map[string]int
 	cleanup map[string]int
+	// highest occurrence addressed in any execution of the test
+	addressed map[string]int
 	sync.Mutex
 }
 
 func newStandaloneRegistry() *syncStandaloneRegistry {
 	return &syncStandaloneRegistry{
-		running: make(map[string]int),
-		cleanup: make(map[string]int),
-		Mutex:   sync.Mutex{},
+		running:   make(map[string]int),
+		cleanup:   make(map[string]int),
+		addressed: make(map[string]int),
+		Mutex:     sync.Mutex{},
 	}
 }
 
@@ -190,6 +200,9 @@ func (s *syncStandaloneRegistry) getTestID(snapPath, snapPathRel string) (string
 	s.running[snapPath]++
 	s.cleanup[snapPath]++
 	c := s.running[snapPath]
+	if c > s.addressed[snapPath] {
+		s.addressed[snapPath] = c
+	}
 	s.Unlock()
 
 	return fmt.Sprintf(snapPath, c), fmt.Sprintf(snapPathRel, c)
-- 
2.43.0


From 1b04f3ec28f03e49a71cfed61ad3a424e75ac0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 11/17] fix: snapshot location under -trimpath must not follow
 the working directory

With -trimpath snapshots were located relative to the current directory, so a
test that changes directory read and wrote its snapshots elsewhere.
---
 snaps/snapshot.go | 15 +++++++++------
 snaps/utils.go    |  2 ++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 8d4e198..800c369 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -377,16 +377,19 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 	//  skips current func, the wrapper match* and the exported Match* func
 	callerFilename := baseCaller(3)
 
+	callerDir := filepath.Dir(callerFilename)
+	if isTrimBathBuild {
+		// the path of the caller is not a filesystem path, but tests start in its directory
+		callerDir = startDir
+	}
+
 	dir := c.snapsDir
-	if !filepath.IsAbs(dir) && !isTrimBathBuild {
-		dir = filepath.Join(filepath.Dir(callerFilename), c.snapsDir)
+	if !filepath.IsAbs(dir) {
+		dir = filepath.Join(callerDir, c.snapsDir)
 	}
 
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
-	snapPathRel := snapPath
-	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(filepath.Dir(callerFilename), snapPath)
-	}
+	snapPathRel, _ := filepath.Rel(callerDir, snapPath)
 
 	return snapPath, snapPathRel
 }
diff --git a/snaps/utils.go b/snaps/utils.go
index 7c441ca..11c600d 100644
--- a/snaps/utils.go
+++ b/snaps/utils.go
@@ -25,6 +25,8 @@ var (
 		snapsDir: "__snapshots__",
 	}
 	isTrimBathBuild = trimPathBuild()
+	// the directory where tests started running, tests can later change their working directory
+	startDir, _ = os.Getwd()
 )
 
 const (
-- 
2.43.0


From c08a2605b6dec19f409d04f72bc169275a9b8038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 12/17] fix: a percent sign in a standalone snapshot's path is
 not a format verb

The path of a standalone snapshot is a format for the occurrence; a % in the
test name or in the Dir, Filename and Ext options corrupted it.
---
 snaps/snapshot.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 800c369..4791738 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -388,6 +388,10 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 		dir = filepath.Join(callerDir, c.snapsDir)
 	}
 
+	if isStandalone {
+		callerDir, dir = escapeFormat(callerDir), escapeFormat(dir)
+	}
+
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
 	snapPathRel, _ := filepath.Rel(callerDir, snapPath)
 
@@ -405,12 +409,17 @@ func constructFilename(c *Config, callerFilename, tName string, isStandalone boo
 		}
 	}
 
+	extension := c.extension
 	if isStandalone {
-		filename += "_%d"
+		filename, extension = escapeFormat(filename)+"_%d", escapeFormat(extension)
 	}
-	filename += snapsExt + c.extension
 
-	return filename
+	return filename + snapsExt + extension
+}
+
+// escapeFormat escapes the parts of a standalone path, so that only the occurrence is substituted.
+func escapeFormat(s string) string {
+	return strings.ReplaceAll(s, "%", "%%")
 }
 
 const escapedEndSequence = "/-/-/-/"
-- 
2.43.0


From 38cd883486d239d47a11890f0bfda7ceb4aae0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 13/17] fix: match -run against test names the way go test does

The whole pattern was matched against the whole snapshot id, ordinal included,
so entries of tests that were not selected could be taken for obsolete.
---
 snaps/skip.go | 70 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 67 insertions(+), 3 deletions(-)

diff --git a/snaps/skip.go b/snaps/skip.go
index 7016257..238d9af 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -68,7 +68,10 @@ Then every "child" test should be skipped
 */
 func testSkipped(testID, runOnly string) bool {
 	// testID form: Test.*/runName - 1
-	testName := strings.Split(testID, " - ")[0]
+	testName := testID
+	if i := strings.LastIndex(testID, " - "); i != -1 {
+		testName = testID[:i]
+	}
 
 	for _, name := range skippedTests.values {
 		if testName == name || strings.HasPrefix(testName, name+"/") {
@@ -76,8 +79,69 @@ func testSkipped(testID, runOnly string) bool {
 		}
 	}
 
-	matched, _ := regexp.MatchString(runOnly, testID)
-	return !matched
+	return !isSelected(testName, runOnly)
+}
+
+// isSelected checks if the -run pattern selects a test the way go test does. The pattern is a list
+// of alternatives separated by '|' and each one is split by '/' and matched against the test's name
+// level by level.
+func isSelected(testName, runOnly string) bool {
+	levels := strings.Split(testName, "/")
+
+	for _, alternative := range splitPattern(strings.ReplaceAll(runOnly, " ", "_"), '|') {
+		if matchesLevels(levels, splitPattern(alternative, '/')) {
+			return true
+		}
+	}
+
+	return false
+}
+
+func matchesLevels(levels, patterns []string) bool {
+	for i, level := range levels {
+		if i >= len(patterns) {
+			break
+		}
+
+		if matched, _ := regexp.MatchString(patterns[i], level); !matched {
+			return false
+		}
+	}
+
+	return true
+}
+
+// splitPattern splits a -run pattern on the separators that are not inside brackets or escaped.
+func splitPattern(pattern string, separator byte) []string {
+	parts := []string{}
+	start, brackets, parens := 0, 0, 0
+
+	for i := 0; i < len(pattern); i++ {
+		switch pattern[i] {
+		case '[':
+			brackets++
+		case ']':
+			// an unmatched ']' is legal
+			brackets = max(brackets-1, 0)
+		case '(':
+			if brackets == 0 {
+				parens++
+			}
+		case ')':
+			if brackets == 0 {
+				parens--
+			}
+		case '\\':
+			i++
+		case separator:
+			if brackets == 0 && parens == 0 {
+				parts = append(parts, pattern[start:i])
+				start = i + 1
+			}
+		}
+	}
+
+	return append(parts, pattern[start:])
 }
 
 func isFileSkipped(dir, filename, runOnly string) bool {
-- 
2.43.0


From c0c7601d62ac8536533cfd4c7678631d9f078f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 14/17] fix: keep snapshot files of tests that were skipped or
 not selected

Files whose tests were all skipped, standalone files and files with a custom
name or directory were reported as obsolete (and removed) by Clean.
---
 snaps/skip.go | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/snaps/skip.go b/snaps/skip.go
index 238d9af..2a9345f 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -1,9 +1,11 @@
 package snaps
 
 import (
+	"bytes"
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"os"
 	"path"
 	"regexp"
 	"strings"
@@ -145,6 +147,10 @@ func splitPattern(pattern string, separator byte) []string {
 }
 
 func isFileSkipped(dir, filename, runOnly string) bool {
+	if hasSkippedSnapshots(dir, filename, runOnly) {
+		return true
+	}
+
 	// When a file is skipped through CLI with -run flag we can track it
 	if runOnly == "" {
 		return false
@@ -155,7 +161,8 @@ func isFileSkipped(dir, filename, runOnly string) bool {
 	fset := token.NewFileSet()
 	file, err := parser.ParseFile(fset, testFilePath, nil, parser.ParseComments)
 	if err != nil {
-		return false
+		// we can't tell which tests the file belongs to, they might not have been selected
+		return true
 	}
 
 	for _, decls := range file.Decls {
@@ -173,3 +180,42 @@ func isFileSkipped(dir, filename, runOnly string) bool {
 
 	return true
 }
+
+// hasSkippedSnapshots checks if any of the snapshots in the file belongs to a test that was skipped
+// or not selected by -run
+func hasSkippedSnapshots(dir, filename, runOnly string) bool {
+	for _, name := range skippedTests.values {
+		if isStandaloneOf(name, filename) {
+			return true
+		}
+	}
+
+	f, err := os.ReadFile(path.Join(dir, filename))
+	if err != nil {
+		return false
+	}
+
+	s := snapshotScanner(bytes.NewReader(f))
+	for s.Scan() {
+		testID, match := getTestID(s.Bytes())
+		if !match {
+			continue
+		}
+		if testSkipped(testID, runOnly) {
+			return true
+		}
+		removeSnapshot(s)
+	}
+
+	return false
+}
+
+// isStandaloneOf checks if the file is named after the test or one of its "child" tests
+func isStandaloneOf(testName, filename string) bool {
+	prefix := strings.ReplaceAll(testName, "/", "_") + "_"
+	matched, _ := regexp.MatchString(
+		"^"+regexp.QuoteMeta(prefix)+"(.*_)?[0-9]+"+regexp.QuoteMeta(snapsExt),
+		filename,
+	)
+	return matched
+}
-- 
2.43.0


From de78d5a6ae717206a7d80441f7089c074a3ed22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 15/17] fix: the Type placeholder depends on the expected type,
 not on the value's type

---
 match/type.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/match/type.go b/match/type.go
index 5f532e7..6d14e1c 100644
--- a/match/type.go
+++ b/match/type.go
@@ -3,6 +3,7 @@ package match
 import (
 	"bytes"
 	"fmt"
+	"reflect"
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
@@ -87,7 +88,7 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		if err := yaml.Update(f, path, typePlaceholder(value)); err != nil {
+		if err := yaml.Update(f, path, typePlaceholder[ExpectedType]()); err != nil {
 			errs = append(errs, t.matcherError(err, p))
 
 			continue
@@ -121,7 +122,7 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 		j, err := sjson.SetBytesOptions(
 			json,
 			path,
-			typePlaceholder(r.Value()),
+			typePlaceholder[ExpectedType](),
 			setJSONOptions,
 		)
 		if err != nil {
@@ -144,6 +145,7 @@ func typeCheck[ExpectedType any](value interface{}) error {
 	return nil
 }
 
-func typePlaceholder(value interface{}) string {
-	return fmt.Sprintf("<Type:%T>", value)
+// typePlaceholder depends on the expected type alone, values of different types can satisfy an interface
+func typePlaceholder[ExpectedType any]() string {
+	return fmt.Sprintf("<Type:%s>", reflect.TypeOf((*ExpectedType)(nil)).Elem())
 }
-- 
2.43.0


From 7706ae539cc099d351293072005aced1e1d897c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 16/17] fix: treat YAML paths through scalars or beyond the end
 of a sequence as missing

---
 match/internal/yaml/yaml.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 6b22881..d042203 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -32,16 +32,27 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 		return nil, nil, false, err
 	}
 
-	node, err := path.FilterFile(f)
-	if err != nil {
-		if errors.Is(err, yaml.ErrNotFoundNode) {
-			return path, nil, false, nil
+	for _, doc := range f.Docs {
+		node, err := path.FilterNode(doc.Body)
+		if err != nil && !leadsNowhere(err, doc.Body) {
+			return path, nil, false, err
+		}
+		if err == nil && node != nil {
+			return path, node, true, nil
 		}
+	}
+
+	return path, nil, false, nil
+}
 
-		return path, nil, false, err
+// leadsNowhere returns true when the error says that there is nothing at the path, e.g. it goes
+// through a scalar or beyond the end of a sequence. It can't be told when nodes refer to each other.
+func leadsNowhere(err error, node ast.Node) bool {
+	if errors.Is(err, yaml.ErrInvalidQuery) {
+		return len(ast.Filter(ast.AnchorType, node)) == 0 && len(ast.Filter(ast.TagType, node)) == 0
 	}
 
-	return path, node, true, nil
+	return errors.Is(err, yaml.ErrNotFoundNode)
 }
 
 // Update marshals the value and replaces the file at the path provided with the new value.
-- 
2.43.0


From bb22fdbf789d90eb01ccd8eb1157ec66d1a04e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 17/17] fix: keep the YAML document as given when its matchers
 mask nothing

---
 match/any.go  | 7 +++++++
 match/type.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/match/any.go b/match/any.go
index 8947ed6..3f5a12f 100644
--- a/match/any.go
+++ b/match/any.go
@@ -58,6 +58,7 @@ func (a *anyMatcher) ErrOnMissingPath(e bool) *anyMatcher {
 // YAML is intended to be called internally on snaps.MatchYAML for applying Any matchers
 func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
+	masked := false
 
 	f, err := parser.ParseBytes(b, parser.ParseComments)
 	if err != nil {
@@ -84,6 +85,12 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 
 			continue
 		}
+
+		masked = true
+	}
+
+	if !masked {
+		return b, errs
 	}
 
 	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), errs
diff --git a/match/type.go b/match/type.go
index 6d14e1c..89832dd 100644
--- a/match/type.go
+++ b/match/type.go
@@ -54,6 +54,7 @@ func (t *typeMatcher[T]) ErrOnMissingPath(e bool) *typeMatcher[T] {
 // YAML is intended to be called internally on snaps.MatchJSON for applying Type matchers
 func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
+	masked := false
 
 	f, err := parser.ParseBytes(b, parser.ParseComments)
 	if err != nil {
@@ -93,6 +94,12 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 
 			continue
 		}
+
+		masked = true
+	}
+
+	if !masked {
+		return b, errs
 	}
 
 	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), errs
-- 
2.43.0

