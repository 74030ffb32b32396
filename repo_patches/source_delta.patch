From e466d529f5b757696e5c8f05a451f8cd5c6412c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 01/12] fix: check and lint report a file that cannot be
 examined instead of crashing

A failing os.Stat left stat nil, which was dereferenced right after the
error had been recorded.
---
 internal/app/check/check.go | 1 +
 internal/app/lint/lint.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 507c040..8225fbd 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -24,6 +24,7 @@ func (f Check) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 37f83f8..744fa5c 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -31,6 +31,7 @@ func (l Lint) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
-- 
2.43.0


From b56066039176df236ac85d484c861170e92ceeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 02/12] fix: format reports that its output could not be
 written

The error of writing to standard output was dropped, so that the command
ended with status 0 although the output was incomplete (full disk, closed
descriptor).
---
 internal/app/format/format.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 33ef8f0..f6716e3 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -66,7 +66,10 @@ func (f Format) Run(args []string) error {
 			continue
 		}
 
-		fmt.Fprint(f.out, c)
+		_, err = fmt.Fprint(f.out, c)
+		if err != nil {
+			return errors.Wrapf(err, "%s: failed to write formatted configuration", filename)
+		}
 	}
 
 	return nil
-- 
2.43.0


From cbcaee13962a6c00693b09ddf53758750fe04ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 03/12] fix: rewriting a file never destroys it

format -w and lint --auto-fix-id truncated the file and then wrote the new
content, ignoring the error of the final close. A crash, a full disk or any
other error in between left a truncated or empty configuration, the close
error (e.g. of a network file system) was lost, and whoever read the file at
the wrong moment got an incomplete configuration.

The new content is now written to a temporary file next to the target, which
then takes the place of the target.
---
 internal/app/format/format.go      |   8 +-
 internal/app/lint/lint.go          |   9 +-
 internal/atomicfile/atomicfile.go  | 129 +++++++++++++++++++++++++++++
 internal/atomicfile/owner_other.go |  10 +++
 internal/atomicfile/owner_unix.go  |  26 ++++++
 5 files changed, 180 insertions(+), 2 deletions(-)
 create mode 100644 internal/atomicfile/atomicfile.go
 create mode 100644 internal/atomicfile/owner_other.go
 create mode 100644 internal/atomicfile/owner_unix.go

diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index f6716e3..c3df6b8 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -10,6 +10,7 @@ import (
 
 	config "github.com/breml/logstash-config"
 	"github.com/breml/logstash-config/ast"
+	"github.com/breml/logstash-config/internal/atomicfile"
 )
 
 type Format struct {
@@ -46,7 +47,7 @@ func (f Format) Run(args []string) error {
 
 		if f.writeToSource {
 			err := func() error {
-				f, err := os.Create(filename)
+				f, err := atomicfile.Create(filename)
 				if err != nil {
 					return errors.Wrap(err, "failed to open file for writting with automatically fixed ID")
 				}
@@ -58,6 +59,11 @@ func (f Format) Run(args []string) error {
 					return errors.Wrap(err, "failed to write file with automatically fixed ID")
 				}
 
+				err = f.Commit()
+				if err != nil {
+					return errors.Wrap(err, "failed to write file with automatically fixed ID")
+				}
+
 				return nil
 			}()
 			if err != nil {
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 744fa5c..646a835 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -11,6 +11,7 @@ import (
 	config "github.com/breml/logstash-config"
 	"github.com/breml/logstash-config/ast"
 	"github.com/breml/logstash-config/ast/astutil"
+	"github.com/breml/logstash-config/internal/atomicfile"
 	"github.com/breml/logstash-config/internal/format"
 )
 
@@ -86,7 +87,7 @@ func (l Lint) Run(args []string) error {
 
 		if l.autoFixID && v.changed {
 			func() {
-				f, err := os.Create(filename)
+				f, err := atomicfile.Create(filename)
 				if err != nil {
 					result = multierror.Append(result, errors.Wrap(err, "failed to open file for writting with automatically fixed ID"))
 					return
@@ -98,6 +99,12 @@ func (l Lint) Run(args []string) error {
 					result = multierror.Append(result, errors.Wrap(err, "failed to write file with automatically fixed ID"))
 					return
 				}
+
+				err = f.Commit()
+				if err != nil {
+					result = multierror.Append(result, errors.Wrap(err, "failed to write file with automatically fixed ID"))
+					return
+				}
 			}()
 		}
 	}
diff --git a/internal/atomicfile/atomicfile.go b/internal/atomicfile/atomicfile.go
new file mode 100644
index 0000000..c642edf
--- /dev/null
+++ b/internal/atomicfile/atomicfile.go
@@ -0,0 +1,129 @@
+// Package atomicfile replaces the content of an existing file in one step: at
+// any time the file holds either its complete old or its complete new content,
+// whatever goes wrong on the way.
+package atomicfile
+
+import (
+	"os"
+	"path/filepath"
+
+	"github.com/pkg/errors"
+)
+
+// A File collects the new content of a file. The content takes effect with
+// Commit; without it, the file stays as it was.
+type File struct {
+	filename string   // name given by the caller, for error messages
+	target   string   // the file itself, symbolic links resolved
+	tmp      *os.File // new content, in the same directory as target
+	closed   bool
+	done     bool // the temporary file is gone
+}
+
+// Create prepares the replacement of the content of filename. The permission
+// to write to the file is required, symbolic links are followed and the mode
+// and the owner of the file are retained.
+func Create(filename string) (*File, error) {
+	f := &File{filename: filename}
+
+	var err error
+	f.target, err = filepath.EvalSymlinks(filename)
+	if err != nil {
+		return nil, f.wrap("open", err)
+	}
+
+	info, err := writable(f.target)
+	if err != nil {
+		return nil, f.wrap("open", err)
+	}
+
+	f.tmp, err = os.CreateTemp(filepath.Dir(f.target), ".mustache-*")
+	if err != nil {
+		return nil, f.wrap("create temporary file for", err)
+	}
+
+	err = copyOwner(f.tmp, info)
+	if err == nil {
+		err = f.tmp.Chmod(info.Mode())
+	}
+	if err != nil {
+		_ = f.Close()
+		return nil, f.wrap("retain mode and owner of", err)
+	}
+
+	return f, nil
+}
+
+// WriteString appends s to the new content of the file.
+func (f *File) WriteString(s string) (int, error) {
+	n, err := f.tmp.WriteString(s)
+	return n, f.wrap("write", err)
+}
+
+// Commit replaces the content of the file with what has been written.
+func (f *File) Commit() error {
+	err := f.tmp.Sync()
+	if err != nil {
+		return f.wrap("sync", err)
+	}
+
+	f.closed = true
+	err = f.tmp.Close()
+	if err != nil {
+		return f.wrap("close", err)
+	}
+
+	err = os.Rename(f.tmp.Name(), f.target)
+	if err != nil {
+		return f.wrap("replace", err)
+	}
+	f.done = true
+
+	return nil
+}
+
+// Close releases all resources. New content, that has not been committed, is
+// discarded.
+func (f *File) Close() error {
+	var err error
+	if !f.closed {
+		f.closed = true
+		err = f.tmp.Close()
+	}
+	if !f.done {
+		f.done = true
+		if rmErr := os.Remove(f.tmp.Name()); err == nil {
+			err = rmErr
+		}
+	}
+	return f.wrap("close", err)
+}
+
+// wrap makes err refer to the file instead of the temporary file.
+func (f *File) wrap(op string, err error) error {
+	if err == nil {
+		return nil
+	}
+	var (
+		pathErr *os.PathError
+		linkErr *os.LinkError
+	)
+	switch {
+	case errors.As(err, &pathErr):
+		err = pathErr.Err
+	case errors.As(err, &linkErr):
+		err = linkErr.Err
+	}
+	return &os.PathError{Op: op, Path: f.filename, Err: err}
+}
+
+// writable returns the file info of filename, if the file may be written to.
+func writable(filename string) (os.FileInfo, error) {
+	f, err := os.OpenFile(filename, os.O_WRONLY, 0)
+	if err != nil {
+		return nil, err
+	}
+	defer f.Close()
+
+	return f.Stat()
+}
diff --git a/internal/atomicfile/owner_other.go b/internal/atomicfile/owner_other.go
new file mode 100644
index 0000000..b744f21
--- /dev/null
+++ b/internal/atomicfile/owner_other.go
@@ -0,0 +1,10 @@
+//go:build !unix
+
+package atomicfile
+
+import "os"
+
+// copyOwner does nothing, new files belong to whoever owns the directory.
+func copyOwner(*os.File, os.FileInfo) error {
+	return nil
+}
diff --git a/internal/atomicfile/owner_unix.go b/internal/atomicfile/owner_unix.go
new file mode 100644
index 0000000..0943de8
--- /dev/null
+++ b/internal/atomicfile/owner_unix.go
@@ -0,0 +1,26 @@
+//go:build unix
+
+package atomicfile
+
+import (
+	"os"
+	"syscall"
+)
+
+// copyOwner gives f the owner and the group described by info.
+func copyOwner(f *os.File, info os.FileInfo) error {
+	want, ok := info.Sys().(*syscall.Stat_t)
+	if !ok {
+		return nil
+	}
+
+	tmpInfo, err := f.Stat()
+	if err != nil {
+		return err
+	}
+	if have, ok := tmpInfo.Sys().(*syscall.Stat_t); ok && have.Uid == want.Uid && have.Gid == want.Gid {
+		return nil
+	}
+
+	return f.Chown(int(want.Uid), int(want.Gid))
+}
-- 
2.43.0


From 5106e3bd6f7b1841bad5c20ca87770f6752c328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 04/12] fix: do not blame an unreadable file for the parse
 errors of another one

When a file could not be opened or read, check, lint and format appended the
farthest failure, which still described the file parsed before.
---
 internal/app/check/check.go   | 3 ++-
 internal/app/format/format.go | 3 ++-
 internal/app/lint/lint.go     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 8225fbd..1afea6b 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -32,7 +32,8 @@ func (f Check) Run(args []string) error {
 
 		_, err = config.ParseFile(filename, config.IgnoreComments(true))
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			var ioErr *os.PathError
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !errors.As(err, &ioErr) {
 				if !strings.Contains(err.Error(), errMsg) {
 					err = errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index c3df6b8..cb401b3 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -37,7 +37,8 @@ func (f Format) Run(args []string) error {
 
 		c, err := config.ParseFile(filename)
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			var ioErr *os.PathError
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !errors.As(err, &ioErr) {
 				if !strings.Contains(err.Error(), errMsg) {
 					return errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 646a835..937eee2 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -40,7 +40,8 @@ func (l Lint) Run(args []string) error {
 
 		c, err := config.ParseFile(filename, config.ExceptionalCommentsWarning(true))
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			var ioErr *os.PathError
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !errors.As(err, &ioErr) {
 				if !strings.Contains(err.Error(), errMsg) {
 					err = errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
-- 
2.43.0


From 5ae54c94ed1f5bc921b26cbc75fa6f7f6f3f4258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 05/12] fix: keep the farthest failures of concurrent parses
 apart

All parses wrote to one package variable without synchronisation: parses
running at the same time mixed their failures, raced with each other and with
GetFarthestFailure, and could report positions of another text. The reported
text also changed, when the caller reused the input buffer after the parse.

Every parse now collects its own farthest failure and publishes it as a value,
that is not changed anymore.
---
 logstash_config_helper.go |  2 +-
 parse_error_helper.go     | 55 +++++++++++++++++++++++++++++----------
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index c60e9f1..dd8135c 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -28,7 +28,7 @@ func (c *current) initState() error {
 }
 
 func (c *current) initParser() (bool, error) {
-	farthestFailure = []errPos{}
+	c.setFarthestFailure(nil)
 	return true, nil
 }
 
diff --git a/parse_error_helper.go b/parse_error_helper.go
index ac32c01..3a31c6d 100644
--- a/parse_error_helper.go
+++ b/parse_error_helper.go
@@ -4,22 +4,38 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"sync"
 )
 
 type errPos struct {
-	msg string
-	c   current
-	pos int
+	msg  string
+	c    position
+	text string
+	pos  int
 }
 
-var farthestFailure []errPos
+// farthestFailureKey is the key for the farthest failure of a parse in its
+// global store.
+const farthestFailureKey = "__farthestFailure"
+
+var (
+	farthestFailureMu sync.Mutex
+
+	// farthestFailure holds the farthest failure of the most recent parse. The
+	// slice is replaced, its elements are never changed.
+	farthestFailure []errPos
+)
 
 // GetFarthestFailure returns the farthest position where the parser had a parse error.
 // The farthest position is normally close to the real source for the error.
 func GetFarthestFailure() (string, bool) {
+	farthestFailureMu.Lock()
+	farthestFailure := farthestFailure
+	farthestFailureMu.Unlock()
+
 	if len(farthestFailure) > 0 {
 		var bb bytes.Buffer
-		bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", farthestFailure[0].c.pos, farthestFailure[0].pos, showNewline(string(farthestFailure[0].c.text))))
+		bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", farthestFailure[0].c, farthestFailure[0].pos, showNewline(farthestFailure[0].text)))
 		for _, e := range farthestFailure {
 			bb.WriteString(fmt.Sprintf("-> %s\n", e.msg))
 		}
@@ -28,6 +44,20 @@ func GetFarthestFailure() (string, bool) {
 	return "", false
 }
 
+// setFarthestFailure records the farthest failure of the current parse and
+// makes it available for GetFarthestFailure.
+func (c *current) setFarthestFailure(failures []errPos) {
+	c.globalStore[farthestFailureKey] = failures
+
+	farthestFailureMu.Lock()
+	defer farthestFailureMu.Unlock()
+	farthestFailure = failures
+}
+
+func (c *current) errPos(errorMsg string) errPos {
+	return errPos{msg: errorMsg, c: c.pos, text: string(c.text), pos: pos(c)}
+}
+
 func showNewline(str string) string {
 	str = strings.ReplaceAll(str, "\n", "\\n")
 	return str
@@ -44,8 +74,9 @@ func pos(c *current) int {
 // The assumption is, that the longest successful parse tree is the most acurate.
 func (c *current) pushError(errorMsg string) (bool, error) {
 	pos := pos(c)
+	farthestFailure, _ := c.globalStore[farthestFailureKey].([]errPos)
 	if len(farthestFailure) == 0 || pos > farthestFailure[0].pos {
-		farthestFailure = []errPos{{msg: errorMsg, c: *c, pos: pos}}
+		c.setFarthestFailure([]errPos{c.errPos(errorMsg)})
 	} else {
 		if pos == farthestFailure[0].pos {
 			for _, failure := range farthestFailure {
@@ -53,7 +84,9 @@ func (c *current) pushError(errorMsg string) (bool, error) {
 					return false, nil
 				}
 			}
-			farthestFailure = append(farthestFailure, errPos{msg: errorMsg, c: *c, pos: pos})
+			// The failures recorded so far may be in use already, therefore append
+			// to a copy.
+			c.setFarthestFailure(append(farthestFailure[:len(farthestFailure):len(farthestFailure)], c.errPos(errorMsg)))
 		}
 	}
 	return false, nil
@@ -63,13 +96,7 @@ func (c *current) pushError(errorMsg string) (bool, error) {
 // In most cases this is a missing closing character of a pair, which was opened before.
 // Example: a missing closing square bracket or a missing closing double quote.
 func (c *current) fatalError(errorMsg string) (bool, error) {
-	farthestFailure = []errPos{
-		{
-			msg: errorMsg,
-			c:   *c,
-			pos: pos(c),
-		},
-	}
+	c.setFarthestFailure([]errPos{c.errPos(errorMsg)})
 	var bb bytes.Buffer
 	bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", c.pos, pos(c), showNewline(string(c.text))))
 	bb.WriteString(fmt.Sprintf("-> %s\n", errorMsg))
-- 
2.43.0


From aac4a52b8550079ed370bc763e4fc3ff85658547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 06/12] fix: write to devices and pipes instead of replacing
 them

---
 internal/atomicfile/atomicfile.go | 41 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/internal/atomicfile/atomicfile.go b/internal/atomicfile/atomicfile.go
index c642edf..be04802 100644
--- a/internal/atomicfile/atomicfile.go
+++ b/internal/atomicfile/atomicfile.go
@@ -16,8 +16,9 @@ type File struct {
 	filename string   // name given by the caller, for error messages
 	target   string   // the file itself, symbolic links resolved
 	tmp      *os.File // new content, in the same directory as target
+	direct   bool     // target is no regular file, tmp is target itself
 	closed   bool
-	done     bool // the temporary file is gone
+	done     bool // there is no temporary file left to be removed
 }
 
 // Create prepares the replacement of the content of filename. The permission
@@ -32,11 +33,20 @@ func Create(filename string) (*File, error) {
 		return nil, f.wrap("open", err)
 	}
 
-	info, err := writable(f.target)
+	file, info, err := openExisting(f.target)
 	if err != nil {
 		return nil, f.wrap("open", err)
 	}
 
+	if !info.Mode().IsRegular() {
+		// A device or a named pipe can not be replaced, it is written to.
+		f.tmp = file
+		f.direct = true
+		f.done = true
+		return f, nil
+	}
+	_ = file.Close()
+
 	f.tmp, err = os.CreateTemp(filepath.Dir(f.target), ".mustache-*")
 	if err != nil {
 		return nil, f.wrap("create temporary file for", err)
@@ -62,14 +72,16 @@ func (f *File) WriteString(s string) (int, error) {
 
 // Commit replaces the content of the file with what has been written.
 func (f *File) Commit() error {
-	err := f.tmp.Sync()
-	if err != nil {
-		return f.wrap("sync", err)
+	if !f.direct {
+		err := f.tmp.Sync()
+		if err != nil {
+			return f.wrap("sync", err)
+		}
 	}
 
 	f.closed = true
-	err = f.tmp.Close()
-	if err != nil {
+	err := f.tmp.Close()
+	if err != nil || f.direct {
 		return f.wrap("close", err)
 	}
 
@@ -117,13 +129,18 @@ func (f *File) wrap(op string, err error) error {
 	return &os.PathError{Op: op, Path: f.filename, Err: err}
 }
 
-// writable returns the file info of filename, if the file may be written to.
-func writable(filename string) (os.FileInfo, error) {
+// openExisting opens filename for writing without changing it.
+func openExisting(filename string) (*os.File, os.FileInfo, error) {
 	f, err := os.OpenFile(filename, os.O_WRONLY, 0)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
+	}
+
+	info, err := f.Stat()
+	if err != nil {
+		_ = f.Close()
+		return nil, nil, err
 	}
-	defer f.Close()
 
-	return f.Stat()
+	return f, info, nil
 }
-- 
2.43.0


From 84b312753d26f60044af13da6b14a4751bb189b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 07/12] fix: retain the setuid and setgid bits of rewritten
 files

---
 internal/atomicfile/atomicfile.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/internal/atomicfile/atomicfile.go b/internal/atomicfile/atomicfile.go
index be04802..9431436 100644
--- a/internal/atomicfile/atomicfile.go
+++ b/internal/atomicfile/atomicfile.go
@@ -13,10 +13,11 @@ import (
 // A File collects the new content of a file. The content takes effect with
 // Commit; without it, the file stays as it was.
 type File struct {
-	filename string   // name given by the caller, for error messages
-	target   string   // the file itself, symbolic links resolved
-	tmp      *os.File // new content, in the same directory as target
-	direct   bool     // target is no regular file, tmp is target itself
+	filename string      // name given by the caller, for error messages
+	target   string      // the file itself, symbolic links resolved
+	tmp      *os.File    // new content, in the same directory as target
+	mode     os.FileMode // of target
+	direct   bool        // target is no regular file, tmp is target itself
 	closed   bool
 	done     bool // there is no temporary file left to be removed
 }
@@ -52,13 +53,11 @@ func Create(filename string) (*File, error) {
 		return nil, f.wrap("create temporary file for", err)
 	}
 
+	f.mode = info.Mode()
 	err = copyOwner(f.tmp, info)
-	if err == nil {
-		err = f.tmp.Chmod(info.Mode())
-	}
 	if err != nil {
 		_ = f.Close()
-		return nil, f.wrap("retain mode and owner of", err)
+		return nil, f.wrap("retain owner of", err)
 	}
 
 	return f, nil
@@ -73,7 +72,13 @@ func (f *File) WriteString(s string) (int, error) {
 // Commit replaces the content of the file with what has been written.
 func (f *File) Commit() error {
 	if !f.direct {
-		err := f.tmp.Sync()
+		// Only now, writing to a file may clear some bits of its mode.
+		err := f.tmp.Chmod(f.mode)
+		if err != nil {
+			return f.wrap("retain mode of", err)
+		}
+
+		err = f.tmp.Sync()
 		if err != nil {
 			return f.wrap("sync", err)
 		}
-- 
2.43.0


From 0ada173eba94ea9a121336c9ccf524dea08aeac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 08/12] fix: generate plugin ids which are not taken already

---
 internal/app/lint/lint.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 937eee2..5ce2275 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -57,6 +57,7 @@ func (l Lint) Run(args []string) error {
 		v := validator{
 			autoFixID: l.autoFixID,
 			allIDs:    map[string]struct{}{},
+			takenIDs:  pluginIDs(conf),
 		}
 
 		for i := range conf.Input {
@@ -125,6 +126,41 @@ type validator struct {
 	changed      bool
 	duplicateIDs []string
 	allIDs       map[string]struct{}
+	takenIDs     map[string]struct{}
+}
+
+// pluginIDs returns all the plugin ids present in the configuration.
+func pluginIDs(conf ast.Config) map[string]struct{} {
+	ids := map[string]struct{}{}
+	collect := func(c *astutil.Cursor) {
+		if id, err := c.Plugin().ID(); err == nil {
+			ids[id] = struct{}{}
+		}
+	}
+
+	for i := range conf.Input {
+		astutil.ApplyPlugins(conf.Input[i].BranchOrPlugins, collect)
+	}
+	for i := range conf.Filter {
+		astutil.ApplyPlugins(conf.Filter[i].BranchOrPlugins, collect)
+	}
+	for i := range conf.Output {
+		astutil.ApplyPlugins(conf.Output[i].BranchOrPlugins, collect)
+	}
+
+	return ids
+}
+
+// newID returns an id for the current plugin, which is not taken by another
+// plugin.
+func (v *validator) newID(name string) string {
+	for n := v.count; ; n++ {
+		id := fmt.Sprintf("%s-%d", name, n)
+		if _, ok := v.takenIDs[id]; !ok {
+			v.takenIDs[id] = struct{}{}
+			return id
+		}
+	}
 }
 
 func (v *validator) walk(c *astutil.Cursor) {
@@ -136,7 +172,7 @@ func (v *validator) walk(c *astutil.Cursor) {
 			v.changed = true
 
 			plugin := c.Plugin()
-			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", fmt.Sprintf("%s-%d", c.Plugin().Name(), v.count), ast.DoubleQuoted))
+			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", v.newID(plugin.Name()), ast.DoubleQuoted))
 
 			c.Replace(plugin)
 		} else {
-- 
2.43.0


From e179a7a28c4b36f34d28aeb94c7111caee2541b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 09/12] fix: do not add a second id to plugins with an id which
 is no string

---
 internal/app/lint/lint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 5ce2275..fcbcaac 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -168,7 +168,7 @@ func (v *validator) walk(c *astutil.Cursor) {
 
 	id, err := c.Plugin().ID()
 	if err != nil {
-		if v.autoFixID {
+		if v.autoFixID && ast.IsNotFoundError(err) {
 			v.changed = true
 
 			plugin := c.Plugin()
-- 
2.43.0


From e7e1cb25642b1cbddd8b8aac339912f02d28772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 10/12] fix: generate valid ids for plugins with a quoted name

---
 internal/app/lint/lint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index fcbcaac..eca9a70 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -3,6 +3,7 @@ package lint
 import (
 	"fmt"
 	"os"
+	"regexp"
 	"strings"
 
 	"github.com/hashicorp/go-multierror"
@@ -151,9 +152,14 @@ func pluginIDs(conf ast.Config) map[string]struct{} {
 	return ids
 }
 
+// nonIDRe matches what is replaced in the (possibly quoted) name of a plugin
+// for the use in an id.
+var nonIDRe = regexp.MustCompile("[^A-Za-z0-9_-]+")
+
 // newID returns an id for the current plugin, which is not taken by another
 // plugin.
 func (v *validator) newID(name string) string {
+	name = nonIDRe.ReplaceAllString(strings.Trim(name, `"'`), "_")
 	for n := v.count; ; n++ {
 		id := fmt.Sprintf("%s-%d", name, n)
 		if _, ok := v.takenIDs[id]; !ok {
-- 
2.43.0


From 60580f2680a4bbb725b1ff1af1a9573c1aec1522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:32 +0000
Subject: [PATCH 11/12] fix: keep the text of lines with a quote in a regular
 expression or selector

---
 ast/ast_helper.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/ast_helper.go b/ast/ast_helper.go
index 20f165f..bf1f39e 100644
--- a/ast/ast_helper.go
+++ b/ast/ast_helper.go
@@ -10,9 +10,9 @@ import (
 // This regular expression splits the config into indentable chunks that are:
 // * empty line
 // * line of comment
-// * line without any quotes
-// * line(s) with quoted strings, which are kept together to form a single "line of configuration"
-var linesRe = regexp.MustCompile(`(\n|\s*#[^\n]*\n|[^'"\n]*\n|([^"'\n]*("(\\"|[^"])*"|'(\\'|[^'])*')[^"'\n]*)*\n)`)
+// * line(s) of anything else, where quoted strings, regular expressions and
+//   selectors are kept together to form a single "line of configuration"
+var linesRe = regexp.MustCompile(`(\n|\s*#[^\n]*\n|([^"'/\[\n]+|"(\\"|[^"])*"|'(\\'|[^'])*'|/(\\/|[^/])*/|\[[^\]\[,\n][^\]\[,]*\]|[^\n])*\n)`)
 
 func prefix(in string, emptyNewline bool) string {
 	if len(in) == 0 {
-- 
2.43.0


From 7a68ab13c9b123d3b079e01aae5fc627f9ebfbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:54 +0000
Subject: [PATCH 12/12] fix: do not lose the set-group-ID bit of a rewritten
 file

The kernel ignores the bit without an error if the user is not a member of the
group of the file. A file, whose mode can not be retained, is not rewritten.
---
 internal/atomicfile/atomicfile.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/atomicfile/atomicfile.go b/internal/atomicfile/atomicfile.go
index 9431436..ba9ee40 100644
--- a/internal/atomicfile/atomicfile.go
+++ b/internal/atomicfile/atomicfile.go
@@ -73,7 +73,7 @@ func (f *File) WriteString(s string) (int, error) {
 func (f *File) Commit() error {
 	if !f.direct {
 		// Only now, writing to a file may clear some bits of its mode.
-		err := f.tmp.Chmod(f.mode)
+		err := f.retainMode()
 		if err != nil {
 			return f.wrap("retain mode of", err)
 		}
@@ -99,6 +99,25 @@ func (f *File) Commit() error {
 	return nil
 }
 
+// retainMode gives the new content the mode of the file.
+func (f *File) retainMode() error {
+	err := f.tmp.Chmod(f.mode)
+	if err != nil {
+		return err
+	}
+
+	// The set-group-ID bit is silently ignored for a group, that the user is not
+	// a member of.
+	info, err := f.tmp.Stat()
+	if err != nil {
+		return err
+	}
+	if info.Mode() != f.mode {
+		return os.ErrPermission
+	}
+	return nil
+}
+
 // Close releases all resources. New content, that has not been committed, is
 // discarded.
 func (f *File) Close() error {
-- 
2.43.0

