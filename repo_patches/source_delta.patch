From 43294e72fe3eed2bb48e4be5d1a875f9aedd3b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:04 +0000
Subject: [PATCH 01/28] fix: reject excludes in siblings that share the name
 prefix of the config directory

---
 internal/settings/config_provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 616e7a8..fcd9755 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -416,7 +416,7 @@ func getExcludePrefixes(excludes []string, dirPath string) ([]string, error) {
 		if excludePrefix == dirPath {
 			return nil, fmt.Errorf("cannot exclude directory of config file: %s", dirPath)
 		}
-		if !strings.HasPrefix(excludePrefix, dirPath) {
+		if !strings.HasPrefix(excludePrefix, strings.TrimSuffix(dirPath, "/")+"/") {
 			return nil, fmt.Errorf("cannot exclude directory outside of config file directory %s: %s", dirPath, excludePrefix)
 		}
 		excludePrefixes = append(excludePrefixes, excludePrefix)
-- 
2.43.0


From 5c3ae1e12bee44a45eba43f2dffba0df64bca7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 02/28] fix: do not process files in siblings that share the
 name prefix of the given directory

---
 internal/exec/runner.go             | 8 ++++----
 internal/file/file.go               | 9 +++++++++
 internal/file/proto_set_provider.go | 2 +-
 internal/lint/lint.go               | 2 +-
 internal/protoc/compiler.go         | 4 ++--
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 9124bfd..fed26db 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -226,7 +226,7 @@ func (r *runner) Files(args []string) error {
 	var allFiles []string
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !file.IsWithinDir(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
 		for _, file := range files {
@@ -491,7 +491,7 @@ func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader
 	success := true
 	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !file.IsWithinDir(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
 		for _, protoFile := range protoFiles {
@@ -797,7 +797,7 @@ func (r *runner) BreakCheck(args []string, gitBranch string, descriptorSetPath s
 		if err != nil {
 			return err
 		}
-		if !strings.HasPrefix(absDirPath, absWorkDirPath) {
+		if !file.IsWithinDir(absDirPath, absWorkDirPath) {
 			return fmt.Errorf("input directory must be within working directory: %s", relDirPath)
 		}
 
@@ -1199,7 +1199,7 @@ func (r *runner) printLinters(config settings.LintConfig, linters []lint.Linter)
 func (r *runner) printAffectedFiles(meta *meta) {
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !file.IsWithinDir(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
 		for _, file := range files {
diff --git a/internal/file/file.go b/internal/file/file.go
index 5ba949d..efe62e8 100644
--- a/internal/file/file.go
+++ b/internal/file/file.go
@@ -23,6 +23,7 @@ package file
 import (
 	"fmt"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/uber/prototool/internal/settings"
@@ -150,6 +151,14 @@ func CheckAbs(path string) error {
 	return nil
 }
 
+// IsWithinDir returns true if the given path is the given directory, or is
+// below the given directory.
+//
+// Both paths must be absolute and cleaned.
+func IsWithinDir(absPath string, absDirPath string) bool {
+	return absPath == absDirPath || strings.HasPrefix(absPath, strings.TrimSuffix(absDirPath, "/")+"/")
+}
+
 // IsExcluded determines whether the given filePath should be excluded.
 //
 // absConfigDirPath represents the absolute path to the configuration file.
diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index bd33599..3934b61 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -321,7 +321,7 @@ func validateIsRel(base string, dir string) error {
 	if rel == "" {
 		return fmt.Errorf("could not make %s relative to %s, this is a system error", base, dir)
 	}
-	if strings.HasPrefix(rel, "..") {
+	if rel == ".." || strings.HasPrefix(rel, "../") {
 		return fmt.Errorf("could not make %s within %s, got %s, this is a system error", base, dir, rel)
 	}
 	return nil
diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 7d9634b..bc1f54a 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -429,7 +429,7 @@ func GetDirPathToDescriptors(protoSet *file.ProtoSet, absolutePaths bool) (map[s
 	dirPathToDescriptors := make(map[string][]*FileDescriptor, len(protoSet.DirPathToFiles))
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !file.IsWithinDir(dirPath, protoSet.DirPath) {
 			continue
 		}
 		descriptors := make([]*FileDescriptor, len(protoFiles))
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 9a379bf..2744e09 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -215,7 +215,7 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 		} else {
 			for dirPath := range protoSet.DirPathToFiles {
 				// skip those files not under the directory
-				if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+				if !file.IsWithinDir(dirPath, protoSet.DirPath) {
 					continue
 				}
 				relOutputFilePath, err := getRelOutputFilePath(protoSet, dirPath, genPlugin.FileSuffix)
@@ -315,7 +315,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 	}
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !file.IsWithinDir(dirPath, protoSet.DirPath) {
 			continue
 		}
 		// you want your proto files to be in at least one of the -I directories
-- 
2.43.0


From 05aa0422ab9b9e897c607ecbc062037d0a7a7220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:40 +0000
Subject: [PATCH 03/28] fix: do not drop the config directory include for a
 sibling of an include directory

---
 internal/protoc/compiler.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 2744e09..f1a4834 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -588,8 +588,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 	includedConfigDirPath := false
 	for _, includePath := range config.Compile.IncludePaths {
 		includes = append(includes, includePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, includePath) {
+		if file.IsWithinDir(dirPath, includePath) {
 			fileInIncludePath = true
 		}
 		if includePath == configDirPath {
@@ -602,8 +601,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 			return nil, err
 		}
 		includes = append(includes, wellKnownTypesIncludePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, wellKnownTypesIncludePath) {
+		if file.IsWithinDir(dirPath, filepath.Clean(wellKnownTypesIncludePath)) {
 			fileInIncludePath = true
 		}
 	}
-- 
2.43.0


From b566d9d548a88fcb181105034738f409fd5695c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:05 +0000
Subject: [PATCH 04/28] fix: do not use the package of a sibling directory that
 shares a name prefix

---
 internal/create/handler.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index 6d6115b..3de862b 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -254,9 +254,7 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 	// note that createDirPath will always be absolute per the spec in
 	// the settings package
 	for createDirPath, basePkg := range config.Create.DirPathToBasePackage {
-		// TODO: cannot do rel right away because it will do ../.. if necessary
-		// strings.HasPrefix is not OS independent however
-		if !strings.HasPrefix(absDirPath, createDirPath) {
+		if !isWithinDir(absDirPath, createDirPath) {
 			continue
 		}
 		if len(createDirPath) > len(longestCreateDirPath) {
@@ -274,9 +272,7 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 
 	// no package mapping found, do default logic
 
-	// TODO: cannot do rel right away because it will do ../.. if necessary
-	// strings.HasPrefix is not OS independent however
-	if !strings.HasPrefix(absDirPath, config.DirPath) {
+	if !isWithinDir(absDirPath, config.DirPath) {
 		return defaultPackage, nil
 	}
 	rel, err := filepath.Rel(config.DirPath, absDirPath)
@@ -286,6 +282,12 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 	return getPkgFromRel(rel, "", defaultPackage), nil
 }
 
+// isWithinDir returns true if the given absolute path is the given directory
+// or is below it.
+func isWithinDir(absPath string, absDirPath string) bool {
+	return absPath == absDirPath || strings.HasPrefix(absPath, strings.TrimSuffix(absDirPath, "/")+"/")
+}
+
 func (h *handler) getConfig(filePath string) (settings.Config, error) {
 	absFilePath, err := filepath.Abs(filePath)
 	if err != nil {
-- 
2.43.0


From 2e37ef386d4944cce907471afca9bebb235e68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:51 +0000
Subject: [PATCH 05/28] fix: print failures without a file name when given a
 single file

---
 internal/exec/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index fed26db..c928d43 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -1149,7 +1149,8 @@ func (r *runner) printFailuresForErrorFormat(errorFormat string, filename string
 	for _, failure := range failures {
 		shouldPrint := false
 		if meta != nil {
-			if meta.SingleFilename == "" || meta.SingleFilename == failure.Filename {
+			// failures without a filename may be about any file
+			if meta.SingleFilename == "" || failure.Filename == "" || meta.SingleFilename == failure.Filename {
 				shouldPrint = true
 			} else if meta.SingleFilename != "" {
 				// TODO: the compiler may not return the rel path due to logic in bestFilePath
-- 
2.43.0


From 1fb817b8aabdc3631434b2bb6dd07eb9ed3cffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:51 +0000
Subject: [PATCH 06/28] fix: do not report success when protoc was terminated
 by a signal

---
 internal/protoc/compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index f1a4834..c6a08d6 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -267,7 +267,11 @@ func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
 			zap.String("command", cmdMeta.String()),
 			zap.String("signal", s.String()),
 		)
-		return nil, cmdMeta.execCmd.Process.Kill()
+		if err := cmdMeta.execCmd.Process.Kill(); err != nil {
+			return nil, err
+		}
+		// protoc did not finish, so this must not look like a success
+		return nil, fmt.Errorf("protoc was terminated after signal: %s", s)
 	case runErr = <-done:
 		// Exit errors are ok, we can probably parse them into text.Failures
 		// if not an exec.ExitError, short circuit.
-- 
2.43.0


From 0cc30f385125b0410803b98fb17acda1ba5a95c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:09 +0000
Subject: [PATCH 07/28] fix: do not overflow large versions in csharp_namespace
 and php_namespace

---
 internal/protostrs/protostrs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protostrs/protostrs.go b/internal/protostrs/protostrs.go
index de49b2c..d34e09b 100644
--- a/internal/protostrs/protostrs.go
+++ b/internal/protostrs/protostrs.go
@@ -47,7 +47,7 @@ func CSharpNamespace(packageName string) string {
 		return strings.Title(packageName)
 	}
 	split := strings.Split(packageName, ".")
-	return strings.Title(strings.Join(split[:len(split)-1], ".")) + ".V" + strconv.Itoa(int(majorVersion)) + "Beta" + strconv.Itoa(int(betaVersion))
+	return strings.Title(strings.Join(split[:len(split)-1], ".")) + ".V" + strconv.FormatUint(majorVersion, 10) + "Beta" + strconv.FormatUint(betaVersion, 10)
 }
 
 // PHPNamespace returns the value for the file option "php_namespace"
-- 
2.43.0


From b27068f723ac0262a7205ca32dea011c502d9bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:25 +0000
Subject: [PATCH 08/28] fix: report a well-known types path that cannot be read
 instead of crashing

With a file below --protoc-wkt-path where a directory is needed, os.Stat fails
with an error other than not-exist and the nil os.FileInfo was used.
---
 internal/protoc/downloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index a2546c9..2921022 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -97,7 +97,7 @@ func newDownloader(config settings.Config, options ...DownloaderOption) (*downlo
 		}
 		protobufPath := filepath.Join(cleanWKTPath, "google", "protobuf")
 		info, err := os.Stat(protobufPath)
-		if os.IsNotExist(err) {
+		if err != nil {
 			return nil, err
 		}
 		if !info.IsDir() {
-- 
2.43.0


From 8080c50f308e71024611621842b6534debeb5573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:25 +0000
Subject: [PATCH 09/28] fix: do not unpack protobuf zip entries outside of the
 cache directory

An entry named ../x was written next to, and not below, the directory of the
protoc version.
---
 internal/protoc/downloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 2921022..1e9ed39 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -244,6 +244,9 @@ func (d *downloader) downloadInternal(basePath string, goos string, goarch strin
 			return err
 		}
 		writeFilePath := filepath.Join(basePath, file.Name)
+		if !strings.HasPrefix(writeFilePath, basePath+string(filepath.Separator)) {
+			return fmt.Errorf("invalid file name in protobuf zip file: %s", file.Name)
+		}
 		if err := os.MkdirAll(filepath.Dir(writeFilePath), 0755); err != nil {
 			return err
 		}
-- 
2.43.0


From 3eac638515756945cd2908a9780668bd2ccdb384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:25 +0000
Subject: [PATCH 10/28] fix: report the http status when the given protoc-url
 cannot be fetched

Any status but 200 was returned as empty data without an error.
---
 internal/protoc/downloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 1e9ed39..f2ff1aa 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -288,6 +288,9 @@ func (d *downloader) getDownloadData(goos string, goarch string) (_ []byte, retE
 			if d.protocURL == "" {
 				return nil, fmt.Errorf("error downloading %s: %v\nMake sure GitHub Releases has a proper protoc zip file of the form protoc-VERSION-OS-ARCH.zip at https://github.com/protocolbuffers/protobuf/releases/v%s\nNote that many micro versions do not have this, and no version before 3.0.0-beta-2 has this", url, err, d.config.Compile.ProtobufVersion)
 			}
+			if err == nil {
+				err = fmt.Errorf("error downloading %s: %s", url, response.Status)
+			}
 			return nil, err
 		}
 		defer func() {
-- 
2.43.0


From eea9adcd677c7fc62f183288ea7a27da0470250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:19 +0000
Subject: [PATCH 11/28] fix: do not crash linting a service option named
 (.google.api.http)

---
 internal/lint/check_rpc_options_no_google_api_http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lint/check_rpc_options_no_google_api_http.go b/internal/lint/check_rpc_options_no_google_api_http.go
index c5d7b81..4bce476 100644
--- a/internal/lint/check_rpc_options_no_google_api_http.go
+++ b/internal/lint/check_rpc_options_no_google_api_http.go
@@ -67,7 +67,7 @@ func (v *rpcOptionsNoGoogleAPIHTTPVisitor) VisitRPC(rpc *proto.RPC) {
 }
 
 func (v *rpcOptionsNoGoogleAPIHTTPVisitor) VisitOption(option *proto.Option) {
-	if v.rpc != nil && strings.HasPrefix(option.Name, "(google.api.http)") || strings.HasPrefix(option.Name, "(.google.api.http)") {
+	if v.rpc != nil && (strings.HasPrefix(option.Name, "(google.api.http)") || strings.HasPrefix(option.Name, "(.google.api.http)")) {
 		v.AddFailuref(v.rpc.Comment, option.Position, `Option "google.api.http" is not allowed. This option signifies HTTP/REST usage, use the RPC framework instead.`)
 	}
 }
-- 
2.43.0


From 596026ef465a221897dd733a6aedb1d5d62b0b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:22 +0000
Subject: [PATCH 12/28] fix: look at the first letter of a sentence comment,
 not at its first byte

---
 internal/lint/lint.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index bc1f54a..12a2dc2 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -27,6 +27,7 @@ import (
 	"path/filepath"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/emicklei/proto"
 	"github.com/uber/prototool/internal/file"
@@ -547,7 +548,8 @@ func commentStartsWithUppercaseLetter(comment *proto.Comment) bool {
 	if firstLine == "" {
 		return false
 	}
-	return unicode.IsUpper(rune(firstLine[0])) || unicode.IsDigit(rune(firstLine[0]))
+	first, _ := utf8.DecodeRuneInString(firstLine)
+	return unicode.IsUpper(first) || unicode.IsDigit(first)
 }
 
 func commentContainsPeriod(comment *proto.Comment) bool {
-- 
2.43.0


From 0e451960fca223f4db36139c70f17f140d2a4c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:55 +0000
Subject: [PATCH 13/28] fix: do not mix up a message with the extensions of it
 when linting

---
 ...k_messages_have_comments_except_request_response_types.go | 5 +++++
 ...s_have_sentence_comments_except_request_response_types.go | 5 +++++
 ...check_messages_not_empty_except_request_response_types.go | 5 +++++
 internal/lint/check_request_response_types_after_service.go  | 4 ++++
 internal/lint/check_request_response_types_in_same_file.go   | 5 +++++
 internal/lint/check_request_response_types_only_in_file.go   | 4 ++++
 6 files changed, 28 insertions(+)

diff --git a/internal/lint/check_messages_have_comments_except_request_response_types.go b/internal/lint/check_messages_have_comments_except_request_response_types.go
index bb9d01a..d2d39c7 100644
--- a/internal/lint/check_messages_have_comments_except_request_response_types.go
+++ b/internal/lint/check_messages_have_comments_except_request_response_types.go
@@ -58,6 +58,11 @@ func (v *messagesHaveCommentsExceptRequestResponseTypesVisitor) VisitMessage(mes
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
 
+	// an extension has the name of the message it extends
+	if message.IsExtend {
+		return
+	}
+
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
diff --git a/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go b/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
index 41e6a46..31837d6 100644
--- a/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
+++ b/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
@@ -58,6 +58,11 @@ func (v *messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor) VisitMes
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
 
+	// an extension has the name of the message it extends
+	if message.IsExtend {
+		return
+	}
+
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
diff --git a/internal/lint/check_messages_not_empty_except_request_response_types.go b/internal/lint/check_messages_not_empty_except_request_response_types.go
index 7804315..3db01ea 100644
--- a/internal/lint/check_messages_not_empty_except_request_response_types.go
+++ b/internal/lint/check_messages_not_empty_except_request_response_types.go
@@ -67,6 +67,11 @@ func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitMessage(message
 	v.curFieldCount = oldFieldCount
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
 
+	// an extension has the name of the message it extends
+	if message.IsExtend {
+		return
+	}
+
 	if v.messageNameToWrapper == nil {
 		v.messageNameToWrapper = make(map[string]*messagesNotEmptyExceptRequestResponseTypesWrapper)
 	}
diff --git a/internal/lint/check_request_response_types_after_service.go b/internal/lint/check_request_response_types_after_service.go
index 63d1401..3833b38 100644
--- a/internal/lint/check_request_response_types_after_service.go
+++ b/internal/lint/check_request_response_types_after_service.go
@@ -50,6 +50,10 @@ func (v *requestResponseTypesAfterServiceVisitor) OnStart(*FileDescriptor) error
 }
 
 func (v *requestResponseTypesAfterServiceVisitor) VisitMessage(message *proto.Message) {
+	// an extension has the name of the message it extends
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
diff --git a/internal/lint/check_request_response_types_in_same_file.go b/internal/lint/check_request_response_types_in_same_file.go
index f872894..bba83c0 100644
--- a/internal/lint/check_request_response_types_in_same_file.go
+++ b/internal/lint/check_request_response_types_in_same_file.go
@@ -59,6 +59,11 @@ func (v *requestResponseTypesInSameFileVisitor) VisitMessage(message *proto.Mess
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
 
+	// an extension has the name of the message it extends
+	if message.IsExtend {
+		return
+	}
+
 	if v.messageTypes == nil {
 		v.messageTypes = make(map[string]struct{})
 	}
diff --git a/internal/lint/check_request_response_types_only_in_file.go b/internal/lint/check_request_response_types_only_in_file.go
index 7c2433f..1fe0d84 100644
--- a/internal/lint/check_request_response_types_only_in_file.go
+++ b/internal/lint/check_request_response_types_only_in_file.go
@@ -59,6 +59,10 @@ func (v *requestResponseTypesOnlyInFileVisitor) VisitEnum(enum *proto.Enum) {
 }
 
 func (v *requestResponseTypesOnlyInFileVisitor) VisitMessage(message *proto.Message) {
+	// an extension has the name of the message it extends
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
-- 
2.43.0


From 7371071095d8e2048027cadcdd33d98dc95dc65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:08 +0000
Subject: [PATCH 14/28] fix: lint what is declared inside of groups

---
 .../check_enum_field_names_upper_snake_case.go    | 13 +++++++++++++
 internal/lint/check_enum_field_names_uppercase.go | 13 +++++++++++++
 internal/lint/check_enum_field_prefixes.go        | 15 +++++++++++++++
 .../check_enum_field_prefixes_except_message.go   | 13 +++++++++++++
 internal/lint/check_enum_fields_have_comments.go  | 13 +++++++++++++
 .../check_enum_fields_have_sentence_comments.go   | 13 +++++++++++++
 internal/lint/check_enum_names_camel_case.go      | 13 +++++++++++++
 internal/lint/check_enum_names_capitalized.go     | 13 +++++++++++++
 internal/lint/check_enum_zero_values_invalid.go   | 15 +++++++++++++++
 ...eck_enum_zero_values_invalid_except_message.go | 13 +++++++++++++
 internal/lint/check_enums_have_comments.go        | 13 +++++++++++++
 .../lint/check_enums_have_sentence_comments.go    | 13 +++++++++++++
 internal/lint/check_enums_no_allow_alias.go       | 13 +++++++++++++
 internal/lint/check_fields_not_reserved.go        | 15 +++++++++++++++
 .../lint/check_message_field_names_filename.go    |  6 ++++++
 .../lint/check_message_field_names_filepath.go    |  6 ++++++
 .../check_message_field_names_lower_snake_case.go |  6 ++++++
 .../lint/check_message_field_names_lowercase.go   |  6 ++++++
 .../check_message_field_names_no_descriptor.go    |  6 ++++++
 internal/lint/check_message_fields_duration.go    |  6 ++++++
 .../lint/check_message_fields_have_comments.go    |  6 ++++++
 ...check_message_fields_have_sentence_comments.go |  6 ++++++
 .../lint/check_message_fields_no_json_name.go     |  6 ++++++
 internal/lint/check_message_fields_not_floats.go  |  6 ++++++
 internal/lint/check_message_fields_time.go        |  6 ++++++
 internal/lint/check_message_names_camel_case.go   | 13 +++++++++++++
 internal/lint/check_message_names_capitalized.go  | 13 +++++++++++++
 internal/lint/check_messages_have_comments.go     | 13 +++++++++++++
 ...have_comments_except_request_response_types.go | 15 +++++++++++++++
 ...ence_comments_except_request_response_types.go | 15 +++++++++++++++
 ...ges_not_empty_except_request_response_types.go | 11 +++++++++++
 .../lint/check_oneof_names_lower_snake_case.go    | 10 ++++++++++
 .../check_request_response_types_in_same_file.go  | 15 +++++++++++++++
 internal/lint/check_wkt_duration_suffix.go        |  6 ++++++
 internal/lint/check_wkt_timestamp_suffix.go       |  6 ++++++
 35 files changed, 371 insertions(+)

diff --git a/internal/lint/check_enum_field_names_upper_snake_case.go b/internal/lint/check_enum_field_names_upper_snake_case.go
index ca60d7e..35ae84a 100644
--- a/internal/lint/check_enum_field_names_upper_snake_case.go
+++ b/internal/lint/check_enum_field_names_upper_snake_case.go
@@ -46,6 +46,19 @@ func (v enumFieldNamesUpperSnakeCaseVisitor) VisitMessage(message *proto.Message
 	}
 }
 
+func (v enumFieldNamesUpperSnakeCaseVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, element := range oneof.Elements {
+		element.Accept(v)
+	}
+}
+
+func (v enumFieldNamesUpperSnakeCaseVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v enumFieldNamesUpperSnakeCaseVisitor) VisitEnum(enum *proto.Enum) {
 	for _, element := range enum.Elements {
 		element.Accept(v)
diff --git a/internal/lint/check_enum_field_names_uppercase.go b/internal/lint/check_enum_field_names_uppercase.go
index c8c2832..3f8f65c 100644
--- a/internal/lint/check_enum_field_names_uppercase.go
+++ b/internal/lint/check_enum_field_names_uppercase.go
@@ -46,6 +46,19 @@ func (v enumFieldNamesUppercaseVisitor) VisitMessage(message *proto.Message) {
 	}
 }
 
+func (v enumFieldNamesUppercaseVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, element := range oneof.Elements {
+		element.Accept(v)
+	}
+}
+
+func (v enumFieldNamesUppercaseVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v enumFieldNamesUppercaseVisitor) VisitEnum(enum *proto.Enum) {
 	for _, element := range enum.Elements {
 		element.Accept(v)
diff --git a/internal/lint/check_enum_field_prefixes.go b/internal/lint/check_enum_field_prefixes.go
index c796a14..204a471 100644
--- a/internal/lint/check_enum_field_prefixes.go
+++ b/internal/lint/check_enum_field_prefixes.go
@@ -52,6 +52,21 @@ func (v *enumFieldPrefixesVisitor) VisitMessage(message *proto.Message) {
 	v.nestedNames = v.nestedNames[0 : len(v.nestedNames)-1]
 }
 
+func (v *enumFieldPrefixesVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v *enumFieldPrefixesVisitor) VisitGroup(group *proto.Group) {
+	v.nestedNames = append(v.nestedNames, strs.ToUpperSnakeCase(group.Name))
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+	v.nestedNames = v.nestedNames[:len(v.nestedNames)-1]
+}
+
 func (v *enumFieldPrefixesVisitor) VisitEnum(enum *proto.Enum) {
 	v.nestedNames = append(v.nestedNames, strs.ToUpperSnakeCase(enum.Name))
 	for _, child := range enum.Elements {
diff --git a/internal/lint/check_enum_field_prefixes_except_message.go b/internal/lint/check_enum_field_prefixes_except_message.go
index 7f4a8a5..91fcc9f 100644
--- a/internal/lint/check_enum_field_prefixes_except_message.go
+++ b/internal/lint/check_enum_field_prefixes_except_message.go
@@ -48,6 +48,19 @@ func (v *enumFieldPrefixesExceptMessageVisitor) VisitMessage(message *proto.Mess
 	}
 }
 
+func (v *enumFieldPrefixesExceptMessageVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v *enumFieldPrefixesExceptMessageVisitor) VisitGroup(group *proto.Group) {
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+}
+
 func (v *enumFieldPrefixesExceptMessageVisitor) VisitEnum(enum *proto.Enum) {
 	for _, child := range enum.Elements {
 		child.Accept(v)
diff --git a/internal/lint/check_enum_fields_have_comments.go b/internal/lint/check_enum_fields_have_comments.go
index cc7e651..dc3e55e 100644
--- a/internal/lint/check_enum_fields_have_comments.go
+++ b/internal/lint/check_enum_fields_have_comments.go
@@ -46,6 +46,19 @@ func (v enumFieldsHaveCommentsVisitor) VisitMessage(message *proto.Message) {
 	}
 }
 
+func (v enumFieldsHaveCommentsVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v enumFieldsHaveCommentsVisitor) VisitGroup(group *proto.Group) {
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+}
+
 func (v enumFieldsHaveCommentsVisitor) VisitEnum(enum *proto.Enum) {
 	for _, child := range enum.Elements {
 		child.Accept(v)
diff --git a/internal/lint/check_enum_fields_have_sentence_comments.go b/internal/lint/check_enum_fields_have_sentence_comments.go
index d1d7741..11c7487 100644
--- a/internal/lint/check_enum_fields_have_sentence_comments.go
+++ b/internal/lint/check_enum_fields_have_sentence_comments.go
@@ -46,6 +46,19 @@ func (v enumFieldsHaveSentenceCommentsVisitor) VisitMessage(message *proto.Messa
 	}
 }
 
+func (v enumFieldsHaveSentenceCommentsVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v enumFieldsHaveSentenceCommentsVisitor) VisitGroup(group *proto.Group) {
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+}
+
 func (v enumFieldsHaveSentenceCommentsVisitor) VisitEnum(enum *proto.Enum) {
 	for _, child := range enum.Elements {
 		child.Accept(v)
diff --git a/internal/lint/check_enum_names_camel_case.go b/internal/lint/check_enum_names_camel_case.go
index 2cf1094..e0c3cb2 100644
--- a/internal/lint/check_enum_names_camel_case.go
+++ b/internal/lint/check_enum_names_camel_case.go
@@ -47,6 +47,19 @@ func (v enumNamesCamelCaseVisitor) VisitMessage(message *proto.Message) {
 	}
 }
 
+func (v enumNamesCamelCaseVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v enumNamesCamelCaseVisitor) VisitGroup(group *proto.Group) {
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+}
+
 func (v enumNamesCamelCaseVisitor) VisitEnum(enum *proto.Enum) {
 	if !strs.IsCamelCase(enum.Name) {
 		v.AddFailuref(enum.Position, "Enum name %q must be CamelCase.", enum.Name)
diff --git a/internal/lint/check_enum_names_capitalized.go b/internal/lint/check_enum_names_capitalized.go
index d46fef2..fd3bc5f 100644
--- a/internal/lint/check_enum_names_capitalized.go
+++ b/internal/lint/check_enum_names_capitalized.go
@@ -47,6 +47,19 @@ func (v enumNamesCapitalizedVisitor) VisitMessage(message *proto.Message) {
 	}
 }
 
+func (v enumNamesCapitalizedVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v enumNamesCapitalizedVisitor) VisitGroup(group *proto.Group) {
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+}
+
 func (v enumNamesCapitalizedVisitor) VisitEnum(enum *proto.Enum) {
 	if !strs.IsCapitalized(enum.Name) {
 		v.AddFailuref(enum.Position, "Enum name %q must be capitalized.", enum.Name)
diff --git a/internal/lint/check_enum_zero_values_invalid.go b/internal/lint/check_enum_zero_values_invalid.go
index 5bf1cca..8cf056b 100644
--- a/internal/lint/check_enum_zero_values_invalid.go
+++ b/internal/lint/check_enum_zero_values_invalid.go
@@ -52,6 +52,21 @@ func (v *enumZeroValuesInvalidVisitor) VisitMessage(message *proto.Message) {
 	v.nestedNames = v.nestedNames[0 : len(v.nestedNames)-1]
 }
 
+func (v *enumZeroValuesInvalidVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v *enumZeroValuesInvalidVisitor) VisitGroup(group *proto.Group) {
+	v.nestedNames = append(v.nestedNames, strs.ToUpperSnakeCase(group.Name))
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+	v.nestedNames = v.nestedNames[:len(v.nestedNames)-1]
+}
+
 func (v *enumZeroValuesInvalidVisitor) VisitEnum(enum *proto.Enum) {
 	v.nestedNames = append(v.nestedNames, strs.ToUpperSnakeCase(enum.Name))
 	for _, child := range enum.Elements {
diff --git a/internal/lint/check_enum_zero_values_invalid_except_message.go b/internal/lint/check_enum_zero_values_invalid_except_message.go
index 1c80d0a..ba0981d 100644
--- a/internal/lint/check_enum_zero_values_invalid_except_message.go
+++ b/internal/lint/check_enum_zero_values_invalid_except_message.go
@@ -46,6 +46,19 @@ func (v *enumZeroValuesInvalidExceptMessageVisitor) VisitMessage(message *proto.
 	}
 }
 
+func (v *enumZeroValuesInvalidExceptMessageVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v *enumZeroValuesInvalidExceptMessageVisitor) VisitGroup(group *proto.Group) {
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+}
+
 func (v *enumZeroValuesInvalidExceptMessageVisitor) VisitEnum(enum *proto.Enum) {
 	for _, child := range enum.Elements {
 		child.Accept(v)
diff --git a/internal/lint/check_enums_have_comments.go b/internal/lint/check_enums_have_comments.go
index 37e266d..eb560d1 100644
--- a/internal/lint/check_enums_have_comments.go
+++ b/internal/lint/check_enums_have_comments.go
@@ -46,6 +46,19 @@ func (v enumsHaveCommentsVisitor) VisitMessage(message *proto.Message) {
 	}
 }
 
+func (v enumsHaveCommentsVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v enumsHaveCommentsVisitor) VisitGroup(group *proto.Group) {
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+}
+
 func (v enumsHaveCommentsVisitor) VisitEnum(enum *proto.Enum) {
 	if !hasGolangStyleComment(enum.Comment, enum.Name) {
 		v.AddFailuref(enum.Position, `Enum %q needs a comment of the form "// %s ..."`, enum.Name, enum.Name)
diff --git a/internal/lint/check_enums_have_sentence_comments.go b/internal/lint/check_enums_have_sentence_comments.go
index ed0354e..99d557c 100644
--- a/internal/lint/check_enums_have_sentence_comments.go
+++ b/internal/lint/check_enums_have_sentence_comments.go
@@ -46,6 +46,19 @@ func (v enumsHaveSentenceCommentsVisitor) VisitMessage(message *proto.Message) {
 	}
 }
 
+func (v enumsHaveSentenceCommentsVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v enumsHaveSentenceCommentsVisitor) VisitGroup(group *proto.Group) {
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+}
+
 func (v enumsHaveSentenceCommentsVisitor) VisitEnum(enum *proto.Enum) {
 	if !hasCompleteSentenceComment(enum.Comment) {
 		v.AddFailuref(enum.Position, `Enum %q needs a comment with a complete sentence that starts on the first line of the comment.`, enum.Name)
diff --git a/internal/lint/check_enums_no_allow_alias.go b/internal/lint/check_enums_no_allow_alias.go
index 12f7b86..e2fdf70 100644
--- a/internal/lint/check_enums_no_allow_alias.go
+++ b/internal/lint/check_enums_no_allow_alias.go
@@ -46,6 +46,19 @@ func (v enumsNoAllowAliasVisitor) VisitMessage(element *proto.Message) {
 	}
 }
 
+func (v enumsNoAllowAliasVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v enumsNoAllowAliasVisitor) VisitGroup(group *proto.Group) {
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+}
+
 func (v enumsNoAllowAliasVisitor) VisitEnum(element *proto.Enum) {
 	for _, child := range element.Elements {
 		child.Accept(v)
diff --git a/internal/lint/check_fields_not_reserved.go b/internal/lint/check_fields_not_reserved.go
index 30ef507..6c8f195 100644
--- a/internal/lint/check_fields_not_reserved.go
+++ b/internal/lint/check_fields_not_reserved.go
@@ -55,6 +55,21 @@ func (v fieldsNotReservedVisitor) VisitMessage(message *proto.Message) {
 	v.outerNameStack = v.outerNameStack[:len(v.outerNameStack)-1]
 }
 
+func (v fieldsNotReservedVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, element := range oneof.Elements {
+		element.Accept(v)
+	}
+}
+
+func (v fieldsNotReservedVisitor) VisitGroup(group *proto.Group) {
+	v.outerNameStack = append(v.outerNameStack, group.Name)
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+	v.outerNameStack = v.outerNameStack[:len(v.outerNameStack)-1]
+}
+
 func (v fieldsNotReservedVisitor) VisitEnum(enum *proto.Enum) {
 	// Push name on stack.
 	v.outerNameStack = append(
diff --git a/internal/lint/check_message_field_names_filename.go b/internal/lint/check_message_field_names_filename.go
index 8230fdf..c9e26ea 100644
--- a/internal/lint/check_message_field_names_filename.go
+++ b/internal/lint/check_message_field_names_filename.go
@@ -53,6 +53,12 @@ func (v messageFieldNamesFilenameVisitor) VisitOneof(oneof *proto.Oneof) {
 	}
 }
 
+func (v messageFieldNamesFilenameVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v messageFieldNamesFilenameVisitor) VisitNormalField(field *proto.NormalField) {
 	v.handleField(field.Field)
 }
diff --git a/internal/lint/check_message_field_names_filepath.go b/internal/lint/check_message_field_names_filepath.go
index 198d377..452d613 100644
--- a/internal/lint/check_message_field_names_filepath.go
+++ b/internal/lint/check_message_field_names_filepath.go
@@ -53,6 +53,12 @@ func (v messageFieldNamesFilepathVisitor) VisitOneof(oneof *proto.Oneof) {
 	}
 }
 
+func (v messageFieldNamesFilepathVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v messageFieldNamesFilepathVisitor) VisitNormalField(field *proto.NormalField) {
 	v.handleField(field.Field)
 }
diff --git a/internal/lint/check_message_field_names_lower_snake_case.go b/internal/lint/check_message_field_names_lower_snake_case.go
index 51364bc..092482d 100644
--- a/internal/lint/check_message_field_names_lower_snake_case.go
+++ b/internal/lint/check_message_field_names_lower_snake_case.go
@@ -52,6 +52,12 @@ func (v messageFieldNamesLowerSnakeCaseVisitor) VisitOneof(oneof *proto.Oneof) {
 	}
 }
 
+func (v messageFieldNamesLowerSnakeCaseVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v messageFieldNamesLowerSnakeCaseVisitor) VisitNormalField(field *proto.NormalField) {
 	if !strs.IsLowerSnakeCase(field.Name) {
 		v.AddFailuref(field.Position, "Field name %q must be lower_snake_case.", field.Name)
diff --git a/internal/lint/check_message_field_names_lowercase.go b/internal/lint/check_message_field_names_lowercase.go
index 8d68c7d..b83215e 100644
--- a/internal/lint/check_message_field_names_lowercase.go
+++ b/internal/lint/check_message_field_names_lowercase.go
@@ -52,6 +52,12 @@ func (v messageFieldNamesLowercaseVisitor) VisitOneof(oneof *proto.Oneof) {
 	}
 }
 
+func (v messageFieldNamesLowercaseVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v messageFieldNamesLowercaseVisitor) VisitNormalField(field *proto.NormalField) {
 	if !strs.IsLowercase(field.Name) {
 		v.AddFailuref(field.Position, "Field name %q must be lowercase.", field.Name)
diff --git a/internal/lint/check_message_field_names_no_descriptor.go b/internal/lint/check_message_field_names_no_descriptor.go
index 59b841c..762100a 100644
--- a/internal/lint/check_message_field_names_no_descriptor.go
+++ b/internal/lint/check_message_field_names_no_descriptor.go
@@ -53,6 +53,12 @@ func (v messageFieldNamesNoDescriptorVisitor) VisitOneof(oneof *proto.Oneof) {
 	}
 }
 
+func (v messageFieldNamesNoDescriptorVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v messageFieldNamesNoDescriptorVisitor) VisitNormalField(field *proto.NormalField) {
 	v.handleField(field.Field)
 }
diff --git a/internal/lint/check_message_fields_duration.go b/internal/lint/check_message_fields_duration.go
index 81785cd..0afeda1 100644
--- a/internal/lint/check_message_fields_duration.go
+++ b/internal/lint/check_message_fields_duration.go
@@ -53,6 +53,12 @@ func (v messageFieldsDurationVisitor) VisitOneof(oneof *proto.Oneof) {
 	}
 }
 
+func (v messageFieldsDurationVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v messageFieldsDurationVisitor) VisitNormalField(field *proto.NormalField) {
 	v.visitField(field.Field)
 }
diff --git a/internal/lint/check_message_fields_have_comments.go b/internal/lint/check_message_fields_have_comments.go
index 58141a0..1fa62a1 100644
--- a/internal/lint/check_message_fields_have_comments.go
+++ b/internal/lint/check_message_fields_have_comments.go
@@ -51,6 +51,12 @@ func (v messageFieldsHaveCommentsVisitor) VisitOneof(oneof *proto.Oneof) {
 	}
 }
 
+func (v messageFieldsHaveCommentsVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v messageFieldsHaveCommentsVisitor) VisitNormalField(field *proto.NormalField) {
 	v.visitField(field.Field)
 }
diff --git a/internal/lint/check_message_fields_have_sentence_comments.go b/internal/lint/check_message_fields_have_sentence_comments.go
index 776a2b8..10e34d7 100644
--- a/internal/lint/check_message_fields_have_sentence_comments.go
+++ b/internal/lint/check_message_fields_have_sentence_comments.go
@@ -51,6 +51,12 @@ func (v messageFieldsHaveSentenceCommentsVisitor) VisitOneof(oneof *proto.Oneof)
 	}
 }
 
+func (v messageFieldsHaveSentenceCommentsVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v messageFieldsHaveSentenceCommentsVisitor) VisitNormalField(field *proto.NormalField) {
 	v.visitField(field.Field)
 }
diff --git a/internal/lint/check_message_fields_no_json_name.go b/internal/lint/check_message_fields_no_json_name.go
index 7421840..3822425 100644
--- a/internal/lint/check_message_fields_no_json_name.go
+++ b/internal/lint/check_message_fields_no_json_name.go
@@ -51,6 +51,12 @@ func (v messageFieldsNoJSONNameVisitor) VisitOneof(oneof *proto.Oneof) {
 	}
 }
 
+func (v messageFieldsNoJSONNameVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v messageFieldsNoJSONNameVisitor) VisitNormalField(field *proto.NormalField) {
 	v.handleField(field.Field)
 }
diff --git a/internal/lint/check_message_fields_not_floats.go b/internal/lint/check_message_fields_not_floats.go
index e07d357..2c2a10b 100644
--- a/internal/lint/check_message_fields_not_floats.go
+++ b/internal/lint/check_message_fields_not_floats.go
@@ -53,6 +53,12 @@ func (v *messageFieldsNotFloatsVisitor) VisitOneof(oneof *proto.Oneof) {
 	}
 }
 
+func (v *messageFieldsNotFloatsVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v *messageFieldsNotFloatsVisitor) VisitNormalField(field *proto.NormalField) {
 	v.checkNotFloat(field.Field)
 }
diff --git a/internal/lint/check_message_fields_time.go b/internal/lint/check_message_fields_time.go
index 9fa2879..2e4bb78 100644
--- a/internal/lint/check_message_fields_time.go
+++ b/internal/lint/check_message_fields_time.go
@@ -53,6 +53,12 @@ func (v messageFieldsTimeVisitor) VisitOneof(oneof *proto.Oneof) {
 	}
 }
 
+func (v messageFieldsTimeVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v messageFieldsTimeVisitor) VisitNormalField(field *proto.NormalField) {
 	v.visitField(field.Field)
 }
diff --git a/internal/lint/check_message_names_camel_case.go b/internal/lint/check_message_names_camel_case.go
index 0f79ed0..eff34a8 100644
--- a/internal/lint/check_message_names_camel_case.go
+++ b/internal/lint/check_message_names_camel_case.go
@@ -52,3 +52,16 @@ func (v messageNamesCamelCaseVisitor) VisitMessage(message *proto.Message) {
 		v.AddFailuref(message.Position, "Message name %q must be CamelCase.", message.Name)
 	}
 }
+
+func (v messageNamesCamelCaseVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v messageNamesCamelCaseVisitor) VisitGroup(group *proto.Group) {
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+}
diff --git a/internal/lint/check_message_names_capitalized.go b/internal/lint/check_message_names_capitalized.go
index a5cef99..2562ed5 100644
--- a/internal/lint/check_message_names_capitalized.go
+++ b/internal/lint/check_message_names_capitalized.go
@@ -52,3 +52,16 @@ func (v messageNamesCapitalizedVisitor) VisitMessage(message *proto.Message) {
 		v.AddFailuref(message.Position, "Message name %q must be capitalized.", message.Name)
 	}
 }
+
+func (v messageNamesCapitalizedVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v messageNamesCapitalizedVisitor) VisitGroup(group *proto.Group) {
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+}
diff --git a/internal/lint/check_messages_have_comments.go b/internal/lint/check_messages_have_comments.go
index 8c7a9b7..98eba8c 100644
--- a/internal/lint/check_messages_have_comments.go
+++ b/internal/lint/check_messages_have_comments.go
@@ -51,3 +51,16 @@ func (v messagesHaveCommentsVisitor) VisitMessage(message *proto.Message) {
 		v.AddFailuref(message.Position, `Message %q needs a comment of the form "// %s ..."`, message.Name, message.Name)
 	}
 }
+
+func (v messagesHaveCommentsVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v messagesHaveCommentsVisitor) VisitGroup(group *proto.Group) {
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+}
diff --git a/internal/lint/check_messages_have_comments_except_request_response_types.go b/internal/lint/check_messages_have_comments_except_request_response_types.go
index d2d39c7..08d1eb1 100644
--- a/internal/lint/check_messages_have_comments_except_request_response_types.go
+++ b/internal/lint/check_messages_have_comments_except_request_response_types.go
@@ -73,6 +73,21 @@ func (v *messagesHaveCommentsExceptRequestResponseTypesVisitor) VisitMessage(mes
 	}
 }
 
+func (v *messagesHaveCommentsExceptRequestResponseTypesVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v *messagesHaveCommentsExceptRequestResponseTypesVisitor) VisitGroup(group *proto.Group) {
+	v.nestedMessageNames = append(v.nestedMessageNames, group.Name)
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
+}
+
 func (v *messagesHaveCommentsExceptRequestResponseTypesVisitor) VisitService(service *proto.Service) {
 	for _, child := range service.Elements {
 		child.Accept(v)
diff --git a/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go b/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
index 31837d6..7f228ed 100644
--- a/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
+++ b/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
@@ -73,6 +73,21 @@ func (v *messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor) VisitMes
 	}
 }
 
+func (v *messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v *messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor) VisitGroup(group *proto.Group) {
+	v.nestedMessageNames = append(v.nestedMessageNames, group.Name)
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
+}
+
 func (v *messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor) VisitService(service *proto.Service) {
 	for _, child := range service.Elements {
 		child.Accept(v)
diff --git a/internal/lint/check_messages_not_empty_except_request_response_types.go b/internal/lint/check_messages_not_empty_except_request_response_types.go
index 3db01ea..d52d05f 100644
--- a/internal/lint/check_messages_not_empty_except_request_response_types.go
+++ b/internal/lint/check_messages_not_empty_except_request_response_types.go
@@ -88,6 +88,17 @@ func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitOneof(oneof *pr
 	}
 }
 
+func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitGroup(group *proto.Group) {
+	// a group is a field with its own message
+	oldFieldCount := v.curFieldCount
+	v.nestedMessageNames = append(v.nestedMessageNames, group.Name)
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
+	v.curFieldCount = oldFieldCount + 1
+}
+
 func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitNormalField(field *proto.NormalField) {
 	v.curFieldCount++
 }
diff --git a/internal/lint/check_oneof_names_lower_snake_case.go b/internal/lint/check_oneof_names_lower_snake_case.go
index 0632108..ef0178b 100644
--- a/internal/lint/check_oneof_names_lower_snake_case.go
+++ b/internal/lint/check_oneof_names_lower_snake_case.go
@@ -47,7 +47,17 @@ func (v oneofNamesLowerSnakeCaseVisitor) VisitMessage(message *proto.Message) {
 }
 
 func (v oneofNamesLowerSnakeCaseVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, element := range oneof.Elements {
+		element.Accept(v)
+	}
 	if !strs.IsLowerSnakeCase(oneof.Name) {
 		v.AddFailuref(oneof.Position, "Oneof name %q must be lower_snake_case.", oneof.Name)
 	}
 }
+
+func (v oneofNamesLowerSnakeCaseVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
diff --git a/internal/lint/check_request_response_types_in_same_file.go b/internal/lint/check_request_response_types_in_same_file.go
index bba83c0..ea6b883 100644
--- a/internal/lint/check_request_response_types_in_same_file.go
+++ b/internal/lint/check_request_response_types_in_same_file.go
@@ -74,6 +74,21 @@ func (v *requestResponseTypesInSameFileVisitor) VisitMessage(message *proto.Mess
 	}
 }
 
+func (v *requestResponseTypesInSameFileVisitor) VisitOneof(oneof *proto.Oneof) {
+	// for groups
+	for _, child := range oneof.Elements {
+		child.Accept(v)
+	}
+}
+
+func (v *requestResponseTypesInSameFileVisitor) VisitGroup(group *proto.Group) {
+	v.nestedMessageNames = append(v.nestedMessageNames, group.Name)
+	for _, child := range group.Elements {
+		child.Accept(v)
+	}
+	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
+}
+
 func (v *requestResponseTypesInSameFileVisitor) VisitService(service *proto.Service) {
 	for _, child := range service.Elements {
 		child.Accept(v)
diff --git a/internal/lint/check_wkt_duration_suffix.go b/internal/lint/check_wkt_duration_suffix.go
index be350fd..d1f9f18 100644
--- a/internal/lint/check_wkt_duration_suffix.go
+++ b/internal/lint/check_wkt_duration_suffix.go
@@ -53,6 +53,12 @@ func (v wktDurationSuffixVisitor) VisitOneof(oneof *proto.Oneof) {
 	}
 }
 
+func (v wktDurationSuffixVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v wktDurationSuffixVisitor) VisitNormalField(field *proto.NormalField) {
 	v.visitField(field.Field)
 }
diff --git a/internal/lint/check_wkt_timestamp_suffix.go b/internal/lint/check_wkt_timestamp_suffix.go
index 4fbfb29..c81a7da 100644
--- a/internal/lint/check_wkt_timestamp_suffix.go
+++ b/internal/lint/check_wkt_timestamp_suffix.go
@@ -53,6 +53,12 @@ func (v wktTimestampSuffixVisitor) VisitOneof(oneof *proto.Oneof) {
 	}
 }
 
+func (v wktTimestampSuffixVisitor) VisitGroup(group *proto.Group) {
+	for _, element := range group.Elements {
+		element.Accept(v)
+	}
+}
+
 func (v wktTimestampSuffixVisitor) VisitNormalField(field *proto.NormalField) {
 	v.visitField(field.Field)
 }
-- 
2.43.0


From 2c97fedfc68eb65f0a985f0c6753f279c091d9f9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:45:13 +0000
Subject: [PATCH 15/28] fix: keep the file options set aside by format --fix
 when they are not fixed

---
 internal/format/first_pass_visitor.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 773687c..4d2ee56 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -144,20 +144,19 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 				QuoteRune: '"',
 			}
 		}
-		v.Options = append(
-			v.Options,
-			v.goPackageOption,
-			v.javaMultipleFilesOption,
-			v.javaOuterClassnameOption,
-			v.javaPackageOption,
-		)
-		if v.fix == FixV2 {
-			v.Options = append(
-				v.Options,
-				v.csharpNamespaceOption,
-				v.objcClassPrefixOption,
-				v.phpNamespaceOption,
-			)
+	}
+	// these are set aside by VisitOption, and need to be printed even if they were not fixed above
+	for _, option := range []*proto.Option{
+		v.goPackageOption,
+		v.javaMultipleFilesOption,
+		v.javaOuterClassnameOption,
+		v.javaPackageOption,
+		v.csharpNamespaceOption,
+		v.objcClassPrefixOption,
+		v.phpNamespaceOption,
+	} {
+		if option != nil {
+			v.Options = append(v.Options, option)
 		}
 	}
 	if len(v.Options) > 0 {
-- 
2.43.0


From b5c77d98fcf37936c926a76bb60b2f84a6f5b953 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:45:13 +0000
Subject: [PATCH 16/28] fix: keep the labels of groups when formatting

---
 internal/format/main_visitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index dfdec19..2b5587c 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -262,10 +262,15 @@ func (v *mainVisitor) VisitGroup(element *proto.Group) {
 	v.haveHitNonComment = true
 	v.PComment(element.Comment)
 	prefix := ""
-	// TODO: required and repeated not handled yet, add when handled
 	if element.Optional {
 		prefix = "optional "
 	}
+	if element.Required {
+		prefix = "required "
+	}
+	if element.Repeated {
+		prefix = "repeated "
+	}
 	if len(element.Elements) == 0 {
 		v.P(prefix, "group ", element.Name, " = ", element.Sequence, " {}")
 		return
-- 
2.43.0


From 6476371f02a3ca26d1e31d2d669b028c769bdb27 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:45:14 +0000
Subject: [PATCH 17/28] fix: keep the order of options of the same name when
 formatting

---
 internal/format/base_visitor.go       | 2 +-
 internal/format/first_pass_visitor.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index b5780fe..e65a28e 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -108,7 +108,7 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 	if len(options) == 0 {
 		return
 	}
-	sort.Slice(options, func(i int, j int) bool { return options[i].Name < options[j].Name })
+	sort.SliceStable(options, func(i int, j int) bool { return options[i].Name < options[j].Name })
 	prefix := "option "
 	if isFieldOption {
 		prefix = ""
diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 4d2ee56..ac61aa4 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -288,7 +288,7 @@ func (v *firstPassVisitor) PImports(imports []*proto.Import) {
 	if len(imports) == 0 {
 		return
 	}
-	sort.Slice(imports, func(i int, j int) bool { return imports[i].Filename < imports[j].Filename })
+	sort.SliceStable(imports, func(i int, j int) bool { return imports[i].Filename < imports[j].Filename })
 	for _, i := range imports {
 		v.PComment(i.Comment)
 		// kind can be "weak", "public", or empty
-- 
2.43.0


From 1fb7861e3567e28c9cf3b2c780d4820de34b503a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:45:14 +0000
Subject: [PATCH 18/28] fix: keep the optional label in proto3 files when
 formatting

---
 internal/format/main_visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index 2b5587c..103f49c 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -140,6 +140,8 @@ func (v *mainVisitor) VisitNormalField(element *proto.NormalField) {
 		} else {
 			prefix = "optional "
 		}
+	} else if element.Optional {
+		prefix = "optional "
 	}
 	if element.Repeated {
 		prefix = "repeated "
-- 
2.43.0


From f831f557858383a32ff5f528b5462dc04a2e71f3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:45:14 +0000
Subject: [PATCH 19/28] fix: make format --fix with a file header idempotent

---
 internal/format/first_pass_visitor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index ac61aa4..15cca81 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -63,8 +63,9 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 		v.P()
 	}
 	if v.Syntax != nil {
-		v.PComment(v.Syntax.Comment)
-		if v.Syntax.Comment != nil {
+		// if there is a file header, it replaces this comment as well, see VisitComment
+		if v.Syntax.Comment != nil && (v.fix == FixNone || v.fileHeader == "") {
+			v.PComment(v.Syntax.Comment)
 			// special case, we add a newline in between the first comment and syntax
 			// to separate licenses, file descriptions, etc.
 			v.P()
-- 
2.43.0


From ff09719f383c7230c9067eb7cb9082cc3892e508 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:45:14 +0000
Subject: [PATCH 20/28] fix: format empty option values to something that
 parses

---
 internal/format/base_visitor.go       | 43 +++++++++++++++++++++++++--
 internal/format/first_pass_visitor.go |  4 +--
 internal/format/main_visitor.go       |  5 ++--
 3 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index e65a28e..412fb1a 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -84,6 +84,7 @@ func (v *baseVisitor) pMessageOrEnumField(prefix string, fieldName string, field
 		fieldType = fieldType + " "
 	}
 	v.PComment(comment)
+	options = optionsWithContent(options)
 	if len(options) == 0 {
 		v.PWithInlineComment(inlineComment, prefix, fieldType, fieldName, " = ", fieldTag, ";")
 		return
@@ -105,6 +106,7 @@ func (v *baseVisitor) pMessageOrEnumField(prefix string, fieldName string, field
 }
 
 func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
+	options = optionsWithContent(options)
 	if len(options) == 0 {
 		return
 	}
@@ -150,13 +152,22 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 func (v *baseVisitor) pInnerLiteral(name string, literal proto.Literal, suffix string) {
 	prefix := ""
 	if name != "" {
+		// if empty, we do not want to print the key or empty value
+		if !hasContent(literal) {
+			return
+		}
 		prefix = name + ": "
 	}
 	if isSingleValueLiteral(literal) {
-		// SourceRepresentation() returns an empty string if the literal is empty
-		// if empty, we do not want to print the key or empty value
 		if source := literal.SourceRepresentation(); source != "" {
 			v.P(prefix, source, suffix)
+		} else if literal.Array != nil {
+			v.P(`[`)
+			v.P(`]`, suffix)
+		} else {
+			// an empty literal without a key is an element of an array
+			v.P(`{`)
+			v.P(`}`, suffix)
 		}
 	} else if len(literal.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
 		v.P(prefix, `[`)
@@ -190,6 +201,34 @@ func isSingleValueLiteral(literal proto.Literal) bool {
 	return len(literal.Array) == 0 && len(literal.OrderedMap) == 0
 }
 
+// hasContent returns false if the literal is empty, or if it only has keys with empty values.
+//
+// The elements of arrays are always printed.
+func hasContent(literal proto.Literal) bool {
+	if isSingleValueLiteral(literal) {
+		return literal.SourceRepresentation() != ""
+	}
+	if len(literal.Array) > 0 {
+		return true
+	}
+	for _, namedLiteral := range literal.OrderedMap {
+		if hasContent(*namedLiteral.Literal) {
+			return true
+		}
+	}
+	return false
+}
+
+func optionsWithContent(options []*proto.Option) []*proto.Option {
+	var optionsWithContent []*proto.Option
+	for _, option := range options {
+		if hasContent(option.Constant) {
+			optionsWithContent = append(optionsWithContent, option)
+		}
+	}
+	return optionsWithContent
+}
+
 func (v *baseVisitor) PEnumField(element *proto.EnumField) {
 	var options []*proto.Option
 	for _, e := range element.Elements {
diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 15cca81..f83ae10 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -160,8 +160,8 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 			v.Options = append(v.Options, option)
 		}
 	}
-	if len(v.Options) > 0 {
-		v.POptions(v.Options...)
+	if options := optionsWithContent(v.Options); len(options) > 0 {
+		v.POptions(options...)
 		v.P()
 	}
 	if len(v.Imports) > 0 {
diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index 103f49c..cb07aab 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -244,13 +244,14 @@ func (v *mainVisitor) VisitRPC(element *proto.RPC) {
 	if element.StreamsReturns {
 		responseStream = "stream "
 	}
-	if len(element.Options) == 0 {
+	options := optionsWithContent(element.Options)
+	if len(options) == 0 {
 		v.PWithInlineComment(element.InlineComment, "rpc ", element.Name, "(", requestStream, element.RequestType, ") returns (", responseStream, element.ReturnsType, ");")
 		return
 	}
 	v.P("rpc ", element.Name, "(", requestStream, element.RequestType, ") returns (", responseStream, element.ReturnsType, ") {")
 	v.In()
-	v.POptions(element.Options...)
+	v.POptions(options...)
 	v.Out()
 	v.PWithInlineComment(element.InlineComment, "}")
 }
-- 
2.43.0


From 7aadc9b67fc0c5450bbeb3231c5119a1e49f6498 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:45:14 +0000
Subject: [PATCH 21/28] fix: keep multi-line comments behind an element with
 this element when formatting

---
 internal/format/base_visitor.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index 412fb1a..263fdaf 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -55,11 +55,7 @@ func (v *baseVisitor) PWithInlineComment(inlineComment *proto.Comment, args ...i
 		return
 	}
 	// https://github.com/emicklei/proto/commit/5a91db7561a4dedab311f36304fcf0512343a9b1
-	args = append(args, ` //`, cleanCommentLine(inlineComment.Lines[0]))
-	v.P(args...)
-	for _, line := range inlineComment.Lines[1:] {
-		v.P(`//`, cleanCommentLine(line))
-	}
+	v.P(append(args, ` //`, cleanInlineCommentLines(inlineComment.Lines))...)
 }
 
 func (v *baseVisitor) PComment(comment *proto.Comment) {
@@ -243,3 +239,17 @@ func cleanCommentLine(line string) string {
 	// TODO: this is not great
 	return strings.TrimLeft(line, "/")
 }
+
+// cleanInlineCommentLines puts all lines on one line.
+//
+// If this is a multi-line c-style comment, we want to keep all of it behind the element,
+// as otherwise the rest would become a comment of the next element.
+func cleanInlineCommentLines(lines []string) string {
+	cleaned := cleanCommentLine(lines[0])
+	for _, line := range lines[1:] {
+		if line = strings.TrimSpace(cleanCommentLine(line)); line != "" {
+			cleaned += " " + line
+		}
+	}
+	return cleaned
+}
-- 
2.43.0


From 1a5a63cd6ee899ce7f2c5353ec7d954ed454383f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:48:10 +0000
Subject: [PATCH 22/28] fix: keep the comment of a single field option when
 formatting

---
 internal/format/base_visitor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index 263fdaf..54c0033 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -87,7 +87,8 @@ func (v *baseVisitor) pMessageOrEnumField(prefix string, fieldName string, field
 	}
 	if len(options) == 1 {
 		o := options[0]
-		if isSingleValueLiteral(o.Constant) {
+		// if the option has a comment, this needs to be on its own line
+		if isSingleValueLiteral(o.Constant) && (o.Comment == nil || len(o.Comment.Lines) == 0) {
 			if source := o.Constant.SourceRepresentation(); source != "" {
 				v.PWithInlineComment(inlineComment, prefix, fieldType, fieldName, " = ", fieldTag, " [", o.Name, ` = `, source, "];")
 				return
-- 
2.43.0


From 68547e35f71e9396214c291ed2e21c0fa57bb4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:44 +0000
Subject: [PATCH 23/28] fix: format options inside of groups

---
 internal/format/main_visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index cb07aab..85d5e90 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -113,6 +113,8 @@ func (v *mainVisitor) VisitOption(element *proto.Option) {
 	switch v.parent.(type) {
 	case (*proto.Enum):
 		v.POptions(element)
+	case (*proto.Group):
+		v.POptions(element)
 	case (*proto.Message):
 		v.POptions(element)
 	case (*proto.Oneof):
-- 
2.43.0


From 847a0619a26d952b0df26f0dae47df01ac9dcb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:41 +0000
Subject: [PATCH 24/28] fix: remove the directory of a failed temporary clone

---
 internal/git/git.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/git/git.go b/internal/git/git.go
index fbf3fbd..1ada68b 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -62,6 +62,7 @@ func TemporaryClone(logger *zap.Logger, dirPath string, branchOrTag string) (str
 	logger.Sugar().Debugf("git %s", strings.Join(args, " "))
 	output, err := exec.Command("git", args...).CombinedOutput()
 	if err != nil {
+		_ = os.RemoveAll(cloneDirPath)
 		return "", fmt.Errorf("git %s had error: %s", strings.Join(args, " "), string(output))
 	}
 	return cloneDirPath, nil
-- 
2.43.0


From d572146bfcb5a9594ee70866ef4c3910dada6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:42 +0000
Subject: [PATCH 25/28] fix: remove temporary files if the protoc commands
 cannot be printed

---
 internal/protoc/compiler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index c6a08d6..2056ace 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -193,6 +193,7 @@ func (c *compiler) ProtocCommands(protoSet *file.ProtoSet) ([]string, error) {
 	// is more for debugging anyways
 	cmdMetas, err := c.getCmdMetas(protoSet)
 	if err != nil {
+		cleanCmdMetas(cmdMetas)
 		return nil, err
 	}
 	cmdMetaStrings := make([]string, 0, len(cmdMetas))
-- 
2.43.0


From bdb08415a8ebf80412deeb5d475d0c9648a9f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:59 +0000
Subject: [PATCH 26/28] fix: give the errors of protoc runs in a fixed order

---
 internal/protoc/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 2056ace..a02adc8 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -31,6 +31,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -157,6 +158,8 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 				errStrings = append(errStrings, errString)
 			}
 		}
+		// the runs finish in any order
+		sort.Strings(errStrings)
 		return nil, errors.New(strings.Join(errStrings, "\n"))
 	}
 	// if we have failures, it does not matter if we have file descriptor sets
-- 
2.43.0


From 7b3208cdb958f9f06639ae6e7710b3bbd9b026bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:00 +0000
Subject: [PATCH 27/28] fix: run protoc for directories in a fixed order

---
 internal/protoc/compiler.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index a02adc8..51b1e92 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -321,7 +321,14 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 	if _, err := downloader.Download(); err != nil {
 		return cmdMetas, err
 	}
-	for dirPath, protoFiles := range protoSet.DirPathToFiles {
+	dirPaths := make([]string, 0, len(protoSet.DirPathToFiles))
+	for dirPath := range protoSet.DirPathToFiles {
+		dirPaths = append(dirPaths, dirPath)
+	}
+	// the commands and what they result in are in a fixed order
+	sort.Strings(dirPaths)
+	for _, dirPath := range dirPaths {
+		protoFiles := protoSet.DirPathToFiles[dirPath]
 		// skip those files not under the directory
 		if !file.IsWithinDir(dirPath, protoSet.DirPath) {
 			continue
-- 
2.43.0


From b52950a795480700f7df7c65046fa4569bc608f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:21 +0000
Subject: [PATCH 28/28] fix: compare enum values with allow_alias by name

The break checker looked at one value per number only: adding an alias could
be reported as a renamed value, and deleting or renaming one could be missed.
---
 internal/breaking/helpers.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/breaking/helpers.go b/internal/breaking/helpers.go
index 8bdd6c8..38fd647 100644
--- a/internal/breaking/helpers.go
+++ b/internal/breaking/helpers.go
@@ -215,10 +215,16 @@ func forEachEnumValuePair(
 		from,
 		to,
 		func(addFailure func(*text.Failure), fromEnum *extract.Enum, toEnum *extract.Enum) error {
-			fromValueNumberToValue := fromEnum.ValueNumberToValue()
+			toValueNameToValue := toEnum.ValueNameToValue()
 			toValueNumberToValue := toEnum.ValueNumberToValue()
-			for fromValueNumber, fromValue := range fromValueNumberToValue {
+			// several values can have the same number with allow_alias, so
+			// this goes over the names
+			for fromValueName, fromValue := range fromEnum.ValueNameToValue() {
+				fromValueNumber := fromValue.ProtoMessage().Number
 				if toValue, ok := toValueNumberToValue[fromValueNumber]; ok {
+					if sameNameValue, ok := toValueNameToValue[fromValueName]; ok && sameNameValue.ProtoMessage().Number == fromValueNumber {
+						toValue = sameNameValue
+					}
 					if err := f(addFailure, fromValue, toValue); err != nil {
 						return err
 					}
-- 
2.43.0

