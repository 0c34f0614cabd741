From ebb42b645b0d35d54ab673be97d3cc25744db9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:52 +0000
Subject: [PATCH 01/47] fix: keep the optional label of proto3 fields when
 formatting

---
 internal/format/main_visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index dfdec19..3e78474 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -140,6 +140,8 @@ func (v *mainVisitor) VisitNormalField(element *proto.NormalField) {
 		} else {
 			prefix = "optional "
 		}
+	} else if element.Optional {
+		prefix = "optional "
 	}
 	if element.Repeated {
 		prefix = "repeated "
-- 
2.43.0


From c448650bf218abf3070b8b186485c106bbed9154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:52 +0000
Subject: [PATCH 02/47] fix: keep the repeated and required labels of groups
 when formatting

---
 internal/format/main_visitor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index 3e78474..c4f60c3 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -264,9 +264,13 @@ func (v *mainVisitor) VisitGroup(element *proto.Group) {
 	v.haveHitNonComment = true
 	v.PComment(element.Comment)
 	prefix := ""
-	// TODO: required and repeated not handled yet, add when handled
-	if element.Optional {
+	switch {
+	case element.Optional:
 		prefix = "optional "
+	case element.Repeated:
+		prefix = "repeated "
+	case element.Required:
+		prefix = "required "
 	}
 	if len(element.Elements) == 0 {
 		v.P(prefix, "group ", element.Name, " = ", element.Sequence, " {}")
-- 
2.43.0


From c51b35c18aaf21917a27fa3aeb259e48f9b003ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:04 +0000
Subject: [PATCH 03/47] fix: keep options and array elements that are empty
 messages when formatting

---
 internal/format/base_visitor.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index b5780fe..d196ebb 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -125,10 +125,12 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 		v.PComment(o.Comment)
 		if isSingleValueLiteral(o.Constant) {
 			// SourceRepresentation() returns an empty string if the literal is empty
-			// if empty, we do not want to print the key or empty value
-			if source := o.Constant.SourceRepresentation(); source != "" {
-				v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = `, source, suffix)
+			// an option set to an empty message is still set, so we have to print it
+			source := o.Constant.SourceRepresentation()
+			if source == "" {
+				source = "{}"
 			}
+			v.PWithInlineComment(o.InlineComment, prefix, o.Name, ` = `, source, suffix)
 		} else if len(o.Constant.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
 			v.Failures = append(
 				v.Failures,
@@ -155,7 +157,12 @@ func (v *baseVisitor) pInnerLiteral(name string, literal proto.Literal, suffix s
 	if isSingleValueLiteral(literal) {
 		// SourceRepresentation() returns an empty string if the literal is empty
 		// if empty, we do not want to print the key or empty value
-		if source := literal.SourceRepresentation(); source != "" {
+		source := literal.SourceRepresentation()
+		if source == "" && name == "" {
+			// an array element that is an empty message still counts
+			source = "{}"
+		}
+		if source != "" {
 			v.P(prefix, source, suffix)
 		}
 	} else if len(literal.Array) > 0 { // both Array and OrderedMap should not be set simultaneously, need more followup with emicklei/proto
-- 
2.43.0


From 1567caa9ecb48294844b635a73b42598a6732fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 04/47] fix: keep the order of repeated options when formatting
 more than a dozen of them

---
 internal/format/base_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/format/base_visitor.go b/internal/format/base_visitor.go
index d196ebb..c9b6e92 100644
--- a/internal/format/base_visitor.go
+++ b/internal/format/base_visitor.go
@@ -108,7 +108,7 @@ func (v *baseVisitor) pOptions(isFieldOption bool, options ...*proto.Option) {
 	if len(options) == 0 {
 		return
 	}
-	sort.Slice(options, func(i int, j int) bool { return options[i].Name < options[j].Name })
+	sort.SliceStable(options, func(i int, j int) bool { return options[i].Name < options[j].Name })
 	prefix := "option "
 	if isFieldOption {
 		prefix = ""
-- 
2.43.0


From f3ba223abb4ebab032392939bd98e360105c6892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 05/47] fix: format options inside groups instead of rejecting
 them

---
 internal/format/main_visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/format/main_visitor.go b/internal/format/main_visitor.go
index c4f60c3..72107d1 100644
--- a/internal/format/main_visitor.go
+++ b/internal/format/main_visitor.go
@@ -113,6 +113,8 @@ func (v *mainVisitor) VisitOption(element *proto.Option) {
 	switch v.parent.(type) {
 	case (*proto.Enum):
 		v.POptions(element)
+	case (*proto.Group):
+		v.POptions(element)
 	case (*proto.Message):
 		v.POptions(element)
 	case (*proto.Oneof):
-- 
2.43.0


From 07d8f7505311a1d69bdd87e966147852259bd1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:36 +0000
Subject: [PATCH 06/47] fix: replace the comment attached to syntax by the file
 header in format --fix

---
 internal/format/first_pass_visitor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index 773687c..ab6b0d7 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -63,8 +63,9 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 		v.P()
 	}
 	if v.Syntax != nil {
-		v.PComment(v.Syntax.Comment)
-		if v.Syntax.Comment != nil {
+		// anything before the syntax declaration is replaced by the file header
+		if v.Syntax.Comment != nil && (v.fix == FixNone || v.fileHeader == "") {
+			v.PComment(v.Syntax.Comment)
 			// special case, we add a newline in between the first comment and syntax
 			// to separate licenses, file descriptions, etc.
 			v.P()
-- 
2.43.0


From a01a6d6255cde02aa7f74de8813c5288b4110f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 07/47] fix: keep the file options that format --fix has no
 value for

---
 internal/format/first_pass_visitor.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/internal/format/first_pass_visitor.go b/internal/format/first_pass_visitor.go
index ab6b0d7..e028390 100644
--- a/internal/format/first_pass_visitor.go
+++ b/internal/format/first_pass_visitor.go
@@ -161,6 +161,22 @@ func (v *firstPassVisitor) Do() []*text.Failure {
 			)
 		}
 	}
+	if v.fix != FixNone && v.Package == nil {
+		// without a package there are no values to derive
+		for _, option := range []*proto.Option{
+			v.goPackageOption,
+			v.javaMultipleFilesOption,
+			v.javaOuterClassnameOption,
+			v.javaPackageOption,
+			v.csharpNamespaceOption,
+			v.objcClassPrefixOption,
+			v.phpNamespaceOption,
+		} {
+			if option != nil {
+				v.Options = append(v.Options, option)
+			}
+		}
+	}
 	if len(v.Options) > 0 {
 		v.POptions(v.Options...)
 		v.P()
@@ -204,9 +220,6 @@ func (v *firstPassVisitor) VisitOption(element *proto.Option) {
 	v.haveHitNonComment = true
 	if v.fix != FixNone {
 		switch element.Name {
-		case "csharp_namespace":
-			v.csharpNamespaceOption = element
-			return
 		case "go_package":
 			v.goPackageOption = element
 			return
@@ -219,6 +232,13 @@ func (v *firstPassVisitor) VisitOption(element *proto.Option) {
 		case "java_package":
 			v.javaPackageOption = element
 			return
+		}
+	}
+	if v.fix == FixV2 {
+		switch element.Name {
+		case "csharp_namespace":
+			v.csharpNamespaceOption = element
+			return
 		case "objc_class_prefix":
 			v.objcClassPrefixOption = element
 			return
-- 
2.43.0


From fccb8ad40c827adf0624670128e71f9816fc1153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 08/47] fix: do not treat a sibling directory that shares a
 name prefix as nested

---
 internal/create/handler.go           |  8 ++------
 internal/exec/runner.go              |  8 ++++----
 internal/lint/lint.go                |  2 +-
 internal/protoc/compiler.go          | 10 ++++------
 internal/settings/config_provider.go |  2 +-
 internal/settings/settings.go        | 10 ++++++++++
 6 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index 6d6115b..447b7a4 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -254,9 +254,7 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 	// note that createDirPath will always be absolute per the spec in
 	// the settings package
 	for createDirPath, basePkg := range config.Create.DirPathToBasePackage {
-		// TODO: cannot do rel right away because it will do ../.. if necessary
-		// strings.HasPrefix is not OS independent however
-		if !strings.HasPrefix(absDirPath, createDirPath) {
+		if !settings.IsPathWithin(absDirPath, createDirPath) {
 			continue
 		}
 		if len(createDirPath) > len(longestCreateDirPath) {
@@ -274,9 +272,7 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 
 	// no package mapping found, do default logic
 
-	// TODO: cannot do rel right away because it will do ../.. if necessary
-	// strings.HasPrefix is not OS independent however
-	if !strings.HasPrefix(absDirPath, config.DirPath) {
+	if !settings.IsPathWithin(absDirPath, config.DirPath) {
 		return defaultPackage, nil
 	}
 	rel, err := filepath.Rel(config.DirPath, absDirPath)
diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 9124bfd..15565ec 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -226,7 +226,7 @@ func (r *runner) Files(args []string) error {
 	var allFiles []string
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !settings.IsPathWithin(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
 		for _, file := range files {
@@ -491,7 +491,7 @@ func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader
 	success := true
 	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !settings.IsPathWithin(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
 		for _, protoFile := range protoFiles {
@@ -797,7 +797,7 @@ func (r *runner) BreakCheck(args []string, gitBranch string, descriptorSetPath s
 		if err != nil {
 			return err
 		}
-		if !strings.HasPrefix(absDirPath, absWorkDirPath) {
+		if !settings.IsPathWithin(absDirPath, absWorkDirPath) {
 			return fmt.Errorf("input directory must be within working directory: %s", relDirPath)
 		}
 
@@ -1199,7 +1199,7 @@ func (r *runner) printLinters(config settings.LintConfig, linters []lint.Linter)
 func (r *runner) printAffectedFiles(meta *meta) {
 	for dirPath, files := range meta.ProtoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, meta.ProtoSet.DirPath) {
+		if !settings.IsPathWithin(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
 		for _, file := range files {
diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 7d9634b..46962d3 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -429,7 +429,7 @@ func GetDirPathToDescriptors(protoSet *file.ProtoSet, absolutePaths bool) (map[s
 	dirPathToDescriptors := make(map[string][]*FileDescriptor, len(protoSet.DirPathToFiles))
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !settings.IsPathWithin(dirPath, protoSet.DirPath) {
 			continue
 		}
 		descriptors := make([]*FileDescriptor, len(protoFiles))
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 9a379bf..cc11e8c 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -215,7 +215,7 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 		} else {
 			for dirPath := range protoSet.DirPathToFiles {
 				// skip those files not under the directory
-				if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+				if !settings.IsPathWithin(dirPath, protoSet.DirPath) {
 					continue
 				}
 				relOutputFilePath, err := getRelOutputFilePath(protoSet, dirPath, genPlugin.FileSuffix)
@@ -315,7 +315,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 	}
 	for dirPath, protoFiles := range protoSet.DirPathToFiles {
 		// skip those files not under the directory
-		if !strings.HasPrefix(dirPath, protoSet.DirPath) {
+		if !settings.IsPathWithin(dirPath, protoSet.DirPath) {
 			continue
 		}
 		// you want your proto files to be in at least one of the -I directories
@@ -588,8 +588,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 	includedConfigDirPath := false
 	for _, includePath := range config.Compile.IncludePaths {
 		includes = append(includes, includePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, includePath) {
+		if settings.IsPathWithin(dirPath, includePath) {
 			fileInIncludePath = true
 		}
 		if includePath == configDirPath {
@@ -602,8 +601,7 @@ func getIncludes(downloader Downloader, config settings.Config, dirPath string,
 			return nil, err
 		}
 		includes = append(includes, wellKnownTypesIncludePath)
-		// TODO: not exactly platform independent
-		if strings.HasPrefix(dirPath, wellKnownTypesIncludePath) {
+		if settings.IsPathWithin(dirPath, wellKnownTypesIncludePath) {
 			fileInIncludePath = true
 		}
 	}
diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 616e7a8..9e953f4 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -416,7 +416,7 @@ func getExcludePrefixes(excludes []string, dirPath string) ([]string, error) {
 		if excludePrefix == dirPath {
 			return nil, fmt.Errorf("cannot exclude directory of config file: %s", dirPath)
 		}
-		if !strings.HasPrefix(excludePrefix, dirPath) {
+		if !IsPathWithin(excludePrefix, dirPath) {
 			return nil, fmt.Errorf("cannot exclude directory outside of config file directory %s: %s", dirPath, excludePrefix)
 		}
 		excludePrefixes = append(excludePrefixes, excludePrefix)
diff --git a/internal/settings/settings.go b/internal/settings/settings.go
index 42b3b26..5c37c41 100644
--- a/internal/settings/settings.go
+++ b/internal/settings/settings.go
@@ -22,6 +22,7 @@ package settings
 
 import (
 	"fmt"
+	"os"
 	"strconv"
 	"strings"
 
@@ -415,3 +416,12 @@ func ConfigProviderWithDevelMode() ConfigProviderOption {
 func NewConfigProvider(options ...ConfigProviderOption) ConfigProvider {
 	return newConfigProvider(options...)
 }
+
+// IsPathWithin returns true if path is dirPath or lies below dirPath.
+//
+// Both paths are expected to be absolute and clean. Only whole path components
+// are matched, ie /a/bar is not within /a/b.
+func IsPathWithin(path string, dirPath string) bool {
+	separator := string(os.PathSeparator)
+	return path == dirPath || strings.HasPrefix(path, strings.TrimSuffix(dirPath, separator)+separator)
+}
-- 
2.43.0


From 2a1427e0540990c880210d866597312b23848264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 09/47] fix: process files below directories whose name starts
 with two dots

---
 internal/file/proto_set_provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index bd33599..f8dfb80 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -321,7 +321,7 @@ func validateIsRel(base string, dir string) error {
 	if rel == "" {
 		return fmt.Errorf("could not make %s relative to %s, this is a system error", base, dir)
 	}
-	if strings.HasPrefix(rel, "..") {
+	if rel == ".." || strings.HasPrefix(rel, ".."+string(os.PathSeparator)) {
 		return fmt.Errorf("could not make %s within %s, got %s, this is a system error", base, dir, rel)
 	}
 	return nil
-- 
2.43.0


From 18cb9547cd909f9e9668251eba75800aac2c3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 10/47] fix: report protoc failures on the path relative to the
 working directory

---
 internal/protoc/compiler.go | 56 ++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index cc11e8c..cc2d00f 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -383,6 +383,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 				protoSet:   protoSet,
 				dirPath:    dirPath,
 				protoFiles: protoFiles,
+				includes:   includes,
 				// used for cleaning up the cmdMeta after everything is done
 				descriptorSetTempFilePath: descriptorSetTempFilePath,
 			})
@@ -401,6 +402,7 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 				protoSet:   protoSet,
 				dirPath:    dirPath,
 				protoFiles: protoFiles,
+				includes:   includes,
 			})
 		}
 	}
@@ -836,43 +838,32 @@ func (c *compiler) handleUninterpretedProtocLine(protocLine string) *text.Failur
 	}
 }
 
-// protoc does weird things with the outputted filename depending
-// on what is on the include path, it finds the highest directory
-// that the file is on apparently
-// -I etc etc/testdata/foo.proto will result in testdata/foo.proto
-// this makes it consistent if possible
-// TODO: if the file name is not in the given compile command, ie
-// if it is imported from another directory, we do not handle this,
-// do we want to do a full search of all files in the ProtoSet?
+// protoc outputs filenames relative to the include directory it found
+// the file in, so -I etc etc/testdata/foo.proto will result in testdata/foo.proto
+// this makes the filename relative to the working directory as for all other
+// failures, also for files that are not in the given compile command, ie
+// those that are imported from another directory
 //
-// this does getDisplayFilePath but returns match if there is an error
+// if the file is not in any of the include directories, this returns match
 func bestFilePath(cmdMeta *cmdMeta, match string) string {
-	displayFilePath, err := getDisplayFilePath(cmdMeta, match)
-	if err != nil {
-		return match
-	}
-	return displayFilePath
-}
-
-// this does bestFilePath but if there is not exactly one match,
-// returns an error
-func getDisplayFilePath(cmdMeta *cmdMeta, match string) (string, error) {
-	matchingFile := ""
-	for _, protoFile := range cmdMeta.protoFiles {
-		// if the suffix is the file name, this is a better display name
-		// we don't handle the reverse case, ie display path is a suffix of match
-		if strings.HasSuffix(protoFile.DisplayPath, match) {
-			// if there is more than one match, we don't know what to do
-			if matchingFile != "" {
-				return "", fmt.Errorf("duplicate matching file: %s", matchingFile)
+	for _, include := range cmdMeta.includes {
+		// protoc uses the first include directory that has the file as well
+		filePath := filepath.Join(include, match)
+		if _, err := os.Stat(filePath); err != nil {
+			continue
+		}
+		for _, protoFile := range cmdMeta.protoFiles {
+			if protoFile.Path == filePath {
+				return protoFile.DisplayPath
 			}
-			matchingFile = protoFile.DisplayPath
 		}
+		displayFilePath, err := filepath.Rel(cmdMeta.protoSet.WorkDirPath, filePath)
+		if err != nil {
+			return match
+		}
+		return displayFilePath
 	}
-	if matchingFile == "" {
-		return "", fmt.Errorf("no matching file for %s", match)
-	}
-	return matchingFile, nil
+	return match
 }
 
 func getFileDescriptorSet(cmdMeta *cmdMeta) (*FileDescriptorSet, error) {
@@ -925,6 +916,7 @@ type cmdMeta struct {
 	protoSet                  *file.ProtoSet
 	dirPath                   string
 	protoFiles                []*file.ProtoFile
+	includes                  []string
 	descriptorSetTempFilePath string
 }
 
-- 
2.43.0


From f9b5f1e10f0ac6ca5abdc91651f09172237c11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 11/47] fix: report the file and position of protoc failures
 whose message contains colons

---
 internal/protoc/compiler.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index cc2d00f..b82065a 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -58,8 +58,12 @@ var (
 	extraImport380Regexp = regexp.MustCompile(`^(.*):(\d+):(\d+): warning: Import (.*) but not used.$`)
 	extraImportRegexp    = regexp.MustCompile("^(.*): warning: Import (.*) but not used.$")
 	// protoc started printing line and column information in 3.8.0
-	recursiveImport380Regexp    = regexp.MustCompile(`^(.*):(\d+):(\d+): File recursively imports itself: (.*)$`)
-	recursiveImportRegexp       = regexp.MustCompile("^(.*): File recursively imports itself: (.*)$")
+	recursiveImport380Regexp = regexp.MustCompile(`^(.*):(\d+):(\d+): File recursively imports itself: (.*)$`)
+	recursiveImportRegexp    = regexp.MustCompile("^(.*): File recursively imports itself: (.*)$")
+	// protoc messages can contain colons themselves
+	messageWithColonsRegexp = regexp.MustCompile(`^(.*?):(\d+):(\d+): (.*:.*)$`)
+	// some protoc messages have no line and column information
+	fileMessageRegexp           = regexp.MustCompile(`^([^:]+\.proto): (.*)$`)
 	directoryDoesNotExistRegexp = regexp.MustCompile("^(.*): warning: directory does not exist.$")
 	fileNotFoundRegexp          = regexp.MustCompile("^(.*): File not found.$")
 	// protoc outputs both this line and fileNotFound, so we end up ignoring this one
@@ -722,6 +726,23 @@ func (c *compiler) parseProtocLine(cmdMeta *cmdMeta, protocLine string) *text.Fa
 				Message:  fmt.Sprintf(`File recursively imports itself %s.`, matches[4]),
 			}
 		}
+		// any other message with line and column information that contains colons
+		if matches := messageWithColonsRegexp.FindStringSubmatch(protocLine); len(matches) > 4 {
+			line, err := strconv.Atoi(matches[2])
+			if err != nil {
+				return c.handleUninterpretedProtocLine(protocLine)
+			}
+			column, err := strconv.Atoi(matches[3])
+			if err != nil {
+				return c.handleUninterpretedProtocLine(protocLine)
+			}
+			return &text.Failure{
+				Filename: bestFilePath(cmdMeta, matches[1]),
+				Line:     line,
+				Column:   column,
+				Message:  matches[4],
+			}
+		}
 		if matches := recursiveImportRegexp.FindStringSubmatch(protocLine); len(matches) > 2 {
 			return &text.Failure{
 				Filename: bestFilePath(cmdMeta, matches[1]),
@@ -802,6 +823,13 @@ func (c *compiler) parseProtocLine(cmdMeta *cmdMeta, protocLine string) *text.Fa
 				Message:  `The first enum value must be zero in proto3.`,
 			}
 		}
+		// any other message about a file without line and column information
+		if matches := fileMessageRegexp.FindStringSubmatch(protocLine); len(matches) > 2 {
+			return &text.Failure{
+				Filename: bestFilePath(cmdMeta, matches[1]),
+				Message:  matches[2],
+			}
+		}
 		// TODO: plugins can output to stderr as well and we have no way to redirect the output
 		// this will error if there are any logging line from a plugin
 		// I would prefer to error so that we signal that we don't know what the line is
-- 
2.43.0


From e8c2aeb63a980ea4c4f39614844cedcba2daf32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:49 +0000
Subject: [PATCH 12/47] fix: fail when a signal interrupts protoc

---
 internal/protoc/compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index b82065a..f7b86b0 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -257,6 +257,7 @@ func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
 	sig := make(chan os.Signal, 1)
 	done := make(chan error, 1)
 	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
+	defer signal.Stop(sig)
 
 	go func() {
 		done <- cmdMeta.execCmd.Run()
@@ -271,7 +272,10 @@ func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
 			zap.String("command", cmdMeta.String()),
 			zap.String("signal", s.String()),
 		)
-		return nil, cmdMeta.execCmd.Process.Kill()
+		if cmdMeta.execCmd.Process != nil {
+			_ = cmdMeta.execCmd.Process.Kill()
+		}
+		return nil, fmt.Errorf("received signal %v while running protoc", s)
 	case runErr = <-done:
 		// Exit errors are ok, we can probably parse them into text.Failures
 		// if not an exec.ExitError, short circuit.
-- 
2.43.0


From 802f4e60acd15c12a9471ae240e6aa923a000038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:12 +0000
Subject: [PATCH 13/47] fix: visit directories and list go modifiers in a
 deterministic order

---
 internal/exec/runner.go     |  4 ++--
 internal/file/file.go       | 11 +++++++++++
 internal/protoc/compiler.go | 29 +++++++++++++++++++----------
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 15565ec..bbc3797 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -489,12 +489,12 @@ func (r *runner) Format(args []string, overwrite, diffMode, lintMode, fixFlag bo
 
 func (r *runner) format(overwrite, diffMode, lintMode bool, fix int, fileHeader string, javaPackagePrefix string, meta *meta) error {
 	success := true
-	for dirPath, protoFiles := range meta.ProtoSet.DirPathToFiles {
+	for _, dirPath := range meta.ProtoSet.SortedDirPaths() {
 		// skip those files not under the directory
 		if !settings.IsPathWithin(dirPath, meta.ProtoSet.DirPath) {
 			continue
 		}
-		for _, protoFile := range protoFiles {
+		for _, protoFile := range meta.ProtoSet.DirPathToFiles[dirPath] {
 			fileSuccess, err := r.formatFile(overwrite, diffMode, lintMode, fix, fileHeader, javaPackagePrefix, meta, protoFile)
 			if err != nil {
 				return err
diff --git a/internal/file/file.go b/internal/file/file.go
index 5ba949d..a365728 100644
--- a/internal/file/file.go
+++ b/internal/file/file.go
@@ -23,6 +23,7 @@ package file
 import (
 	"fmt"
 	"path/filepath"
+	"sort"
 	"time"
 
 	"github.com/uber/prototool/internal/settings"
@@ -58,6 +59,16 @@ type ProtoSet struct {
 	Config settings.Config
 }
 
+// SortedDirPaths returns the sorted directory paths of DirPathToFiles.
+func (p *ProtoSet) SortedDirPaths() []string {
+	dirPaths := make([]string, 0, len(p.DirPathToFiles))
+	for dirPath := range p.DirPathToFiles {
+		dirPaths = append(dirPaths, dirPath)
+	}
+	sort.Strings(dirPaths)
+	return dirPaths
+}
+
 // ProtoFile represents a .proto file.
 type ProtoFile struct {
 	// The path to the .proto file.
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index f7b86b0..5cdfac0 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -31,6 +31,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -321,7 +322,8 @@ func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, re
 	if _, err := downloader.Download(); err != nil {
 		return cmdMetas, err
 	}
-	for dirPath, protoFiles := range protoSet.DirPathToFiles {
+	for _, dirPath := range protoSet.SortedDirPaths() {
+		protoFiles := protoSet.DirPathToFiles[dirPath]
 		// skip those files not under the directory
 		if !settings.IsPathWithin(dirPath, protoSet.DirPath) {
 			continue
@@ -571,9 +573,7 @@ func getPluginFlagSetProtoFlags(protoSet *file.ProtoSet, dirPath string, genPlug
 			}
 		}
 	}
-	for key, value := range modifiers {
-		goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, value))
-	}
+	goFlags = appendGoModifiers(goFlags, modifiers)
 	if protoSet.Config.Compile.IncludeWellKnownTypes {
 		var wktModifiers map[string]string
 		// one of these two must be true, we validate this above
@@ -582,16 +582,25 @@ func getPluginFlagSetProtoFlags(protoSet *file.ProtoSet, dirPath string, genPlug
 		} else if genPlugin.Type.IsGogo() {
 			wktModifiers = wkt.FilenameToGogoModifierMap
 		}
-		for key, value := range wktModifiers {
-			goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, value))
-		}
-	}
-	for key, value := range genGoPluginOptions.ExtraModifiers {
-		goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, value))
+		goFlags = appendGoModifiers(goFlags, wktModifiers)
 	}
+	goFlags = appendGoModifiers(goFlags, genGoPluginOptions.ExtraModifiers)
 	return strings.Join(goFlags, ","), nil
 }
 
+// appendGoModifiers appends the Mfile=package values in a deterministic order
+func appendGoModifiers(goFlags []string, modifiers map[string]string) []string {
+	keys := make([]string, 0, len(modifiers))
+	for key := range modifiers {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	for _, key := range keys {
+		goFlags = append(goFlags, fmt.Sprintf("M%s=%s", key, modifiers[key]))
+	}
+	return goFlags
+}
+
 func getIncludes(downloader Downloader, config settings.Config, dirPath string, configDirPath string) ([]string, error) {
 	var includes []string
 	fileInIncludePath := false
-- 
2.43.0


From f600466572d94717e96c2398d8ec85089b62e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 14/47] fix: remove the temporary directory of a failed git
 clone

---
 internal/git/git.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/git/git.go b/internal/git/git.go
index fbf3fbd..1ada68b 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -62,6 +62,7 @@ func TemporaryClone(logger *zap.Logger, dirPath string, branchOrTag string) (str
 	logger.Sugar().Debugf("git %s", strings.Join(args, " "))
 	output, err := exec.Command("git", args...).CombinedOutput()
 	if err != nil {
+		_ = os.RemoveAll(cloneDirPath)
 		return "", fmt.Errorf("git %s had error: %s", strings.Join(args, " "), string(output))
 	}
 	return cloneDirPath, nil
-- 
2.43.0


From 552f10b56ee32a6fdc2c886b3ecc9cf069717f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 15/47] fix: compare all names of an enum value that has
 aliases

---
 .../breaking/check_enum_values_same_name.go   | 58 ++++++++++++++++---
 internal/breaking/helpers.go                  | 29 ----------
 2 files changed, 51 insertions(+), 36 deletions(-)

diff --git a/internal/breaking/check_enum_values_same_name.go b/internal/breaking/check_enum_values_same_name.go
index 69a70dd..8e1bbd2 100644
--- a/internal/breaking/check_enum_values_same_name.go
+++ b/internal/breaking/check_enum_values_same_name.go
@@ -21,20 +21,34 @@
 package breaking
 
 import (
+	"sort"
+
 	"github.com/uber/prototool/internal/extract"
 	"github.com/uber/prototool/internal/text"
 )
 
 func checkEnumValuesSameName(addFailure func(*text.Failure), from *extract.PackageSet, to *extract.PackageSet) error {
-	return forEachEnumValuePair(addFailure, from, to, checkEnumValuesSameNameEnumValue)
+	return forEachEnumPair(addFailure, from, to, checkEnumValuesSameNameEnum)
 }
 
-func checkEnumValuesSameNameEnumValue(addFailure func(*text.Failure), from *extract.EnumValue, to *extract.EnumValue) error {
-	fromName := from.ProtoMessage().Name
-	toName := to.ProtoMessage().Name
-	if fromName != toName {
-		addFailure(newEnumValuesSameNameFailure(from.Enum().FullyQualifiedName(), from.ProtoMessage().Number, fromName, toName))
-		return nil
+// there can be more than one name for a number if allow_alias is set
+func checkEnumValuesSameNameEnum(addFailure func(*text.Failure), from *extract.Enum, to *extract.Enum) error {
+	fromNumberToNames := getEnumValueNumberToSortedNames(from)
+	toNumberToNames := getEnumValueNumberToSortedNames(to)
+	for number, fromNames := range fromNumberToNames {
+		toNames, ok := toNumberToNames[number]
+		if !ok {
+			// checkEnumValuesNotDeleted will check this
+			continue
+		}
+		newNames := getStringsNotIn(toNames, fromNames)
+		for _, fromName := range getStringsNotIn(fromNames, toNames) {
+			toName := toNames[0]
+			if len(newNames) > 0 {
+				toName = newNames[0]
+			}
+			addFailure(newEnumValuesSameNameFailure(from.FullyQualifiedName(), number, fromName, toName))
+		}
 	}
 	return nil
 }
@@ -42,3 +56,33 @@ func checkEnumValuesSameNameEnumValue(addFailure func(*text.Failure), from *extr
 func newEnumValuesSameNameFailure(enumName string, valueNumber int32, fromName string, toName string) *text.Failure {
 	return newTextFailuref(`Enum value "%d" on enum %q changed from %q to %q.`, valueNumber, enumName, fromName, toName)
 }
+
+func getEnumValueNumberToSortedNames(enum *extract.Enum) map[int32][]string {
+	numberToNames := make(map[int32][]string)
+	for name, value := range enum.ValueNameToValue() {
+		number := value.ProtoMessage().Number
+		numberToNames[number] = append(numberToNames[number], name)
+	}
+	for _, names := range numberToNames {
+		sort.Strings(names)
+	}
+	return numberToNames
+}
+
+// getStringsNotIn returns the elements of one that are not in two
+func getStringsNotIn(one []string, two []string) []string {
+	var result []string
+	for _, s := range one {
+		found := false
+		for _, t := range two {
+			if s == t {
+				found = true
+				break
+			}
+		}
+		if !found {
+			result = append(result, s)
+		}
+	}
+	return result
+}
diff --git a/internal/breaking/helpers.go b/internal/breaking/helpers.go
index 8bdd6c8..b872d7d 100644
--- a/internal/breaking/helpers.go
+++ b/internal/breaking/helpers.go
@@ -200,35 +200,6 @@ func forEachEnumPairInternal(
 	return nil
 }
 
-func forEachEnumValuePair(
-	addFailure func(*text.Failure),
-	from *extract.PackageSet,
-	to *extract.PackageSet,
-	f func(
-		func(*text.Failure),
-		*extract.EnumValue,
-		*extract.EnumValue,
-	) error,
-) error {
-	return forEachEnumPair(
-		addFailure,
-		from,
-		to,
-		func(addFailure func(*text.Failure), fromEnum *extract.Enum, toEnum *extract.Enum) error {
-			fromValueNumberToValue := fromEnum.ValueNumberToValue()
-			toValueNumberToValue := toEnum.ValueNumberToValue()
-			for fromValueNumber, fromValue := range fromValueNumberToValue {
-				if toValue, ok := toValueNumberToValue[fromValueNumber]; ok {
-					if err := f(addFailure, fromValue, toValue); err != nil {
-						return err
-					}
-				}
-			}
-			return nil
-		},
-	)
-}
-
 func forEachServicePair(
 	addFailure func(*text.Failure),
 	from *extract.PackageSet,
-- 
2.43.0


From 5d58d631c33b9b9f65f10c30c4e041ae2bf4f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 16/47] fix: keep extensions apart from the message they extend
 in lint rules about messages

---
 ...ck_messages_have_comments_except_request_response_types.go | 4 ++++
 ...es_have_sentence_comments_except_request_response_types.go | 4 ++++
 .../check_messages_not_empty_except_request_response_types.go | 4 ++++
 internal/lint/check_request_response_types_after_service.go   | 4 ++++
 internal/lint/check_request_response_types_in_same_file.go    | 4 ++++
 internal/lint/check_request_response_types_only_in_file.go    | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/internal/lint/check_messages_have_comments_except_request_response_types.go b/internal/lint/check_messages_have_comments_except_request_response_types.go
index bb9d01a..498b93f 100644
--- a/internal/lint/check_messages_have_comments_except_request_response_types.go
+++ b/internal/lint/check_messages_have_comments_except_request_response_types.go
@@ -57,6 +57,10 @@ func (v *messagesHaveCommentsExceptRequestResponseTypesVisitor) VisitMessage(mes
 		child.Accept(v)
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
+	// an extension declares no message, and shares its name with the extended one
+	if message.IsExtend {
+		return
+	}
 
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
diff --git a/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go b/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
index 41e6a46..e95c769 100644
--- a/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
+++ b/internal/lint/check_messages_have_sentence_comments_except_request_response_types.go
@@ -57,6 +57,10 @@ func (v *messagesHaveSentenceCommentsExceptRequestResponseTypesVisitor) VisitMes
 		child.Accept(v)
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
+	// an extension declares no message, and shares its name with the extended one
+	if message.IsExtend {
+		return
+	}
 
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
diff --git a/internal/lint/check_messages_not_empty_except_request_response_types.go b/internal/lint/check_messages_not_empty_except_request_response_types.go
index 7804315..8b08373 100644
--- a/internal/lint/check_messages_not_empty_except_request_response_types.go
+++ b/internal/lint/check_messages_not_empty_except_request_response_types.go
@@ -66,6 +66,10 @@ func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitMessage(message
 	}
 	v.curFieldCount = oldFieldCount
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
+	// an extension declares no message, and shares its name with the extended one
+	if message.IsExtend {
+		return
+	}
 
 	if v.messageNameToWrapper == nil {
 		v.messageNameToWrapper = make(map[string]*messagesNotEmptyExceptRequestResponseTypesWrapper)
diff --git a/internal/lint/check_request_response_types_after_service.go b/internal/lint/check_request_response_types_after_service.go
index 63d1401..16e8e0e 100644
--- a/internal/lint/check_request_response_types_after_service.go
+++ b/internal/lint/check_request_response_types_after_service.go
@@ -50,6 +50,10 @@ func (v *requestResponseTypesAfterServiceVisitor) OnStart(*FileDescriptor) error
 }
 
 func (v *requestResponseTypesAfterServiceVisitor) VisitMessage(message *proto.Message) {
+	// an extension declares no message, and shares its name with the extended one
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
diff --git a/internal/lint/check_request_response_types_in_same_file.go b/internal/lint/check_request_response_types_in_same_file.go
index f872894..e1aa275 100644
--- a/internal/lint/check_request_response_types_in_same_file.go
+++ b/internal/lint/check_request_response_types_in_same_file.go
@@ -58,6 +58,10 @@ func (v *requestResponseTypesInSameFileVisitor) VisitMessage(message *proto.Mess
 		child.Accept(v)
 	}
 	v.nestedMessageNames = v.nestedMessageNames[:len(v.nestedMessageNames)-1]
+	// an extension declares no message, and shares its name with the extended one
+	if message.IsExtend {
+		return
+	}
 
 	if v.messageTypes == nil {
 		v.messageTypes = make(map[string]struct{})
diff --git a/internal/lint/check_request_response_types_only_in_file.go b/internal/lint/check_request_response_types_only_in_file.go
index 7c2433f..a41c5c2 100644
--- a/internal/lint/check_request_response_types_only_in_file.go
+++ b/internal/lint/check_request_response_types_only_in_file.go
@@ -59,6 +59,10 @@ func (v *requestResponseTypesOnlyInFileVisitor) VisitEnum(enum *proto.Enum) {
 }
 
 func (v *requestResponseTypesOnlyInFileVisitor) VisitMessage(message *proto.Message) {
+	// an extension declares no message, and shares its name with the extended one
+	if message.IsExtend {
+		return
+	}
 	if v.messageNameToMessage == nil {
 		v.messageNameToMessage = make(map[string]*proto.Message)
 	}
-- 
2.43.0


From 66db0b9798f64330d8c9680d39469a74839c853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 17/47] fix: do not report a message whose only field is a
 group as empty

---
 .../check_messages_not_empty_except_request_response_types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/lint/check_messages_not_empty_except_request_response_types.go b/internal/lint/check_messages_not_empty_except_request_response_types.go
index 8b08373..a3003a0 100644
--- a/internal/lint/check_messages_not_empty_except_request_response_types.go
+++ b/internal/lint/check_messages_not_empty_except_request_response_types.go
@@ -99,6 +99,10 @@ func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitMapField(field
 	v.curFieldCount++
 }
 
+func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitGroup(group *proto.Group) {
+	v.curFieldCount++
+}
+
 func (v *messagesNotEmptyExceptRequestResponseTypesVisitor) VisitService(service *proto.Service) {
 	for _, child := range service.Elements {
 		child.Accept(v)
-- 
2.43.0


From 4d08e43872e625dae3e93eec1bf27693e7393345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 18/47] fix: do not crash on a google.api.http option outside
 of an rpc

---
 internal/lint/check_rpc_options_no_google_api_http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lint/check_rpc_options_no_google_api_http.go b/internal/lint/check_rpc_options_no_google_api_http.go
index c5d7b81..4bce476 100644
--- a/internal/lint/check_rpc_options_no_google_api_http.go
+++ b/internal/lint/check_rpc_options_no_google_api_http.go
@@ -67,7 +67,7 @@ func (v *rpcOptionsNoGoogleAPIHTTPVisitor) VisitRPC(rpc *proto.RPC) {
 }
 
 func (v *rpcOptionsNoGoogleAPIHTTPVisitor) VisitOption(option *proto.Option) {
-	if v.rpc != nil && strings.HasPrefix(option.Name, "(google.api.http)") || strings.HasPrefix(option.Name, "(.google.api.http)") {
+	if v.rpc != nil && (strings.HasPrefix(option.Name, "(google.api.http)") || strings.HasPrefix(option.Name, "(.google.api.http)")) {
 		v.AddFailuref(v.rpc.Comment, option.Position, `Option "google.api.http" is not allowed. This option signifies HTTP/REST usage, use the RPC framework instead.`)
 	}
 }
-- 
2.43.0


From 9d3ee701d1e1ab7d14c3581500e6ee12d22b0934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 19/47] fix: recognize Well-Known Types written with a leading
 dot in lint rules

---
 internal/lint/check_message_fields_duration.go | 2 +-
 internal/lint/check_message_fields_time.go     | 2 +-
 internal/lint/check_wkt_duration_suffix.go     | 2 +-
 internal/lint/check_wkt_timestamp_suffix.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/lint/check_message_fields_duration.go b/internal/lint/check_message_fields_duration.go
index 81785cd..28fa63c 100644
--- a/internal/lint/check_message_fields_duration.go
+++ b/internal/lint/check_message_fields_duration.go
@@ -64,7 +64,7 @@ func (v messageFieldsDurationVisitor) VisitOneofField(field *proto.OneOfField) {
 // no map fields on purpose
 
 func (v messageFieldsDurationVisitor) visitField(field *proto.Field) {
-	if strings.Contains(field.Name, "duration") && field.Type != "google.protobuf.Duration" {
+	if strings.Contains(field.Name, "duration") && strings.TrimPrefix(field.Type, ".") != "google.protobuf.Duration" {
 		v.AddFailuref(field.Position, `Field %q must be a google.protobuf.Duration.`, field.Name)
 	}
 }
diff --git a/internal/lint/check_message_fields_time.go b/internal/lint/check_message_fields_time.go
index 9fa2879..6da8b78 100644
--- a/internal/lint/check_message_fields_time.go
+++ b/internal/lint/check_message_fields_time.go
@@ -64,7 +64,7 @@ func (v messageFieldsTimeVisitor) VisitOneofField(field *proto.OneOfField) {
 // no map fields on purpose
 
 func (v messageFieldsTimeVisitor) visitField(field *proto.Field) {
-	if strings.Contains(field.Name, "time") && field.Type != "google.protobuf.Timestamp" {
+	if strings.Contains(field.Name, "time") && strings.TrimPrefix(field.Type, ".") != "google.protobuf.Timestamp" {
 		v.AddFailuref(field.Position, `Field %q must be a google.protobuf.Timestamp.`, field.Name)
 	}
 }
diff --git a/internal/lint/check_wkt_duration_suffix.go b/internal/lint/check_wkt_duration_suffix.go
index be350fd..c93300a 100644
--- a/internal/lint/check_wkt_duration_suffix.go
+++ b/internal/lint/check_wkt_duration_suffix.go
@@ -62,7 +62,7 @@ func (v wktDurationSuffixVisitor) VisitOneofField(field *proto.OneOfField) {
 }
 
 func (v wktDurationSuffixVisitor) visitField(field *proto.Field) {
-	if field.Type == "google.protobuf.Duration" && !(field.Name == "duration" || strings.HasSuffix(field.Name, "_duration")) {
+	if strings.TrimPrefix(field.Type, ".") == "google.protobuf.Duration" && !(field.Name == "duration" || strings.HasSuffix(field.Name, "_duration")) {
 		v.AddFailuref(field.Position, `Field %q of type "google.protobuf.Duration" must be "duration" or end in "_duration".`, field.Name)
 	}
 }
diff --git a/internal/lint/check_wkt_timestamp_suffix.go b/internal/lint/check_wkt_timestamp_suffix.go
index 4fbfb29..3bfb77d 100644
--- a/internal/lint/check_wkt_timestamp_suffix.go
+++ b/internal/lint/check_wkt_timestamp_suffix.go
@@ -62,7 +62,7 @@ func (v wktTimestampSuffixVisitor) VisitOneofField(field *proto.OneOfField) {
 }
 
 func (v wktTimestampSuffixVisitor) visitField(field *proto.Field) {
-	if field.Type == "google.protobuf.Timestamp" && !(field.Name == "time" || strings.HasSuffix(field.Name, "_time")) {
+	if strings.TrimPrefix(field.Type, ".") == "google.protobuf.Timestamp" && !(field.Name == "time" || strings.HasSuffix(field.Name, "_time")) {
 		v.AddFailuref(field.Position, `Field %q of type "google.protobuf.Timestamp" must be "time" or end in "_time".`, field.Name)
 	}
 }
-- 
2.43.0


From 9c247043802e2632c419214e917d51bb962de839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:10 +0000
Subject: [PATCH 20/47] fix: apply lint ignores that name the directory of the
 configuration file

---
 internal/lint/lint.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 46962d3..0417140 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -521,7 +521,13 @@ func shouldIgnore(linter Linter, descriptor *FileDescriptor, ignoreIDToFilePaths
 	if !ok {
 		return false, nil
 	}
-	return file.IsExcluded(filePath, descriptor.ProtoSet.Config.DirPath, ignoreFilePaths...), nil
+	// unlike excludes, ignores can name the directory of the config file itself
+	for _, ignoreFilePath := range ignoreFilePaths {
+		if settings.IsPathWithin(filePath, ignoreFilePath) {
+			return true, nil
+		}
+	}
+	return false, nil
 }
 
 func checkLintID(lintID string) error {
-- 
2.43.0


From c32ad2714dd1a9cffc120d9d46666fa8fb3d4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:42 +0000
Subject: [PATCH 21/47] fix: use the configuration of the given directory when
 it has no Protobuf files

---
 internal/file/proto_set_provider.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index f8dfb80..8a638ed 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -109,7 +109,7 @@ func (c *protoSetProvider) getMultipleForDir(workDirPath string, dirPath string)
 		return nil, err
 	}
 	dirPathToProtoFiles := getDirPathToProtoFiles(protoFiles)
-	protoSets, err := c.getBaseProtoSets(workDirPath, dirPathToProtoFiles)
+	protoSets, err := c.getBaseProtoSets(workDirPath, absDirPath, dirPathToProtoFiles)
 	if err != nil {
 		return nil, err
 	}
@@ -126,9 +126,9 @@ func (c *protoSetProvider) getMultipleForDir(workDirPath string, dirPath string)
 	return protoSets, nil
 }
 
-func (c *protoSetProvider) getBaseProtoSets(absWorkDirPath string, dirPathToProtoFiles map[string][]*ProtoFile) ([]*ProtoSet, error) {
+func (c *protoSetProvider) getBaseProtoSets(absWorkDirPath string, absDirPath string, dirPathToProtoFiles map[string][]*ProtoFile) ([]*ProtoSet, error) {
 	if len(dirPathToProtoFiles) == 0 {
-		protoSet, err := c.getDefaultBaseProtoSet(absWorkDirPath)
+		protoSet, err := c.getDefaultBaseProtoSet(absWorkDirPath, absDirPath)
 		if err != nil {
 			return nil, err
 		}
@@ -185,12 +185,12 @@ func (c *protoSetProvider) getBaseProtoSets(absWorkDirPath string, dirPathToProt
 	return protoSets, nil
 }
 
-// getDefaultBaseProtoSet gets a ProtoSet with no files for the given working directory path.
-func (c *protoSetProvider) getDefaultBaseProtoSet(absWorkDirPath string) (*ProtoSet, error) {
+// getDefaultBaseProtoSet gets a ProtoSet with no files for the given directory path.
+func (c *protoSetProvider) getDefaultBaseProtoSet(absWorkDirPath string, absDirPath string) (*ProtoSet, error) {
 	protoSet := &ProtoSet{
 		DirPathToFiles: make(map[string][]*ProtoFile),
 	}
-	config, err := c.getConfig(absWorkDirPath)
+	config, err := c.getConfig(absWorkDirPath, absDirPath)
 	if err != nil {
 		return nil, err
 	}
@@ -198,11 +198,11 @@ func (c *protoSetProvider) getDefaultBaseProtoSet(absWorkDirPath string) (*Proto
 	return protoSet, nil
 }
 
-func (c *protoSetProvider) getConfig(absDirPath string) (settings.Config, error) {
+func (c *protoSetProvider) getConfig(absWorkDirPath string, absDirPath string) (settings.Config, error) {
 	if c.configData == "" {
 		return c.configProvider.GetForDir(absDirPath)
 	}
-	return c.configProvider.GetForData(absDirPath, c.configData)
+	return c.configProvider.GetForData(absWorkDirPath, c.configData)
 }
 
 // walkAndGetAllProtoFiles collects the .proto files nested under the given absDirPath.
-- 
2.43.0


From c3594d624a81c8efaaf0f12075b8e408b8e41a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:45 +0000
Subject: [PATCH 22/47] fix: create uses --config-data as the configuration of
 the current directory

---
 internal/create/handler.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index 447b7a4..c5606dc 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -283,15 +283,19 @@ func (h *handler) getPkg(filePath string, defaultPackage string) (string, error)
 }
 
 func (h *handler) getConfig(filePath string) (settings.Config, error) {
+	if h.configData != "" {
+		// configData acts as a configuration file in the current directory
+		absWorkDirPath, err := filepath.Abs(".")
+		if err != nil {
+			return settings.Config{}, err
+		}
+		return h.configProvider.GetForData(absWorkDirPath, h.configData)
+	}
 	absFilePath, err := filepath.Abs(filePath)
 	if err != nil {
 		return settings.Config{}, err
 	}
-	absDirPath := filepath.Dir(absFilePath)
-	if h.configData != "" {
-		return h.configProvider.GetForData(absDirPath, h.configData)
-	}
-	return h.configProvider.GetForDir(absDirPath)
+	return h.configProvider.GetForDir(filepath.Dir(absFilePath))
 }
 
 func getPkgFromRel(rel string, basePkg string, defaultPackage string) string {
-- 
2.43.0


From 04bb283e0dbfa9c56b8374072bfa97f223317526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:00 +0000
Subject: [PATCH 23/47] fix: refuse data after the JSON configuration

---
 internal/settings/config_provider.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 9e953f4..5269594 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -23,7 +23,9 @@ package settings
 import (
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"os/exec"
@@ -430,7 +432,14 @@ func getExcludePrefixes(excludes []string, dirPath string) ([]string, error) {
 func jsonUnmarshalStrict(data []byte, v interface{}) error {
 	decoder := json.NewDecoder(bytes.NewReader(data))
 	decoder.DisallowUnknownFields()
-	return decoder.Decode(v)
+	if err := decoder.Decode(v); err != nil {
+		return err
+	}
+	// the decoder stops after the first JSON value
+	if _, err := decoder.Token(); err != io.EOF {
+		return errors.New("unexpected data after the JSON configuration")
+	}
+	return nil
 }
 
 func getFileHeaderLines(content string) []string {
-- 
2.43.0


From 04075ed64cb304bd5d816e80979f656d80525e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:46 +0000
Subject: [PATCH 24/47] fix: create no file when the configuration of a later
 one is broken

---
 internal/create/handler.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/internal/create/handler.go b/internal/create/handler.go
index c5606dc..af147d5 100644
--- a/internal/create/handler.go
+++ b/internal/create/handler.go
@@ -103,8 +103,17 @@ func (h *handler) Create(filePaths ...string) error {
 			return err
 		}
 	}
+	// get the data for all files before writing any of them
+	filesData := make([][]byte, 0, len(filePaths))
 	for _, filePath := range filePaths {
-		if err := h.create(filePath); err != nil {
+		data, err := h.getData(filePath)
+		if err != nil {
+			return err
+		}
+		filesData = append(filesData, data)
+	}
+	for i, filePath := range filePaths {
+		if err := ioutil.WriteFile(filePath, filesData[i], 0644); err != nil {
 			return err
 		}
 	}
@@ -132,14 +141,16 @@ func (h *handler) checkFilePath(filePath string) error {
 		if len(data) > 0 {
 			return fmt.Errorf("%q already exists", filePath)
 		}
+	} else if !os.IsNotExist(err) {
+		return err
 	}
 	return nil
 }
 
-func (h *handler) create(filePath string) error {
+func (h *handler) getData(filePath string) ([]byte, error) {
 	isV2, err := h.isV2(filePath)
 	if err != nil {
-		return err
+		return nil, err
 	}
 	defaultPackage := DefaultPackage
 	if isV2 {
@@ -147,18 +158,18 @@ func (h *handler) create(filePath string) error {
 	}
 	fileHeader, err := h.getFileHeader(filePath)
 	if err != nil {
-		return err
+		return nil, err
 	}
 	if fileHeader != "" {
 		fileHeader = fileHeader + "\n\n"
 	}
 	pkg, err := h.getPkg(filePath, defaultPackage)
 	if err != nil {
-		return err
+		return nil, err
 	}
 	javaPackagePrefix, err := h.getJavaPackagePrefix(filePath)
 	if err != nil {
-		return err
+		return nil, err
 	}
 	var data []byte
 	if isV2 {
@@ -175,7 +186,7 @@ func (h *handler) create(filePath string) error {
 			},
 		)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	} else {
 		data, err = getDataV1(
@@ -188,10 +199,10 @@ func (h *handler) create(filePath string) error {
 			},
 		)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
-	return ioutil.WriteFile(filePath, data, 0644)
+	return data, nil
 }
 
 func (h *handler) isV2(filePath string) (bool, error) {
-- 
2.43.0


From fb6c8b16d45899e7aad347845ec7371b8f62255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:57 +0000
Subject: [PATCH 25/47] fix: keep the order of the configured include paths

---
 internal/settings/config_provider.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/settings/config_provider.go b/internal/settings/config_provider.go
index 5269594..6ace1b6 100644
--- a/internal/settings/config_provider.go
+++ b/internal/settings/config_provider.go
@@ -205,7 +205,13 @@ func externalConfigToConfig(develMode bool, e ExternalConfig, dirPath string) (C
 		return Config{}, err
 	}
 	includePaths := make([]string, 0, len(e.Protoc.Includes))
-	for _, includePath := range strs.SortUniq(e.Protoc.Includes) {
+	includePathMap := make(map[string]struct{}, len(e.Protoc.Includes))
+	// the order matters, protoc uses the first include path that has a file
+	for _, includePath := range e.Protoc.Includes {
+		if _, ok := includePathMap[includePath]; ok || includePath == "" {
+			continue
+		}
+		includePathMap[includePath] = struct{}{}
 		if !filepath.IsAbs(includePath) {
 			includePath = filepath.Join(dirPath, includePath)
 		}
-- 
2.43.0


From c47489bb23ed2cd3d62ae262f184b719dccf485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:10 +0000
Subject: [PATCH 26/47] fix: report shadowed files on the path relative to the
 working directory

---
 internal/protoc/compiler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 5cdfac0..ddd4363 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -887,6 +887,12 @@ func (c *compiler) handleUninterpretedProtocLine(protocLine string) *text.Failur
 //
 // if the file is not in any of the include directories, this returns match
 func bestFilePath(cmdMeta *cmdMeta, match string) string {
+	// protoc outputs the path it was given if another file shadows the file
+	for _, protoFile := range cmdMeta.protoFiles {
+		if protoFile.Path == match {
+			return protoFile.DisplayPath
+		}
+	}
 	for _, include := range cmdMeta.includes {
 		// protoc uses the first include directory that has the file as well
 		filePath := filepath.Join(include, match)
-- 
2.43.0


From 73d68621ac36761583484ac995b7446d90dcc2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 27/47] fix: quote the commands of a dry run for a shell

---
 internal/protoc/compiler.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index ddd4363..0b1509b 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -80,6 +80,9 @@ var (
 	optionValueRegexp                 = regexp.MustCompile("^(.*): Error while parsing option value for (.*)$")
 	programNotFoundRegexp             = regexp.MustCompile("protoc-gen-(.*): program not found or is not executable$")
 	firstEnumValueZeroRegexp          = regexp.MustCompile("^(.*): The first enum value must be zero in proto3.$")
+
+	// arguments that do not have to be quoted for a shell
+	shellSafeRegexp = regexp.MustCompile(`^[A-Za-z0-9_@%+=:,./-]+$`)
 )
 
 type compiler struct {
@@ -968,7 +971,19 @@ type cmdMeta struct {
 }
 
 func (c *cmdMeta) String() string {
-	return strings.Join(c.execCmd.Args, " ")
+	args := make([]string, len(c.execCmd.Args))
+	for i, arg := range c.execCmd.Args {
+		args[i] = shellQuote(arg)
+	}
+	return strings.Join(args, " ")
+}
+
+// shellQuote quotes the argument if it has characters that are special to a shell.
+func shellQuote(arg string) string {
+	if shellSafeRegexp.MatchString(arg) {
+		return arg
+	}
+	return "'" + strings.Replace(arg, "'", `'\''`, -1) + "'"
 }
 
 func (c *cmdMeta) Clean() {
-- 
2.43.0


From 3f881b07da2c73b10586d9bf18b6fe4584237183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 28/47] fix: print failures that are not about a file for a
 file argument

---
 internal/exec/runner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index bbc3797..705a870 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -1149,7 +1149,8 @@ func (r *runner) printFailuresForErrorFormat(errorFormat string, filename string
 	for _, failure := range failures {
 		shouldPrint := false
 		if meta != nil {
-			if meta.SingleFilename == "" || meta.SingleFilename == failure.Filename {
+			// failures that are not about a file, ie those of plugins, are always printed
+			if meta.SingleFilename == "" || failure.Filename == "" || meta.SingleFilename == failure.Filename {
 				shouldPrint = true
 			} else if meta.SingleFilename != "" {
 				// TODO: the compiler may not return the rel path due to logic in bestFilePath
-- 
2.43.0


From 0c7d2c461632143fdd3352e9138172eaede3b1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:41 +0000
Subject: [PATCH 29/47] fix: never take an interrupted download of protoc for a
 complete one

---
 internal/protoc/downloader.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index a2546c9..857c97d 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -177,9 +177,6 @@ func (d *downloader) cache() (_ string, retErr error) {
 		if err := d.download(basePath); err != nil {
 			return "", err
 		}
-		if err := d.checkDownloaded(basePath); err != nil {
-			return "", err
-		}
 		d.logger.Debug("protobuf downloaded", zap.String("path", basePath))
 	} else {
 		d.logger.Debug("protobuf already downloaded", zap.String("path", basePath))
@@ -210,7 +207,23 @@ func (d *downloader) checkDownloaded(basePath string) error {
 }
 
 func (d *downloader) download(basePath string) (retErr error) {
-	return d.downloadInternal(basePath, runtime.GOOS, runtime.GOARCH)
+	// only a complete download may end up at the base path, as an interrupted
+	// one can have a working protoc but lack some of the well-known types
+	tmpPath := basePath + ".tmp"
+	if err := os.RemoveAll(tmpPath); err != nil {
+		return err
+	}
+	defer func() { retErr = multierr.Append(retErr, os.RemoveAll(tmpPath)) }()
+	if err := d.downloadInternal(tmpPath, runtime.GOOS, runtime.GOARCH); err != nil {
+		return err
+	}
+	if err := d.checkDownloaded(tmpPath); err != nil {
+		return err
+	}
+	if err := os.RemoveAll(basePath); err != nil {
+		return err
+	}
+	return os.Rename(tmpPath, basePath)
 }
 
 func (d *downloader) downloadInternal(basePath string, goos string, goarch string) (retErr error) {
-- 
2.43.0


From f3e3295249b426e7b86c2c4cac0c9ab9583405de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:42 +0000
Subject: [PATCH 30/47] fix: do not extract files of a protoc archive outside
 of the cache

---
 internal/protoc/downloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index 857c97d..fab1550 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -257,6 +257,9 @@ func (d *downloader) downloadInternal(basePath string, goos string, goarch strin
 			return err
 		}
 		writeFilePath := filepath.Join(basePath, file.Name)
+		if !strings.HasPrefix(writeFilePath, filepath.Clean(basePath)+string(os.PathSeparator)) {
+			return fmt.Errorf("%q in the protobuf zip file is not a path below the directory to extract to", file.Name)
+		}
 		if err := os.MkdirAll(filepath.Dir(writeFilePath), 0755); err != nil {
 			return err
 		}
-- 
2.43.0


From 904e3399d5cb8774958c913a6b50aae69f6458fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:52 +0000
Subject: [PATCH 31/47] fix: delete only the default cache

---
 internal/exec/runner.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 705a870..513f3d3 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -206,12 +206,9 @@ func (r *runner) CacheUpdate(args []string) error {
 }
 
 func (r *runner) CacheDelete() error {
-	meta, err := r.getMeta(nil)
-	if err != nil {
-		return err
-	}
-	// TODO: do not need config for delete, refactor
-	d, err := r.newDownloader(meta.ProtoSet.Config)
+	// only the default cache is deleted, which does not depend on the
+	// configuration and not on the custom cache path or protoc that is set
+	d, err := protoc.NewDownloader(settings.Config{}, protoc.DownloaderWithLogger(r.logger))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From bbb1f770544a91ce23e29d974af670cf99de0593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:31 +0000
Subject: [PATCH 32/47] fix: send every value of a repeated gRPC header in the
 order given

---
 internal/exec/runner.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 513f3d3..92fcaf4 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -613,13 +613,14 @@ func (r *runner) GRPC(args, headers []string, address, method, data, callTimeout
 	}
 	reader := r.getInputReader(data, stdin)
 
-	parsedHeaders := make(map[string]string)
+	// a header can be given multiple times
+	var parsedHeaders [][2]string
 	for _, header := range headers {
 		split := strings.SplitN(header, ":", 2)
 		if len(split) != 2 {
 			return fmt.Errorf("headers must be key:value but got %s", header)
 		}
-		parsedHeaders[split[0]] = split[1]
+		parsedHeaders = append(parsedHeaders, [2]string{split[0], split[1]})
 	}
 	var parsedCallTimeout time.Duration
 	var parsedConnectTimeout time.Duration
@@ -1044,7 +1045,7 @@ func (r *runner) newCreateHandler(pkg string) create.Handler {
 }
 
 func (r *runner) newGRPCHandler(
-	headers map[string]string,
+	headers [][2]string,
 	callTimeout time.Duration,
 	connectTimeout time.Duration,
 	keepaliveTime time.Duration,
@@ -1059,8 +1060,8 @@ func (r *runner) newGRPCHandler(
 	handlerOptions := []grpc.HandlerOption{
 		grpc.HandlerWithLogger(r.logger),
 	}
-	for key, value := range headers {
-		handlerOptions = append(handlerOptions, grpc.HandlerWithHeader(key, value))
+	for _, header := range headers {
+		handlerOptions = append(handlerOptions, grpc.HandlerWithHeader(header[0], header[1]))
 	}
 	if callTimeout != 0 {
 		handlerOptions = append(handlerOptions, grpc.HandlerWithCallTimeout(callTimeout))
-- 
2.43.0


From a0efed6e769c276ace4bf459fc6ffdea38fdc80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 33/47] fix: resolve the types of google.protobuf.Any in gRPC
 requests like in responses

---
 internal/grpc/handler.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/grpc/handler.go b/internal/grpc/handler.go
index 3302c30..5f0dd92 100644
--- a/internal/grpc/handler.go
+++ b/internal/grpc/handler.go
@@ -97,7 +97,7 @@ func (h *handler) Invoke(fileDescriptorSets []*descriptor.FileDescriptorSet, add
 		method,
 		h.headers,
 		invocationEventHandler,
-		decodeFunc(inputReader),
+		decodeFunc(inputReader, anyResolver),
 	); err != nil {
 		return err
 	}
@@ -208,14 +208,17 @@ func getServiceForMethod(method string) (string, error) {
 	return split[0], nil
 }
 
-func decodeFunc(reader io.Reader) func(proto.Message) error {
+func decodeFunc(reader io.Reader, anyResolver jsonpb.AnyResolver) func(proto.Message) error {
 	decoder := json.NewDecoder(reader)
+	unmarshaler := &jsonpb.Unmarshaler{
+		AnyResolver: anyResolver,
+	}
 	return func(message proto.Message) error {
 		var rawMessage json.RawMessage
 		if err := decoder.Decode(&rawMessage); err != nil {
 			return err
 		}
-		return jsonpb.Unmarshal(bytes.NewReader(rawMessage), message)
+		return unmarshaler.Unmarshal(bytes.NewReader(rawMessage), message)
 	}
 }
 
-- 
2.43.0


From 91a0f1b240dee85b9991ec8bf2bb262f4d220813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:32 +0000
Subject: [PATCH 34/47] fix: fail a gRPC call with a response that cannot be
 printed

---
 internal/grpc/invocation_event_handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/grpc/invocation_event_handler.go b/internal/grpc/invocation_event_handler.go
index 74622f4..8874b8f 100644
--- a/internal/grpc/invocation_event_handler.go
+++ b/internal/grpc/invocation_event_handler.go
@@ -22,6 +22,7 @@ package grpc
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
 	"reflect"
 
@@ -97,6 +98,9 @@ func (i *invocationEventHandler) printProtoMessage(input proto.Message, detailsK
 	s, err := i.jsonpbMarshaler.MarshalToString(input)
 	if err != nil {
 		i.logger.Error("marshal error", zap.Error(err))
+		if i.err == nil {
+			i.err = fmt.Errorf("marshal error: %v", err)
+		}
 		return
 	}
 	i.println(i.marshalSanitize(s, detailsKey))
-- 
2.43.0


From 6d79e3264bcb819af6e79f683a1f8afe3c8ead03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:53 +0000
Subject: [PATCH 35/47] fix: do not split a run of upper case letters before a
 digit or an underscore

The lint rules expected an enum HTTP2 to have values prefixed HTT_P2_ and an
enum TRIP_TYPE to have values prefixed TRI_P_TYPE_.
---
 internal/strs/strs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/strs/strs.go b/internal/strs/strs.go
index f2ed820..c1d2668 100644
--- a/internal/strs/strs.go
+++ b/internal/strs/strs.go
@@ -263,7 +263,7 @@ func toSnake(s string) string {
 	output := ""
 	s = strings.TrimSpace(s)
 	for i, c := range s {
-		if i > 0 && isUpper(c) && output[len(output)-1] != '_' && ((i < len(s)-1 && !isUpper(rune(s[i+1]))) || (isLower(rune(s[i-1])))) {
+		if i > 0 && isUpper(c) && output[len(output)-1] != '_' && ((i < len(s)-1 && isLower(rune(s[i+1]))) || isLower(rune(s[i-1]))) {
 			output += "_" + string(c)
 		} else {
 			output += string(c)
-- 
2.43.0


From 3b9c930d414396a7524d0dea3b18ed68a17567b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 36/47] fix: do not add a second configuration next to a
 prototool.json

config init left a directory that every other command refuses, because it
has both a prototool.yaml and a prototool.json.
---
 internal/exec/runner.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/exec/runner.go b/internal/exec/runner.go
index 92fcaf4..520cf04 100644
--- a/internal/exec/runner.go
+++ b/internal/exec/runner.go
@@ -177,10 +177,13 @@ func (r *runner) Init(args []string, uncomment bool, document bool) error {
 			return err
 		}
 	}
-	filePath := filepath.Join(dirPath, settings.DefaultConfigFilename)
-	if _, err := os.Stat(filePath); err == nil {
-		return fmt.Errorf("%s already exists", filePath)
+	for _, configFilename := range settings.ConfigFilenames {
+		existingFilePath := filepath.Join(dirPath, configFilename)
+		if _, err := os.Stat(existingFilePath); err == nil {
+			return fmt.Errorf("%s already exists", existingFilePath)
+		}
 	}
+	filePath := filepath.Join(dirPath, settings.DefaultConfigFilename)
 	data, err := cfginit.Generate(vars.DefaultProtocVersion, uncomment, document)
 	if err != nil {
 		return err
-- 
2.43.0


From f3fc06b5ff9745e2044bc6e0a7fda38759a31a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:24 +0000
Subject: [PATCH 37/47] fix: do not add and remove the same linter in the
 uncommented configuration

config init --uncomment wrote a configuration whose lint rules every command
refuses.
---
 internal/cfginit/cfginit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cfginit/cfginit.go b/internal/cfginit/cfginit.go
index 34958de..0ca5aa9 100644
--- a/internal/cfginit/cfginit.go
+++ b/internal/cfginit/cfginit.go
@@ -109,7 +109,7 @@ lint:
 
     # The specific linters to remove.
 {{.V}}    remove:
-{{.V}}      - ENUM_NAMES_CAMEL_CASE
+{{.V}}      - ENUMS_HAVE_SENTENCE_COMMENTS
 
   # The path to the file header or the file header content for all Protobuf files.
   # If either path or content is set and the FILE_HEADER linter is turned on,
-- 
2.43.0


From 94e4232461da73ea50a157af9711bfe4abe2943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:36 +0000
Subject: [PATCH 38/47] fix: start no further protoc after an interruption and
 kill each that runs

---
 internal/protoc/compiler.go | 76 +++++++++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 19 deletions(-)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 0b1509b..3fe820d 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -136,13 +136,15 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 	var lock sync.Mutex
 	var wg sync.WaitGroup
 	semaphoreC := make(chan struct{}, runtime.NumCPU())
+	interrupt, stopInterrupt := newInterrupt()
+	defer stopInterrupt()
 	for _, cmdMeta := range cmdMetas {
 		cmdMeta := cmdMeta
 		wg.Add(1)
 		semaphoreC <- struct{}{}
 		go func() {
 			defer wg.Done()
-			iFailures, iErr := c.runCmdMeta(cmdMeta)
+			iFailures, iErr := c.runCmdMeta(cmdMeta, interrupt)
 			lock.Lock()
 			failures = append(failures, iFailures...)
 			if iErr != nil {
@@ -153,6 +155,9 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 		}()
 	}
 	wg.Wait()
+	if err := interrupt.Err(); err != nil {
+		return nil, err
+	}
 	// errors are not text.Failures, these are actual unhandled
 	// system errors from calling protoc, so we short circuit
 	if len(errs) > 0 {
@@ -247,7 +252,7 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 	return nil
 }
 
-func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
+func (c *compiler) runCmdMeta(cmdMeta *cmdMeta, interrupt *interrupt) ([]*text.Failure, error) {
 	c.logger.Debug("running protoc", zap.String("command", cmdMeta.String()))
 	buffer := bytes.NewBuffer(nil)
 	cmdMeta.execCmd.Stderr = buffer
@@ -256,30 +261,24 @@ func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
 	// is a stdout, it will be printed to os.Stdout.
 	cmdMeta.execCmd.Stdout = ioutil.Discard
 
-	// Prepare a signal buffer so that we can kill the protoc
-	// process when Prototool receives a SIGINT or SIGTERM.
-	sig := make(chan os.Signal, 1)
+	if err := interrupt.Err(); err != nil {
+		return nil, err
+	}
+	if err := cmdMeta.execCmd.Start(); err != nil {
+		return nil, err
+	}
 	done := make(chan error, 1)
-	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
-	defer signal.Stop(sig)
-
 	go func() {
-		done <- cmdMeta.execCmd.Run()
+		done <- cmdMeta.execCmd.Wait()
 	}()
 
 	var runErr error
 	select {
-	case s := <-sig:
+	case <-interrupt.C:
 		// Kill the process, and terminate early.
-		c.logger.Debug(
-			"terminating protoc",
-			zap.String("command", cmdMeta.String()),
-			zap.String("signal", s.String()),
-		)
-		if cmdMeta.execCmd.Process != nil {
-			_ = cmdMeta.execCmd.Process.Kill()
-		}
-		return nil, fmt.Errorf("received signal %v while running protoc", s)
+		c.logger.Debug("terminating protoc", zap.String("command", cmdMeta.String()))
+		_ = cmdMeta.execCmd.Process.Kill()
+		return nil, interrupt.Err()
 	case runErr = <-done:
 		// Exit errors are ok, we can probably parse them into text.Failures
 		// if not an exec.ExitError, short circuit.
@@ -308,6 +307,45 @@ func (c *compiler) runCmdMeta(cmdMeta *cmdMeta) ([]*text.Failure, error) {
 	return failures, nil
 }
 
+// interrupt is for all protoc processes of a compilation, as one that is only
+// about to be started when Prototool receives a SIGINT or SIGTERM must not run.
+type interrupt struct {
+	// C is closed when Prototool receives a SIGINT or SIGTERM.
+	C <-chan struct{}
+
+	signal os.Signal
+}
+
+// newInterrupt returns a new interrupt, and a function to stop listening to signals.
+func newInterrupt() (*interrupt, func()) {
+	interruptC := make(chan struct{})
+	interrupt := &interrupt{C: interruptC}
+	stopC := make(chan struct{})
+	signalC := make(chan os.Signal, 1)
+	signal.Notify(signalC, syscall.SIGINT, syscall.SIGTERM)
+	go func() {
+		select {
+		case interrupt.signal = <-signalC:
+			close(interruptC)
+		case <-stopC:
+		}
+	}()
+	return interrupt, func() {
+		signal.Stop(signalC)
+		close(stopC)
+	}
+}
+
+// Err returns an error if Prototool received a SIGINT or SIGTERM.
+func (i *interrupt) Err() error {
+	select {
+	case <-i.C:
+		return fmt.Errorf("received signal %v while running protoc", i.signal)
+	default:
+		return nil
+	}
+}
+
 func (c *compiler) getCmdMetas(protoSet *file.ProtoSet) (cmdMetas []*cmdMeta, retErr error) {
 	defer func() {
 		// if we error in this function, we clean ourselves up
-- 
2.43.0


From 1d25623753579686bb2b4374cf3c1031977b75f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:10 +0000
Subject: [PATCH 39/47] fix: clone from a directory with a percent sign in its
 path

---
 internal/git/git.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/git/git.go b/internal/git/git.go
index 1ada68b..b8c442e 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -58,7 +58,8 @@ func TemporaryClone(logger *zap.Logger, dirPath string, branchOrTag string) (str
 	if branchOrTag != "" {
 		args = append(args, "--branch", branchOrTag)
 	}
-	args = append(args, fmt.Sprintf("file://%s", absDirPath), cloneDirPath)
+	// git decodes URLs
+	args = append(args, fmt.Sprintf("file://%s", strings.Replace(absDirPath, "%", "%25", -1)), cloneDirPath)
 	logger.Sugar().Debugf("git %s", strings.Join(args, " "))
 	output, err := exec.Command("git", args...).CombinedOutput()
 	if err != nil {
-- 
2.43.0


From 997a107bcbd8c0c41b3ba15c7dc85ef4164f7a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:12 +0000
Subject: [PATCH 40/47] fix: keep the clone apart from the repository of a git
 hook

---
 internal/git/git.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/git/git.go b/internal/git/git.go
index b8c442e..649d20f 100644
--- a/internal/git/git.go
+++ b/internal/git/git.go
@@ -61,10 +61,36 @@ func TemporaryClone(logger *zap.Logger, dirPath string, branchOrTag string) (str
 	// git decodes URLs
 	args = append(args, fmt.Sprintf("file://%s", strings.Replace(absDirPath, "%", "%25", -1)), cloneDirPath)
 	logger.Sugar().Debugf("git %s", strings.Join(args, " "))
-	output, err := exec.Command("git", args...).CombinedOutput()
+	cmd := exec.Command("git", args...)
+	cmd.Env = cloneEnv()
+	output, err := cmd.CombinedOutput()
 	if err != nil {
 		_ = os.RemoveAll(cloneDirPath)
 		return "", fmt.Errorf("git %s had error: %s", strings.Join(args, " "), string(output))
 	}
 	return cloneDirPath, nil
 }
+
+// cloneEnv returns the environment without the variables that point git to
+// an existing repository. These are set within a git hook, and the clone would
+// otherwise write to the index of the repository that is cloned.
+func cloneEnv() []string {
+	env := make([]string, 0, len(os.Environ()))
+	for _, keyValue := range os.Environ() {
+		switch strings.SplitN(keyValue, "=", 2)[0] {
+		case "GIT_ALTERNATE_OBJECT_DIRECTORIES",
+			"GIT_COMMON_DIR",
+			"GIT_DIR",
+			"GIT_GRAFT_FILE",
+			"GIT_INDEX_FILE",
+			"GIT_NAMESPACE",
+			"GIT_OBJECT_DIRECTORY",
+			"GIT_PREFIX",
+			"GIT_SHALLOW_FILE",
+			"GIT_WORK_TREE":
+		default:
+			env = append(env, keyValue)
+		}
+	}
+	return env
+}
-- 
2.43.0


From 43a08db335c348cb909f16c4b4d0f1aa9d170580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:53 +0000
Subject: [PATCH 41/47] fix: do not race on the walk timeout

---
 internal/file/proto_set_provider.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index 8a638ed..c05762c 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -26,6 +26,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"sync/atomic"
 	"time"
 
 	"github.com/uber/prototool/internal/settings"
@@ -213,7 +214,7 @@ func (c *protoSetProvider) getConfig(absWorkDirPath string, absDirPath string) (
 func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDirPath string) ([]*ProtoFile, error) {
 	var protoFiles []*ProtoFile
 	var numWalkedFiles int
-	var timedOut bool
+	var timedOut int32
 	var excludes []string
 	var err error
 	// if we have a configData, we compute the exclude prefixes once
@@ -236,7 +237,7 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 					return err
 				}
 				numWalkedFiles++
-				if timedOut {
+				if atomic.LoadInt32(&timedOut) != 0 {
 					return fmt.Errorf("walking the directory structure looking for proto files "+
 						"timed out after %v and having seen %d files, are you sure you are operating "+
 						"in the right context?", c.walkTimeout, numWalkedFiles)
@@ -291,7 +292,7 @@ func (c *protoSetProvider) walkAndGetAllProtoFiles(absWorkDirPath string, absDir
 		}
 		return protoFiles, nil
 	case <-time.After(c.walkTimeout):
-		timedOut = true
+		atomic.StoreInt32(&timedOut, 1)
 		if walkErr := <-walkErrC; walkErr != nil {
 			return nil, walkErr
 		}
-- 
2.43.0


From 2c0120f64949440fab93609d38a293eb86130bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:59 +0000
Subject: [PATCH 42/47] fix: report errors of several protocs in a stable order

---
 internal/protoc/compiler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 3fe820d..8c4cd80 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -170,6 +170,8 @@ func (c *compiler) Compile(protoSet *file.ProtoSet) (*CompileResult, error) {
 				errStrings = append(errStrings, errString)
 			}
 		}
+		// the order must not depend on which protoc ended first
+		sort.Strings(errStrings)
 		return nil, errors.New(strings.Join(errStrings, "\n"))
 	}
 	// if we have failures, it does not matter if we have file descriptor sets
-- 
2.43.0


From 2eff64e6756c01ea9396e5ec1ea42db7b1a4efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:25 +0000
Subject: [PATCH 43/47] fix: look at the first letter and not the first byte of
 a sentence comment

---
 internal/lint/lint.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 0417140..5e062bf 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -27,6 +27,7 @@ import (
 	"path/filepath"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/emicklei/proto"
 	"github.com/uber/prototool/internal/file"
@@ -553,7 +554,8 @@ func commentStartsWithUppercaseLetter(comment *proto.Comment) bool {
 	if firstLine == "" {
 		return false
 	}
-	return unicode.IsUpper(rune(firstLine[0])) || unicode.IsDigit(rune(firstLine[0]))
+	first, _ := utf8.DecodeRuneInString(firstLine)
+	return unicode.IsUpper(first) || unicode.IsDigit(first)
 }
 
 func commentContainsPeriod(comment *proto.Comment) bool {
-- 
2.43.0


From 161ca3400100e209a37ca75c89b0ac46332164dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:59 +0000
Subject: [PATCH 44/47] fix: do not crash on a protoc-wkt-path that is a file

---
 internal/protoc/downloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protoc/downloader.go b/internal/protoc/downloader.go
index fab1550..65a14fa 100644
--- a/internal/protoc/downloader.go
+++ b/internal/protoc/downloader.go
@@ -97,7 +97,7 @@ func newDownloader(config settings.Config, options ...DownloaderOption) (*downlo
 		}
 		protobufPath := filepath.Join(cleanWKTPath, "google", "protobuf")
 		info, err := os.Stat(protobufPath)
-		if os.IsNotExist(err) {
+		if err != nil {
 			return nil, err
 		}
 		if !info.IsDir() {
-- 
2.43.0


From 14a4b644f1c1c55d6a97e672fa54e3327b56695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:00 +0000
Subject: [PATCH 45/47] fix: do not crash on a descriptor set with an invalid
 oneof index

---
 internal/reflect/reflect.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/reflect/reflect.go b/internal/reflect/reflect.go
index a923bff..601601d 100644
--- a/internal/reflect/reflect.go
+++ b/internal/reflect/reflect.go
@@ -327,8 +327,11 @@ func newMessage(descriptorProto *descriptor.DescriptorProto) (*reflectv1.Message
 			TypeName: typeName,
 		})
 		if fieldDescriptorProto.OneofIndex != nil {
-			// TODO: super unsafe
-			messageOneof := nameToMessageOneof[descriptorProto.GetOneofDecl()[fieldDescriptorProto.GetOneofIndex()].GetName()]
+			oneofIndex := int(fieldDescriptorProto.GetOneofIndex())
+			if oneofIndex < 0 || oneofIndex >= len(descriptorProto.GetOneofDecl()) {
+				return nil, fmt.Errorf("invalid oneof index %d for field %s of message %s", oneofIndex, fieldDescriptorProto.GetName(), descriptorProto.GetName())
+			}
+			messageOneof := nameToMessageOneof[descriptorProto.GetOneofDecl()[oneofIndex].GetName()]
 			messageOneof.FieldNumbers = append(messageOneof.FieldNumbers, fieldDescriptorProto.GetNumber())
 		}
 	}
-- 
2.43.0


From c8db35fbf9d45e01f2a12ceaeb267fe8feeeb90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:31 +0000
Subject: [PATCH 46/47] fix: report the same error on each run when several
 things are wrong

---
 internal/file/proto_set_provider.go |  8 +++++-
 internal/lint/lint.go               | 18 ++++++++++---
 internal/protoc/compiler.go         |  7 +++++-
 internal/reflect/reflect.go         | 39 +++++++++++++++++++++++------
 4 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/internal/file/proto_set_provider.go b/internal/file/proto_set_provider.go
index c05762c..b2afc78 100644
--- a/internal/file/proto_set_provider.go
+++ b/internal/file/proto_set_provider.go
@@ -136,7 +136,13 @@ func (c *protoSetProvider) getBaseProtoSets(absWorkDirPath string, absDirPath st
 		return []*ProtoSet{protoSet}, nil
 	}
 	filePathToProtoSet := make(map[string]*ProtoSet)
-	for dirPath, protoFiles := range dirPathToProtoFiles {
+	dirPaths := make([]string, 0, len(dirPathToProtoFiles))
+	for dirPath := range dirPathToProtoFiles {
+		dirPaths = append(dirPaths, dirPath)
+	}
+	sort.Strings(dirPaths)
+	for _, dirPath := range dirPaths {
+		protoFiles := dirPathToProtoFiles[dirPath]
 		var configFilePath string
 		var err error
 		// we only want one ProtoSet if we have set configData
diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 5e062bf..049738e 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -25,6 +25,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -388,7 +389,12 @@ func GetLinters(config settings.LintConfig) ([]Linter, error) {
 			return nil, err
 		}
 	}
+	ignoreIDs := make([]string, 0, len(config.IgnoreIDToFilePaths))
 	for ignoreID := range config.IgnoreIDToFilePaths {
+		ignoreIDs = append(ignoreIDs, ignoreID)
+	}
+	sort.Strings(ignoreIDs)
+	for _, ignoreID := range ignoreIDs {
 		if err := checkLintID(ignoreID); err != nil {
 			return nil, err
 		}
@@ -428,7 +434,8 @@ func GetLinters(config settings.LintConfig) ([]Linter, error) {
 // Absolute paths are printed for failures if absolutePaths is true.
 func GetDirPathToDescriptors(protoSet *file.ProtoSet, absolutePaths bool) (map[string][]*FileDescriptor, error) {
 	dirPathToDescriptors := make(map[string][]*FileDescriptor, len(protoSet.DirPathToFiles))
-	for dirPath, protoFiles := range protoSet.DirPathToFiles {
+	for _, dirPath := range protoSet.SortedDirPaths() {
+		protoFiles := protoSet.DirPathToFiles[dirPath]
 		// skip those files not under the directory
 		if !settings.IsPathWithin(dirPath, protoSet.DirPath) {
 			continue
@@ -474,9 +481,14 @@ func GetDirPathToDescriptors(protoSet *file.ProtoSet, absolutePaths bool) (map[s
 // CheckMultiple is a convenience function that checks multiple linters and multiple descriptors.
 func CheckMultiple(linters []Linter, dirPathToDescriptors map[string][]*FileDescriptor, ignoreIDToFilePaths map[string][]string) ([]*text.Failure, error) {
 	var allFailures []*text.Failure
-	for dirPath, descriptors := range dirPathToDescriptors {
+	dirPaths := make([]string, 0, len(dirPathToDescriptors))
+	for dirPath := range dirPathToDescriptors {
+		dirPaths = append(dirPaths, dirPath)
+	}
+	sort.Strings(dirPaths)
+	for _, dirPath := range dirPaths {
 		for _, linter := range linters {
-			failures, err := checkOne(linter, dirPath, descriptors, ignoreIDToFilePaths)
+			failures, err := checkOne(linter, dirPath, dirPathToDescriptors[dirPath], ignoreIDToFilePaths)
 			if err != nil {
 				return nil, err
 			}
diff --git a/internal/protoc/compiler.go b/internal/protoc/compiler.go
index 8c4cd80..e37493b 100644
--- a/internal/protoc/compiler.go
+++ b/internal/protoc/compiler.go
@@ -228,7 +228,7 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 		if genPlugin.FileSuffix == "" {
 			genDirs[baseOutputPath] = struct{}{}
 		} else {
-			for dirPath := range protoSet.DirPathToFiles {
+			for _, dirPath := range protoSet.SortedDirPaths() {
 				// skip those files not under the directory
 				if !settings.IsPathWithin(dirPath, protoSet.DirPath) {
 					continue
@@ -241,7 +241,12 @@ func (c *compiler) makeGenDirs(protoSet *file.ProtoSet) error {
 			}
 		}
 	}
+	sortedGenDirs := make([]string, 0, len(genDirs))
 	for genDir := range genDirs {
+		sortedGenDirs = append(sortedGenDirs, genDir)
+	}
+	sort.Strings(sortedGenDirs)
+	for _, genDir := range sortedGenDirs {
 		// we could choose a different permission set, but this seems reasonable
 		// in a perfect world, if directories are created and we error out, we
 		// would want to remove any newly created directories, but this seems
diff --git a/internal/reflect/reflect.go b/internal/reflect/reflect.go
index 601601d..21a9be7 100644
--- a/internal/reflect/reflect.go
+++ b/internal/reflect/reflect.go
@@ -51,7 +51,8 @@ func NewPackageSet(fileDescriptorSets ...*descriptor.FileDescriptorSet) (*reflec
 	if err := populateDependencies(packageNameToPackage, packageNameToFileNameToFileDescriptorProto); err != nil {
 		return nil, err
 	}
-	for packageName, fileNameToFileDescriptorProto := range packageNameToFileNameToFileDescriptorProto {
+	for _, packageName := range sortedPackageNames(packageNameToFileNameToFileDescriptorProto) {
+		fileNameToFileDescriptorProto := packageNameToFileNameToFileDescriptorProto[packageName]
 		pkg, ok := packageNameToPackage[packageName]
 		if !ok {
 			return nil, fmt.Errorf("no package for name %s", packageName)
@@ -133,8 +134,8 @@ func populateDependencies(
 	if err != nil {
 		return err
 	}
-	for packageName, fileNameTofileDescriptorProto := range packageNameToFileNameToFileDescriptorProto {
-		for _, fileDescriptorProto := range fileNameTofileDescriptorProto {
+	for _, packageName := range sortedPackageNames(packageNameToFileNameToFileDescriptorProto) {
+		for _, fileDescriptorProto := range sortedFileDescriptorProtos(packageNameToFileNameToFileDescriptorProto[packageName]) {
 			for _, depFileName := range fileDescriptorProto.GetDependency() {
 				depPackageName, ok := fileNameToPackageName[depFileName]
 				if !ok {
@@ -159,7 +160,7 @@ func populateEnums(
 	pkg *reflectv1.Package,
 	fileNameToFileDescriptorProto map[string]*descriptor.FileDescriptorProto,
 ) error {
-	for _, fileDescriptorProto := range fileNameToFileDescriptorProto {
+	for _, fileDescriptorProto := range sortedFileDescriptorProtos(fileNameToFileDescriptorProto) {
 		enums, err := getEnums(fileDescriptorProto.GetEnumType())
 		if err != nil {
 			return err
@@ -177,7 +178,7 @@ func populateMessages(
 	pkg *reflectv1.Package,
 	fileNameToFileDescriptorProto map[string]*descriptor.FileDescriptorProto,
 ) error {
-	for _, fileDescriptorProto := range fileNameToFileDescriptorProto {
+	for _, fileDescriptorProto := range sortedFileDescriptorProtos(fileNameToFileDescriptorProto) {
 		messages, err := getMessages(fileDescriptorProto.GetMessageType())
 		if err != nil {
 			return err
@@ -195,7 +196,7 @@ func populateServices(
 	pkg *reflectv1.Package,
 	fileNameToFileDescriptorProto map[string]*descriptor.FileDescriptorProto,
 ) error {
-	for _, fileDescriptorProto := range fileNameToFileDescriptorProto {
+	for _, fileDescriptorProto := range sortedFileDescriptorProtos(fileNameToFileDescriptorProto) {
 		services, err := getServices(fileDescriptorProto.GetService())
 		if err != nil {
 			return err
@@ -226,8 +227,9 @@ func getPackageSet(packageNameToPackage map[string]*reflectv1.Package) (*reflect
 // helper for populateDependencies
 func getFileNameToPackageName(packageNameToFileNameToFileDescriptorProto map[string]map[string]*descriptor.FileDescriptorProto) (map[string]string, error) {
 	fileNameToPackageName := make(map[string]string)
-	for packageName, fileNameToFileDescriptorProto := range packageNameToFileNameToFileDescriptorProto {
-		for fileName := range fileNameToFileDescriptorProto {
+	for _, packageName := range sortedPackageNames(packageNameToFileNameToFileDescriptorProto) {
+		for _, fileDescriptorProto := range sortedFileDescriptorProtos(packageNameToFileNameToFileDescriptorProto[packageName]) {
+			fileName := fileDescriptorProto.GetName()
 			existing, ok := fileNameToPackageName[fileName]
 			if ok {
 				if existing != packageName {
@@ -241,6 +243,27 @@ func getFileNameToPackageName(packageNameToFileNameToFileDescriptorProto map[str
 	return fileNameToPackageName, nil
 }
 
+// the order decides which error is returned if there is more than one
+func sortedPackageNames(packageNameToFileNameToFileDescriptorProto map[string]map[string]*descriptor.FileDescriptorProto) []string {
+	packageNames := make([]string, 0, len(packageNameToFileNameToFileDescriptorProto))
+	for packageName := range packageNameToFileNameToFileDescriptorProto {
+		packageNames = append(packageNames, packageName)
+	}
+	sort.Strings(packageNames)
+	return packageNames
+}
+
+func sortedFileDescriptorProtos(fileNameToFileDescriptorProto map[string]*descriptor.FileDescriptorProto) []*descriptor.FileDescriptorProto {
+	fileDescriptorProtos := make([]*descriptor.FileDescriptorProto, 0, len(fileNameToFileDescriptorProto))
+	for _, fileDescriptorProto := range fileNameToFileDescriptorProto {
+		fileDescriptorProtos = append(fileDescriptorProtos, fileDescriptorProto)
+	}
+	sort.Slice(fileDescriptorProtos, func(i int, j int) bool {
+		return fileDescriptorProtos[i].GetName() < fileDescriptorProtos[j].GetName()
+	})
+	return fileDescriptorProtos
+}
+
 func getEnums(enumDescriptorProtos []*descriptor.EnumDescriptorProto) ([]*reflectv1.Enum, error) {
 	if len(enumDescriptorProtos) == 0 {
 		return nil, nil
-- 
2.43.0


From 9f6b659d1fbff6569e011dd50810e639aca65941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:11 +0000
Subject: [PATCH 47/47] fix: know request and response types by their name
 however they are qualified

---
 internal/lint/lint.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/internal/lint/lint.go b/internal/lint/lint.go
index 049738e..88c55f1 100644
--- a/internal/lint/lint.go
+++ b/internal/lint/lint.go
@@ -467,6 +467,7 @@ func GetDirPathToDescriptors(protoSet *file.ProtoSet, absolutePaths bool) (map[s
 				return nil, err
 			}
 			_ = file.Close()
+			trimRPCTypes(descriptor)
 			descriptors[i] = &FileDescriptor{
 				Proto:    descriptor,
 				ProtoSet: protoSet,
@@ -478,6 +479,44 @@ func GetDirPathToDescriptors(protoSet *file.ProtoSet, absolutePaths bool) (map[s
 	return dirPathToDescriptors, nil
 }
 
+// trimRPCTypes removes the qualification from the request and response types
+// that are in the package of the file, so that the linters know them by the
+// same name as the messages of the file no matter how they are spelled.
+func trimRPCTypes(descriptor *proto.Proto) {
+	var packageName string
+	messageNames := make(map[string]struct{})
+	for _, element := range descriptor.Elements {
+		switch e := element.(type) {
+		case *proto.Package:
+			packageName = e.Name
+		case *proto.Message:
+			messageNames[e.Name] = struct{}{}
+		}
+	}
+	proto.Walk(descriptor, proto.WithRPC(func(rpc *proto.RPC) {
+		rpc.RequestType = trimTypeName(rpc.RequestType, packageName, messageNames)
+		rpc.ReturnsType = trimTypeName(rpc.ReturnsType, packageName, messageNames)
+	}))
+}
+
+func trimTypeName(typeName string, packageName string, messageNames map[string]struct{}) string {
+	if strings.HasPrefix(typeName, ".") {
+		return strings.TrimPrefix(typeName[1:], packageName+".")
+	}
+	// the innermost scope comes first
+	if _, ok := messageNames[strings.SplitN(typeName, ".", 2)[0]]; ok || packageName == "" {
+		return typeName
+	}
+	// a name can be qualified with any number of the last parts of the package
+	parts := strings.Split(packageName, ".")
+	for i := range parts {
+		if prefix := strings.Join(parts[i:], ".") + "."; strings.HasPrefix(typeName, prefix) {
+			return strings.TrimPrefix(typeName, prefix)
+		}
+	}
+	return typeName
+}
+
 // CheckMultiple is a convenience function that checks multiple linters and multiple descriptors.
 func CheckMultiple(linters []Linter, dirPathToDescriptors map[string][]*FileDescriptor, ignoreIDToFilePaths map[string][]string) ([]*text.Failure, error) {
 	var allFailures []*text.Failure
-- 
2.43.0

