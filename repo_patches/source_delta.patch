From 788575145913ba7be7406ba58023c4cea55c6e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 01/13] fix: 'not' followed by an identifier starting with 'in'
 is not 'not in'

---
 bant/frontend/scanner.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bant/frontend/scanner.cc b/bant/frontend/scanner.cc
index aa42273..c0337c4 100644
--- a/bant/frontend/scanner.cc
+++ b/bant/frontend/scanner.cc
@@ -116,11 +116,14 @@ bool Scanner::ConsumeOptionalIn() {
   while (run < end_ && absl::ascii_isspace(*run)) {
     ++run;
   }
-  if (end_ - run >= 2 && run[0] == 'i' && run[1] == 'n') {
-    pos_ = run + 2;
-    return true;
+  if (end_ - run < 2 || run[0] != 'i' || run[1] != 'n') {
+    return false;
   }
-  return false;
+  if (end_ - run > 2 && IsIdentifierChar(run[2])) {
+    return false;  // Just an identifier that happens to start with 'in'
+  }
+  pos_ = run + 2;
+  return true;
 }
 
 Token Scanner::HandleIdentifierKeywordRawStringOrInvalid() {
-- 
2.43.0


From 0d3467b5b60ba04893a386935b944564d44144e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 02/13] fix: newlines between 'not' and 'in' are recorded in
 the line index

---
 bant/frontend/scanner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bant/frontend/scanner.cc b/bant/frontend/scanner.cc
index c0337c4..8c678c1 100644
--- a/bant/frontend/scanner.cc
+++ b/bant/frontend/scanner.cc
@@ -122,6 +122,10 @@ bool Scanner::ConsumeOptionalIn() {
   if (end_ - run > 2 && IsIdentifierChar(run[2])) {
     return false;  // Just an identifier that happens to start with 'in'
   }
+  // The skipped whitespace might contain newlines the line index needs to know.
+  for (/**/; pos_ < run; ++pos_) {
+    if (*pos_ == '\n') source_.mutable_line_index()->PushNewline(pos_ + 1);
+  }
   pos_ = run + 2;
   return true;
 }
-- 
2.43.0


From 757337423acb9bf1e8ac6624030cc670130dc5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:07 +0000
Subject: [PATCH 03/13] fix: file name of a path joined with a name that
 contains slashes

---
 bant/util/file-utils.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index 03b3261..3de76be 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -43,7 +43,9 @@ FilesystemPath::FilesystemPath(std::string_view path_up_to,
   while (path_up_to.ends_with('/')) path_up_to.remove_suffix(1);
   path_.reserve(path_up_to.length() + 1 + filename.length());
   path_.append(path_up_to).append("/").append(filename);
-  filename_offset_ = path_up_to.size() + 1;
+  if (!filename.contains('/')) {  // Otherwise filename() finds last slash.
+    filename_offset_ = path_up_to.size() + 1;
+  }
 }
 
 FilesystemPath::FilesystemPath(std::string_view path_up_to,
-- 
2.43.0


From f790479de459317531546c400a738414b6480f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 04/13] fix: text behind the last '*' of a target wildcard
 matches literally

---
 bant/types-bazel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bant/types-bazel.cc b/bant/types-bazel.cc
index 6ff6d93..3a785a9 100644
--- a/bant/types-bazel.cc
+++ b/bant/types-bazel.cc
@@ -212,7 +212,7 @@ static std::unique_ptr<RE2> GlobbingToRE2(std::string_view glob) {
     glob = glob.substr(pos + 1);
     is_first = false;
   }
-  absl::StrAppend(&assembled, glob);
+  absl::StrAppend(&assembled, RE2::QuoteMeta(glob));
   return std::make_unique<RE2>(assembled);
 }
 
-- 
2.43.0


From fe43322649d9f76499dfd81833316f363fec6f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 05/13] fix: strings in triple single quotes are triple quoted

---
 bant/frontend/ast.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bant/frontend/ast.cc b/bant/frontend/ast.cc
index 8982c38..5cbdf4d 100644
--- a/bant/frontend/ast.cc
+++ b/bant/frontend/ast.cc
@@ -57,7 +57,8 @@ StringScalar *StringScalar::FromLiteral(Arena *arena,
     is_raw = true;
     literal.remove_prefix(1);
   }
-  if (literal.length() >= 6 && literal.substr(0, 3) == R"(""")") {
+  if (literal.length() >= 6 &&
+      (literal.starts_with(R"(""")") || literal.starts_with("'''"))) {
     is_triple_quoted = true;
     literal = literal.substr(3);
     literal.remove_suffix(3);
-- 
2.43.0


From 614a41222d523e96ed3312430a7b026bb748b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 06/13] fix: octal literals with digits beyond 7 are not octal
 literals

---
 bant/frontend/ast.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bant/frontend/ast.cc b/bant/frontend/ast.cc
index 5cbdf4d..0aa0686 100644
--- a/bant/frontend/ast.cc
+++ b/bant/frontend/ast.cc
@@ -46,6 +46,9 @@ IntScalar *IntScalar::FromLiteral(Arena *arena, std::string_view literal) {
   if (result.ec != std::errc{}) {
     return nullptr;
   }
+  if (result.ptr != literal.end() && *result.ptr != '.') {
+    return nullptr;  // Digit that does not exist in that base, e.g. 0o18
+  }
   return arena->New<IntScalar>(string_rep, val);
 }
 
-- 
2.43.0


From add2f20c066fb188da9c75e0a76553e2ca705b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 07/13] fix: keep dependencies if a needed header only has
 invisible providers

---
 bant/tool/dwyu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 46ef440..97ecd3d 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -283,6 +283,8 @@ DWYUGenerator::DependenciesNeededBySources(
 
     if (result_set.empty()) {  // Didn't need to add anything: nothing visible
       result.pop_back();
+      // One of the existing dependencies might be what provides the header.
+      *all_headers_accounted_for = false;
     }
   };
 
-- 
2.43.0


From 4c63d5db79579ee4679bea2d5a34de372add7957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 08/13] fix: do not add a dependency of a target on itself

---
 bant/tool/dwyu.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 97ecd3d..0df1709 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -506,6 +506,10 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
 
   // Now, if there is still something we need, add them.
   for (const auto &need_add_alternatives : deps_needed) {
+    if (need_add_alternatives.contains(target)) {
+      continue;  // Target provides this header itself.
+    }
+
     // Only possible to auto-add if there is exactly one alternative.
     if (need_add_alternatives.size() > 1) {
       project_.Loc(session_.info(), details.name)
-- 
2.43.0


From d75533dedd16e71d9fb4c5aff4ad06b331d8414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 09/13] fix: check testonly of binaries when adding
 dependencies

Binaries are not among the known libraries, so a testonly dependency was
suggested for them. Look at the target's own details instead.
---
 bant/tool/dwyu-internal.h | 1 +
 bant/tool/dwyu.cc         | 9 +++------
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/bant/tool/dwyu-internal.h b/bant/tool/dwyu-internal.h
index da24ecb..17a109c 100644
--- a/bant/tool/dwyu-internal.h
+++ b/bant/tool/dwyu-internal.h
@@ -66,6 +66,7 @@ class DWYUGenerator {
   // Various predicates to check targets to make decisions to include/exclude.
   bool IsAlwayslink(const BazelTarget &target) const;
   bool IsTestonlyCompatible(const BazelTarget &target,
+                            const query::Result &target_detail,
                             const BazelTarget &dep) const;
   bool CanSee(const BazelTarget &target, const BazelTarget &dep) const;
 
diff --git a/bant/tool/dwyu.cc b/bant/tool/dwyu.cc
index 0df1709..5844d8c 100644
--- a/bant/tool/dwyu.cc
+++ b/bant/tool/dwyu.cc
@@ -168,6 +168,7 @@ bool DWYUGenerator::IsAlwayslink(const BazelTarget &target) const {
 }
 
 bool DWYUGenerator::IsTestonlyCompatible(const BazelTarget &target,
+                                         const query::Result &target_detail,
                                          const BazelTarget &dep) const {
   const auto dependency_detail_found = known_libs_.find(dep);
   if (dependency_detail_found == known_libs_.end()) return true;
@@ -175,11 +176,6 @@ bool DWYUGenerator::IsTestonlyCompatible(const BazelTarget &target,
   const query::Result &dep_detail = dependency_detail_found->second;
   if (!dep_detail.testonly) return true;  // non-testonly always compatible.
 
-  const auto target_detail_found = known_libs_.find(target);
-  if (target_detail_found == known_libs_.end()) {
-    return true;  // Should not happen, but let's not flag as issue.
-  }
-  const query::Result &target_detail = target_detail_found->second;
   if (target_detail.testonly || target_detail.rule == "cc_test") {
     return true;  // target and dependency are both tests.
   }
@@ -522,7 +518,8 @@ void DWYUGenerator::CreateEditsForTarget(const BazelTarget &target,
     }
 
     const BazelTarget &need_add = *need_add_alternatives.begin();
-    if (CanSee(target, need_add) && IsTestonlyCompatible(target, need_add)) {
+    if (CanSee(target, need_add) &&
+        IsTestonlyCompatible(target, details, need_add)) {
       emit_deps_edit_(EditRequest::kAdd, target, "",
                       need_add.ToStringRelativeTo(target.package));
     } else if (session_.flags().verbose > 1) {
-- 
2.43.0


From 7fdf780ea1e42a7d1e47ab97979678984e679d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 10/13] fix: no missing elements in lists of the syntax tree

After a parse error, lists could contain null elements, on which e.g.
looking at deps = [0o18] crashed. Also report a missing operand of a
unary operator in parentheses or array access.
---
 bant/frontend/ast.h     | 5 ++++-
 bant/frontend/parser.cc | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index ac6dff3..6f3606b 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -217,7 +217,10 @@ class List : public Node {
   size_t size() const { return list_.size(); }
   bool empty() const { return list_.size() == 0; }
 
-  void Append(Arena *arena, Node *value) { list_.Append(value, arena); }
+  // Elements are never null: what could not be parsed is not in the list.
+  void Append(Arena *arena, Node *value) {
+    if (value) list_.Append(value, arena);
+  }
   ArenaDeque<Node *>::iterator begin() { return list_.begin(); }
   ArenaDeque<Node *>::iterator end() { return list_.end(); }
 
diff --git a/bant/frontend/parser.cc b/bant/frontend/parser.cc
index e6464d8..726a6ef 100644
--- a/bant/frontend/parser.cc
+++ b/bant/frontend/parser.cc
@@ -298,7 +298,7 @@ class Parser::Impl {
     case '-':
     case TokenType::kNot: {
       const Token tok = scanner_->Next();
-      n = Make<UnaryExpr>(tok.type, ParseExpression(can_be_optional));
+      n = Make<UnaryExpr>(tok.type, ParseExpression());
       break;
     }
     case '(': n = ParseParenExpressionOrTuple(); break;
-- 
2.43.0


From 7d78bad6af794fa6ce57f72ed58297f09cc4e3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 11/13] fix: elaborating incomplete or odd expressions does not
 crash

Missing operands, keys or values left by parse errors were dereferenced,
and calling a name that is a variable holding no identifier replaced the
name of the call by something else.
---
 bant/frontend/ast.h          | 5 ++++-
 bant/frontend/elaboration.cc | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/bant/frontend/ast.h b/bant/frontend/ast.h
index 6f3606b..62f724b 100644
--- a/bant/frontend/ast.h
+++ b/bant/frontend/ast.h
@@ -396,7 +396,10 @@ class BaseNodeReplacementVisitor : public NodeVisitor {
   }
 
   Node *VisitFunCall(FunCall *f) override {
-    ReplaceWalk(&f->left_);
+    // The name of the function stays an identifier.
+    if (Node *const name = WalkNonNull(f->left_)) {
+      if (Identifier *const id = name->CastAsIdentifier()) f->left_ = id;
+    }
     ReplaceWalk(&f->right_);
     return f;
   }
diff --git a/bant/frontend/elaboration.cc b/bant/frontend/elaboration.cc
index e37432f..01fae18 100644
--- a/bant/frontend/elaboration.cc
+++ b/bant/frontend/elaboration.cc
@@ -79,7 +79,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
 
   Node *VisitAssignment(Assignment *a) final {
     Node *result = BaseNodeReplacementVisitor::VisitAssignment(a);
-    if (nest_level_ == 0 && a->maybe_identifier()) {
+    if (nest_level_ == 0 && a->maybe_identifier() && a->value()) {
       global_variables_[a->maybe_identifier()->id()] = a->value();
     }
     return result;
@@ -96,6 +96,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
     Node *post_visit = BaseNodeReplacementVisitor::VisitBinOpNode(b);
     BinOpNode *bin_op = post_visit->CastAsBinOp();  // still binop ?
     if (!bin_op) return post_visit;
+    if (!bin_op->left() || !bin_op->right()) return bin_op;  // parse error
     switch (bin_op->op()) {
     case '+': {
       {
@@ -161,6 +162,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
       for (Node *item : *select_map) {
         BinOpNode *map_item = item->CastAsBinOp();
         if (!map_item || map_item->op() != ':') continue;
+        if (!map_item->left() || !map_item->right()) continue;  // parse error
         Scalar *key = map_item->left()->CastAsScalar();
         if (key && conditions_.contains(key->AsString())) {
           return map_item->right();
@@ -180,7 +182,7 @@ class SimpleElaborator : public BaseNodeReplacementVisitor {
         continue;
       }
       if (Assignment *kwarg = arg->CastAsAssignment()) {
-        if (!kwarg->maybe_identifier()) continue;
+        if (!kwarg->maybe_identifier() || !kwarg->value()) continue;
         const std::string_view kw = kwarg->maybe_identifier()->id();
         if (kw == "include") {
           include_list = kwarg->value()->CastAsList();
-- 
2.43.0


From 869925d173c4029c9c67760ca5d614ed4ff529c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 12/13] fix: directory rejected under one name stays reachable
 under another

CollectFilesRecursive() remembered the inode of a directory before asking
if its path is wanted; a directory whose path was rejected (e.g. by name)
was then skipped when found again through an accepted path, such as a
symbolic link.
---
 bant/util/file-utils.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index 3de76be..8e3a3ef 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -202,12 +202,13 @@ std::vector<FilesystemPath> CollectFilesRecursive(
           FollowLinkTestIsDir(file_or_dir, &inode)));
 
       if (is_directory) {
+        // A rejected path does not count as seen: the same directory might be
+        // acceptable when reached through another path.
+        if (!want_dir_p(file_or_dir)) continue;
         if (LooksLikeValidInode(inode) && !seen_inode.insert(inode).second) {
           continue;  // Avoid getting caught in symbolic-link loops.
         }
-        if (want_dir_p(file_or_dir)) {
-          directory_worklist.emplace_back(file_or_dir.path());
-        }
+        directory_worklist.emplace_back(file_or_dir.path());
       } else if (want_file_p(file_or_dir)) {
         result_paths.emplace_back(std::move(file_or_dir));
       }
-- 
2.43.0


From d1d22d3f5706d049ea0e1d154b1604b38d79abe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 13/13] fix: don't collect files of the start directory twice

A symbolic link pointing back to the directory CollectFilesRecursive()
was started with was followed, so that all files in there were returned a
second time.
---
 bant/util/file-utils.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bant/util/file-utils.cc b/bant/util/file-utils.cc
index 8e3a3ef..205680b 100644
--- a/bant/util/file-utils.cc
+++ b/bant/util/file-utils.cc
@@ -175,6 +175,13 @@ std::vector<FilesystemPath> CollectFilesRecursive(
   std::vector<FilesystemPath> result_paths;
   absl::flat_hash_set<ino_t> seen_inode;  // make sure we don't run in circles.
 
+  // A symbolic link might bring us back to where we started.
+  ino_t start_inode;
+  if (FollowLinkTestIsDir(dir, &start_inode) &&
+      LooksLikeValidInode(start_inode)) {
+    seen_inode.insert(start_inode);
+  }
+
   std::deque<std::string> directory_worklist;
   directory_worklist.emplace_back(dir.path());
   while (!directory_worklist.empty()) {
-- 
2.43.0

