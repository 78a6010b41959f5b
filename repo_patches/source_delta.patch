From c048aafb0851880690b692789f2c82b88a724fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 01/20] fix: check_glob reads past the end of a pattern ending
 in "["

---
 src/glob.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glob.cpp b/src/glob.cpp
index 70089fb..cff30a7 100644
--- a/src/glob.cpp
+++ b/src/glob.cpp
@@ -80,7 +80,7 @@ namespace quickbook
         assert(begin != end && *begin == '[');
         ++begin;
 
-        if (*begin == ']') throw glob_error("empty range");
+        if (begin != end && *begin == ']') throw glob_error("empty range");
 
         while (begin != end) {
             switch (*begin) {
-- 
2.43.0


From 176725571964a87f899eaaf6e196bdf833f31dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 02/20] fix: escape_uri indexes its digit table out of bounds
 for bytes above 127

---
 src/utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 3a6b058..4ddefb1 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -195,8 +195,10 @@ namespace quickbook
                      !(n + 2 < uri_param.size() &&
                        std::strchr(hex, uri_param[n + 1]) &&
                        std::strchr(hex, uri_param[n + 2])))) {
-                    char escape[] = {'%', hex[uri_param[n] / 16],
-                                     hex[uri_param[n] % 16], '\0'};
+                    unsigned char const byte =
+                        static_cast<unsigned char>(uri_param[n]);
+                    char escape[] = {'%', hex[byte / 16], hex[byte % 16],
+                                     '\0'};
                     uri += escape;
                 }
                 else {
-- 
2.43.0


From 2e79349e413f99830ef1483e9f972402f657726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 03/20] fix: escape_uri leaves null characters unescaped

---
 src/utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 4ddefb1..12769a3 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -188,11 +188,15 @@ namespace quickbook
             uri.reserve(uri_param.size());
 
             for (std::string::size_type n = 0; n < uri_param.size(); ++n) {
+                // Note that strchr finds the terminating null, so null
+                // characters need to be checked for.
                 if (static_cast<unsigned char>(uri_param[n]) > 127 ||
+                    uri_param[n] == '\0' ||
                     (!std::isalnum(static_cast<unsigned char>(uri_param[n])) &&
                      !std::strchr(mark, uri_param[n])) ||
                     (uri_param[n] == '%' &&
-                     !(n + 2 < uri_param.size() &&
+                     !(n + 2 < uri_param.size() && uri_param[n + 1] &&
+                       uri_param[n + 2] &&
                        std::strchr(hex, uri_param[n + 1]) &&
                        std::strchr(hex, uri_param[n + 2])))) {
                     unsigned char const byte =
-- 
2.43.0


From 54149a3ab400e82dfae07750df038a2bb420a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 04/20] fix: position of an unindented block that starts with
 blank lines

unindent_and_add drops leading blank lines, but recorded the block as
starting at them, so positions in it were reported on the wrong line (or
to_original_pos's assertion failed).
---
 src/files.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/files.cpp b/src/files.cpp
index 2a1b033..e1513f3 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -589,7 +589,8 @@ namespace quickbook
 
         unindented_program.append(program.begin() + copy_start, program.end());
 
-        data->new_file->add_indented_mapped_file_section(x.begin());
+        data->new_file->add_indented_mapped_file_section(
+            x.begin() + text_start);
         data->new_file->source_.append(unindented_program);
     }
 
-- 
2.43.0


From 5d7a5db735004580d4f9b93832ad7c2c78c40666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 05/20] fix: to_original_pos at the end of a file that ends in
 an indented block

There's no character at the end of the file to compare with the original
source, so it read past the end of the text and its assertion failed.
---
 src/files.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/files.cpp b/src/files.cpp
index e1513f3..f1e9446 100644
--- a/src/files.cpp
+++ b/src/files.cpp
@@ -328,8 +328,10 @@ namespace quickbook
 
                 // The position is in the middle of indentation, so
                 // just return the start of the whitespace, which should
-                // be good enough.
-                if (our_line > pos) return original_line;
+                // be good enough. Likewise at the end of the file, where
+                // there's nothing after the indentation.
+                if (our_line > pos || our_line == source().size())
+                    return original_line;
 
                 original_line =
                     skip_indentation(original->source(), original_line);
-- 
2.43.0


From ddd9cc04dfc9491195942cb6a5dce21c2d54023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:09 +0000
Subject: [PATCH 06/20] fix: linkify looped forever on a newline inside a tag
 of a section title

---
 src/id_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/id_xml.cpp b/src/id_xml.cpp
index 8209f64..56f8aae 100644
--- a/src/id_xml.cpp
+++ b/src/id_xml.cpp
@@ -147,7 +147,7 @@ namespace quickbook
                         }
 
                         for (;;) {
-                            read_to_one_of(it, end, "\"'\n\r>");
+                            read_to_one_of(it, end, "\"'>");
                             if (it == end || *it == '>') break;
                             if (*it == '"' || *it == '\'') {
                                 char delim = *it;
-- 
2.43.0


From 46402ef57c0ae1147f84678658ca2d3687148b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 07/20] fix: the id of an include was lost when the included
 file has a docinfo block

---
 src/document_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document_state.cpp b/src/document_state.cpp
index aaf872e..906bc19 100644
--- a/src/document_state.cpp
+++ b/src/document_state.cpp
@@ -321,8 +321,8 @@ namespace quickbook
 
             if (!initial_doc_id.empty()) {
                 return create_new_section(
-                    empty_value(), id, id_category::explicit_section_id,
-                    default_source_mode);
+                    empty_value(), initial_doc_id,
+                    id_category::explicit_section_id, default_source_mode);
             }
             else if (!title.empty()) {
                 return create_new_section(
-- 
2.43.0


From 99f7c16d2b3b43164b9d74b98571c90af45911f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 08/20] fix: xml_parse read past the end of a text that ends
 after an attribute's equals sign

---
 src/xml_parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml_parse.cpp b/src/xml_parse.cpp
index 4a043bb..65f16e4 100644
--- a/src/xml_parse.cpp
+++ b/src/xml_parse.cpp
@@ -275,7 +275,7 @@ namespace quickbook
             string_iterator& it, string_iterator start, string_iterator end)
         {
             read_some_of(it, end, " \t\n\r");
-            if (*it == '"' || *it == '\'') {
+            if (it != end && (*it == '"' || *it == '\'')) {
                 return read_string(it, end);
             }
             else {
-- 
2.43.0


From c2ca54e0a1abbd4ad77f72821030e30a716ed9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:14 +0000
Subject: [PATCH 09/20] fix: leave absolute urls alone when making links
 relative in html output

---
 src/bb2html.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 44c8e75..113aee0 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -86,6 +86,7 @@ namespace quickbook
             html_state&, std::string const& path, std::string const& content);
         std::string get_link_from_path(
             html_gen&, quickbook::string_view, quickbook::string_view);
+        bool is_absolute_url(quickbook::string_view);
         std::string relative_path_or_url(html_gen&, path_or_url const&);
         std::string relative_path_from_fs_paths(
             fs::path const&, fs::path const&);
@@ -759,9 +760,29 @@ namespace quickbook
                 }
             }
 
+            if (is_absolute_url(link)) {
+                return link.to_s();
+            }
+
             return relative_path_from_url_paths(link, path);
         }
 
+        // Does the url start with a scheme?
+        bool is_absolute_url(quickbook::string_view url)
+        {
+            string_iterator it = url.begin();
+            for (; it != url.end() && *it != ':'; ++it) {
+                bool alpha =
+                    (*it >= 'a' && *it <= 'z') || (*it >= 'A' && *it <= 'Z');
+                bool other = (*it >= '0' && *it <= '9') || *it == '+' ||
+                             *it == '-' || *it == '.';
+                if (!alpha && (!other || it == url.begin())) {
+                    return false;
+                }
+            }
+            return it != url.begin() && it != url.end();
+        }
+
         std::string relative_path_or_url(html_gen& gen, path_or_url const& x)
         {
             assert(x);
-- 
2.43.0


From 3ba2d95468422fe1f7617a03bf19a2f7570ab2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:53 +0000
Subject: [PATCH 10/20] fix: don't read past the end of the link 'boost:'

---
 src/bb2html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 113aee0..eeb5977 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -743,7 +743,7 @@ namespace quickbook
                 // TODO: Parameterize the boost location, so that it can use
                 // relative paths.
                 string_iterator it = link.begin() + strlen("boost:");
-                if (*it == '/') {
+                if (it != link.end() && *it == '/') {
                     ++it;
                 }
                 if (!gen.state.options.boost_root_path) {
-- 
2.43.0


From 1c497e3293a0bd82896f6bf4a6bbab3d07f31e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:55 +0000
Subject: [PATCH 11/20] fix: post_process: code at the start of the document

do_code looked at the last character of the output even when the
output was empty.
---
 src/post_process.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/post_process.cpp b/src/post_process.cpp
index 1ee02bc..c45b4a4 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -345,7 +345,8 @@ namespace quickbook
         void do_code(iter_type f, iter_type l) const
         {
             state.printer.trim_spaces();
-            if (state.out[state.out.size() - 1] != '\n') state.out += '\n';
+            if (state.out.empty() || state.out[state.out.size() - 1] != '\n')
+                state.out += '\n';
 
             // trim trailing space from after closing tag
             while (f != l && std::isspace(*(l - 1))) {
-- 
2.43.0


From f81e552e51ae8957022533444ec345512a929d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:01 +0000
Subject: [PATCH 12/20] fix: post_process: line break inserted after escaped
 text

The printer may break the line before a tag when the character before it
is white space, but it was not told about the escaped text: a tag
directly after it could be moved to a new line, which adds white space to
the text.
---
 src/post_process.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/post_process.cpp b/src/post_process.cpp
index c45b4a4..e3f39ec 100644
--- a/src/post_process.cpp
+++ b/src/post_process.cpp
@@ -339,6 +339,7 @@ namespace quickbook
             }
             for (iter_type i = f; i != l; ++i) {
                 state.out += *i;
+                state.printer.prev = *i;
             }
         }
 
-- 
2.43.0


From b5bf6adaf05e5f36e2a597360500c4e2e9e6bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:51 +0000
Subject: [PATCH 13/20] fix: list nesting after a nested block that contains a
 list

The indentation of the current list item was left over from the list in
the nested block, so the items following in the outer list were nested
wrongly.
---
 src/main_grammar.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 6d9368f..36a9375 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -46,6 +46,8 @@ namespace quickbook
                               // (or paragraph if not in a list)
         unsigned int indent2; // Indent of paragraph
         char mark;            // List mark, '\0' if not in a list.
+        unsigned int outer_list_indent; // List indent to restore at the end
+                                        // of the context.
 
         // Example of inside a list:
         //
@@ -53,8 +55,13 @@ namespace quickbook
         //   * List item
         //     |indent2
 
-        explicit list_stack_item(list_item_type r)
-            : type(r), indent(0), indent2(0), mark('\0')
+        explicit list_stack_item(
+            list_item_type r, unsigned int outer_list_indent_)
+            : type(r)
+            , indent(0)
+            , indent2(0)
+            , mark('\0')
+            , outer_list_indent(outer_list_indent_)
         {
         }
 
@@ -64,6 +71,7 @@ namespace quickbook
             , indent(indent_)
             , indent2(indent2_)
             , mark(mark_)
+            , outer_list_indent(0)
         {
         }
     };
@@ -1131,7 +1139,8 @@ namespace quickbook
 
     void main_grammar_local::start_blocks_impl(parse_iterator, parse_iterator)
     {
-        list_stack.push(list_stack_item(list_stack_item::top_level));
+        list_stack.push(
+            list_stack_item(list_stack_item::top_level, list_indent));
     }
 
     void main_grammar_local::start_nested_blocks_impl(
@@ -1142,12 +1151,14 @@ namespace quickbook
         state_.in_list = state_.explicit_list;
         state_.explicit_list = false;
 
-        list_stack.push(list_stack_item(list_stack_item::nested_block));
+        list_stack.push(
+            list_stack_item(list_stack_item::nested_block, list_indent));
     }
 
     void main_grammar_local::end_blocks_impl(parse_iterator, parse_iterator)
     {
         clear_stack();
+        list_indent = list_stack.top().outer_list_indent;
         list_stack.pop();
     }
 
-- 
2.43.0


From c84b747e1b6b10a8cc7a0906292d7036bc19f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:51 +0000
Subject: [PATCH 14/20] fix: list item to the left of the first item in a
 nested block

It ended the list and then a list item that was not open, and was
reported as a change of list style.
---
 src/main_grammar.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main_grammar.cpp b/src/main_grammar.cpp
index 36a9375..1c7346b 100644
--- a/src/main_grammar.cpp
+++ b/src/main_grammar.cpp
@@ -1294,8 +1294,8 @@ namespace quickbook
             state_.end_list_item();
         }
         else {
-            // This should never reach root, since the first list
-            // has indentation 0.
+            // At the top level this never reaches root, since the first list
+            // has indentation 0. In a nested block it can.
             while (list_stack.top().type == list_stack_item::syntactic_list &&
                    new_indent < list_stack.top().indent) {
                 state_.end_list_item();
@@ -1303,7 +1303,14 @@ namespace quickbook
                 list_stack.pop();
             }
 
-            state_.end_list_item();
+            if (list_stack.top().type == list_stack_item::syntactic_list) {
+                state_.end_list_item();
+            }
+            else {
+                list_stack.push(
+                    list_stack_item(list_mark, new_indent, new_indent2));
+                state_.start_list(list_mark);
+            }
         }
 
         list_indent = new_indent;
-- 
2.43.0


From 7aed3836a1e497eef57defc7c81ad2bfa765d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:49 +0000
Subject: [PATCH 15/20] fix: paragraphs in a block that follows an explicit
 list are not list paragraphs

---
 src/block_element_grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_element_grammar.cpp b/src/block_element_grammar.cpp
index baba339..38c7121 100644
--- a/src/block_element_grammar.cpp
+++ b/src/block_element_grammar.cpp
@@ -259,7 +259,7 @@ namespace quickbook
             ;
 
         local.list =
-            *(  cl::eps_p                       [explicit_list]
+            *(  cl::eps_p(space >> '[')         [explicit_list]
             >>  local.cell
             )
             ;
-- 
2.43.0


From 54147e2e32f135e3529994325c4184b3c0dbd35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:03 +0000
Subject: [PATCH 16/20] fix: footnotes in titles are not repeated by the table
 of contents

---
 src/bb2html.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index eeb5977..4f915c6 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1401,6 +1401,11 @@ namespace quickbook
 
         NODE_RULE(footnote, gen, x)
         {
+            // The footnotes of a title are written where the title is.
+            if (gen.in_toc) {
+                return;
+            }
+
             // TODO: Better id generation....
             static int footnote_number = 0;
             ++footnote_number;
-- 
2.43.0


From 2a85873fbe334103fb8f4adeb3e13fdbf9637219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:05 +0000
Subject: [PATCH 17/20] fix: the link of a callout leads to its mark in the
 code

---
 src/bb2html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index 4f915c6..af508d0 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -1375,7 +1375,7 @@ namespace quickbook
             }
 
             if (link != gen.state.ids.end()) {
-                tag_start(gen.printer, "a");
+                tag_start_with_id(gen, "a", x);
                 tag_attribute(
                     gen.printer, "href", relative_path_from_url_paths(
                                              link->second.path(), gen.path));
-- 
2.43.0


From bfbf434c6577ccdabae67752bc1561a236510c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:16 +0000
Subject: [PATCH 18/20] fix: report errors when the output is flushed

A small document stays in the buffer of the stream until it is closed, so that
a full disk wasn't noticed and quickbook reported success.
---
 src/bb2html.cpp   | 1 +
 src/quickbook.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index af508d0..eacf3ca 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -725,6 +725,7 @@ namespace quickbook
             }
 
             fileout << html;
+            fileout.close();
 
             if (fileout.fail()) {
                 ::quickbook::detail::outerr(path)
diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index cc8fe0d..d045afa 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -240,6 +240,7 @@ namespace quickbook
                 }
 
                 fileout << stage2;
+                fileout.close();
 
                 if (fileout.fail()) {
                     ::quickbook::detail::outerr()
-- 
2.43.0


From 65eaf6b532fc285b55619a937bfd524d4dd07e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:16 +0000
Subject: [PATCH 19/20] fix: accept --output-dir for chunked output

A missing break reported an error whenever the option was used, the parent
of a relative directory wasn't found, and chunked output to a new directory
failed an assertion.
---
 src/quickbook.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/quickbook.cpp b/src/quickbook.cpp
index d045afa..8633639 100644
--- a/src/quickbook.cpp
+++ b/src/quickbook.cpp
@@ -618,12 +618,14 @@ int main(int argc, char* argv[])
                         quickbook::detail::command_line_to_path(
                             vm["output-dir"].as<command_line_string>());
 
-                    if (!fs::is_directory(options.output_path.parent_path())) {
+                    fs::path parent = options.output_path.parent_path();
+                    if (!parent.empty() && !fs::is_directory(parent)) {
                         quickbook::detail::outerr()
                             << "parent directory not found for output directory"
                             << std::endl;
                         ++error_count;
                     }
+                    break;
                 }
                 case quickbook::parse_document_options::output_file:
                     quickbook::detail::outerr()
@@ -703,7 +705,11 @@ int main(int argc, char* argv[])
                 // should be in filein's directory.
                 // If output_path was explicitly specified, then it's already
                 // been checked.
-                assert(error_count || fs::is_directory(options.xinclude_base));
+                // The directory of chunked output is created when it's written.
+                assert(
+                    error_count ||
+                    options.style == parse_document_options::output_chunked ||
+                    fs::is_directory(options.xinclude_base));
             }
 
             if (vm.count("image-location")) {
-- 
2.43.0


From c2ae05bcefc8097e73292a7168a032f02ce85c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:34 +0000
Subject: [PATCH 20/20] fix: exit status of html output with many errors

The number of errors was the exit status, of which only the lowest 8 bits
are kept: 256 pages that couldn't be written were reported as success.
---
 src/bb2html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bb2html.cpp b/src/bb2html.cpp
index eacf3ca..859f060 100644
--- a/src/bb2html.cpp
+++ b/src/bb2html.cpp
@@ -259,7 +259,7 @@ namespace quickbook
             if (chunked.root()) {
                 generate_chunks(state, chunked.root());
             }
-            return state.error_count;
+            return state.error_count ? 1 : 0;
         }
 
         void gather_chunk_ids(chunk_state& c_state, xml_element* x)
-- 
2.43.0

