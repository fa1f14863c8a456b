From b9dd2baad1341f672db5c81e7eb17cf4878321f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 01/41] fix: report out-of-range values of list options instead
 of dropping them

---
 include/sharg/detail/format_parse.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index b2b0feb..b7d9822 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -458,7 +458,11 @@ private:
                                    + get_type_name_as_string(option_type{}) + "."};
         }
 
-        if constexpr (std::is_arithmetic_v<option_type>)
+        if constexpr (detail::is_container_option<option_type>) // the result belongs to an element of the container
+        {
+            throw_on_input_error<typename option_type::value_type>(res, option_name, input_value);
+        }
+        else if constexpr (std::is_arithmetic_v<option_type>)
         {
             if (res == option_parse_result::overflow_error)
             {
-- 
2.43.0


From b901d5f8e12dee3de88d1c4f276cc137e22a19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 02/41] fix: name the true lower limit of floating point
 options in the error message

---
 include/sharg/detail/format_parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index b7d9822..2b9daa9 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -467,7 +467,7 @@ private:
             if (res == option_parse_result::overflow_error)
             {
                 throw user_input_error{msg + "Numeric argument " + input_value + " is not in the valid range ["
-                                       + std::to_string(std::numeric_limits<option_type>::min()) + ","
+                                       + std::to_string(std::numeric_limits<option_type>::lowest()) + ","
                                        + std::to_string(std::numeric_limits<option_type>::max()) + "]."};
             }
         }
-- 
2.43.0


From dabb5c6c86ad26e34e4cf2efcced75527c68d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 03/41] fix: do not search for short flags after --

---
 include/sharg/detail/format_parse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 2b9daa9..59d9e3e 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -258,8 +258,10 @@ private:
     bool flag_is_set(char const short_id)
     {
         // short flags need special attention, since they could be grouped (-rGv <=> -r -G -v)
-        for (std::string & arg : arguments)
+        for (auto it = arguments.begin(); it != end_of_options_it; ++it)
         {
+            std::string & arg = *it;
+
             if (arg[0] == '-' && arg.size() > 1 && arg[1] != '-') // is option && not dash && no long option
             {
                 auto pos = arg.find(short_id);
-- 
2.43.0


From 01e67c1abd2d23c141c1a68e88eb31aa35cd9e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 04/41] fix: do not treat arguments after -- as special
 requests

---
 include/sharg/parser.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 7f996ae..ad717e0 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -866,10 +866,12 @@ private:
         };
 
         // Process the arguments.
+        bool end_of_options{false};
+
         for (; read_next_arg();)
         {
             // The argument is a known option.
-            if (options.contains(std::string{arg}))
+            if (!end_of_options && options.contains(std::string{arg}))
             {
                 // No futher checks are needed.
                 format_arguments.emplace_back(arg);
@@ -890,6 +892,14 @@ private:
             if (found_subcommand())
                 break;
 
+            // Everything after the first "--" is a positional argument.
+            if (end_of_options || arg == option_end_identifier)
+            {
+                end_of_options = true;
+                format_arguments.emplace_back(arg);
+                continue;
+            }
+
             if (arg == "-h" || arg == "--help")
             {
                 format = detail::format_help{subcommands, version_check_dev_decision, false};
-- 
2.43.0


From c4b730fc434fb8d790e75275980201bc4d005157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 05/41] fix: read path values verbatim

---
 include/sharg/detail/format_parse.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 59d9e3e..67815a2 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -354,6 +354,17 @@ private:
         value = in;
         return option_parse_result::success;
     }
+
+    /*!\brief Sets a path to the given input verbatim. The stream operator would interpret quotes and blanks.
+     * \param[out] value Stores the parsed value.
+     * \param[in]  in    The input argument to be parsed.
+     * \returns sharg::option_parse_result::success.
+     */
+    option_parse_result parse_option_value(std::filesystem::path & value, std::string const & in)
+    {
+        value = in;
+        return option_parse_result::success;
+    }
     //!\endcond
 
     /*!\brief Parses the given option value and appends it to the target container.
-- 
2.43.0


From eb38993a9df9746a43c9aa2c056f9f8df56ea8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 06/41] fix: do not mistake the value of an option for another
 option

---
 include/sharg/parser.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index ad717e0..513e2dc 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -879,7 +879,12 @@ private:
                 // Consume the next argument (the option value) if possible.
                 if (read_next_arg())
                 {
-                    format_arguments.emplace_back(arg);
+                    // A value that looks like an identifier (or --) is attached such that it cannot be mistaken for one.
+                    if (arg.starts_with('-'))
+                        format_arguments.back().append("=").append(arg);
+                    else
+                        format_arguments.emplace_back(arg);
+
                     continue;
                 }
                 else // Too few arguments. This is handled by format_parse.
-- 
2.43.0


From 234357a164f44c8561e4efb34d1087d138203866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 07/41] fix: print a synopsis without blanks

---
 include/sharg/detail/format_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_base.hpp b/include/sharg/detail/format_base.hpp
index 8689b44..d2a37c2 100644
--- a/include/sharg/detail/format_base.hpp
+++ b/include/sharg/detail/format_base.hpp
@@ -527,7 +527,7 @@ protected:
         {
             std::string text = "\\fB";
             text.append(meta.synopsis[i]);
-            text.insert(text.find_first_of(" \t"), "\\fP");
+            text.insert(std::min(text.find_first_of(" \t"), text.size()), "\\fP");
 
             derived_t().print_line(text, false);
         }
-- 
2.43.0


From 41074eaf93740d785abf21fe610295a7eeabf8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 08/41] fix: do not read past the end of help texts ending in a
 backslash

---
 include/sharg/detail/format_help.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 7f6d80c..62318e6 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -227,7 +227,11 @@ protected:
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                assert(it != str.end());
+                if (it == str.end()) // trailing backslash
+                {
+                    result.push_back('\\');
+                    break;
+                }
                 if (*it == '-')
                 {
                     result.push_back(*it);
@@ -235,7 +239,11 @@ protected:
                 else if (*it == 'f')
                 {
                     ++it;
-                    assert(it != str.end());
+                    if (it == str.end()) // trailing "\f"
+                    {
+                        result.append("\\f");
+                        break;
+                    }
                     if (*it == 'I')
                     {
                         if (stdout_is_terminal())
-- 
2.43.0


From e65cf841b04da3d2f62a3880b1c4e167df8f2c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 09/41] fix: compute the width of help texts as they are
 printed

---
 include/sharg/detail/format_help.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 62318e6..1d23016 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -302,11 +302,11 @@ protected:
                 continue;
             }
 
-            if (text[i + 1] == '\\' || text[i + 1] == '-')
+            if (text[i + 1] == '-')
             {
                 i += 1;
                 result += 1;
-                continue; // Will print '\\' or '-'.
+                continue; // Will print '-'.
             }
 
             if (i + 2 == text.size())
@@ -318,10 +318,14 @@ protected:
 
             if (text[i + 1] == 'f')
             {
-                if (text[i + 2] == 'B' || text[i + 2] == 'I' || text[i + 2] == 'P')
-                    i += 2; // Skip f and {B, I, P}.
-                else
-                    result += 1;
+                if (text[i + 2] != 'B' && text[i + 2] != 'I' && text[i + 2] != 'P')
+                    result += 3; // Will print three chars.
+                i += 2;          // Skip f and the following char.
+            }
+            else
+            {
+                i += 1;
+                result += 2; // Will print two chars.
             }
         }
 
-- 
2.43.0


From fb67d448f59a9eff337149c8af2b3b231d5616ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 10/41] fix: escape all texts in the HTML export and keep it
 well-formed

---
 include/sharg/detail/format_html.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index cfa93e4..b4b48e0 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -176,13 +176,17 @@ private:
         std::string result;
         std::vector<std::string> open_tags; // acts as a stack of html tags
 
-        for (auto it = input.begin(); it != input.end(); ++it)
+        for (auto it = buffer.begin(); it != buffer.end(); ++it)
         {
             if (*it == '\\')
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                assert(!(it == input.end()));
+                if (it == buffer.end()) // trailing backslash
+                {
+                    result.push_back('\\');
+                    break;
+                }
                 if (*it == '-')
                 {
                     result.push_back(*it);
@@ -190,7 +194,11 @@ private:
                 else if (*it == 'f')
                 {
                     ++it;
-                    assert(!(it == input.end()));
+                    if (it == buffer.end()) // trailing "\f"
+                    {
+                        result.append("\\f");
+                        break;
+                    }
                     if (*it == 'I')
                     {
                         open_tags.push_back("em");
@@ -203,7 +211,8 @@ private:
                     }
                     else if (*it == 'P')
                     {
-                        assert(!open_tags.empty());
+                        if (open_tags.empty()) // nothing to reset
+                            continue;
                         result.append("</");
                         result.append(open_tags.back());
                         result.append(">");
@@ -227,6 +236,9 @@ private:
             }
         }
 
+        for (; !open_tags.empty(); open_tags.pop_back()) // close what the text left open
+            result.append("</").append(open_tags.back()).append(">");
+
         return result;
     }
 
@@ -236,7 +248,7 @@ private:
      */
     std::string in_bold(std::string const & str)
     {
-        return "<strong>" + str + "</strong>";
+        return "\\fB" + str + "\\fP";
     }
 
     //!\brief Current state is either inside a html \<dl\> tag (true) or not (false).
-- 
2.43.0


From 22e0b84fe4570194f098abcedeed7b06eda43713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:58 +0000
Subject: [PATCH 11/41] fix: keep declared options valid when a parser is moved

---
 include/sharg/parser.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 513e2dc..431b373 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -243,14 +243,14 @@ public:
         check_parse_not_called("add_option");
         verify_option_config(config);
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_option(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -279,14 +279,14 @@ public:
         if (value)
             throw design_error("A flag's default value must be false.");
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_flag(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -330,14 +330,14 @@ public:
         if constexpr (detail::is_container_option<option_type>)
             has_positional_list_option = true; // keep track of a list option because there must be only one!
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_positional_option(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -426,7 +426,7 @@ public:
 
         // Apply all defered operations to the parser, e.g., `add_option`, `add_flag`, `add_positional_option`.
         for (auto & operation : operations)
-            operation();
+            operation(*this);
 
         // The version check, which might exit the program, must be called before calling parse on the format.
         run_version_check();
@@ -533,14 +533,14 @@ public:
     {
         check_parse_not_called("add_section");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](parser & self)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
                 f.add_section(title, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -560,14 +560,14 @@ public:
     {
         check_parse_not_called("add_subsection");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](parser & self)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
                 f.add_subsection(title, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -588,14 +588,14 @@ public:
     {
         check_parse_not_called("add_line");
 
-        auto operation = [this, text, is_paragraph, advanced_only]()
+        auto operation = [text, is_paragraph, advanced_only](parser & self)
         {
             auto visit_fn = [&text, is_paragraph, advanced_only](auto & f)
             {
                 f.add_line(text, is_paragraph, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -625,14 +625,14 @@ public:
     {
         check_parse_not_called("add_list_item");
 
-        auto operation = [this, key, desc, advanced_only]()
+        auto operation = [key, desc, advanced_only](parser & self)
         {
             auto visit_fn = [&key, &desc, advanced_only](auto & f)
             {
                 f.add_list_item(key, desc, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -776,7 +776,7 @@ private:
     std::unordered_set<std::string> options{};
 
     //!\brief Vector of functions that stores all calls.
-    std::vector<std::function<void()>> operations;
+    std::vector<std::function<void(parser &)>> operations;
 
     /*!\brief Handles format and subcommand detection.
      * \throws sharg::too_few_arguments if option --export-help was specified without a value
-- 
2.43.0


From 0afdf98495529febf00a50c5f02b0a65b1fc20d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:58 +0000
Subject: [PATCH 12/41] fix: only accept file extensions that are preceded by a
 dot

---
 include/sharg/validators.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index f448d51..f21f8c0 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -392,7 +392,8 @@ protected:
         // Compares the extensions in lower case.
         auto case_insensitive_ends_with = [&](std::string const & ext)
         {
-            return case_insensitive_string_ends_with(file_path, ext);
+            // The extension must be separated from the stem by a dot.
+            return case_insensitive_string_ends_with(file_path, ext.empty() || ext.starts_with('.') ? ext : "." + ext);
         };
 
         // Check if requested extension is present.
-- 
2.43.0


From 6769f60ba003e19ee9b524509df8dd2e721b3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 13/41] fix: output file validation neither deletes unwritable
 files nor truncates link targets

---
 include/sharg/validators.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index f21f8c0..8876a37 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -440,14 +440,14 @@ protected:
     void validate_writeability(std::filesystem::path const & path) const
     {
         // Contingency check. This case should already be handled by the output_file_validator.
-        // Opening a file handle on a directory would delete its contents.
         // LCOV_EXCL_START
         if (std::filesystem::is_directory(path))
             throw validation_error{"\"" + path.string() + "\" is a directory. Cannot validate writeability."};
         // LCOV_EXCL_STOP
 
-        std::ofstream file{path};
-        sharg::detail::safe_filesystem_entry file_guard{path};
+        bool const file_exists{std::filesystem::exists(path)};
+
+        std::ofstream file{path, std::ios::app};
 
         bool is_open = file.is_open();
         bool is_good = file.good();
@@ -456,6 +456,8 @@ protected:
         if (!is_good || !is_open)
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
+        // Remove what was created; this is not `path` itself if `path` was a dangling link.
+        sharg::detail::safe_filesystem_entry file_guard{file_exists ? path : std::filesystem::canonical(path)};
         file_guard.remove();
     }
 
-- 
2.43.0


From 1ee9a30bc07be94381703de6cf75944dfda1a379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 14/41] fix: judge output directories independent of a
 dummy.txt they contain

---
 include/sharg/validators.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 8876a37..1c192b1 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -723,11 +723,11 @@ public:
      */
     virtual void operator()(std::filesystem::path const & file) const override
     {
-        if (std::filesystem::is_directory(file))
-            throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
-
         try
         {
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
@@ -910,9 +910,9 @@ public:
      */
     virtual void operator()(std::filesystem::path const & dir) const override
     {
-        bool dir_exists = std::filesystem::exists(dir);
-        // Make sure the created dir is deleted after we are done.
         std::error_code ec;
+        bool dir_exists = std::filesystem::exists(dir, ec);
+        // Make sure the created dir is deleted after we are done.
         std::filesystem::create_directory(dir, ec); // does nothing and is not treated as error if path already exists.
         // if error code was set or if dummy.txt could not be created within the output dir, throw an error.
         if (static_cast<bool>(ec))
@@ -928,7 +928,11 @@ public:
             }
             else
             {
-                validate_writeability(dir / "dummy.txt");
+                std::filesystem::path dummy{dir / "dummy.txt"};
+                while (std::filesystem::exists(std::filesystem::symlink_status(dummy))) // Use a name that is not taken.
+                    dummy += "_";
+
+                validate_writeability(dummy);
             }
         }
         // LCOV_EXCL_START
-- 
2.43.0


From f8c75ec08a34890842e21332d6a0053cf025410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 15/41] fix: do not access the file system if the version check
 is disabled

---
 include/sharg/parser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 431b373..0eaf39c 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -1128,6 +1128,11 @@ private:
      */
     inline void run_version_check()
     {
+        // Constructing the version_checker accesses the file system.
+        if (version_check_dev_decision == update_notifications::off
+            || std::getenv("SHARG_NO_VERSION_CHECK") != nullptr || !version_check_user_decision.value_or(true))
+            return;
+
         detail::version_checker app_version{info.app_name, info.version, info.url};
 
         if (app_version.decide_if_check_is_performed(version_check_dev_decision, version_check_user_decision))
-- 
2.43.0


From 73adb3d21ac14c1f3b31dff6d70b8492b25662de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 16/41] fix: cope with missing or unusable home and temporary
 directories in the version check

---
 include/sharg/detail/version_check.hpp | 27 ++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index b57c93d..de57e99 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -225,13 +225,20 @@ public:
         using namespace std::filesystem;
 
         path tmp_path;
+        std::error_code err;
 
-        tmp_path = std::string{getenv(home_env_name)};
-        tmp_path /= ".config";
+        if (char const * const home = std::getenv(home_env_name); home != nullptr && *home != '\0')
+        {
+            tmp_path = home;
+            tmp_path /= ".config";
 
-        // First, create .config if it does not already exist.
-        std::error_code err;
-        create_directory(tmp_path, err);
+            // First, create .config if it does not already exist.
+            create_directory(tmp_path, err);
+        }
+        else // no home directory
+        {
+            err = std::make_error_code(std::errc::no_such_file_or_directory);
+        }
 
         // If this did not fail we, create the seqan subdirectory.
         if (!err)
@@ -242,10 +249,15 @@ public:
 
         // .config/seqan cannot be created, try tmp directory.
         if (err)
-            tmp_path = temp_directory_path(); // choose temp dir instead
+            tmp_path = temp_directory_path(err); // choose temp dir instead
+
+        if (tmp_path.empty()) // no tmp directory
+            return tmp_path;
 
         // check if files can be written inside dir
         path dummy = tmp_path / "dummy.txt";
+        while (exists(symlink_status(dummy, err))) // do not touch files of others
+            dummy += "_";
         std::ofstream file{dummy};
         sharg::detail::safe_filesystem_entry file_guard{dummy};
 
@@ -295,6 +307,9 @@ public:
         if (std::getenv("SHARG_NO_VERSION_CHECK") != nullptr) // environment variable was set
             return false;
 
+        if (cookie_path.empty()) // no directory to write to
+            return false;
+
         if (user_approval.has_value())
             return user_approval.value();
 
-- 
2.43.0


From 3bc0a31b52c2e6b72a58d6218a8e1f23ea83b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 17/41] fix: quote the path of the version file in the shell
 command

---
 include/sharg/detail/version_check.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index de57e99..24ece78 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -187,7 +187,7 @@ public:
 
         // build up command for server call
         std::string command = program + // no user defined input
-                              " " + out_file.string() + " "
+                              " " + quote_for_shell(out_file.string()) + " "
                             + std::string{"https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_"} +
 #ifdef __linux
                               "Linux" +
@@ -450,6 +450,24 @@ public:
     std::filesystem::path timestamp_filename;
 
 private:
+    //!\brief Quotes a string such that the shell takes it literally.
+    static std::string quote_for_shell(std::string const & str)
+    {
+#if defined(_WIN32)
+        return str;
+#else
+        std::string result{'\''};
+        for (char const c : str)
+        {
+            if (c == '\'')
+                result += "'\\''";
+            else
+                result += c;
+        }
+        return result + '\'';
+#endif
+    }
+
     //!\brief Returns the command line call as a std::string of an available program depending on the environment.
     static std::string get_program()
     {
-- 
2.43.0


From c7827e028f9a06fd5ac47ccd0637d0005f18d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 18/41] fix: renew the timestamp when a version check is
 performed

---
 include/sharg/detail/version_check.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 24ece78..aca5bb8 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -328,7 +328,8 @@ public:
                     return false;
                 }
 
-                std::getline(timestamp_file, cookie_line); // second line contains the last user decision
+                // second line contains the last user decision
+                bool const has_decision{static_cast<bool>(std::getline(timestamp_file, cookie_line))};
 
                 if (cookie_line == "NEVER")
                 {
@@ -336,6 +337,9 @@ public:
                 }
                 else if (cookie_line == "ALWAYS")
                 {
+                    timestamp_file.close();
+                    if (has_decision)
+                        write_cookie("ALWAYS"); // Renew the timestamp: at most one check a day.
                     return true;
                 }
                 // else we do not return but continue to ask the user
-- 
2.43.0


From 94278e731de93f5bd1d53a6740c7cb99f7cbceeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 19/41] fix: end the line of help page entries without text

---
 include/sharg/detail/format_help.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 1d23016..0c8d330 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -381,8 +381,7 @@ protected:
                 }
             }
         }
-        if (!empty(tokens))
-            std::cout << '\n';
+        std::cout << '\n';
     }
 
     /*!\brief Format string in bold.
-- 
2.43.0


From 5269cc6f678518d93869c6b069af140798d3cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 20/41] fix: print lists of 8 bit integers as numbers

---
 include/sharg/detail/to_string.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/sharg/detail/to_string.hpp b/include/sharg/detail/to_string.hpp
index a8e90a6..5a43b0d 100644
--- a/include/sharg/detail/to_string.hpp
+++ b/include/sharg/detail/to_string.hpp
@@ -41,7 +41,17 @@ std::string to_string(value_types &&... values)
 {
     std::stringstream stream;
 
-    auto print = [&stream](auto && val)
+    auto print_element = [&stream](auto const & val)
+    {
+        using value_t = std::remove_cvref_t<decltype(val)>;
+
+        if constexpr (std::is_same_v<value_t, int8_t> || std::is_same_v<value_t, uint8_t>)
+            stream << static_cast<int16_t>(val);
+        else
+            stream << val;
+    };
+
+    auto print = [&stream, &print_element](auto && val)
     {
         using value_t = std::remove_cvref_t<decltype(val)>;
 
@@ -57,19 +67,18 @@ std::string to_string(value_types &&... values)
             {
                 stream << '[';
                 auto it = val.begin();
-                stream << *it++;
+                print_element(*it++);
                 for (; it != val.end(); ++it)
-                    stream << ", " << *it;
+                {
+                    stream << ", ";
+                    print_element(*it);
+                }
                 stream << ']';
             }
         }
-        else if constexpr (std::is_same_v<value_t, int8_t> || std::is_same_v<value_t, uint8_t>)
-        {
-            stream << static_cast<int16_t>(val);
-        }
         else
         {
-            stream << val;
+            print_element(val);
         }
     };
 
-- 
2.43.0


From c12ce63e40e91dd421aa92ba9be1c4c8a47c3b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 21/41] fix: reject add_subcommands after parse as documented

---
 include/sharg/parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 0eaf39c..4b01ac8 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -651,6 +651,8 @@ public:
      */
     void add_subcommands(std::vector<std::string> const & subcommands)
     {
+        check_parse_not_called("add_subcommands");
+
         auto & parser_subcommands = this->subcommands;
         parser_subcommands.insert(parser_subcommands.end(), subcommands.cbegin(), subcommands.cend());
 
-- 
2.43.0


From d9104c9440057dec459a42932029a82a3719bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 22/41] fix: do not read past the end of enumeration names

---
 include/sharg/detail/format_parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 67815a2..8221a45 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -333,7 +333,7 @@ private:
 
                 std::string result{'['};
                 for (auto const & [key, value] : key_value_pairs)
-                    result += std::string{key.data()} + ", ";
+                    result += std::string{key} + ", ";
                 result.replace(result.size() - 2, 2, "]"); // replace last ", " by "]"
                 return result;
             }();
-- 
2.43.0


From ec9ab59f726a23a1a14791ad0fc6b98347dd49f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 23/41] fix: always show advanced options in exports as
 documented

---
 include/sharg/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 4b01ac8..a313b1f 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -939,9 +939,9 @@ private:
                 }
 
                 if (arg == "html")
-                    format = detail::format_html{subcommands, version_check_dev_decision};
+                    format = detail::format_html{subcommands, version_check_dev_decision, true};
                 else if (arg == "man")
-                    format = detail::format_man{subcommands, version_check_dev_decision};
+                    format = detail::format_man{subcommands, version_check_dev_decision, true};
                 else if (arg == "ctd")
                     format = detail::format_tdl{detail::format_tdl::FileFormat::CTD};
                 else if (arg == "cwl")
-- 
2.43.0


From 458e0bad80099287c207eb4928c567221609d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 24/41] fix: find flags inside clusters in is_option_set

---
 include/sharg/parser.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index a313b1f..fc84d78 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -512,6 +512,21 @@ public:
 
         // we only need to search for an option before the `option_end_identifier` (`--`)
         auto option_end = std::find(format_arguments.begin(), format_arguments.end(), option_end_identifier);
+
+        if constexpr (std::same_as<id_type, char>)
+        {
+            // A flag may be part of a cluster, e.g. -abc, that is not an option with an attached value.
+            if (!options.contains(std::string{'-', id}))
+            {
+                auto is_in_cluster = [this, id](std::string const & arg)
+                {
+                    return arg.size() > 1 && arg[0] == '-' && arg[1] != '-' && !options.contains(arg.substr(0, 2))
+                        && arg.find(id, 1) != std::string::npos;
+                };
+                return std::any_of(format_arguments.begin(), option_end, is_in_cluster);
+            }
+        }
+
         auto option_it = detail::format_parse::find_option_id(format_arguments.begin(), option_end, short_or_long_id);
         return option_it != option_end;
     }
-- 
2.43.0


From 35830b1b8a60593fe301c0773f7720a346a2d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 25/41] fix: print texts starting with a control character as
 text in the man page export

---
 include/sharg/detail/format_man.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/sharg/detail/format_man.hpp b/include/sharg/detail/format_man.hpp
index 96843c2..e20af37 100644
--- a/include/sharg/detail/format_man.hpp
+++ b/include/sharg/detail/format_man.hpp
@@ -79,7 +79,7 @@ private:
         std::cout << " " << meta.version << "\" \"" << meta.man_page_title << "\"\n";
 
         // Print NAME section.
-        std::cout << ".SH NAME\n" << meta.app_name << " \\- " << meta.short_description << std::endl;
+        std::cout << ".SH NAME\n" << meta.app_name << " \\- " << to_man(meta.short_description) << std::endl;
     }
 
     /*!\brief Prints a section title in man page format to std::cout.
@@ -122,7 +122,7 @@ private:
         else if (!is_first_in_section && !line_is_paragraph)
             std::cout << ".br\n";
 
-        std::cout << text << "\n";
+        std::cout << to_man(text) << "\n";
         is_first_in_section = false;
     }
 
@@ -137,7 +137,7 @@ private:
      */
     void print_list_item(std::string const & term, std::string const & desc)
     {
-        std::cout << ".TP\n" << term << "\n" << desc << "\n";
+        std::cout << ".TP\n" << to_man(term) << "\n" << to_man(desc) << "\n";
         is_first_in_section = false;
     }
 
@@ -147,6 +147,25 @@ private:
         // no footer
     }
 
+    /*!\brief Protects lines of a text that would be read as a request by the formatter.
+     * \param[in] text The text to protect.
+     * \returns The text, where lines starting with a control character are preceded by a zero-width character.
+     */
+    static std::string to_man(std::string const & text)
+    {
+        std::string result;
+
+        for (size_t i = 0; i < text.size(); ++i)
+        {
+            if ((text[i] == '.' || text[i] == '\'') && (i == 0 || text[i - 1] == '\n'))
+                result.append("\\&");
+
+            result.push_back(text[i]);
+        }
+
+        return result;
+    }
+
     /*!\brief Format string as in_bold.
      * \param[in] str The input string to format in bold.
      * \returns The string `str` wrapped in bold formatting.
-- 
2.43.0


From 5dc9a9a798c6aba2c1498bb7c4df354b00f736f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 26/41] fix: keep all values of a list option given by both its
 identifiers

---
 include/sharg/detail/format_parse.hpp | 53 +++++++++++++++++++--------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 8221a45..d1b4d1c 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -582,8 +582,9 @@ private:
 
     /*!\brief Handles value retrieval (container type) options.
      *
-     * \param[out] value Stores all values found in arguments, parsed by parse_option_value.
-     * \param[in]  id    The option identifier supplied on the command line.
+     * \param[out] value    Stores all values found in arguments, parsed by parse_option_value.
+     * \param[in]  short_id The short option identifier.
+     * \param[in]  long_id  The long option identifier.
      *
      * \details
      *
@@ -591,19 +592,28 @@ private:
      * multiple times.
      *
      */
-    template <detail::is_container_option option_type, typename id_type>
-    bool get_option_by_id(option_type & value, id_type const & id)
+    template <detail::is_container_option option_type>
+    bool get_option_by_ids(option_type & value, char const short_id, std::string const & long_id)
     {
-        auto it = find_option_id(arguments.begin(), end_of_options_it, id);
-        bool seen_at_least_once{it != end_of_options_it};
+        auto short_it = find_option_id(arguments.begin(), end_of_options_it, short_id);
+        auto long_it = find_option_id(arguments.begin(), end_of_options_it, long_id);
+        bool seen_at_least_once{short_it != end_of_options_it || long_it != end_of_options_it};
 
         if (seen_at_least_once)
             value.clear();
 
-        while (it != end_of_options_it)
+        while (short_it != end_of_options_it || long_it != end_of_options_it)
         {
-            identify_and_retrieve_option_value(value, it, id);
-            it = find_option_id(it, end_of_options_it, id);
+            if (short_it < long_it) // Values are stored in the order of the command line.
+            {
+                identify_and_retrieve_option_value(value, short_it, short_id);
+                short_it = find_option_id(short_it, end_of_options_it, short_id);
+            }
+            else
+            {
+                identify_and_retrieve_option_value(value, long_it, long_id);
+                long_it = find_option_id(long_it, end_of_options_it, long_id);
+            }
         }
 
         return seen_at_least_once;
@@ -694,15 +704,26 @@ private:
     template <typename option_type, typename validator_t>
     void get_option(option_type & value, config<validator_t> const & config)
     {
-        bool short_id_is_set{get_option_by_id(value, config.short_id)};
-        bool long_id_is_set{get_option_by_id(value, config.long_id)};
+        bool is_set{};
 
-        // if value is no container we need to check for multiple declarations
-        if (short_id_is_set && long_id_is_set && !detail::is_container_option<option_type>)
-            throw option_declared_multiple_times("Option " + combine_option_names(config.short_id, config.long_id)
-                                                 + " is no list/container but specified multiple times");
+        if constexpr (detail::is_container_option<option_type>)
+        {
+            is_set = get_option_by_ids(value, config.short_id, config.long_id);
+        }
+        else
+        {
+            bool short_id_is_set{get_option_by_id(value, config.short_id)};
+            bool long_id_is_set{get_option_by_id(value, config.long_id)};
+
+            // if value is no container we need to check for multiple declarations
+            if (short_id_is_set && long_id_is_set)
+                throw option_declared_multiple_times("Option " + combine_option_names(config.short_id, config.long_id)
+                                                     + " is no list/container but specified multiple times");
+
+            is_set = short_id_is_set || long_id_is_set;
+        }
 
-        if (short_id_is_set || long_id_is_set)
+        if (is_set)
         {
             try
             {
-- 
2.43.0


From 2b92eecb070ad061aec656fb265803dee515c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:59 +0000
Subject: [PATCH 27/41] fix: do not drop empty positional arguments

---
 include/sharg/detail/format_parse.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index d1b4d1c..a8553fb 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -118,7 +118,7 @@ public:
         check_for_unknown_ids();
 
         if (end_of_options_it != arguments.end())
-            *end_of_options_it = ""; // remove -- before parsing positional arguments
+            *end_of_options_it = consumed; // remove -- before parsing positional arguments
 
         for (auto && f : positional_option_calls)
             f();
@@ -247,7 +247,7 @@ private:
         auto it = std::find(arguments.begin(), end_of_options_it, prepend_dash(long_id));
 
         if (it != end_of_options_it)
-            *it = ""; // remove seen flag
+            *it = consumed; // remove seen flag
 
         return (it != end_of_options_it);
     }
@@ -271,7 +271,7 @@ private:
                     arg.erase(pos, 1); // remove seen bool
 
                     if (arg == "-") // if flag is empty now
-                        arg = "";
+                        arg = consumed;
 
                     return true;
                 }
@@ -528,16 +528,16 @@ private:
                     input_value = (*option_it).substr(id_size);
                 }
 
-                *option_it = ""; // remove used identifier-value pair
+                *option_it = consumed; // remove used identifier-value pair
             }
             else // -key value
             {
-                *option_it = ""; // remove used identifier
+                *option_it = consumed; // remove used identifier
                 ++option_it;
                 if (option_it == end_of_options_it) // should not happen
                     throw too_few_arguments("Missing value for option " + prepend_dash(id));
                 input_value = *option_it;
-                *option_it = ""; // remove value
+                *option_it = consumed; // remove value
             }
 
             auto res = parse_option_value(value, input_value);
@@ -678,7 +678,7 @@ private:
                          arguments.end(),
                          [](std::string const & s)
                          {
-                             return (s != "");
+                             return (s != consumed);
                          })
             != arguments.end())
             throw too_many_arguments("Too many arguments provided. Please see -h/--help for more information.");
@@ -788,7 +788,7 @@ private:
                                arguments.end(),
                                [](std::string const & s)
                                {
-                                   return (s != "");
+                                   return (s != consumed);
                                });
 
         if (it == arguments.end())
@@ -809,12 +809,12 @@ private:
                 std::string id = "positional option" + std::to_string(positional_option_count);
                 throw_on_input_error<option_type>(res, id, *it);
 
-                *it = ""; // remove arg from arguments
+                *it = consumed; // remove arg from arguments
                 it = std::find_if(it,
                                   arguments.end(),
                                   [](std::string const & s)
                                   {
-                                      return (s != "");
+                                      return (s != consumed);
                                   });
                 ++positional_option_count;
             }
@@ -825,7 +825,7 @@ private:
             std::string id = "positional option" + std::to_string(positional_option_count);
             throw_on_input_error<option_type>(res, id, *it);
 
-            *it = ""; // remove arg from arguments
+            *it = consumed; // remove arg from arguments
         }
 
         try
@@ -847,6 +847,9 @@ private:
     std::vector<std::function<void()>> positional_option_calls;
     //!\brief Keeps track of the number of specified positional options.
     unsigned positional_option_count{0};
+    //!\brief Replaces arguments that have been processed. Not empty, because an empty argument is a valid value.
+    static inline std::string const consumed{'\0'};
+
     //!\brief Vector of command line arguments.
     std::vector<std::string> arguments;
     //!\brief Artificial end of arguments if \-- was seen.
-- 
2.43.0


From 7c26ed7ec775971bdd71b0ce235eb3990eb0773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:27 +0000
Subject: [PATCH 28/41] fix: cope with overlong and overflowing version records

---
 include/sharg/detail/version_check.hpp | 30 +++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index aca5bb8..ef6893f 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -446,8 +446,6 @@ public:
     std::string name;
     //!\brief The version of the application.
     std::string version{"0.0.0"};
-    //!\brief The regex to verify a valid version string.
-    std::regex version_regex{"^[[:digit:]]+\\.[[:digit:]]+\\.[[:digit:]]+$"};
     //!\brief The path to store timestamp and version files (either ~/.config/seqan or the tmp directory).
     std::filesystem::path cookie_path = get_path();
     //!\brief The timestamp filename.
@@ -508,18 +506,34 @@ private:
     }
 
     /*!\brief Parses a version string into an array of length 3.
-     * \param[in] str The version string that must match sharg::detail::version_regex.
+     * \param[in] str The version string: three numbers separated by '.'.
+     * \returns The three numbers, or three zeros if the string is malformed.
      */
     std::array<int, 3> get_numbers_from_version_string(std::string const & str) const
     {
         std::array<int, 3> result{};
+        char const * it = str.data();
+        char const * const end = str.data() + str.size();
 
-        if (!std::regex_match(str, version_regex))
-            return result;
+        // Not a regex: The string is read from a file and might be arbitrarily long.
+        for (size_t i = 0; i < result.size(); ++i)
+        {
+            if (i > 0 && (it == end || *it++ != '.'))
+                return {};
+
+            if (it == end || *it == '-') // only digits
+                return {};
+
+            auto const [ptr, error_code] = std::from_chars(it, end, result[i]);
+
+            if (error_code != std::errc{}) // no number, or too large
+                return {};
+
+            it = ptr;
+        }
 
-        auto res = std::from_chars(str.data(), str.data() + str.size(), result[0]); // stops and sets res.ptr at '.'
-        res = std::from_chars(res.ptr + 1, str.data() + str.size(), result[1]);
-        res = std::from_chars(res.ptr + 1, str.data() + str.size(), result[2]);
+        if (it != end)
+            return {};
 
         return result;
     }
-- 
2.43.0


From 8471bdc15676b978b76d12594b0a146d766b55c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 29/41] fix: input file validator rejects directories

---
 include/sharg/validators.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 1c192b1..9f69635 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -570,6 +570,9 @@ public:
             if (!std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" does not exist!"};
 
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             // Check if file is regular and can be opened for reading.
             validate_readability(file);
 
-- 
2.43.0


From a9a68516152bf158eccc8df970750196c6a70c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:44 +0000
Subject: [PATCH 30/41] fix: accept existing output files in directories that
 do not permit removal

---
 include/sharg/validators.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 9f69635..442d28c 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -456,9 +456,17 @@ protected:
         if (!is_good || !is_open)
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
-        // Remove what was created; this is not `path` itself if `path` was a dangling link.
-        sharg::detail::safe_filesystem_entry file_guard{file_exists ? path : std::filesystem::canonical(path)};
-        file_guard.remove();
+        if (file_exists)
+        {
+            std::error_code ec{};
+            std::filesystem::remove(path, ec); // Writable files may reside in directories that do not permit removal.
+        }
+        else
+        {
+            // Remove what was created; this is not `path` itself if `path` was a dangling link.
+            sharg::detail::safe_filesystem_entry file_guard{std::filesystem::canonical(path)};
+            file_guard.remove();
+        }
     }
 
     //!\brief Returns the information of valid file extensions.
-- 
2.43.0


From 208ec52457dc8c69065e5911518db50df0d945f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:08 +0000
Subject: [PATCH 31/41] fix: a version record of a single line says nothing
 about the version of the library

---
 include/sharg/detail/version_check.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index ef6893f..0e23d44 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -143,8 +143,8 @@ public:
                 std::cerr << message_unregistered_app;
 #endif // !defined(NDEBUG)
 
-            std::getline(version_file, line); // get second line which should only contain the version number of sharg
-            srv_sharg_version = get_numbers_from_version_string(line);
+            if (std::getline(version_file, line)) // second line should only contain the version number of sharg
+                srv_sharg_version = get_numbers_from_version_string(line);
 
             version_file.close();
         }
-- 
2.43.0


From 4cebf6e44477c2df07ec4e87b09a20cd15bb4dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:48 +0000
Subject: [PATCH 32/41] fix: compare versions with components that exceed an
 int

---
 include/sharg/detail/version_check.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 0e23d44..cbaaf16 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -10,9 +10,11 @@
 #pragma once
 
 #include <array>
+#include <cstdint>
 #include <fstream>
 #include <future>
 #include <iostream>
+#include <limits>
 #include <optional>
 #include <regex>
 #include <sharg/std/charconv>
@@ -125,9 +127,9 @@ public:
      */
     void operator()(std::promise<bool> prom)
     {
-        std::array<int, 3> empty_version{0, 0, 0};
-        std::array<int, 3> srv_app_version{};
-        std::array<int, 3> srv_sharg_version{};
+        std::array<uint64_t, 3> empty_version{0, 0, 0};
+        std::array<uint64_t, 3> srv_app_version{};
+        std::array<uint64_t, 3> srv_sharg_version{};
 
         std::ifstream version_file{cookie_path / (name + ".version")};
 
@@ -152,7 +154,7 @@ public:
 #if !defined(NDEBUG) // only check Sharg version in debug
         if (srv_sharg_version != empty_version)
         {
-            std::array<int, 3> sharg_version = {SHARG_VERSION_MAJOR, SHARG_VERSION_MINOR, SHARG_VERSION_PATCH};
+            std::array<uint64_t, 3> sharg_version = {SHARG_VERSION_MAJOR, SHARG_VERSION_MINOR, SHARG_VERSION_PATCH};
 
             if (sharg_version < srv_sharg_version)
                 std::cerr << message_sharg_update;
@@ -509,9 +511,9 @@ private:
      * \param[in] str The version string: three numbers separated by '.'.
      * \returns The three numbers, or three zeros if the string is malformed.
      */
-    std::array<int, 3> get_numbers_from_version_string(std::string const & str) const
+    std::array<uint64_t, 3> get_numbers_from_version_string(std::string const & str) const
     {
-        std::array<int, 3> result{};
+        std::array<uint64_t, 3> result{};
         char const * it = str.data();
         char const * const end = str.data() + str.size();
 
@@ -521,14 +523,14 @@ private:
             if (i > 0 && (it == end || *it++ != '.'))
                 return {};
 
-            if (it == end || *it == '-') // only digits
-                return {};
-
             auto const [ptr, error_code] = std::from_chars(it, end, result[i]);
 
-            if (error_code != std::errc{}) // no number, or too large
+            if (error_code == std::errc::invalid_argument)
                 return {};
 
+            if (error_code == std::errc::result_out_of_range) // larger than any sensible version number
+                result[i] = std::numeric_limits<uint64_t>::max();
+
             it = ptr;
         }
 
-- 
2.43.0


From bc609c97756bd9b5869cdc94d3e61940e70879d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:03 +0000
Subject: [PATCH 33/41] fix: reject values of enumerations without any
 registered name with a user input error

---
 include/sharg/detail/format_parse.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index a8553fb..ce0c2e7 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -334,8 +334,9 @@ private:
                 std::string result{'['};
                 for (auto const & [key, value] : key_value_pairs)
                     result += std::string{key} + ", ";
-                result.replace(result.size() - 2, 2, "]"); // replace last ", " by "]"
-                return result;
+                if (!key_value_pairs.empty())
+                    result.resize(result.size() - 2); // remove last ", "
+                return result + ']';
             }();
 
             throw user_input_error{"You have chosen an invalid input value: " + in + ". Please use one of: " + keys};
-- 
2.43.0


From 8e8e747c4ee179cab83fade21d1cc82352076282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:02 +0000
Subject: [PATCH 34/41] fix: match the pattern of a regex_validator with a
 whole path, not with its components

---
 include/sharg/validators.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 442d28c..62a8ab9 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -1030,6 +1030,7 @@ public:
      */
     template <std::ranges::forward_range range_type>
         requires std::convertible_to<std::ranges::range_reference_t<range_type>, std::string const &>
+              && (!std::same_as<std::remove_cvref_t<range_type>, std::filesystem::path>)
     void operator()(range_type const & v) const
     {
         for (auto && entry : v)
-- 
2.43.0


From 2a192d393fbe1ec341330b824e9c81b66258f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:51 +0000
Subject: [PATCH 35/41] fix: range and value list validators of integers do not
 convert numbers to their own type

---
 include/sharg/validators.hpp | 66 ++++++++++++++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 62a8ab9..a2ca915 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -56,6 +56,33 @@ concept validator = std::copyable<std::remove_cvref_t<validator_type>> &&
                     };
 // clang-format on
 
+namespace detail
+{
+
+/*!\brief Checks whether one number is less than or equal to another one, even if they are integers of different types.
+ * \ingroup validators
+ * \param[in] lhs The left number.
+ * \param[in] rhs The right number.
+ * \returns `true` if the value of `lhs` is less than or equal to the value of `rhs`, otherwise `false`.
+ *
+ * \details
+ *
+ * The usual arithmetic conversions may change the value of a negative integer. For example, `-1 <= 1u` is `false`.
+ */
+template <typename lhs_t, typename rhs_t>
+    requires std::is_arithmetic_v<lhs_t> && std::is_arithmetic_v<rhs_t>
+constexpr bool is_less_equal(lhs_t const lhs, rhs_t const rhs) noexcept
+{
+    if constexpr (!(std::integral<lhs_t> && std::integral<rhs_t>) || std::is_signed_v<lhs_t> == std::is_signed_v<rhs_t>)
+        return static_cast<std::common_type_t<lhs_t, rhs_t>>(lhs) <= static_cast<std::common_type_t<lhs_t, rhs_t>>(rhs);
+    else if constexpr (std::is_signed_v<lhs_t>)
+        return lhs < 0 || static_cast<std::make_unsigned_t<lhs_t>>(lhs) <= rhs;
+    else
+        return rhs >= 0 && lhs <= static_cast<std::make_unsigned_t<rhs_t>>(rhs);
+}
+
+} // namespace detail
+
 /*!\brief A validator that checks whether a number is inside a given range.
  * \ingroup validators
  * \implements sharg::validator
@@ -107,6 +134,23 @@ public:
             throw validation_error{"Value " + std::to_string(cmp) + " is not in range " + valid_range_str + "."};
     }
 
+    /*!\brief Tests whether a number of another type than the integers `min` and `max` lies in between.
+     * \param cmp The input value to check.
+     * \throws sharg::validation_error
+     *
+     * \details
+     *
+     * The value is not converted to the type of the validator because this might change it.
+     */
+    template <typename number_type>
+        requires std::is_arithmetic_v<number_type> && std::integral<option_value_type>
+              && (!std::same_as<number_type, option_value_type>)
+    void operator()(number_type const & cmp) const
+    {
+        if (!(detail::is_less_equal(cmp, max) && detail::is_less_equal(min, cmp)))
+            throw validation_error{"Value " + std::to_string(cmp) + " is not in range " + valid_range_str + "."};
+    }
+
     /*!\brief Tests whether every element in \p range lies inside [`min`, `max`].
      * \tparam range_type The type of range to check; must model std::ranges::forward_range. The value type must model
      *                    std::is_arithmetic_v.
@@ -231,6 +275,28 @@ public:
             throw validation_error{detail::to_string("Value ", cmp, " is not one of ", values, ".")};
     }
 
+    /*!\brief Tests whether a number of another type than the integers in values lies inside values.
+     * \param cmp The input value to check.
+     * \throws sharg::validation_error
+     *
+     * \details
+     *
+     * The number is not converted to the type of the values because this might change it.
+     */
+    template <typename number_type>
+        requires std::is_arithmetic_v<number_type> && std::integral<option_value_type>
+              && (!std::same_as<number_type, option_value_type>)
+    void operator()(number_type const & cmp) const
+    {
+        auto is_equal = [&cmp](option_value_type const & value)
+        {
+            return detail::is_less_equal(cmp, value) && detail::is_less_equal(value, cmp);
+        };
+
+        if (std::none_of(values.begin(), values.end(), is_equal))
+            throw validation_error{detail::to_string("Value ", cmp, " is not one of ", values, ".")};
+    }
+
     /*!\brief Tests whether every element in \p range lies inside values.
      * \tparam range_type The type of range to check; must model std::ranges::forward_range.
      * \param  range      The input range to iterate over and check every element.
-- 
2.43.0


From 2938444591d956e17cb49f55864b29dfd0022b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 36/41] fix: a value_list_validator of a single path accepts
 that path

---
 include/sharg/validators.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index a2ca915..784ca57 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -241,6 +241,7 @@ public:
      */
     template <std::ranges::forward_range range_type>
         requires std::constructible_from<option_value_type, std::ranges::range_rvalue_reference_t<range_type>>
+              && (!std::same_as<std::remove_cvref_t<range_type>, std::filesystem::path>)
     value_list_validator(range_type rng) // No &&, because rng will be moved.
     {
         std::move(rng.begin(), rng.end(), std::back_inserter(values));
-- 
2.43.0


From e29e01594cfedba463a0487cc0e0562c1d108b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:23 +0000
Subject: [PATCH 37/41] fix: do not take the rest of a flag cluster for another
 identifier

---
 include/sharg/detail/format_parse.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index ce0c2e7..6135ddb 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -262,6 +262,9 @@ private:
         {
             std::string & arg = *it;
 
+            if (arg.find('-', 1) != std::string::npos) // no cluster: removing flags could result in another identifier
+                continue;
+
             if (arg[0] == '-' && arg.size() > 1 && arg[1] != '-') // is option && not dash && no long option
             {
                 auto pos = arg.find(short_id);
-- 
2.43.0


From 9a3727a6c71226000ae1ae5da2d7700212c38ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:03 +0000
Subject: [PATCH 38/41] fix: accept values of types whose extraction operator
 does not read beyond the end

The operator>> of a type that consists of a single character (e.g. a nucleotide) extracts the whole
argument without setting eofbit. Every value of such a type was rejected.
---
 include/sharg/detail/format_parse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 6135ddb..3b6edd2 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -297,7 +297,8 @@ private:
         std::istringstream stream{in};
         stream >> value;
 
-        if (stream.fail() || !stream.eof())
+        // The operator might have extracted everything without trying to read beyond the end.
+        if (stream.fail() || (!stream.eof() && stream.peek() != std::istringstream::traits_type::eof()))
             return option_parse_result::error;
 
         return option_parse_result::success;
-- 
2.43.0


From bdf33b345a716b1a3deedff2bdaf0730361f78c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:48 +0000
Subject: [PATCH 39/41] fix: report subcommands that are added after positional
 options

---
 include/sharg/parser.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index fc84d78..3ae9bb7 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -327,6 +327,8 @@ public:
         check_parse_not_called("add_positional_option");
         verify_positional_option_config(config);
 
+        has_positional_option = true; // there must not be subcommands
+
         if constexpr (detail::is_container_option<option_type>)
             has_positional_list_option = true; // keep track of a list option because there must be only one!
 
@@ -658,6 +660,8 @@ public:
      * \details
      * Adds subcommands to the current parser. The list of subcommands is sorted and duplicates are removed.
      *
+     * \throws sharg::design_error if there are positional options.
+     *
      * ### Example
      *
      * \include test/snippet/add_subcommands.cpp
@@ -668,6 +672,9 @@ public:
     {
         check_parse_not_called("add_subcommands");
 
+        if (has_positional_option && !subcommands.empty())
+            throw design_error{"You may only specify flags and options for the top-level parser."};
+
         auto & parser_subcommands = this->subcommands;
         parser_subcommands.insert(parser_subcommands.end(), subcommands.cbegin(), subcommands.cend());
 
@@ -733,6 +740,9 @@ private:
     //!\brief Keeps track of whether the parse function has been called already.
     bool parse_was_called{false};
 
+    //!\brief Keeps track of whether the user has added a positional option because there must not be subcommands then.
+    bool has_positional_option{false};
+
     //!\brief Keeps track of whether the user has added a positional list option to check if this was the very last.
     bool has_positional_list_option{false};
 
-- 
2.43.0


From 898b68a5aa6f6172d09aa16f91b34e1c630823bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:48 +0000
Subject: [PATCH 40/41] fix: do not read the name of the program if there is
 none

---
 include/sharg/parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 3ae9bb7..03d98c4 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -834,7 +834,9 @@ private:
      */
     void determine_format_and_subcommand()
     {
-        assert(!arguments.empty());
+        // The caller of a program may leave out even the name of the program, i.e. argc == 0.
+        if (arguments.empty())
+            return;
 
         auto it = arguments.begin();
         std::string_view arg{*it};
-- 
2.43.0


From b8781d375992e969499df515e3a3d86188d17caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:27 +0000
Subject: [PATCH 41/41] fix: keep titles of the man page on a single line

---
 include/sharg/detail/format_man.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/sharg/detail/format_man.hpp b/include/sharg/detail/format_man.hpp
index e20af37..5963a99 100644
--- a/include/sharg/detail/format_man.hpp
+++ b/include/sharg/detail/format_man.hpp
@@ -9,6 +9,8 @@
 
 #pragma once
 
+#include <algorithm>
+
 #include <sharg/detail/format_base.hpp>
 
 namespace sharg::detail
@@ -68,7 +70,7 @@ private:
                        {
                            return std::toupper(c);
                        });
-        std::cout << " " << std::to_string(meta.man_page_section) << " \"" << meta.date << "\" \"";
+        std::cout << " " << std::to_string(meta.man_page_section) << " \"" << to_title(meta.date) << "\" \"";
         std::transform(meta.app_name.begin(),
                        meta.app_name.end(),
                        out,
@@ -76,7 +78,7 @@ private:
                        {
                            return std::tolower(c);
                        });
-        std::cout << " " << meta.version << "\" \"" << meta.man_page_title << "\"\n";
+        std::cout << " " << to_title(meta.version) << "\" \"" << to_title(meta.man_page_title) << "\"\n";
 
         // Print NAME section.
         std::cout << ".SH NAME\n" << meta.app_name << " \\- " << to_man(meta.short_description) << std::endl;
@@ -88,9 +90,10 @@ private:
     void print_section(std::string const & title)
     {
         std::ostream_iterator<char> out(std::cout);
+        std::string const line{to_title(title)};
         std::cout << ".SH ";
-        std::transform(title.begin(),
-                       title.end(),
+        std::transform(line.begin(),
+                       line.end(),
                        out,
                        [](unsigned char c)
                        {
@@ -105,7 +108,7 @@ private:
      */
     void print_subsection(std::string const & title)
     {
-        std::cout << ".SS " << title << "\n";
+        std::cout << ".SS " << to_title(title) << "\n";
         is_first_in_section = true;
     }
 
@@ -147,6 +150,15 @@ private:
         // no footer
     }
 
+    /*!\brief Titles are arguments of a macro and must not span several lines.
+     * \param[in] title The title to print.
+     */
+    static std::string to_title(std::string title)
+    {
+        std::replace(title.begin(), title.end(), '\n', ' ');
+        return title;
+    }
+
     /*!\brief Protects lines of a text that would be read as a request by the formatter.
      * \param[in] text The text to protect.
      * \returns The text, where lines starting with a control character are preceded by a zero-width character.
-- 
2.43.0

