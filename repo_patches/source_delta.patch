From 702ba3d7b8a8e8ed21b49cc4f0ef1a0d32b2464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 01/25] fix: don't parse the last line over and over when the
 file lacks a final newline

std::getline() does not touch the string when the stream already reached
end of file, so a last line without newline stayed in current_line: a
comment, a continuation line or a msgstr[N] line there made the parser
loop forever, anything else caused a bogus 'expected empty line' error.
---
 src/po_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index ff56796..d7878a2 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -89,7 +89,12 @@ POParser::next_line()
 {
   line_number += 1;
   if (!std::getline(in, current_line))
+  {
+    // getline() leaves the string untouched when the stream is already
+    // at its end, so get rid of the last line to not parse it again
+    current_line.clear();
     eof = true;
+  }
 }
 
 void
-- 
2.43.0


From 3ed475f84facb730e21b92e75bd9431a2fedc59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 02/25] fix: don't skip the entry following an incomplete one

When the error is detected on the empty line that ends an incomplete
entry, error recovery skipped that line and with it the complete
following entry.
---
 src/po_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index d7878a2..a1e6c3f 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -77,9 +77,8 @@ POParser::error(const std::string& msg)
   log_error << filename << ":" << line_number << ": error: " << msg  << ": " << current_line << std::endl;
 
   // Try to recover from an error by searching for start of another entry
-  do
+  while(!eof && !is_empty_line())
     next_line();
-  while(!eof && !is_empty_line());
 
   throw POParserError();
 }
-- 
2.43.0


From d6fc2d3e6d5a1f279222c5828ef6cb29fca7bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 03/25] fix: Latvian plural forms

The header text had an unbalanced parenthesis, so that no valid Latvian
header matched it, and it was registered with two plural forms while its
plural function returns three.
---
 src/plural_forms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index ec3b6a6..60b5cf2 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -76,7 +76,7 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=2;plural=(n>1);"] = PluralForms(2, plural2_2);
     plural_forms["Plural-Forms:nplurals=2;plural=n==1||n%10==1?0:1;"] = PluralForms(2, plural2_mk);
     plural_forms["Plural-Forms:nplurals=2;plural=(n%10==1&&n%100!=11)?0:1;"] = PluralForms(2, plural2_mk_2);
-    plural_forms["Plural-Forms:nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(2, plural3_lv);
+    plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(3, plural3_lv);
     plural_forms["Plural-Forms:nplurals=3;plural=n==1?0:n==2?1:2;"] = PluralForms(3, plural3_ga);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_lt);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_1);
-- 
2.43.0


From 09c5fd7cecdfc83b24c05e7aeab608533a931773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 04/25] fix: Slovenian plural forms

The Slovenian formula selects one of four forms, but was registered with,
and only recognised with, nplurals=3: the header used by actual
Slovenian .po files was unknown and the index ran past nplurals.
---
 src/plural_forms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index 60b5cf2..a58d790 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -82,7 +82,7 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_1);
     plural_forms["Plural-Forms:nplurals=3;plural=(n==1)?0:(n>=2&&n<=4)?1:2;"] = PluralForms(3, plural3_sk);
     plural_forms["Plural-Forms:nplurals=3;plural=(n==1?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_pl);
-    plural_forms["Plural-Forms:nplurals=3;plural=(n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3);"] = PluralForms(3, plural3_sl);
+    plural_forms["Plural-Forms:nplurals=4;plural=(n%100==1?0:n%100==2?1:n%100==3||n%100==4?2:3);"] = PluralForms(4, plural3_sl);
     plural_forms["Plural-Forms:nplurals=3;plural=(n==1?0:(((n%100>19)||((n%100==0)&&(n!=0)))?2:1));"] = PluralForms(3, plural3_ro);
     plural_forms["Plural-Forms:nplurals=4;plural=(n%1==0&&n==1?0:n%1==0&&n>=2&&n<=4?1:n%1!=0?2:3);"] = PluralForms(4, plural4_sk);
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n>=2&&n<=4&&n%1==0)?1:(n%1!=0)?2:3;"] = PluralForms(4, plural4_cs);
-- 
2.43.0


From 54373ca31ccccc2b50fb73b054bbc2c479bcf3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 05/25] fix: make DictionaryManager::set_use_fuzzy() have an
 effect

The setting was stored, but never handed to the parser, so fuzzy entries
were always loaded.
---
 include/tinygettext/po_parser.hpp | 5 +++--
 src/dictionary_manager.cpp        | 2 +-
 src/po_parser.cpp                 | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/tinygettext/po_parser.hpp b/include/tinygettext/po_parser.hpp
index 99c03aa..bcac45e 100644
--- a/include/tinygettext/po_parser.hpp
+++ b/include/tinygettext/po_parser.hpp
@@ -65,8 +65,9 @@ private:
 public:
   /** @param filename name of the istream, only used in error messages
       @param in stream from which the PO file is read.
-      @param dict dictionary to which the strings are written */
-  static void parse(const std::string& filename, std::istream& in, Dictionary& dict);
+      @param dict dictionary to which the strings are written
+      @param use_fuzzy whether entries flagged as fuzzy are loaded */
+  static void parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy = true);
   static bool pedantic;
 
 private:
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6175d76..6b028b5 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -162,7 +162,7 @@ DictionaryManager::get_dictionary(const Language& language)
           }
           else
           {
-            POParser::parse(pofile, *in, *dict);
+            POParser::parse(pofile, *in, *dict, use_fuzzy);
           }
         }
         catch(std::exception& e)
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index a1e6c3f..c232892 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -38,9 +38,9 @@ namespace tinygettext {
 bool POParser::pedantic = true;
 
 void
-POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict)
+POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy)
 {
-  POParser parser(filename, in, dict);
+  POParser parser(filename, in, dict, use_fuzzy);
   parser.parse();
 }
 
-- 
2.43.0


From 4adac959dbe73ca2a0f37e059e24b93adf4638d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 06/25] fix: use english rules also when the selected plural
 form is missing

translate_plural() returned the singular msgid whatever the count when
the translation had too few plural forms ('You got 5 error'), while the
other untranslated cases follow the english rules.
---
 src/dictionary.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index b61d215..c96365d 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -89,16 +89,16 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     {
       log_error << "Plural translation not available (and not set to empty): '" << msgid << "'" << std::endl;
       log_error << "Missing plural form: " << n << std::endl;
-      return msgid;
     }
-
-    if (!msgstrs[n].empty())
+    else if (!msgstrs[n].empty())
+    {
       return msgstrs[n];
+    }
+
+    if (count == 1) // default to english rules
+      return msgid;
     else
-      if (count == 1) // default to english rules
-        return msgid;
-      else
-        return msgid_plural;
+      return msgid_plural;
   }
   else
   {
-- 
2.43.0


From 3c59b1a05b69807f251008b16d1dbfd7b33f0351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 07/25] fix: treat an empty translation as untranslated in
 translate()

As in gettext, and as translate_plural() does already: an empty msgstr
(e.g. msgstr[0] of a half translated plural message) made translate()
return an empty text.
---
 src/dictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index c96365d..8898968 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -124,7 +124,7 @@ std::string
 Dictionary::translate(const Entries& dict, const std::string& msgid) const
 {
   Entries::const_iterator i = dict.find(msgid);
-  if (i != dict.end() && !i->second.empty())
+  if (i != dict.end() && !i->second.empty() && !i->second[0].empty())
   {
     return i->second[0];
   }
-- 
2.43.0


From 024cb252d909047085600a34b90536ce29426b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 08/25] fix: keep the context when translate_ctxt() uses the
 fallback dictionary

A message missing from a context was looked up without context in the
fallback dictionary, i.e. the translation of a different message was
returned, and the fallback was not used at all when the whole context
was missing.
---
 include/tinygettext/dictionary.hpp |  1 -
 src/dictionary.cpp                 | 24 ++++++++++--------------
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/include/tinygettext/dictionary.hpp b/include/tinygettext/dictionary.hpp
index 958f4a3..405351a 100644
--- a/include/tinygettext/dictionary.hpp
+++ b/include/tinygettext/dictionary.hpp
@@ -43,7 +43,6 @@ private:
   std::string charset;
   PluralForms plural_forms;
 
-  std::string translate(const Entries& dict, const std::string& msgid) const;
   std::string translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgidplural, int num) const;
 
   bool m_has_fallback;
diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index 8898968..dad2088 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -117,14 +117,8 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
 std::string
 Dictionary::translate(const std::string& msgid) const
 {
-  return translate(entries, msgid);
-}
-
-std::string
-Dictionary::translate(const Entries& dict, const std::string& msgid) const
-{
-  Entries::const_iterator i = dict.find(msgid);
-  if (i != dict.end() && !i->second.empty() && !i->second[0].empty())
+  Entries::const_iterator i = entries.find(msgid);
+  if (i != entries.end() && !i->second.empty() && !i->second[0].empty())
   {
     return i->second[0];
   }
@@ -143,13 +137,15 @@ Dictionary::translate_ctxt(const std::string& msgctxt, const std::string& msgid)
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate(i->second, msgid);
-  }
-  else
-  {
-    log_info << "Couldn't translate: " << msgid << std::endl;
-    return msgid;
+    Entries::const_iterator j = i->second.find(msgid);
+    if (j != i->second.end() && !j->second.empty() && !j->second[0].empty())
+      return j->second[0];
   }
+
+  log_info << "Couldn't translate: " << msgid << std::endl;
+
+  if (m_has_fallback) return m_fallback->translate_ctxt(msgctxt, msgid);
+  else return msgid;
 }
 
 std::string
-- 
2.43.0


From c964ca23d3643c65254d249bde3c3259108c0c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 09/25] fix: use the fallback dictionary for plural messages as
 well

translate() falls back to the dictionary of the base language (e.g. de
for de_AT), translate_plural() and translate_ctxt_plural() did not and
returned the untranslated text.
---
 include/tinygettext/dictionary.hpp |  3 ++-
 src/dictionary.cpp                 | 43 +++++++++++++++++-------------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/include/tinygettext/dictionary.hpp b/include/tinygettext/dictionary.hpp
index 405351a..0ee1314 100644
--- a/include/tinygettext/dictionary.hpp
+++ b/include/tinygettext/dictionary.hpp
@@ -43,7 +43,8 @@ private:
   std::string charset;
   PluralForms plural_forms;
 
-  std::string translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgidplural, int num) const;
+  /** Returns the translation for the given count or nullptr if there is none */
+  const std::string* find_plural(const Entries& dict, const std::string& msgid, int count) const;
 
   bool m_has_fallback;
   Dictionary* m_fallback;
diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index dad2088..2ab98bf 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -74,11 +74,19 @@ Dictionary::get_plural_forms() const
 std::string
 Dictionary::translate_plural(const std::string& msgid, const std::string& msgid_plural, int num) const
 {
-  return translate_plural(entries, msgid, msgid_plural, num);
+  const std::string* msgstr = find_plural(entries, msgid, num);
+  if (msgstr)
+    return *msgstr;
+  else if (m_has_fallback)
+    return m_fallback->translate_plural(msgid, msgid_plural, num);
+  else if (num == 1) // default to english rules
+    return msgid;
+  else
+    return msgid_plural;
 }
 
-std::string
-Dictionary::translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgid_plural, int count) const
+const std::string*
+Dictionary::find_plural(const Entries& dict, const std::string& msgid, int count) const
 {
   Entries::const_iterator it = dict.find(msgid);
   if (it != dict.end())
@@ -92,13 +100,8 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     }
     else if (!msgstrs[n].empty())
     {
-      return msgstrs[n];
+      return &msgstrs[n];
     }
-
-    if (count == 1) // default to english rules
-      return msgid;
-    else
-      return msgid_plural;
   }
   else
   {
@@ -106,12 +109,9 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     log_info << "Candidates: " << std::endl;
     for (it = dict.begin(); it != dict.end(); ++it)
       log_info << "'" << it->first << "'" << std::endl;
-
-    if (count == 1) // default to english rules
-      return msgid;
-    else
-      return msgid_plural;
   }
+
+  return nullptr;
 }
 
 std::string
@@ -155,16 +155,21 @@ Dictionary::translate_ctxt_plural(const std::string& msgctxt,
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate_plural(i->second, msgid, msgidplural, num);
+    const std::string* msgstr = find_plural(i->second, msgid, num);
+    if (msgstr)
+      return *msgstr;
   }
   else
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
-    if (num != 1) // default to english
-      return msgidplural;
-    else
-      return msgid;
   }
+
+  if (m_has_fallback)
+    return m_fallback->translate_ctxt_plural(msgctxt, msgid, msgidplural, num);
+  else if (num != 1) // default to english
+    return msgidplural;
+  else
+    return msgid;
 }
 
 void
-- 
2.43.0


From e40aa679232c9624c36dcf74c903bc922376a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 10/25] fix: don't throw on short names in
 convertFilename2Language()

substr() was called with an underflowing position for names of less than
three characters, e.g. plain language codes such as 'de'.
---
 src/dictionary_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6b028b5..a586f6a 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -271,7 +271,7 @@ DictionaryManager::remove_directory(const std::string& pathname)
 std::string DictionaryManager::convertFilename2Language(const std::string &s_in) const
 {
     std::string s;
-    if(s_in.substr(s_in.size()-3, 3)==".po")
+    if(has_suffix(s_in, ".po"))
         s = s_in.substr(0, s_in.size()-3);
     else
         s = s_in;
-- 
2.43.0


From 2cd2579db77aff1502ac2717c19717ad485d7c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 11/25] fix: make get_languages() agree with the files that are
 actually loaded

.po files of unknown languages put an undefined Language into the result,
which can't even be passed back to get_dictionary(), and names with lower
case country (zh_tw.po) were listed as a different language than the one
they are loaded for.
---
 src/dictionary_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index a586f6a..b2ccd2e 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -195,7 +195,9 @@ DictionaryManager::get_languages()
     {
       if (has_suffix(*file, ".po"))
       {
-        languages.insert(Language::from_env(file->substr(0, file->size()-3)));
+        Language language = Language::from_env(convertFilename2Language(*file));
+        if (language)
+          languages.insert(language);
       }
     }
   }
-- 
2.43.0


From fde967249eac184d066d43635e3f30a13955b75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 12/25] fix: don't let an unlistable directory break the whole
 dictionary

An exception from FileSystem::open_directory(), e.g. for a directory that
doesn't exist, escaped from get_dictionary() and left a partly filled
dictionary in the cache, so that the next call silently returned it
without the files of the remaining directories. Log the failure and go
on, as it is done for files that can't be opened.
---
 include/tinygettext/dictionary_manager.hpp |  4 ++++
 src/dictionary_manager.cpp                 | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/tinygettext/dictionary_manager.hpp b/include/tinygettext/dictionary_manager.hpp
index 8e76653..bfee899 100644
--- a/include/tinygettext/dictionary_manager.hpp
+++ b/include/tinygettext/dictionary_manager.hpp
@@ -25,6 +25,7 @@
 #include <set>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
 #include "dictionary.hpp"
 #include "language.hpp"
@@ -57,6 +58,9 @@ private:
 
   void clear_cache();
 
+  /** List a directory, one that can't be listed counts as empty */
+  std::vector<std::string> open_directory(const std::string& pathname);
+
 public:
   DictionaryManager(const std::string& charset_ = "UTF-8");
   DictionaryManager(std::unique_ptr<FileSystem> filesystem, const std::string& charset_ = "UTF-8");
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index b2ccd2e..60bcd6c 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -120,7 +120,7 @@ DictionaryManager::get_dictionary(const Language& language)
 
     for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)
     {
-      std::vector<std::string> files = filesystem->open_directory(*p);
+      std::vector<std::string> files = open_directory(*p);
 
       std::string best_filename;
       int best_score = 0;
@@ -182,6 +182,21 @@ DictionaryManager::get_dictionary(const Language& language)
   }
 }
 
+std::vector<std::string>
+DictionaryManager::open_directory(const std::string& pathname)
+{
+  try
+  {
+    return filesystem->open_directory(pathname);
+  }
+  catch(std::exception& e)
+  {
+    log_error << "error: failure opening directory: " << pathname << std::endl;
+    log_error << e.what() << "" << std::endl;
+    return std::vector<std::string>();
+  }
+}
+
 std::set<Language>
 DictionaryManager::get_languages()
 {
@@ -189,7 +204,7 @@ DictionaryManager::get_languages()
 
   for (SearchPath::iterator p = search_path.begin(); p != search_path.end(); ++p)
   {
-    std::vector<std::string> files = filesystem->open_directory(*p);
+    std::vector<std::string> files = open_directory(*p);
 
     for(std::vector<std::string>::iterator file = files.begin(); file != files.end(); ++file)
     {
-- 
2.43.0


From 7fb8ababc6249f5908685001c7d2607be772c039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 13/25] fix: report .po files that can't be opened

UnixFileSystem::open_file() always returns a stream, in failed state if
the file can't be opened, so the error message was never shown.
---
 src/dictionary_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 60bcd6c..0304b58 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -23,7 +23,7 @@
 #include <assert.h>
 #include <stdlib.h>
 #include <string.h>
-#include <fstream>
+#include <istream>
 #include <algorithm>
 
 #include "tinygettext/file_system.hpp"
@@ -156,7 +156,7 @@ DictionaryManager::get_dictionary(const Language& language)
         try
         {
           std::unique_ptr<std::istream> in = filesystem->open_file(pofile);
-          if (!in)
+          if (!in || !*in)
           {
             log_error << "error: failure opening: " << pofile << std::endl;
           }
-- 
2.43.0


From dbdd8f5907d03966cd7406ecd1b056ed331692ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 14/25] fix: don't take a '_' in the codeset or modifier for
 the country separator

Language::from_env("ja.EUC_JP") resolved to ja_JP instead of ja,
"zh.EUC_TW" to zh_TW.
---
 src/language.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/language.cpp b/src/language.cpp
index e672915..1f6ac72 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -431,6 +431,9 @@ Language::from_env(const std::string& env)
   std::string::size_type dt = env.find('.');
   std::string::size_type at = env.find('@');
 
+  if (ln != std::string::npos && ln > std::min(dt, at))
+    ln = std::string::npos; // the '_' is part of the codeset or modifier
+
   std::string language;
   std::string country;
   std::string codeset;
-- 
2.43.0


From 1ec0bf4a4c9175d8fcc11ab290dc6d26cef68ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 15/25] fix: don't take an entry with context for the header

Only the entry with empty msgid and no msgctxt is the header. Treating an
empty msgid inside a context as a header reset the charset of the file.
---
 src/po_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index c232892..2bb36f9 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -454,7 +454,7 @@ POParser::parse()
         {
           std::string msgstr = get_string(6);
 
-          if (msgid.empty())
+          if (msgid.empty() && !has_msgctxt)
           {
             parse_header(msgstr);
           }
-- 
2.43.0


From 66c91d6b56e8a83a4b43373e48deadba98f8db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 16/25] fix: don't use or close an invalid iconv descriptor

After set_charsets() failed, the invalid descriptor was passed to
iconv_close() by the destructor or the next set_charsets() and to iconv()
by convert(), which then ran into an assertion.
---
 src/iconv.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index ba110d7..4cd1e95 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -74,6 +74,8 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
     cd = tinygettext::iconv_open(to_charset.c_str(), from_charset.c_str());
     if (cd == reinterpret_cast<iconv_t>(-1))
     {
+      cd = nullptr; // don't keep the invalid descriptor around
+
       if(errno == EINVAL)
       {
         std::ostringstream str;
-- 
2.43.0


From 67f609fb124cde2b796637eae1fb4b10671363aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 17/25] fix: don't abort when a conversion needs more than four
 times the space

A byte order mark (UTF-32), an escape sequence (ISO-2022-*) or
transliteration can take more than four bytes per input byte, convert()
then hit an assertion or truncated the text.
---
 src/iconv.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index 4cd1e95..8ea2f65 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -104,7 +104,7 @@ IConv::convert(const std::string& text)
   else
   {
     size_t inbytesleft  = text.size();
-    size_t outbytesleft = 4*inbytesleft; // Worst case scenario: ASCII -> UTF-32?
+    size_t outbytesleft = 4*inbytesleft; // Usual worst case: ASCII -> UTF-32
 
     // We try to avoid to much copying around, so we write directly into
     // a std::string
@@ -113,7 +113,16 @@ IConv::convert(const std::string& text)
     char* outbuf = &result[0];
 
     // Try to convert the text.
-    size_t ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+    size_t ret;
+    while((ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft)) == static_cast<size_t>(-1) &&
+          errno == E2BIG)
+    { // byte order marks, escape sequences or transliteration need more space
+      size_t used = result.size() - outbytesleft;
+      result.resize(2*result.size() + 16);
+      outbuf = &result[used];
+      outbytesleft = result.size() - used;
+    }
+
     if (ret == static_cast<size_t>(-1))
     {
       if (errno == EILSEQ || errno == EINVAL)
@@ -123,10 +132,6 @@ IConv::convert(const std::string& text)
         // FIXME: Could try to skip the invalid byte and continue
         log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
       }
-      else if (errno == E2BIG)
-      { // output buffer to small
-        assert(false && "tinygettext/iconv.cpp: E2BIG: This should never be reached");
-      }
       else if (errno == EBADF)
       {
         assert(false && "tinygettext/iconv.cpp: EBADF: This should never be reached");
@@ -137,7 +142,7 @@ IConv::convert(const std::string& text)
       }
     }
 
-    result.resize(4*text.size() - outbytesleft);
+    result.resize(result.size() - outbytesleft);
 
     return result;
   }
-- 
2.43.0


From 5fbef0158101aa0bfbab0646019b2865ed95493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 18/25] fix: don't carry shift states from one converted string
 to the next

convert() neither started in the initial state nor wrote the final shift
sequence, so with stateful encodings (ISO-2022-*, UTF-7, UTF-16 with byte
order mark) the result depended on the strings converted before and could
lack its last character.
---
 src/iconv.cpp | 61 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index 8ea2f65..e0166c2 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -112,34 +112,49 @@ IConv::convert(const std::string& text)
     std::string result(outbytesleft, 'X');
     char* outbuf = &result[0];
 
-    // Try to convert the text.
-    size_t ret;
-    while((ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft)) == static_cast<size_t>(-1) &&
-          errno == E2BIG)
-    { // byte order marks, escape sequences or transliteration need more space
-      size_t used = result.size() - outbytesleft;
-      result.resize(2*result.size() + 16);
-      outbuf = &result[used];
-      outbytesleft = result.size() - used;
-    }
+    // Each text is converted on its own, so start in the initial shift state
+    tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr);
 
-    if (ret == static_cast<size_t>(-1))
+    // Try to convert the text, then have the final shift sequence written
+    bool flush = false;
+    for(;;)
     {
-      if (errno == EILSEQ || errno == EINVAL)
-      { // invalid multibyte sequence
-        tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr); // reset state
-
-        // FIXME: Could try to skip the invalid byte and continue
-        log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
-      }
-      else if (errno == EBADF)
-      {
-        assert(false && "tinygettext/iconv.cpp: EBADF: This should never be reached");
-      }
+      size_t ret;
+      if (flush)
+        ret = tinygettext::iconv(cd, nullptr, nullptr, &outbuf, &outbytesleft);
       else
+        ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+
+      if (ret == static_cast<size_t>(-1) && errno == E2BIG)
+      { // byte order marks, escape sequences or transliteration need more space
+        size_t used = result.size() - outbytesleft;
+        result.resize(2*result.size() + 16);
+        outbuf = &result[used];
+        outbytesleft = result.size() - used;
+        continue;
+      }
+
+      if (ret == static_cast<size_t>(-1))
       {
-        assert(false && "tinygettext/iconv.cpp: <unknown>: This should never be reached");
+        if (errno == EILSEQ || errno == EINVAL)
+        { // invalid multibyte sequence
+          // FIXME: Could try to skip the invalid byte and continue
+          log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
+        }
+        else if (errno == EBADF)
+        {
+          assert(false && "tinygettext/iconv.cpp: EBADF: This should never be reached");
+        }
+        else
+        {
+          assert(false && "tinygettext/iconv.cpp: <unknown>: This should never be reached");
+        }
       }
+
+      if (flush)
+        break;
+
+      flush = true;
     }
 
     result.resize(result.size() - outbytesleft);
-- 
2.43.0


From 4ac44e2a82851c571d62adf2b4ed7ec2274b173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 19/25] fix: keep empty texts empty when converting to
 ISO-2022-KR

---
 src/iconv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index e0166c2..ef8da28 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -97,8 +97,8 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
 std::string
 IConv::convert(const std::string& text)
 {
-  if (!cd)
-  {
+  if (!cd || text.empty())
+  { // empty texts stay empty, they stand for missing translations
     return text;
   }
   else
-- 
2.43.0


From fd5b6cfa8f011b5087ca371e181cb6925ab9aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 20/25] fix: report when a .po file can't be read to its end

---
 src/po_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 2bb36f9..9453dd8 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -492,6 +492,9 @@ POParser::parse()
     {
     }
   }
+
+  if (in.bad())
+    log_error << filename << ":" << line_number << ": error: reading failed, rest of the file is missing" << std::endl;
 }
 
 } // namespace tinygettext
-- 
2.43.0


From ccf59a71a94e9a1fe7d8125a1dd59a420b014efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 21/25] fix: don't let the directory listing order decide which
 file is loaded

---
 src/dictionary_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 0304b58..07d035f 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -141,7 +141,10 @@ DictionaryManager::get_dictionary(const Language& language)
           {
             int score = Language::match(language, po_language);
 
-            if (score > best_score)
+            // the order of a directory listing is arbitrary, so don't let
+            // it decide between files that match equally well
+            if (score > best_score ||
+                (score == best_score && *filename < best_filename))
             {
               best_score = score;
               best_filename = *filename;
-- 
2.43.0


From b192b7d424a8aafe747b48c04eddc915472dc2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 22/25] fix: build the lookup tables only once even when
 several threads start at the same time

The tables of languages, language aliases and plural forms were filled on
first use without any protection, so parsing two files in two threads was a
data race and could crash or lose entries.
---
 src/language.cpp     | 31 ++++++++++++++++++-------------
 src/plural_forms.cpp | 16 ++++++++++------
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/language.cpp b/src/language.cpp
index 1f6ac72..abc0835 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -297,9 +297,12 @@ std::string
 resolve_language_alias(const std::string& name)
 {
   typedef std::unordered_map<std::string, std::string> Aliases;
-  static Aliases language_aliases;
-  if (language_aliases.empty())
+  // Filled by its initializer, as that happens only once, even when
+  // several threads get here at the same time
+  static const Aliases aliases = []
   {
+    Aliases language_aliases;
+
     // FIXME: Many of those are not useful for us, since we leave
     // encoding to the app, not to the language, we could/should
     // also match against all language names, not just aliases from
@@ -353,15 +356,17 @@ resolve_language_alias(const std::string& name)
     language_aliases["swedish"]          = "sv_SE.ISO-8859-1";
     language_aliases["thai"]             = "th_TH.TIS-620";
     language_aliases["turkish"]          = "tr_TR.ISO-8859-9";
-  }
+
+    return language_aliases;
+  }();
 
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
     name_lowercase[i] = static_cast<char>(tolower(name[i]));
 
-  Aliases::iterator i = language_aliases.find(name_lowercase);
-  if (i != language_aliases.end())
+  Aliases::const_iterator i = aliases.find(name_lowercase);
+  if (i != aliases.end())
   {
     return i->second;
   }
@@ -377,18 +382,18 @@ Language
 Language::from_spec(const std::string& language, const std::string& country, const std::string& modifier)
 {
   typedef std::unordered_map<std::string, std::vector<const LanguageSpec*> > LanguageSpecMap;
-  static LanguageSpecMap language_map;
-
-  if (language_map.empty())
+  static const LanguageSpecMap language_map = []
   { // Init language_map
+    LanguageSpecMap map;
     for(int i = 0; languages[i].language != nullptr; ++i)
-      language_map[languages[i].language].push_back(&languages[i]);
-  }
+      map[languages[i].language].push_back(&languages[i]);
+    return map;
+  }();
 
-  LanguageSpecMap::iterator i = language_map.find(language);
+  LanguageSpecMap::const_iterator i = language_map.find(language);
   if (i != language_map.end())
   {
-    std::vector<const LanguageSpec*>& lst = i->second;
+    const std::vector<const LanguageSpec*>& lst = i->second;
 
     LanguageSpec tmpspec;
     tmpspec.language = language.c_str();
@@ -398,7 +403,7 @@ Language::from_spec(const std::string& language, const std::string& country, con
 
     const LanguageSpec* best_match = nullptr;
     int best_match_score = 0;
-    for(std::vector<const LanguageSpec*>::iterator j = lst.begin(); j != lst.end(); ++j)
+    for(std::vector<const LanguageSpec*>::const_iterator j = lst.begin(); j != lst.end(); ++j)
     { // Search for the language that best matches the given spec, value country more then modifier
       int score = Language::match(Language(*j), tmplang);
 
diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index a58d790..d55f5e5 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -65,10 +65,12 @@ PluralForms
 PluralForms::from_string(const std::string& str)
 {
   typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;
-  static PluralFormsMap plural_forms;
-
-  if (plural_forms.empty())
+  // Filled by its initializer, as that happens only once, even when
+  // several threads get here at the same time
+  static const PluralFormsMap known_forms = []
   {
+    PluralFormsMap plural_forms;
+
     // Note that the plural forms here shouldn't contain any spaces
     plural_forms["Plural-Forms:nplurals=1;plural=0;"] = PluralForms(1, plural1);
     plural_forms["Plural-Forms:nplurals=2;plural=(n!=1);"] = PluralForms(2, plural2_1);
@@ -95,7 +97,9 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n==2&&n%1==0)?1:(n%10==0&&n%1==0&&n>10)?2:3;"] = PluralForms(4, plural4_he);
     plural_forms["Plural-Forms:nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4)"] = PluralForms(5, plural5_ga);
     plural_forms["Plural-Forms:nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5"]=PluralForms(6, plural6_ar);
-  }
+
+    return plural_forms;
+  }();
 
   // Remove spaces from string before lookup
   std::string space_less_str;
@@ -103,8 +107,8 @@ PluralForms::from_string(const std::string& str)
     if (!isspace(str[i]))
       space_less_str += str[i];
 
-  PluralFormsMap::const_iterator it= plural_forms.find(space_less_str);
-  if (it != plural_forms.end())
+  PluralFormsMap::const_iterator it= known_forms.find(space_less_str);
+  if (it != known_forms.end())
   {
     return it->second;
   }
-- 
2.43.0


From 28232f3b0ac196cd29ce8159d0eb884c93343a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:39 +0000
Subject: [PATCH 23/25] fix: letter case of charsets, countries and language
 names no longer depends on the locale

In a Turkish locale 'big5' or 'windows-1252' in lower case, 'fi_fi.po' and
'Italian' were not recognized, as toupper('i') isn't 'I' there.
---
 src/ascii.hpp              | 47 ++++++++++++++++++++++++++++++++++++++
 src/dictionary_manager.cpp |  6 +++--
 src/iconv.cpp              |  7 +++---
 src/language.cpp           |  4 +++-
 src/po_parser.cpp          |  4 +++-
 5 files changed, 61 insertions(+), 7 deletions(-)
 create mode 100644 src/ascii.hpp

diff --git a/src/ascii.hpp b/src/ascii.hpp
new file mode 100644
index 0000000..70efbbf
--- /dev/null
+++ b/src/ascii.hpp
@@ -0,0 +1,47 @@
+// tinygettext - A gettext replacement that works directly on .po files
+//
+// This software is provided 'as-is', without any express or implied
+// warranty. In no event will the authors be held liable for any damages
+// arising from the use of this software.
+//
+// Permission is granted to anyone to use this software for any purpose,
+// including commercial applications, and to alter it and redistribute it
+// freely, subject to the following restrictions:
+//
+// 1. The origin of this software must not be misrepresented; you must not
+//    claim that you wrote the original software. If you use this software
+//    in a product, an acknowledgement in the product documentation would be
+//    appreciated but is not required.
+// 2. Altered source versions must be plainly marked as such, and must not be
+//    misrepresented as being the original software.
+// 3. This notice may not be removed or altered from any source distribution.
+
+#ifndef HEADER_TINYGETTEXT_ASCII_HPP
+#define HEADER_TINYGETTEXT_ASCII_HPP
+
+namespace tinygettext {
+
+// Letter case of the ASCII letters. Unlike toupper() and tolower() these
+// don't depend on the locale of the process (e.g. the dotless i of a
+// Turkish one) and leave the bytes of multibyte characters alone.
+
+inline char ascii_toupper(char c)
+{
+  return (c >= 'a' && c <= 'z') ? static_cast<char>(c - 'a' + 'A') : c;
+}
+
+inline char ascii_tolower(char c)
+{
+  return (c >= 'A' && c <= 'Z') ? static_cast<char>(c - 'A' + 'a') : c;
+}
+
+inline bool ascii_isalpha(char c)
+{
+  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
+}
+
+} // namespace tinygettext
+
+#endif
+
+/* EOF */
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 07d035f..27c4fbe 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -31,6 +31,8 @@
 #include "tinygettext/po_parser.hpp"
 #include "tinygettext/unix_file_system.hpp"
 
+#include "ascii.hpp"
+
 namespace tinygettext {
 
 static bool has_suffix(const std::string& lhs, const std::string& rhs)
@@ -305,9 +307,9 @@ std::string DictionaryManager::convertFilename2Language(const std::string &s_in)
             // we are done (en_GB.UTF-8) - only convert
             // the 'gb' part ... if we ever get this kind
             // of filename.
-            if(!::isalpha(s[i]))
+            if(!ascii_isalpha(s[i]))
                 break;
-            s[i] = static_cast<char>(::toupper(s[i]));
+            s[i] = ascii_toupper(s[i]);
         }
         else
             underscore_found = s[i]=='_';
diff --git a/src/iconv.cpp b/src/iconv.cpp
index ef8da28..cd8141d 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -17,7 +17,6 @@
 //    misrepresented as being the original software.
 // 3. This notice may not be removed or altered from any source distribution.
 
-#include <ctype.h>
 #include <assert.h>
 #include <sstream>
 #include <errno.h>
@@ -28,6 +27,8 @@
 #include "tinygettext/iconv.hpp"
 #include "tinygettext/log_stream.hpp"
 
+#include "ascii.hpp"
+
 namespace tinygettext {
 
 IConv::IConv()
@@ -60,10 +61,10 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
   to_charset   = to_charset_;
 
   for(std::string::iterator i = to_charset.begin(); i != to_charset.end(); ++i)
-    *i = static_cast<char>(toupper(*i));
+    *i = ascii_toupper(*i);
 
   for(std::string::iterator i = from_charset.begin(); i != from_charset.end(); ++i)
-    *i = static_cast<char>(toupper(*i));
+    *i = ascii_toupper(*i);
 
   if (to_charset == from_charset)
   {
diff --git a/src/language.cpp b/src/language.cpp
index abc0835..29c0971 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -24,6 +24,8 @@
 #include <vector>
 #include <algorithm>
 
+#include "ascii.hpp"
+
 namespace tinygettext {
 
 struct LanguageSpec {
@@ -363,7 +365,7 @@ resolve_language_alias(const std::string& name)
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
-    name_lowercase[i] = static_cast<char>(tolower(name[i]));
+    name_lowercase[i] = ascii_tolower(name[i]);
 
   Aliases::const_iterator i = aliases.find(name_lowercase);
   if (i != aliases.end())
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 9453dd8..e590741 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -33,6 +33,8 @@
 #include "tinygettext/dictionary.hpp"
 #include "tinygettext/plural_forms.hpp"
 
+#include "ascii.hpp"
+
 namespace tinygettext {
 
 bool POParser::pedantic = true;
@@ -257,7 +259,7 @@ POParser::parse_header(const std::string& header)
           from_charset = line.substr(len);
 
           for(std::string::iterator ch = from_charset.begin(); ch != from_charset.end(); ++ch)
-            *ch = static_cast<char>(toupper(*ch));
+            *ch = ascii_toupper(*ch);
         }
         else
         {
-- 
2.43.0


From ecfb34fd6e1a8f01b5f282d32067de620ab033d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 24/25] fix: line numbers in log messages no longer depend on
 the global locale

---
 src/log.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/log.cpp b/src/log.cpp
index 531deb1..e8833c6 100644
--- a/src/log.cpp
+++ b/src/log.cpp
@@ -18,6 +18,7 @@
 // 3. This notice may not be removed or altered from any source distribution.
 
 #include <iostream>
+#include <locale>
 #include "tinygettext/log.hpp"
 
 namespace tinygettext {
@@ -54,6 +55,8 @@ Log::Log(log_callback_t callback_) :
   callback(callback_),
   out()
 {
+  // messages hold line numbers, don't let the global locale group their digits
+  out.imbue(std::locale::classic());
 }
 
 Log::~Log()
-- 
2.43.0


From f6b1232f9710d5740ca1efd44cc77b7b9d6b89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:26 +0000
Subject: [PATCH 25/25] fix: the byte order mark of one text no longer decides
 how the next one is read

A reset of the conversion descriptor keeps the byte order a mark has
announced, so texts in UTF-16 or UTF-32 without one were read in that of
an earlier text. Convert each text with a descriptor of its own.
---
 src/iconv.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index cd8141d..7fe073b 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -113,8 +113,19 @@ IConv::convert(const std::string& text)
     std::string result(outbytesleft, 'X');
     char* outbuf = &result[0];
 
-    // Each text is converted on its own, so start in the initial shift state
-    tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr);
+    // Each text is converted on its own, so start in the initial shift state.
+    // A reset isn't enough for that, as it keeps the byte order that the byte
+    // order mark of an earlier text has announced, only a new descriptor is.
+    iconv_t fresh = tinygettext::iconv_open(to_charset.c_str(), from_charset.c_str());
+    if (fresh != reinterpret_cast<iconv_t>(-1))
+    {
+      tinygettext::iconv_close(cd);
+      cd = fresh;
+    }
+    else
+    {
+      tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr);
+    }
 
     // Try to convert the text, then have the final shift sequence written
     bool flush = false;
-- 
2.43.0

