From 02f576168ffad5bc56ab01396fea6adaee011a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:52 +0000
Subject: [PATCH 001/133] fix: compare versions whose components differ by more
 than an int

---
 lib/util.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 7a98834..58a47da 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -89,11 +89,10 @@ dc_version_compare (struct disir_version *s1, struct disir_version *s2)
 {
     int res;
 
-    res = 0;
-
-    res = s1->sv_major - s2->sv_major;
+    // Version components are unsigned: their difference does not fit in an int.
+    res = (s1->sv_major > s2->sv_major) - (s1->sv_major < s2->sv_major);
     if (res == 0)
-        res = s1->sv_minor - s2->sv_minor;
+        res = (s1->sv_minor > s2->sv_minor) - (s1->sv_minor < s2->sv_minor);
 
     log_debug (8, "s1 (%u.%u) vs s2 (%u.%u) res (%d)",
                     s1->sv_major, s1->sv_minor,
-- 
2.43.0


From a4fa48978ef0d2b5bd67d3f43460e31c4103fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 002/133] fix: the latest introduced entry restriction applies,
 also across major versions

---
 lib/context_restriction.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index b5e6680..700cdfb 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1264,9 +1264,8 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_restriction **q;
     int min = -1;
     int max = -1;
-    int min_closes_match = INT_MIN;
-    int max_closes_match = INT_MIN;
-    int diff;
+    struct disir_version *min_closes_match = NULL;
+    struct disir_version *max_closes_match = NULL;
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
@@ -1358,24 +1357,26 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN ||
             entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX)
         {
-            // XXX: This is severely flawed - the diff does not indicate
-            // how great of a version difference
-            diff = dc_version_compare  (&entry->re_introduced, version);
             // entry is newer than target version
-            if (diff > 0)
+            if (dc_version_compare (&entry->re_introduced, version) > 0)
             {
                 entry = entry->next;
                 continue;
             }
 
-            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN && diff > min_closes_match)
+            // Of the remaining entries, the most recently introduced one applies
+            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN &&
+                (min_closes_match == NULL ||
+                 dc_version_compare (&entry->re_introduced, min_closes_match) > 0))
             {
-                min_closes_match = diff;
+                min_closes_match = &entry->re_introduced;
                 min = entry->re_value_min;
             }
-            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX && diff > max_closes_match)
+            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX &&
+                     (max_closes_match == NULL ||
+                      dc_version_compare (&entry->re_introduced, max_closes_match) > 0))
             {
-                max_closes_match = diff;
+                max_closes_match = &entry->re_introduced;
                 max = entry->re_value_max;
             }
         }
-- 
2.43.0


From f97e4431f613c4d2f75c00170dbaf444dd4507eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:21 +0000
Subject: [PATCH 003/133] fix: an optional element without an explicit maximum
 may occur at most once

---
 lib/context_restriction.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 700cdfb..ad6285f 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1385,14 +1385,14 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     // Set max.
     // Maximum default is 1.
     // if minimum is set, and the active maximum is lower, it will equal the minimum.
-    if (max != 0 && max < min)
-    {
-        max = min;
-    }
     if (max == -1)
     {
         max = 1;
     }
+    if (max != 0 && max < min)
+    {
+        max = min;
+    }
 
     // Mimimum entries is 1.
     if (min == -1)
-- 
2.43.0


From 78ab3b493d89339c1ead4d7e379bbb4053515aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 004/133] fix: json: read integers above INT_MAX

---
 lib/fslib/json/jsonIO.cc                  | 19 +++++++++++++++++--
 lib/fslib/json/json_unserialize_config.cc |  1 +
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/jsonIO.cc b/lib/fslib/json/jsonIO.cc
index 72ec113..9e2a3cd 100644
--- a/lib/fslib/json/jsonIO.cc
+++ b/lib/fslib/json/jsonIO.cc
@@ -41,6 +41,7 @@ std::map<const char *, enum disir_restriction_type, cmp_str> attribute_disir_res
 //! Map holding string representation of json valuetypes
 std::map<Json::ValueType, const char *> json_type_stringified  = {
     {Json::intValue    , "integer"},
+    {Json::uintValue   , "integer"},
     {Json::realValue   , "float"},
     {Json::booleanValue , "boolean"},
     {Json::stringValue , "string"},
@@ -56,6 +57,12 @@ JsonIO::JsonIO (struct disir_instance *disir)
 enum disir_status
 assert_json_value_type (Json::Value& value, Json::ValueType type)
 {
+ // The parser yields large, positive integers as unsigned.
+ if (type == Json::intValue && value.type () == Json::uintValue)
+ {
+    return value.isInt64 () ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_VALUE_TYPE;
+ }
+
  return (value.type () == type) ? DISIR_STATUS_OK : DISIR_STATUS_WRONG_VALUE_TYPE;
 }
 
@@ -85,11 +92,16 @@ set_value (struct disir_context *context, Json::Value& val)
     switch (val.type())
     {
     case Json::intValue:
+    case Json::uintValue:
     {
         if (dc_value_type (context) == DISIR_VALUE_TYPE_FLOAT)
         {
             return dc_set_value_float (context, (double)val.asDouble());
         }
+        else if (val.isInt64 () == false)
+        {
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
         else
         {
             return dc_set_value_integer (context, val.asInt64());
@@ -113,7 +125,6 @@ set_value (struct disir_context *context, Json::Value& val)
         }
     }
     case Json::arrayValue:
-    case Json::uintValue:
     case Json::objectValue:
     case Json::nullValue:
     default:
@@ -128,11 +139,16 @@ add_value_default (struct disir_context *context, Json::Value& value,
     switch (value.type())
     {
     case Json::intValue:
+    case Json::uintValue:
     {
         if (dc_value_type (context) == DISIR_VALUE_TYPE_FLOAT)
         {
             return dc_add_default_float (context, (double)value.asDouble(), version);
         }
+        else if (value.isInt64 () == false)
+        {
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
         else
         {
             return dc_add_default_integer (context, value.asInt64(), version);
@@ -146,7 +162,6 @@ add_value_default (struct disir_context *context, Json::Value& value,
         return dc_add_default_string (context, value.asString().c_str(),
                                                value.asString().size(), version);
     case Json::arrayValue:
-    case Json::uintValue:
     case Json::objectValue:
     case Json::nullValue:
     default:
diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index 6df5a56..76f548a 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -297,6 +297,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
         }
         break;
     case Json::intValue:
+    case Json::uintValue:
     case Json::stringValue:
     case Json::realValue:
     case Json::booleanValue:
-- 
2.43.0


From 7160dcbdf8aa327cb5ad9a1123660d9e60f7bc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:44 +0000
Subject: [PATCH 005/133] fix: json: write floats with the digits needed to
 read the same value back

---
 3rdparty/jsoncpp/jsoncpp.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index 114d2b2..533fc6a 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -4429,7 +4429,15 @@ JSONCPP_STRING valueToString(double value, bool useSpecialFloats, unsigned int p
 }
 }
 
-JSONCPP_STRING valueToString(double value) { return valueToString(value, false, 16); }
+JSONCPP_STRING valueToString(double value) {
+  JSONCPP_STRING text = valueToString(value, false, 16);
+
+  // 16 digits do not identify every double; 17 do.
+  if (isfinite(value) && strtod(text.c_str(), NULL) != value) {
+    text = valueToString(value, false, 17);
+  }
+  return text;
+}
 
 JSONCPP_STRING valueToString(bool value) { return value ? "true" : "false"; }
 
-- 
2.43.0


From 8fc70d87ab5fbb1e73ef0b62148f666df4d3602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 006/133] fix: toml: write floats with the digits needed to
 read the same value back

---
 3rdparty/tinytoml/toml.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index c1c0f28..f02eee8 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -8,6 +8,7 @@
 #include <cmath>
 #include <cstdint>
 #include <cstdio>
+#include <cstdlib>
 #include <ctime>
 #include <iomanip>
 #include <istream>
@@ -380,6 +381,7 @@ public:
     static std::string spaces(int num);
     static std::string escapeKey(const std::string& key);
     static std::string escapeString(const std::string& s);
+    static std::string formatDouble(double value);
     static bool tableContainsKeyval(const Value& value);
 
 private:
@@ -2011,6 +2013,25 @@ inline std::string Writer::escapeString(const std::string& s)
     return ss.str();
 }
 
+// static
+// Fixed notation with six decimals when that identifies the value, otherwise as many
+// significant digits as it takes to read the same value back.
+inline std::string Writer::formatDouble(double value)
+{
+    char buf[512];
+    snprintf(buf, sizeof(buf), "%f", value);
+    if (strtod(buf, nullptr) == value)
+        return buf;
+
+    for (int precision = 15; precision <= 17; ++precision) {
+        snprintf(buf, sizeof(buf), "%.*e", precision, value);
+        if (strtod(buf, nullptr) == value)
+            break;
+    }
+
+    return buf;
+}
+
 // static
 // Determine if the input Value table contains any keys that are not Table
 inline bool Writer::tableContainsKeyval(const Value& value)
@@ -2237,7 +2258,7 @@ inline void Writer::writeType(const Value& value)
     case Value::DOUBLE_TYPE: {
         // Inline float type.
         // Can extract out in separate method if float output is specified by format.
-        output_ << std::fixed << std::showpoint << value.double_;
+        output_ << formatDouble(value.double_);
         break;
     }
     case Value::STRING_TYPE:
-- 
2.43.0


From 7fb69bd0af350487b9d217e6b83e86b7a92c462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 007/133] fix: toml: write empty tables and start every table
 header on its own line

---
 3rdparty/tinytoml/toml.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index f02eee8..2b6589f 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -2171,7 +2171,8 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
     std::string pre("\n");
     std::string post("");
 
-    bool hasKeyvals = tableContainsKeyval(value);
+    // A table that only contains sub-tables does not need its own header.
+    bool needHeader = tableContainsKeyval(value) || value.table_->empty();
 
     // We may write this inline if we are not root, and the FORMAT_TABLE_INLINE option is
     // set either on the global options or on the value specific formatting options.
@@ -2189,7 +2190,7 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
     // If we are the first entry, (and we are not inline) we should buffer one newline above us.
     // Not applicable to root entry.
     if (key.empty() == false && writingTableInline_ == false &&
-        writingTableCurrentIndex_ != 0 && hasKeyvals)
+        writingTableCurrentIndex_ != 0 && needHeader)
     {
         output_ << separator_;
     }
@@ -2197,7 +2198,7 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
     // Write the table key. Skip writing non-inline key for a table that only contains sub-tables
     // Not applicable to root entry.
     if (key.empty() == false &&
-        ((writingTableInline_ == false && hasKeyvals) || writingTableInline_))
+        ((writingTableInline_ == false && needHeader) || writingTableInline_))
     {
         if (writingTableInline_ == false)
         {
@@ -2220,7 +2221,11 @@ inline void Writer::writeTable(const Value& value, const std::string& key)
         output_ << separator_;
 
     // This will determine what formatting algorithm to use
-    writeTableWithoutKey(value, key);
+    // Without a header of our own, the first sub-table follows whatever was written before us.
+    if (needHeader || writingTableInline_ || key.empty())
+        writeTableWithoutKey(value, key);
+    else
+        writeTableCatagorizedLexicographical(value, key);
 
     if (writingTableInline_)
         output_ << post;
-- 
2.43.0


From 2dc3a8f4d64ad91e4c533b0fe92a8d5178e96655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 008/133] fix: json: write empty molds and sections as empty
 objects

---
 lib/fslib/json/json_serialize_mold.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index 504ec8a..841edd9 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -98,6 +98,8 @@ MoldWriter::serialize (struct disir_mold *mold, std::string& mold_json)
         return status;
     }
 
+    // An empty mold is still a mold
+    root[ATTRIBUTE_KEY_MOLD] = Json::objectValue;
     status = _serialize_mold_contexts (context_mold, root[ATTRIBUTE_KEY_MOLD]);
     if (status != DISIR_STATUS_OK)
         goto end;
@@ -129,6 +131,8 @@ MoldWriter::serialize (struct disir_mold *mold, std::ostream& stream)
         return status;
     }
 
+    // An empty mold is still a mold
+    root[ATTRIBUTE_KEY_MOLD] = Json::objectValue;
     status = _serialize_mold_contexts (context_mold, root[ATTRIBUTE_KEY_MOLD]);
     if (status != DISIR_STATUS_OK)
         goto end;
@@ -410,6 +414,8 @@ MoldWriter::_serialize_mold_contexts (struct disir_context *parent_context, Json
                     return status;
                 }
 
+                // A section without any elements is still a section
+                child[ATTRIBUTE_KEY_ELEMENTS] = Json::objectValue;
                 status = _serialize_mold_contexts (context, child[ATTRIBUTE_KEY_ELEMENTS]);
                 if (status != DISIR_STATUS_OK)
                     goto end;
-- 
2.43.0


From 6ae81d211e78ff6fd11a48914a151bb8162b4ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 009/133] fix: generate: report failures of nested sections and
 release everything on failure

---
 lib/generate.c | 48 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/lib/generate.c b/lib/generate.c
index b43d4a2..9e2b343 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -38,6 +38,10 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
     int min_entries;
     int i;
 
+    collection = NULL;
+    equiv = NULL;
+    context = NULL;
+
     // Get each element from the element storage of mold_parent
     status = dc_get_elements (mold_parent, &collection);
     if (status != DISIR_STATUS_OK)
@@ -102,8 +106,13 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
             else if (dc_context_type (equiv) == DISIR_CONTEXT_SECTION)
             {
                 // Send down parent and context -
-                generate_config_from_mold_recursive_step (equiv, context, version,
-                                                          generate_zero_min);
+                status = generate_config_from_mold_recursive_step (equiv, context, version,
+                                                                   generate_zero_min);
+                if (status != DISIR_STATUS_OK)
+                {
+                    // Already logged
+                    goto error;
+                }
             }
 
             status = dc_finalize (&context);
@@ -118,6 +127,19 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
 
     status = DISIR_STATUS_OK;
 error:
+    if (status == DISIR_STATUS_INVALID_CONTEXT && context && context->CONTEXT_STATE_FINALIZED)
+    {
+        // An invalid context is still a child of its parent - we only own our reference to it.
+        dc_putcontext (&context);
+    }
+    if (context)
+    {
+        dc_destroy (&context);
+    }
+    if (equiv)
+    {
+        dc_putcontext (&equiv);
+    }
     if (collection)
     {
         dc_collection_finished (&collection);
@@ -161,28 +183,34 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         if (status != DISIR_STATUS_OK)
         {
             // Already logged
-            return status;
+            goto error;
         }
     }
     else
     {
         dc_version_set (&version, config_version);
-        if (status != DISIR_STATUS_OK)
-        {
-            // Already logged ?
-            return status;
-        }
     }
     status = dc_set_version (config_context, &version);
     if (status != DISIR_STATUS_OK)
     {
         // Already logged
-        return status;
+        goto error;
     }
 
-    generate_config_from_mold_recursive_step (mold->mo_context, config_context, &version, 0);
+    status = generate_config_from_mold_recursive_step (mold->mo_context, config_context,
+                                                       &version, 0);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        goto error;
+    }
 
     status = dc_config_finalize (&config_context, config);
+    if (status == DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // The config is handed over even if invalid.
+        disir_config_finished (config);
+    }
     if (status != DISIR_STATUS_OK)
     {
         // Already logged
-- 
2.43.0


From ca29627db72c2cab033fadb58aee82ad81e14f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 010/133] fix: validate: do not read sections and configs as
 other context types

---
 lib/validate.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/validate.c b/lib/validate.c
index 2ab0082..82c60de 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -141,8 +141,7 @@ validate_inclusive_restrictions (struct disir_context *context)
             char buffer[50];
             dx_log_context (context,
                             "%s is not a valid element for version %s",
-                            name, dc_version_string(buffer, 50,
-                                                    &(context)->cx_config->cf_version));
+                            name, dc_version_string(buffer, 50, target_version));
             invalid = DISIR_STATUS_RESTRICTION_VIOLATED;
         }
         if (size > max && max > 0)
@@ -597,7 +596,7 @@ validate_context_validity (struct disir_context *context)
     {
     case DISIR_CONTEXT_CONFIG:
     {
-        char buffer[30];
+        char buffer[50];
         log_debug(2, "Validating CONFIG for version %s",
                      dc_version_string(buffer, 50, &(context)->cx_config->cf_version));
 
@@ -608,11 +607,15 @@ validate_context_validity (struct disir_context *context)
             break;
         }
     }
+    // FALL-THROUGH
     case DISIR_CONTEXT_MOLD:
     {
-        char buffer[30];
-        log_debug(2, "Validating MOLD for version %s",
-                     dc_version_string(buffer, 50, &(context)->cx_mold->mo_version));
+        if (dc_context_type (context) == DISIR_CONTEXT_MOLD)
+        {
+            char buffer[50];
+            log_debug(2, "Validating MOLD for version %s",
+                         dc_version_string(buffer, 50, &(context)->cx_mold->mo_version));
+        }
         // TODO: Clear error reports
         status = validate_children (context);
         // Update invalid with new state, if non were already present.
-- 
2.43.0


From 3a472d6f01433674fdf54f2c9e961ba6ece60b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 011/133] fix: do not write past the output buffer when a value
 is longer than it

---
 lib/util.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 58a47da..15d514e 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -170,6 +170,7 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
     enum disir_status status;
     int32_t size;
 
+    size = 0;
     status = DISIR_STATUS_OK;
     switch (value->dv_type)
     {
@@ -188,8 +189,14 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
             log_debug (3, "Insufficient buffer provided - decrementing output size by one");
         }
 
-        memcpy (output, value->dv_string, copy_size);
-        output[size] = '\0';
+        if (copy_size > 0)
+        {
+            memcpy (output, value->dv_string, copy_size);
+        }
+        if (copy_size >= 0)
+        {
+            output[copy_size] = '\0';
+        }
         break;
     }
     case DISIR_VALUE_TYPE_INTEGER:
-- 
2.43.0


From 1723f36155c8a988631e66e3af7ed20bcf3c8f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 012/133] fix: compare integer and float values without
 truncating their difference

---
 lib/util.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 15d514e..2de91bd 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -239,18 +239,17 @@ dx_value_compare (struct disir_value *v1, struct disir_value *v2)
     if (v1->dv_size != v2->dv_size)
         return (v1->dv_size - v2->dv_size);
 
-    // FIXME: There is probably some parts of this
-    //  compare that is sustainable to underflow/overflow..
     switch (dx_value_type_sanify (v1->dv_type))
     {
     case DISIR_VALUE_TYPE_ENUM:
         // FALL-THROUGH
     case DISIR_VALUE_TYPE_STRING:
-        return memcmp (v1->dv_string, v2->dv_string, v1->dv_size);
+        return (v1->dv_size > 0 ? memcmp (v1->dv_string, v2->dv_string, v1->dv_size) : 0);
     case DISIR_VALUE_TYPE_INTEGER:
-        return (v1->dv_integer - v2->dv_integer);
+        // The difference of two values does not fit in an int.
+        return (v1->dv_integer > v2->dv_integer) - (v1->dv_integer < v2->dv_integer);
     case DISIR_VALUE_TYPE_FLOAT:
-        return (int)(v1->dv_float - v2->dv_float);
+        return (v1->dv_float > v2->dv_float) - (v1->dv_float < v2->dv_float);
     case DISIR_VALUE_TYPE_BOOLEAN:
         return (v1->dv_boolean - v2->dv_boolean);
     default:
-- 
2.43.0


From 9141f8590aac20cd407adcc88ee5222c4a4d172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 013/133] fix: allow setting a string value to (part of) the
 string it already holds

---
 lib/util.c | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 2de91bd..da10a3a 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -425,6 +425,8 @@ dx_value_get_float (struct disir_value *value, double *output_double)
 enum disir_status
 dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
 {
+    char *string;
+
     if (value == NULL)
     {
         log_debug (0, "invoked with NULL value pointer.");
@@ -439,41 +441,27 @@ dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
     }
     if (input == NULL)
     {
-        if (value->dv_size > 0)
-        {
-            free (value->dv_string);
-        }
+        free (value->dv_string);
         value->dv_size = 0;
         value->dv_string = NULL;
         return DISIR_STATUS_OK;
     }
 
-    if (value->dv_string == NULL || value->dv_size - 1 < size)
+    // Size of requested string + 1 for NULL terminator
+    // The input may be (part of) the string we currently hold: copy before we free.
+    string = calloc (1, size + 1);
+    if (string == NULL)
     {
-        // Just free the existing memory. We allocate a larger one below
-        if (value->dv_size - 1 < size)
-        {
-            free (value->dv_string);
-            value->dv_string = NULL;
-        }
-
-        // Size of requested string + 1 for NULL terminator
-        value->dv_string = calloc (1, size + 1);
-        if (value->dv_string == NULL)
-        {
-            log_error ("failed to allocate sufficient memory for value string (%d)",
-                       size + 1);
-            return DISIR_STATUS_NO_MEMORY;
-        }
+        log_error ("failed to allocate sufficient memory for value string (%d)",
+                   size + 1);
+        return DISIR_STATUS_NO_MEMORY;
     }
+    memcpy (string, input, size);
 
-    // Copy the incoming docstring to freely available space
-    memcpy (value->dv_string, input, size);
+    free (value->dv_string);
+    value->dv_string = string;
     value->dv_size = size;
 
-    // Terminate it with a zero terminator. Just to be safe.
-    value->dv_string[size] = '\0';
-
     log_debug (5, "stored string in disir_value (%p) of size (%d): %s\n",
                value, value->dv_size, value->dv_string);
 
-- 
2.43.0


From 180c122bf916c5fe430ab37410a2b4ff5e52c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 014/133] fix: release the old value when a config keyval
 changes its value type

---
 lib/context_value.c | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index f1d0cfa..cadcf0b 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -71,12 +71,38 @@ get_value_input_check (struct disir_context *context, const char *type,
     return DISIR_STATUS_OK;
 }
 
+//! STATIC API
+//! Change the type of a value storage. Whatever it holds is released when the new type
+//! represents its value differently.
+static void
+value_storage_set_type (struct disir_value *storage, enum disir_value_type type)
+{
+    int is_string;
+    int to_string;
+
+    is_string = (storage->dv_type == DISIR_VALUE_TYPE_STRING
+                 || storage->dv_type == DISIR_VALUE_TYPE_ENUM);
+    to_string = (type == DISIR_VALUE_TYPE_STRING || type == DISIR_VALUE_TYPE_ENUM);
+
+    if (storage->dv_type != type && !(is_string && to_string))
+    {
+        if (is_string)
+        {
+            free (storage->dv_string);
+        }
+        memset (storage, 0, sizeof (struct disir_value));
+    }
+
+    storage->dv_type = type;
+}
+
 //! STATIC API
 static enum disir_status
 set_value_input_check (struct disir_context *context, enum disir_value_type type,
                        struct disir_value **storage)
 {
     enum disir_status status;
+    enum disir_value_type storage_type;
 
     status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
     if (status != DISIR_STATUS_OK)
@@ -109,10 +135,10 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
 
         // Assign keyval to its mold equiv type
         // (Makes a correction in the type previously sat wrongfully (on purpose) below.)
+        storage_type = context->cx_keyval->kv_value.dv_type;
         if (context->cx_keyval->kv_mold_equiv)
         {
-            context->cx_keyval->kv_value.dv_type
-                = context->cx_keyval->kv_mold_equiv->cx_keyval->kv_value.dv_type;
+            storage_type = context->cx_keyval->kv_mold_equiv->cx_keyval->kv_value.dv_type;
         }
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
@@ -173,7 +199,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                 // context error message already set by set_name
                 status = DISIR_STATUS_INVALID_CONTEXT;
                 // Set storage type to mirror input
-                (*storage)->dv_type = type;
+                storage_type = type;
             }
             // Use-case 3
             // set_name has been called and succeed, but wrong type assigned.
@@ -184,9 +210,9 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                 context->CONTEXT_STATE_INVALID = 1;
                 dx_context_error_set (context, "Assigned value type %s, expecting %s",
                                       dx_value_type_string (type),
-                                      dx_value_type_string ((*storage)->dv_type));
+                                      dx_value_type_string (storage_type));
                 // Set storage type to mirror input
-                (*storage)->dv_type = type;
+                storage_type = type;
             }
         }
         // Use-case 4
@@ -194,7 +220,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                  context->CONTEXT_STATE_INVALID)
         {
             // Set storage type to mirror input
-            (*storage)->dv_type = type;
+            storage_type = type;
             status = DISIR_STATUS_INVALID_CONTEXT;
         }
         else if (context->CONTEXT_STATE_FINALIZED)
@@ -206,6 +232,8 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                 dx_context_error_set (context, "expected type %s", dc_value_type_string(context));
             }
         }
+
+        value_storage_set_type (*storage, storage_type);
     }
 
     return status;
-- 
2.43.0


From 3181901dcea364d691d2f4cbcc5cc5f7d56bd5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 015/133] fix: release empty names, values and documentation on
 destroy

---
 lib/context_default.c       | 2 +-
 lib/context_documentation.c | 3 +--
 lib/context_keyval.c        | 8 ++------
 lib/context_section.c       | 5 +----
 4 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index d7ae0a0..162936a 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -146,7 +146,7 @@ dx_default_destroy (struct disir_default **def)
     tmp = *def;
 
     if (tmp->de_value.dv_type == DISIR_VALUE_TYPE_STRING ||
-        tmp->de_value.dv_size > 0)
+        tmp->de_value.dv_type == DISIR_VALUE_TYPE_ENUM)
     {
         free (tmp->de_value.dv_string);
     }
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 8a26350..e234f9b 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -392,8 +392,7 @@ dx_documentation_destroy (struct disir_documentation **documentation)
     tmp = *documentation;
     queue = NULL;
 
-    if (tmp->dd_value.dv_size > 0)
-        free(tmp->dd_value.dv_string);
+    free(tmp->dd_value.dv_string);
 
     context = (*documentation)->dd_context;
     if (context && context->cx_parent_context)
diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index fbc7240..698463b 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -386,15 +386,11 @@ dx_keyval_destroy (struct disir_keyval **keyval)
     }
 
     // Free allocated name
-    if ((*keyval)->kv_name.dv_size != 0)
-    {
-        free ((*keyval)->kv_name.dv_string);
-    }
+    free ((*keyval)->kv_name.dv_string);
 
     // Free allocated value, if string or enum
-    if (((*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_STRING
+    if ((*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_STRING
         || (*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_ENUM)
-           && (*keyval)->kv_value.dv_size != 0)
     {
         free ((*keyval)->kv_value.dv_string);
     }
diff --git a/lib/context_section.c b/lib/context_section.c
index a0de3b5..80b686c 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -189,10 +189,7 @@ dx_section_destroy (struct disir_section **section)
     }
 
     // Free allocated name
-    if ((*section)->se_name.dv_size != 0)
-    {
-        free ((*section)->se_name.dv_string);
-    }
+    free ((*section)->se_name.dv_string);
 
     // Decref mold_equiv if set
     if ((*section)->se_mold_equiv)
-- 
2.43.0


From d77271ca54c69f9069a52c620c55624cf7865c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 016/133] fix: check the enum value that is stored, also when
 none was set

---
 lib/context_restriction.c |  4 +++-
 lib/context_value.c       | 20 ++++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index ad6285f..418192f 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1186,7 +1186,9 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
                 allowed_written = RESTRICTION_ENTRIES_BUFFER_SIZE;
             }
 
-            if (strcmp (string_value, entry->re_value_string) == 0)
+            // The value is NULL when it has never been set.
+            if (string_value != NULL && entry->re_value_string != NULL &&
+                strcmp (string_value, entry->re_value_string) == 0)
             {
                 // QUESTION: Check length aswell ?
                 log_debug (6, "Exclusive_restriction fulfilled (Value (%s) == %s)",
diff --git a/lib/context_value.c b/lib/context_value.c
index cadcf0b..4fcca39 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -833,9 +833,24 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
     enum disir_status status;
     enum disir_status invalid;
     struct disir_value *value_storage;
+    char *enumerator;
 
     TRACE_ENTER ("context: %p, value: %s, value_size: %d", context, value, value_size);
 
+    if (context == NULL || value == NULL || value_size < 0)
+    {
+        log_debug (0, "invoked with invalid argument(s). context %p, value %p, value_size %d",
+                   context, value, value_size);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
+    // The value is value_size bytes of the input, which need not be NULL terminated.
+    enumerator = strndup (value, value_size);
+    if (enumerator == NULL)
+    {
+        return DISIR_STATUS_NO_MEMORY;
+    }
+
     invalid = set_value_input_check (context, DISIR_VALUE_TYPE_ENUM, &value_storage);
     if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_INVALID_CONTEXT)
     {
@@ -846,7 +861,7 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
 
     if (invalid != DISIR_STATUS_INVALID_CONTEXT)
     {
-        invalid = dx_restriction_exclusive_value_check (context, 0, 0, value);
+        invalid = dx_restriction_exclusive_value_check (context, 0, 0, enumerator);
     }
 
      // Do not allow finalized context to change value
@@ -863,7 +878,7 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
         invalid = DISIR_STATUS_INVALID_CONTEXT;
     }
 
-    status = dx_value_set_string (value_storage, value, value_size);
+    status = dx_value_set_string (value_storage, enumerator, strlen (enumerator));
     if (status != DISIR_STATUS_OK)
     {
         dx_context_error_set (context,
@@ -874,6 +889,7 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
 
     status = (status == DISIR_STATUS_OK ? invalid : status);
 out:
+    free (enumerator);
     TRACE_EXIT ("%s", disir_status_string (status));
     return status;
 }
-- 
2.43.0


From 2e4b9cf610d24ad109b622c5a28558e1c6ec92e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 017/133] fix: dc_set_value sets enum values and rejects a NULL
 value

---
 lib/context_value.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index 4fcca39..a1509f6 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -275,6 +275,13 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
         goto error;
     }
 
+    if (value == NULL)
+    {
+        log_debug (0, "invoked with NULL value pointer.");
+        status = DISIR_STATUS_INVALID_ARGUMENT;
+        goto error;
+    }
+
     switch (dc_value_type (context))
     {
     case DISIR_VALUE_TYPE_STRING:
@@ -343,8 +350,7 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     }
     case DISIR_VALUE_TYPE_ENUM:
     {
-        // TODO: Implement dc_set_value enum
-        dx_crash_and_burn ("dc_set_value ENUM NOT HANDLED!");
+        status = dc_set_value_enum (context, value, value_size);
         break;
     }
     case DISIR_VALUE_TYPE_UNKNOWN:
-- 
2.43.0


From ffbf4cb1a3d107756180c93f90ad4081e8d25cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 018/133] fix: take a destroyed default out of the queue of its
 living keyval

---
 lib/context_default.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index 162936a..0ef5eaf 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -155,7 +155,7 @@ dx_default_destroy (struct disir_default **def)
     if (context && context->cx_parent_context)
     {
         // Don't access parent context type if context is destoyed
-        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED != 0)
+        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
         {
             if (dc_context_type (context->cx_parent_context) == DISIR_CONTEXT_KEYVAL)
             {
-- 
2.43.0


From 701f5bf2fe4a14261af30ae0d2ecfc173d31e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 019/133] fix: destroying documentation whose parent is
 destroyed reads no freed parent

---
 lib/context_documentation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index e234f9b..2dfc531 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -395,7 +395,9 @@ dx_documentation_destroy (struct disir_documentation **documentation)
     free(tmp->dd_value.dv_string);
 
     context = (*documentation)->dd_context;
-    if (context && context->cx_parent_context)
+    // The parent releases its documentation before it is marked destroyed.
+    if (context && context->cx_parent_context &&
+        context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
     {
         context = context->cx_parent_context;
 
-- 
2.43.0


From 720461942fff5ad39f7e363e714605155a9b6b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 020/133] fix: query: destroy a created ancestor exactly once
 when the query fails

---
 lib/disir_config_query.c |  2 ++
 lib/query.c              | 23 +++++++++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/disir_config_query.c b/lib/disir_config_query.c
index d0320b2..ed50094 100644
--- a/lib/disir_config_query.c
+++ b/lib/disir_config_query.c
@@ -237,6 +237,8 @@ config_ensure_keyval_leaf (struct disir_context *immediate_parent, const char *k
     {
         log_warn ("set_name failed, even though it shouldnt have: %s",
                   disir_status_string (status));
+        dx_context_transfer_logwarn (immediate_parent, context);
+        dc_destroy (&context);
         return status;
     }
 
diff --git a/lib/query.c b/lib/query.c
index 3db7537..dca1052 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -274,7 +274,11 @@ dx_query_ensure_ancestors (struct disir_context *config,
                 // TODO: Verify / sanify error message
                 // This should only happend if the variable referenced is a KEYVAL, not a section.
                 dx_context_transfer_logwarn (config, current_context);
-                dc_destroy (&current_context);
+                // The ancestor is destroyed below
+                if (current_context != ancestor_context)
+                {
+                    dc_destroy (&current_context);
+                }
                 break;
             }
 
@@ -283,7 +287,11 @@ dx_query_ensure_ancestors (struct disir_context *config,
             {
                 // This should NOT happend.
                 log_warn ("TODO: HANDLE ERROR MESSAGE: generate_from_config_root");
-                dc_destroy (&current_context);
+                // The ancestor is destroyed below
+                if (current_context != ancestor_context)
+                {
+                    dc_destroy (&current_context);
+                }
                 break;
             }
 
@@ -302,6 +310,10 @@ dx_query_ensure_ancestors (struct disir_context *config,
                 }
             }
         }
+        else if (status != DISIR_STATUS_OK)
+        {
+            break;
+        }
         else
         {
             // Check that our current_context is a section
@@ -331,12 +343,7 @@ dx_query_ensure_ancestors (struct disir_context *config,
     // we need to destroy it.
     if (status != DISIR_STATUS_OK && ancestor_context)
     {
-        // We should only destroy the ancestor if we havent already destroyed
-        // it in our loop above
-        if (ancestor_context != current_context)
-        {
-            dc_destroy (&ancestor_context);
-        }
+        dc_destroy (&ancestor_context);
     }
 
     // Populate the output parameters
-- 
2.43.0


From 7f58162a88e3cd404ceb847e1b6c30569f522be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 021/133] fix: query setters apply the maximum entries of the
 config version

---
 lib/disir_config_query.c | 11 ++++++++++-
 lib/query.c              |  5 ++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config_query.c b/lib/disir_config_query.c
index ed50094..b3988de 100644
--- a/lib/disir_config_query.c
+++ b/lib/disir_config_query.c
@@ -8,6 +8,7 @@
 #include <disir/config.h>
 
 #include "context_private.h"
+#include "config.h"
 #include "query_private.h"
 #include "log.h"
 #include "value.h"
@@ -173,12 +174,14 @@ config_ensure_keyval_leaf (struct disir_context *immediate_parent, const char *k
     }
 
     int max_elements = 0;
+    struct disir_version *config_version
+        = &immediate_parent->cx_root_context->cx_config->cf_version;
     enum disir_context_type element_type = dc_context_type (element_mold_equiv);
 
     // Check if our keyval_index is out of bounds of the maximum number of instances.
     status = dx_restriction_entries_value (element_mold_equiv,
                                            DISIR_RESTRICTION_INC_ENTRY_MAX,
-                                           NULL, &max_elements);
+                                           config_version, &max_elements);
     dc_putcontext (&element_mold_equiv);
     if (status != DISIR_STATUS_OK)
     {
@@ -321,6 +324,12 @@ config_set_keyval_generic (struct disir_context *parent, enum disir_value_type t
         struct disir_context *ancestor = NULL;
         struct disir_context *immediate_parent = NULL;
 
+        if (dc_context_type (parent->cx_root_context) != DISIR_CONTEXT_CONFIG)
+        {
+            status = DISIR_STATUS_WRONG_CONTEXT;
+            goto out;
+        }
+
         log_debug (2, "set_keyval_query didn't resolve - ensuring ancestors exist.");
         status = dx_query_ensure_ancestors (parent, query, args_copy, &ancestor, &immediate_parent,
                                             keyval_name, &keyval_index);
diff --git a/lib/query.c b/lib/query.c
index dca1052..d9d125f 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -6,6 +6,7 @@
 #include <disir/disir.h>
 
 #include "context_private.h"
+#include "config.h"
 #include "query_private.h"
 #include "restriction.h"
 #include "log.h"
@@ -220,9 +221,11 @@ dx_query_ensure_ancestors (struct disir_context *config,
             }
 
             int max_elements = 0;
+            struct disir_version *config_version
+                = &config->cx_root_context->cx_config->cf_version;
             status = dx_restriction_entries_value (element_mold_equiv,
                                                    DISIR_RESTRICTION_INC_ENTRY_MAX,
-                                                   NULL, &max_elements);
+                                                   config_version, &max_elements);
             if (status != DISIR_STATUS_OK)
             {
                 dc_putcontext (&element_mold_equiv);
-- 
2.43.0


From cc2194ca8f9e296e4aea36359302bfef6231cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 022/133] fix: query: do not wrap an index that does not fit

---
 lib/query.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/query.c b/lib/query.c
index d9d125f..e6a4741 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <stdarg.h>
 #include <string.h>
+#include <limits.h>
 
 #include <disir/disir.h>
 
@@ -28,6 +29,7 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
     char *key_seperator;
     char *index_indicator;
     char *endptr;
+    long int parsed_index;
 
     *index = 0;
     name_below = NULL;
@@ -95,7 +97,7 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
         strcat (resolved, name_index);
 
         // Find the index
-        *index = strtol (name_index, &endptr, 10);
+        parsed_index = strtol (name_index, &endptr, 10);
         if (name_index == endptr)
         {
             dx_log_context (parent, "'%s' is an invalid index indicator.", resolved);
@@ -108,6 +110,13 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
                             resolved);
             return DISIR_STATUS_INVALID_ARGUMENT;
         }
+
+        if (parsed_index < 0 || parsed_index > INT_MAX)
+        {
+            dx_log_context (parent, "'%s' contains an index out of range.", resolved);
+            return DISIR_STATUS_INVALID_ARGUMENT;
+        }
+        *index = (int) parsed_index;
     }
 
     // Parsing went a-okay. Populate output parameters
-- 
2.43.0


From 476c9e3c08b68eadaf91eb392b22419cca1b7cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 023/133] fix: resolve the root name of deeply nested and of
 detached elements

---
 lib/context.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 4c0a95d..aadbaec 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -657,8 +657,9 @@ dc_resolve_root_name (struct disir_context *context, char **output)
 {
     enum disir_status status;
     int total_size = 0;
-    const char *reverse_name_index[20];
-    int reverse_name_index_index[20];
+    int depth = 0;
+    const char **reverse_name_index = NULL;
+    int *reverse_name_index_index = NULL;
     int current_name_index = -1;
     struct disir_context *current_context = NULL;
     const char *name = NULL;
@@ -684,6 +685,20 @@ dc_resolve_root_name (struct disir_context *context, char **output)
         goto out;
     }
 
+    // One entry per level between the context and its root
+    for (current_context = context; current_context != NULL;
+         current_context = current_context->cx_parent_context)
+    {
+        depth += 1;
+    }
+    reverse_name_index = calloc (depth, sizeof (*reverse_name_index));
+    reverse_name_index_index = calloc (depth, sizeof (*reverse_name_index_index));
+    if (reverse_name_index == NULL || reverse_name_index_index == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
+
     current_context = context;
     while (current_context != NULL)
     {
@@ -702,7 +717,7 @@ dc_resolve_root_name (struct disir_context *context, char **output)
         // Add length of name, plus additional characters for separators and index
         //  e.g., name@12.
         total_size += name_size;
-        total_size += 10;
+        total_size += 16;
 
         reverse_name_index[current_name_index] = name;
         if (reverse_name_index_index[current_name_index] == -1)
@@ -718,7 +733,7 @@ dc_resolve_root_name (struct disir_context *context, char **output)
             do
             {
                 status = dc_collection_next (collection, &queried);
-                if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
+                if (status != DISIR_STATUS_OK)
                     break;
 
                 i += 1;
@@ -754,7 +769,10 @@ dc_resolve_root_name (struct disir_context *context, char **output)
     // Allocate buffer for name
     buffer = malloc (total_size);
     if (buffer == NULL)
-        return DISIR_STATUS_NO_MEMORY;
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
 
     int i;
     int written = 0;
@@ -783,6 +801,8 @@ dc_resolve_root_name (struct disir_context *context, char **output)
     *output = buffer;
     status = DISIR_STATUS_OK;
 out:
+    free (reverse_name_index);
+    free (reverse_name_index_index);
     TRACE_EXIT ("%s", disir_status_string (status));
     return status;
 }
-- 
2.43.0


From 76104794096a0732ca4076c17bbef3ce12dcf6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 024/133] fix: set_name applies the maximum entries of the
 config version

---
 lib/context.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/context.c b/lib/context.c
index aadbaec..6ec959f 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -547,7 +547,8 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         if (invalid == DISIR_STATUS_OK && context->cx_parent_context->CONTEXT_STATE_FINALIZED)
         {
             // check if number of elements in parent exceed size of restriction
-            dx_restriction_entries_value (context, DISIR_RESTRICTION_INC_ENTRY_MAX, NULL, &max);
+            dx_restriction_entries_value (context, DISIR_RESTRICTION_INC_ENTRY_MAX,
+                                          &context->cx_root_context->cx_config->cf_version, &max);
             dc_find_elements (context->cx_parent_context, name, &collection);
             current_entries_count = dc_collection_size (collection);
             dc_collection_finished (&collection);
-- 
2.43.0


From 3097953022c3d273c706b9e4dfafd16a42fb13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 025/133] fix: naming a config element again releases its
 former mold equivalent and value

---
 lib/context.c       | 16 +++++++++++++---
 lib/context_value.c | 10 ++++------
 lib/include/value.h |  6 ++++++
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 6ec959f..dad32d3 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -946,18 +946,28 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    dx_context_incref (queried);
+
+    // The name may be set more than once while constructing
     if (dc_context_type (context) == DISIR_CONTEXT_SECTION)
     {
+        if (context->cx_section->se_mold_equiv)
+        {
+            dx_context_decref (&context->cx_section->se_mold_equiv);
+        }
         context->cx_section->se_mold_equiv = queried;
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
     {
+        if (context->cx_keyval->kv_mold_equiv)
+        {
+            dx_context_decref (&context->cx_keyval->kv_mold_equiv);
+        }
         context->cx_keyval->kv_mold_equiv = queried;
-        context->cx_keyval->kv_value.dv_type = queried->cx_keyval->kv_value.dv_type;
+        dx_value_change_type (&context->cx_keyval->kv_value,
+                              queried->cx_keyval->kv_value.dv_type);
     }
 
-    dx_context_incref (queried);
-
     return DISIR_STATUS_OK;
 }
 
diff --git a/lib/context_value.c b/lib/context_value.c
index a1509f6..8926ee6 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -71,11 +71,9 @@ get_value_input_check (struct disir_context *context, const char *type,
     return DISIR_STATUS_OK;
 }
 
-//! STATIC API
-//! Change the type of a value storage. Whatever it holds is released when the new type
-//! represents its value differently.
-static void
-value_storage_set_type (struct disir_value *storage, enum disir_value_type type)
+//! INTERNAL API
+void
+dx_value_change_type (struct disir_value *storage, enum disir_value_type type)
 {
     int is_string;
     int to_string;
@@ -233,7 +231,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
             }
         }
 
-        value_storage_set_type (*storage, storage_type);
+        dx_value_change_type (*storage, storage_type);
     }
 
     return status;
diff --git a/lib/include/value.h b/lib/include/value.h
index f107637..c7c0325 100644
--- a/lib/include/value.h
+++ b/lib/include/value.h
@@ -77,6 +77,12 @@ int dx_value_compare (struct disir_value *v1, struct disir_value *v2);
 enum disir_status dx_value_copy (struct disir_value *destination, struct disir_value *source);
 
 
+//! \brief Change the type of a value storage.
+//!
+//! Whatever it holds is released when the new type represents its value differently.
+//!
+void dx_value_change_type (struct disir_value *storage, enum disir_value_type type);
+
 //! \brief Set the input 'value' with the contents of the input 'input'
 //!
 //! Allocate and copy the input 'input' into the 'value' structure.
-- 
2.43.0


From e682790103e05ebb062e663413b606e3b7f733ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 026/133] fix: children of a section without mold equivalent
 have none either

---
 lib/context.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index dad32d3..0602dd1 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -864,6 +864,10 @@ dx_get_mold_equiv_type (struct disir_context *parent,
     }
     else if (dc_context_type (parent) == DISIR_CONTEXT_SECTION)
     {
+        if (parent->cx_section->se_mold_equiv == NULL)
+        {
+            return DISIR_STATUS_NOT_EXIST;
+        }
         storage = parent->cx_section->se_mold_equiv->cx_section->se_elements;
     }
     else
-- 
2.43.0


From 3b524af9e06f2e226b1c8347a75ad1d6117b2aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:16 +0000
Subject: [PATCH 027/133] fix: refuse to rename an element its parent knows by
 another name

---
 lib/context.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index 0602dd1..ee33504 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -529,6 +529,13 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         return status;
     }
 
+    // The parent knows the element by the name it was finalized with.
+    if (context->CONTEXT_STATE_IN_PARENT)
+    {
+        dx_context_error_set (context, "cannot change the name of a finalized context");
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
+
     // Find the name in the mold
     if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
-- 
2.43.0


From dbab4b8fb6f0941d7b5a47c259636f08209bc606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 028/133] fix: look up the name that is set, not what follows
 it

---
 lib/context.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index ee33504..d7c4316 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -509,6 +509,7 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     int max;
     int current_entries_count;
     struct disir_collection *collection;
+    char *mold_name;
 
     collection = NULL;
     max = 0;
@@ -539,7 +540,10 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     // Find the name in the mold
     if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
-        invalid = dx_set_mold_equiv (context, name, name_size);
+        // The name is name_size bytes of the input, which need not be NULL terminated.
+        mold_name = (name && name_size > 0) ? strndup (name, name_size) : NULL;
+        invalid = dx_set_mold_equiv (context, mold_name, name_size);
+        free (mold_name);
         if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_NOT_EXIST)
         {
             return invalid;
@@ -556,7 +560,9 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
             // check if number of elements in parent exceed size of restriction
             dx_restriction_entries_value (context, DISIR_RESTRICTION_INC_ENTRY_MAX,
                                           &context->cx_root_context->cx_config->cf_version, &max);
-            dc_find_elements (context->cx_parent_context, name, &collection);
+            mold_name = strndup (name, name_size);
+            dc_find_elements (context->cx_parent_context, mold_name, &collection);
+            free (mold_name);
             current_entries_count = dc_collection_size (collection);
             dc_collection_finished (&collection);
 
-- 
2.43.0


From d3d57d80fce90959254dbef1e66eec59abc1b171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 029/133] fix: a nested section is not invalid itself when only
 its children are

---
 lib/validate.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/validate.c b/lib/validate.c
index 82c60de..fa3bcf6 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -816,8 +816,12 @@ dx_validate_context (struct disir_context *context)
         }
 
         // we are returning status as-is.
-        // but we are invalid, so mark us as invalid
-        context->CONTEXT_STATE_INVALID = 1;
+        // but we are invalid, so mark us as invalid - unless it is only our children that are,
+        // and we are already finalized.
+        if (status != DISIR_STATUS_ELEMENTS_INVALID || context->CONTEXT_STATE_CONSTRUCTING)
+        {
+            context->CONTEXT_STATE_INVALID = 1;
+        }
     }
     // We are invalid - mark us as such.
     // ELEMENTS_INVALID does NOT put the calling context into invalid state.
-- 
2.43.0


From d07e85ed2e91c6a179a9b961ce9c64e1ae8690f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 030/133] fix: json: keep the document until its parse errors
 are formatted

---
 3rdparty/jsoncpp/jsoncpp.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index 533fc6a..c094933 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -298,11 +298,9 @@ bool Reader::parse(std::istream& sin, Value& root, bool collectComments) {
   // Those would allow streamed input from a file, if parse() were a
   // template function.
 
-  // Since JSONCPP_STRING is reference-counted, this at least does not
-  // create an extra copy.
-  JSONCPP_STRING doc;
-  std::getline(sin, doc, (char)EOF);
-  return parse(doc.data(), doc.data() + doc.size(), root, collectComments);
+  // The document is kept: errors are formatted from it after parsing.
+  std::getline(sin, document_, (char)EOF);
+  return parse(document_.data(), document_.data() + document_.size(), root, collectComments);
 }
 
 bool Reader::parse(const char* beginDoc,
-- 
2.43.0


From ad08454a5af9fc056129c785a61c12a1d99f2a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 031/133] fix: validating a config considers what changed since
 it was finalized

---
 lib/disir_config.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index b22b3fe..57345d8 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -446,6 +446,8 @@ disir_config_valid (struct disir_config *config, struct disir_collection **colle
         col = dc_collection_create ();
     }
 
+    // Elements may have been added, removed and changed since they were last validated.
+    dx_validate_context (config->cf_context);
     status = dx_invalid_elements (config->cf_context, col);
 
     if (collection)
-- 
2.43.0


From 1a554715bd1dbb4b5a1beaa93611c9d6c24175cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:22 +0000
Subject: [PATCH 032/133] fix: compare every restriction of an element, not
 only the first

---
 lib/compare.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/compare.c b/lib/compare.c
index be1d66d..8d44ab0 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -341,6 +341,7 @@ compare_restriction_queue (struct disir_restriction *lhs, struct disir_restricti
     if (lhs->re_value_numeric != rhs->re_value_numeric
         || lhs->re_value_min != rhs->re_value_min
         || lhs->re_value_max != rhs->re_value_max
+        || (lhs->re_value_string == NULL) != (rhs->re_value_string == NULL)
         || (lhs->re_value_string != NULL
             && rhs->re_value_string != NULL
             && strcmp (lhs->re_value_string, rhs->re_value_string) != 0))
@@ -349,7 +350,8 @@ compare_restriction_queue (struct disir_restriction *lhs, struct disir_restricti
         return DISIR_STATUS_OK;
     }
 
-    return DISIR_STATUS_OK;
+    // recurse to next entry
+    return compare_restriction_queue (lhs->next, rhs->next, report);
 }
 
 //! STATIC FUNCTION
-- 
2.43.0


From eb7bbeda7f588678f6357193d7af655c1e8a127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 033/133] fix: comparing releases its collections when it fails

---
 lib/compare.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index 8d44ab0..2483531 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -604,7 +604,8 @@ compare_all_elements (struct disir_context *lhs, struct disir_context *rhs,
         dx_diff_report_add (report, "rhs contains entry '%s' not present in lhs.", name);
     } while (1);
 
-    // Cleanup
+    // FALL-THROUGH
+out:
     if (map)
     {
         multimap_destroy (map, NULL, NULL);
@@ -623,8 +624,6 @@ compare_all_elements (struct disir_context *lhs, struct disir_context *rhs,
         dc_putcontext (&element);
     }
 
-    // FALL-THROUGH
-out:
     return status;
 }
 
@@ -802,7 +801,7 @@ dc_compare (struct disir_context *lhs, struct disir_context *rhs,
 
     if (lhs == NULL || rhs == NULL)
     {
-        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)");
+        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)", lhs, rhs);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From 5ccb4d9ee4ef7babca66a60b250d972e2fb42429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 034/133] fix: update: visit and resolve nested and repeated
 elements

---
 lib/update.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 7cf2c1b..b997b0c 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -63,6 +63,12 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
     }
     while (1);
 
+    if (status == DISIR_STATUS_EXHAUSTED)
+    {
+        // All elements are visited.
+        status = DISIR_STATUS_OK;
+    }
+
     if (coll)
         dc_collection_finished (&coll);
     if (context)
@@ -134,7 +140,7 @@ disir_update_config (struct disir_config *config,
     up->up_collection = dc_collection_create();
 
     status = retrieve_all_keyvals_recursively (config->cf_context, up->up_collection);
-    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
+    if (status != DISIR_STATUS_OK)
         goto error;
 
     up->up_config_old = config;
@@ -284,9 +290,10 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
 {
     enum disir_status status;
     struct disir_context *context_keyval = NULL;
+    char *name = NULL;
 
     TRACE_ENTER ("");
-    if (update == NULL)
+    if (update == NULL || resolve == NULL)
     {
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
@@ -297,8 +304,13 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
         return DISIR_STATUS_NO_CAN_DO;
     }
 
+    // The name alone does not tell nested and repeated elements apart
+    status = dc_resolve_root_name (update->up_context_keyval, &name);
+    if (status != DISIR_STATUS_OK)
+        goto out;
+
     status = dc_query_resolve_context (update->up_config_target->cf_context,
-                                       update->up_keyval->kv_name.dv_string, &context_keyval);
+                                       "%s", &context_keyval, name);
     if (status != DISIR_STATUS_OK)
         goto out;
 
@@ -324,6 +336,7 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
 out:
     if (context_keyval)
         dc_putcontext (&context_keyval);
+    free (name);
 
     return status;
 }
-- 
2.43.0


From e25986581fa31aac6d4683f1228a154bf6a6df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:31 +0000
Subject: [PATCH 035/133] fix: update: keep the values and the repeated
 elements the user has set

---
 lib/include/update_private.h |   7 +-
 lib/update.c                 | 357 +++++++++++++++++++++++++----------
 2 files changed, 265 insertions(+), 99 deletions(-)

diff --git a/lib/include/update_private.h b/lib/include/update_private.h
index 6aa28b4..5771677 100644
--- a/lib/include/update_private.h
+++ b/lib/include/update_private.h
@@ -9,17 +9,16 @@ struct disir_update
     struct disir_config         *up_config_old;
     struct disir_config         *up_config_target;
 
-    //! Current collection we're iterating
-    //! TODO: When iterating nested sections of collections,
-    //! we need to handle the nested level and store collections
-    //! on a stack
+    //! The keyvals of the config to upgrade, and the keyvals of the target equivalent to each
     struct disir_collection       *up_collection;
+    struct disir_collection       *up_collection_target;
 
     int                         up_updated;
 
     //! Conflict state - NULL when no conflict
     struct disir_keyval         *up_keyval;
     struct disir_context        *up_context_keyval;
+    struct disir_context        *up_context_target;
     char                        *up_config_value;
     char                        *up_mold_value;
 };
diff --git a/lib/update.c b/lib/update.c
index b997b0c..3bf410d 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -6,62 +6,149 @@
 #include <disir/disir.h>
 #include <disir/context.h>
 
+#include "collection.h"
 #include "config.h"
 #include "default.h"
 #include "section.h"
 #include "keyval.h"
 #include "log.h"
 #include "mold.h"
+#include "restriction.h"
 #include "update_private.h"
 
 //! STATIC FUNCTION
+//! Create another element in target, equivalent of mold_equiv, with the default contents
+//! mold_equiv has at the version of target.
 static enum disir_status
-retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_collection *keyvals)
+create_element (struct disir_context *target, struct disir_context *mold_equiv,
+                struct disir_version *version, struct disir_context **element)
 {
     enum disir_status status;
-    struct disir_collection *coll = NULL;
     struct disir_context *context = NULL;
-    struct disir_element_storage *elements = NULL;
+    struct disir_default *def = NULL;
+    const char *name;
+    int32_t size;
 
-    switch (current->cx_type)
-    {
-    case DISIR_CONTEXT_CONFIG:
-    {
-        elements = current->cx_config->cf_elements;
-        break;
-    }
-    case DISIR_CONTEXT_SECTION:
+    status = dc_get_name (mold_equiv, &name, &size);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    status = dc_begin (target, dc_context_type (mold_equiv), &context);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    status = dc_set_name (context, name, size);
+    if (status != DISIR_STATUS_OK)
+        goto error;
+
+    if (dc_context_type (mold_equiv) == DISIR_CONTEXT_SECTION)
     {
-        elements = current->cx_section->se_elements;
-        break;
+        status = dc_generate_from_config_root (context);
     }
-    case DISIR_CONTEXT_KEYVAL:
+    else
     {
-        return dc_collection_push_context (keyvals, current);
-    }
-    default:
-        return DISIR_STATUS_INVALID_ARGUMENT;
+        dx_default_get_active (mold_equiv, version, &def);
+        status = (def == NULL) ? DISIR_STATUS_DEFAULT_MISSING
+                               : dx_value_copy (&context->cx_keyval->kv_value, &def->de_value);
     }
+    if (status != DISIR_STATUS_OK)
+        goto error;
 
-    status = dx_element_storage_get_all (elements, &coll);
+    status = dc_finalize_keep_reference (context);
+    if (status != DISIR_STATUS_OK)
+        goto error;
+
+    *element = context;
+    return DISIR_STATUS_OK;
+error:
+    dc_destroy (&context);
+    return status;
+}
+
+//! STATIC FUNCTION
+//! Pair every keyval in current with its equivalent in target, which is created if need be.
+//! Elements that mold_parent does not allow at the version of target are left out.
+static enum disir_status
+pair_all_keyvals_recursively (struct disir_update *up, struct disir_context *mold_parent,
+                              struct disir_context *current, struct disir_context *target)
+{
+    enum disir_status status;
+    struct disir_collection *mold_elements = NULL;
+    struct disir_collection *elements = NULL;
+    struct disir_context *mold_equiv = NULL;
+    struct disir_context *from = NULL;
+    struct disir_context *to = NULL;
+    const char *name;
+    int max;
+    int index;
+
+    status = dc_get_elements (mold_parent, &mold_elements);
     if (status != DISIR_STATUS_OK)
-    {
         return status;
-    }
 
-    do
+    while ((status = dc_collection_next (mold_elements, &mold_equiv)) == DISIR_STATUS_OK)
     {
-        status = dc_collection_next (coll, &context);
+        status = dc_get_name (mold_equiv, &name, NULL);
         if (status != DISIR_STATUS_OK)
-            break;
+            goto out;
 
-        status = retrieve_all_keyvals_recursively (context, keyvals);
+        status = dx_restriction_entries_value (mold_equiv, DISIR_RESTRICTION_INC_ENTRY_MAX,
+                                               &up->up_target, &max);
         if (status != DISIR_STATUS_OK)
-            break;
+            goto out;
+
+        status = dc_find_elements (current, name, &elements);
+        if (status == DISIR_STATUS_NOT_EXIST)
+        {
+            dc_putcontext (&mold_equiv);
+            continue;
+        }
+        if (status != DISIR_STATUS_OK)
+            goto out;
+
+        for (index = 0; max == 0 || index < max; index++)
+        {
+            status = dc_collection_next (elements, &from);
+            if (status == DISIR_STATUS_EXHAUSTED)
+                break;
+            if (status != DISIR_STATUS_OK)
+                goto out;
+
+            status = dc_find_element (target, name, index, &to);
+            if (status == DISIR_STATUS_NOT_EXIST)
+            {
+                status = create_element (target, mold_equiv, &up->up_target, &to);
+            }
+            if (status != DISIR_STATUS_OK)
+                goto out;
+
+            if (dc_context_type (from) != dc_context_type (mold_equiv))
+            {
+                // Not the element the mold knows - there is no equivalent.
+                status = DISIR_STATUS_OK;
+            }
+            else if (dc_context_type (from) == DISIR_CONTEXT_SECTION)
+            {
+                status = pair_all_keyvals_recursively (up, mold_equiv, from, to);
+            }
+            else
+            {
+                status = dc_collection_push_context (up->up_collection, from);
+                if (status == DISIR_STATUS_OK)
+                {
+                    status = dc_collection_push_context (up->up_collection_target, to);
+                }
+            }
+            if (status != DISIR_STATUS_OK)
+                goto out;
+
+            dc_putcontext (&from);
+            dc_putcontext (&to);
+        }
 
-        dc_putcontext (&context);
+        dc_collection_finished (&elements);
+        dc_putcontext (&mold_equiv);
     }
-    while (1);
 
     if (status == DISIR_STATUS_EXHAUSTED)
     {
@@ -69,14 +156,71 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
         status = DISIR_STATUS_OK;
     }
 
-    if (coll)
-        dc_collection_finished (&coll);
-    if (context)
-        dc_putcontext (&context);
+    // FALL-THROUGH
+out:
+    if (from)
+        dc_putcontext (&from);
+    if (to)
+        dc_putcontext (&to);
+    if (mold_equiv)
+        dc_putcontext (&mold_equiv);
+    if (elements)
+        dc_collection_finished (&elements);
+    dc_collection_finished (&mold_elements);
 
     return status;
 }
 
+//! STATIC FUNCTION
+//! The next pair of keyvals of the update, neither of which is destroyed.
+static enum disir_status
+next_pair (struct disir_update *up, struct disir_context **keyval, struct disir_context **target)
+{
+    enum disir_status status;
+
+    while (1)
+    {
+        status = dx_collection_next_noncoalesce (up->up_collection, keyval);
+        if (status != DISIR_STATUS_OK)
+            return status;
+
+        status = dx_collection_next_noncoalesce (up->up_collection_target, target);
+        if (status != DISIR_STATUS_OK)
+        {
+            dc_putcontext (keyval);
+            return status;
+        }
+
+        if ((*keyval)->CONTEXT_STATE_DESTROYED == 0 && (*target)->CONTEXT_STATE_DESTROYED == 0)
+            return DISIR_STATUS_OK;
+
+        dc_putcontext (keyval);
+        dc_putcontext (target);
+    }
+}
+
+//! STATIC FUNCTION
+//! Set value on keyval, subject to the restrictions of keyval.
+static enum disir_status
+set_value (struct disir_context *keyval, struct disir_value *value)
+{
+    switch (value->dv_type)
+    {
+    case DISIR_VALUE_TYPE_STRING:
+        return dc_set_value_string (keyval, value->dv_string, value->dv_size);
+    case DISIR_VALUE_TYPE_ENUM:
+        return dc_set_value_enum (keyval, value->dv_string, value->dv_size);
+    case DISIR_VALUE_TYPE_INTEGER:
+        return dc_set_value_integer (keyval, value->dv_integer);
+    case DISIR_VALUE_TYPE_FLOAT:
+        return dc_set_value_float (keyval, value->dv_float);
+    case DISIR_VALUE_TYPE_BOOLEAN:
+        return dc_set_value_boolean (keyval, value->dv_boolean);
+    default:
+        return DISIR_STATUS_WRONG_VALUE_TYPE;
+    }
+}
+
 //! PUBLIC API
 enum disir_status
 disir_update_config (struct disir_config *config,
@@ -139,13 +283,21 @@ disir_update_config (struct disir_config *config,
 
     up->up_collection = dc_collection_create();
 
-    status = retrieve_all_keyvals_recursively (config->cf_context, up->up_collection);
-    if (status != DISIR_STATUS_OK)
+    up->up_collection_target = dc_collection_create();
+    if (up->up_collection == NULL || up->up_collection_target == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
         goto error;
+    }
 
     up->up_config_old = config;
     dc_version_set (&up->up_target, target);
 
+    status = pair_all_keyvals_recursively (up, config->cf_mold->mo_context, config->cf_context,
+                                           config_at_target->cf_context);
+    if (status != DISIR_STATUS_OK)
+        goto error;
+
     *update = up;
     return disir_update_continue (up);
 error:
@@ -158,14 +310,13 @@ disir_update_continue (struct disir_update *update)
 {
     enum disir_status status;
     struct disir_context *config_keyval = NULL;
+    struct disir_context *target_keyval = NULL;
     struct disir_keyval *keyval;
     struct disir_default *config_def;
     struct disir_default *target_def;
     int32_t size;
     int res;
 
-    config_keyval = NULL;
-
     TRACE_ENTER ("");
 
     if (update == NULL)
@@ -180,30 +331,24 @@ disir_update_continue (struct disir_update *update)
 
     while (1)
     {
-        update->up_context_keyval = NULL;
-
         if (config_keyval)
         {
             dc_putcontext (&config_keyval);
         }
+        if (target_keyval)
+        {
+            dc_putcontext (&target_keyval);
+        }
 
-        status = dc_collection_next (update->up_collection, &config_keyval);
+        status = next_pair (update, &config_keyval, &target_keyval);
         if (status != DISIR_STATUS_OK)
             break;
 
-        update->up_context_keyval = config_keyval;
         keyval = config_keyval->cx_keyval;
 
-        // Get keyval default of target version - if version is less or equal to current
-        // Do nothing
-        dx_default_get_active (keyval->kv_mold_equiv, &update->up_target, &target_def);
-        res = dc_version_compare (&target_def->de_introduced,
-                                  &update->up_config_old->cf_version);
-        if (res <= 0)
-        {
-            // Do nothing - mold default value for target is older or equal to config version
-            continue;
-        }
+        dx_default_get_active (target_keyval->cx_keyval->kv_mold_equiv, &update->up_target,
+                               &target_def);
+
         // We might get lucky and have the current config value equal the target default value
         res = dx_value_compare (&keyval->kv_value, &target_def->de_value);
         if (res == 0)
@@ -213,46 +358,79 @@ disir_update_continue (struct disir_update *update)
             continue;
         }
 
-        // Two cases:
-        //  * Update config if value of default at config version equals entry in config
-        //  * Conflict if default at config version differ from entry in config
-        dx_default_get_active (keyval->kv_mold_equiv, &update->up_config_old->cf_version,
-                               &config_def);
-        res = dx_value_compare (&keyval->kv_value, &config_def->de_value);
-        if (res == 0)
+        res = dc_version_compare (&target_def->de_introduced,
+                                  &update->up_config_old->cf_version);
+        if (res <= 0)
         {
-            // Config has not changed since its last update value.
-            // We can safely update the stored value in config with new default
-            dx_value_copy (&keyval->kv_value, &target_def->de_value);
-            // TODO: Add update report entry
-            update->up_updated++;
+            // The default has not changed since the config version - keep the value of the config
+            status = set_value (target_keyval, &keyval->kv_value);
+            if (status == DISIR_STATUS_OK)
+                continue;
+            if (status != DISIR_STATUS_RESTRICTION_VIOLATED &&
+                status != DISIR_STATUS_WRONG_VALUE_TYPE)
+                break;
+            // The value may not be kept at the target version.
         }
         else
         {
-            // Oh-oh - We have a conflict
-            // Target default is higher version than config value. Config value differ
-            // from config default. Manual resolution is in order.
-            update->up_keyval = keyval;
+            // Two cases:
+            //  * Update config if value of default at config version equals entry in config
+            //  * Conflict if default at config version differ from entry in config
+            dx_default_get_active (target_keyval->cx_keyval->kv_mold_equiv,
+                                   &update->up_config_old->cf_version, &config_def);
+            res = dx_value_compare (&keyval->kv_value, &config_def->de_value);
+            if (res == 0)
+            {
+                // Config has not changed since its last update value.
+                // The new default, which the target already holds, replaces it.
+                // TODO: Add update report entry
+                update->up_updated++;
+                continue;
+            }
+        }
+
+        // Oh-oh - We have a conflict
+        // Target default is higher version than config value. Config value differ
+        // from config default. Manual resolution is in order.
+        update->up_keyval = keyval;
+        update->up_context_keyval = config_keyval;
+        update->up_context_target = target_keyval;
 
-            update->up_config_value = malloc (512); // XXX Handle allocation better
-            dx_value_stringify (&keyval->kv_value, 512, update->up_config_value, &size);
-            // XXX Handle buffer overflow / insufficient buffer
+        update->up_config_value = malloc (512); // XXX Handle allocation better
+        dx_value_stringify (&keyval->kv_value, 512, update->up_config_value, &size);
+        // XXX Handle buffer overflow / insufficient buffer
 
-            update->up_mold_value = malloc (512); // XXX: Handle allocation better
-            dx_value_stringify (&target_def->de_value, 512, update->up_mold_value, &size);
-            // XXX Handle buffer overflow / insufficient buffer
+        update->up_mold_value = malloc (512); // XXX: Handle allocation better
+        dx_value_stringify (&target_def->de_value, 512, update->up_mold_value, &size);
+        // XXX Handle buffer overflow / insufficient buffer
 
-            // Signal that manual resolution is required.
-            return DISIR_STATUS_CONFLICT;
-        }
+        // Signal that manual resolution is required.
+        return DISIR_STATUS_CONFLICT;
+    }
+
+    if (config_keyval)
+    {
+        dc_putcontext (&config_keyval);
+    }
+    if (target_keyval)
+    {
+        dc_putcontext (&target_keyval);
     }
     if (status != DISIR_STATUS_EXHAUSTED)
     {
-        log_error ("Collection failed with erroenous condition: %s", disir_status_string (status));
+        log_error ("update failed with erroenous condition: %s", disir_status_string (status));
         return status;
     }
 
-    // Update version number of config
+    // Nothing is left to resolve - update the values and the version number of config
+    dc_collection_reset (update->up_collection);
+    dc_collection_reset (update->up_collection_target);
+    while (next_pair (update, &config_keyval, &target_keyval) == DISIR_STATUS_OK)
+    {
+        dx_value_copy (&config_keyval->cx_keyval->kv_value, &target_keyval->cx_keyval->kv_value);
+        dc_putcontext (&config_keyval);
+        dc_putcontext (&target_keyval);
+    }
     dc_version_set (&update->up_config_old->cf_version, &update->up_target);
 
     TRACE_EXIT ("");
@@ -289,8 +467,6 @@ enum disir_status
 disir_update_resolve (struct disir_update *update, const char *resolve)
 {
     enum disir_status status;
-    struct disir_context *context_keyval = NULL;
-    char *name = NULL;
 
     TRACE_ENTER ("");
     if (update == NULL || resolve == NULL)
@@ -304,20 +480,11 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
         return DISIR_STATUS_NO_CAN_DO;
     }
 
-    // The name alone does not tell nested and repeated elements apart
-    status = dc_resolve_root_name (update->up_context_keyval, &name);
-    if (status != DISIR_STATUS_OK)
-        goto out;
-
-    status = dc_query_resolve_context (update->up_config_target->cf_context,
-                                       "%s", &context_keyval, name);
-    if (status != DISIR_STATUS_OK)
-        goto out;
-
-    status = dc_set_value (context_keyval, resolve, strlen (resolve));
+    status = dc_set_value (update->up_context_target, resolve, strlen (resolve));
     if (status != DISIR_STATUS_OK)
         goto out;
 
+    dc_putcontext (&update->up_context_target);
     dc_putcontext (&update->up_context_keyval);
 
     // TODO: Add update report entry
@@ -325,7 +492,6 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
 
     // Remove conflict state
     update->up_keyval = NULL;
-    update->up_context_keyval = NULL;
     free (update->up_config_value);
     update->up_config_value = NULL;
     free (update->up_mold_value);
@@ -334,10 +500,6 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
     TRACE_EXIT ("");
     // FALL-THROUGH
 out:
-    if (context_keyval)
-        dc_putcontext (&context_keyval);
-    free (name);
-
     return status;
 }
 
@@ -360,6 +522,7 @@ disir_update_finished (struct disir_update **update, struct disir_config **confi
     }
 
     dc_collection_finished (&up->up_collection);
+    dc_collection_finished (&up->up_collection_target);
     if (up->up_config_value)
     {
         free (up->up_config_value);
@@ -372,6 +535,10 @@ disir_update_finished (struct disir_update **update, struct disir_config **confi
     {
         dc_putcontext (&up->up_context_keyval);
     }
+    if (up->up_context_target)
+    {
+        dc_putcontext (&up->up_context_target);
+    }
 
     free (up);
     *update = NULL;
-- 
2.43.0


From cf78bc28f6cdaded82adc0ae676e0d1adc5f1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 036/133] fix: update: hand out the values in conflict
 unabridged

---
 lib/update.c | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 3bf410d..6e9e56b 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -221,6 +221,37 @@ set_value (struct disir_context *keyval, struct disir_value *value)
     }
 }
 
+//! STATIC FUNCTION
+//! Allocate the complete text of value, which set again results in the same value.
+static char *
+value_text (struct disir_value *value)
+{
+    char *text;
+    int32_t size = 0;
+
+    if (value->dv_type == DISIR_VALUE_TYPE_FLOAT)
+    {
+        int digits;
+
+        // Enough for every digit of a double, its sign and its exponent
+        size = 32;
+        text = malloc (size);
+        for (digits = 6; text && digits <= 17; digits++)
+        {
+            snprintf (text, size, "%.*g", digits, value->dv_float);
+            if (strtod (text, NULL) == value->dv_float)
+                break;
+        }
+        return text;
+    }
+
+    dx_value_stringify (value, 0, NULL, &size);
+    text = calloc (1, size + 1);
+    if (text)
+        dx_value_stringify (value, size + 1, text, &size);
+    return text;
+}
+
 //! PUBLIC API
 enum disir_status
 disir_update_config (struct disir_config *config,
@@ -314,7 +345,6 @@ disir_update_continue (struct disir_update *update)
     struct disir_keyval *keyval;
     struct disir_default *config_def;
     struct disir_default *target_def;
-    int32_t size;
     int res;
 
     TRACE_ENTER ("");
@@ -396,13 +426,13 @@ disir_update_continue (struct disir_update *update)
         update->up_context_keyval = config_keyval;
         update->up_context_target = target_keyval;
 
-        update->up_config_value = malloc (512); // XXX Handle allocation better
-        dx_value_stringify (&keyval->kv_value, 512, update->up_config_value, &size);
-        // XXX Handle buffer overflow / insufficient buffer
-
-        update->up_mold_value = malloc (512); // XXX: Handle allocation better
-        dx_value_stringify (&target_def->de_value, 512, update->up_mold_value, &size);
-        // XXX Handle buffer overflow / insufficient buffer
+        update->up_config_value = value_text (&keyval->kv_value);
+        update->up_mold_value = value_text (&target_def->de_value);
+        if (update->up_config_value == NULL || update->up_mold_value == NULL)
+        {
+            log_error ("failed to allocate memory for the values in conflict");
+            return DISIR_STATUS_NO_MEMORY;
+        }
 
         // Signal that manual resolution is required.
         return DISIR_STATUS_CONFLICT;
-- 
2.43.0


From 70fc77ed3518a18d6d65fa8c33da851115638564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:57 +0000
Subject: [PATCH 037/133] fix: import: take the updated config also when
 nothing conflicted

---
 lib/update.c | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 6e9e56b..3b5571e 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -590,34 +590,27 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
     const char *mold;
 
     status = disir_update_config (*config, &(*config)->cf_mold->mo_version, &update);
-    if (status != DISIR_STATUS_CONFLICT)
-        goto error;
 
-    do
+    while (status == DISIR_STATUS_CONFLICT)
     {
-        if (status != DISIR_STATUS_CONFLICT)
-            break;
-
         status = disir_update_conflict (update, &name, &keyval, &mold);
         if (status != DISIR_STATUS_OK)
             goto error;
 
         status = disir_update_resolve (update, keyval);
-        if (status != DISIR_STATUS_OK &&
-            status == DISIR_STATUS_RESTRICTION_VIOLATED && discard_violations)
+        if (status == DISIR_STATUS_RESTRICTION_VIOLATED && discard_violations)
         {
             status = disir_update_resolve (update, mold);
         }
-        else if (status != DISIR_STATUS_OK)
-        {
+        if (status != DISIR_STATUS_OK)
             goto error;
-        }
 
         status = disir_update_continue (update);
-
     }
-    while (1);
-   
+
+    if (status != DISIR_STATUS_OK)
+        goto error;
+
     c = *config;
 
     disir_update_finished (&update, config);
@@ -629,4 +622,3 @@ error:
 
     return status;
 }
-
-- 
2.43.0


From 33df1ef9e09a16cb46918265fac73707e07b835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 038/133] fix: a collection keeps its place when entries it has
 passed are removed

---
 lib/collection.c | 58 +++++++++++-------------------------------------
 1 file changed, 13 insertions(+), 45 deletions(-)

diff --git a/lib/collection.c b/lib/collection.c
index e1fd8a4..6775b01 100644
--- a/lib/collection.c
+++ b/lib/collection.c
@@ -126,8 +126,7 @@ dx_collection_coalesce (struct disir_collection *collection)
 {
     struct disir_context *context;
     int32_t index;
-    int32_t probe;
-    int32_t invalid_entries_count;
+    int32_t kept;
     int32_t iterator_moveback;
 
     if (collection == NULL)
@@ -136,59 +135,28 @@ dx_collection_coalesce (struct disir_collection *collection)
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-    context = NULL;
-    index = 0;
-    probe = 1;
-    invalid_entries_count = 0;
+    kept = 0;
     iterator_moveback = 0;
-    while (index < collection->cc_numentries)
+    for (index = 0; index < collection->cc_numentries; index++)
     {
         context = collection->cc_collection[index];
-        index++;
-
-        if (context == NULL || context->CONTEXT_STATE_DESTROYED)
+        if (context->CONTEXT_STATE_DESTROYED)
         {
-            if (context != NULL)
-            {
-                dx_context_decref (&context);
-                invalid_entries_count += 1;
-                context = collection->cc_collection[index - 1] = NULL;
-            }
-
-            if (probe < index)
-                probe = index;
-
-            // Find next non-valid entry in the collection, move it here.
-            while (probe < collection->cc_numentries)
+            // Every entry removed from in front of the iterator moves the iterator
+            if (index < collection->cc_iterator_index)
             {
-                if (collection->cc_collection[probe]->CONTEXT_STATE_DESTROYED == 0)
-                {
-                    context = collection->cc_collection[probe];
-                    collection->cc_collection[probe] = NULL;
-                    collection->cc_collection[index -1] = context;
-
-                    // Move iterator index if its affected.
-                    if (probe >= collection->cc_iterator_index &&
-                        (index -1) < collection->cc_iterator_index)
-                    {
-                        iterator_moveback  += 1;
-                    }
-                }
-
-                probe++;
-
-                if (context != NULL)
-                    break;
+                iterator_moveback += 1;
             }
+            dx_context_decref (&context);
+            continue;
         }
-    }
 
-    collection->cc_numentries -= invalid_entries_count;
+        collection->cc_collection[kept] = context;
+        kept++;
+    }
 
-    // Take care of the iterator count post-iterate
+    collection->cc_numentries = kept;
     collection->cc_iterator_index -= iterator_moveback;
-    if (collection->cc_iterator_index < 0)
-        collection->cc_iterator_index = 0;
 
     return DISIR_STATUS_OK;
 }
-- 
2.43.0


From 8ee7448895ce9e1b6e7d3715dacc610bbc3122ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 039/133] fix: copying the error message into a short buffer
 stays within it

---
 lib/error.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/error.c b/lib/error.c
index 62e59e0..6890091 100644
--- a/lib/error.c
+++ b/lib/error.c
@@ -75,7 +75,8 @@ disir_error_copy (struct disir_instance *instance,
         return DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
-    size = instance->disir_error_message_size;
+    // The storage may be larger than the message it currently holds
+    size = (instance->disir_error_message ? strlen (instance->disir_error_message) : 0);
     if (bytes_written)
     {
         // Write the total size of the error message
@@ -85,11 +86,15 @@ disir_error_copy (struct disir_instance *instance,
     }
     if (buffer_size <= size)
     {
-        size -= 4;
+        // Leave room for the trailing dots and the terminator
+        size = buffer_size - 4;
         status = DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
-    memcpy (buffer, instance->disir_error_message, size);
+    if (size > 0)
+    {
+        memcpy (buffer, instance->disir_error_message, size);
+    }
     if (status == DISIR_STATUS_INSUFFICIENT_RESOURCES)
     {
         sprintf (buffer + size, "...");
-- 
2.43.0


From b00251a35f9b70c6bd5f586896c00f494cfc4da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:39 +0000
Subject: [PATCH 040/133] fix: version numbers that do not fit a component are
 refused, not wrapped around

---
 lib/util.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index da10a3a..af17ded 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -146,6 +146,11 @@ dc_version_convert (const char *input, struct disir_version *version)
         log_debug (6, "missing period seperator after major");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (parsed_integer < 0 || parsed_integer > UINT32_MAX)
+    {
+        log_debug (6, "major version out of range: %ld", parsed_integer);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     version->sv_major = parsed_integer;
 
     // Get minor version
@@ -157,6 +162,11 @@ dc_version_convert (const char *input, struct disir_version *version)
         log_debug (6, "no int parsed");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (parsed_integer < 0 || parsed_integer > UINT32_MAX)
+    {
+        log_debug (6, "minor version out of range: %ld", parsed_integer);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     version->sv_minor = parsed_integer;
 
     return DISIR_STATUS_OK;
-- 
2.43.0


From 8931b9e61512e3f945a401aec455bcc54e1210a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 041/133] fix: asking for a default where there is none is
 refused, not dereferenced

---
 lib/context_default.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/context_default.c b/lib/context_default.c
index 0ef5eaf..abf1e6b 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -531,6 +531,11 @@ dc_get_default (struct disir_context *context, struct disir_version *version,
         {
             // Get the mold
             keyval = context->cx_keyval->kv_mold_equiv;
+            if (keyval == NULL)
+            {
+                dx_log_context (context, "cannot get default without a mold equivalent");
+                return DISIR_STATUS_MOLD_MISSING;
+            }
         }
         else if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_MOLD)
         {
@@ -544,6 +549,11 @@ dc_get_default (struct disir_context *context, struct disir_version *version,
         }
 
         dx_default_get_active (keyval, version, &def);
+        if (def == NULL)
+        {
+            dx_log_context (context, "there are no default entries");
+            return DISIR_STATUS_DEFAULT_MISSING;
+        }
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
     {
@@ -578,6 +588,11 @@ dc_get_default_contexts (struct disir_context *context, struct disir_collection
     {
         return status;
     }
+    if (collection == NULL)
+    {
+        log_debug (0, "invoked with collection NULL pointer");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     if (dc_context_type (context->cx_root_context) != DISIR_CONTEXT_MOLD)
     {
         dx_log_context (context, "cannot get defaults for KEYVAL not associated with a mold.");
-- 
2.43.0


From 388aef4351a07601e6da4cc45927cc249544cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 042/133] fix: setting an element to a default applies the
 restrictions in force

---
 lib/context_keyval.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index 698463b..adbb8ee 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -468,10 +468,31 @@ dc_keyval_set_default (struct disir_context *keyval, struct disir_version *versi
         return DISIR_STATUS_INTERNAL_ERROR;
     }
 
-    status = dx_value_copy (&keyval->cx_keyval->kv_value, &def->de_value);
+    // A default of another version is subject to the restrictions as any other value
+    switch (dx_value_type_sanify (def->de_value.dv_type))
+    {
+    case DISIR_VALUE_TYPE_STRING:
+        status = dc_set_value_string (keyval, def->de_value.dv_string, def->de_value.dv_size);
+        break;
+    case DISIR_VALUE_TYPE_ENUM:
+        status = dc_set_value_enum (keyval, def->de_value.dv_string, def->de_value.dv_size);
+        break;
+    case DISIR_VALUE_TYPE_INTEGER:
+        status = dc_set_value_integer (keyval, def->de_value.dv_integer);
+        break;
+    case DISIR_VALUE_TYPE_FLOAT:
+        status = dc_set_value_float (keyval, def->de_value.dv_float);
+        break;
+    case DISIR_VALUE_TYPE_BOOLEAN:
+        status = dc_set_value_boolean (keyval, def->de_value.dv_boolean);
+        break;
+    case DISIR_VALUE_TYPE_UNKNOWN:
+        status = DISIR_STATUS_INTERNAL_ERROR;
+        break;
+    }
     if (status != DISIR_STATUS_OK)
     {
-        log_debug (2, "failed to copy value: %s", disir_status_string (status));
+        log_debug (2, "failed to set value: %s", disir_status_string (status));
     }
 
     return status;
-- 
2.43.0


From 26ba5e4c7a06c7e5062dcb38322b07700b7b244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:07 +0000
Subject: [PATCH 043/133] fix: setting a value type on anything but a keyval,
 or below its defaults, is refused

---
 lib/context_util.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/context_util.c b/lib/context_util.c
index caf6a22..3db0f49 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -484,15 +484,21 @@ dc_set_value_type (struct disir_context *context, enum disir_value_type type)
     {
     case DISIR_CONTEXT_KEYVAL:
     {
-        //TODO XXX: Cannot set type if keyval has defaults
-        //TODO XXX: Cannot set type if toplevel context is not DISIR_MOLD
+        // Defaults hold values of the type already set.
+        if (context->cx_keyval->kv_default_queue != NULL
+            && context->cx_keyval->kv_value.dv_type != type)
+        {
+            dx_context_error_set (context, "cannot change value type of KEYVAL with defaults");
+            return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+        }
         context->cx_keyval->kv_value.dv_type = type;
         break;
     }
     default:
     {
-        dx_crash_and_burn ("%s: %s not handled", __func__, dc_context_type_string (context));
-        return DISIR_STATUS_INTERNAL_ERROR; // not reached
+        dx_context_error_set (context, "cannot set value type on %s",
+                              dc_context_type_string (context));
+        return DISIR_STATUS_WRONG_CONTEXT;
     }
     }
 
-- 
2.43.0


From 562d6590bcc6bfcc95a7acba1e6649ece5773a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:18 +0000
Subject: [PATCH 044/133] fix: what is under construction below something
 destroyed is destroyed too

---
 lib/context.c      | 10 ++--------
 lib/context_util.c | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index d7c4316..0e20054 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -234,14 +234,8 @@ dc_destroy (struct disir_context **context)
     // Set the context to destroyed
     (*context)->CONTEXT_STATE_DESTROYED = 1;
 
-    // Decref the parent ref count attained in dx_context_attach
-    // Guard against decrefing ourselves (top-level contexts)
-    if ((*context)->cx_parent_context && (*context)->cx_parent_context != *context)
-    {
-        dx_context_decref (&(*context)->cx_parent_context);
-    }
-
-    // Simply decref the context - When it reaches zero, it will be dealloced
+    // Simply decref the context - When it reaches zero, it will be dealloced,
+    // and its reference to the parent attained in dx_context_attach is released.
     dx_context_decref (context);
 
     // Take care of the users pointer. As an added service!
diff --git a/lib/context_util.c b/lib/context_util.c
index 3db0f49..b817572 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -229,6 +229,13 @@ dx_context_destroy  (struct disir_context **context)
 
     log_debug_context (9, *context, " (%p) reached refcount zero. Freeing.", *context);
 
+    // Decref the parent ref count attained in dx_context_attach
+    // Guard against decrefing ourselves (top-level contexts)
+    if ((*context)->cx_parent_context && (*context)->cx_parent_context != *context)
+    {
+        dx_context_decref (&(*context)->cx_parent_context);
+    }
+
     free(*context);
     *context = NULL;
 }
@@ -273,6 +280,8 @@ dx_context_transfer_logwarn (struct disir_context *destination, struct disir_con
 enum disir_status
 dx_context_sp_full_check_log_error (struct disir_context *context, const char *function_name)
 {
+    struct disir_context *ancestor;
+
     // Check argument
     if (context == NULL)
     {
@@ -280,11 +289,15 @@ dx_context_sp_full_check_log_error (struct disir_context *context, const char *f
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-    if (context->CONTEXT_STATE_DESTROYED)
+    // A context under construction outlives what it was to be added to.
+    for (ancestor = context; ancestor != NULL; ancestor = ancestor->cx_parent_context)
     {
-        dx_log_context (context, "%s() invoked on destroyed context %s",
-                function_name, dc_context_type_string (context));
-        return DISIR_STATUS_DESTROYED_CONTEXT;
+        if (ancestor->CONTEXT_STATE_DESTROYED)
+        {
+            dx_log_context (context, "%s() invoked on destroyed context %s",
+                    function_name, dc_context_type_string (context));
+            return DISIR_STATUS_DESTROYED_CONTEXT;
+        }
     }
 
     if (dx_context_type_sanify(context->cx_type) == DISIR_CONTEXT_UNKNOWN)
-- 
2.43.0


From 52cd5281916e71efde64ec44a9a9c40acba84235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 045/133] fix: asking for the restrictions of an element the
 mold does not have is refused

---
 lib/context_restriction.c | 41 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 418192f..b688b9c 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1257,6 +1257,29 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
     return status;
 }
 
+//! STATIC API
+//! \brief An element of a config has no restrictions unless it has its equivalent in the mold.
+static enum disir_status
+check_mold_equiv (struct disir_context *context)
+{
+    struct disir_context *equiv;
+
+    if (dc_context_type (context->cx_root_context) != DISIR_CONTEXT_CONFIG)
+    {
+        return DISIR_STATUS_OK;
+    }
+
+    equiv = dc_context_type (context) == DISIR_CONTEXT_SECTION ?
+            context->cx_section->se_mold_equiv : context->cx_keyval->kv_mold_equiv;
+    if (equiv == NULL)
+    {
+        dx_log_context (context, "has no equivalent in the mold, thus no restrictions");
+        return DISIR_STATUS_MOLD_MISSING;
+    }
+
+    return DISIR_STATUS_OK;
+}
+
 //! INTERNAL API
 enum disir_status
 dx_restriction_entries_value (struct disir_context *context, enum disir_restriction_type type,
@@ -1271,6 +1294,10 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_SECTION, DISIR_CONTEXT_KEYVAL);
     if (status != DISIR_STATUS_OK)
         return status;
@@ -1278,6 +1305,13 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     if (type != DISIR_RESTRICTION_INC_ENTRY_MAX && type != DISIR_RESTRICTION_INC_ENTRY_MIN)
         return DISIR_STATUS_INTERNAL_ERROR;
 
+    status = check_mold_equiv (context);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
+
     // Get inclusive queue from context
     switch (dc_context_type (context))
     {
@@ -1476,6 +1510,13 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
         return status;
     }
 
+    status = check_mold_equiv (context);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
+
     // Get inclusive queue from context
     switch (dc_context_type (context))
     {
-- 
2.43.0


From dd05283dd9861a0f7658f3308e24b62a72ab8eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 046/133] fix: a fatal error on something destroyed is refused

---
 lib/context_util.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/context_util.c b/lib/context_util.c
index b817572..5846865 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -302,7 +302,8 @@ dx_context_sp_full_check_log_error (struct disir_context *context, const char *f
 
     if (dx_context_type_sanify(context->cx_type) == DISIR_CONTEXT_UNKNOWN)
     {
-        dx_log_context (context, "%s() invoked on unknown context( %d )", context->cx_type);
+        dx_log_context (context, "%s() invoked on unknown context( %d )",
+                        function_name, context->cx_type);
         return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
     }
 
@@ -578,9 +579,18 @@ dc_fatal_error (struct disir_context *context, const char *msg, ...)
 enum disir_status
 dc_fatal_error_va (struct disir_context *context, const char *msg, va_list args)
 {
+    enum disir_status status;
+
     if (context == NULL || msg == NULL)
         return DISIR_STATUS_INVALID_ARGUMENT;
 
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
+
     // Cannot set fatal error on a finalized context.
     if (context->CONTEXT_STATE_FINALIZED)
         return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
-- 
2.43.0


From 44b0f72b31363a0a4beab33dc7ba039066e45e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 047/133] fix: finalizing twice is refused, and a refused
 finalize keeps no reference

---
 lib/context.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/context.c b/lib/context.c
index 0e20054..2f85653 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -333,6 +333,12 @@ dc_finalize (struct disir_context **context)
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    if ((*context)->CONTEXT_STATE_FINALIZED)
+    {
+        dx_log_context (*context, "is already finalized");
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
+
     // Call finalize on the actual context type
     switch (dx_context_type_sanify ((*context)->cx_type))
     {
@@ -429,7 +435,7 @@ dc_finalize_keep_reference (struct disir_context *context)
     }
 
     status = dc_finalize (&tmp);
-    if (status == DISIR_STATUS_INVALID_CONTEXT && tmp)
+    if (status != DISIR_STATUS_OK && tmp)
     {
         // decref - we have an additional reference acquired above
         dx_context_decref (&context);
-- 
2.43.0


From 66e7e14f64e655509933e8bdd59345cf05911b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:41 +0000
Subject: [PATCH 048/133] fix: asking a config for documentation is refused,
 not an abort

---
 lib/context_documentation.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 2dfc531..843d3cd 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -207,7 +207,6 @@ dc_get_documentation (struct disir_context *context, struct disir_version *versi
         return status;
     }
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_KEYVAL,
-                                          DISIR_CONTEXT_CONFIG,
                                           DISIR_CONTEXT_SECTION,
                                           DISIR_CONTEXT_RESTRICTION,
                                           DISIR_CONTEXT_MOLD);
-- 
2.43.0


From 05015baeec8f21137813e69f703cbb6a8aff4e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:45 +0000
Subject: [PATCH 049/133] fix: a restriction takes one documentation, as other
 contexts do

---
 lib/context_documentation.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 843d3cd..d5eed53 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -28,7 +28,7 @@ dx_documentation_add (struct disir_context *parent, struct disir_documentation *
     struct disir_documentation **doc_queue;
     enum disir_status status;
     int exists;
-    char buffer[32];
+    char buffer[40];
 
     TRACE_ENTER ("parent (%p), doc (%p)", parent, doc);
 
@@ -126,9 +126,13 @@ dx_documentation_numentries (struct disir_context *context)
         queue = context->cx_section->se_documentation_queue;
         break;
     }
+    case DISIR_CONTEXT_RESTRICTION:
+    {
+        queue = context->cx_restriction->re_documentation_queue;
+        break;
+    }
     case DISIR_CONTEXT_CONFIG:
     case DISIR_CONTEXT_DEFAULT:
-    case DISIR_CONTEXT_RESTRICTION:
     case DISIR_CONTEXT_DOCUMENTATION:
     case DISIR_CONTEXT_UNKNOWN:
     {
-- 
2.43.0


From f5ae2daf51361e21972739ac37e03c6a4f6ee5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:21 +0000
Subject: [PATCH 050/133] fix: a default that is refused is not left with its
 keyval

---
 lib/context_default.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index abf1e6b..515fac3 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -109,7 +109,15 @@ dx_default_finalize (struct disir_context *default_context)
     MQ_ENQUEUE_CONDITIONAL (*queue, def,
         (dc_version_compare (&entry->de_introduced, &def->de_introduced) > 0));
 
-    return dx_validate_context (default_context);
+    status = dx_validate_context (default_context);
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // It is not finalized, and stays with the caller.
+        default_context->CONTEXT_STATE_IN_PARENT = 0;
+        MQ_REMOVE_SAFE (*queue, def);
+    }
+
+    return status;
 }
 
 //! INTERNAL API
-- 
2.43.0


From d774cf4aca86cf9a95d4e556a4632bb2f80ceb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 051/133] fix: adding a restriction without a type to a
 finished element is refused, not an abort

---
 lib/validate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/validate.c b/lib/validate.c
index fa3bcf6..1de4ca4 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -477,7 +477,7 @@ validate_restriction (struct disir_context *context)
     if (dx_restriction_type_sanify (res->re_type) == DISIR_RESTRICTION_UNKNOWN)
     {
        dx_log_context (context, "Missing type component for restriction.");
-       return DISIR_STATUS_INVALID_CONTEXT;
+       return DISIR_STATUS_WRONG_VALUE_TYPE;
     }
 
     // Validate that the restriction context got a valid type set (belongs to a group)
-- 
2.43.0


From c7941603bbab4abb01824c5899173d7f0d0ccdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:29 +0000
Subject: [PATCH 052/133] fix: restriction types that do not exist are refused
 and named UNKNOWN

---
 lib/context_restriction.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index b688b9c..88766ef 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -37,7 +37,7 @@ const char *disir_restriction_strings[] = {
 const char *
 dc_restriction_enum_string (enum disir_restriction_type restriction)
 {
-    return disir_restriction_strings[restriction];
+    return disir_restriction_strings[dx_restriction_type_sanify (restriction)];
 }
 
 //! PUBLIC API
@@ -357,6 +357,11 @@ dc_set_restriction_type (struct disir_context *context, enum disir_restriction_t
         dx_context_error_set (context, "cannot change restriction type after it is finalized.");
         return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
     }
+    if (dx_restriction_type_sanify (type) == DISIR_RESTRICTION_UNKNOWN)
+    {
+        dx_context_error_set (context, "unknown restriction type.");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
 
     // QUESTION: Should we allow invalid, constructing contexts by marking the context invalid
     // and letting it propagate through all the error checks=
-- 
2.43.0


From 76e67904496a4bae528e9eb38bda15b386951144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 053/133] fix: destroying a part of a config or mold frees it

---
 lib/context.c               | 12 +++++++++++-
 lib/context_config.c        | 20 --------------------
 lib/context_default.c       |  6 +++++-
 lib/context_documentation.c |  6 ++++--
 lib/context_mold.c          | 19 -------------------
 lib/context_restriction.c   |  5 +++--
 lib/context_section.c       | 18 ------------------
 7 files changed, 23 insertions(+), 63 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 2f85653..e22897d 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -386,7 +386,11 @@ dc_finalize (struct disir_context **context)
             // XXX: Now it stands at two references with only one liable source (caller)
             // XXX: Either allow empty name to be submitted to element_storage
             // XXX: or handle it specially here.
-            dx_context_incref (*context);
+            if (dc_context_type (*context) != DISIR_CONTEXT_KEYVAL &&
+                dc_context_type (*context) != DISIR_CONTEXT_SECTION)
+            {
+                dx_context_incref (*context);
+            }
         }
         else
         {
@@ -408,6 +412,12 @@ dc_finalize (struct disir_context **context)
             // TODO: Add similar test to deprecated as is done for introduced
 
             // Deprive the user of his reference.
+            // The element storage has one of its own, while the queues take over that of the user.
+            if (dc_context_type (*context) == DISIR_CONTEXT_KEYVAL ||
+                dc_context_type (*context) == DISIR_CONTEXT_SECTION)
+            {
+                dx_context_decref (context);
+            }
             *context = NULL;
 
             // Only let API return INVALID_CONTEXT if anything is amiss
diff --git a/lib/context_config.c b/lib/context_config.c
index 1d44acd..64a5416 100644
--- a/lib/context_config.c
+++ b/lib/context_config.c
@@ -166,10 +166,6 @@ error:
 enum disir_status
 dx_config_destroy (struct disir_config **config)
 {
-    enum disir_status status;
-    struct disir_context *context;
-    struct disir_collection *collection;
-
     if (config == NULL || *config == NULL)
         return DISIR_STATUS_INVALID_ARGUMENT;
 
@@ -177,22 +173,6 @@ dx_config_destroy (struct disir_config **config)
     disir_mold_finished (&(*config)->cf_mold);
 
     // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*config)->cf_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
     dx_element_storage_destroy (&(*config)->cf_elements);
 
     free (*config);
diff --git a/lib/context_default.c b/lib/context_default.c
index 515fac3..d282226 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -168,7 +168,11 @@ dx_default_destroy (struct disir_default **def)
             if (dc_context_type (context->cx_parent_context) == DISIR_CONTEXT_KEYVAL)
             {
                 queue = &(context->cx_parent_context->cx_keyval->kv_default_queue);
-                MQ_REMOVE_SAFE (*queue, tmp);
+                if (MQ_REMOVE_SAFE (*queue, tmp) && context->cx_refcount > 1)
+                {
+                    // The queue held a reference, as does the caller.
+                    dx_context_decref (&context);
+                }
             }
             else
             {
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index d5eed53..97d94c1 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -436,9 +436,11 @@ dx_documentation_destroy (struct disir_documentation **documentation)
 
         // Must remove safely - cannot guarantee that the instance we are destroying
         // is in its parents queue
-        if (queue != NULL)
+        context = tmp->dd_context;
+        if (queue != NULL && MQ_REMOVE_SAFE (*queue, tmp) && context->cx_refcount > 1)
         {
-            MQ_REMOVE_SAFE (*queue, tmp);
+            // The queue held a reference, as does the caller.
+            dx_context_decref (&context);
         }
     }
 
diff --git a/lib/context_mold.c b/lib/context_mold.c
index 09cbb2d..8eaf411 100644
--- a/lib/context_mold.c
+++ b/lib/context_mold.c
@@ -157,10 +157,8 @@ error:
 enum disir_status
 dx_mold_destroy (struct disir_mold **mold)
 {
-    enum disir_status status;
     struct disir_context *context;
     struct disir_documentation *doc;
-    struct disir_collection *collection;
 
     if (mold == NULL || *mold == NULL)
     {
@@ -169,23 +167,6 @@ dx_mold_destroy (struct disir_mold **mold)
     }
 
     // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*mold)->mo_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
-    // Destroy element storage in the mold.
     dx_element_storage_destroy (&(*mold)->mo_elements);
 
     // Destroy the documentation associated with the mold.
diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 88766ef..9873cd0 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -262,9 +262,10 @@ dx_restriction_destroy (struct disir_restriction **restriction)
                                    dc_context_type_string (context));
             }
 
-            if (queue)
+            if (queue && MQ_REMOVE_SAFE (*queue, tmp) && context->cx_refcount > 1)
             {
-                MQ_REMOVE_SAFE (*queue, tmp);
+                // The queue held a reference, as does the caller.
+                dx_context_decref (&context);
             }
         }
     }
diff --git a/lib/context_section.c b/lib/context_section.c
index 80b686c..1e71fe0 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -177,10 +177,8 @@ error:
 enum disir_status
 dx_section_destroy (struct disir_section **section)
 {
-    enum disir_status status;
     struct disir_context *context;
     struct disir_documentation *doc;
-    struct disir_collection *collection;
     struct disir_restriction *restriction;
 
     if (section == NULL || *section == NULL)
@@ -206,22 +204,6 @@ dx_section_destroy (struct disir_section **section)
     }
 
     // Destroy all element_storage children
-    status = dx_element_storage_get_all ((*section)->se_elements, &collection);
-    if (status == DISIR_STATUS_OK)
-    {
-        while (dx_collection_next_noncoalesce (collection, &context) != DISIR_STATUS_EXHAUSTED)
-        {
-            dx_context_decref (&context);
-            dc_putcontext (&context);
-        }
-        dc_collection_finished (&collection);
-    }
-    else
-    {
-        log_warn ("failed to get_all from internal element storage: %s",
-                  disir_status_string (status));
-    }
-
     dx_element_storage_destroy (&(*section)->se_elements);
 
     // Destroy all restrictions
-- 
2.43.0


From 318fd6963a856813ea8ba8104c37a3c8ce24897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 054/133] fix: resolving the name of an element that has none
 yet does not crash

---
 lib/context.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/context.c b/lib/context.c
index e22897d..0640865 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -731,7 +731,7 @@ dc_resolve_root_name (struct disir_context *context, char **output)
 
         name_size = 0;
         status = dc_get_name (current_context, &name, &name_size);
-        if (status != DISIR_STATUS_OK)
+        if (status != DISIR_STATUS_OK || name == NULL)
         {
             name = "undefined";
             name_size = 9;
@@ -1459,6 +1459,11 @@ dc_find_elements (struct disir_context *context,
     {
         return status;
     }
+    if (name == NULL)
+    {
+        log_debug (0, "invoked with NULL name pointer.");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     if (collection == NULL)
     {
         log_debug (0, "invoked with NULL collection pointer.");
-- 
2.43.0


From 40ae828345761ddf2b1f95035e557cc2956b8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:19 +0000
Subject: [PATCH 055/133] fix: comparing with something destroyed is refused

---
 lib/compare.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/compare.c b/lib/compare.c
index 2483531..b6fd2dc 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -804,6 +804,16 @@ dc_compare (struct disir_context *lhs, struct disir_context *rhs,
         log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)", lhs, rhs);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (lhs);
+    if (status == DISIR_STATUS_OK)
+    {
+        status = CONTEXT_NULL_INVALID_TYPE_CHECK (rhs);
+    }
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        return status;
+    }
 
     internal_report = dx_diff_report_create ();
     if (internal_report == NULL)
-- 
2.43.0


From 79fe79947909284cbe90accc053f98b6f6cbd98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:27 +0000
Subject: [PATCH 056/133] fix: asking something destroyed for its type of value
 or restriction does not crash

---
 lib/context_restriction.c | 3 ++-
 lib/context_util.c        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 9873cd0..aeb7473 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -44,7 +44,8 @@ dc_restriction_enum_string (enum disir_restriction_type restriction)
 const char *
 dc_restriction_context_string (struct disir_context *context)
 {
-    if (context == NULL || dc_context_type (context) != DISIR_CONTEXT_RESTRICTION)
+    if (context == NULL || dc_context_type (context) != DISIR_CONTEXT_RESTRICTION ||
+        context->CONTEXT_STATE_DESTROYED)
     {
         return disir_restriction_strings[0];
     }
diff --git a/lib/context_util.c b/lib/context_util.c
index 5846865..9a13c8e 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -79,7 +79,8 @@ dc_value_type (struct disir_context *context)
     enum disir_value_type value_type;
     enum disir_context_type context_type;
 
-    if (context == NULL)
+    // What is destroyed has no value anymore
+    if (context == NULL || context->CONTEXT_STATE_DESTROYED)
     {
         return DISIR_VALUE_TYPE_UNKNOWN;
     }
-- 
2.43.0


From 165ad75aecc3cb27af8155e0dec0d568d0a2ff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:05 +0000
Subject: [PATCH 057/133] fix: adding a restriction where none can be begun
 destroys nothing else

---
 lib/context_restriction.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index aeb7473..6da2c32 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -881,7 +881,7 @@ dc_add_restriction_value_enum (struct disir_context *parent, const char *value,
     if (status != DISIR_STATUS_OK)
     {
         // Already logged ?
-        goto error;
+        return status;
     }
 
     status = dc_set_restriction_type (context_restriction, DISIR_RESTRICTION_EXC_VALUE_ENUM);
-- 
2.43.0


From fe2b534e7670135c60bae2da6af575d5de519af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 058/133] fix: generating from a mold that lacks a default or a
 section is refused

---
 lib/generate.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/generate.c b/lib/generate.c
index 9e2b343..61e8d95 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -95,6 +95,12 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
                 //
 
                 dx_default_get_active (equiv, version, &def);
+                if (def == NULL)
+                {
+                    dx_log_context (equiv, "there are no default entries");
+                    status = DISIR_STATUS_DEFAULT_MISSING;
+                    goto error;
+                }
 
                 status = dx_value_copy (&context->cx_keyval->kv_value, &def->de_value);
                 if (status != DISIR_STATUS_OK)
@@ -273,6 +279,11 @@ dc_generate_from_config_root (struct disir_context *context)
     {
         mold_equiv = context->cx_section->se_mold_equiv;
     }
+    if (mold_equiv == NULL)
+    {
+        dx_context_error_set (context, "has no equivalent in the mold to generate from");
+        return DISIR_STATUS_MOLD_MISSING;
+    }
     version = &context->cx_root_context->cx_config->cf_version;
 
     // We do not generate children whose minimum entry count is zero
-- 
2.43.0


From 6c65093e7d456affb02bff9eeb31acf255b21d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:47 +0000
Subject: [PATCH 059/133] fix: what is refused or destroyed before it is part
 of a mold does not raise its version

---
 lib/context.c | 98 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 81 insertions(+), 17 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 0640865..69a0025 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -94,6 +94,72 @@ context_get_deprecated_structure (struct disir_context *context,
     return DISIR_STATUS_OK;
 }
 
+//! STATIC API
+//! \brief Raise the version of the mold to the versions found in context and everything below it.
+static void
+context_update_mold_version (struct disir_context *context)
+{
+    struct disir_mold *mold;
+    struct disir_version *version;
+    struct disir_collection *elements;
+    struct disir_context *element;
+    struct disir_documentation *doc = NULL;
+    struct disir_default *def = NULL;
+    struct disir_restriction *restriction = NULL;
+
+    mold = context->cx_root_context->cx_mold;
+
+    if (context_get_introduced_structure (context, &version) == DISIR_STATUS_OK)
+    {
+        dx_mold_update_version (mold, version);
+    }
+    if (context_get_deprecated_structure (context, &version) == DISIR_STATUS_OK &&
+        version->sv_major != 0)
+    {
+        dx_mold_update_version (mold, version);
+    }
+
+    switch (dc_context_type (context))
+    {
+    case DISIR_CONTEXT_KEYVAL:
+        doc = context->cx_keyval->kv_documentation_queue;
+        def = context->cx_keyval->kv_default_queue;
+        restriction = context->cx_keyval->kv_restrictions_queue;
+        break;
+    case DISIR_CONTEXT_SECTION:
+        doc = context->cx_section->se_documentation_queue;
+        restriction = context->cx_section->se_restrictions_queue;
+        if (dc_get_elements (context, &elements) == DISIR_STATUS_OK)
+        {
+            while (dc_collection_next (elements, &element) == DISIR_STATUS_OK)
+            {
+                context_update_mold_version (element);
+                dc_putcontext (&element);
+            }
+            dc_collection_finished (&elements);
+        }
+        break;
+    case DISIR_CONTEXT_RESTRICTION:
+        doc = context->cx_restriction->re_documentation_queue;
+        break;
+    default:
+        break;
+    }
+
+    for (; doc != NULL; doc = doc->next)
+    {
+        context_update_mold_version (doc->dd_context);
+    }
+    for (; def != NULL; def = def->next)
+    {
+        context_update_mold_version (def->de_context);
+    }
+    for (; restriction != NULL; restriction = restriction->next)
+    {
+        context_update_mold_version (restriction->re_context);
+    }
+}
+
 //! STATIC API
 static void
 context_remove_from_parent (struct disir_context **context)
@@ -374,9 +440,24 @@ dc_finalize (struct disir_context **context)
         status == DISIR_STATUS_INVALID_CONTEXT ||
         status == DISIR_STATUS_ELEMENTS_INVALID)
     {
+        struct disir_context *ancestor;
+
         (*context)->CONTEXT_STATE_FINALIZED = 1;
         (*context)->CONTEXT_STATE_CONSTRUCTING = 0;
 
+        // Update the version of the mold, once the context is part of it:
+        // what is under construction below the mold may still be refused or destroyed.
+        ancestor = (*context)->cx_parent_context;
+        while (ancestor != (*context)->cx_root_context && ancestor->CONTEXT_STATE_FINALIZED)
+        {
+            ancestor = ancestor->cx_parent_context;
+        }
+        if (ancestor == (*context)->cx_root_context &&
+            dc_context_type (ancestor) == DISIR_CONTEXT_MOLD)
+        {
+            context_update_mold_version (*context);
+        }
+
         if (status == DISIR_STATUS_INVALID_CONTEXT)
         {
             // Contect invalid - Mark it as so and let user handle it.
@@ -394,23 +475,6 @@ dc_finalize (struct disir_context **context)
         }
         else
         {
-            // Update mold reference, if applicable
-            // XXX: Handle versions much be done more elegantly
-            // XXX: Currently, we may still have dangling versions persistet to mold
-            // XXX: event though they may be deleted (finalized child, destroy constructing parent)
-            struct disir_version *introduced;
-            struct disir_version *deprecated;
-            if (context_get_introduced_structure (*context, &introduced) == DISIR_STATUS_OK)
-            {
-                dx_mold_update_version ((*context)->cx_root_context->cx_mold, introduced);
-            }
-            if (context_get_deprecated_structure (*context, &deprecated) == DISIR_STATUS_OK)
-            {
-                if (deprecated->sv_major != 0)
-                    dx_mold_update_version ((*context)->cx_root_context->cx_mold, deprecated);
-            }
-            // TODO: Add similar test to deprecated as is done for introduced
-
             // Deprive the user of his reference.
             // The element storage has one of its own, while the queues take over that of the user.
             if (dc_context_type (*context) == DISIR_CONTEXT_KEYVAL ||
-- 
2.43.0


From 474092883651751c12cb6d63a75e3f17fe7eb334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 060/133] fix: json: a config that cannot be read is refused
 without leaking it

---
 lib/fslib/json/json_unserialize_config.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index 76f548a..1f2bb74 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -67,6 +67,13 @@ ConfigReader::construct_config (Json::Value& root, struct disir_config **config)
 
     *config = NULL;
 
+    if (root.isObject () == false)
+    {
+        disir_error_set (m_disir, "Parse error: config document should be an object, got %s",
+                                  json_valuetype_stringify (root.type ()));
+        return DISIR_STATUS_FS_ERROR;
+    }
+
     status = dc_config_begin (m_mold, &context_config);
     if (status != DISIR_STATUS_OK)
     {
@@ -269,7 +276,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
         if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
         {
             // logged
-            return status;
+            goto error;
         }
 
         status = dc_finalize (&child_context);
@@ -279,6 +286,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
             // Reeling us in by only loggin the error
             disir_log_user (m_disir, "Could not finalize context: %s",
                                      disir_status_string (status));
+            goto error;
         }
 
         // If context is invalid we need to
-- 
2.43.0


From 08e75443581e709f87d78c6656ff702c8d462c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 061/133] fix: json: an integer that does not fit is not left
 without a value

---
 lib/fslib/json/jsonIO.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/json/jsonIO.cc b/lib/fslib/json/jsonIO.cc
index 9e2a3cd..0471384 100644
--- a/lib/fslib/json/jsonIO.cc
+++ b/lib/fslib/json/jsonIO.cc
@@ -100,7 +100,8 @@ set_value (struct disir_context *context, Json::Value& val)
         }
         else if (val.isInt64 () == false)
         {
-            return DISIR_STATUS_WRONG_VALUE_TYPE;
+            // Does not fit an integer. Shall not be left without a value.
+            return dc_set_value_float (context, (double)val.asDouble());
         }
         else
         {
-- 
2.43.0


From e1a7ffb5352050ce092a92aca179e41cd3570a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 062/133] fix: strings are written and read in full, also
 beyond a NULL byte

---
 lib/fslib/json/json_serialize_config.cc |  6 +++---
 lib/fslib/json/json_serialize_mold.cc   |  4 ++--
 lib/fslib/toml/toml_serialize.cc        | 13 +++++++------
 lib/fslib/toml/toml_unserialize.cc      |  4 ++--
 4 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/lib/fslib/json/json_serialize_config.cc b/lib/fslib/json/json_serialize_config.cc
index dff6220..dae0478 100644
--- a/lib/fslib/json/json_serialize_config.cc
+++ b/lib/fslib/json/json_serialize_config.cc
@@ -229,7 +229,7 @@ ConfigWriter::set_keyval (struct disir_context *context, std::string name, Json:
                 goto error;
             }
 
-            keyval = stringval;
+            keyval = std::string (stringval, size);
             break;
         case DISIR_VALUE_TYPE_INTEGER:
             status = dc_get_value_integer (context, &intval);
@@ -259,12 +259,12 @@ ConfigWriter::set_keyval (struct disir_context *context, std::string name, Json:
             keyval = !!boolval;
             break;
         case DISIR_VALUE_TYPE_ENUM:
-            status = dc_get_value_enum (context, &stringval, NULL);
+            status = dc_get_value_enum (context, &stringval, &size);
             if (status != DISIR_STATUS_OK)
             {
                 goto error;
             }
-            keyval = stringval;
+            keyval = std::string (stringval, size);
             break;
         case DISIR_VALUE_TYPE_UNKNOWN:
             // If type is not know, we mark it
diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index 841edd9..34b38a6 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -475,7 +475,7 @@ MoldWriter::serialize_default (struct disir_context *context, Json::Value& defau
             if (status != DISIR_STATUS_OK)
                 goto error;
 
-            current[ATTRIBUTE_KEY_VALUE] = stringval;
+            current[ATTRIBUTE_KEY_VALUE] = std::string (stringval, size);
             break;
         case DISIR_VALUE_TYPE_INTEGER:
             status = dc_get_value_integer (context, &intval);
@@ -503,7 +503,7 @@ MoldWriter::serialize_default (struct disir_context *context, Json::Value& defau
             if (status != DISIR_STATUS_OK)
                 goto error;
 
-            current[ATTRIBUTE_KEY_VALUE] = stringval;
+            current[ATTRIBUTE_KEY_VALUE] = std::string (stringval, size);
             break;
         default:
             // HUH? Type not supported?
diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 82e1238..1e7a7a4 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -20,6 +20,7 @@ toml_serialize_keyval (struct disir_context *context, toml::Value* current, cons
 {
     enum disir_status status;
     const char *value_string;
+    int32_t size;
     int64_t value_integer;
     double value_float;
     uint8_t value_boolean;
@@ -29,25 +30,25 @@ toml_serialize_keyval (struct disir_context *context, toml::Value* current, cons
     {
     case DISIR_VALUE_TYPE_ENUM:
     {
-        status = dc_get_value_enum (context, &value_string, NULL);
+        status = dc_get_value_enum (context, &value_string, &size);
         if (status == DISIR_STATUS_OK)
         {
             if (current->type () == toml::Value::Type::ARRAY_TYPE)
-                current->push ((toml::Value(value_string)));
+                current->push ((toml::Value(std::string (value_string, size))));
             else
-                current->setChild (name, value_string);
+                current->setChild (name, std::string (value_string, size));
         }
         break;
     }
     case DISIR_VALUE_TYPE_STRING:
     {
-        status = dc_get_value_string (context, &value_string, NULL);
+        status = dc_get_value_string (context, &value_string, &size);
         if (status == DISIR_STATUS_OK)
         {
             if (current->type () == toml::Value::Type::ARRAY_TYPE)
-                current->push ((toml::Value(value_string)));
+                current->push ((toml::Value(std::string (value_string, size))));
             else
-                current->setChild (name, value_string);
+                current->setChild (name, std::string (value_string, size));
         }
         break;
     }
diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 3d62845..b5c920d 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -107,14 +107,14 @@ dio_toml_unserialize_primitive (struct disir_instance *instance, const char *key
         std::string str = value.as<std::string>();
         if (dc_value_type (context) == DISIR_VALUE_TYPE_ENUM)
         {
-            status = dc_set_value_enum (context, str.c_str(), strlen (str.c_str()));
+            status = dc_set_value_enum (context, str.c_str(), str.size ());
         }
         else
         {
             // Default to setting string type, regardless of the mold equivalent.
             // That way, if we have any error with regards to type, the context
             // will be assumed string type.
-            status = dc_set_value_string (context, str.c_str(), strlen (str.c_str()));
+            status = dc_set_value_string (context, str.c_str(), str.size ());
         }
         break;
     }
-- 
2.43.0


From 7230c4392777b4beec1874bb94ddb5ed04a91266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 063/133] fix: toml: numbers out of range are refused, not
 replaced by others

---
 3rdparty/tinytoml/toml.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 2b6589f..a6cd332 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -817,6 +817,8 @@ inline Token Lexer::nextValue()
         std::stringstream ss(removeDelimiter(s));
         std::int64_t x;
         ss >> x;
+        if (ss.fail())
+            return Token(TokenType::ERROR, std::string("Integer out of range: ") + s);
         return Token(TokenType::INT, x);
     }
 
@@ -824,6 +826,8 @@ inline Token Lexer::nextValue()
         std::stringstream ss(removeDelimiter(s));
         double d;
         ss >> d;
+        if (ss.fail())
+            return Token(TokenType::ERROR, std::string("Float out of range: ") + s);
         return Token(TokenType::DOUBLE, d);
     }
 
-- 
2.43.0


From 7823bdab075436288ffc6de85202ad8fa8e99d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 064/133] fix: toml: a quoted key is one name, whatever it
 contains

---
 3rdparty/tinytoml/toml.h         | 8 +++++---
 lib/fslib/toml/toml_serialize.cc | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index a6cd332..579d110 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -1776,7 +1776,8 @@ inline bool Parser::parseKeyValue(Value* current)
     if (!consumeEOLorEOFForKey())
         return false;
 
-    if (current->has(key)) {
+    // The key is a name, not a path
+    if (current->findChild(key)) {
         addError("Multiple same key: " + key);
         return false;
     }
@@ -1921,12 +1922,13 @@ inline bool Parser::parseInlineTable(Value* value)
         if (!parseValue(&v))
             return false;
 
-        if (t.has(key)) {
+        // The key is a name, not a path
+        if (t.findChild(key)) {
             addError("inline table has multiple same keys: key=" + key);
             return false;
         }
 
-        t.set(key, v);
+        t.setChild(key, std::move(v));
     }
 
     if (!consumeForValue(TokenType::RBRACE))
diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 1e7a7a4..db47a94 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -238,7 +238,7 @@ toml_serialize_elements (struct disir_context *context, toml::Value* current)
 
         // Check if this element already exists in the current TOML value.
         // If it does, we have already added it (since there are more than one entry of it.)
-        if (current->has (name))
+        if (current->findChild (name))
             continue;
 
         status = toml_serialize_inner (context, current, name);
-- 
2.43.0


From 66eec5bb5a08d317bd002b0e0db39cae76b0315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 065/133] fix: toml: deeply nested values are refused, not
 followed until the stack ends

---
 3rdparty/tinytoml/toml.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 579d110..5dd2a77 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -364,9 +364,13 @@ private:
 
     void addError(const std::string& reason);
 
+    // Arrays and tables within one another are parsed, and destroyed, recursively
+    enum { MAX_DEPTH = 1000 };
+
     Lexer lexer_;
     Token token_;
     std::string errorReason_;
+    int depth_ = 0;
 };
 
 class Writer {
@@ -1698,7 +1702,12 @@ inline Value* Parser::parseGroupKey(Value* root)
     }
 
     Value* currentValue = root;
-    while (true) {
+    for (int depth = 0; ; ++depth) {
+        if (depth >= MAX_DEPTH) {
+            addError("nested too deeply");
+            return nullptr;
+        }
+
         if (token().type() != TokenType::IDENT && token().type() != TokenType::STRING)
             return nullptr;
 
@@ -1808,9 +1817,18 @@ inline bool Parser::parseValue(Value* v)
         nextValue();
         return true;
     case TokenType::LBRACKET:
-        return parseArray(v);
     case TokenType::LBRACE:
-        return parseInlineTable(v);
+    {
+        if (depth_ >= MAX_DEPTH) {
+            addError("nested too deeply");
+            return false;
+        }
+        ++depth_;
+        bool success = token().type() == TokenType::LBRACKET ? parseArray(v)
+                                                             : parseInlineTable(v);
+        --depth_;
+        return success;
+    }
     case TokenType::BOOL:
         *v = token().boolValue();
         nextValue();
-- 
2.43.0


From b81e572cb1c81160ad04339d1958b18bdc45bd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 066/133] fix: toml: reading leaks neither what is invalid nor
 what is refused

---
 lib/fslib/toml/toml_unserialize.cc | 40 +++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index b5c920d..e2ea0f8 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -63,7 +63,7 @@ dio_toml_unserialize_primitive (struct disir_instance *instance, const char *key
                                 const toml::Value& value, struct disir_context *parent)
 {
     enum disir_status status;
-    struct disir_context *context;
+    struct disir_context *context = NULL;
 
     status = dc_begin (parent, DISIR_CONTEXT_KEYVAL, &context);
     if (status != DISIR_STATUS_OK)
@@ -133,10 +133,24 @@ dio_toml_unserialize_primitive (struct disir_instance *instance, const char *key
         goto error;
     }
 
-    return dc_finalize (&context);
+    status = dc_finalize (&context);
+    if (status == DISIR_STATUS_INVALID_CONTEXT && context)
+    {
+        // The invalid context is left with us.
+        dc_putcontext (&context);
+    }
+    else if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
+    {
+        goto error;
+    }
+
+    return status;
 error:
 
-    dc_destroy (&context);
+    if (context)
+    {
+        dc_destroy (&context);
+    }
     return status;
 }
 
@@ -145,7 +159,7 @@ dio_toml_unserialize_table (struct disir_instance *instance, const char *key,
                             const toml::Value& table, struct disir_context *parent)
 {
     enum disir_status status;
-    struct disir_context *context;
+    struct disir_context *context = NULL;
 
     status = dc_begin (parent, DISIR_CONTEXT_SECTION, &context);
     if (status != DISIR_STATUS_OK)
@@ -172,10 +186,24 @@ dio_toml_unserialize_table (struct disir_instance *instance, const char *key,
         goto error;
     }
 
-    return dc_finalize (&context);
+    status = dc_finalize (&context);
+    if (status == DISIR_STATUS_INVALID_CONTEXT && context)
+    {
+        // The invalid context is left with us.
+        dc_putcontext (&context);
+    }
+    else if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
+    {
+        goto error;
+    }
+
+    return status;
 error:
 
-    dc_destroy (&context);
+    if (context)
+    {
+        dc_destroy (&context);
+    }
     return status;
 }
 
-- 
2.43.0


From 4fa8ee6140970a8fba7129431b5101069712477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 067/133] fix: toml: a config of a malformed version, or one
 the mold does not have, is refused

---
 lib/fslib/toml/toml_unserialize.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index e2ea0f8..0300a08 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -217,7 +217,7 @@ dio_toml_unserialize_all (struct disir_instance *instance, const char *key,
     {
     case toml::Value::NULL_TYPE:
     {
-        disir_log_user (instance, "TOML: Key '%s' of NULL type. Cannot reasonably handle.");
+        disir_log_user (instance, "TOML: Key '%s' of NULL type. Cannot reasonably handle.", key);
         status = DISIR_STATUS_INTERNAL_ERROR;
         break;
     }
@@ -282,7 +282,7 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
     if (pr.valid() == false)
     {
         disir_log_user (instance, "TOML: Parse error: %s", pr.errorReason.c_str());
-        disir_error_set (instance, pr.errorReason.c_str());
+        disir_error_set (instance, "%s", pr.errorReason.c_str());
         // XXX: Revise error code
         return DISIR_STATUS_FS_ERROR;
     }
@@ -319,13 +319,17 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
                 disir_error_set (instance, "TOML: Malformed %s string '%s'.",
                                            ATTRIBUTE_KEY_DISIR_CONFIG_VERSION,
                                            version->as<std::string>().c_str ());
+                dc_destroy (&context_config);
+                return status;
             }
             status = dc_set_version (context_config, &config_version);
             if (status != DISIR_STATUS_OK)
             {
-                // TODO. Determine how to handle this situvation.
-                disir_log_user (instance, "TOML: Failed to set version on CONTEXT_CONFIG: %s",
-                                          disir_status_string (status));
+                disir_error_set (instance, "TOML: Failed to set version %s: %s",
+                                           version->as<std::string>().c_str (),
+                                           disir_status_string (status));
+                dc_destroy (&context_config);
+                return status;
             }
         }
 
-- 
2.43.0


From 8a4d3c60b0241e9f4cf5503c58fcb1244957759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 068/133] fix: toml: dates out of range are refused

---
 3rdparty/tinytoml/toml.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 5dd2a77..0b1c204 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -847,6 +847,10 @@ inline Token Lexer::parseAsTime(const std::string& str)
     if (sscanf(s, "%d-%d-%d%n", &YYYY, &MM, &DD, &n) != 3)
         return Token(TokenType::ERROR, std::string("Invalid token"));
 
+    // Beyond these years a time_point of nanoseconds overflows.
+    if (YYYY < 1678 || YYYY > 2261 || MM < 1 || MM > 12 || DD < 1 || DD > 31)
+        return Token(TokenType::ERROR, std::string("Date out of range"));
+
     if (s[n] == '\0') {
         std::tm t;
         t.tm_sec = 0;
@@ -869,6 +873,9 @@ inline Token Lexer::parseAsTime(const std::string& str)
     if (sscanf(s, "%d:%d:%lf%n", &hh, &mm, &ss, &n) != 3)
         return Token(TokenType::ERROR, std::string("Invalid token"));
 
+    if (hh < 0 || hh > 23 || mm < 0 || mm > 59 || !(ss >= 0 && ss < 61))
+        return Token(TokenType::ERROR, std::string("Time out of range"));
+
     std::tm t;
     t.tm_sec = static_cast<int>(ss);
     t.tm_min = mm;
@@ -898,6 +905,9 @@ inline Token Lexer::parseAsTime(const std::string& str)
     if (pn != '+' && pn != '-')
         return Token(TokenType::ERROR, std::string("Invalid token"));
 
+    if (oh < 0 || oh > 23 || om < 0 || om > 59)
+        return Token(TokenType::ERROR, std::string("Time offset out of range"));
+
     if (pn == '+') {
         tp -= std::chrono::hours(oh);
         tp -= std::chrono::minutes(om);
-- 
2.43.0


From 20d9d3633077d59d9488535e1a8183edd5155529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 069/133] fix: an enum value is compared in full, also beyond a
 NULL byte

---
 lib/context_value.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index 8926ee6..601e5ab 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -849,11 +849,13 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
     }
 
     // The value is value_size bytes of the input, which need not be NULL terminated.
-    enumerator = strndup (value, value_size);
+    enumerator = malloc ((size_t) value_size + 1);
     if (enumerator == NULL)
     {
         return DISIR_STATUS_NO_MEMORY;
     }
+    memcpy (enumerator, value, value_size);
+    enumerator[value_size] = '\0';
 
     invalid = set_value_input_check (context, DISIR_VALUE_TYPE_ENUM, &value_storage);
     if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_INVALID_CONTEXT)
@@ -866,6 +868,15 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
     if (invalid != DISIR_STATUS_INVALID_CONTEXT)
     {
         invalid = dx_restriction_exclusive_value_check (context, 0, 0, enumerator);
+
+        // No enumerator extends beyond a NULL byte.
+        if (invalid == DISIR_STATUS_OK
+            && dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG
+            && strlen (enumerator) != (size_t) value_size)
+        {
+            dx_context_error_set (context, "enum value with a NULL byte violates restriction");
+            invalid = DISIR_STATUS_RESTRICTION_VIOLATED;
+        }
     }
 
      // Do not allow finalized context to change value
@@ -882,7 +893,7 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
         invalid = DISIR_STATUS_INVALID_CONTEXT;
     }
 
-    status = dx_value_set_string (value_storage, enumerator, strlen (enumerator));
+    status = dx_value_set_string (value_storage, enumerator, value_size);
     if (status != DISIR_STATUS_OK)
     {
         dx_context_error_set (context,
-- 
2.43.0


From 7812ec779bc8b18d5521c4f50b99af9882c9d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 070/133] fix: toml: an escaped NULL is kept, and what is no
 codepoint is refused

---
 3rdparty/tinytoml/toml.h | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 0b1c204..614ad17 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -461,38 +461,33 @@ inline std::string removeDelimiter(const std::string& s)
 inline std::string unescape(const std::string& codepoint)
 {
     std::uint32_t x;
-    std::uint8_t buf[8];
+    std::string r;
     std::stringstream ss(codepoint);
 
     ss >> std::hex >> x;
 
     if (x <= 0x7FUL) {
         // 0xxxxxxx
-        buf[0] = 0x00 | ((x >> 0) & 0x7F);
-        buf[1] = '\0';
+        r += static_cast<char>(0x00 | ((x >> 0) & 0x7F));
     } else if (x <= 0x7FFUL) {
         // 110yyyyx 10xxxxxx
-        buf[0] = 0xC0 | ((x >> 6) & 0xDF);
-        buf[1] = 0x80 | ((x >> 0) & 0xBF);
-        buf[2] = '\0';
+        r += static_cast<char>(0xC0 | ((x >> 6) & 0xDF));
+        r += static_cast<char>(0x80 | ((x >> 0) & 0xBF));
     } else if (x <= 0xFFFFUL) {
         // 1110yyyy 10yxxxxx 10xxxxxx
-        buf[0] = 0xE0 | ((x >> 12) & 0xEF);
-        buf[1] = 0x80 | ((x >> 6) & 0xBF);
-        buf[2] = 0x80 | ((x >> 0) & 0xBF);
-        buf[3] = '\0';
+        r += static_cast<char>(0xE0 | ((x >> 12) & 0xEF));
+        r += static_cast<char>(0x80 | ((x >> 6) & 0xBF));
+        r += static_cast<char>(0x80 | ((x >> 0) & 0xBF));
     } else if (x <= 0x10FFFFUL) {
         // 11110yyy 10yyxxxx 10xxxxxx 10xxxxxx
-        buf[0] = 0xF0 | ((x >> 18) & 0xF7);
-        buf[1] = 0x80 | ((x >> 12) & 0xBF);
-        buf[2] = 0x80 | ((x >> 6) & 0xBF);
-        buf[3] = 0x80 | ((x >> 0) & 0xBF);
-        buf[4] = '\0';
-    } else {
-        buf[0] = '\0';
+        r += static_cast<char>(0xF0 | ((x >> 18) & 0xF7));
+        r += static_cast<char>(0x80 | ((x >> 12) & 0xBF));
+        r += static_cast<char>(0x80 | ((x >> 6) & 0xBF));
+        r += static_cast<char>(0x80 | ((x >> 0) & 0xBF));
     }
 
-    return reinterpret_cast<char*>(buf);
+    // Empty if |codepoint| is none.
+    return r;
 }
 
 // Returns true if |s| is integer.
@@ -676,7 +671,10 @@ inline Token Lexer::nextStringDoubleQuote()
                     return Token(TokenType::ERROR, std::string("string has unknown escape sequence"));
                   }
                 }
-                s += unescape(codepoint);
+                std::string unescaped = unescape(codepoint);
+                if (unescaped.empty())
+                    return Token(TokenType::ERROR, std::string("string has invalid codepoint"));
+                s += unescaped;
                 continue;
             }
             case '"': c = '"'; break;
-- 
2.43.0


From 65deacf703c700ee8facf5cfd171ce501f919fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 071/133] fix: an enum value with a NULL byte is not valid

---
 lib/validate.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/validate.c b/lib/validate.c
index 1de4ca4..494c481 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -1,6 +1,7 @@
 // External public includes
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
 
 // Public disir interface
 #include <disir/disir.h>
@@ -194,6 +195,14 @@ validate_exclusive_restrictions (struct disir_context *context)
     {
         status = dx_restriction_exclusive_value_check (context, 0, 0,
                                                        context->cx_keyval->kv_value.dv_string);
+        // No enumerator extends beyond a NULL byte.
+        if (status == DISIR_STATUS_OK
+            && context->cx_keyval->kv_value.dv_string != NULL
+            && memchr (context->cx_keyval->kv_value.dv_string, '\0',
+                       context->cx_keyval->kv_value.dv_size) != NULL)
+        {
+            status = DISIR_STATUS_RESTRICTION_VIOLATED;
+        }
         break;
     }
     case DISIR_VALUE_TYPE_STRING:
-- 
2.43.0


From e6e87a0c2612baef4100b4b110fb51003843bc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 072/133] fix: toml: a key with a NULL byte is refused

---
 lib/fslib/toml/toml_unserialize.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 0300a08..34aa35f 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -48,6 +48,14 @@ dio_toml_parse_table (struct disir_instance *instance, const toml::Value& table,
     // Iterate the table, man
     for (const auto& kv : table.as<toml::Table> ())
     {
+        if (kv.first.find ('\0') != std::string::npos)
+        {
+            // No element has such a name. Shall not be mistaken for what it begins with.
+            disir_error_set (instance, "TOML: key with a NULL byte: %s", kv.first.c_str ());
+            status = DISIR_STATUS_INVALID_ARGUMENT;
+            break;
+        }
+
         status = dio_toml_unserialize_all (instance, kv.first.c_str (), kv.second, parent);
         if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
         {
-- 
2.43.0


From ac216c73878107a9d71b6c8ddbd0b73e9c7d5ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:03 +0000
Subject: [PATCH 073/133] fix: integer restrictions are bound to what an
 integer can hold

---
 lib/context_restriction.c             | 24 +++++++++++++++++++++---
 lib/fslib/json/json_serialize_mold.cc | 24 +++++++++++++++++++++---
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 6da2c32..9f86f37 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -4,6 +4,7 @@
 #include <stddef.h>
 #include <string.h>
 #include <limits.h>
+#include <stdint.h>
 
 // Public disir interface
 #include <disir/disir.h>
@@ -465,6 +466,23 @@ dc_restriction_get_string (struct disir_context *context, const char **value)
     return DISIR_STATUS_OK;
 }
 
+//! STATIC API
+//! The integer part of the value, bound to what an integer can hold.
+static double
+restriction_integer_value (double value)
+{
+    if (value >= (double) INT64_MAX)
+    {
+        return (double) INT64_MAX;
+    }
+    if (value <= (double) INT64_MIN)
+    {
+        return (double) INT64_MIN;
+    }
+
+    return (int64_t) value;
+}
+
 //! PUBLIC API
 enum disir_status
 dc_restriction_set_string (struct disir_context *context, const char *value)
@@ -536,8 +554,8 @@ dc_restriction_set_range (struct disir_context *context, double min, double max)
         // Store restriction value based on keyval type (integer vs float)
         if (dc_value_type (context->cx_parent_context) == DISIR_VALUE_TYPE_INTEGER)
         {
-            context->cx_restriction->re_value_min = (int64_t) min;
-            context->cx_restriction->re_value_max = (int64_t) max;
+            context->cx_restriction->re_value_min = restriction_integer_value (min);
+            context->cx_restriction->re_value_max = restriction_integer_value (max);
         }
         else
         {
@@ -625,7 +643,7 @@ dc_restriction_set_numeric (struct disir_context *context, double value)
     // XXX if set_numeric is used by entries_max/min, this doesnt make much sense....
     if (dc_value_type (context->cx_parent_context) == DISIR_VALUE_TYPE_INTEGER)
     {
-        value = (int64_t) value;
+        value = restriction_integer_value (value);
     }
 
     switch (context->cx_restriction->re_type)
diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index 34b38a6..9751499 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -10,6 +10,24 @@
 
 using namespace dio;
 
+//! STATIC
+//! Integer restrictions are held as floating point, of which not all are integers.
+static Json::Int64
+restriction_integer (double value)
+{
+    if (value >= (double) Json::Value::maxInt64)
+    {
+        return Json::Value::maxInt64;
+    }
+    if (value <= (double) Json::Value::minInt64)
+    {
+        return Json::Value::minInt64;
+    }
+
+    return (Json::Int64) value;
+}
+
+
 MoldWriter::MoldWriter (struct disir_instance *disir) : JsonIO (disir)
 {
 }
@@ -309,7 +327,7 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
             }
             else
             {
-                current_restriction[ATTRIBUTE_KEY_VALUE] = (Json::Int64)value;
+                current_restriction[ATTRIBUTE_KEY_VALUE] = restriction_integer (value);
             }
             break;
         }
@@ -330,8 +348,8 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
             }
             else
             {
-                current_restriction[ATTRIBUTE_KEY_VALUE].append ((Json::Int64)min);
-                current_restriction[ATTRIBUTE_KEY_VALUE].append ((Json::Int64)max);
+                current_restriction[ATTRIBUTE_KEY_VALUE].append (restriction_integer (min));
+                current_restriction[ATTRIBUTE_KEY_VALUE].append (restriction_integer (max));
             }
 
             break;
-- 
2.43.0


From e840c2246bbc77d5a109994e62aa8687ff41f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 074/133] fix: json: a mold that cannot be read is refused
 without leaking it

---
 lib/fslib/json/json_unserialize_mold.cc | 58 ++++++++++++++++++-------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index f60527e..d0f05dd 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -84,6 +84,12 @@ MoldReader::construct_mold (struct disir_mold **mold)
     struct disir_context *context_mold = NULL;
     enum disir_status status;
 
+    if (m_moldRoot.isObject () == false)
+    {
+        disir_error_set (m_disir, "Mold JSON: top-level value is not an object");
+        return DISIR_STATUS_FS_ERROR;
+    }
+
     status = dc_mold_begin (&context_mold);
     if (status != DISIR_STATUS_OK)
     {
@@ -96,8 +102,7 @@ MoldReader::construct_mold (struct disir_mold **mold)
         status = dc_add_documentation (context_mold, doc.c_str (), doc.size ());
         if (status != DISIR_STATUS_OK)
         {
-
-            return status;
+            goto error;
         }
     }
 
@@ -106,6 +111,11 @@ MoldReader::construct_mold (struct disir_mold **mold)
         dc_fatal_error (context_mold, "missing top-level object 'mold'");
         goto finalize;
     }
+    if (m_moldRoot[ATTRIBUTE_KEY_MOLD].isObject () == false)
+    {
+        dc_fatal_error (context_mold, "top-level 'mold' is not an object");
+        goto finalize;
+    }
 
     status = _unserialize_mold (context_mold, m_moldRoot[ATTRIBUTE_KEY_MOLD]);
     if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
@@ -179,7 +189,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
     if (status != DISIR_STATUS_OK &&
         status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -189,7 +199,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
     if (status != DISIR_STATUS_OK
         && status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (type == DISIR_CONTEXT_SECTION)
@@ -205,7 +215,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
-            return status;
+            goto error;
         }
     }
     else if  (type == DISIR_CONTEXT_KEYVAL)
@@ -214,7 +224,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
-            return status;
+            goto error;
         }
     }
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -225,7 +235,7 @@ finalize:
     if (status != DISIR_STATUS_OK &&
         status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -234,6 +244,12 @@ finalize:
     }
 
     return DISIR_STATUS_OK;
+error:
+    if (context)
+    {
+        dc_destroy (&context);
+    }
+    return status;
 }
 
 //! PRIVATE
@@ -392,6 +408,12 @@ MoldReader::unserialize_restriction (struct disir_context *restriction, Json::Va
 {
     enum disir_status status;
 
+    if (current.isObject () == false)
+    {
+        dc_fatal_error (restriction, "Restriction should be of type object");
+        return DISIR_STATUS_INVALID_CONTEXT;
+    }
+
     if (current[ATTRIBUTE_KEY_TYPE].isNull ())
     {
         dc_fatal_error (restriction, "No restriction type");
@@ -558,10 +580,10 @@ MoldReader::set_restriction_value (struct disir_context *context, Json::Value& c
     }
     case DISIR_RESTRICTION_EXC_VALUE_RANGE:
     {
-        if (assert_json_value_type (value[0], Json::intValue) == DISIR_STATUS_OK ||
-            assert_json_value_type (value[1], Json::intValue) == DISIR_STATUS_OK ||
-            assert_json_value_type (value[0], Json::realValue) == DISIR_STATUS_OK ||
-            assert_json_value_type (value[1], Json::realValue) == DISIR_STATUS_OK)
+        if ((assert_json_value_type (value[0], Json::intValue) == DISIR_STATUS_OK ||
+             assert_json_value_type (value[0], Json::realValue) == DISIR_STATUS_OK) &&
+            (assert_json_value_type (value[1], Json::intValue) == DISIR_STATUS_OK ||
+             assert_json_value_type (value[1], Json::realValue) == DISIR_STATUS_OK))
         {
 
             auto min = value[0].asDouble();
@@ -583,11 +605,10 @@ MoldReader::set_restriction_value (struct disir_context *context, Json::Value& c
         }
         else
         {
-            // only using value[0] since the json library
-            // restricts types in an array to be equal
+            auto& wrong = value[0].isNumeric () ? value[1] : value[0];
             dc_fatal_error (context,
                             "wrong type for value range - got %s, expected integer or float",
-                            json_valuetype_stringify (value[0].type()));
+                            json_valuetype_stringify (wrong.type()));
             return DISIR_STATUS_INVALID_CONTEXT;
         }
         break;
@@ -651,6 +672,7 @@ MoldReader::unserialize_restrictions (struct disir_context *context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
+            dc_destroy (&restriction);
             return status;
         }
 
@@ -658,6 +680,7 @@ MoldReader::unserialize_restrictions (struct disir_context *context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
+            dc_destroy (&restriction);
             return status;
         }
 
@@ -714,7 +737,12 @@ MoldReader::unserialize_defaults (struct disir_context *context_keyval, Json::Va
             continue;
         }
 
-        if (def[ATTRIBUTE_KEY_VALUE].isNull ())
+        if (def.isObject () == false)
+        {
+            dc_fatal_error (context_default, "Default should be of type object");
+            error = DISIR_STATUS_NOT_EXIST;
+        }
+        else if (def[ATTRIBUTE_KEY_VALUE].isNull ())
         {
             dc_fatal_error (context_default, "Default value is not present");
             error = DISIR_STATUS_NOT_EXIST;
-- 
2.43.0


From 7e195b7011d7d15862fc98163c965f16f24f971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 075/133] fix: documentation is written and read in full, also
 beyond a NULL byte

---
 lib/fslib/json/json_serialize_mold.cc   | 5 +++--
 lib/fslib/json/json_unserialize_mold.cc | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index 9751499..91d9ebd 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -168,6 +168,7 @@ MoldWriter::serialize_attributes (struct disir_context *context, Json::Value& cu
 {
     enum disir_status status;
     const char *doc;
+    int32_t doc_size;
 
     switch (type)
     {
@@ -204,11 +205,11 @@ MoldWriter::serialize_attributes (struct disir_context *context, Json::Value& cu
         break;
     }
 
-    status = dc_get_documentation (context, NULL, &doc, NULL);
+    status = dc_get_documentation (context, NULL, &doc, &doc_size);
     if (status == DISIR_STATUS_OK)
     {
         //! Doc is set only when present in context
-        current[ATTRIBUTE_KEY_DOCUMENTATION] = doc;
+        current[ATTRIBUTE_KEY_DOCUMENTATION] = std::string (doc, doc_size);
     }
     return DISIR_STATUS_OK;
 }
diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index d0f05dd..87168b4 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -393,7 +393,7 @@ MoldReader::unserialize_documentation (struct disir_context *context, Json::Valu
        return DISIR_STATUS_INVALID_CONTEXT;
     }
 
-    status = dc_add_documentation (context, doc.asCString (), strlen (doc.asCString ()));
+    status = dc_add_documentation (context, doc.asString ().c_str (), doc.asString ().size ());
     if (status != DISIR_STATUS_OK)
     {
         disir_log_user (m_disir, "could not add documentation: %s",
-- 
2.43.0


From dab112adea8e005c35324f6f84baf10a5a3ed1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 076/133] fix: destroying an instance hands a plugin itself,
 and unloads only what was loaded

---
 lib/disir.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index 6f40b26..a5256b2 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -328,10 +328,14 @@ disir_instance_destroy (struct disir_instance **instance)
         // Call cleanup method specified by plugin.
         if (plugin->pi_plugin.dp_plugin_finished)
         {
-            plugin->pi_plugin.dp_plugin_finished (*instance, plugin->pi_plugin.dp_storage);
+            plugin->pi_plugin.dp_plugin_finished (*instance, &plugin->pi_plugin);
         }
 
-        dlclose (plugin->pi_dl_handler);
+        // Plugins registered by the user are not loaded from disk.
+        if (plugin->pi_dl_handler)
+        {
+            dlclose (plugin->pi_dl_handler);
+        }
 
         if (plugin->pi_filepath)
             free (plugin->pi_filepath);
-- 
2.43.0


From b34f584d5ec1c4d7009dbcca62c96fa8c011b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 077/133] fix: a mold is only written to a name it can be read
 from

---
 include/disir/fslib/util.h |  9 +++++++++
 lib/fslib/query.cc         | 22 ++++++++++++++++++----
 lib/fslib/write.c          |  8 ++++++++
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/disir/fslib/util.h b/include/disir/fslib/util.h
index f779836..849c190 100644
--- a/include/disir/fslib/util.h
+++ b/include/disir/fslib/util.h
@@ -54,6 +54,15 @@ DISIR_EXPORT
 const char *
 fslib_namespace_entry (const char *name, char *namespace_entry);
 
+//! \brief Validate that the entry_id holds only the characters allowed in one.
+//!
+//! \return DISIR_STATUS_RESTRICTION_VIOLATED if entry_id is ill-formed.
+//! \return DISIR_STATUS_OK on success.
+//!
+DISIR_EXPORT
+enum disir_status
+fslib_validate_entry_id (struct disir_instance *instance, const char *entry_id);
+
 //! \brief Resolve entry_id to plugin filepath for config.
 //!
 //! \param[out] filepath Populate the output buffer with the complete, resolved filepath.
diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 3838a12..9c2fc7d 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -30,6 +30,21 @@ validate_entry_id_characters(std::string& entry_id)
     return (illegal == entry_id.end());
 }
 
+//! FSLIB API
+enum disir_status
+fslib_validate_entry_id (struct disir_instance *instance, const char *entry_id)
+{
+    std::string eid(entry_id);
+
+    if (!validate_entry_id_characters(eid))
+    {
+        disir_error_set (instance, "entry_id is ill-formed");
+        return DISIR_STATUS_RESTRICTION_VIOLATED;
+    }
+
+    return DISIR_STATUS_OK;
+}
+
 //! FSLIB API
 enum disir_status
 fslib_config_query_entries (struct disir_instance *instance, struct disir_register_plugin *plugin,
@@ -377,11 +392,10 @@ fslib_plugin_mold_query (struct disir_instance *instance, struct disir_register_
     int namespace_entry;
     struct stat statbuf;
 
-    std::string eid(entry_id);
-    if (!validate_entry_id_characters(eid))
+    status = fslib_validate_entry_id (instance, entry_id);
+    if (status != DISIR_STATUS_OK)
     {
-        disir_error_set (instance, "entry_id is ill-formed");
-        return DISIR_STATUS_RESTRICTION_VIOLATED;
+        return status;
     }
 
     namespace_entry = 0;
diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index e73d416..6a2f1fc 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -113,6 +113,14 @@ fslib_plugin_mold_write (struct disir_instance *instance, struct disir_register_
     char filepath[PATH_MAX];
     struct stat statbuf;
 
+    // A mold of any other name would never be found again.
+    status = fslib_validate_entry_id (instance, entry_id);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already set
+        return status;
+    }
+
     status = fslib_mold_resolve_filepath (instance, plugin, entry_id, filepath);
     if (status != DISIR_STATUS_OK)
     {
-- 
2.43.0


From e45197c9347417af3238f07c1b86091cb34dbbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 078/133] fix: what is stored survives a write that fails

---
 lib/fslib/write.c | 115 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 99 insertions(+), 16 deletions(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index 6a2f1fc..a11230d 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -3,8 +3,95 @@
 
 // system
 #include <errno.h>
+#include <fcntl.h>
 #include <limits.h>
+#include <stdlib.h>
+#include <unistd.h>
+
+//! STATIC API
+//! Open a temporary file beside target, which is to replace it.
+//! The entry is not touched until replace_finish () - what is stored survives a
+//! serialization that fails or is cut short.
+static enum disir_status
+replace_begin (struct disir_instance *instance, const char *filepath,
+               char *target, char *temporary, FILE **file)
+{
+    static unsigned int counter;
+    struct stat statbuf;
+    char *separator;
+    int existing;
+    int res;
+    int fd;
+
+    // Replace what a symbolic link points to, not the link.
+    existing = (realpath (filepath, target) != NULL);
+    if (existing == 0)
+    {
+        snprintf (target, PATH_MAX, "%s", filepath);
+    }
+
+    separator = strrchr (target, '/');
+    res = snprintf (temporary, PATH_MAX, "%.*s.disir.%ld.%u",
+                    (separator ? (int) (separator - target) + 1 : 0), target,
+                    (long) getpid (), __sync_fetch_and_add (&counter, 1));
+    if (res >= PATH_MAX)
+    {
+        disir_error_set (instance, "filepath exceeded internal buffer of %d bytes", PATH_MAX);
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
+
+    fd = open (temporary, O_RDWR | O_CREAT | O_TRUNC, 0666);
+    if (fd == -1)
+    {
+        // TODO: Check errno and set appropriate error
+        // TODO: Use threadsafe strerror, or refactor entirely
+        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
+        return DISIR_STATUS_FS_ERROR;
+    }
 
+    if (existing && stat (target, &statbuf) == 0)
+    {
+        // Best effort: An entry keeps the permissions it has been given.
+        res = fchmod (fd, statbuf.st_mode & 07777);
+    }
+
+    *file = fdopen (fd, "w+");
+    if (*file == NULL)
+    {
+        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
+        close (fd);
+        unlink (temporary);
+        return DISIR_STATUS_FS_ERROR;
+    }
+
+    return DISIR_STATUS_OK;
+}
+
+//! STATIC API
+//! Put the temporary file in place of target, if its content was written successfully.
+static enum disir_status
+replace_finish (struct disir_instance *instance, enum disir_status status,
+                const char *target, const char *temporary, FILE *file)
+{
+    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "writing %s: %s", target, strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
+
+    if (status == DISIR_STATUS_OK && rename (temporary, target) != 0)
+    {
+        disir_error_set (instance, "writing %s: %s", target, strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
+
+    if (status != DISIR_STATUS_OK)
+    {
+        unlink (temporary);
+    }
+
+    return status;
+}
 
 //! FSLIB API
 enum disir_status
@@ -87,20 +174,18 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
     }
 
     FILE *file;
+    char target[PATH_MAX];
+    char temporary[PATH_MAX];
 
-    file = fopen (filepath, "w+");
-    if (file == NULL)
+    status = replace_begin (instance, filepath, target, temporary, &file);
+    if (status != DISIR_STATUS_OK)
     {
-        // TODO: Check errno and set appropriate error
-        // TODO: Use threadsafe strerror, or refactor entirely
-        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
-        return DISIR_STATUS_FS_ERROR;
+        return status;
     }
 
     status = func_serialize (instance, config, file);
-    fclose (file);
 
-    return status;
+    return replace_finish (instance, status, target, temporary, file);
 }
 
 //! FSLIB API
@@ -179,20 +264,18 @@ fslib_plugin_mold_write (struct disir_instance *instance, struct disir_register_
     }
 
     FILE *file;
+    char target[PATH_MAX];
+    char temporary[PATH_MAX];
 
-    file = fopen (filepath, "w+");
-    if (file == NULL)
+    status = replace_begin (instance, filepath, target, temporary, &file);
+    if (status != DISIR_STATUS_OK)
     {
-        // TODO: Check errno and set appropriate error
-        // TODO: Use threadsafe strerror, or refactor entirely
-        disir_error_set (instance, "opening for writing %s: %s", filepath, strerror (errno));
-        return DISIR_STATUS_FS_ERROR;
+        return status;
     }
 
     status = func_serialize (instance, mold, file);
-    fclose (file);
 
-    return status;
+    return replace_finish (instance, status, target, temporary, file);
 }
 
 //! FSLIB API
-- 
2.43.0


From 8bb8c0bf151328e3bf15dd68bb24454756edf296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:59 +0000
Subject: [PATCH 079/133] fix: output that could not be written in full is an
 error

---
 lib/fslib/json/json_serialize.cc | 35 ++++++++++++++++++++++++++++++--
 lib/fslib/toml/toml_serialize.cc |  6 ++++++
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/json_serialize.cc b/lib/fslib/json/json_serialize.cc
index 704d79c..6bef333 100644
--- a/lib/fslib/json/json_serialize.cc
+++ b/lib/fslib/json/json_serialize.cc
@@ -9,11 +9,28 @@
 #include <disir/fslib/json.h>
 
 
+//! STATIC API
+//! Whether everything written to the stream also arrived.
+static enum disir_status
+stream_status (struct disir_instance *instance, std::ostream& stream)
+{
+    stream.flush ();
+    if (!stream)
+    {
+        disir_error_set (instance, "JSON: output could not be written in full");
+        return DISIR_STATUS_FS_ERROR;
+    }
+
+    return DISIR_STATUS_OK;
+}
+
 //! FSLIB API
 enum disir_status
 dio_json_serialize_config (struct disir_instance *instance,
                            struct disir_config *config, FILE* output)
 {
+    enum disir_status status;
+
     disir_log_user (instance, "TRACE ENTER dio_json_serialize_config");
 
     try
@@ -21,7 +38,13 @@ dio_json_serialize_config (struct disir_instance *instance,
         boost::fdostream file(fileno(output));
         dio::ConfigWriter writer (NULL);
 
-         return writer.serialize (config, file);
+        status = writer.serialize (config, file);
+        if (status == DISIR_STATUS_OK)
+        {
+            status = stream_status (instance, file);
+        }
+
+        return status;
     }
     catch (std::exception& e)
     {
@@ -34,6 +57,8 @@ enum disir_status
 dio_json_serialize_mold (struct disir_instance *instance,
                          struct disir_mold *mold, FILE *output)
 {
+    enum disir_status status;
+
     disir_log_user (instance, "TRACE ENTER dio_json_serialize_mold");
 
     try
@@ -41,7 +66,13 @@ dio_json_serialize_mold (struct disir_instance *instance,
         boost::fdostream file(fileno(output));
         dio::MoldWriter writer (instance);
 
-        return writer.serialize (mold, file);
+        status = writer.serialize (mold, file);
+        if (status == DISIR_STATUS_OK)
+        {
+            status = stream_status (instance, file);
+        }
+
+        return status;
     }
     catch (std::exception& e)
     {
diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index db47a94..350c687 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -306,6 +306,12 @@ dio_toml_serialize_config (struct disir_instance *instance,
 
     boost::fdostream file(fileno(output));
     root.write (&file);
+    file.flush ();
+    if (!file)
+    {
+        disir_error_set (instance, "TOML: output could not be written in full");
+        return DISIR_STATUS_FS_ERROR;
+    }
 
     disir_log_user (instance, "TRACE EXIT serialize_config");
     return DISIR_STATUS_OK;
-- 
2.43.0


From f628bf26aab5240b018274a118ef4e0e99ee73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:59 +0000
Subject: [PATCH 080/133] fix: toml: a configuration that cannot be written is
 refused, without leaking it

---
 lib/fslib/toml/toml_serialize.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 350c687..aaa6c92 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -239,7 +239,10 @@ toml_serialize_elements (struct disir_context *context, toml::Value* current)
         // Check if this element already exists in the current TOML value.
         // If it does, we have already added it (since there are more than one entry of it.)
         if (current->findChild (name))
+        {
+            dc_putcontext (&element);
             continue;
+        }
 
         status = toml_serialize_inner (context, current, name);
         if (status != DISIR_STATUS_OK)
@@ -303,6 +306,13 @@ dio_toml_serialize_config (struct disir_instance *instance,
 
     // Mjes
     status = toml_serialize_elements (context_config, current);
+    dc_putcontext (&context_config);
+    if (status != DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "TOML: config could not be serialized: %s",
+                                   disir_status_string (status));
+        return status;
+    }
 
     boost::fdostream file(fileno(output));
     root.write (&file);
-- 
2.43.0


From 6af0c29ab9cdff0257ba715f628c99e3d0f6c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 081/133] fix: an empty entry_id names no configuration that
 can be written or removed

---
 lib/disir_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 57345d8..999e3a5 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -127,7 +127,7 @@ disir_config_write (struct disir_instance *instance, const char *group_id, const
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length == 0 || entry_id[entry_id_length - 1] == '/')
     {
         // TODO: Add a better status?
         disir_error_set (instance, "cannot write namespace entry: %s", entry_id);
@@ -194,7 +194,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length == 0 || entry_id[entry_id_length - 1] == '/')
     {
         disir_error_set (instance, "cannot remove namespace entry: %s", entry_id);
         return DISIR_STATUS_FS_ERROR;
-- 
2.43.0


From ed51343250162edc7a4f329ab55dd4045b5be3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:27 +0000
Subject: [PATCH 082/133] fix: removing a configuration that cannot be removed
 is an error

---
 lib/fslib/write.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index a11230d..3f427eb 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -311,7 +311,11 @@ fslib_plugin_config_remove (struct disir_instance *instance,
     if (status == DISIR_STATUS_OK)
     {
         // Delete the file
-        remove (filepath);
+        if (remove (filepath) != 0)
+        {
+            disir_error_set (instance, "removing %s: %s", filepath, strerror (errno));
+            status = DISIR_STATUS_FS_ERROR;
+        }
     }
     else if (status == DISIR_STATUS_NOT_EXIST)
     {
-- 
2.43.0


From fa3b9b47a23461c26d42b493466e83b79450014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:40 +0000
Subject: [PATCH 083/133] fix: the namespace mold of an override file is the
 one beside it

---
 lib/fslib/query.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 9c2fc7d..ecab617 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -444,16 +444,26 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
     char *sep = NULL;
     char suffix[128];
 
+    override_status = DISIR_STATUS_NOT_EXIST;
+
+    // The longest path derived from entry_path names the namespace entry.
+    if (strlen (entry_path) + strlen ("__namespace") >= PATH_MAX)
+    {
+        disir_error_set (instance, "filepath exceeded internal buffer of %d bytes", PATH_MAX);
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
+
     strncpy (override_filepath, entry_path, PATH_MAX);
 
     sep = strrchr (override_filepath, '.');
-    if (sep == NULL)
+    if (sep == NULL || strlen (sep) >= sizeof (suffix))
         return DISIR_STATUS_FS_ERROR;
 
     strncpy (suffix, sep, 128);
 
     // first check if the requested entry is an override entry
-    if (strncmp (sep - strlen (".o"), ".o", strlen (".o")) == 0)
+    if (sep - override_filepath >= (ptrdiff_t) strlen (".o")
+        && strncmp (sep - strlen (".o"), ".o", strlen (".o")) == 0)
     {
         strncpy (filepath, entry_path, PATH_MAX);
 
@@ -486,7 +496,9 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
         return DISIR_STATUS_FS_ERROR;
     }
 
-    strcat (filepath, "/__namespace.");
+    *sep = '\0';
+
+    strcat (filepath, "/__namespace");
     strcat (filepath, suffix);
 
     status = fslib_stat_filepath (instance, filepath, statbuf);
-- 
2.43.0


From 554ef7c51993c8edbb43d27de8529a09e09861e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:26 +0000
Subject: [PATCH 084/133] fix: a namespace mold path that is too long is
 refused

---
 lib/fslib/query.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index ecab617..95fb0ba 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -576,6 +576,15 @@ fslib_mold_resolve_entry_id (struct disir_instance *instance, struct disir_regis
         return DISIR_STATUS_FS_ERROR;
     }
 
+    // The path of the namespace mold may be longer than that of the entry
+    if (strlen (plugin->dp_mold_entry_type) + strlen ("/__namespace.")
+        >= (size_t) (PATH_MAX - (sep - filepath)))
+    {
+        disir_error_set (instance, "filepath exceeded PATH_MAX bytes");
+        *filepath = '\0';
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
+
     *sep = '\0';
 
     strcat (filepath, "/__namespace.");
-- 
2.43.0


From 523920a23d82ffca3b1289a311d5357238df4240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 085/133] fix: listing entries no longer hangs on a duplicate

---
 lib/disir_config.c | 3 +++
 lib/disir_mold.c   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 999e3a5..017922a 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -318,6 +318,9 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
             else
             {
                 // Duplicate entry that a previous plugin provides. Forget about it.
+                // Its neighbours may be queued already - it is in no list anymore.
+                current->next = NULL;
+                current->prev = NULL;
                 disir_entry_finished (&current);
             }
 
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 9ccf553..30efbff 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -236,6 +236,9 @@ disir_mold_entries (struct disir_instance *instance,
             else
             {
                 // Duplicate entry that a previous plugin provides. Forget about it.
+                // Its neighbours may be queued already - it is in no list anymore.
+                current->next = NULL;
+                current->prev = NULL;
                 disir_entry_finished (&current);
             }
 
-- 
2.43.0


From 7424e96edbcac8e5a4dcbdac1bd5d43d10bc957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 086/133] fix: creating an instance leaks nothing, whether it
 succeeds or fails

---
 lib/disir.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index a5256b2..de24c65 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -32,6 +32,7 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     plugin_register dio_reg;
 
     // Attempt to load the filepath dynamically
+    memset (&plugin, 0, sizeof (struct disir_register_plugin));
     handle = dlopen (plugin_filepath, RTLD_NOW | RTLD_LOCAL);
     if (handle == NULL)
     {
@@ -53,8 +54,6 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     }
 
     // Populate the plugin object
-    memset (&plugin, 0, sizeof (struct disir_register_plugin));
-
     if (config_base_id)
         plugin.dp_config_base_id = strndup (config_base_id, 512);
     if (mold_base_id)
@@ -92,6 +91,14 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
 
     return DISIR_STATUS_OK;
 error:
+    if (plugin.dp_config_base_id)
+    {
+        free (plugin.dp_config_base_id);
+    }
+    if (plugin.dp_mold_base_id)
+    {
+        free (plugin.dp_mold_base_id);
+    }
     if (handle)
     {
         dlclose (handle);
@@ -211,6 +218,7 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
     struct disir_mold *libmold;
 
     status = DISIR_STATUS_OK;
+    libconf = NULL;
     libmold = NULL;
 
     TRACE_ENTER ("config_filepath: %s, config: %p, instance: %p",
@@ -255,13 +263,18 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
     {
         // Load default config
         status = disir_generate_config_from_mold (libmold, NULL, &libconf);
-
-        // Remove the plugin element from default generated config
-        struct disir_context *plugin;
-        status = dc_find_element (dc_config_getcontext (libconf), "plugin", 0, &plugin);
         if (status == DISIR_STATUS_OK)
         {
-            dc_destroy (&plugin);
+            // Remove the plugin element from default generated config
+            struct disir_context *context;
+            struct disir_context *plugin;
+
+            context = dc_config_getcontext (libconf);
+            if (dc_find_element (context, "plugin", 0, &plugin) == DISIR_STATUS_OK)
+            {
+                dc_destroy (&plugin);
+            }
+            dc_putcontext (&context);
         }
     }
     // We do not need the libmold definition anymore
@@ -298,7 +311,12 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
 error:
     if (dis)
     {
-        free (dis);
+        // The user keeps the config he provided if there is no instance to own it.
+        if (config == NULL && libconf)
+        {
+            disir_config_finished (&libconf);
+        }
+        disir_instance_destroy (&dis);
     }
     if (libmold)
     {
-- 
2.43.0


From 155851a9f5437aca8c5f29195fb1a1e0924d4f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:04 +0000
Subject: [PATCH 087/133] fix: messages are formatted from arguments of the
 type they name

---
 lib/context_util.c        |  2 +-
 lib/disir_archive_util.cc | 12 ++++++------
 lib/disir_config.c        |  2 +-
 lib/disir_export.cc       | 16 ++++++++--------
 lib/disir_mold.c          |  4 ++--
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/lib/context_util.c b/lib/context_util.c
index 9a13c8e..e8c3db3 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -461,7 +461,7 @@ dx_context_type_check_log_error (struct disir_context *context, ...)
         // Do we have anything to write?
         if (buffer != buf)
         {
-            log_error (buffer);
+            log_error ("%s", buffer);
         }
     }
 
diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index c0dfdea..72a7f5c 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -405,7 +405,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
     auto iter = extract_content.find (backend + "/entries.toml");
     if (iter == extract_content.end())
     {
-        log_error ("cannot find entries.toml for backend '%s' in map", backend);
+        log_error ("cannot find entries.toml for backend '%s' in map", backend.c_str ());
         return DISIR_STATUS_NOT_EXIST;
     }
 
@@ -416,7 +416,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
 
     if (!pr.valid())
     {
-        log_error ("unable to parse entries.toml in backend '%s'", backend);
+        log_error ("unable to parse entries.toml in backend '%s'", backend.c_str ());
         return DISIR_STATUS_FS_ERROR;
     }
 
@@ -432,13 +432,13 @@ validate_archive_backend_entries (struct disir_archive *archive,
         if (entries_group_table == nullptr)
         {
             log_error ("unable to find the group '%s' in entries.toml, in backend '%s'",
-                        group.as<std::string>(), backend);
+                        group.as<std::string>().c_str (), backend.c_str ());
             return DISIR_STATUS_NOT_EXIST;
         }
 
         if (entries_group_table->is<toml::Table>() == false)
         {
-            log_error ("group '%s' in '%s' is not a toml table", group.as<std::string>(), backend);
+            log_error ("group '%s' in '%s' is not a toml table", group.as<std::string>().c_str (), backend.c_str ());
             return DISIR_STATUS_WRONG_VALUE_TYPE;
         }
 
@@ -572,7 +572,7 @@ dx_archive_validate (struct disir_archive *archive,
         auto groups = entry.find (ATTRIBUTE_KEY_GROUPS);
         if (groups == nullptr)
         {
-            log_error ("key 'groups' not present in backend '%s'", id->as<std::string>());
+            log_error ("key 'groups' not present in backend '%s'", id->as<std::string>().c_str ());
             return DISIR_STATUS_NOT_EXIST;
         }
 
@@ -584,7 +584,7 @@ dx_archive_validate (struct disir_archive *archive,
 
         if (groups->empty())
         {
-            log_error ("'groups' array in backend '%s' is empty", id->as<std::string>());
+            log_error ("'groups' array in backend '%s' is empty", id->as<std::string>().c_str ());
             return DISIR_STATUS_NOT_EXIST;
         }
 
diff --git a/lib/disir_config.c b/lib/disir_config.c
index 017922a..2453115 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -68,7 +68,7 @@ disir_config_read (struct disir_instance *instance, const char *group_id, const
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 8193bf1..7ffc0ef 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -54,7 +54,7 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
         auto iter = extract_content.find (id->as<std::string>() + "/entries.toml");
         if (iter == extract_content.end())
         {
-            log_error ("cannot find entries.toml for backend '%s' in map", id->as<std::string>());
+            log_error ("cannot find entries.toml for backend '%s' in map", id->as<std::string>().c_str ());
             return DISIR_STATUS_NOT_EXIST;
         }
 
@@ -65,7 +65,7 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
 
         if (!pr.valid())
         {
-            log_error ("unable to parse entries.toml in backend '%s'", id->as<std::string>());
+            log_error ("unable to parse entries.toml in backend '%s'", id->as<std::string>().c_str ());
             return DISIR_STATUS_FS_ERROR;
         }
 
@@ -195,7 +195,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
     if (entry == NULL)
     {
         log_debug (3, "error creating new archive entry: %s",
-                       archive_errno (archive));
+                       archive_error_string (archive));
         return DISIR_STATUS_NO_MEMORY;
     }
 
@@ -219,7 +219,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
 
         if (archive_write_data (archive, buf, read) < 0)
         {
-            log_error ("error writing to archive %s", archive_errno (archive));
+            log_error ("error writing to archive %s", archive_error_string (archive));
             status = DISIR_STATUS_FS_ERROR;
             goto out;
         }
@@ -227,7 +227,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
 
     if (archive_write_finish_entry (archive) != ARCHIVE_OK)
     {
-        log_error ("could not finish archive write entry %s", archive_errno (archive));
+        log_error ("could not finish archive write entry %s", archive_error_string (archive));
         status = DISIR_STATUS_FS_ERROR;
         goto out;
     }
@@ -402,7 +402,7 @@ write_archive_metadata_toml (struct disir_archive *archive)
     if (entry == NULL)
     {
         log_debug (5, "error creating new archive entry: %s",
-                       archive_errno (archive->da_archive));
+                       archive_error_string (archive->da_archive));
         return DISIR_STATUS_NO_MEMORY;
     }
 
@@ -460,7 +460,7 @@ dx_archive_metadata_write (struct disir_archive *archive)
         if (entry == NULL)
         {
             log_error ("error creating new archive entry: %s",
-                        archive_errno (archive->da_archive));
+                        archive_error_string (archive->da_archive));
             return DISIR_STATUS_NO_MEMORY;
         }
 
@@ -474,7 +474,7 @@ dx_archive_metadata_write (struct disir_archive *archive)
         if (archive_write_data (archive->da_archive, str.c_str(), str.size()) < 0)
         {
             log_error ("error writing archive metadata.toml: %s",
-                        archive_errno (archive->da_archive));
+                        archive_error_string (archive->da_archive));
             status = DISIR_STATUS_FS_ERROR;
             goto error;
         }
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 30efbff..11e3893 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -69,7 +69,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
@@ -153,7 +153,7 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
     }
     else
     {
-        disir_error_set (instance, "No plugin in group '%s' available: '%s'.", group_id);
+        disir_error_set (instance, "No plugin in group '%s' available.", group_id);
         status = DISIR_STATUS_NOT_EXIST;
     }
 
-- 
2.43.0


From e9f5b3ae873c7be9ef882882ace69f29a207d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:19 +0000
Subject: [PATCH 088/133] fix: a query finds an entry held by any plugin of the
 group

---
 lib/disir_config.c | 19 ++++++++++++-------
 lib/disir_mold.c   | 17 +++++++++++------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 2453115..67fe328 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -378,19 +378,24 @@ disir_config_query (struct disir_instance *instance, const char *group_id,
         }
 
         plugin = entry;
-    }));
-
-    if (plugin)
-    {
-        // QUESTION: Should this abstraction check if there is a mold available before
-        // issuing the config query? Or handle it individually in the plugins?
         status = plugin->pi_plugin.dp_config_query (instance, &plugin->pi_plugin,
                                                     entry_id, entry_internal);
-        if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
+        if (status == DISIR_STATUS_EXISTS)
+        {
+            // This plugin superseeds the ones registered after it
+            break;
+        }
+        if (status != DISIR_STATUS_NOT_EXIST)
         {
             log_warn ("Plugin '%s' config_query failed with status: %s",
                       plugin->pi_io_id, disir_status_string (status));
         }
+    }));
+
+    if (plugin)
+    {
+        // QUESTION: Should this abstraction check if there is a mold available before
+        // issuing the config query? Or handle it individually in the plugins?
         if (status == DISIR_STATUS_NOT_EXIST)
         {
             disir_error_set (instance, "entry_id '%s' in group '%s' does not exist",
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 11e3893..934ed2f 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -296,17 +296,22 @@ disir_mold_query (struct disir_instance *instance, const char *group_id,
         }
 
         plugin = entry;
-    }));
-
-    if (plugin)
-    {
         status = plugin->pi_plugin.dp_mold_query (instance, &plugin->pi_plugin,
                                                   entry_id, entry_internal);
-        if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
+        if (status == DISIR_STATUS_EXISTS)
+        {
+            // This plugin superseeds the ones registered after it
+            break;
+        }
+        if (status != DISIR_STATUS_NOT_EXIST)
         {
-            log_warn ("Plugin '%s' config_query failed with status: %s",
+            log_warn ("Plugin '%s' mold_query failed with status: %s",
                       plugin->pi_io_id, disir_status_string (status));
         }
+    }));
+
+    if (plugin)
+    {
         if (status == DISIR_STATUS_NOT_EXIST)
         {
             disir_error_set (instance, "entry_id '%s' in group '%s' does not exist",
-- 
2.43.0


From 7b8f9fa4bfe89aa432e63170f9b665ace4d48888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:57 +0000
Subject: [PATCH 089/133] fix: an operation a plugin does not implement, or a
 missing group_id, is refused

---
 lib/disir_config.c | 4 ++--
 lib/disir_mold.c   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 67fe328..935f225 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -214,7 +214,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
 
     if (plugin)
     {
-        if (plugin->pi_plugin.dp_config_write)
+        if (plugin->pi_plugin.dp_config_remove)
         {
             status = plugin->pi_plugin.dp_config_remove (instance, &plugin->pi_plugin,
                                                          entry_id);
@@ -222,7 +222,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
         else
         {
             status = DISIR_STATUS_NO_CAN_DO;
-            log_debug (1, "Plugin '%s' does not implement config_write", plugin->pi_io_id);
+            log_debug (1, "Plugin '%s' does not implement config_remove", plugin->pi_io_id);
         }
     }
     else
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 934ed2f..671ef8d 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -32,7 +32,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
 
     plugin = NULL;
 
-    if (instance == NULL || entry_id == NULL || mold == NULL)
+    if (instance == NULL || group_id == NULL || entry_id == NULL || mold == NULL)
     {
         log_debug (0, "invoked with NULL argument(s)." \
                       " instance (%p), group_id (%p), entry_id (%p), mold (%p)",
@@ -113,7 +113,7 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
 
     plugin = NULL;
 
-    if (instance == NULL || entry_id == NULL || mold == NULL)
+    if (instance == NULL || group_id == NULL || entry_id == NULL || mold == NULL)
     {
         log_debug (0, "invoked with NULL argument(s). instance (%p), entry_id (%p), mold (%p)",
                       instance, entry_id, mold);
-- 
2.43.0


From c42fcade49c1347b4ba722c38703f021162974b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 090/133] fix: fslib: a plugin without molds covers no entry
 instead of crashing

---
 lib/fslib/query.cc | 14 ++++++++++++--
 lib/fslib/read.c   |  5 +++++
 lib/fslib/write.c  | 14 ++++++++++++--
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 95fb0ba..4d3b0e4 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -112,7 +112,12 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
             {
                 //! Check if we have a mold entry for this directory entry
                 std::string entry_name(name, 0, name.size() - suffix.size());
-                status = plugin->dp_mold_query (instance, plugin, entry_name.c_str(), &mold_entry);
+                status = DISIR_STATUS_NOT_EXIST;
+                if (plugin->dp_mold_query != NULL)
+                {
+                    status = plugin->dp_mold_query (instance, plugin,
+                                                    entry_name.c_str(), &mold_entry);
+                }
                 if (status != DISIR_STATUS_EXISTS)
                 {
                     // We dont really care what happened here...
@@ -334,7 +339,12 @@ fslib_plugin_config_query (struct disir_instance *instance, struct disir_registe
     char filepath[PATH_MAX];
     struct disir_entry *ret = NULL;
 
-    status = plugin->dp_mold_query (instance, plugin, entry_id, &ret);
+    // A plugin without molds covers no entry
+    status = DISIR_STATUS_NOT_EXIST;
+    if (plugin->dp_mold_query != NULL)
+    {
+        status = plugin->dp_mold_query (instance, plugin, entry_id, &ret);
+    }
     if (status == DISIR_STATUS_NOT_EXIST)
     {
         disir_error_set (instance, "there exists no mold for entry %s", entry_id);
diff --git a/lib/fslib/read.c b/lib/fslib/read.c
index feaae82..dbff87b 100644
--- a/lib/fslib/read.c
+++ b/lib/fslib/read.c
@@ -36,6 +36,11 @@ fslib_plugin_config_read (struct disir_instance *instance,
     // Locate mold from plugin
     if (mold == NULL)
     {
+        if (plugin->dp_mold_read == NULL)
+        {
+            disir_error_set (instance, "there exists no mold for entry %s", entry_id);
+            return DISIR_STATUS_MOLD_MISSING;
+        }
         status = plugin->dp_mold_read (instance, plugin, entry_id, &resolved_mold);
         if (status != DISIR_STATUS_OK)
         {
diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index 3f427eb..999f170 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -103,7 +103,12 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
     char filepath[PATH_MAX];
     struct stat statbuf;
 
-    status = plugin->dp_mold_query (instance, plugin, entry_id, NULL);
+    // A plugin without molds covers no entry
+    status = DISIR_STATUS_NOT_EXIST;
+    if (plugin->dp_mold_query != NULL)
+    {
+        status = plugin->dp_mold_query (instance, plugin, entry_id, NULL);
+    }
     if (status == DISIR_STATUS_NOT_EXIST)
     {
         disir_error_set (instance, "there exists no mold for entry %s", entry_id);
@@ -288,7 +293,12 @@ fslib_plugin_config_remove (struct disir_instance *instance,
     char filepath[PATH_MAX];
     struct stat statbuf;
 
-    status = plugin->dp_mold_query (instance, plugin, entry_id, NULL);
+    // A plugin without molds covers no entry
+    status = DISIR_STATUS_NOT_EXIST;
+    if (plugin->dp_mold_query != NULL)
+    {
+        status = plugin->dp_mold_query (instance, plugin, entry_id, NULL);
+    }
     if (status == DISIR_STATUS_NOT_EXIST)
     {
         disir_error_set (instance, "there exists no mold for entry %s", entry_id);
-- 
2.43.0


From aa3ad558d377249d67f4ef3e4aee8eb644884fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 091/133] fix: fslib: a mold is not leaked when its
 configuration cannot be read

---
 lib/fslib/read.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/fslib/read.c b/lib/fslib/read.c
index dbff87b..ee389c1 100644
--- a/lib/fslib/read.c
+++ b/lib/fslib/read.c
@@ -18,6 +18,8 @@ fslib_plugin_config_read (struct disir_instance *instance,
     struct stat statbuf;
     struct disir_mold *resolved_mold;
 
+    resolved_mold = NULL;
+
     status = fslib_config_resolve_filepath (instance, plugin, entry_id, filepath);
     if (status != DISIR_STATUS_OK)
     {
@@ -50,6 +52,10 @@ fslib_plugin_config_read (struct disir_instance *instance,
                 status = DISIR_STATUS_MOLD_MISSING;
                 disir_error_set (instance, "mold is not valid. Cannot load config.");
             }
+            if (resolved_mold)
+            {
+                disir_mold_finished (&resolved_mold);
+            }
             return status;
         }
     }
@@ -66,6 +72,10 @@ fslib_plugin_config_read (struct disir_instance *instance,
         // TODO: Check errno and set appropriate error
         // TODO: Use threadsafe strerror, or refactor entirely
         disir_error_set (instance, "opening for reading %s: %s", filepath, strerror (errno));
+        if (mold == NULL)
+        {
+            disir_mold_finished (&resolved_mold);
+        }
         return DISIR_STATUS_FS_ERROR;
     }
 
-- 
2.43.0


From 6886677866873c79ad9e439614c9e29246040613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 092/133] fix: fslib_mkdir_p returns OK when it created every
 directory

---
 lib/fslib/mkdir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fslib/mkdir.c b/lib/fslib/mkdir.c
index ad6a2bd..345a4fe 100644
--- a/lib/fslib/mkdir.c
+++ b/lib/fslib/mkdir.c
@@ -36,6 +36,7 @@ fslib_mkdir_p (struct disir_instance *instance, const char *path)
     char *p;
 
     errno = 0;
+    status = DISIR_STATUS_OK;
 
     // Copy a mutable string
     if (len > sizeof(_path)-1)
-- 
2.43.0


From 063ae9be8a41e8ee2fd5d0930cf456a271b60896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 093/133] fix: archive: entries are ordered strictly by
 backend, group and entry

---
 lib/include/archive_private.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/include/archive_private.h b/lib/include/archive_private.h
index 70c21b2..b62b20a 100644
--- a/lib/include/archive_private.h
+++ b/lib/include/archive_private.h
@@ -4,6 +4,7 @@
 #include "tinytoml/toml.h"
 #include <disir/archive.h>
 #include <set>
+#include <tuple>
 #include <libgen.h>
 
 //! Convenience macros:
@@ -34,10 +35,10 @@ struct disir_archive_entry
 // compare function for disir_archive_entry
 struct cmp_entry
 {
-    bool operator()(const struct disir_archive_entry& a, const struct disir_archive_entry& b)
+    bool operator()(const struct disir_archive_entry& a, const struct disir_archive_entry& b) const
     {
-        return a.de_backend_id < b.de_backend_id || a.de_group_id < b.de_group_id ||
-               a.de_entry_id < b.de_entry_id;
+        return std::tie (a.de_backend_id, a.de_group_id, a.de_entry_id) <
+               std::tie (b.de_backend_id, b.de_group_id, b.de_entry_id);
     }
 };
 
-- 
2.43.0


From 6160b21a694bac66c2f1d5d897324c569d6b6bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 094/133] fix: archive: a group may have any name, it is no
 path into a toml document

---
 lib/disir_archive_util.cc | 2 +-
 lib/disir_export.cc       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 72a7f5c..e515382 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -427,7 +427,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
     for (const auto& group : groups.as<toml::Array>())
     {
         // Find group table in entries.toml
-        entries_group_table = entries_root.find (group.as<std::string>());
+        entries_group_table = entries_root.findChild (group.as<std::string>());
 
         if (entries_group_table == nullptr)
         {
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 7ffc0ef..3373d51 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -106,7 +106,7 @@ serialize_entry_index (struct disir_archive *archive, struct disir_config *confi
 
     plugin_entries = (*archive->da_entries)[plugin_name];
 
-    group_entries = plugin_entries->find (group_id);
+    group_entries = plugin_entries->findChild (group_id);
     if (group_entries == NULL)
     {
         group_entries = plugin_entries->setChild (group_id, toml::Table());
-- 
2.43.0


From 1631839036e99fd8e1a1b6f2ec54008b9e8a6670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 095/133] fix: archive: entries are written completely before
 they are appended, nothing is leaked

---
 lib/disir_export.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 3373d51..9fe4120 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -300,10 +300,15 @@ dx_archive_config_entries_write (struct disir_instance *instance, struct disir_a
         if (status != DISIR_STATUS_OK)
             goto out;
 
-        status = serialize_entry_index (archive, config, group_id,
-                                        current->de_entry_name, plugin->dp_name);
-        if (status != DISIR_STATUS_OK)
+        // The content must have reached the file before it is appended.
+        ret = fclose (entry_file);
+        entry_file = NULL;
+        if (ret != 0)
+        {
+            log_error ("unable to write temp config file: %s", strerror (errno));
+            status = DISIR_STATUS_FS_ERROR;
             goto out;
+        }
 
         snprintf (archive_entry_name, PATH_MAX, "%s/%s/%s",
                   plugin->dp_name, group_id, current->de_entry_name);
@@ -312,6 +317,11 @@ dx_archive_config_entries_write (struct disir_instance *instance, struct disir_a
         if (status != DISIR_STATUS_OK)
             goto out;
 
+        status = serialize_entry_index (archive, config, group_id,
+                                        current->de_entry_name, plugin->dp_name);
+        if (status != DISIR_STATUS_OK)
+            goto out;
+
         archive_entry.de_backend_id = plugin->dp_name;
         archive_entry.de_group_id = group_id;
         archive_entry.de_entry_id = current->de_entry_name;
@@ -338,6 +348,9 @@ out:
     if (entry_file)
         fclose (entry_file);
 
+    if (config)
+        disir_config_finished (&config);
+
     if (filepath[0] != '\0')
     {
         // Ignore failure condition
-- 
2.43.0


From 10b349061f2d477670a28f013b04058a70c70ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 096/133] fix: archive: an archive member whose header cannot
 be written is an error

---
 lib/disir_export.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 9fe4120..8a3e5c2 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -155,10 +155,10 @@ populate_archive_entry (struct archive *archive, struct archive_entry *entry,
     archive_entry_set_filetype (entry, AE_IFREG);
     archive_entry_set_perm (entry, 0644);
 
-    ret = archive_write_header (archive, entry) != ARCHIVE_OK;
+    ret = archive_write_header (archive, entry);
     if (ret != ARCHIVE_OK)
     {
-        if (ret == ARCHIVE_FATAL)
+        if (ret < ARCHIVE_WARN)
         {
             log_error ("error writing archive header: %s", archive_error_string (archive));
             return DISIR_STATUS_FS_ERROR;
-- 
2.43.0


From 113bfd64dce69cf3368ca0a0ab730af61184391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 097/133] fix: archive: an entry that is read or written in
 part is an error

---
 lib/disir_export.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 8a3e5c2..0ff1f0e 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -217,7 +217,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
         if (read == 0)
             break;
 
-        if (archive_write_data (archive, buf, read) < 0)
+        if (archive_write_data (archive, buf, read) != read)
         {
             log_error ("error writing to archive %s", archive_error_string (archive));
             status = DISIR_STATUS_FS_ERROR;
@@ -225,6 +225,13 @@ append_config (struct disir_instance *instance, struct archive *archive,
         }
     } while (1);
 
+    if (ferror (infile))
+    {
+        log_error ("unable to read %s", filepath);
+        status = DISIR_STATUS_FS_ERROR;
+        goto out;
+    }
+
     if (archive_write_finish_entry (archive) != ARCHIVE_OK)
     {
         log_error ("could not finish archive write entry %s", archive_error_string (archive));
-- 
2.43.0


From 2f12a8a9192760df69f8b55909db97a887f4dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 098/133] fix: archive: append neither loses nor dereferences
 what a failing plugin lists

---
 lib/disir_archive.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index e6b3811..331d034 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -216,6 +216,11 @@ disir_archive_append_entry (struct disir_instance *instance, struct disir_archiv
         return status;
     }
 
+    if (config_entry == NULL)
+    {
+        return DISIR_STATUS_NOT_EXIST;
+    }
+
     status = dx_archive_config_entries_write (instance, archive, plugin, config_entry, group_id);
     if (status != DISIR_STATUS_OK)
     {
@@ -267,6 +272,12 @@ disir_archive_append_group (struct disir_instance *instance, struct disir_archiv
     status = disir_config_entries (instance, group_id, &config_entries);
     if (status != DISIR_STATUS_OK)
     {
+        while (config_entries != NULL)
+        {
+            struct disir_entry *next = config_entries->next;
+            disir_entry_finished (&config_entries);
+            config_entries = next;
+        }
         return status;
     }
 
-- 
2.43.0


From ff15022897a126fd5d1510137fc49378a9c5f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 099/133] fix: archive: the temporary archive is created
 exclusively, concurrent exports picked the same file

---
 lib/disir_archive_util.cc | 60 +++++++++------------------------------
 1 file changed, 14 insertions(+), 46 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index e515382..dc393bb 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -215,31 +215,14 @@ out:
     return status;
 }
 
-//! STATIC FUNCTION
-static void
-dx_random_string (unsigned int length, unsigned int seed, char *dest)
-{
-    std::srand (std::time (0) + seed);
-
-    for (auto i = 0u ; i < length; i++)
-    {
-        *(dest++) = std::rand() % 25 + 97;
-    }
-
-    *dest = '\0';
-}
-
 //! INTERNAL API
 enum disir_status
 dx_archive_open_write (struct disir_archive *archive)
 {
     enum disir_status status;
-    char temp_archive_path[PATH_MAX];
-    char random_suffix[20];
+    char temp_archive_path[] = "/tmp/arc.XXXXXX";
     struct archive *ar;
-    struct stat st;
-    int ret;
-    int retry_count = 1;
+    int fd;
 
     if (archive == NULL)
     {
@@ -270,37 +253,21 @@ dx_archive_open_write (struct disir_archive *archive)
         goto out;
     }
 
-    // Seed until temp file path is unique
-    while (retry_count <= 100)
+    // The file is created here, so that no other archive can pick the same path.
+    fd = mkstemp (temp_archive_path);
+    if (fd < 0)
     {
-        dx_random_string (10, retry_count, random_suffix);
-        temp_archive_path[0] = '\0';
-        snprintf (temp_archive_path, PATH_MAX, "/tmp/arc.%s", random_suffix);
-
-        archive->da_temp_archive_path = strdup (temp_archive_path);
-        if (archive->da_temp_archive_path == NULL)
-        {
-            status = DISIR_STATUS_NO_MEMORY;
-        }
-        ret = stat (temp_archive_path, &st);
-        if (ret == 0)
-        {
-            log_debug (3, "archive with temp name '%s' already exists, retrying...",
-                          temp_archive_path);
-            status = DISIR_STATUS_FS_ERROR;
-        }
-        else
-        {
-            status = DISIR_STATUS_OK;
-            break;
-        }
-        retry_count++;
+        log_error ("unable to create temporary archive: %s", strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+        goto out;
     }
+    close (fd);
 
-    if (status != DISIR_STATUS_OK)
+    archive->da_temp_archive_path = strdup (temp_archive_path);
+    if (archive->da_temp_archive_path == NULL)
     {
-        log_error ("archive with temp name '%s' already exists, failed after %d retries",
-                   temp_archive_path, retry_count);
+        (void)remove (temp_archive_path);
+        status = DISIR_STATUS_NO_MEMORY;
         goto out;
     }
 
@@ -308,6 +275,7 @@ dx_archive_open_write (struct disir_archive *archive)
     {
         log_error ("unable open archive on path '%s': %s",
                    temp_archive_path, archive_error_string (ar));
+        (void)remove (temp_archive_path);
         status = DISIR_STATUS_FS_ERROR;
         goto out;
     }
-- 
2.43.0


From ebaf50f3c8120c9b1ac1d63f522b0431a6320718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 100/133] fix: archive: extraction takes regular files below
 its directory only, and reports what it cannot read or write

---
 lib/disir_archive_util.cc | 47 ++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index dc393bb..55e34ee 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -97,7 +97,6 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
     int64_t offset;
     size_t size;
     const void *buff;
-    char path[PATH_MAX];
 
     // Check for write permission
     status = dx_assert_write_permission (extract_path);
@@ -106,10 +105,9 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
         return status;
     }
 
+    // Only the content of regular files matters, and nothing may end up outside extract_path.
     flags = ARCHIVE_EXTRACT_TIME;
-    flags |= ARCHIVE_EXTRACT_PERM;
-    flags |= ARCHIVE_EXTRACT_ACL;
-    flags |= ARCHIVE_EXTRACT_FFLAGS;
+    flags |= ARCHIVE_EXTRACT_SECURE_NODOTDOT;
 
     write_archive = archive_write_disk_new();
     if (write_archive == NULL)
@@ -141,14 +139,43 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
 
     status = DISIR_STATUS_OK;
 
-    while (archive_read_next_header (read_archive, &entry) == ARCHIVE_OK)
+    while ((ret = archive_read_next_header (read_archive, &entry)) != ARCHIVE_EOF)
     {
-        snprintf(path, PATH_MAX, "%s/%s", extract_path, archive_entry_pathname (entry));
-        extract_content.insert (std::make_pair (archive_entry_pathname (entry), path));
-        archive_entry_set_pathname (entry, path);
+        if (ret < ARCHIVE_WARN)
+        {
+            log_error ("could not read archive: %s", archive_error_string (read_archive));
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
+        // Directories are created for the files in them.
+        if (archive_entry_filetype (entry) == AE_IFDIR)
+            continue;
+
+        if (archive_entry_pathname (entry) == NULL ||
+            archive_entry_filetype (entry) != AE_IFREG ||
+            archive_entry_hardlink (entry) != NULL)
+        {
+            log_error ("archive contains an entry that is not a regular file");
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
+        std::string name = archive_entry_pathname (entry);
+        std::string path = std::string (extract_path) + "/" + name;
+        extract_content.insert (std::make_pair (name, path));
+        archive_entry_set_pathname (entry, path.c_str());
+        archive_entry_set_perm (entry, 0600);
+
+        if (archive_write_header (write_archive, entry) < ARCHIVE_WARN)
+        {
+            log_error ("could not write '%s' to disk: %s", name.c_str(),
+                        archive_error_string (write_archive));
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
 
-        if (archive_write_header (write_archive, entry) == ARCHIVE_OK &&
-                                  archive_entry_size (entry) > 0)
+        if (archive_entry_size (entry) > 0)
         {
             while (1)
             {
-- 
2.43.0


From 0fd869f3040039be878b0e82536902596f6abe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 101/133] fix: archive: an index that holds other types than
 expected is refused, not an exception

---
 lib/disir_archive_util.cc | 12 ++++++++++++
 lib/disir_export.cc       |  9 +++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 55e34ee..cef2f7f 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -421,6 +421,12 @@ validate_archive_backend_entries (struct disir_archive *archive,
     // Iterate groups
     for (const auto& group : groups.as<toml::Array>())
     {
+        if (group.is<std::string>() == false)
+        {
+            log_error ("a group of backend '%s' is not a string", backend.c_str ());
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
+
         // Find group table in entries.toml
         entries_group_table = entries_root.findChild (group.as<std::string>());
 
@@ -440,6 +446,12 @@ validate_archive_backend_entries (struct disir_archive *archive,
         // Locate config on disk
         for (const auto& entry : entries_group_table->as<toml::Table>())
         {
+            if (entry.second.is<std::string>() == false)
+            {
+                log_error ("version of '%s' is not a string", entry.first.c_str());
+                return DISIR_STATUS_WRONG_VALUE_TYPE;
+            }
+
             config_entry = backend + "/" + group.as<std::string>() + "/" + entry.first;
             iter = extract_content.find (config_entry);
             if (iter == extract_content.end ())
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 0ff1f0e..c01dfdc 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -75,7 +75,12 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
             return DISIR_STATUS_NO_MEMORY;
         }
 
-        archive->da_entries->insert (std::make_pair (id->as<std::string>(), backend_entry));
+        if (archive->da_entries->insert (std::make_pair (id->as<std::string>(),
+                                                         backend_entry)).second == false)
+        {
+            // The backend is listed repeatedly
+            delete backend_entry;
+        }
     }
 
     return DISIR_STATUS_OK;
@@ -107,7 +112,7 @@ serialize_entry_index (struct disir_archive *archive, struct disir_config *confi
     plugin_entries = (*archive->da_entries)[plugin_name];
 
     group_entries = plugin_entries->findChild (group_id);
-    if (group_entries == NULL)
+    if (group_entries == NULL || group_entries->is<toml::Table>() == false)
     {
         group_entries = plugin_entries->setChild (group_id, toml::Table());
     }
-- 
2.43.0


From f215699ee1ad6f41245612121254c8d586b17aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 102/133] fix: archive: only the index files themselves are
 left out when an archive is extended

---
 lib/disir_export.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index c01dfdc..8a1930a 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -530,6 +530,7 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
 {
     enum disir_status status;
     std::map<std::string, std::string> extract_content;
+    std::set<std::string> index_files;
     struct disir_archive *write_archive = NULL;
     char *tmp_dir_name = NULL;
     const char *ext = NULL;
@@ -587,14 +588,14 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
     if (status != DISIR_STATUS_OK)
         goto out;
 
+    for (const auto& kv : *write_archive->da_entries)
+        index_files.insert (kv.first + "/entries.toml");
+
     // Copy content
     for (const auto& entry : extract_content)
     {
         // Ignore metadata files, they will be re-written in finalize.
-        if (entry.first.find ("entries.toml") != std::string::npos)
-            continue;
-
-        if (entry.first.find ("metadata.toml") != std::string::npos)
+        if (entry.first == METADATA_FILENAME || index_files.count (entry.first))
             continue;
 
         status = append_config (instance, write_archive->da_archive, entry.second.c_str(),
-- 
2.43.0


From 3803db73391e882cc14c9183c8de1638901bb714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 103/133] fix: import: a long message does not overflow its
 buffer

---
 lib/disir_import.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 0c1b01f..eb0a871 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -36,10 +36,8 @@ import_info_set (struct disir_import_entry *entry, const char *message, ...)
     msgsize = vsnprintf (buf, 1000, message, args);
     va_end (args);
 
-    entry->ie_info = (char *)malloc (sizeof (char) * msgsize + 1);
-    buf[msgsize] = '\0';
-
-    strcpy (entry->ie_info, buf);
+    // The message is cut short to what fits the buffer
+    entry->ie_info = msgsize < 0 ? NULL : strdup (buf);
 }
 
 //! STATIC FUNCTION
-- 
2.43.0


From dc40c5fd61cf10c6559e9e781b72b08adba50d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 104/133] fix: import: an invalid mold is not leaked

---
 lib/disir_import.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index eb0a871..781c50c 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -240,6 +240,8 @@ dx_resolve_config_import_status (struct disir_instance *instance, const char *co
     if (status != DISIR_STATUS_OK)
     {
         // logged and error set
+        if (mold)
+            disir_mold_finished (&mold);
         return DISIR_STATUS_NO_CAN_DO;
     }
 
-- 
2.43.0


From 0d98aa7456c5bb7c20dee99d86ca0ede963359cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 105/133] fix: import: destroying an import without entries
 stays within its array

---
 lib/disir_import.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 781c50c..f683660 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -656,16 +656,13 @@ dx_import_destroy (struct disir_import *entry)
     if (entry == NULL)
         return DISIR_STATUS_OK;
 
-    i = entry->di_num_entries - 1;
-
     if (entry->di_entries)
     {
-        do
+        for (i = 0; i < entry->di_num_entries; i++)
         {
             if (entry->di_entries[i] != NULL)
                 dx_import_entry_destroy (entry->di_entries[i]);
         }
-        while (i--);
 
         free (entry->di_entries);
     }
-- 
2.43.0


From a377985be9ebfba2bb13ba492d1e5f1718bd0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 106/133] fix: import: discarding an import does not leave a
 dangling pointer behind

---
 lib/disir_import.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index f683660..ffb45b0 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -535,7 +535,9 @@ disir_import_finalize (struct disir_instance *instance, enum disir_import_option
     {
     case DISIR_IMPORT_DISCARD:
     {
-        return dx_import_destroy (*import);
+        status = dx_import_destroy (*import);
+        *import = NULL;
+        return status;
     }
     case DISIR_IMPORT_DO:
     {
-- 
2.43.0


From 7d189ec4fb26f30ce38a20c78d733e8336da183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 107/133] fix: import: the entry that makes an import fail is
 not leaked

---
 lib/disir_archive.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index 331d034..896ee3f 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -96,6 +96,7 @@ archive_import_config_entries (struct disir_instance *instance,
             status != DISIR_STATUS_CONFIG_INVALID &&
             status != DISIR_STATUS_CONFLICTING_SEMVER)
         {
+            dx_import_entry_destroy (entry);
             goto error;
         }
 
-- 
2.43.0


From 05ec4efde5e21a5c2a8acb9e90810f044f2187e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 108/133] fix: import: one entry that cannot be read does not
 keep the others from being imported

---
 lib/disir_import.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index ffb45b0..fd7ffd9 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -269,6 +269,12 @@ dx_resolve_config_import_status (struct disir_instance *instance, const char *co
         {
             import_info_set (import, "group does implement support for import");
         }
+        // Any other reason keeps this entry from being imported, not all of the archive
+        else
+        {
+            import_info_set (import, "archive entry cannot be read");
+            status = DISIR_STATUS_NO_CAN_DO;
+        }
         goto out;
     }
 
@@ -279,6 +285,10 @@ dx_resolve_config_import_status (struct disir_instance *instance, const char *co
         status != DISIR_STATUS_NOT_EXIST)
     {
         import_info_set (import, "archive entry cannot be imported");
+        if (status != DISIR_STATUS_CONFIG_INVALID)
+        {
+            status = DISIR_STATUS_NO_CAN_DO;
+        }
     }
     // If equivalent config does not exist on the system
     if (status == DISIR_STATUS_NOT_EXIST)
-- 
2.43.0


From b0e1418a8bfb8b7a0822901025f06537c909772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 109/133] fix: archive: an empty archive path is refused
 instead of read in front of

---
 lib/disir_archive.cc | 2 +-
 lib/disir_export.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index 896ee3f..ec290a1 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -355,7 +355,7 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
     log_info("Finalizing archive to archive_path (%s)", archive_path);
 
     // Make sure archive path is not a directory
-    if (archive_path && archive_path[strlen (archive_path)-1] == '/')
+    if (archive_path && (archive_path[0] == '\0' || archive_path[strlen (archive_path)-1] == '/'))
     {
         disir_error_set (instance, "invalid archive path: '%s' is a directory", archive_path);
         return DISIR_STATUS_INVALID_ARGUMENT;
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 8a1930a..9a25cb1 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -536,7 +536,7 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
     const char *ext = NULL;
 
     // Make sure archive path is not a directory
-    if (archive_path[strlen(archive_path)-1] == '/')
+    if (archive_path[0] == '\0' || archive_path[strlen(archive_path)-1] == '/')
     {
         disir_error_set (instance, "invalid archive path: input path is a directory");
         return DISIR_STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From b73c6b2dc4d860c7f8dc023677018c06cf9c5285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 110/133] fix: archive: finalize accepts a path in the current
 directory, and one of any length

---
 lib/disir_archive.cc | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index ec290a1..5a61b33 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -298,32 +298,18 @@ disir_archive_append_group (struct disir_instance *instance, struct disir_archiv
 
 //! STATIC FUNCTION
 static enum disir_status
-get_dirname (const char *archive_path, char *dirpath)
+get_dirname (const char *archive_path, std::string& dirpath)
 {
-    enum disir_status status;
-    char *temp_path = NULL;
-    char *temp_dirname;
-
-    status = DISIR_STATUS_OK;
-
-    temp_path = strdup (archive_path);
+    char *temp_path = strdup (archive_path);
     if (temp_path == NULL)
     {
         return DISIR_STATUS_NO_MEMORY;
     }
 
-    temp_dirname = dirname (temp_path);
-
-    if (strcmp (temp_dirname, ".") == 0)
-    {
-        log_error ("cannot format a directory path of given filepath '%s'", archive_path);
-        status = DISIR_STATUS_FS_ERROR;
-    }
-
-    strcpy (dirpath, temp_dirname);
+    dirpath = dirname (temp_path);
     free (temp_path);
 
-    return status;
+    return DISIR_STATUS_OK;
 }
 
 //! PUBLIC API
@@ -335,7 +321,7 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
     struct disir_archive *ar;
     int ret;
     struct stat st;
-    char extract_folder_path[4096];
+    std::string extract_folder_path;
 
     if (instance == NULL || archive == NULL)
     {
@@ -371,10 +357,11 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
         }
 
         // Assert that we have write permission in directory
-        status = dx_assert_write_permission (extract_folder_path);
+        status = dx_assert_write_permission (extract_folder_path.c_str());
         if (status != DISIR_STATUS_OK)
         {
-            disir_error_set (instance, "unable to write to path: '%s'", extract_folder_path);
+            disir_error_set (instance, "unable to write to path: '%s'",
+                             extract_folder_path.c_str());
             return status;
         }
     }
-- 
2.43.0


From 65f6e72fc66c4dfb787f5964efe18831e5fa92ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 111/133] fix: archive: long archive paths do not overflow

---
 lib/disir_archive_util.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index cef2f7f..45b792c 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -759,19 +759,19 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
 {
     enum disir_status status;
     int ret;
-    char backup_path[PATH_MAX];
-    char archive_path_with_extension[4096];
+    std::string path_with_extension = new_archive_path;
+    std::string backup;
+    const char *archive_path_with_extension;
+    const char *backup_path;
     const char *ext = NULL;
 
-    strcpy (archive_path_with_extension, new_archive_path);
-    backup_path[0] = '\0';
-
     // Append extension if it doesn't already exists
     ext = strrchr (new_archive_path, '.');
     if (ext == NULL || strcmp (ext, ".disir") != 0)
     {
-        strcat (archive_path_with_extension, ".disir");
+        path_with_extension += ".disir";
     }
+    archive_path_with_extension = path_with_extension.c_str();
 
     // CASE 1: Finalizing a new archive to given location
     if (existing_archive_path == NULL)
@@ -810,8 +810,8 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
         (strcmp (existing_archive_path, archive_path_with_extension) == 0))
     {
         // Rename existing archive with backup extension.
-        strncat (backup_path, existing_archive_path, PATH_MAX-1);
-        strncat (backup_path, ".backup", PATH_MAX-1);
+        backup = std::string (existing_archive_path) + ".backup";
+        backup_path = backup.c_str();
         ret = rename (existing_archive_path, backup_path);
         if (ret != 0)
         {
-- 
2.43.0


From 3136f9426bdbbfa8b60c8b8545441249d484df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 112/133] fix: archive: an archive that is not written
 completely is an error and replaces nothing

---
 lib/disir_archive_util.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 45b792c..4837ab4 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -741,13 +741,21 @@ copy_file (const char *from, const char *to)
         return DISIR_STATUS_FS_ERROR;
     }
 
-    std::ofstream destination (to, std::ios::binary);
+    // Replace the destination only when the copy is complete
+    std::string part = std::string (to) + ".part";
+    std::ofstream destination (part, std::ios::binary);
     if (destination.is_open() == false)
     {
         return DISIR_STATUS_FS_ERROR;
     }
 
     destination << source.rdbuf();
+    destination.close();
+    if (source.bad() || destination.fail() || rename (part.c_str(), to) != 0)
+    {
+        (void)remove (part.c_str());
+        return DISIR_STATUS_FS_ERROR;
+    }
 
     return DISIR_STATUS_OK;
 }
-- 
2.43.0


From 76baf3a5e1490e2095bd14ae935a6cb7acd96d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 113/133] fix: archive: an archive that is given up is closed

---
 lib/disir_archive.cc      | 1 +
 lib/disir_archive_util.cc | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index 5a61b33..533d4ea 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -398,6 +398,7 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
                         archive_error_string (ar->da_archive));
             status = DISIR_STATUS_FS_ERROR;
         }
+        ar->da_archive = NULL;
 
         if (status != DISIR_STATUS_OK)
         {
diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 4837ab4..b4af6b7 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -643,6 +643,9 @@ dx_archive_destroy (struct disir_archive *ar)
     struct stat st;
     int ret;
 
+    if (ar && ar->da_archive)
+        archive_write_free (ar->da_archive);
+
     // Remove temp files
     if (ar && ar->da_extract_folder_path && stat (ar->da_extract_folder_path, &st) == 0)
     {
-- 
2.43.0


From a98efe4b22ad28c9cbe627c32f6806b09691126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 114/133] fix: archive: extending an archive under another
 spelling of its path does not remove it

---
 lib/disir_archive_util.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index b4af6b7..b62734f 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -807,6 +807,16 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
             return DISIR_STATUS_FS_ERROR;
         }
 
+        // The same location, spelled differently: the existing archive is already replaced
+        struct stat existing_stat;
+        struct stat new_stat;
+        if (stat (existing_archive_path, &existing_stat) == 0 &&
+            stat (archive_path_with_extension, &new_stat) == 0 &&
+            existing_stat.st_dev == new_stat.st_dev && existing_stat.st_ino == new_stat.st_ino)
+        {
+            return DISIR_STATUS_OK;
+        }
+
         ret = remove (existing_archive_path);
         if (ret != 0)
         {
-- 
2.43.0


From dd47647a9dab108853cd511afa8448f6818633b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 115/133] fix: archive: an archive whose temporary files cannot
 be removed is not leaked

---
 lib/disir_archive_util.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index b62734f..d0e6c6d 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -640,6 +640,7 @@ remove_folder_and_content (const char *fpath, const struct stat *sb,
 enum disir_status
 dx_archive_destroy (struct disir_archive *ar)
 {
+    enum disir_status status = DISIR_STATUS_OK;
     struct stat st;
     int ret;
 
@@ -654,8 +655,8 @@ dx_archive_destroy (struct disir_archive *ar)
         ret = nftw (remove_path, remove_folder_and_content, 64, FTW_DEPTH | FTW_PHYS);
         if (ret != 0)
         {
-            // Already logged
-            return DISIR_STATUS_FS_ERROR;
+            // Already logged. What the archive holds in memory is released nevertheless.
+            status = DISIR_STATUS_FS_ERROR;
         }
     }
 
@@ -681,7 +682,7 @@ dx_archive_destroy (struct disir_archive *ar)
     if (ar)
         free (ar);
 
-    return DISIR_STATUS_OK;
+    return status;
 }
 
 //! INTERNAL API
-- 
2.43.0


From f32dd0284c6cc5a155b36452aa3d8992c2cc87f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 116/133] fix: archive: an entry named like the directory of
 another one can be extracted

---
 lib/disir_archive_util.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index d0e6c6d..5f9d2fc 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -97,6 +97,7 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
     int64_t offset;
     size_t size;
     const void *buff;
+    unsigned long extracted = 0;
 
     // Check for write permission
     status = dx_assert_write_permission (extract_path);
@@ -162,8 +163,9 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
         }
 
         std::string name = archive_entry_pathname (entry);
-        std::string path = std::string (extract_path) + "/" + name;
-        extract_content.insert (std::make_pair (name, path));
+        // Files are numbered: an entry may be named like the directory another one is in.
+        std::string path = std::string (extract_path) + "/" + std::to_string (extracted++);
+        extract_content[name] = path;
         archive_entry_set_pathname (entry, path.c_str());
         archive_entry_set_perm (entry, 0600);
 
-- 
2.43.0


From ce05f330bff3ad163b3cecf7172cd32136b2ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 117/133] fix: archive: extending an archive keeps the entries
 it lists, not whatever else its files hold

---
 lib/disir_export.cc | 60 +++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 9a25cb1..5cd8018 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -46,41 +46,25 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
     toml::Value& root = pr.value;
     (*archive->da_metadata) = root;
 
-    const toml::Value* backends = root.find (ATTRIBUTE_KEY_BACKEND);
-    for (const auto& entry : backends->as<toml::Array>())
+    // The index holds the entries of the archive, and nothing else its index files may have.
+    for (const auto& entry : *archive->da_config_entries)
     {
-        auto id = entry.find (ATTRIBUTE_KEY_ID);
-
-        auto iter = extract_content.find (id->as<std::string>() + "/entries.toml");
-        if (iter == extract_content.end())
-        {
-            log_error ("cannot find entries.toml for backend '%s' in map", id->as<std::string>().c_str ());
-            return DISIR_STATUS_NOT_EXIST;
-        }
-
-        auto entries_toml_filepath = iter->second;
-
-        std::ifstream entries_toml (entries_toml_filepath.c_str());
-        toml::ParseResult pr = toml::parse (entries_toml);
-
-        if (!pr.valid())
+        auto& backend_entries = (*archive->da_entries)[entry.de_backend_id];
+        if (backend_entries == nullptr)
         {
-            log_error ("unable to parse entries.toml in backend '%s'", id->as<std::string>().c_str ());
-            return DISIR_STATUS_FS_ERROR;
-        }
-
-        auto backend_entry = new (std::nothrow) toml::Value (pr.value);
-        if (backend_entry == nullptr)
-        {
-            return DISIR_STATUS_NO_MEMORY;
+            backend_entries = new (std::nothrow) toml::Value (toml::Table());
+            if (backend_entries == nullptr)
+            {
+                return DISIR_STATUS_NO_MEMORY;
+            }
         }
 
-        if (archive->da_entries->insert (std::make_pair (id->as<std::string>(),
-                                                         backend_entry)).second == false)
+        auto group_entries = backend_entries->findChild (entry.de_group_id);
+        if (group_entries == nullptr)
         {
-            // The backend is listed repeatedly
-            delete backend_entry;
+            group_entries = backend_entries->setChild (entry.de_group_id, toml::Table());
         }
+        group_entries->setChild (entry.de_entry_id, entry.de_version);
     }
 
     return DISIR_STATUS_OK;
@@ -530,7 +514,6 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
 {
     enum disir_status status;
     std::map<std::string, std::string> extract_content;
-    std::set<std::string> index_files;
     struct disir_archive *write_archive = NULL;
     char *tmp_dir_name = NULL;
     const char *ext = NULL;
@@ -588,18 +571,15 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
     if (status != DISIR_STATUS_OK)
         goto out;
 
-    for (const auto& kv : *write_archive->da_entries)
-        index_files.insert (kv.first + "/entries.toml");
-
-    // Copy content
-    for (const auto& entry : extract_content)
+    // Copy the entries. Metadata files will be re-written in finalize, and
+    // what the archive does not list is not part of it.
+    for (const auto& entry : *write_archive->da_config_entries)
     {
-        // Ignore metadata files, they will be re-written in finalize.
-        if (entry.first == METADATA_FILENAME || index_files.count (entry.first))
-            continue;
+        const std::string name = entry.de_backend_id + "/" + entry.de_group_id + "/" +
+                                 entry.de_entry_id;
 
-        status = append_config (instance, write_archive->da_archive, entry.second.c_str(),
-                                                                     entry.first.c_str());
+        status = append_config (instance, write_archive->da_archive, entry.de_filepath.c_str(),
+                                                                     name.c_str());
         if (status != DISIR_STATUS_OK)
             goto out;
     }
-- 
2.43.0


From 036db1a281261f91a0e80d267a662ee794352147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 118/133] fix: instance: the strings a plugin is registered
 with are kept whole, however long

---
 lib/disir.c        | 6 +++---
 lib/disir_plugin.c | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index de24c65..f167196 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -55,9 +55,9 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
 
     // Populate the plugin object
     if (config_base_id)
-        plugin.dp_config_base_id = strndup (config_base_id, 512);
+        plugin.dp_config_base_id = strdup (config_base_id);
     if (mold_base_id)
-        plugin.dp_mold_base_id = strndup (mold_base_id, 512);
+        plugin.dp_mold_base_id = strdup (mold_base_id);
 
     status = dio_reg (instance, &plugin);
     if (status != DISIR_STATUS_OK)
@@ -87,7 +87,7 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
         goto error;
     }
     internal->pi_dl_handler = handle;
-    internal->pi_filepath = strndup (plugin_filepath, 512);
+    internal->pi_filepath = strdup (plugin_filepath);
 
     return DISIR_STATUS_OK;
 error:
diff --git a/lib/disir_plugin.c b/lib/disir_plugin.c
index 5ea240f..9cd98e7 100644
--- a/lib/disir_plugin.c
+++ b/lib/disir_plugin.c
@@ -8,7 +8,7 @@
 #include "mqueue.h"
 
 #define PLUGIN_STRING_MEMBER_COPY(name) { do {              \
-    internal->pi_plugin.name = strndup (plugin->name, 512); \
+    internal->pi_plugin.name = strdup (plugin->name);        \
     if (internal->pi_plugin.name == NULL)                   \
     {                                                       \
         status = DISIR_STATUS_NO_MEMORY;                    \
-- 
2.43.0


From 5ad1cccb405f37c2d70c0c483884e978e16dbe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 119/133] fix: cli: generate replaces an entry of the top-level
 namespace only with --force

---
 cli/command_generate.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/command_generate.cc b/cli/command_generate.cc
index 367880c..00b7cd4 100644
--- a/cli/command_generate.cc
+++ b/cli/command_generate.cc
@@ -120,8 +120,8 @@ CommandGenerate::handle_command (std::vector<std::string> &args)
             // it is covered by a namespace mold
             // Either the entry is covered by the top-level namespace (if it exists)
             // or a subnamespace (which namespace_entry does not resolve
-            if ((root == NULL && namespaces.count ("/") == 1)
-                || (namespaces.count (namespace_entry) != 0 && configs.count (entry) == 0))
+            if (configs.count (entry) == 0
+                && namespaces.count (root == NULL ? "/" : namespace_entry) != 0)
             {
                 m_cli->verbose() << "Adding entry " << entry << " to available set."
                                  << " (namespace entry)" << std::endl;
-- 
2.43.0


From 25999ec1b7300fea3c5fa73046ab30e699a00cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 120/133] fix: cli: export leaves no temporary archive behind
 if its destination is refused

---
 cli/command_export.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/command_export.cc b/cli/command_export.cc
index a1db558..84e32e2 100644
--- a/cli/command_export.cc
+++ b/cli/command_export.cc
@@ -205,6 +205,10 @@ CommandExport::populate_archive (const char *path, const char *dest_path,
         if (error)
             std::cout << error << std::endl;
 
+        // The archive is still ours if its destination was refused
+        if (archive)
+            disir_archive_finalize (m_cli->disir(), NULL, &archive);
+
         return(1);
     }
 
-- 
2.43.0


From eee651fd0104d4e7200d576a7ad7af63f6423f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 121/133] fix: cli: import does not ask forever when its input
 has ended, nor reads beyond an answer

---
 cli/command_import.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index aaf1569..219984b 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -189,7 +189,10 @@ CommandImport::prompt_finalize_yes_no_from_user ()
     do
     {
         std::cout << "\ndo you wish to commit the above changes? (y)es or (n)o ? ";
-        read_stdin (opt, 3);
+        if (read_stdin (opt, 3) < 0)
+        {
+            return DISIR_IMPORT_DISCARD;
+        }
         switch (opt[0])
         {
         case 'y':
@@ -209,18 +212,21 @@ int
 CommandImport::read_stdin (char *opt, unsigned int length)
 {
     std::string input;
-    std::getline (std::cin, input);
 
-    if (input.length() > length)
+    std::fill_n (opt, length, '\0');
+    if (!std::getline (std::cin, input))
     {
-        return(1);
+        // There are no more answers to come
+        return(-1);
     }
 
-    for (auto i = 0u; i < length || i < input.length(); i++)
+    if (input.length() > length)
     {
-        opt[i] = input[i];
+        return(1);
     }
 
+    input.copy (opt, length);
+
     return 0;
 }
 
@@ -233,7 +239,12 @@ CommandImport::read_option (enum disir_import_option& option)
     {
         std::cout << "import entry [a,u,s,i,f,d,?]? ";
 
-        if (read_stdin (&opt, 1))
+        int ret = read_stdin (&opt, 1);
+        if (ret < 0)
+        {
+            return(1);
+        }
+        if (ret)
         {
             opt = 'h';
         }
-- 
2.43.0


From 41b9b2ab3c878662bd7f65b2146ebe2c3fac6ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 122/133] fix: cli: dump prints values in full, however long

---
 cli/command_dump.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cli/command_dump.cc b/cli/command_dump.cc
index b829201..27f6a36 100644
--- a/cli/command_dump.cc
+++ b/cli/command_dump.cc
@@ -2,6 +2,7 @@
 #include <algorithm>
 #include <memory>
 #include <set>
+#include <vector>
 
 #include <disir/disir.h>
 
@@ -135,16 +136,22 @@ CommandDump::output_config_context (struct disir_context *context, int indent)
 
         if (dc_context_type (element) == DISIR_CONTEXT_KEYVAL)
         {
-            char buffer[1024];
-            int32_t output_size;
-            status = dc_get_value (element, 1024, buffer, &output_size);
+            std::vector<char> buffer (1024);
+            int32_t output_size = 0;
+            status = dc_get_value (element, buffer.size(), buffer.data(), &output_size);
+            if (status == DISIR_STATUS_OK && output_size >= (int32_t)buffer.size())
+            {
+                // The value is longer than that
+                buffer.resize (output_size + 1);
+                status = dc_get_value (element, buffer.size(), buffer.data(), &output_size);
+            }
             if (status != DISIR_STATUS_OK)
             {
                 std::cerr << "error getting value...";
             }
             else
             {
-                std::cout << buffer;
+                std::cout << buffer.data();
             }
 
             std::cout << std::endl;
-- 
2.43.0


From 6ae3efe3365f923548578c6381d447f201b08b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 123/133] fix: cli: import tells what happens to every entry,
 also if groups share its name

---
 cli/command_import.cc              | 8 ++++----
 include/disir/cli/command_import.h | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index 219984b..0819f20 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -564,7 +564,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
                << ") and be updated to " << "(" << mold_version_string << ")";
         }
 
-        m_entries[entry.ai_entry_id] = ss.str();
+        m_entries.emplace (entry.ai_entry_id, ss.str());
         break;
     }
     case DISIR_IMPORT_FORCE:
@@ -572,7 +572,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
         ss << "archive entry (" << entry.ai_version << ")"
            << " will overwrite system entry (" << system_entry_version << ")";
 
-        m_entries[entry.ai_entry_id] = ss.str();
+        m_entries.emplace (entry.ai_entry_id, ss.str());
         break;
     }
     case DISIR_IMPORT_DO:
@@ -580,7 +580,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
         ss << "archive entry " << "(" << entry.ai_version << ")"
            << " will be imported without conflicts";
 
-        m_entries[entry.ai_entry_id] = ss.str();
+        m_entries.emplace (entry.ai_entry_id, ss.str());
         break;
     }
     case DISIR_IMPORT_DISCARD:
@@ -588,7 +588,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
         ss << "archive entry " << "(" << entry.ai_version << ")"
            << " will be discarded";
 
-        m_entries[entry.ai_entry_id] = ss.str();
+        m_entries.emplace (entry.ai_entry_id, ss.str());
         break;
     }
     default:
diff --git a/include/disir/cli/command_import.h b/include/disir/cli/command_import.h
index 82e1bf9..2479a9f 100644
--- a/include/disir/cli/command_import.h
+++ b/include/disir/cli/command_import.h
@@ -87,7 +87,7 @@ namespace disir
                                          const char *system_entry_version,
                                          enum disir_import_option opt);
     private:
-        std::map<std::string, std::string> m_entries;
+        std::multimap<std::string, std::string> m_entries;
     };
 }
 
-- 
2.43.0


From c2099a0e0fe93bdc41f42a86a295ed63ba0cadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:56 +0000
Subject: [PATCH 124/133] fix: cli: import of an archive without entries does
 not read what is not there

---
 cli/command_import.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index 0819f20..5dce528 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -322,8 +322,8 @@ CommandImport::print_archive_entries (std::list<struct archive_entry_info>& info
                              return A.ai_group_id.length() < B.ai_group_id.length();
                          });
 
-    auto entry_id_len = longest_entry->ai_entry_id.length();
-    auto group_id_len = longest_group->ai_group_id.length();
+    size_t entry_id_len = longest_entry == info.end() ? 0 : longest_entry->ai_entry_id.length();
+    size_t group_id_len = longest_group == info.end() ? 0 : longest_group->ai_group_id.length();
 
     if (entry_id_len < strlen ("entry_id"))
     {
@@ -609,7 +609,7 @@ CommandImport::print_import_commit_effects ()
                              return A.first.length() < B.first.length();
                          });
 
-    auto indent = longest_entry->first.length();
+    size_t indent = longest_entry == m_entries.end() ? 0 : longest_entry->first.length();
 
     std::cout << "\nthese changes would be made as a result of import:\n" << std::endl;
     for (const auto& entry : m_entries)
-- 
2.43.0


From 09020d41afc03cc49a2ab922d4198994c1ecd147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 125/133] fix: cli: generate does not use a configuration that
 was not made

---
 cli/command_generate.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/command_generate.cc b/cli/command_generate.cc
index 00b7cd4..919d831 100644
--- a/cli/command_generate.cc
+++ b/cli/command_generate.cc
@@ -207,6 +207,10 @@ CommandGenerate::generate_entries (std::set<std::string>& entries)
 
     for (const auto entry : entries)
     {
+        // Neither is set by a read or a generation that fails.
+        mold = NULL;
+        config = NULL;
+
         status = disir_mold_read (m_cli->disir(), m_cli->group_id().c_str(),
                                   entry.c_str(), &mold);
         if (status != DISIR_STATUS_OK)
-- 
2.43.0


From 83c20855995b1f76e2ef4ef482dff92dfd66dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 126/133] fix: json: refuse text after the end of the document

---
 3rdparty/jsoncpp/jsoncpp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index c094933..1af08e2 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -327,6 +327,8 @@ bool Reader::parse(const char* beginDoc,
   bool successful = readValue();
   Token token;
   skipCommentTokens(token);
+  if (successful && (token.type_ != tokenEndOfStream || token.start_ != end_))
+    return addError("Extra non-whitespace after JSON value.", token);
   if (collectComments_ && !commentsBefore_.empty())
     root.setComment(commentsBefore_, commentAfter);
   if (features_.strictRoot_) {
-- 
2.43.0


From de5f97bda94cae3d28f62bd0f68ad8dec009848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 127/133] fix: json: a number has a digit

---
 3rdparty/jsoncpp/jsoncpp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index 1af08e2..c41a944 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -758,6 +758,10 @@ bool Reader::decodeNumber(Token& token, Value& decoded) {
   bool isNegative = *current == '-';
   if (isNegative)
     ++current;
+  if (current == token.end_ || *current < '0' || *current > '9')
+    return addError("'" + JSONCPP_STRING(token.start_, token.end_) +
+                        "' is not a number.",
+                    token);
   // TODO: Help the compiler do the div and mod at compile time or get rid of them.
   Value::LargestUInt maxIntegerValue =
       isNegative ? Value::LargestUInt(Value::maxLargestInt) + 1
-- 
2.43.0


From 06e1a4b848c2a12e87a6e7f6152bf7b9aa1921be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 128/133] fix: json: refuse half a surrogate pair

---
 3rdparty/jsoncpp/jsoncpp.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/3rdparty/jsoncpp/jsoncpp.cpp b/3rdparty/jsoncpp/jsoncpp.cpp
index c41a944..4a8a954 100644
--- a/3rdparty/jsoncpp/jsoncpp.cpp
+++ b/3rdparty/jsoncpp/jsoncpp.cpp
@@ -899,6 +899,10 @@ bool Reader::decodeUnicodeCodePoint(Token& token,
     unsigned int surrogatePair;
     if (*(current++) == '\\' && *(current++) == 'u') {
       if (decodeUnicodeEscapeSequence(token, current, end, surrogatePair)) {
+        if (surrogatePair < 0xDC00 || surrogatePair > 0xDFFF)
+          return addError("expecting the second half of a unicode surrogate pair.",
+                          token,
+                          current);
         unicode = 0x10000 + ((unicode & 0x3FF) << 10) + (surrogatePair & 0x3FF);
       } else
         return false;
@@ -907,6 +911,10 @@ bool Reader::decodeUnicodeCodePoint(Token& token,
                       "a unicode surrogate pair",
                       token,
                       current);
+  } else if (unicode >= 0xDC00 && unicode <= 0xDFFF) {
+    return addError("second half of a unicode surrogate pair without the first.",
+                    token,
+                    current);
   }
   return true;
 }
-- 
2.43.0


From fed71ee8e52011c57873786d8d717a83b2460b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 129/133] fix: toml: a multi-line string keeps its leading
 blanks

---
 3rdparty/tinytoml/toml.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 614ad17..50d7e93 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -642,8 +642,6 @@ inline Token Lexer::nextStringDoubleQuote()
         next();
         // raw string literal started.
         // Newline just after """ should be ignored.
-        while (current(&c) && (c == ' ' || c == '\t'))
-            next();
         if (current(&c) && c == '\n')
             next();
         multiline = true;
-- 
2.43.0


From b7ec7932223277fdd4341302eef0e000d79c5876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 130/133] fix: toml: the elements of an array are separated by
 commas

---
 3rdparty/tinytoml/toml.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 50d7e93..1897bab 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -1905,8 +1905,11 @@ inline bool Parser::parseArray(Value* v)
         skipForValue();
         if (token().type() == TokenType::RBRACKET)
             break;
-        if (token().type() == TokenType::COMMA)
-            nextValue();
+        if (token().type() != TokenType::COMMA) {
+            addError("array didn't have ',' for delimiter?");
+            return false;
+        }
+        nextValue();
     }
 
     if (!consumeForValue(TokenType::RBRACKET))
-- 
2.43.0


From 66ccbba9303118d839a88b3c7b5aeb5abca4b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 131/133] fix: toml: read the escape sequences \b and \f

---
 3rdparty/tinytoml/toml.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 1897bab..526ea99 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -654,7 +654,9 @@ inline Token Lexer::nextStringDoubleQuote()
                 return Token(TokenType::ERROR, std::string("string has unknown escape sequence"));
             next();
             switch (c) {
+            case 'b': c = '\b'; break;
             case 't': c = '\t'; break;
+            case 'f': c = '\f'; break;
             case 'n': c = '\n'; break;
             case 'r': c = '\r'; break;
             case 'u':
-- 
2.43.0


From 8abf9e7d7bc7bc882b5d5da87595ea50752b744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 132/133] fix: toml: refuse surrogates as codepoints

---
 3rdparty/tinytoml/toml.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 526ea99..34c5eeb 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -473,6 +473,9 @@ inline std::string unescape(const std::string& codepoint)
         // 110yyyyx 10xxxxxx
         r += static_cast<char>(0xC0 | ((x >> 6) & 0xDF));
         r += static_cast<char>(0x80 | ((x >> 0) & 0xBF));
+    } else if (x >= 0xD800UL && x <= 0xDFFFUL) {
+        // Surrogates are no codepoints.
+        return r;
     } else if (x <= 0xFFFFUL) {
         // 1110yyyy 10yxxxxx 10xxxxxx
         r += static_cast<char>(0xE0 | ((x >> 12) & 0xEF));
-- 
2.43.0


From 2b1c8c69cfad6ae851cd03dfbdd5a3c6f89b8d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 133/133] fix: toml: a string in single quotation marks ends on
 its line

---
 3rdparty/tinytoml/toml.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/3rdparty/tinytoml/toml.h b/3rdparty/tinytoml/toml.h
index 34c5eeb..18967a3 100644
--- a/3rdparty/tinytoml/toml.h
+++ b/3rdparty/tinytoml/toml.h
@@ -710,6 +710,8 @@ inline Token Lexer::nextStringDoubleQuote()
             } else {
                 return Token(TokenType::STRING, s);
             }
+        } else if (c == '\n' && !multiline) {
+            return Token(TokenType::ERROR, std::string("string didn't end on its line"));
         }
 
         s += c;
@@ -770,6 +772,8 @@ inline Token Lexer::nextStringSingleQuote()
         if (c == '\'') {
             return Token(TokenType::STRING, s);
         }
+        if (c == '\n')
+            break;
 
         s += c;
     }
-- 
2.43.0

