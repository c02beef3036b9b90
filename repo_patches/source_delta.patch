From 47fc2e46a1ec253a7c884b8f8d0a204d86123c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:24 +0000
Subject: [PATCH 01/33] fix: format dates without the shared static buffer of
 gmtime

---
 include/persistence/datetime.hpp | 40 +++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 021baf6..c76b57f 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -14,6 +14,15 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return _mkgmtime(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline std::tm posix_to_utc(std::time_t t) {
+            std::tm cal{};
+            gmtime_s(&cal, &t);
+            return cal;
+        }
     }
 }
 #else
@@ -27,6 +36,15 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return timegm(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline std::tm posix_to_utc(std::time_t t) {
+            std::tm cal{};
+            gmtime_r(&t, &cal);
+            return cal;
+        }
     }
 }
 #endif
@@ -250,10 +268,10 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
+        auto calendar_time = detail::posix_to_utc(posix_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_date dt;
@@ -274,13 +292,13 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
-        int hour = calendar_time->tm_hour;
-        int minute = calendar_time->tm_min;
-        int second = calendar_time->tm_sec;
+        auto calendar_time = detail::posix_to_utc(posix_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
+        int hour = calendar_time.tm_hour;
+        int minute = calendar_time.tm_min;
+        int second = calendar_time.tm_sec;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_datetime dt;
-- 
2.43.0


From f9985699db4f9cb100dcf12c001cb563811e7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:24 +0000
Subject: [PATCH 02/33] fix: keep parser stack consistent when a handler
 constructor throws

---
 include/persistence/detail/polymorphic_stack.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 95eb5f0..93ef455 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -27,11 +27,12 @@ namespace persistence
                     throw std::out_of_range("stack space exhausted");
                 }
 
+                // ensure proper alignment for newly constructed object; leave stack intact if construction fails
+                std::byte* object = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+
                 items[count] = current;
                 ++count;
-
-                // ensure proper alignment for newly constructed object
-                current = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+                current = object;
                 next = current + sizeof(Class);
 
                 return back();
-- 
2.43.0


From b822b98b7664210dbdde10c9af0a05ecab737ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:24 +0000
Subject: [PATCH 03/33] fix: leave string enumeration parser state after
 parsing a value

---
 include/persistence/parse_enum.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index 4195764..a7b372a 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -98,6 +98,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
@@ -123,6 +124,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
-- 
2.43.0


From 74f28025b137a068abe7e68fda4ff4eec0a343bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:24 +0000
Subject: [PATCH 04/33] fix: report failure to deserialize any member of an
 object

---
 include/persistence/deserialize_object.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index f18fb5f..46c2f19 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -22,10 +22,11 @@ namespace persistence
     template<bool Exception, typename C>
     struct JsonObjectDeserializer : JsonContextAwareDeserializer
     {
-        JsonObjectDeserializer(DeserializerContext& context, const rapidjson::Value& json_object, C& object)
+        JsonObjectDeserializer(DeserializerContext& context, const rapidjson::Value& json_object, C& object, bool& result)
             : JsonContextAwareDeserializer(context)
             , json_object(json_object)
             , object(object)
+            , result(result)
         {}
 
         template<typename T, class B, auto P, typename D>
@@ -37,7 +38,7 @@ namespace persistence
             if (it != json_object.MemberEnd()) {
                 T value;
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, value, value_context);
+                result = result && deserialize<Exception>(it->value, value, value_context);
                 member.ref(object) = std::move(value);
             } else {
                 member.ref(object) = std::nullopt;
@@ -53,7 +54,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = result && deserialize<Exception>(it->value, member.ref(object), value_context);
                 return *this;
             } else {
                 if constexpr (Exception) {
@@ -76,7 +77,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = result && deserialize<Exception>(it->value, member.ref(object), value_context);
             }
             return *this;
         }
@@ -98,8 +99,8 @@ namespace persistence
         /** The C++ object into which data is written. */
         C& object;
 
-        /** The result of deserializing the entire object. */
-        bool result = true;
+        /** The result of deserializing the entire object, shared among copies made while chaining members. */
+        bool& result;
     };
 
     template<typename T>
@@ -129,9 +130,10 @@ namespace persistence
                 return false;
             }
 
-            JsonObjectDeserializer<Exception, T> deserializer(context, json, value);
+            bool result = true;
+            JsonObjectDeserializer<Exception, T> deserializer(context, json, value, result);
             value.persist(deserializer);
-            return static_cast<bool>(deserializer);
+            return result;
         }
     };
 }
-- 
2.43.0


From 83e23c82a7caa852ef498f534a7cb1f2ce22b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:24 +0000
Subject: [PATCH 05/33] fix: report failure to serialize any member of an
 object to a document

---
 include/persistence/serialize_object.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index 28cd200..14de123 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -11,10 +11,11 @@ namespace persistence
     template<typename C>
     struct JsonObjectSerializer : JsonContextAwareSerializer
     {
-        JsonObjectSerializer(SerializerContext& context, const C& object, rapidjson::Value& json_object)
+        JsonObjectSerializer(SerializerContext& context, const C& object, rapidjson::Value& json_object, bool& result)
             : JsonContextAwareSerializer(context)
             , object(object)
             , json_object(json_object)
+            , result(result)
         {}
 
         template<typename T, class B, auto P, typename D>
@@ -63,6 +64,7 @@ namespace persistence
             rapidjson::Value member_json;
             SerializerContext member_context(context, Segment(name));
             PERSISTENCE_IF_UNLIKELY(!serialize(ref, member_json, member_context)) {
+                result = false;
                 return *this;
             }
 
@@ -78,8 +80,8 @@ namespace persistence
         /** The JSON object into which data is written. */
         rapidjson::Value& json_object;
 
-        /** The result of serializing the entire object. */
-        bool result = true;
+        /** The result of serializing the entire object, shared among copies made while chaining members. */
+        bool& result;
     };
 
     template<typename T>
@@ -105,11 +107,12 @@ namespace persistence
 
         bool operator()(const T& value, rapidjson::Value& json) const
         {
-            JsonObjectSerializer<T> serializer(context, value, json);
+            bool result = true;
+            JsonObjectSerializer<T> serializer(context, value, json, result);
 
             json.SetObject();
             const_cast<T&>(value).persist(serializer);
-            return static_cast<bool>(serializer);
+            return result;
         }
     };
 }
-- 
2.43.0


From 7f21473998d17866671f7c123799054ddbfcae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:24 +0000
Subject: [PATCH 06/33] fix: report failure to write a member of a derived
 class

---
 include/persistence/write_object.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/persistence/write_object.hpp b/include/persistence/write_object.hpp
index bec157e..537ead0 100644
--- a/include/persistence/write_object.hpp
+++ b/include/persistence/write_object.hpp
@@ -12,10 +12,11 @@ namespace persistence
     template<typename C>
     struct JsonObjectWriter : JsonContextAwareWriter
     {
-        JsonObjectWriter(WriterContext& context, const C& object, StringWriter& writer)
+        JsonObjectWriter(WriterContext& context, const C& object, StringWriter& writer, bool& result)
             : JsonContextAwareWriter(context)
             , object(object)
             , writer(writer)
+            , result(result)
         {}
 
         template<typename T, class B, auto P, typename D>
@@ -75,8 +76,8 @@ namespace persistence
         /** The JSON string buffer into which data is written. */
         StringWriter& writer;
 
-        /** The result of serializing the entire object. */
-        bool result = true;
+        /** The result of serializing the entire object, shared among copies made while chaining members. */
+        bool& result;
     };
 
     template<typename T>
@@ -102,11 +103,12 @@ namespace persistence
 
         bool operator()(const T& value, StringWriter& writer) const
         {
-            JsonObjectWriter serializer(context, value, writer);
+            bool result = true;
+            JsonObjectWriter serializer(context, value, writer, result);
 
             writer.StartObject();
             const_cast<T&>(value).persist(serializer);
-            if (!serializer) {
+            if (!result) {
                 return false;
             }
             writer.EndObject();
-- 
2.43.0


From d3160d8e3937d096a8303435acb7987d4564dfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:24 +0000
Subject: [PATCH 07/33] fix: track path of set items so that references to them
 resolve

---
 include/persistence/serialize_set.hpp | 2 +-
 include/persistence/write_set.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/serialize_set.hpp b/include/persistence/serialize_set.hpp
index d846120..fb8839a 100644
--- a/include/persistence/serialize_set.hpp
+++ b/include/persistence/serialize_set.hpp
@@ -19,7 +19,7 @@ namespace persistence
             for (auto&& item : container) {
                 rapidjson::Value item_json;
                 SerializerContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, item_context)) {
                     return false;
                 }
                 json.PushBack(item_json, context.global().allocator());
diff --git a/include/persistence/write_set.hpp b/include/persistence/write_set.hpp
index 5e891f9..00fa22e 100644
--- a/include/persistence/write_set.hpp
+++ b/include/persistence/write_set.hpp
@@ -17,7 +17,7 @@ namespace persistence
             std::size_t k = 0;
             for (const auto& item : container) {
                 WriterContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, item_context)) {
                     return false;
                 }
                 ++k;
-- 
2.43.0


From 1560e23217bb55ed199d0b47a320ea9b79d763fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:24 +0000
Subject: [PATCH 08/33] fix: refuse references that are malformed, dangling or
 point at an object of another type

---
 include/persistence/deserialize_pointer.hpp   | 40 ++++++++++++++-----
 .../detail/deserialize_context.hpp            | 16 +++++---
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index e3f7279..f866fc4 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -1,7 +1,9 @@
 #pragma once
 #include "deserialize_base.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/path.hpp"
 #include "detail/unlikely.hpp"
+#include "exception.hpp"
 #include <rapidjson/pointer.h>
 #include <memory>
 
@@ -40,18 +42,19 @@ namespace persistence
             if (json.IsObject()) {
                 auto&& it = json.FindMember("$ref");
                 if (it != json.MemberEnd()) {
-                    rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
-                    rapidjson::Value* object = path.Get(context.document());
-                    PERSISTENCE_IF_UNLIKELY(!object) {
-                        return false;
+                    std::shared_ptr<T> ref = resolve(it->value);
+                    PERSISTENCE_IF_UNLIKELY(!ref) {
+                        if constexpr (Exception) {
+                            throw JsonDeserializationError(
+                                "reference does not identify an object of the expected type that has already been read",
+                                Path(context.segments()).str()
+                            );
+                        } else {
+                            return false;
+                        }
                     }
 
-                    auto ref = context.get(object);
-                    PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {
-                        return false;
-                    }
-
-                    pointer = std::reinterpret_pointer_cast<T>(ref.value());
+                    pointer = std::move(ref);
                     return true;
                 }
             }
@@ -64,5 +67,22 @@ namespace persistence
             context.put(&json, pointer);
             return true;
         }
+
+    private:
+        /** Finds the object of the right type that has been created for the JSON value that a reference points at. */
+        std::shared_ptr<T> resolve(const rapidjson::Value& json) const
+        {
+            PERSISTENCE_IF_UNLIKELY(!json.IsString()) {
+                return nullptr;
+            }
+
+            rapidjson::Pointer path(json.GetString(), json.GetStringLength());
+            PERSISTENCE_IF_UNLIKELY(!path.IsValid()) {
+                return nullptr;
+            }
+
+            const rapidjson::Value* object = path.Get(context.document());
+            return object ? context.template get<T>(object) : nullptr;
+        }
     };
 }
diff --git a/include/persistence/detail/deserialize_context.hpp b/include/persistence/detail/deserialize_context.hpp
index 829ef2f..afdd9f9 100644
--- a/include/persistence/detail/deserialize_context.hpp
+++ b/include/persistence/detail/deserialize_context.hpp
@@ -2,6 +2,8 @@
 #include "document_context.hpp"
 #include "references.hpp"
 #include "segment.hpp"
+#include <memory>
+#include <typeindex>
 
 namespace persistence
 {
@@ -10,7 +12,8 @@ namespace persistence
     {
         using DocumentContext::DocumentContext;
 
-        ReferenceTable<const rapidjson::Value*, std::shared_ptr<void>> references;
+        /** Maps a JSON value and the C++ type it has been converted to onto the object created. */
+        ReferenceTable<std::pair<const rapidjson::Value*, std::type_index>, std::shared_ptr<void>> references;
     };
 
     struct DeserializerContext
@@ -26,14 +29,17 @@ namespace persistence
             , segment(segment)
         {}
 
-        std::optional<std::shared_ptr<void>> get(const rapidjson::Value* pointer) const
+        template<typename T>
+        std::shared_ptr<T> get(const rapidjson::Value* pointer) const
         {
-            return global.references.get(pointer);
+            auto ref = global.references.get(std::make_pair(pointer, std::type_index(typeid(T))));
+            return ref.has_value() ? std::static_pointer_cast<T>(ref.value()) : nullptr;
         }
 
-        void put(const rapidjson::Value* pointer, std::shared_ptr<void> object)
+        template<typename T>
+        void put(const rapidjson::Value* pointer, std::shared_ptr<T> object)
         {
-            global.references.put(std::move(pointer), std::move(object));
+            global.references.put(std::make_pair(pointer, std::type_index(typeid(T))), std::shared_ptr<void>(std::move(object)));
         }
 
         rapidjson::Document& document()
-- 
2.43.0


From d8c047d36c28cf4a502b41c4f219d7f6c6318b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:01 +0000
Subject: [PATCH 09/33] fix: escape special characters and admit empty names in
 JSON pointers

---
 include/persistence/detail/path.hpp    | 11 ++++++++++-
 include/persistence/detail/segment.hpp |  7 ++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/persistence/detail/path.hpp b/include/persistence/detail/path.hpp
index 346a60e..64ccc51 100644
--- a/include/persistence/detail/path.hpp
+++ b/include/persistence/detail/path.hpp
@@ -24,7 +24,16 @@ namespace persistence
             for (auto&& it = segments.rbegin(); it != segments.rend(); ++it) {
                 path.push_back('/');
                 if (it->is_named()) {
-                    path.append(it->name);
+                    for (char c : it->name) {
+                        // escape special characters as per RFC 6901
+                        if (c == '~') {
+                            path.append("~0");
+                        } else if (c == '/') {
+                            path.append("~1");
+                        } else {
+                            path.push_back(c);
+                        }
+                    }
                 } else {
                     // increase buffer by number of characters required to represent largest integer in decimal digits
                     constexpr std::size_t max_len = std::numeric_limits<std::size_t>::digits10;
diff --git a/include/persistence/detail/segment.hpp b/include/persistence/detail/segment.hpp
index 2b32e07..3f300f0 100644
--- a/include/persistence/detail/segment.hpp
+++ b/include/persistence/detail/segment.hpp
@@ -12,17 +12,18 @@ namespace persistence
     struct Segment
     {
         Segment() = default;
-        Segment(const std::string_view& name) : name(name) {}
+        Segment(const std::string_view& name) : name(name), named(true) {}
         Segment(std::size_t index) : index(index) {}
 
         std::string_view name;
         std::size_t index = 0;
+        bool named = false;
 
         /** True for object property access. */
-        bool is_named() const { return name.size() > 0; }
+        bool is_named() const { return named; }
 
         /** True for array index access. */
-        bool is_indexed() const { return name.size() == 0; }
+        bool is_indexed() const { return !named; }
     };
 
     using Segments = std::vector<Segment>;
-- 
2.43.0


From 196f1d61215862026f56c3979c27e59337f8290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:01 +0000
Subject: [PATCH 10/33] fix: keep dictionary keys with an embedded null
 character intact

---
 include/persistence/deserialize_map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_map.hpp b/include/persistence/deserialize_map.hpp
index 36cd813..e04a171 100644
--- a/include/persistence/deserialize_map.hpp
+++ b/include/persistence/deserialize_map.hpp
@@ -23,11 +23,12 @@ namespace persistence
             value.clear();
             for (auto&& it = json.MemberBegin(); it != json.MemberEnd(); ++it) {
                 item_type item;
-                DeserializerContext item_context(context, Segment(it->name.GetString()));
+                std::string_view name(it->name.GetString(), it->name.GetStringLength());
+                DeserializerContext item_context(context, Segment(name));
                 if (!deserialize<Exception>(it->value, item, item_context)) {
                     return false;
                 }
-                value[it->name.GetString()] = std::move(item);
+                value[std::string(name)] = std::move(item);
             }
             return true;
         }
-- 
2.43.0


From ec9a4b056839a8223897d61c36b4eae2af8d8dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:01 +0000
Subject: [PATCH 11/33] fix: do not read past the end of input when encoding
 Base64

---
 include/persistence/base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/persistence/base64.hpp b/include/persistence/base64.hpp
index a35caa4..4bd37de 100644
--- a/include/persistence/base64.hpp
+++ b/include/persistence/base64.hpp
@@ -100,7 +100,7 @@ namespace persistence
             return true;
         }
 
-        std::size_t fast_sextets = input.size() / 24 * 4;  // round to multiples of 8 bytes to ensure pointer stays in addressable range
+        std::size_t fast_sextets = input.size() < 8 ? 0 : (input.size() - 8) / 6 + 1;  // each sextet reads 8 bytes, ensure all are in addressable range
         std::size_t full_triplets = input.size() / 3;
         std::size_t remaining_triplets = full_triplets - fast_sextets * 2;
         std::size_t remaining_bytes = input.size() % 3;
-- 
2.43.0


From ce4dd0fa5a98bfaa10b7e8edc3d524b86f8a4c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:01 +0000
Subject: [PATCH 12/33] fix: refuse date-time strings that overflow the range
 of the time point

---
 include/persistence/datetime.hpp | 46 +++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index c76b57f..cb5ebef 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -53,19 +53,30 @@ namespace persistence
 {
     using timestamp = std::chrono::time_point<std::chrono::system_clock>;
 
+    namespace detail
+    {
+        /**
+         * Converts a Gregorian calendar date and UTC time into a POSIX timestamp (seconds since epoch).
+         */
+        inline std::time_t calendar_to_posix(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
+        {
+            std::tm tm{};
+            tm.tm_year = year - 1900;
+            tm.tm_mon = month - 1;
+            tm.tm_mday = day;
+            tm.tm_hour = hour;
+            tm.tm_min = minute;
+            tm.tm_sec = second;
+            return utc_to_posix(&tm);
+        }
+    }
+
     /**
      * Creates a chrono time point from a Gregorian calendar date and UTC time.
      */
     inline timestamp make_datetime(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
     {
-        std::tm tm{};
-        tm.tm_year = year - 1900;
-        tm.tm_mon = month - 1;
-        tm.tm_mday = day;
-        tm.tm_hour = hour;
-        tm.tm_min = minute;
-        tm.tm_sec = second;
-        std::time_t t = detail::utc_to_posix(&tm);
+        std::time_t t = detail::calendar_to_posix(year, month, day, hour, minute, second);
         return std::chrono::system_clock::from_time_t(t);
     }
 
@@ -109,6 +120,18 @@ namespace persistence
 
     namespace detail
     {
+        /**
+         * True if a POSIX timestamp (seconds since epoch) fits into the range of the chrono time point.
+         */
+        inline constexpr bool is_representable(std::time_t t)
+        {
+            using std::chrono::duration_cast;
+            using std::chrono::seconds;
+            constexpr auto lower = duration_cast<seconds>(timestamp::min().time_since_epoch()).count();
+            constexpr auto upper = duration_cast<seconds>(timestamp::max().time_since_epoch()).count();
+            return t >= lower && t <= upper;
+        }
+
         inline bool from_digits(const char* first, const char* last, unsigned& value)
         {
             auto result = std::from_chars(first, last, value);
@@ -184,7 +207,12 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, hour, minute, second);
+        std::time_t t = detail::calendar_to_posix(year, month, day, hour, minute, second);
+        PERSISTENCE_IF_UNLIKELY(!detail::is_representable(t)) {
+            return false;
+        }
+
+        value = std::chrono::system_clock::from_time_t(t);
         return true;
     }
 
-- 
2.43.0


From 2daee477e069ab4e063292daa1a27bfe14875cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:02 +0000
Subject: [PATCH 13/33] fix: read and write calendar dates outside the range of
 the time point

---
 include/persistence/datetime.hpp         | 81 ++++++++++++++++++++----
 include/persistence/deserialize_date.hpp |  4 +-
 include/persistence/parse_date.hpp       |  4 +-
 include/persistence/serialize_date.hpp   |  7 +-
 include/persistence/write_date.hpp       |  7 +-
 5 files changed, 82 insertions(+), 21 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index cb5ebef..fd9d4ee 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -139,36 +139,67 @@ namespace persistence
         }
     }
 
+    namespace detail
+    {
+        /**
+         * Parses the calendar fields of an ISO 8601 date string.
+         */
+        inline bool parse_date_fields(const char* text, std::size_t len, unsigned& year, unsigned& month, unsigned& day)
+        {
+            PERSISTENCE_IF_UNLIKELY(len != 10) {
+                return false;
+            }
+
+            PERSISTENCE_IF_UNLIKELY(text[4] != '-' || text[7] != '-') {
+                return false;
+            }
+
+            PERSISTENCE_IF_UNLIKELY(
+                !from_digits(text, text + 4, year) ||
+                !from_digits(text + 5, text + 7, month) ||
+                !from_digits(text + 8, text + 10, day)
+            ) {
+                return false;
+            }
+
+            return is_valid_date(year, month, day);
+        }
+    }
+
     /**
      * Parses a chrono time point from an ISO 8601 date string.
      */
     inline bool parse_date(const char* text, std::size_t len, timestamp& value)
     {
-        PERSISTENCE_IF_UNLIKELY(len != 10) {
+        unsigned year, month, day;
+        PERSISTENCE_IF_UNLIKELY(!detail::parse_date_fields(text, len, year, month, day)) {
             return false;
         }
 
-        PERSISTENCE_IF_UNLIKELY(text[4] != '-' || text[7] != '-') {
+        std::time_t t = detail::calendar_to_posix(year, month, day, 0, 0, 0);
+        PERSISTENCE_IF_UNLIKELY(!detail::is_representable(t)) {
             return false;
         }
 
-        using detail::from_digits;
-        unsigned year, month, day;
-        PERSISTENCE_IF_UNLIKELY(
-            !from_digits(text, text + 4, year) ||
-            !from_digits(text + 5, text + 7, month) ||
-            !from_digits(text + 8, text + 10, day)
-        ) {
-            return false;
-        }
+        value = std::chrono::system_clock::from_time_t(t);
+        return true;
+    }
 
-        PERSISTENCE_IF_UNLIKELY(!is_valid_date(year, month, day)) {
+#if __cplusplus >= 202002L
+    /**
+     * Parses a calendar date from an ISO 8601 date string.
+     */
+    inline bool parse_date(const char* text, std::size_t len, std::chrono::year_month_day& value)
+    {
+        unsigned year, month, day;
+        PERSISTENCE_IF_UNLIKELY(!detail::parse_date_fields(text, len, year, month, day)) {
             return false;
         }
 
-        value = make_datetime(year, month, day, 0, 0, 0);
+        value = std::chrono::year_month_day(std::chrono::year(static_cast<int>(year)), std::chrono::month(month), std::chrono::day(day));
         return true;
     }
+#endif
 
     /**
      * Parses a chrono time point from an ISO 8601 date-time string.
@@ -311,6 +342,30 @@ namespace persistence
         return dt;
     }
 
+#if __cplusplus >= 202002L
+    /**
+     * Converts a calendar date to an ISO 8601 date string.
+     *
+     * @return True on success, false if the year cannot be written with four digits.
+     */
+    inline bool to_iso_date(std::chrono::year_month_day value, iso_date& dt)
+    {
+        // normalize a day past the end of the month
+        value = std::chrono::sys_days(value);
+
+        int year = static_cast<int>(value.year());
+        PERSISTENCE_IF_UNLIKELY(year < 0 || year > 9999) {
+            return false;
+        }
+
+        using detail::to_aligned_digits;
+        to_aligned_digits<4>(dt.year(), year);
+        to_aligned_digits<2>(dt.month(), static_cast<int>(static_cast<unsigned>(value.month())));
+        to_aligned_digits<2>(dt.day(), static_cast<int>(static_cast<unsigned>(value.day())));
+        return true;
+    }
+#endif
+
     /**
      * Converts a chrono time point to an ISO 8601 date-time string.
      */
diff --git a/include/persistence/deserialize_date.hpp b/include/persistence/deserialize_date.hpp
index 1c06f8b..89301af 100644
--- a/include/persistence/deserialize_date.hpp
+++ b/include/persistence/deserialize_date.hpp
@@ -21,8 +21,7 @@ namespace persistence
                 return false;
             }
 
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), ts)) {
+            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(json.GetString(), json.GetStringLength()),
@@ -33,7 +32,6 @@ namespace persistence
                 }
             }
 
-            value = std::chrono::time_point_cast<std::chrono::days>(ts);
             return true;
         }
     };
diff --git a/include/persistence/parse_date.hpp b/include/persistence/parse_date.hpp
index 99cba35..469ef34 100644
--- a/include/persistence/parse_date.hpp
+++ b/include/persistence/parse_date.hpp
@@ -20,13 +20,11 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), ts)) {
+            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), ref)) {
                 context.fail("invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(s.literal));
                 return false;
             }
 
-            ref = std::chrono::time_point_cast<std::chrono::days>(ts);
             context.pop();
             return true;
         }
diff --git a/include/persistence/serialize_date.hpp b/include/persistence/serialize_date.hpp
index a172eec..f0856e2 100644
--- a/include/persistence/serialize_date.hpp
+++ b/include/persistence/serialize_date.hpp
@@ -5,6 +5,7 @@
 #include "datetime.hpp"
 #include "serialize_base.hpp"
 #include "detail/serialize_aware.hpp"
+#include "detail/unlikely.hpp"
 
 namespace persistence
 {
@@ -15,7 +16,11 @@ namespace persistence
 
         bool operator()(std::chrono::year_month_day value, rapidjson::Value& json) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            iso_date dt;
+            PERSISTENCE_IF_UNLIKELY(!to_iso_date(value, dt)) {
+                return false;
+            }
+
             json.SetString(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), context.global().allocator());
             return true;
         }
diff --git a/include/persistence/write_date.hpp b/include/persistence/write_date.hpp
index dbf1f43..861cd8a 100644
--- a/include/persistence/write_date.hpp
+++ b/include/persistence/write_date.hpp
@@ -4,6 +4,7 @@
 #endif
 #include "datetime.hpp"
 #include "write_base.hpp"
+#include "detail/unlikely.hpp"
 
 namespace persistence
 {
@@ -12,7 +13,11 @@ namespace persistence
     {
         bool operator()(std::chrono::year_month_day value, StringWriter& writer) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            iso_date dt;
+            PERSISTENCE_IF_UNLIKELY(!to_iso_date(value, dt)) {
+                return false;
+            }
+
             writer.String(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), true);
             return true;
         }
-- 
2.43.0


From d43083ad91398b9c37357d13146c41f8450adef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:02 +0000
Subject: [PATCH 14/33] fix: read back floating-point numbers with full
 precision

---
 include/persistence/deserialize.hpp | 8 ++++----
 include/persistence/parse.hpp       | 2 +-
 include/persistence/utility.hpp     | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index 45661ed..7425c18 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -70,7 +70,7 @@ namespace persistence
     bool deserialize(const std::string& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -87,7 +87,7 @@ namespace persistence
     bool deserialize(std::string&& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -101,7 +101,7 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
     }
 
@@ -114,7 +114,7 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
     }
 }
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 5c51ff1..321d7ce 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -17,7 +17,7 @@ namespace persistence
 
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse(stream, context.dispatcher);
+            return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
         }
     }
 
diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index fe11df1..888df7a 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -25,7 +25,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(const std::string& str)
     {
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
         return doc;
     }
 
@@ -35,7 +35,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(std::string&& str)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
         return doc;
     }
 }
-- 
2.43.0


From aa0a555a0fea0598fffae4dd58809cb84f51a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:02 +0000
Subject: [PATCH 15/33] fix: do not leave a document referring to a temporary
 string

---
 include/persistence/utility.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index 888df7a..b9ba0a5 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -34,8 +34,7 @@ namespace persistence
      */
     inline rapidjson::Document string_to_document(std::string&& str)
     {
-        rapidjson::Document doc;
-        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
-        return doc;
+        // the document outlives the string, hence it may not refer to the characters in the string
+        return string_to_document(static_cast<const std::string&>(str));
     }
 }
-- 
2.43.0


From ac69c007e8fa74585d1473156e3f5b5ec9bd9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:08 +0000
Subject: [PATCH 16/33] fix: parse arrays and sets of character, enumeration
 and pointer-to-number items

---
 include/persistence/parse_items.hpp  | 43 ++++++++++++++++++++++++++++
 include/persistence/parse_set.hpp    | 11 +++++--
 include/persistence/parse_vector.hpp | 11 +++++--
 3 files changed, 61 insertions(+), 4 deletions(-)

diff --git a/include/persistence/parse_items.hpp b/include/persistence/parse_items.hpp
index 9641fd5..118daea 100644
--- a/include/persistence/parse_items.hpp
+++ b/include/persistence/parse_items.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "parse_base.hpp"
+#include <type_traits>
 
 namespace persistence
 {
@@ -8,5 +9,47 @@ namespace persistence
     struct JsonArrayItemParseHandler : JsonParseHandler<typename JsonParser<T>::json_type, JsonArrayEnd>
     {
         using JsonParseHandler<typename JsonParser<T>::json_type, JsonArrayEnd>::JsonParseHandler;
+        using JsonParseHandler<typename JsonParser<T>::json_type, JsonArrayEnd>::parse;
+
+        bool parse(const JsonValueInteger& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueUnsigned& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueInteger64& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueUnsigned64& n) override
+        {
+            return parse_number(n);
+        }
+
+        bool parse(const JsonValueDouble& n) override
+        {
+            return parse_number(n);
+        }
+
+    protected:
+        /** Appends a new item to the container, and makes its parser the active parser. */
+        virtual JsonParseEvent& emplace_item() = 0;
+
+    private:
+        /** Relays a type-specific number event to items that accept a JSON number. */
+        template<typename Number>
+        bool parse_number(const Number& n)
+        {
+            if constexpr (std::is_same_v<typename JsonParser<T>::json_type, JsonValueNumber>) {
+                return emplace_item().parse(n);
+            } else {
+                return this->template fail<Number>();
+            }
+        }
     };
 }
diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index 0927825..4eae249 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -19,6 +19,8 @@ namespace persistence
             , container(container)
         {}
 
+        using JsonArrayItemParseHandler<T>::parse;
+
         bool parse(const JsonArrayEnd&) override
         {
             // special treatment for move-only types
@@ -32,12 +34,17 @@ namespace persistence
         }
 
         bool parse(const typename JsonParser<T>::json_type& json_item) override
+        {
+            return emplace_item().parse(json_item);
+        }
+
+    private:
+        JsonParseEvent& emplace_item() override
         {
             // use temporary storage for parsing, set elements are immutable
             storage.emplace_back();
             ReaderContext& ctx = this->context;
-            auto&& handler = ctx.emplace<JsonParser<T>>(ctx, storage.back());
-            return handler.parse(json_item);
+            return ctx.emplace<JsonParser<T>>(ctx, storage.back());
         }
 
     private:
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index 88b3147..5d92339 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -18,6 +18,8 @@ namespace persistence
             , container(container)
         {}
 
+        using JsonArrayItemParseHandler<T>::parse;
+
         bool parse(const JsonArrayEnd&) override
         {
             this->context.pop();
@@ -25,11 +27,16 @@ namespace persistence
         }
 
         bool parse(const typename JsonParser<T>::json_type& json_item) override
+        {
+            return emplace_item().parse(json_item);
+        }
+
+    private:
+        JsonParseEvent& emplace_item() override
         {
             container.emplace_back();
             ReaderContext& ctx = this->context;
-            auto&& handler = ctx.emplace<JsonParser<T>>(ctx, container.back());
-            return handler.parse(json_item);
+            return ctx.emplace<JsonParser<T>>(ctx, container.back());
         }
 
     private:
-- 
2.43.0


From e5578dfbde158614bdec33430ce467b4b1ae46da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:08 +0000
Subject: [PATCH 17/33] fix: allow parsing objects during static initialization

---
 include/persistence/parse_object.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/persistence/parse_object.hpp b/include/persistence/parse_object.hpp
index 85958ab..411cb06 100644
--- a/include/persistence/parse_object.hpp
+++ b/include/persistence/parse_object.hpp
@@ -181,7 +181,7 @@ namespace persistence
         bool parse(const JsonObjectKey& json_key) override
         {
             std::string_view identifier = json_key.identifier;
-            std::size_t k = hash_map.index(identifier);
+            std::size_t k = hash_map().index(identifier);
             PERSISTENCE_IF_UNLIKELY(names[k] != identifier) {
                 context.fail("expected class member name; got: " + std::string(json_key.identifier));
                 return false;
@@ -203,8 +203,15 @@ namespace persistence
         }
 
         constexpr static auto members = typename class_traits<C>::member_types();
-        inline static auto names = member_names();
-        inline static auto hash_map = PerfectHash(names);
+        constexpr static auto names = member_names();
+
+        /** Creates the lookup table on first use to allow parsing while other static objects are initialized. */
+        static const PerfectHash<names.size()>& hash_map()
+        {
+            static const PerfectHash<names.size()> map(names);
+            return map;
+        }
+
         C& ref;
     };
 
-- 
2.43.0


From eda0b4a017f86c630a1f60e8e28ffeab46c864aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:08 +0000
Subject: [PATCH 18/33] fix: report a document with too many levels of nesting
 as a parse error

---
 include/persistence/detail/polymorphic_stack.hpp | 10 +++++++++-
 include/persistence/parse.hpp                    | 15 ++++++++++-----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 93ef455..6c51c69 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -8,6 +8,14 @@ namespace persistence
 {
     namespace detail
     {
+        /**
+         * Signals that there is no more room for objects in a stack with limited capacity.
+         */
+        struct stack_exhausted : std::out_of_range
+        {
+            stack_exhausted() : std::out_of_range("stack space exhausted") {}
+        };
+
         /**
          * A stack for storing polymorphic objects deriving from a common base class.
          *
@@ -24,7 +32,7 @@ namespace persistence
                 static_assert(std::is_base_of<Base, Class>::value, "newly constructed class must derive from base class");
 
                 PERSISTENCE_IF_UNLIKELY(count >= Capacity || (next - memory) >= static_cast<std::ptrdiff_t>(MemorySize - alignof(Class) - sizeof(Class))) {
-                    throw std::out_of_range("stack space exhausted");
+                    throw stack_exhausted();
                 }
 
                 // ensure proper alignment for newly constructed object; leave stack intact if construction fails
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 321d7ce..bb8f24b 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -11,13 +11,18 @@ namespace persistence
         template<typename T>
         rapidjson::ParseResult parse(ReaderContext& context, const std::string& str, T& value)
         {
-            context.emplace<JsonParser<T>>(context, value);
-            rapidjson::Reader reader;
             rapidjson::StringStream stream(str.data());
+            try {
+                context.emplace<JsonParser<T>>(context, value);
+                rapidjson::Reader reader;
 
-            // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
-            // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+                // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
+                // rapidjson from parsing numbers and emitting type-specific events
+                return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+            } catch (const stack_exhausted&) {
+                context.fail("JSON document has too many levels of nesting");
+                return rapidjson::ParseResult(rapidjson::kParseErrorTermination, stream.Tell());
+            }
         }
     }
 
-- 
2.43.0


From 41e474d2abb023d05dda19d3f48cbdcfa64e3b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:22 +0000
Subject: [PATCH 19/33] fix: refuse a number outside the range of the
 floating-point type

---
 include/persistence/deserialize_fundamental.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_fundamental.hpp b/include/persistence/deserialize_fundamental.hpp
index fb12b70..ba40f5a 100644
--- a/include/persistence/deserialize_fundamental.hpp
+++ b/include/persistence/deserialize_fundamental.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "deserialize_base.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/numeric_traits.hpp"
 #include "detail/path.hpp"
 #include "detail/unlikely.hpp"
 
@@ -290,7 +291,19 @@ namespace persistence
                 }
             }
 
-            value = static_cast<T>(json.GetDouble());
+            double number = json.GetDouble();
+            PERSISTENCE_IF_UNLIKELY(!is_assignable<T>(number)) {
+                if constexpr (Exception) {
+                    throw JsonDeserializationError(
+                        "floating-point number out of range",
+                        Path(context.segments()).str()
+                    );
+                } else {
+                    return false;
+                }
+            }
+
+            value = static_cast<T>(number);
             return true;
         }
     };
-- 
2.43.0


From 39520bc09fa11212ab1e4e94539a231dc51fc900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:22 +0000
Subject: [PATCH 20/33] fix: report failure to write a null pointer instead of
 dereferencing it

---
 include/persistence/serialize_pointer.hpp | 8 ++++++++
 include/persistence/write_pointer.hpp     | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/persistence/serialize_pointer.hpp b/include/persistence/serialize_pointer.hpp
index 38355aa..98b6b38 100644
--- a/include/persistence/serialize_pointer.hpp
+++ b/include/persistence/serialize_pointer.hpp
@@ -14,6 +14,10 @@ namespace persistence
 
         bool operator()(const P& pointer, rapidjson::Value& json) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             return serialize(*pointer, json, context);
         }
     };
@@ -37,6 +41,10 @@ namespace persistence
 
         bool operator()(const std::shared_ptr<T>& pointer, rapidjson::Value& json) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             auto segments = context.get(pointer);
             if (segments) {
                 std::string ref = Path(std::move(*segments)).str();
diff --git a/include/persistence/write_pointer.hpp b/include/persistence/write_pointer.hpp
index ba417a6..5adf6ec 100644
--- a/include/persistence/write_pointer.hpp
+++ b/include/persistence/write_pointer.hpp
@@ -14,6 +14,10 @@ namespace persistence
 
         bool operator()(const P& pointer, StringWriter& writer) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             return serialize(*pointer, writer, context);
         }
     };
@@ -37,6 +41,10 @@ namespace persistence
 
         bool operator()(const std::shared_ptr<T>& pointer, StringWriter& writer) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             auto segments = context.get(pointer);
             if (segments) {
                 std::string ref = Path(std::move(*segments)).str();
-- 
2.43.0


From 335c62928c4383695ea6b71c95fe16f65122e954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:28 +0000
Subject: [PATCH 21/33] fix: write a reference only to an object of the same
 type

---
 include/persistence/detail/output_context.hpp | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/persistence/detail/output_context.hpp b/include/persistence/detail/output_context.hpp
index c18eb79..d7eea59 100644
--- a/include/persistence/detail/output_context.hpp
+++ b/include/persistence/detail/output_context.hpp
@@ -2,12 +2,15 @@
 #include "references.hpp"
 #include "segment.hpp"
 #include <memory>
+#include <type_traits>
+#include <typeindex>
 
 namespace persistence
 {
     struct WriterReferenceContext
     {
-        ReferenceTable<std::shared_ptr<void>, Segments> references;
+        /** Maps an object and the C++ type it has been written as onto its location in the document. */
+        ReferenceTable<std::pair<std::shared_ptr<void>, std::type_index>, Segments> references;
     };
 
     template<typename GlobalContext>
@@ -24,14 +27,16 @@ namespace persistence
             , segment(segment)
         {}
 
-        std::optional<Segments> get(const std::shared_ptr<void>& pointer) const
+        template<typename T>
+        std::optional<Segments> get(const std::shared_ptr<T>& pointer) const
         {
-            return global_context.references.get(pointer);
+            return global_context.references.get(key(pointer));
         }
 
-        void put(std::shared_ptr<void> pointer)
+        template<typename T>
+        void put(const std::shared_ptr<T>& pointer)
         {
-            global_context.references.put(std::move(pointer), segments());
+            global_context.references.put(key(pointer), segments());
         }
 
         GlobalContext& global()
@@ -50,6 +55,13 @@ namespace persistence
             return segs;
         }
 
+    private:
+        template<typename T>
+        static std::pair<std::shared_ptr<void>, std::type_index> key(const std::shared_ptr<T>& pointer)
+        {
+            return std::make_pair(std::shared_ptr<void>(std::const_pointer_cast<std::remove_cv_t<T>>(pointer)), std::type_index(typeid(T)));
+        }
+
     private:
         GlobalContext& global_context;
         OutputContext<GlobalContext>* parent_context;
-- 
2.43.0


From 3aa50d10048e4f9b8362905cf8d550e5d4d498c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:20 +0000
Subject: [PATCH 22/33] fix: refuse objects with missing required properties
 when parsing

---
 include/persistence/parse_object.hpp | 57 ++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/include/persistence/parse_object.hpp b/include/persistence/parse_object.hpp
index 411cb06..9557f3a 100644
--- a/include/persistence/parse_object.hpp
+++ b/include/persistence/parse_object.hpp
@@ -7,6 +7,7 @@
 #include "detail/perfect_hash.hpp"
 #include "detail/traits.hpp"
 #include "detail/unlikely.hpp"
+#include <bitset>
 #include <optional>
 
 namespace persistence
@@ -75,6 +76,33 @@ namespace persistence
     template<typename T>
     using required_type_t = typename required_type<T>::type;
 
+    /** True if the object property that corresponds to a member variable has to be present in JSON. */
+    template<typename Member>
+    struct is_required_member : std::true_type
+    {};
+
+    template<typename T, class B, auto P, typename D>
+    struct is_required_member<member::variable<std::optional<T>, B, P, D>> : std::false_type
+    {};
+
+    template<typename T, class B, auto P, typename D>
+    struct is_required_member<member::variable_default<T, B, P, D>> : std::false_type
+    {};
+
+    namespace detail
+    {
+        /** Checks if a JSON object is allowed to end without a property. */
+        template<typename Member>
+        bool check_member(ReaderContext& context, bool seen)
+        {
+            PERSISTENCE_IF_UNLIKELY(is_required_member<Member>::value && !seen) {
+                context.fail("missing required property: " + std::string(Member().name()));
+                return false;
+            }
+            return true;
+        }
+    }
+
     template<typename T>
     struct JsonParser<std::optional<T>> : JsonParser<T>
     {
@@ -96,6 +124,10 @@ namespace persistence
 
         bool parse(const JsonObjectEnd&) override
         {
+            PERSISTENCE_IF_UNLIKELY(!detail::check_member<member_type>(context, seen)) {
+                return false;
+            }
+
             context.pop();
             return true;
         }
@@ -108,6 +140,7 @@ namespace persistence
                 return false;
             }
 
+            seen = true;
             using parser_type = JsonParser<unqualified_t<decltype(member_type().ref(ref))>>;
             context.emplace<parser_type>(context, member_type().ref(ref));
             return true;
@@ -117,6 +150,7 @@ namespace persistence
         using member_type = typename std::tuple_element<0, typename class_traits<C>::member_types>::type;
         constexpr static std::string_view member_name = member_type().name();
         C& ref;
+        bool seen = false;
     };
 
     template<typename C>
@@ -132,6 +166,13 @@ namespace persistence
 
         bool parse(const JsonObjectEnd&) override
         {
+            PERSISTENCE_IF_UNLIKELY(
+                !detail::check_member<first_member_type>(context, first_seen) ||
+                !detail::check_member<second_member_type>(context, second_seen)
+            ) {
+                return false;
+            }
+
             context.pop();
             return true;
         }
@@ -140,10 +181,12 @@ namespace persistence
         {
             std::string_view identifier = json_key.identifier;
             if (identifier == first_member_name) {
+                first_seen = true;
                 using parser_type = JsonParser<unqualified_t<decltype(first_member_type().ref(ref))>>;
                 context.emplace<parser_type>(context, first_member_type().ref(ref));
                 return true;
             } else if (identifier == second_member_name) {
+                second_seen = true;
                 using parser_type = JsonParser<unqualified_t<decltype(second_member_type().ref(ref))>>;
                 context.emplace<parser_type>(context, second_member_type().ref(ref));
                 return true;
@@ -159,6 +202,8 @@ namespace persistence
         using second_member_type = typename std::tuple_element<1, typename class_traits<C>::member_types>::type;
         constexpr static std::string_view second_member_name = second_member_type().name();
         C& ref;
+        bool first_seen = false;
+        bool second_seen = false;
     };
 
     template<typename C>
@@ -174,6 +219,10 @@ namespace persistence
 
         bool parse(const JsonObjectEnd&) override
         {
+            PERSISTENCE_IF_UNLIKELY(!check_members(std::make_index_sequence<names.size()>())) {
+                return false;
+            }
+
             context.pop();
             return true;
         }
@@ -187,6 +236,7 @@ namespace persistence
                 return false;
             }
 
+            seen.set(k);
             visit_at(members, k, [&](auto&& member) {
                 using parser_type = JsonParser<unqualified_t<decltype(member.ref(ref))>>;
                 context.emplace<parser_type>(context, member.ref(ref));
@@ -195,6 +245,12 @@ namespace persistence
         }
 
     private:
+        template<std::size_t... Indices>
+        bool check_members(std::index_sequence<Indices...>)
+        {
+            return (... && detail::check_member<std::tuple_element_t<Indices, typename class_traits<C>::member_types>>(context, seen.test(Indices)));
+        }
+
         constexpr static auto member_names()
         {
             return std::apply([](auto&&... args) {
@@ -213,6 +269,7 @@ namespace persistence
         }
 
         C& ref;
+        std::bitset<names.size()> seen;
     };
 
     template<typename T>
-- 
2.43.0


From 3fe153a2fb6a66f0fd25125acee1b72bb71a8a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:40 +0000
Subject: [PATCH 23/33] fix: resolve references through member names that
 contain the null character

---
 include/persistence/deserialize_pointer.hpp | 23 ++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index f866fc4..3804175 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -81,8 +81,29 @@ namespace persistence
                 return nullptr;
             }
 
-            const rapidjson::Value* object = path.Get(context.document());
+            const rapidjson::Value* object = find(context.document(), path);
             return object ? context.template get<T>(object) : nullptr;
         }
+
+        /** Looks up the JSON value at a path, comparing member names in full even if they contain the null character. */
+        static const rapidjson::Value* find(const rapidjson::Value& root, const rapidjson::Pointer& path)
+        {
+            const rapidjson::Value* value = &root;
+            for (std::size_t k = 0; k < path.GetTokenCount(); ++k) {
+                const auto& token = path.GetTokens()[k];
+                if (value->IsObject()) {
+                    auto&& it = value->FindMember(rapidjson::Value(rapidjson::StringRef(token.name, token.length)));
+                    PERSISTENCE_IF_UNLIKELY(it == value->MemberEnd()) {
+                        return nullptr;
+                    }
+                    value = &it->value;
+                } else if (value->IsArray() && token.index < value->Size()) {
+                    value = &(*value)[token.index];
+                } else {
+                    return nullptr;
+                }
+            }
+            return value;
+        }
     };
 }
-- 
2.43.0


From 5df83fd5b30117e298698f14529cb62be45e7e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:30 +0000
Subject: [PATCH 24/33] fix: construct the member name lookup table for every
 set of names

---
 include/persistence/detail/perfect_hash.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/persistence/detail/perfect_hash.hpp b/include/persistence/detail/perfect_hash.hpp
index 3753b16..f1e6c19 100644
--- a/include/persistence/detail/perfect_hash.hpp
+++ b/include/persistence/detail/perfect_hash.hpp
@@ -23,6 +23,13 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+
+                // spread entropy to the low-order bits, on which the position in a table whose size is a power of two depends
+                d ^= d >> 16;
+                d *= 0x85ebca6b;
+                d ^= d >> 13;
+                d *= 0xc2b2ae35;
+                d ^= d >> 16;
                 return d & 0x7fffffff;
             } else if constexpr (sizeof(hash_t) == sizeof(std::uint64_t)) {
                 // Fowler–Noll–Vo hash function variant FNV-1 for 64 bits
@@ -36,6 +43,13 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+
+                // spread entropy to the low-order bits, on which the position in a table whose size is a power of two depends
+                d ^= d >> 33;
+                d *= 0xff51afd7ed558ccd;
+                d ^= d >> 33;
+                d *= 0xc4ceb9fe1a85ec53;
+                d ^= d >> 33;
                 return d & 0x7fffffffffffffff;
             }
         }
-- 
2.43.0


From cb112441ab9dab1cbf205506439bfb8fdf61dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:17 +0000
Subject: [PATCH 25/33] fix: escape control characters in long strings

---
 include/persistence/detail/config.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/persistence/detail/config.hpp b/include/persistence/detail/config.hpp
index 62bd4cd..dcfce03 100644
--- a/include/persistence/detail/config.hpp
+++ b/include/persistence/detail/config.hpp
@@ -1,7 +1,9 @@
 #pragma once
 
 // detect instructions which speed up RapidJSON whitespace identification
-#if defined(__SSE4_2__)
+#if !__has_include(<rapidjson/uri.h>)
+// RapidJSON version 1.1.0 doesn't escape characters U+001A to U+001F when vector instructions are enabled
+#elif defined(__SSE4_2__)
 #define RAPIDJSON_SSE42
 #elif defined(__SSE2__) || (defined(_MSC_VER) && defined(_M_X64))
 #define RAPIDJSON_SSE2
-- 
2.43.0


From 5c104e6d8dc727ad48c8e78e3298eb1f1d2690d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:17 +0000
Subject: [PATCH 26/33] fix: convert numbers exactly without accessing memory
 out of bounds

---
 include/persistence/deserialize.hpp           |  21 +--
 include/persistence/detail/numeric_traits.hpp |   9 +-
 include/persistence/detail/reader.hpp         | 129 ++++++++++++++++++
 include/persistence/parse.hpp                 |   8 +-
 include/persistence/utility.hpp               |   6 +-
 5 files changed, 151 insertions(+), 22 deletions(-)
 create mode 100644 include/persistence/detail/reader.hpp

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index 7425c18..32b7f98 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "deserialize_base.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/reader.hpp"
 #include "detail/traits.hpp"
 #include <rapidjson/error/en.h>
 
@@ -70,9 +71,8 @@ namespace persistence
     bool deserialize(const std::string& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
-        auto&& error = doc.GetParseError();
-        return !error && deserialize(doc, obj);
+        auto error = detail::read_document(str, doc);
+        return !error.IsError() && deserialize(doc, obj);
     }
 
     /**
@@ -87,9 +87,8 @@ namespace persistence
     bool deserialize(std::string&& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
-        auto&& error = doc.GetParseError();
-        return !error && deserialize(doc, obj);
+        auto error = detail::read_document_insitu(str, doc);
+        return !error.IsError() && deserialize(doc, obj);
     }
 
     /**
@@ -101,7 +100,10 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
+        auto error = detail::read_document(str, doc);
+        if (error.IsError()) {
+            throw JsonParseError(rapidjson::GetParseError_En(error.Code()), error.Offset());
+        }
         return deserialize<T>(doc);
     }
 
@@ -114,7 +116,10 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.ParseInsitu<rapidjson::kParseFullPrecisionFlag>(str.data());
+        auto error = detail::read_document_insitu(str, doc);
+        if (error.IsError()) {
+            throw JsonParseError(rapidjson::GetParseError_En(error.Code()), error.Offset());
+        }
         return deserialize<T>(doc);
     }
 }
diff --git a/include/persistence/detail/numeric_traits.hpp b/include/persistence/detail/numeric_traits.hpp
index 23a40d3..d115007 100644
--- a/include/persistence/detail/numeric_traits.hpp
+++ b/include/persistence/detail/numeric_traits.hpp
@@ -60,13 +60,8 @@ namespace persistence
             }
         } else if constexpr (std::is_floating_point_v<T>) {
             if constexpr (std::is_floating_point_v<V>) {
-                if constexpr (sizeof(T) >= sizeof(V)) {
-                    // non-narrowing assignment
-                    return true;
-                } else {
-                    // check if value is within range of receiving floating point type
-                    return value >= std::numeric_limits<T>::lowest() && value <= std::numeric_limits<T>::max();
-                }
+                // check if value is within range of receiving floating point type
+                return value >= std::numeric_limits<T>::lowest() && value <= std::numeric_limits<T>::max();
             } else if constexpr (std::is_integral_v<V>) {
                 if constexpr (std::numeric_limits<T>::digits >= std::numeric_limits<V>::digits) {
                     // integer binary digits fit in floating point mantissa
diff --git a/include/persistence/detail/reader.hpp b/include/persistence/detail/reader.hpp
new file mode 100644
index 0000000..e0830aa
--- /dev/null
+++ b/include/persistence/detail/reader.hpp
@@ -0,0 +1,129 @@
+#pragma once
+#include "config.hpp"
+#include <rapidjson/document.h>
+#include <rapidjson/reader.h>
+#include <algorithm>
+#include <charconv>
+#include <cstddef>
+#include <cstdint>
+#include <limits>
+#include <string>
+#include <string_view>
+#include <system_error>
+
+namespace persistence
+{
+    namespace detail
+    {
+        /**
+         * Forwards JSON reader events, and converts numbers to the nearest representable value.
+         *
+         * The default number conversion of RapidJSON isn't exact, and its full-precision conversion accesses memory
+         * out of bounds for numbers that are too close to zero.
+         */
+        template<typename Handler>
+        struct ExactNumberHandler
+        {
+            bool Null() { return handler.Null(); }
+            bool Bool(bool value) { return handler.Bool(value); }
+            bool Int(int value) { return handler.Int(value); }
+            bool Uint(unsigned int value) { return handler.Uint(value); }
+            bool Int64(std::int64_t value) { return handler.Int64(value); }
+            bool Uint64(std::uint64_t value) { return handler.Uint64(value); }
+            bool Double(double value) { return handler.Double(value); }
+            bool String(const char* str, rapidjson::SizeType length, bool copy) { return handler.String(str, length, copy); }
+            bool StartObject() { return handler.StartObject(); }
+            bool Key(const char* str, rapidjson::SizeType length, bool copy) { return handler.Key(str, length, copy); }
+            bool EndObject(rapidjson::SizeType count) { return handler.EndObject(count); }
+            bool StartArray() { return handler.StartArray(); }
+            bool EndArray(rapidjson::SizeType count) { return handler.EndArray(count); }
+
+            bool RawNumber(const char* str, rapidjson::SizeType length, bool /*copy*/)
+            {
+                const char* last = str + length;
+                if (std::string_view(str, length).find_first_of(".eE") == std::string_view::npos) {
+                    if (*str == '-') {
+                        std::int64_t value;
+                        if (std::from_chars(str, last, value).ec == std::errc()) {
+                            return value >= std::numeric_limits<std::int32_t>::min() ? handler.Int(static_cast<int>(value)) : handler.Int64(value);
+                        }
+                    } else {
+                        std::uint64_t value;
+                        if (std::from_chars(str, last, value).ec == std::errc()) {
+                            return value <= std::numeric_limits<std::uint32_t>::max() ? handler.Uint(static_cast<unsigned int>(value)) : handler.Uint64(value);
+                        }
+                    }
+                }
+
+                double value;
+                if (std::from_chars(str, last, value).ec != std::errc()) {
+                    if (is_large(std::string_view(str, length))) {
+                        return false;
+                    }
+                    value = *str == '-' ? -0.0 : 0.0;
+                }
+                return handler.Double(value);
+            }
+
+            Handler& handler;
+
+        private:
+            /** True if a number that cannot be represented is too large, false if it is too close to zero. */
+            static bool is_large(const std::string_view& str)
+            {
+                std::size_t end = std::min(str.find_first_of("eE"), str.size());
+                std::size_t point = std::min(str.find('.'), end);
+                std::size_t digit = str.find_first_of("123456789");
+                int exponent = 0;
+                if (end < str.size()) {
+                    std::size_t start = str[end + 1] == '+' ? end + 2 : end + 1;
+                    auto result = std::from_chars(str.data() + start, str.data() + str.size(), exponent);
+                    if (result.ec != std::errc()) {
+                        return str[start] != '-';
+                    }
+                }
+                return static_cast<std::ptrdiff_t>(point) - static_cast<std::ptrdiff_t>(digit) + exponent > 0;
+            }
+        };
+
+        /** Reads JSON text from a stream. */
+        template<unsigned int Flags, typename InputStream, typename Handler>
+        rapidjson::ParseResult read(InputStream& stream, Handler& handler)
+        {
+            rapidjson::Reader reader;
+#if defined(__cpp_lib_to_chars)
+            ExactNumberHandler<Handler> number_handler{ handler };
+            return reader.Parse<Flags | rapidjson::kParseNumbersAsStringsFlag>(stream, number_handler);
+#else
+            return reader.Parse<Flags>(stream, handler);
+#endif
+        }
+
+        /** Reads JSON text from a stream into a document. */
+        template<unsigned int Flags, typename InputStream>
+        rapidjson::ParseResult read_document(InputStream& stream, rapidjson::Document& doc)
+        {
+            rapidjson::ParseResult result;
+            auto generator = [&](rapidjson::Document& handler) {
+                result = read<Flags>(stream, handler);
+                return !result.IsError();
+            };
+            doc.Populate(generator);
+            return result;
+        }
+
+        /** Reads a JSON string into a document. */
+        inline rapidjson::ParseResult read_document(const std::string& str, rapidjson::Document& doc)
+        {
+            rapidjson::StringStream stream(str.data());
+            return read_document<rapidjson::kParseDefaultFlags>(stream, doc);
+        }
+
+        /** Reads a JSON string into a document that refers to characters in the string. */
+        inline rapidjson::ParseResult read_document_insitu(std::string& str, rapidjson::Document& doc)
+        {
+            rapidjson::InsituStringStream stream(str.data());
+            return read_document<rapidjson::kParseInsituFlag>(stream, doc);
+        }
+    }
+}
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index bb8f24b..ca17690 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -1,7 +1,7 @@
 #pragma once
 #include "parse_base.hpp"
+#include "detail/reader.hpp"
 #include "exception.hpp"
-#include <rapidjson/reader.h>
 #include <rapidjson/error/en.h>
 
 namespace persistence
@@ -14,11 +14,7 @@ namespace persistence
             rapidjson::StringStream stream(str.data());
             try {
                 context.emplace<JsonParser<T>>(context, value);
-                rapidjson::Reader reader;
-
-                // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
-                // rapidjson from parsing numbers and emitting type-specific events
-                return reader.Parse<rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+                return read<rapidjson::kParseDefaultFlags>(stream, context.dispatcher);
             } catch (const stack_exhausted&) {
                 context.fail("JSON document has too many levels of nesting");
                 return rapidjson::ParseResult(rapidjson::kParseErrorTermination, stream.Tell());
diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index b9ba0a5..006fbb4 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "detail/config.hpp"
 #include "detail/pointer_traits.hpp"
+#include "detail/reader.hpp"
 #include <rapidjson/document.h>
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
@@ -25,7 +26,10 @@ namespace persistence
     inline rapidjson::Document string_to_document(const std::string& str)
     {
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseFullPrecisionFlag>(str.data());
+        if (detail::read_document(str, doc).IsError()) {
+            // record the error in the document
+            doc.Parse(str.data());
+        }
         return doc;
     }
 
-- 
2.43.0


From e270cf9540fab3d7ad3a7b0c73a737cc21467b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:55 +0000
Subject: [PATCH 27/33] fix: refuse enumeration names with an embedded zero
 character

---
 include/persistence/deserialize_enum.hpp | 3 ++-
 include/persistence/parse_enum.hpp       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_enum.hpp b/include/persistence/deserialize_enum.hpp
index 8c9bd41..c1823e0 100644
--- a/include/persistence/deserialize_enum.hpp
+++ b/include/persistence/deserialize_enum.hpp
@@ -75,7 +75,8 @@ namespace persistence
             }
 
             std::string_view view(json.GetString(), json.GetStringLength());
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(view.data(), value)) {
+            // names are compared as zero-terminated strings
+            PERSISTENCE_IF_UNLIKELY(view.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(view.data(), value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "unrecognized enumeration string value; got: " + std::string(view),
diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index a7b372a..fc63682 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -119,7 +119,8 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(s.literal.data(), ref)) {
+            // names are compared as zero-terminated strings
+            PERSISTENCE_IF_UNLIKELY(s.literal.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(s.literal.data(), ref)) {
                 context.fail("expected an enumeration string value; got: " + std::string(s.literal));
                 return false;
             }
-- 
2.43.0


From 12d2494511781dc3eaaa8dbe7bce74e3f8b95165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:55 +0000
Subject: [PATCH 28/33] fix: fail to write an enumeration value that has no
 name

---
 include/persistence/serialize_enum.hpp | 14 ++++++++++++--
 include/persistence/write_enum.hpp     | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/persistence/serialize_enum.hpp b/include/persistence/serialize_enum.hpp
index 562c8dd..6c4d5ef 100644
--- a/include/persistence/serialize_enum.hpp
+++ b/include/persistence/serialize_enum.hpp
@@ -29,8 +29,13 @@ namespace persistence
                 std::is_same_v<enum_to_string_function<T>, std::string_view>,
                 "expected function with signature: static std::string_view to_string(Enum)"
             );
+            std::string_view name = enum_traits<T>::to_string(value);
+            if (name.data() == nullptr) {
+                return false;  // not a named enumerator
+            }
+
             JsonSerializer<std::string_view> string_serializer;
-            return string_serializer(enum_traits<T>::to_string(value), json);
+            return string_serializer(name, json);
         }
     };
 
@@ -40,8 +45,13 @@ namespace persistence
     {
         bool operator()(T value, rapidjson::Value& json) const
         {
+            const char* name = ::boost::describe::enum_to_string(value, nullptr);
+            if (name == nullptr) {
+                return false;  // not a named enumerator
+            }
+
             JsonSerializer<std::string_view> string_serializer;
-            return string_serializer(::boost::describe::enum_to_string(value, ""), json);
+            return string_serializer(name, json);
         }
     };
 #endif
diff --git a/include/persistence/write_enum.hpp b/include/persistence/write_enum.hpp
index 91b2841..2f12075 100644
--- a/include/persistence/write_enum.hpp
+++ b/include/persistence/write_enum.hpp
@@ -29,8 +29,13 @@ namespace persistence
                 std::is_same_v<enum_to_string_function<T>, std::string_view>,
                 "expected function with signature: static std::string_view to_string(Enum)"
             );
+            std::string_view name = enum_traits<T>::to_string(value);
+            if (name.data() == nullptr) {
+                return false;  // not a named enumerator
+            }
+
             JsonWriter<std::string_view> string_writer;
-            return string_writer(enum_traits<T>::to_string(value), writer);
+            return string_writer(name, writer);
         }
     };
 
@@ -40,8 +45,13 @@ namespace persistence
     {
         bool operator()(T value, StringWriter& writer) const
         {
+            const char* name = ::boost::describe::enum_to_string(value, nullptr);
+            if (name == nullptr) {
+                return false;  // not a named enumerator
+            }
+
             JsonWriter<std::string_view> string_writer;
-            return string_writer(::boost::describe::enum_to_string(value, ""), writer);
+            return string_writer(name, writer);
         }
     };
 #endif
-- 
2.43.0


From 761569828b01c190b0d76788beef7c6951f920c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:13 +0000
Subject: [PATCH 29/33] fix: read a sequence of name and value pairs from the
 JSON object it is written as

---
 include/persistence/deserialize_map.hpp | 27 ++++++++++++++++++++
 include/persistence/parse_map.hpp       | 33 +++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/include/persistence/deserialize_map.hpp b/include/persistence/deserialize_map.hpp
index e04a171..3d2314d 100644
--- a/include/persistence/deserialize_map.hpp
+++ b/include/persistence/deserialize_map.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include "dictionary.hpp"
 #include "deserialize_base.hpp"
 #include "deserialize_check.hpp"
 #include "detail/deserialize_aware.hpp"
@@ -34,6 +35,32 @@ namespace persistence
         }
     };
 
+    /** De-serializes a JSON object into a sequence of name and value pairs, which is written as a JSON object. */
+    template<bool Exception, typename T>
+    struct JsonDeserializer<Exception, string_dict<T>> : JsonContextAwareDeserializer
+    {
+        using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
+
+        bool operator()(const rapidjson::Value& json, string_dict<T>& container) const
+        {
+            if (!detail::check_object<Exception>(json, context)) {
+                return false;
+            }
+
+            container.clear();
+            for (auto&& it = json.MemberBegin(); it != json.MemberEnd(); ++it) {
+                T item;
+                std::string_view name(it->name.GetString(), it->name.GetStringLength());
+                DeserializerContext item_context(context, Segment(name));
+                if (!deserialize<Exception>(it->value, item, item_context)) {
+                    return false;
+                }
+                container.emplace_back(std::string(name), std::move(item));
+            }
+            return true;
+        }
+    };
+
     template<bool Exception, typename T>
     struct JsonDeserializer<Exception, std::map<std::string, T>> : JsonDictionaryDeserializer<Exception, std::map<std::string, T>>
     {
diff --git a/include/persistence/parse_map.hpp b/include/persistence/parse_map.hpp
index 73593b2..0febbfb 100644
--- a/include/persistence/parse_map.hpp
+++ b/include/persistence/parse_map.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include "dictionary.hpp"
 #include "parse_base.hpp"
 #include <map>
 #include <unordered_map>
@@ -33,6 +34,32 @@ namespace persistence
         C& container;
     };
 
+    /** Parses a JSON object into a sequence of name and value pairs, which is written as a JSON object. */
+    template<typename T>
+    struct JsonMapParser<string_dict<T>> : JsonParseHandler<JsonObjectKey, JsonObjectEnd>
+    {
+        JsonMapParser(ReaderContext& context, string_dict<T>& container)
+            : JsonParseHandler(context)
+            , container(container)
+        {}
+
+        bool parse(const JsonObjectEnd&) override
+        {
+            context.pop();
+            return true;
+        }
+
+        bool parse(const JsonObjectKey& json_key) override
+        {
+            container.emplace_back(std::string(json_key.identifier), T());
+            context.emplace<JsonParser<T>>(context, container.back().second);
+            return true;
+        }
+
+    private:
+        string_dict<T>& container;
+    };
+
     template<typename C>
     struct JsonMappedTypeParser : JsonParseHandler<JsonObjectStart>
     {
@@ -53,6 +80,12 @@ namespace persistence
         C& container;
     };
 
+    template<typename T>
+    struct JsonParser<string_dict<T>> : JsonMappedTypeParser<string_dict<T>>
+    {
+        using JsonMappedTypeParser<string_dict<T>>::JsonMappedTypeParser;
+    };
+
     template<typename T>
     struct JsonParser<std::map<std::string, T>> : JsonMappedTypeParser<std::map<std::string, T>>
     {
-- 
2.43.0


From 6a43f72ddc81045ffe5b0607ed2efda4812fd889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:58 +0000
Subject: [PATCH 30/33] fix: let references identify no object of a discarded
 variant alternative

An alternative of a variant that fails half way has already recorded the
shared objects it read, and these took precedence over the objects of the
alternative that was eventually chosen.
---
 include/persistence/deserialize_variant.hpp   |  3 ++
 .../detail/deserialize_context.hpp            | 12 +++++++
 include/persistence/detail/references.hpp     | 34 +++++++++++++++++--
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_variant.hpp b/include/persistence/deserialize_variant.hpp
index 485e60c..1b357bd 100644
--- a/include/persistence/deserialize_variant.hpp
+++ b/include/persistence/deserialize_variant.hpp
@@ -33,7 +33,10 @@ namespace persistence
         bool deserialize_variant(const rapidjson::Value& json, std::variant<Ts...>& value) const
         {
             T var;
+            std::size_t count = context.reference_count();
             if (!deserialize<false>(json, var, context)) {
+                // references must not identify objects that are part of an alternative that has been discarded
+                context.discard_references(count);
                 return false;
             }
 
diff --git a/include/persistence/detail/deserialize_context.hpp b/include/persistence/detail/deserialize_context.hpp
index afdd9f9..c4d40b5 100644
--- a/include/persistence/detail/deserialize_context.hpp
+++ b/include/persistence/detail/deserialize_context.hpp
@@ -42,6 +42,18 @@ namespace persistence
             global.references.put(std::make_pair(pointer, std::type_index(typeid(T))), std::shared_ptr<void>(std::move(object)));
         }
 
+        /** Number of objects recorded so far that references may identify. */
+        std::size_t reference_count() const
+        {
+            return global.references.size();
+        }
+
+        /** Forgets objects that have been recorded since the given count was taken. */
+        void discard_references(std::size_t count)
+        {
+            global.references.rollback(count);
+        }
+
         rapidjson::Document& document()
         {
             return global.document();
diff --git a/include/persistence/detail/references.hpp b/include/persistence/detail/references.hpp
index 029fbc5..e0da049 100644
--- a/include/persistence/detail/references.hpp
+++ b/include/persistence/detail/references.hpp
@@ -1,6 +1,8 @@
 #pragma once
 #include <map>
 #include <optional>
+#include <utility>
+#include <vector>
 
 namespace persistence
 {
@@ -19,15 +21,43 @@ namespace persistence
 
         void put(const K& key, const V& value)
         {
-            references.insert(std::make_pair(key, value));
+            record(references.insert(std::make_pair(key, value)));
         }
 
         void put(K&& key, V&& value)
         {
-            references.insert(std::make_pair(std::move(key), std::move(value)));
+            record(references.insert(std::make_pair(std::move(key), std::move(value))));
+        }
+
+        /** Number of references added so far. */
+        std::size_t size() const
+        {
+            return order.size();
+        }
+
+        /** Removes the references that have been added since the table had the given size. */
+        void rollback(std::size_t size)
+        {
+            while (order.size() > size) {
+                references.erase(order.back());
+                order.pop_back();
+            }
+        }
+
+    private:
+        using iterator = typename std::map<K, V>::iterator;
+
+        void record(std::pair<iterator, bool> result)
+        {
+            if (result.second) {
+                order.push_back(result.first);
+            }
         }
 
     private:
         std::map<K, V> references;
+
+        /** References in the order they were added. */
+        std::vector<iterator> order;
     };
 }
-- 
2.43.0


From 117b2adb852243cdab758a47f588181921c62474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:18 +0000
Subject: [PATCH 31/33] fix: report failure of a user-defined deserializer that
 returns false

The variant that returns an object ignored the result, and delivered a
default or partially read object as if reading had succeeded.
---
 include/persistence/deserialize.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index 32b7f98..f75b536 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -1,6 +1,8 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "exception.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/path.hpp"
 #include "detail/reader.hpp"
 #include "detail/traits.hpp"
 #include <rapidjson/error/en.h>
@@ -55,7 +57,10 @@ namespace persistence
         T obj;
         GlobalDeserializerContext global(doc);
         DeserializerContext local(global);
-        deserialize<true>(doc, obj, local);
+        if (!deserialize<true>(doc, obj, local)) {
+            // user-defined deserializers are allowed to signal failure with a return value
+            throw JsonDeserializationError("deserialization failed", Path(local.segments()).str());
+        }
         return obj;
     }
 
-- 
2.43.0


From ec6870e5f4bd5745073c65e09a546efa5e07f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:40 +0000
Subject: [PATCH 32/33] fix: let parse() replace what the target object holds
 instead of adding to it

---
 include/persistence/parse_map.hpp    |  1 +
 include/persistence/parse_object.hpp | 34 ++++++++++++++++++++--------
 include/persistence/parse_set.hpp    |  1 +
 include/persistence/parse_vector.hpp |  1 +
 4 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/include/persistence/parse_map.hpp b/include/persistence/parse_map.hpp
index 0febbfb..e87a9e1 100644
--- a/include/persistence/parse_map.hpp
+++ b/include/persistence/parse_map.hpp
@@ -72,6 +72,7 @@ namespace persistence
 
         bool parse(const JsonObjectStart&) override
         {
+            container.clear();
             context.replace<JsonMapParser<C>>(context, container);
             return true;
         }
diff --git a/include/persistence/parse_object.hpp b/include/persistence/parse_object.hpp
index 9557f3a..ac9d73e 100644
--- a/include/persistence/parse_object.hpp
+++ b/include/persistence/parse_object.hpp
@@ -91,13 +91,29 @@ namespace persistence
 
     namespace detail
     {
+        /** Clears the value of an optional member variable whose property is absent from JSON. */
+        template<typename C, typename T, class B, auto P, typename D>
+        void reset_member(C& object, const member::variable<std::optional<T>, B, P, D>& member)
+        {
+            member.ref(object) = std::nullopt;
+        }
+
+        /** Keeps the value of a member variable with a default whose property is absent from JSON. */
+        template<typename C, typename T, class B, auto P, typename D>
+        void reset_member(C&, const member::variable_default<T, B, P, D>&)
+        {}
+
         /** Checks if a JSON object is allowed to end without a property. */
-        template<typename Member>
-        bool check_member(ReaderContext& context, bool seen)
+        template<typename Member, typename C>
+        bool check_member(ReaderContext& context, C& object, bool seen)
         {
-            PERSISTENCE_IF_UNLIKELY(is_required_member<Member>::value && !seen) {
-                context.fail("missing required property: " + std::string(Member().name()));
-                return false;
+            if (!seen) {
+                if constexpr (is_required_member<Member>::value) {
+                    context.fail("missing required property: " + std::string(Member().name()));
+                    return false;
+                } else {
+                    reset_member(object, Member());
+                }
             }
             return true;
         }
@@ -124,7 +140,7 @@ namespace persistence
 
         bool parse(const JsonObjectEnd&) override
         {
-            PERSISTENCE_IF_UNLIKELY(!detail::check_member<member_type>(context, seen)) {
+            PERSISTENCE_IF_UNLIKELY(!detail::check_member<member_type>(context, ref, seen)) {
                 return false;
             }
 
@@ -167,8 +183,8 @@ namespace persistence
         bool parse(const JsonObjectEnd&) override
         {
             PERSISTENCE_IF_UNLIKELY(
-                !detail::check_member<first_member_type>(context, first_seen) ||
-                !detail::check_member<second_member_type>(context, second_seen)
+                !detail::check_member<first_member_type>(context, ref, first_seen) ||
+                !detail::check_member<second_member_type>(context, ref, second_seen)
             ) {
                 return false;
             }
@@ -248,7 +264,7 @@ namespace persistence
         template<std::size_t... Indices>
         bool check_members(std::index_sequence<Indices...>)
         {
-            return (... && detail::check_member<std::tuple_element_t<Indices, typename class_traits<C>::member_types>>(context, seen.test(Indices)));
+            return (... && detail::check_member<std::tuple_element_t<Indices, typename class_traits<C>::member_types>>(context, ref, seen.test(Indices)));
         }
 
         constexpr static auto member_names()
diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index 4eae249..15db878 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -249,6 +249,7 @@ namespace persistence
 
         bool parse(const JsonArrayStart&) override
         {
+            ref.clear();
             context.replace<JsonSetParser<T>>(context, ref);
             return true;
         }
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index 5d92339..b94dee8 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -240,6 +240,7 @@ namespace persistence
 
         bool parse(const JsonArrayStart&) override
         {
+            ref.clear();
             context.replace<JsonArrayParser<T>>(context, ref);
             return true;
         }
-- 
2.43.0


From cfbd3c961a8fdfe6a8212e1122bf824de52c12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:30 +0000
Subject: [PATCH 33/33] fix: do not let deeply nested JSON text exhaust the
 call stack

The recursive reader of RapidJSON descends one call level per level of nesting in the text
before the document is matched with the type.
---
 include/persistence/detail/reader.hpp | 3 ++-
 include/persistence/utility.hpp       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/reader.hpp b/include/persistence/detail/reader.hpp
index e0830aa..9f7cf95 100644
--- a/include/persistence/detail/reader.hpp
+++ b/include/persistence/detail/reader.hpp
@@ -105,7 +105,8 @@ namespace persistence
         {
             rapidjson::ParseResult result;
             auto generator = [&](rapidjson::Document& handler) {
-                result = read<Flags>(stream, handler);
+                // levels of nesting in the text may not exhaust the call stack
+                result = read<Flags | rapidjson::kParseIterativeFlag>(stream, handler);
                 return !result.IsError();
             };
             doc.Populate(generator);
diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index 006fbb4..2ed7cbf 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -28,7 +28,7 @@ namespace persistence
         rapidjson::Document doc;
         if (detail::read_document(str, doc).IsError()) {
             // record the error in the document
-            doc.Parse(str.data());
+            doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseIterativeFlag>(str.data());
         }
         return doc;
     }
-- 
2.43.0

