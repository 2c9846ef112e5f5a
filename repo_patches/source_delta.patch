From d58c73318bcafad5ef6a1d9778e1691bfeda8755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 01/67] fix: typed move assignment of a property subset did not
 compile

---
 lib/include/dots/type/StaticStruct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/type/StaticStruct.h b/lib/include/dots/type/StaticStruct.h
index db15854..8fab9e9 100644
--- a/lib/include/dots/type/StaticStruct.h
+++ b/lib/include/dots/type/StaticStruct.h
@@ -120,7 +120,7 @@ namespace dots::type
                     }
                     else
                     {
-                        propertyThis.destroy();
+                        propertyThis = dots::invalid;
                     }
                 };
                 (void)assign;
-- 
2.43.0


From 2fc83e814796aa173e1ed0635c055d6ede9743fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 02/67] fix: moving a record through the generic descriptor
 left its copy's property area uninitialised

---
 lib/src/type/StructDescriptor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/type/StructDescriptor.cpp b/lib/src/type/StructDescriptor.cpp
index 4db3bfe..1085e6e 100644
--- a/lib/src/type/StructDescriptor.cpp
+++ b/lib/src/type/StructDescriptor.cpp
@@ -68,7 +68,7 @@ namespace dots::type
 
     Typeless& StructDescriptor::construct(Typeless& value, Typeless&& other) const
     {
-        return Typeless::From(construct(value.to<Struct>(), other.to<Struct>()));
+        return Typeless::From(construct(value.to<Struct>(), std::move(other).to<Struct>()));
     }
 
     Struct& StructDescriptor::construct(Struct& instance, Struct&& other) const
-- 
2.43.0


From 39b0331d167a883bfda45fed60f63aa62d1aec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 03/67] fix: skipping an unknown CBOR string, array or map with
 24 or more elements consumed its length twice

---
 lib/include/dots/serialization/formats/CborReader.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index d45a63e..0186497 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -218,6 +218,7 @@ namespace dots::serialization
                 }
                 else
                 {
+                    assertInputAvailable(numBytes);
                     value = 0;
 
                     for (int16_t i = numBytes - 1; i >= 0; --i)
@@ -226,8 +227,6 @@ namespace dots::serialization
                     }
                 }
 
-                consume(numBytes);
-
                 return value;
             };
 
-- 
2.43.0


From 4a7fb3bef7901040ca7004ac262b36ac9ee4fa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 04/67] fix: resizing a vector of run-time described records
 appended instead of resizing

---
 lib/include/dots/type/VectorDescriptor.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/type/VectorDescriptor.h b/lib/include/dots/type/VectorDescriptor.h
index b6f5968..f999c44 100644
--- a/lib/include/dots/type/VectorDescriptor.h
+++ b/lib/include/dots/type/VectorDescriptor.h
@@ -163,11 +163,17 @@ namespace dots::type
             }
             else
             {
+                if (size <= vector.size())
+                {
+                    vector.erase(vector.begin() + static_cast<typename Vector<T>::difference_type>(size), vector.end());
+                    return;
+                }
+
                 const auto& valueDescriptor = Descriptor::valueDescriptor();
                 std::aligned_storage_t<sizeof(T), alignof(T)> rawStorage;
                 T& storage = reinterpret_cast<T&>(rawStorage);
 
-                for (size_t i = 0; i < size; ++i)
+                for (size_t i = vector.size(); i < size; ++i)
                 {
                     valueDescriptor.construct(storage);
                     vector.emplace_back(std::move(storage));
-- 
2.43.0


From 0aad6da0e6175ec97f61f39995400011daf0d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 05/67] fix: reading a vector from text appended to the
 elements the vector already held

---
 lib/include/dots/serialization/RapidJsonSerializer.h | 1 +
 lib/include/dots/serialization/TextSerializer.h      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/include/dots/serialization/RapidJsonSerializer.h b/lib/include/dots/serialization/RapidJsonSerializer.h
index 63a14d5..50d9303 100644
--- a/lib/include/dots/serialization/RapidJsonSerializer.h
+++ b/lib/include/dots/serialization/RapidJsonSerializer.h
@@ -458,6 +458,7 @@ namespace dots::serialization
         bool visitVectorBeginDerived(vector_t<T>& vector, const type::Descriptor<vector_t<T>>& descriptor)
         {
             m_reader.readArrayBegin();
+            descriptor.fill(vector, 0);
 
             while (!m_reader.tryReadArrayEnd())
             {
diff --git a/lib/include/dots/serialization/TextSerializer.h b/lib/include/dots/serialization/TextSerializer.h
index b829dbd..b6c9ee0 100644
--- a/lib/include/dots/serialization/TextSerializer.h
+++ b/lib/include/dots/serialization/TextSerializer.h
@@ -251,6 +251,7 @@ namespace dots::serialization
         bool visitVectorBeginDerived(vector_t<T>& vector, const type::Descriptor<vector_t<T>>& descriptor)
         {
             reader().readArrayBegin();
+            descriptor.fill(vector, 0);
 
             while (!reader().tryReadArrayEnd())
             {
-- 
2.43.0


From f784ec3bae8435e964ed402ffe7c0f254d5c9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 06/67] fix: text floats were written with too few digits and
 read past the end of the input

---
 lib/include/dots/serialization/formats/TextReader.h | 3 ++-
 lib/include/dots/serialization/formats/TextWriter.h | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 12a7d80..04c16db 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -2,6 +2,7 @@
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
 #include <string>
+#include <charconv>
 #include <vector>
 #include <stack>
 #include <dots/serialization/formats/Reader.h>
@@ -440,7 +441,7 @@ namespace dots::serialization
         template <typename T, std::enable_if_t<std::is_floating_point_v<T>, int> = 0>
         void read(T& value)
         {
-            #if (defined _MSC_VER) && (!defined __INTEL_COMPILER)
+            #if ((defined _MSC_VER) && (!defined __INTEL_COMPILER)) || (defined __cpp_lib_to_chars)
             constexpr bool HasFpFromChars = true;
             #else
             constexpr bool HasFpFromChars = false;
diff --git a/lib/include/dots/serialization/formats/TextWriter.h b/lib/include/dots/serialization/formats/TextWriter.h
index 72781a6..bb4dae3 100644
--- a/lib/include/dots/serialization/formats/TextWriter.h
+++ b/lib/include/dots/serialization/formats/TextWriter.h
@@ -2,6 +2,7 @@
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
 #include <string>
+#include <charconv>
 #include <stack>
 #include <dots/serialization/formats/Writer.h>
 #include <dots/serialization/formats/TextFormat.h>
@@ -171,7 +172,7 @@ namespace dots::serialization
         {
             initiateWrite();
 
-            #if (defined _MSC_VER) && (!defined __INTEL_COMPILER)
+            #if ((defined _MSC_VER) && (!defined __INTEL_COMPILER)) || (defined __cpp_lib_to_chars)
             constexpr bool HasFpToChars = true;
             #else
             constexpr bool HasFpToChars = false;
@@ -192,7 +193,7 @@ namespace dots::serialization
                 else
                 {
                     std::ostringstream oss;
-                    oss << std::setprecision(std::numeric_limits<T>::digits10 + 1) << value;
+                    oss << std::setprecision(std::numeric_limits<T>::max_digits10) << value;
                     append(oss.str());
                 }
             }
-- 
2.43.0


From 7df2dbd042fb0688ce58ed7fc57afbff9d09b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 07/67] fix: multi line text put a separator between the type
 name and the body of records in a vector

---
 lib/include/dots/serialization/formats/TextWriter.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextWriter.h b/lib/include/dots/serialization/formats/TextWriter.h
index bb4dae3..c1e501a 100644
--- a/lib/include/dots/serialization/formats/TextWriter.h
+++ b/lib/include/dots/serialization/formats/TextWriter.h
@@ -48,16 +48,12 @@ namespace dots::serialization
         {
             if constexpr (format_t::ObjectFormat == TextFormat::ObjectFormat::WithTypeName)
             {
-                if (m_options.style == TextOptions::SingleLine)
-                {
-                    if (m_nesting.empty())
-                    {
-                        writeString(objectTypeName);
-                    }
-                }
-                else if (m_options.style >= TextOptions::MultiLine)
+                if ((m_options.style == TextOptions::SingleLine && m_nesting.empty()) || m_options.style >= TextOptions::MultiLine)
                 {
                     writeString(objectTypeName);
+                    append(format_t::ObjectBegin);
+                    m_nesting.emplace(State::Object, true);
+                    return;
                 }
             }
             else
-- 
2.43.0


From 60cb18ecdd1b678f219f7fea24535d85dafb5bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 08/67] fix: text reading skipped leading non ASCII characters
 as white space

---
 lib/include/dots/serialization/formats/TextReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 04c16db..b878752 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -512,7 +512,7 @@ namespace dots::serialization
 
         void consumeWhitespace()
         {
-            while (!input().empty() && input().front() < '!')
+            while (!input().empty() && static_cast<unsigned char>(input().front()) < '!')
             {
                 inputAdvance(1);
             }
-- 
2.43.0


From 54fa8c4b958f50a48773cfdb63881daa7065b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 09/67] fix: reading an identifier indexed out of bounds on a
 non ASCII character

---
 lib/include/dots/serialization/formats/TextReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index b878752..bc04412 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -249,7 +249,7 @@ namespace dots::serialization
                 return identifierSymbols;
             }();
 
-            auto it = std::find_if_not(input().begin(), input().end(), [](char c){ return IdentifierSymbols[static_cast<size_t>(c)]; });
+            auto it = std::find_if_not(input().begin(), input().end(), [](char c){ return IdentifierSymbols[static_cast<unsigned char>(c)]; });
             size_t identifierSize = it == input().end() ? input().size() : std::distance(input().begin(), it);
             std::string_view identifier = input().substr(0, identifierSize);
             inputAdvance(identifierSize);
-- 
2.43.0


From e4bbd680609d93297ba21355430a5430f24f9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 10/67] fix: skipping an unterminated array in text never
 returned

---
 lib/include/dots/serialization/formats/TextReader.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index bc04412..1adf194 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -297,7 +297,13 @@ namespace dots::serialization
 
                     while (!tryReadArrayEnd())
                     {
+                        const auto* elementBegin = inputData();
                         skip();
+
+                        if (inputData() == elementBegin)
+                        {
+                            throw makeTokenError(format_t::ArrayEnd);
+                        }
                     }
 
                     break;
-- 
2.43.0


From 69626898799084bc3e3c377c9e10ac0094c4abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 11/67] fix: the error report of the CBOR reader read one byte
 past the end of the input

---
 lib/src/serialization/formats/CborReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/serialization/formats/CborReader.cpp b/lib/src/serialization/formats/CborReader.cpp
index f12c6f8..5591265 100644
--- a/lib/src/serialization/formats/CborReader.cpp
+++ b/lib/src/serialization/formats/CborReader.cpp
@@ -35,7 +35,7 @@ namespace dots::serialization
         throw SerializerException{msg,
                                   details,
                                   offset,
-                                  std::span(inputDataBegin(), inputDataEnd() + 1)};
+                                  std::span(inputDataBegin(), inputDataEnd())};
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From 8cd7c5976ede41ce27c4e5fc50980b2790a3f2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 12/67] fix: reading a signed CBOR integer from exhausted input
 read past its end

---
 lib/include/dots/serialization/formats/CborReader.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 0186497..4b1b2b1 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -67,6 +67,8 @@ namespace dots::serialization
         {
             using unsigned_t = std::make_unsigned_t<T>;
 
+            assertInputAvailable(1);
+
             if (uint8_t majorType = *inputData() & cbor_t::MajorType::Mask; majorType == cbor_t::MajorType::SignedInt)
             {
                 unsigned_t unsignedValue = readHead<unsigned_t>(cbor_t::MajorType::SignedInt);
-- 
2.43.0


From 400c7a3afdda205e41a261feff99cbda7ae29b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 13/67] fix: reading a CBOR simple value as a float read four
 unchecked bytes

---
 lib/include/dots/serialization/formats/CborReader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 4b1b2b1..25cea44 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -166,6 +166,10 @@ namespace dots::serialization
                         value = static_cast<T>(static_cast<bool>(sign) ? -float64 : float64);
                     }
                 }
+                else if (numBytes < sizeof(uint16_t))
+                {
+                    throwException("encountered unexpected simple value when deserializing floating point", additionalInformation);
+                }
                 else/* if (numBytes == sizeof(float))*/
                 {
                     value = static_cast<T>(readPunnedContingentBytes<float>());
-- 
2.43.0


From 88a354aa355d9e3da7111eae3814549c437f7803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 14/67] fix: a CBOR array size was trusted for allocation
 before checking it against the input

---
 lib/include/dots/serialization/formats/CborReader.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 25cea44..50ee35b 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -19,7 +19,10 @@ namespace dots::serialization
 
         size_t readArraySize()
         {
-            return readHead<size_t>(cbor_t::MajorType::Array);
+            size_t size = readHead<size_t>(cbor_t::MajorType::Array);
+            assertInputAvailable(size);
+
+            return size;
         }
 
         void readArrayBegin()
-- 
2.43.0


From c5d8cd9333e4fa64537d9cc316511c006eb096a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 15/67] fix: skipping deeply nested CBOR overflowed the stack

---
 .../dots/serialization/formats/CborReader.h   | 39 ++++++++++---------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 50ee35b..c4fcd4f 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -181,6 +181,21 @@ namespace dots::serialization
         }
 
         void skip()
+        {
+            size_t pendingItems = 1;
+
+            while (pendingItems > 0)
+            {
+                --pendingItems;
+                size_t nestedItems = skipHead();
+                assertInputAvailable(nestedItems);
+                pendingItems += nestedItems;
+            }
+        }
+
+    private:
+
+        size_t skipHead()
         {
             assertInputAvailable(1);
             uint8_t initialByte = readByte();
@@ -251,32 +266,18 @@ namespace dots::serialization
             }
             else if (any_of(cbor_t::MajorType::Array))
             {
-                size_t size = read_size();
-
-                if (size > 0)
-                {
-                    while (size--)
-                    {
-                        skip();
-                    }
-                }
+                return read_size();
             }
             else if (any_of(cbor_t::MajorType::Map))
             {
                 size_t size = read_size();
+                assertInputAvailable(size);
 
-                if (size > 0)
-                {
-                    while (size--)
-                    {
-                        skip();
-                        skip();
-                    }
-                }
+                return 2 * size;
             }
-        }
 
-    private:
+            return 0;
+        }
 
         void throwInvalidSize(const std::string& msg, std::size_t expected, std::size_t size) const;
         void throwUnexpectedHeadException(uint8_t expectedHead, uint8_t head) const;
-- 
2.43.0


From 71a3b56bb039d01e45872c6c0c9b36fcb8087858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 16/67] fix: RapidJSON numbers outside of an integer type were
 silently truncated or misread

---
 .../serialization/formats/RapidJsonReader.h   | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index c9af5fe..8359d04 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <limits>
 #include <stack>
 #include <rapidjson/document.h>
 
@@ -254,25 +255,21 @@ namespace dots::serialization
 
             if constexpr (std::is_signed_v<T>)
             {
-                if constexpr (sizeof(T) <= sizeof(int))
+                if (!m_input->IsInt64() || m_input->GetInt64() < std::numeric_limits<T>::min() || m_input->GetInt64() > std::numeric_limits<T>::max())
                 {
-                    value = static_cast<T>(m_input->GetInt());
-                }
-                else/* if (sizeof(T) == sizeof(int64_t))*/
-                {
-                    value = static_cast<T>(m_input->GetInt64());
+                    throw std::runtime_error{ "encountered JSON number that is not a valid value of the expected integer type" };
                 }
+
+                value = static_cast<T>(m_input->GetInt64());
             }
             else/* if constexpr (std::is_unsigned_v<T>)*/
             {
-                if constexpr (sizeof(T) <= sizeof(unsigned))
+                if (!m_input->IsUint64() || m_input->GetUint64() > std::numeric_limits<T>::max())
                 {
-                    value = static_cast<T>(m_input->GetUint());
-                }
-                else/* if (sizeof(T) == sizeof(uint64_t))*/
-                {
-                    value = static_cast<T>(m_input->GetUint64());
+                    throw std::runtime_error{ "encountered JSON number that is not a valid value of the expected integer type" };
                 }
+
+                value = static_cast<T>(m_input->GetUint64());
             }
         }
 
-- 
2.43.0


From c018f3cd0891307ab86ea2f1e497678487bffe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 17/67] fix: strings read through RapidJSON ended at the first
 NUL character

---
 lib/include/dots/serialization/formats/RapidJsonReader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index 8359d04..9f02269 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -291,13 +291,13 @@ namespace dots::serialization
         void read(std::string& value)
         {
             assertType(rapidjson::kStringType);
-            value = m_input->GetString();
+            value.assign(m_input->GetString(), m_input->GetStringLength());
         }
 
         void read(std::string_view& value)
         {
             assertType(rapidjson::kStringType);
-            value = m_input->GetString();
+            value = std::string_view{ m_input->GetString(), m_input->GetStringLength() };
         }
 
         void finalizeRead()
-- 
2.43.0


From 71e6eacf8611182017ed044b3cb7ae1d40af2563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 18/67] fix: deeply nested JSON overflowed the stack, and
 numbers were parsed with reduced precision

---
 lib/include/dots/serialization/formats/RapidJsonReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index 9f02269..8da9d5b 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -62,7 +62,7 @@ namespace dots::serialization
         void setInput(std::string_view input)
         {
             document_t document;
-            document.Parse(input.data(), input.size());
+            document.template Parse<rapidjson::kParseIterativeFlag | rapidjson::kParseFullPrecisionFlag>(input.data(), input.size());
             setInput(std::move(document));
         }
 
-- 
2.43.0


From cf35995e11811e683eda73777ed3742ab8e1f730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 19/67] fix: JSON text contained unescaped control characters

---
 .../dots/serialization/formats/TextFormat.h   | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextFormat.h b/lib/include/dots/serialization/formats/TextFormat.h
index 01060c1..55993b9 100644
--- a/lib/include/dots/serialization/formats/TextFormat.h
+++ b/lib/include/dots/serialization/formats/TextFormat.h
@@ -11,7 +11,7 @@ namespace dots::serialization
             std::string_view from;
             std::string_view to;
         };
-        static constexpr std::array<string_escape_mapping, 8> StringEscapeMapping{
+        static constexpr std::array<string_escape_mapping, 35> StringEscapeMapping{
             string_escape_mapping{ "\"", "\\\"" },
             string_escape_mapping{ "\\", "\\\\" },
             string_escape_mapping{ "/", "\\/" },
@@ -19,7 +19,34 @@ namespace dots::serialization
             string_escape_mapping{ "\f", "\\f" },
             string_escape_mapping{ "\n", "\\n" },
             string_escape_mapping{ "\r", "\\r" },
-            string_escape_mapping{ "\t", "\\t" }
+            string_escape_mapping{ "\t", "\\t" },
+            string_escape_mapping{ std::string_view{ "\x00", 1 }, "\\u0000" },
+            string_escape_mapping{ std::string_view{ "\x01", 1 }, "\\u0001" },
+            string_escape_mapping{ std::string_view{ "\x02", 1 }, "\\u0002" },
+            string_escape_mapping{ std::string_view{ "\x03", 1 }, "\\u0003" },
+            string_escape_mapping{ std::string_view{ "\x04", 1 }, "\\u0004" },
+            string_escape_mapping{ std::string_view{ "\x05", 1 }, "\\u0005" },
+            string_escape_mapping{ std::string_view{ "\x06", 1 }, "\\u0006" },
+            string_escape_mapping{ std::string_view{ "\x07", 1 }, "\\u0007" },
+            string_escape_mapping{ std::string_view{ "\x0B", 1 }, "\\u000B" },
+            string_escape_mapping{ std::string_view{ "\x0E", 1 }, "\\u000E" },
+            string_escape_mapping{ std::string_view{ "\x0F", 1 }, "\\u000F" },
+            string_escape_mapping{ std::string_view{ "\x10", 1 }, "\\u0010" },
+            string_escape_mapping{ std::string_view{ "\x11", 1 }, "\\u0011" },
+            string_escape_mapping{ std::string_view{ "\x12", 1 }, "\\u0012" },
+            string_escape_mapping{ std::string_view{ "\x13", 1 }, "\\u0013" },
+            string_escape_mapping{ std::string_view{ "\x14", 1 }, "\\u0014" },
+            string_escape_mapping{ std::string_view{ "\x15", 1 }, "\\u0015" },
+            string_escape_mapping{ std::string_view{ "\x16", 1 }, "\\u0016" },
+            string_escape_mapping{ std::string_view{ "\x17", 1 }, "\\u0017" },
+            string_escape_mapping{ std::string_view{ "\x18", 1 }, "\\u0018" },
+            string_escape_mapping{ std::string_view{ "\x19", 1 }, "\\u0019" },
+            string_escape_mapping{ std::string_view{ "\x1A", 1 }, "\\u001A" },
+            string_escape_mapping{ std::string_view{ "\x1B", 1 }, "\\u001B" },
+            string_escape_mapping{ std::string_view{ "\x1C", 1 }, "\\u001C" },
+            string_escape_mapping{ std::string_view{ "\x1D", 1 }, "\\u001D" },
+            string_escape_mapping{ std::string_view{ "\x1E", 1 }, "\\u001E" },
+            string_escape_mapping{ std::string_view{ "\x1F", 1 }, "\\u001F" }
         };
 
         static constexpr std::string_view StringDelimiter = "\"";
-- 
2.43.0


From b17843a250732395ab3dc0e7259324f96b8146db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 20/67] fix: skipping deeply nested text overflowed the stack

---
 .../dots/serialization/formats/TextReader.h   | 76 ++++++++++++-------
 1 file changed, 47 insertions(+), 29 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 1adf194..aee7e76 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -281,6 +281,53 @@ namespace dots::serialization
         }
 
         void skip()
+        {
+            size_t level = m_nesting.size();
+
+            do
+            {
+                if (m_nesting.size() > level)
+                {
+                    if (m_nesting.top().first == State::Array)
+                    {
+                        if (tryReadArrayEnd())
+                        {
+                            continue;
+                        }
+                    }
+                    else
+                    {
+                        if (tryReadObjectEnd())
+                        {
+                            continue;
+                        }
+
+                        readObjectMemberName();
+                    }
+                }
+
+                const auto* valueBegin = inputData();
+                skipValueBegin();
+
+                if (m_nesting.size() > level && inputData() == valueBegin)
+                {
+                    throw makeTokenError("<value>");
+                }
+            }
+            while (m_nesting.size() > level);
+        }
+
+    private:
+
+        enum struct State : uint8_t
+        {
+            Array,
+            Object
+        };
+
+        using nesting_t = std::pair<State, bool>;
+
+        void skipValueBegin()
         {
             consumeWhitespace();
 
@@ -294,30 +341,11 @@ namespace dots::serialization
                 else if (tools::starts_with(input(), format_t::ArrayBegin))
                 {
                     readArrayBegin();
-
-                    while (!tryReadArrayEnd())
-                    {
-                        const auto* elementBegin = inputData();
-                        skip();
-
-                        if (inputData() == elementBegin)
-                        {
-                            throw makeTokenError(format_t::ArrayEnd);
-                        }
-                    }
-
                     break;
                 }
                 else if (tools::starts_with(input(), format_t::ObjectBegin))
                 {
                     readObjectBegin();
-
-                    while (!tryReadObjectEnd())
-                    {
-                        readObjectMemberName();
-                        skip();
-                    }
-
                     break;
                 }
                 else if (tools::starts_with(input(), format_t::ArrayElementSeparator))
@@ -341,16 +369,6 @@ namespace dots::serialization
             }
         }
 
-    private:
-
-        enum struct State : uint8_t
-        {
-            Array,
-            Object
-        };
-
-        using nesting_t = std::pair<State, bool>;
-
         template <typename T, std::enable_if_t<std::is_same_v<std::decay_t<T>, bool>, int> = 0>
         void read(T& value)
         {
-- 
2.43.0


From fab59f9330a1fdad3d788a1b503817ebadc6b5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 21/67] fix: string views were read past their end as if they
 were zero terminated

---
 lib/src/io/auth/Nonce.cpp                |  2 +-
 lib/src/io/channels/UdsListener.cpp      |  2 +-
 lib/src/io/channels/WebSocketChannel.cpp |  2 +-
 lib/src/type/Chrono.cpp                  | 13 +++++++------
 lib/src/type/DescriptorMap.cpp           |  4 ++--
 lib/src/type/EnumDescriptor.cpp          |  2 +-
 lib/src/type/Registry.cpp                |  6 +++---
 7 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/lib/src/io/auth/Nonce.cpp b/lib/src/io/auth/Nonce.cpp
index 99f93c4..7d4091c 100644
--- a/lib/src/io/auth/Nonce.cpp
+++ b/lib/src/io/auth/Nonce.cpp
@@ -23,7 +23,7 @@ namespace dots::io
         Nonce([&]
         {
             value_t value;
-            std::istringstream iss{ stringValue.data() };
+            std::istringstream iss{ std::string{ stringValue } };
             iss >> std::setw(16) >> std::hex >> value;
 
             return value;
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index a052332..b2a9061 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -15,7 +15,7 @@ namespace dots::io::posix::details
 
     template <typename TChannel>
     GenericUdsListener<TChannel>::GenericUdsListener(asio::io_context& ioContext, std::string_view path, std::optional<int> backlog/* = std::nullopt*/) :
-        m_endpoint{ path.data() },
+        m_endpoint{ std::string{ path } },
         m_acceptor{ ioContext },
         m_socket{ ioContext },
         m_payloadCache{ 0, UdsChannel::buffer_t{} }
diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index 733056b..51a229b 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -33,7 +33,7 @@ namespace dots::io
             }));
 
             boost::beast::websocket::response_type res;
-            m_stream.handshake(res, host.data(), "/");
+            m_stream.handshake(res, std::string{ host }, "/");
 
             if (auto it = res.find(boost::beast::http::field::sec_websocket_protocol); it == res.end())
             {
diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index fdc8b30..cab67f2 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -86,7 +86,7 @@ namespace dots::type
         // it is pretty slow and should be overhauled at a later point
         std::regex regex{ R"(P([0-9\.]+Y)?([0-9\.]+M)?([0-9\.]+W)?([0-9\.]+D)?(T)([0-9\.]+H)?([0-9\.]+M)?([0-9\.]+S)?)", std::regex_constants::ECMAScript };
         std::smatch match;
-        std::string input = value.data();
+        std::string input{ value };
 
         if (!std::regex_match(input, match, regex) || match.size() <= 1)
         {
@@ -172,7 +172,8 @@ namespace dots::type
             {
                 std::ostringstream oss;
                 oss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
-                const char* fmtData = fmt == ISO8601DateTime ? "%FT%T%Ez" : fmt.data();
+                std::string fmtStr{ fmt == ISO8601DateTime ? "%FT%T%Ez" : fmt };
+                const char* fmtData = fmtStr.c_str();
                 sys_time_t sysTimePoint{ std::chrono::duration_cast<sys_duration_t>(duration()) };
 
                 if (utc)
@@ -221,7 +222,7 @@ namespace dots::type
     {
         if (fmt.empty())
         {
-            std::istringstream iss{ value.data() };
+            std::istringstream iss{ std::string{ value } };
             iss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
             duration_t::rep count;
             iss >> count;
@@ -236,13 +237,13 @@ namespace dots::type
             }
             else
             {
-                std::istringstream iss{ value.data() };
+                std::istringstream iss{ std::string{ value } };
                 iss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
                 sys_time_t sysTimePoint;
 
                 if (fmt == ISO8601DateTime)
                 {
-                    if (value.back() == 'Z')
+                    if (!value.empty() && value.back() == 'Z')
                     {
                         fmt = "%FT%TZ";
                     }
@@ -252,7 +253,7 @@ namespace dots::type
                     }
                 }
 
-                iss >> date::parse(fmt.data(), sysTimePoint);
+                iss >> date::parse(std::string{ fmt }, sysTimePoint);
                 return TimePointImpl{ sysTimePoint.time_since_epoch() };
             }
         }
diff --git a/lib/src/type/DescriptorMap.cpp b/lib/src/type/DescriptorMap.cpp
index b0c44d5..f8076f0 100644
--- a/lib/src/type/DescriptorMap.cpp
+++ b/lib/src/type/DescriptorMap.cpp
@@ -36,7 +36,7 @@ namespace dots::type
         {
             if (assertNotNull)
             {
-                throw std::logic_error{ std::string{ "no type with name: " } + name.data() };
+                throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
             }
             else
             {
@@ -103,7 +103,7 @@ namespace dots::type
         {
             if (assertContainedType)
             {
-                throw std::logic_error{ std::string{ "no type with name: " } + name.data() };
+                throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
             }
         }
         else
diff --git a/lib/src/type/EnumDescriptor.cpp b/lib/src/type/EnumDescriptor.cpp
index 18f5086..81df0de 100644
--- a/lib/src/type/EnumDescriptor.cpp
+++ b/lib/src/type/EnumDescriptor.cpp
@@ -134,7 +134,7 @@ namespace dots::type
 
         if (it == m_enumerators.end())
         {
-            throw std::logic_error{ "Enum '" + Descriptor<>::name() + "' does not have enumerator with given name: " + name.data() };
+            throw std::logic_error{ "Enum '" + Descriptor<>::name() + "' does not have enumerator with given name: " + std::string{ name } };
         }
 
         return *it;
diff --git a/lib/src/type/Registry.cpp b/lib/src/type/Registry.cpp
index 0a39494..f797751 100644
--- a/lib/src/type/Registry.cpp
+++ b/lib/src/type/Registry.cpp
@@ -103,7 +103,7 @@ namespace dots::type
         {
             if (assertNotNull)
             {
-                throw std::logic_error{std::string{"no type registered with name1: "} + name.data()};
+                throw std::logic_error{std::string{"no type registered with name1: "} + std::string{name}};
             }
             else
             {
@@ -127,7 +127,7 @@ namespace dots::type
 
         if (assertNotNull && descriptor == nullptr)
         {
-            throw std::logic_error{ std::string{ "registered type with name '" } + name.data() + "' is not an enum type" };
+            throw std::logic_error{ std::string{ "registered type with name '" } + std::string{ name } + "' is not an enum type" };
         }
 
         return descriptor;
@@ -144,7 +144,7 @@ namespace dots::type
 
         if (assertNotNull && descriptor == nullptr)
         {
-            throw std::logic_error{ std::string{ "registered type with name '" } + name.data() + "' is not a struct type" };
+            throw std::logic_error{ std::string{ "registered type with name '" } + std::string{ name } + "' is not a struct type" };
         }
 
         return descriptor;
-- 
2.43.0


From 6f2c908cdd6a63090269b2a30550b3abe6f2723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 22/67] fix: handlers and instances were destroyed while a
 nested dispatch still used them

---
 lib/include/dots/Dispatcher.h |  19 +++++-
 lib/src/Dispatcher.cpp        | 108 ++++++++++++++++++++++++++++------
 2 files changed, 108 insertions(+), 19 deletions(-)

diff --git a/lib/include/dots/Dispatcher.h b/lib/include/dots/Dispatcher.h
index 86c61fa..6585bf9 100644
--- a/lib/include/dots/Dispatcher.h
+++ b/lib/include/dots/Dispatcher.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <list>
 #include <map>
 #include <unordered_map>
 #include <functional>
@@ -347,8 +348,22 @@ namespace dots
         template <typename Handlers, typename Dispatchable>
         void dispatchToHandlers(const type::StructDescriptor& descriptor, Handlers& handlers, const Dispatchable& dispatchable);
 
-        std::optional<id_t> m_currentlyDispatchingId;
-        std::vector<id_t> m_removeIds;
+        struct DispatchScope
+        {
+            explicit DispatchScope(Dispatcher& dispatcher);
+            DispatchScope(const DispatchScope& other) = delete;
+            ~DispatchScope();
+
+            DispatchScope& operator = (const DispatchScope& rhs) = delete;
+
+        private:
+
+            Dispatcher& m_dispatcher;
+        };
+
+        size_t m_dispatchDepth = 0;
+        std::map<id_t, const type::StructDescriptor*> m_removeIds;
+        std::list<Container<>::node_t> m_removedClones;
         ContainerPool m_containerPool;
         transmission_handler_pool_t m_transmissionHandlerPool;
         event_handler_pool_t m_eventHandlerPool;
diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index e3d5070..83ecd74 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/Dispatcher.h>
+#include <utility>
 
 namespace dots
 {
@@ -18,6 +19,25 @@ namespace dots
 
     void Dispatcher::clear()
     {
+        if (m_dispatchDepth > 0)
+        {
+            // the handlers are still being iterated, so they are only erased when the outermost dispatch is finished
+            auto remove_all = [this](const auto& handlerPool)
+            {
+                for (const auto& [descriptor, handlers] : handlerPool)
+                {
+                    for (const auto& [id, handler] : handlers)
+                    {
+                        m_removeIds.emplace(id, descriptor);
+                    }
+                }
+            };
+            remove_all(m_transmissionHandlerPool);
+            remove_all(m_eventHandlerPool);
+
+            return;
+        }
+
         m_clearingHandlers = true;
         m_transmissionHandlerPool.clear();
         m_eventHandlerPool.clear();
@@ -71,11 +91,35 @@ namespace dots
                 .isFromMyself = false
             };
 
-            for (const auto& [instance, cloneInfo] : container)
+            // note: the handler might change the container itself
+            std::vector<const Container<>::value_t*> clones;
+            clones.reserve(container.size());
+
+            for (const Container<>::value_t& clone : container)
             {
-                header.attributes = instance->_validProperties();
-                --*header.fromCache;
-                handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
+                clones.emplace_back(&clone);
+            }
+
+            DispatchScope scope{ *this };
+
+            try
+            {
+                for (const Container<>::value_t* clone : clones)
+                {
+                    --*header.fromCache;
+
+                    if (m_removeIds.count(id) == 0 && container.findClone(clone->first) == clone)
+                    {
+                        const auto& [instance, cloneInfo] = *clone;
+                        header.attributes = instance->_validProperties();
+                        handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
+                    }
+                }
+            }
+            catch (...)
+            {
+                m_removeIds.emplace(id, &descriptor);
+                throw;
             }
         }
 
@@ -110,16 +154,15 @@ namespace dots
 
             if (auto itHandler = handlers.find(id); itHandler != handlers.end())
             {
-                if (id == m_currentlyDispatchingId)
+                if (m_dispatchDepth == 0)
                 {
-                    m_removeIds.emplace_back(id);
+                    handlers.erase(itHandler);
+                    return;
                 }
-                else
+                else if (m_removeIds.emplace(id, &descriptor).second)
                 {
-                    handlers.erase(itHandler);
+                    return;
                 }
-
-                return;
             }
         }
 
@@ -144,6 +187,7 @@ namespace dots
     void Dispatcher::dispatchEvent(const DotsHeader& header, const type::AnyStruct& instance)
     {
         const type::StructDescriptor& descriptor = instance->_descriptor();
+        DispatchScope scope{ *this };
         event_handlers_t& handlers = m_eventHandlerPool[&descriptor];
 
         if (descriptor.cached())
@@ -154,7 +198,9 @@ namespace dots
             {
                 if (Container<>::node_t removed = container.remove(header, instance); !removed.empty())
                 {
-                    dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, removed.key(), removed.mapped() });
+                    // note: surrounding events might refer to the removed instance
+                    const Container<>::node_t& node = m_removedClones.emplace_back(std::move(removed));
+                    dispatchToHandlers(descriptor, handlers, Event<>{ header, instance, node.key(), node.mapped() });
                 }
             }
             else
@@ -184,26 +230,54 @@ namespace dots
     template <typename Handlers, typename Dispatchable>
     void Dispatcher::dispatchToHandlers(const type::StructDescriptor& descriptor, Handlers& handlers, const Dispatchable& dispatchable)
     {
+        DispatchScope scope{ *this };
+
         for (const auto& [id, handler] : handlers)
         {
+            if (m_removeIds.count(id) != 0)
+            {
+                continue;
+            }
+
             try
             {
-                m_currentlyDispatchingId = id;
                 handler(dispatchable);
             }
             catch (...)
             {
                 m_errorHandler(descriptor, std::current_exception());
             }
-
-            m_currentlyDispatchingId = std::nullopt;
         }
+    }
+
+    Dispatcher::DispatchScope::DispatchScope(Dispatcher& dispatcher) :
+        m_dispatcher{ dispatcher }
+    {
+        ++m_dispatcher.m_dispatchDepth;
+    }
 
-        for (id_t id : m_removeIds)
+    Dispatcher::DispatchScope::~DispatchScope()
+    {
+        if (--m_dispatcher.m_dispatchDepth > 0)
         {
-            handlers.erase(id);
+            return;
         }
 
-        m_removeIds.clear();
+        // note: destroying a handler or an instance might result in further removals
+        auto removeIds = std::exchange(m_dispatcher.m_removeIds, {});
+        auto removedClones = std::exchange(m_dispatcher.m_removedClones, {});
+
+        for (const auto& [id, descriptor] : removeIds)
+        {
+            if (auto it = m_dispatcher.m_transmissionHandlerPool.find(descriptor); it != m_dispatcher.m_transmissionHandlerPool.end())
+            {
+                it->second.erase(id);
+            }
+
+            if (auto it = m_dispatcher.m_eventHandlerPool.find(descriptor); it != m_dispatcher.m_eventHandlerPool.end())
+            {
+                it->second.erase(id);
+            }
+        }
     }
 }
-- 
2.43.0


From 38f2d70b9aea3aed090659db6f83748cbe8cbc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 23/67] fix: subscription handlers could be lost or used after
 being freed when types were registered or the transceiver moved

---
 lib/include/dots/Transceiver.h |  9 ++--
 lib/src/Transceiver.cpp        | 75 ++++++++++++++++++++++++++--------
 2 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index 2151e9e..f0d09fe 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -236,7 +236,7 @@ namespace dots
                 joinGroup(T::_Descriptor().name());
                 Dispatcher::id_t id = m_dispatcher.addEventHandler(std::move(handler));
 
-                return makeSubscription([&, id]{ m_dispatcher.removeEventHandler(T::_Descriptor(), id); });
+                return makeSubscription([id](Transceiver& transceiver){ transceiver.m_dispatcher.removeEventHandler(T::_Descriptor(), id); });
             }
             else
             {
@@ -568,10 +568,11 @@ namespace dots
         Subscription makeSubscription(UnsubscribeHandler&& unsubscribeHandler);
 
         void handleNewType(const type::Descriptor<>& descriptor) noexcept;
+        void finishNewType();
         void handleDispatchError(const type::StructDescriptor& descriptor, std::exception_ptr ePtr) noexcept;
 
         id_t m_nextId;
-        std::optional<id_t> m_currentlyDispatchingId;
+        size_t m_newTypeDepth;
         std::vector<id_t> m_removeIds;
         std::shared_ptr<Transceiver*> m_this;
         type::Registry m_registry;
@@ -587,9 +588,9 @@ namespace dots
     {
         return Subscription{ [this_ = std::weak_ptr<Transceiver*>{ m_this }, unsubscribeHandler{ std::forward<UnsubscribeHandler>(unsubscribeHandler) }]
         {
-            if (this_.lock())
+            if (auto transceiver = this_.lock())
             {
-                unsubscribeHandler();
+                unsubscribeHandler(**transceiver);
             }
         } };
     }
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index 10f2ca6..49d9e7a 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -1,6 +1,9 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/Transceiver.h>
+#include <algorithm>
+#include <utility>
+#include <vector>
 #include <dots/tools/logging.h>
 #include <dots/serialization/AsciiSerialization.h>
 #include <DotsMember.dots.h>
@@ -12,6 +15,7 @@ namespace dots
                              type::Registry::StaticTypePolicy staticTypePolicy/* = StaticTypePolicy::All*/,
                              std::optional<transition_handler_t> transitionHandler/* = std::nullopt*/) :
         m_nextId(0),
+        m_newTypeDepth(0),
         m_this(std::make_shared<Transceiver*>(this)),
         m_registry{ [this_{ m_this }](const type::Descriptor<>& descriptor){ (*this_)->handleNewType(descriptor); }, staticTypePolicy },
         m_dispatcher{ [this_{ m_this }](const type::StructDescriptor& descriptor, std::exception_ptr ePtr){ (*this_)->handleDispatchError(descriptor, ePtr); } },
@@ -24,7 +28,7 @@ namespace dots
 
     Transceiver::Transceiver(Transceiver&& other) noexcept :
         m_nextId(other.m_nextId),
-        m_currentlyDispatchingId{ other.m_currentlyDispatchingId },
+        m_newTypeDepth{ other.m_newTypeDepth },
         m_removeIds{ std::move(other.m_removeIds) },
         m_this{ std::move(other.m_this) },
         m_registry{ std::move(other.m_registry) },
@@ -40,7 +44,7 @@ namespace dots
     Transceiver& Transceiver::operator = (Transceiver&& rhs) noexcept
     {
         m_nextId = rhs.m_nextId;
-        m_currentlyDispatchingId = rhs.m_currentlyDispatchingId;
+        m_newTypeDepth = rhs.m_newTypeDepth;
         m_removeIds = std::move(rhs.m_removeIds);
         m_this = std::move(rhs.m_this);
         m_registry = std::move(rhs.m_registry);
@@ -122,7 +126,7 @@ namespace dots
         joinGroup(descriptor.name());
         Dispatcher::id_t id = m_dispatcher.addTransmissionHandler(descriptor, std::move(handler));
 
-        return makeSubscription([&, id]{ m_dispatcher.removeTransmissionHandler(descriptor, id); });
+        return makeSubscription([&descriptor, id](Transceiver& transceiver){ transceiver.m_dispatcher.removeTransmissionHandler(descriptor, id); });
     }
 
     Subscription Transceiver::subscribe(const type::StructDescriptor& descriptor, event_handler_t<> handler)
@@ -135,7 +139,7 @@ namespace dots
         joinGroup(descriptor.name());
         Dispatcher::id_t id = m_dispatcher.addEventHandler(descriptor, std::move(handler));
 
-        return makeSubscription([&, id]{ m_dispatcher.removeEventHandler(descriptor, id); });
+        return makeSubscription([&descriptor, id](Transceiver& transceiver){ transceiver.m_dispatcher.removeEventHandler(descriptor, id); });
     }
 
     Subscription Transceiver::subscribe(std::string_view name, transmission_handler_t handler)
@@ -150,18 +154,42 @@ namespace dots
 
     Subscription Transceiver::subscribe(new_type_handler_t<> handler)
     {
+        // note: the handler might register further types itself
+        std::vector<std::shared_ptr<const type::Descriptor<>>> descriptors;
+        m_registry.forEach([&descriptors](const type::Descriptor<>& descriptor)
+        {
+            descriptors.emplace_back(descriptor.shared_from_this());
+        });
+
         const auto& [id, handler_] = *m_newTypeHandlers.try_emplace(m_nextId++, std::move(handler)).first;
-        m_registry.forEach(handler_);
+        ++m_newTypeDepth;
+
+        try
+        {
+            for (const auto& descriptor : descriptors)
+            {
+                handler_(*descriptor);
+            }
+        }
+        catch (...)
+        {
+            m_removeIds.emplace_back(id);
+            finishNewType();
+            throw;
+        }
+
+        id_t id_ = id;
+        finishNewType();
 
-        return makeSubscription([&, id(id)]
+        return makeSubscription([id_](Transceiver& transceiver)
         {
-            if (id == m_currentlyDispatchingId)
+            if (transceiver.m_newTypeDepth > 0)
             {
-                m_removeIds.emplace_back(id);
+                transceiver.m_removeIds.emplace_back(id_);
             }
             else
             {
-                m_newTypeHandlers.extract(id);
+                transceiver.m_newTypeHandlers.extract(id_);
             }
         });
     }
@@ -173,27 +201,42 @@ namespace dots
 
     void Transceiver::handleNewType(const type::Descriptor<>& descriptor) noexcept
     {
+        ++m_newTypeDepth;
+
         for (const auto& [id, handler] : m_newTypeHandlers)
         {
+            if (std::find(m_removeIds.begin(), m_removeIds.end(), id) != m_removeIds.end())
+            {
+                continue;
+            }
+
             try
             {
-                m_currentlyDispatchingId = id;
                 handler(descriptor);
             }
             catch (const std::exception& e)
             {
                 LOG_ERROR_S("error in new type handler for type '" << descriptor.name() << "' -> " << e.what());
             }
-
-            m_currentlyDispatchingId = std::nullopt;
+            catch (...)
+            {
+                LOG_ERROR_S("error in new type handler for type '" << descriptor.name() << "' -> <unknown>");
+            }
         }
 
-        for (id_t id : m_removeIds)
+        finishNewType();
+    }
+
+    void Transceiver::finishNewType()
+    {
+        // handlers are only erased when none of them is being executed
+        if (--m_newTypeDepth == 0)
         {
-            m_newTypeHandlers.extract(id);
+            for (id_t id : std::exchange(m_removeIds, {}))
+            {
+                m_newTypeHandlers.extract(id);
+            }
         }
-
-        m_removeIds.clear();
     }
 
     void Transceiver::handleDispatchError(const type::StructDescriptor& descriptor, std::exception_ptr ePtr) noexcept
-- 
2.43.0


From 69d5605585cf25446076e35200bbb81fb7b33d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 24/67] fix: ending a subscription of a cleared transceiver
 terminated the process

---
 lib/include/dots/Transceiver.h | 10 +++++++++-
 lib/src/Transceiver.cpp        | 19 +++++++++++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index f0d09fe..4a9d7ef 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -65,6 +65,7 @@ namespace dots
 
         void clear()
         {
+            ++m_clearCount;
             m_dispatcher.clear();
         }
 
@@ -236,7 +237,13 @@ namespace dots
                 joinGroup(T::_Descriptor().name());
                 Dispatcher::id_t id = m_dispatcher.addEventHandler(std::move(handler));
 
-                return makeSubscription([id](Transceiver& transceiver){ transceiver.m_dispatcher.removeEventHandler(T::_Descriptor(), id); });
+                return makeSubscription([id, clearCount{ m_clearCount }](Transceiver& transceiver)
+                {
+                    if (clearCount == transceiver.m_clearCount)
+                    {
+                        transceiver.m_dispatcher.removeEventHandler(T::_Descriptor(), id);
+                    }
+                });
             }
             else
             {
@@ -573,6 +580,7 @@ namespace dots
 
         id_t m_nextId;
         size_t m_newTypeDepth;
+        size_t m_clearCount;
         std::vector<id_t> m_removeIds;
         std::shared_ptr<Transceiver*> m_this;
         type::Registry m_registry;
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index 49d9e7a..a689cbf 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -16,6 +16,7 @@ namespace dots
                              std::optional<transition_handler_t> transitionHandler/* = std::nullopt*/) :
         m_nextId(0),
         m_newTypeDepth(0),
+        m_clearCount(0),
         m_this(std::make_shared<Transceiver*>(this)),
         m_registry{ [this_{ m_this }](const type::Descriptor<>& descriptor){ (*this_)->handleNewType(descriptor); }, staticTypePolicy },
         m_dispatcher{ [this_{ m_this }](const type::StructDescriptor& descriptor, std::exception_ptr ePtr){ (*this_)->handleDispatchError(descriptor, ePtr); } },
@@ -29,6 +30,7 @@ namespace dots
     Transceiver::Transceiver(Transceiver&& other) noexcept :
         m_nextId(other.m_nextId),
         m_newTypeDepth{ other.m_newTypeDepth },
+        m_clearCount{ other.m_clearCount },
         m_removeIds{ std::move(other.m_removeIds) },
         m_this{ std::move(other.m_this) },
         m_registry{ std::move(other.m_registry) },
@@ -45,6 +47,7 @@ namespace dots
     {
         m_nextId = rhs.m_nextId;
         m_newTypeDepth = rhs.m_newTypeDepth;
+        m_clearCount = rhs.m_clearCount;
         m_removeIds = std::move(rhs.m_removeIds);
         m_this = std::move(rhs.m_this);
         m_registry = std::move(rhs.m_registry);
@@ -126,7 +129,13 @@ namespace dots
         joinGroup(descriptor.name());
         Dispatcher::id_t id = m_dispatcher.addTransmissionHandler(descriptor, std::move(handler));
 
-        return makeSubscription([&descriptor, id](Transceiver& transceiver){ transceiver.m_dispatcher.removeTransmissionHandler(descriptor, id); });
+        return makeSubscription([&descriptor, id, clearCount{ m_clearCount }](Transceiver& transceiver)
+        {
+            if (clearCount == transceiver.m_clearCount)
+            {
+                transceiver.m_dispatcher.removeTransmissionHandler(descriptor, id);
+            }
+        });
     }
 
     Subscription Transceiver::subscribe(const type::StructDescriptor& descriptor, event_handler_t<> handler)
@@ -139,7 +148,13 @@ namespace dots
         joinGroup(descriptor.name());
         Dispatcher::id_t id = m_dispatcher.addEventHandler(descriptor, std::move(handler));
 
-        return makeSubscription([&descriptor, id](Transceiver& transceiver){ transceiver.m_dispatcher.removeEventHandler(descriptor, id); });
+        return makeSubscription([&descriptor, id, clearCount{ m_clearCount }](Transceiver& transceiver)
+        {
+            if (clearCount == transceiver.m_clearCount)
+            {
+                transceiver.m_dispatcher.removeEventHandler(descriptor, id);
+            }
+        });
     }
 
     Subscription Transceiver::subscribe(std::string_view name, transmission_handler_t handler)
-- 
2.43.0


From cac62165345a98d6d6ea82b0e6d456281e4e7899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 25/67] fix: destroying a connection that never started
 receiving called an unset handler

---
 lib/src/Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index 7674f23..7e32f20 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -51,7 +51,7 @@ namespace dots
 
     Connection::~Connection() noexcept
     {
-        if (m_connectionState != DotsConnectionState::closed)
+        if (m_connectionState != DotsConnectionState::closed && m_connectionState != DotsConnectionState::suspended)
         {
             try
             {
-- 
2.43.0


From da4d86b70779ea28dd7b620c6b12b5bf2c4cf74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 26/67] fix: an error on a closed connection reported its end a
 second time

---
 lib/src/Connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index 7e32f20..e043964 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -202,6 +202,11 @@ namespace dots
 
     void Connection::handleError(std::exception_ptr ePtr)
     {
+        if (m_connectionState == DotsConnectionState::closed)
+        {
+            return;
+        }
+
         if (m_connectionState == DotsConnectionState::connected)
         {
             try
-- 
2.43.0


From 504a815113b8cafbc826842620b5757dea82122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 27/67] fix: a guest carried on with a connection its host had
 not accepted

---
 lib/src/Connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index e043964..d348139 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -343,6 +343,11 @@ namespace dots
 
     void Connection::handleAuthorizationRequest(const DotsMsgConnectResponse& connectResponse)
     {
+        if (connectResponse.accepted == false)
+        {
+            throw std::runtime_error{ "host did not accept the connection" };
+        }
+
         m_selfId = *connectResponse.clientId;
 
         if (connectResponse.preload == true)
-- 
2.43.0


From b977804b3b2d12e35b4cc0bf29aa97cd39c411bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:38 +0000
Subject: [PATCH 28/67] fix: a host publishes and caches only the included
 properties

---
 lib/src/HostTransceiver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 3b556ec..20b0e6d 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -59,6 +59,9 @@ namespace dots
             *includedProperties ^= instance._properties();
         }
 
+        type::AnyStruct published{ instance._descriptor() };
+        published->_copy(instance, *includedProperties);
+
         DotsHeader header{
             .typeName = instance._descriptor().name(),
             .sentTime = timepoint_t::Now(),
@@ -69,7 +72,7 @@ namespace dots
             .isFromMyself = true
         };
 
-        io::Transmission transmission{ std::move(header), instance };
+        io::Transmission transmission{ std::move(header), std::move(published) };
         dispatcher().dispatch(transmission);
         transmit(transmission);
     }
-- 
2.43.0


From 10ff2d06336ddc31b732e78fef99e32522155212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:55 +0000
Subject: [PATCH 29/67] fix: failing one of several dirty connections may close
 and destroy the others

---
 lib/src/HostTransceiver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 20b0e6d..f5ed432 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -89,7 +89,7 @@ namespace dots
 
     void HostTransceiver::transmit(const io::Transmission& transmission)
     {
-        using dirty_connection_t = std::pair<Connection*, std::exception_ptr>;
+        using dirty_connection_t = std::pair<connection_ptr_t, std::exception_ptr>;
         std::vector<dirty_connection_t> dirtyConnections;
 
         for (Connection* destinationConnection : m_groups[*transmission.header().typeName])
@@ -102,7 +102,9 @@ namespace dots
                 }
                 catch (...)
                 {
-                    dirtyConnections.emplace_back(destinationConnection, std::current_exception());
+                    // note: handling the error of one connection might close and
+                    // remove the others
+                    dirtyConnections.emplace_back(m_guestConnections.at(destinationConnection), std::current_exception());
                 }
             }
         }
-- 
2.43.0


From 2b5b1bbf4b3ac965ce37336b0340fe7be17612b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 30/67] fix: a reopened guest joins its groups again

---
 lib/src/GuestTransceiver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 60c3690..bbc4c82 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -149,6 +149,8 @@ namespace dots
             }
             else if (connection.state() == DotsConnectionState::closed)
             {
+                m_joinedGroups.clear();
+
                 if (m_hostConnection != nullptr)
                 {
                     m_hostConnection = nullptr;
-- 
2.43.0


From d115f1cb43a5e50b556f3177f00eaab5a7edd209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:00 +0000
Subject: [PATCH 31/67] fix: handlers may remove further instances while the
 host withdraws some

---
 lib/src/HostTransceiver.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index f5ed432..fd87b66 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -194,7 +194,8 @@ namespace dots
                     group.erase(&connection);
                 }
 
-                std::vector<const type::Struct*> cleanupInstances;
+                // note: handlers might remove further instances
+                std::vector<type::AnyStruct> cleanupInstances;
 
                 for (const auto& [descriptor, container] : pool())
                 {
@@ -204,13 +205,13 @@ namespace dots
                         {
                             if (connection.peerId() == cloneInfo.lastUpdateFrom)
                             {
-                                cleanupInstances.emplace_back(&*instance);
+                                cleanupInstances.emplace_back(*instance);
                             }
                         }
                     }
                 }
 
-                for (const type::Struct* instance : cleanupInstances)
+                for (const type::AnyStruct& instance : cleanupInstances)
                 {
                     remove(*instance);
                 }
@@ -302,24 +303,25 @@ namespace dots
         clearCache._assertHasProperties(DotsClearCache::typeNames_p);
         const vector_t<string_t>& typeNames = *clearCache.typeNames;
 
+        // note: handlers might remove further instances or add new types
+        std::vector<type::AnyStruct> removeInstances;
+
         for (auto& [descriptor, container] : pool())
         {
             if (std::find(typeNames.begin(), typeNames.end(), container.descriptor().name()) != typeNames.end())
             {
-                std::vector<const type::Struct*> removeInstances;
-
                 for (const auto& [instance, cloneInformation] : container)
                 {
                     (void)cloneInformation;
-                    removeInstances.emplace_back(&instance.get());
-                }
-
-                for (const type::Struct* instance : removeInstances)
-                {
-                    remove(*instance);
+                    removeInstances.emplace_back(*instance);
                 }
             }
         }
+
+        for (const type::AnyStruct& instance : removeInstances)
+        {
+            remove(*instance);
+        }
     }
 
     void HostTransceiver::handleEchoRequest(Connection& connection, const DotsEcho& echoRequest)
-- 
2.43.0


From 7b90551e181f4ad3e7073549c4524d2576c7e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 32/67] fix: guests learn of a host's nested publications in
 the order of its cache

---
 lib/include/dots/Dispatcher.h      | 24 ++++++++++++--
 lib/include/dots/HostTransceiver.h |  5 +++
 lib/src/HostTransceiver.cpp        | 52 +++++++++++++++++++++++++++---
 3 files changed, 73 insertions(+), 8 deletions(-)

diff --git a/lib/include/dots/Dispatcher.h b/lib/include/dots/Dispatcher.h
index 6585bf9..84181d6 100644
--- a/lib/include/dots/Dispatcher.h
+++ b/lib/include/dots/Dispatcher.h
@@ -238,6 +238,27 @@ namespace dots
          */
         void dispatch(const io::Transmission& transmission);
 
+        /*!
+         * @brief Dispatch a transmission to transmission handlers only.
+         *
+         * This is the first part of Dispatcher::dispatch().
+         *
+         * @param transmission The transmission to dispatch.
+         */
+        void dispatchTransmission(const io::Transmission& transmission);
+
+        /*!
+         * @brief Update the corresponding Container and dispatch the event to
+         * event handlers only.
+         *
+         * This is the second part of Dispatcher::dispatch().
+         *
+         * @param header The header of the transmission to dispatch.
+         *
+         * @param instance The instance of the transmission to dispatch.
+         */
+        void dispatchEvent(const DotsHeader& header, const type::AnyStruct& instance);
+
         /*!
          * @brief Get a specific container by type.
          *
@@ -342,9 +363,6 @@ namespace dots
         template <typename HandlerPool>
         void removeHandler(HandlerPool& handlerPool, const type::StructDescriptor& descriptor, id_t id);
 
-        void dispatchTransmission(const io::Transmission& transmission);
-        void dispatchEvent(const DotsHeader& header, const type::AnyStruct& instance);
-
         template <typename Handlers, typename Dispatchable>
         void dispatchToHandlers(const type::StructDescriptor& descriptor, Handlers& handlers, const Dispatchable& dispatchable);
 
diff --git a/lib/include/dots/HostTransceiver.h b/lib/include/dots/HostTransceiver.h
index 44deddd..58f2555 100644
--- a/lib/include/dots/HostTransceiver.h
+++ b/lib/include/dots/HostTransceiver.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <list>
 #include <unordered_map>
 #include <unordered_set>
 #include <dots/tools/Handler.h>
@@ -183,6 +184,8 @@ namespace dots
         void joinGroup(std::string_view name) override;
         void leaveGroup(std::string_view name) override;
 
+        void distribute(io::Transmission transmission);
+        void transmitPending();
         void transmit(const io::Transmission& transmission);
 
         bool handleListenAccept(io::Listener& listener, io::channel_ptr_t channel);
@@ -201,6 +204,8 @@ namespace dots
         listener_map_t m_listeners;
         connection_map_t m_guestConnections;
         group_map_t m_groups;
+        std::list<io::Transmission> m_pendingTransmissions;
+        size_t m_distributeDepth = 0;
         std::unique_ptr<io::AuthManager> m_authManager;
     };
 }
diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index fd87b66..ea429a5 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -72,9 +72,7 @@ namespace dots
             .isFromMyself = true
         };
 
-        io::Transmission transmission{ std::move(header), std::move(published) };
-        dispatcher().dispatch(transmission);
-        transmit(transmission);
+        distribute(io::Transmission{ std::move(header), std::move(published) });
     }
 
     void HostTransceiver::joinGroup(std::string_view/* name*/)
@@ -87,6 +85,51 @@ namespace dots
         /* do nothing */
     }
 
+    void HostTransceiver::distribute(io::Transmission transmission)
+    {
+        dispatcher().dispatchTransmission(transmission);
+
+        // note: event handlers might publish further instances, which have to
+        // be transmitted in the order in which they update the containers
+        auto it = m_pendingTransmissions.insert(m_pendingTransmissions.end(), std::move(transmission));
+        ++m_distributeDepth;
+
+        try
+        {
+            dispatcher().dispatchEvent(it->header(), it->instance());
+        }
+        catch (...)
+        {
+            --m_distributeDepth;
+            m_pendingTransmissions.erase(it);
+            transmitPending();
+
+            throw;
+        }
+
+        --m_distributeDepth;
+        transmitPending();
+    }
+
+    void HostTransceiver::transmitPending()
+    {
+        if (m_distributeDepth > 0)
+        {
+            return;
+        }
+
+        ++m_distributeDepth;
+
+        while (!m_pendingTransmissions.empty())
+        {
+            io::Transmission transmission = std::move(m_pendingTransmissions.front());
+            m_pendingTransmissions.pop_front();
+            transmit(transmission);
+        }
+
+        --m_distributeDepth;
+    }
+
     void HostTransceiver::transmit(const io::Transmission& transmission)
     {
         using dirty_connection_t = std::pair<connection_ptr_t, std::exception_ptr>;
@@ -177,8 +220,7 @@ namespace dots
             }
         }
 
-        dispatcher().dispatch(transmission);
-        transmit(transmission);
+        distribute(std::move(transmission));
 
         return !connection.closed();
     }
-- 
2.43.0


From b72df1f1d13421f50915200cc5b70d7a16e6bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 33/67] fix: a transmission that failed to serialize corrupted
 the stream

---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 087397a..a48a8a6 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -609,9 +609,18 @@ namespace dots::io
                 size_t beginIndex = writeBuffer.size();
                 writeBuffer.resize(writeBuffer.size() + TransmissionSizeSize);
 
-                // serialize header and instance
-                m_serializer.serialize(header);
-                m_serializer.serialize(instance, *header.attributes);
+                // serialize header and instance. note that nothing of a failed
+                // serialization may remain in the write buffer
+                try
+                {
+                    m_serializer.serialize(header);
+                    m_serializer.serialize(instance, *header.attributes);
+                }
+                catch (...)
+                {
+                    writeBuffer.resize(beginIndex);
+                    throw;
+                }
 
                 // serialize transmission size into previously created storage
                 // area. note that the transmission size is encoded as a fixed size
-- 
2.43.0


From 6abd936c84629a950a679336b9bd9c1ef35f4ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 34/67] fix: cached payloads were buffered without limit for
 peers that do not read

---
 .../dots/io/channels/AsyncStreamChannel.h     | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index a48a8a6..3a1ee0e 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -547,10 +547,7 @@ namespace dots::io
          */
         iterator_t serializeTransmission(const DotsHeader& header, const type::Struct& instance)
         {
-            if (m_serializer.output().size() > WriteBufferMaxSize)
-            {
-                throw std::runtime_error{ "async write buffer exceeded maximum size" };
-            }
+            verifyWriteBufferSize();
 
             if constexpr (TransmissionFormat == TransmissionFormat::v1)
             {
@@ -666,6 +663,7 @@ namespace dots::io
 
                 if (transmission.id() == cacheId)
                 {
+                    verifyWriteBufferSize();
                     writeBuffer.insert(writeBuffer.end(), cacheBuffer.begin(), cacheBuffer.end());
                 }
                 else
@@ -677,6 +675,20 @@ namespace dots::io
             }
         }
 
+        /*!
+         * @brief Verify that the current write buffer may take another
+         * payload.
+         *
+         * @exception std::runtime_error Thrown if the write buffer exceeded
+         * its maximum size, which will be the case if the peer does not read.
+         */
+        void verifyWriteBufferSize()
+        {
+            if (m_serializer.output().size() > WriteBufferMaxSize)
+            {
+                throw std::runtime_error{ "async write buffer exceeded maximum size" };
+            }
+        }
 
         DotsTransportHeader m_transportHeader;
         buffer_t m_readBuffer;
-- 
2.43.0


From 6cb7b49f28b196eed71944d37014df0ddbad1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 35/67] fix: a peer could make a channel allocate any amount of
 memory by declaring it

---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 3a1ee0e..8452766 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -303,6 +303,7 @@ namespace dots::io
     private:
 
         static constexpr size_t ReadBufferMinSize = 16 * 128;
+        static constexpr size_t ReadBufferMaxGrowth = 1024 * 1024;
         static constexpr size_t WriteBufferMaxSize = 10 * 1024 * 1024;
 
         using transmission_size_t = std::conditional_t<TransmissionFormat == TransmissionFormat::v1, dots::uint16_t, dots::uint32_t>;
@@ -326,6 +327,10 @@ namespace dots::io
          * data available, in which case an asynchronous read will again be
          * initiated on the underlying stream object.
          *
+         * Note that the required size is determined by the peer. The read
+         * buffer therefore only grows along with the data that actually has
+         * been received.
+         *
          * @tparam Handler The type of the handler to invoke once the read has
          * been completed.
          *
@@ -372,7 +377,7 @@ namespace dots::io
                 size_t availableBytes = m_serializer.inputAvailable();
 
                 std::copy(m_serializer.inputData(), m_serializer.inputDataEnd(), m_readBuffer.begin());
-                m_readBuffer.resize(std::max(ReadBufferMinSize, requiredBytes));
+                m_readBuffer.resize(std::max(ReadBufferMinSize, std::min(requiredBytes, 2 * availableBytes + ReadBufferMaxGrowth)));
                 m_serializer.setInput(m_readBuffer.data(), availableBytes);
 
                 uint8_t* readBufferBegin = m_readBuffer.data() + availableBytes;
-- 
2.43.0


From 0d1fa394cef0f2944a2f6094f026b5554be57787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 36/67] fix: property tags that no property set can hold were
 accepted from described types

---
 lib/src/io/DescriptorConverter.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index 1687fd0..c0e0fd2 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -52,9 +52,23 @@ namespace dots::io
         }
 
         const type::PropertyDescriptor* last = nullptr;
+        type::PropertySet tags;
 
         for (const StructPropertyData& propertyData : *structData.properties)
         {
+            if (uint32_t tag = *propertyData.tag; tag > type::PropertySet::LastProperty)
+            {
+                throw std::logic_error{ "property tag out of range: " + *structData.name + "." + *propertyData.name };
+            }
+            else if (auto set = type::PropertySet::FromIndex(tag); set <= tags)
+            {
+                throw std::logic_error{ "ambiguous property tag: " + *structData.name + "." + *propertyData.name };
+            }
+            else
+            {
+                tags += set;
+            }
+
             type::Descriptor<>* descriptor = m_registry.get().findType(*propertyData.type);
 
             if (descriptor == nullptr)
-- 
2.43.0


From 52dca08469baa0c6c347bd9872a645a180702c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 37/67] fix: describing a type without properties dereferenced
 a null pointer

---
 lib/src/io/DescriptorConverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index c0e0fd2..e0ba6a0 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -123,7 +123,7 @@ namespace dots::io
             alignment = std::max(last->valueDescriptor().alignment(), alignment);
         }
 
-        size_t size = type::PropertyOffset::Next(alignment, last->offset(), last->valueDescriptor().size());
+        size_t size = last == nullptr ? sizeof(type::PropertyArea) : type::PropertyOffset::Next(alignment, last->offset(), last->valueDescriptor().size());
 
         return m_registry.get().registerType<type::Descriptor<type::DynamicStruct>>(*structData.name, flags, propertyDescriptors, sizeof(type::DynamicStruct) + size);
     }
-- 
2.43.0


From 25b143a9b1574745ff2a312f649d53a664b3c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 38/67] fix: dynamic vectors of compiled-in structs allocated
 too little for their elements

---
 lib/src/io/DescriptorConverter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index e0ba6a0..3da9555 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -97,7 +97,8 @@ namespace dots::io
                     if (auto* dynStructDescriptor = valueTypeDescriptor->as<type::Descriptor<type::DynamicStruct>>(); dynStructDescriptor == nullptr)
                     {
                         const auto& staticStructDescriptor = valueTypeDescriptor->to<type::StructDescriptor>();
-                        auto dynStructDescriptor_ = type::make_descriptor<type::Descriptor<type::DynamicStruct>>(staticStructDescriptor.name(), staticStructDescriptor.flags(), staticStructDescriptor.propertyDescriptors(), staticStructDescriptor.size());
+                        size_t size = staticStructDescriptor.size() - staticStructDescriptor.areaOffset();
+                        auto dynStructDescriptor_ = type::make_descriptor<type::Descriptor<type::DynamicStruct>>(staticStructDescriptor.name(), staticStructDescriptor.flags(), staticStructDescriptor.propertyDescriptors(), sizeof(type::DynamicStruct) + size);
                         descriptor = &m_registry.get().registerType<type::Descriptor<vector_t<type::DynamicStruct>>>(*dynStructDescriptor_, false);
                     }
                     else
-- 
2.43.0


From 03bf380840ad6209116b5be710905e509f575fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 39/67] fix: malformed type names were taken for vector types

---
 lib/src/io/DescriptorConverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index 3da9555..45c79fb 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -74,7 +74,7 @@ namespace dots::io
             if (descriptor == nullptr)
             {
                 const std::string& typeName = *propertyData.type;
-                if (typeName.find("vector<") == std::string::npos)
+                if (typeName.size() <= 8 || typeName.compare(0, 7, "vector<") != 0 || typeName.back() != '>')
                 {
                     throw std::logic_error{ "missing type dependency: " + typeName };
                 }
-- 
2.43.0


From 17774f1f548560cf26640719f6a1e245fe4bb647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 40/67] fix: instances without usable attributes were passed
 on, ending the connections of their receivers

---
 lib/src/Connection.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index d348139..ca71c02 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -268,6 +268,14 @@ namespace dots
                 instance._assertHasProperties(instance._keyProperties());
                 DotsHeader& header = transmission.header();
 
+                // note: the attributes decide what gets passed on to others
+                header._assertHasProperties(DotsHeader::attributes_p);
+
+                if (!(instance._keyProperties() <= *header.attributes))
+                {
+                    throw std::logic_error{ "received instance of type " + instance._descriptor().name() + " with attributes that do not include its key properties" };
+                }
+
                 if (m_selfId == HostId)
                 {
                     header.sender = m_peerId;
-- 
2.43.0


From 22de7d04d446421f5e52bfae963ed38020dca339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 41/67] fix: property values that a received header does not
 declare were cached but not passed on

---
 lib/src/Connection.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index ca71c02..ed29ff4 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -266,16 +266,25 @@ namespace dots
             if (m_connectionState == DotsConnectionState::connected || m_connectionState == DotsConnectionState::early_subscribe)
             {
                 instance._assertHasProperties(instance._keyProperties());
-                DotsHeader& header = transmission.header();
 
                 // note: the attributes decide what gets passed on to others
-                header._assertHasProperties(DotsHeader::attributes_p);
+                transmission.header()._assertHasProperties(DotsHeader::attributes_p);
+                property_set_t attributes = *transmission.header().attributes;
 
-                if (!(instance._keyProperties() <= *header.attributes))
+                if (!(instance._keyProperties() <= attributes))
                 {
                     throw std::logic_error{ "received instance of type " + instance._descriptor().name() + " with attributes that do not include its key properties" };
                 }
 
+                if (!(instance._validProperties() <= attributes))
+                {
+                    type::AnyStruct declaredInstance{ instance };
+                    declaredInstance->_clear(instance._validProperties() - attributes);
+                    transmission = io::Transmission{ DotsHeader{ transmission.header() }, std::move(declaredInstance) };
+                }
+
+                DotsHeader& header = transmission.header();
+
                 if (m_selfId == HostId)
                 {
                     header.sender = m_peerId;
-- 
2.43.0


From a9ba67d75aa02609d4f9b3e769688a3fd6b2cdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:33 +0000
Subject: [PATCH 42/67] fix: auth manager used its rules before they were
 constructed if there were cached rules

---
 lib/include/dots/io/auth/LegacyAuthManager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/io/auth/LegacyAuthManager.h b/lib/include/dots/io/auth/LegacyAuthManager.h
index e722a7e..01a21d3 100644
--- a/lib/include/dots/io/auth/LegacyAuthManager.h
+++ b/lib/include/dots/io/auth/LegacyAuthManager.h
@@ -41,9 +41,9 @@ namespace dots::io
         void handleDotsAuthentication(const Event<DotsAuthentication>& e);
         void handleDotsAuthenticationPolicy(const Event<DotsAuthenticationPolicy>& e);
 
-        Subscription m_dotsAuthenticationSubscription;
-        Subscription m_dotsAuthenticationPolicySubscription;
         rules_t m_rules;
         std::optional<bool> m_defaultAcceptPolicy;
+        Subscription m_dotsAuthenticationSubscription;
+        Subscription m_dotsAuthenticationPolicySubscription;
     };
 }
-- 
2.43.0


From 1257c2cdf8bfef5967eac8857caf35e6cb467bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:38 +0000
Subject: [PATCH 43/67] fix: over-long challenge responses overflowed the stack

---
 lib/src/io/auth/Digest.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/io/auth/Digest.cpp b/lib/src/io/auth/Digest.cpp
index dbb2f68..5639093 100644
--- a/lib/src/io/auth/Digest.cpp
+++ b/lib/src/io/auth/Digest.cpp
@@ -18,6 +18,12 @@ namespace dots::io
         Digest([&]
         {
             value_t value = {};
+
+            if (stringValue.size() > 2 * value.size())
+            {
+                throw std::runtime_error("digest string is too long: " + std::to_string(stringValue.size()) + " characters");
+            }
+
             boost::algorithm::unhex(stringValue, value.begin());
 
             return value;
-- 
2.43.0


From 94e47d420b82a1e126206e641770c7db89042c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:55 +0000
Subject: [PATCH 44/67] fix: auth manager lost rules that were updated before
 it was set

---
 lib/src/io/auth/LegacyAuthManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/io/auth/LegacyAuthManager.cpp b/lib/src/io/auth/LegacyAuthManager.cpp
index a985e01..fc188f0 100644
--- a/lib/src/io/auth/LegacyAuthManager.cpp
+++ b/lib/src/io/auth/LegacyAuthManager.cpp
@@ -189,6 +189,11 @@ namespace dots::io
             {
                 it->second._copy(authentication);
             }
+            else
+            {
+                // the last event of a rule that was cached before the subscription is not necessarily its creation
+                m_rules.emplace(authentication.priority.valueOrDefault(0), authentication);
+            }
         }
         else if (e.isRemove())
         {
-- 
2.43.0


From 93dc5b16464c10d0b45506b9a676bcbc43676a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:13 +0000
Subject: [PATCH 45/67] fix: auth rules for IPv4 networks did not apply to IPv4
 clients of dual-stack sockets

---
 lib/src/io/auth/LegacyAuthManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/io/auth/LegacyAuthManager.cpp b/lib/src/io/auth/LegacyAuthManager.cpp
index fc188f0..558f97e 100644
--- a/lib/src/io/auth/LegacyAuthManager.cpp
+++ b/lib/src/io/auth/LegacyAuthManager.cpp
@@ -145,7 +145,9 @@ namespace dots::io
 
     std::vector<DotsAuthentication> LegacyAuthManager::findMatchingRules(const asio::ip::address& address, const std::string& clientName)
     {
-        tools::IpNetwork network{ address };
+        // clients that connect to a dual-stack socket via IPv4 are reported by IPv4-mapped IPv6 addresses
+        bool isMapped = address.is_v6() && address.to_v6().is_v4_mapped();
+        tools::IpNetwork network{ isMapped ? asio::ip::make_address_v4(asio::ip::v4_mapped, address.to_v6()) : address };
 
         std::vector<DotsAuthentication> matchtingRules;
 
-- 
2.43.0


From f20270830c8e99cd909bd74e297b79610e29fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:31 +0000
Subject: [PATCH 46/67] fix: a client that disconnected before being accepted
 ended the TCP or UDS listener

---
 lib/src/io/channels/TcpListener.cpp | 18 ++++++++----------
 lib/src/io/channels/UdsListener.cpp | 18 ++++++++----------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index b3850d3..3c4f630 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/channels/TcpListener.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io::details
 {
@@ -79,17 +80,14 @@ namespace dots::io::details
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure TCP socket -> " } + e.what());
+                // note: this only concerns the accepted client, which for example might have disconnected
+                // in the meantime. it must not affect the listener and thereby all other clients
+                LOG_WARN_S("failed to accept TCP client -> " << e.what());
 
-                    m_socket.shutdown(asio::ip::tcp::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close TCP socket -> " } + e.what());
-                }
+                boost::system::error_code ec;
+                m_socket.close(ec);
+
+                asyncAcceptImpl();
             }
         });
     }
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index b2a9061..3e306c3 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -3,6 +3,7 @@
 #include <dots/asio.h>
 #if defined(BOOST_ASIO_HAS_LOCAL_SOCKETS)
 #include <dots/io/channels/UdsListener.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io::posix::details
 {
@@ -81,17 +82,14 @@ namespace dots::io::posix::details
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure UDS socket -> " } + e.what());
+                // note: this only concerns the accepted client, which for example might have disconnected
+                // in the meantime. it must not affect the listener and thereby all other clients
+                LOG_WARN_S("failed to accept UDS client -> " << e.what());
 
-                    m_socket.shutdown(asio::local::stream_protocol::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close UDS socket -> " } + e.what());
-                }
+                boost::system::error_code ec;
+                m_socket.close(ec);
+
+                asyncAcceptImpl();
             }
         });
     }
-- 
2.43.0


From 2ef1676cdbe4756326e6e661bfc72ac4b128f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:59 +0000
Subject: [PATCH 47/67] fix: channels kept a dangling payload cache when their
 listener was removed

---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 7 ++++---
 lib/include/dots/io/channels/TcpChannel.h         | 2 +-
 lib/include/dots/io/channels/TcpListener.h        | 2 +-
 lib/include/dots/io/channels/UdsChannel.h         | 2 +-
 lib/include/dots/io/channels/UdsListener.h        | 2 +-
 lib/src/io/channels/TcpChannel.cpp                | 4 ++--
 lib/src/io/channels/TcpListener.cpp               | 4 ++--
 lib/src/io/channels/UdsChannel.cpp                | 4 ++--
 lib/src/io/channels/UdsListener.cpp               | 4 ++--
 9 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 8452766..39eca17 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -4,6 +4,7 @@
 #define DOTS_ACKNOWLEDGE_DEPRECATION_OF_DotsTransportHeader_destinationGroup
 #define DOTS_ACKNOWLEDGE_DEPRECATION_OF_DotsTransportHeader_nameSpace
 #define DOTS_ACKNOWLEDGE_DEPRECATION_OF_DotsTransportHeader_destinationClientId
+#include <memory>
 #include <optional>
 #include <dots/asio.h>
 #include <dots/type/Registry.h>
@@ -122,12 +123,12 @@ namespace dots::io
          * AsyncStreamChannel::serializeTransmission(Transmission::id_t, const
          * DotsHeader&, const type::Struct&)).
          */
-        AsyncStreamChannel(key_t key, stream_t&& stream, payload_cache_t* payloadCache) :
+        AsyncStreamChannel(key_t key, stream_t&& stream, std::shared_ptr<payload_cache_t> payloadCache) :
             Channel(key),
             m_asyncWriting(false),
             m_readDispatching(false),
             m_stream{ std::move(stream) },
-            m_payloadCache(payloadCache)
+            m_payloadCache(std::move(payloadCache))
         {
             /* do nothing */
         }
@@ -702,6 +703,6 @@ namespace dots::io
         bool m_asyncWriting;
         bool m_readDispatching;
         stream_t m_stream;
-        payload_cache_t* m_payloadCache;
+        std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 }
diff --git a/lib/include/dots/io/channels/TcpChannel.h b/lib/include/dots/io/channels/TcpChannel.h
index 3b544c0..65f39ab 100644
--- a/lib/include/dots/io/channels/TcpChannel.h
+++ b/lib/include/dots/io/channels/TcpChannel.h
@@ -47,7 +47,7 @@ namespace dots::io::details
          * @param key
          * @param socket
          */
-        GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket, payload_cache_t* payloadCache);
+        GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket, std::shared_ptr<payload_cache_t> payloadCache);
         GenericTcpChannel(const GenericTcpChannel& other) = delete;
         GenericTcpChannel(GenericTcpChannel&& other) = delete;
         ~GenericTcpChannel() override = default;
diff --git a/lib/include/dots/io/channels/TcpListener.h b/lib/include/dots/io/channels/TcpListener.h
index 44449eb..74d6b14 100644
--- a/lib/include/dots/io/channels/TcpListener.h
+++ b/lib/include/dots/io/channels/TcpListener.h
@@ -35,7 +35,7 @@ namespace dots::io::details
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
         asio::ip::tcp::socket m_socket;
-        payload_cache_t m_payloadCache;
+        std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 
     extern template struct GenericTcpListener<v1::TcpChannel>;
diff --git a/lib/include/dots/io/channels/UdsChannel.h b/lib/include/dots/io/channels/UdsChannel.h
index aae7614..5191932 100644
--- a/lib/include/dots/io/channels/UdsChannel.h
+++ b/lib/include/dots/io/channels/UdsChannel.h
@@ -16,7 +16,7 @@ namespace dots::io::posix::details
 
         GenericUdsChannel(key_t key, asio::io_context& ioContext, const Endpoint& endpoint);
         GenericUdsChannel(key_t key, asio::io_context& ioContext, std::string_view path);
-        GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket, payload_cache_t* payloadCache);
+        GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket, std::shared_ptr<payload_cache_t> payloadCache);
         GenericUdsChannel(const GenericUdsChannel& other) = delete;
         GenericUdsChannel(GenericUdsChannel&& other) = delete;
         virtual ~GenericUdsChannel() noexcept = default;
diff --git a/lib/include/dots/io/channels/UdsListener.h b/lib/include/dots/io/channels/UdsListener.h
index abe8f6c..d307ac9 100644
--- a/lib/include/dots/io/channels/UdsListener.h
+++ b/lib/include/dots/io/channels/UdsListener.h
@@ -34,7 +34,7 @@ namespace dots::io::posix::details
         asio::local::stream_protocol::endpoint m_endpoint;
         asio::local::stream_protocol::acceptor m_acceptor;
         asio::local::stream_protocol::socket m_socket;
-        payload_cache_t m_payloadCache;
+        std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 
     extern template struct GenericUdsListener<v1::UdsChannel>;
diff --git a/lib/src/io/channels/TcpChannel.cpp b/lib/src/io/channels/TcpChannel.cpp
index 2079e98..21de884 100644
--- a/lib/src/io/channels/TcpChannel.cpp
+++ b/lib/src/io/channels/TcpChannel.cpp
@@ -63,8 +63,8 @@ namespace dots::io::details
     }
 
     template <typename Serializer, TransmissionFormat TransmissionFormat>
-    GenericTcpChannel<Serializer, TransmissionFormat>::GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket_, payload_cache_t* payloadCache) :
-        base_t(key, std::move(socket_), payloadCache),
+    GenericTcpChannel<Serializer, TransmissionFormat>::GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket_, std::shared_ptr<payload_cache_t> payloadCache) :
+        base_t(key, std::move(socket_), std::move(payloadCache)),
         m_resolver( stream().get_executor())
     {
         if (stream().is_open())
diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index 3c4f630..c7e82f4 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -18,7 +18,7 @@ namespace dots::io::details
         m_port{ std::move(port) },
         m_acceptor{ ioContext },
         m_socket{ ioContext },
-        m_payloadCache{ 0, buffer_t{} }
+        m_payloadCache{ std::make_shared<payload_cache_t>(0, buffer_t{}) }
     {
         try
         {
@@ -76,7 +76,7 @@ namespace dots::io::details
                 }
 
                 // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), &m_payloadCache));
+                processAccept(make_channel<TChannel>(std::move(m_socket), m_payloadCache));
             }
             catch (const std::exception& e)
             {
diff --git a/lib/src/io/channels/UdsChannel.cpp b/lib/src/io/channels/UdsChannel.cpp
index f5eebeb..26c0c23 100644
--- a/lib/src/io/channels/UdsChannel.cpp
+++ b/lib/src/io/channels/UdsChannel.cpp
@@ -32,8 +32,8 @@ namespace dots::io::posix::details
     }
 
     template <typename Serializer, TransmissionFormat TransmissionFormat>
-    GenericUdsChannel<Serializer, TransmissionFormat>::GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket_, payload_cache_t* payloadCache) :
-        base_t(key, std::move(socket_), payloadCache)
+    GenericUdsChannel<Serializer, TransmissionFormat>::GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket_, std::shared_ptr<payload_cache_t> payloadCache) :
+        base_t(key, std::move(socket_), std::move(payloadCache))
     {
         IgnorePipeSignals();
 
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index 3e306c3..38e412d 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -19,7 +19,7 @@ namespace dots::io::posix::details
         m_endpoint{ std::string{ path } },
         m_acceptor{ ioContext },
         m_socket{ ioContext },
-        m_payloadCache{ 0, UdsChannel::buffer_t{} }
+        m_payloadCache{ std::make_shared<payload_cache_t>(0, UdsChannel::buffer_t{}) }
     {
         try
         {
@@ -78,7 +78,7 @@ namespace dots::io::posix::details
                 }
 
                 // note: this move is explicitly allowed according to the ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), &m_payloadCache));
+                processAccept(make_channel<TChannel>(std::move(m_socket), m_payloadCache));
             }
             catch (const std::exception& e)
             {
-- 
2.43.0


From 427aabf678b49138f089ed2d5b8a4751d9e61e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:26 +0000
Subject: [PATCH 48/67] fix: local guests or listeners that were gone before
 the accept ran were used after free

---
 lib/include/dots/io/channels/LocalChannel.h  |  4 ++++
 lib/include/dots/io/channels/LocalListener.h |  2 ++
 lib/src/io/channels/LocalChannel.cpp         |  3 ++-
 lib/src/io/channels/LocalListener.cpp        | 22 ++++++++++++++------
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/lib/include/dots/io/channels/LocalChannel.h b/lib/include/dots/io/channels/LocalChannel.h
index e672e9b..66065ae 100644
--- a/lib/include/dots/io/channels/LocalChannel.h
+++ b/lib/include/dots/io/channels/LocalChannel.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <memory>
 #include <dots/asio.h>
 #include <dots/io/Channel.h>
 
@@ -28,7 +29,10 @@ namespace dots::io
 
     private:
 
+        friend struct LocalListener;
+
         std::reference_wrapper<asio::io_context> m_ioContext;
         std::weak_ptr<LocalChannel> m_peer;
+        std::shared_ptr<LocalChannel*> m_self;
     };
 }
diff --git a/lib/include/dots/io/channels/LocalListener.h b/lib/include/dots/io/channels/LocalListener.h
index 5ef9088..a9efcdf 100644
--- a/lib/include/dots/io/channels/LocalListener.h
+++ b/lib/include/dots/io/channels/LocalListener.h
@@ -2,6 +2,7 @@
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
 #include <functional>
+#include <memory>
 #include <optional>
 #include <dots/asio.h>
 #include <dots/io/Listener.h>
@@ -28,5 +29,6 @@ namespace dots::io
     private:
 
         std::reference_wrapper<asio::io_context> m_ioContext;
+        std::shared_ptr<LocalListener*> m_self;
     };
 }
diff --git a/lib/src/io/channels/LocalChannel.cpp b/lib/src/io/channels/LocalChannel.cpp
index abbc420..280729a 100644
--- a/lib/src/io/channels/LocalChannel.cpp
+++ b/lib/src/io/channels/LocalChannel.cpp
@@ -10,7 +10,8 @@ namespace dots::io
 {
     LocalChannel::LocalChannel(key_t key, asio::io_context& ioContext) :
         Channel(key),
-        m_ioContext{ std::ref(ioContext) }
+        m_ioContext{ std::ref(ioContext) },
+        m_self{ std::make_shared<LocalChannel*>(this) }
     {
         initEndpoints(Endpoint{ "local:/" }, Endpoint{ "local:/" });
     }
diff --git a/lib/src/io/channels/LocalListener.cpp b/lib/src/io/channels/LocalListener.cpp
index 0558e73..cd30d14 100644
--- a/lib/src/io/channels/LocalListener.cpp
+++ b/lib/src/io/channels/LocalListener.cpp
@@ -5,19 +5,29 @@
 namespace dots::io
 {
     LocalListener::LocalListener(asio::io_context& ioContext) :
-        m_ioContext{ std::ref(ioContext) }
+        m_ioContext{ std::ref(ioContext) },
+        m_self{ std::make_shared<LocalListener*>(this) }
     {
         /* do nothing */
     }
 
     void LocalListener::accept(LocalChannel& peer)
     {
-        asio::post(m_ioContext.get(), [&]
+        // note: the listener or the peer might no longer exist when the handler is invoked
+        asio::post(m_ioContext.get(), [listenerRef = std::weak_ptr{ m_self }, peerRef = std::weak_ptr{ peer.m_self }]
         {
-            auto channel = make_channel<LocalChannel>(static_cast<asio::io_context&>(m_ioContext));
-            peer.link(*channel);
-            channel->link(peer);
-            processAccept(std::move(channel));
+            auto listener = listenerRef.lock();
+            auto peer = peerRef.lock();
+
+            if (listener == nullptr || peer == nullptr)
+            {
+                return;
+            }
+
+            auto channel = make_channel<LocalChannel>(static_cast<asio::io_context&>((*listener)->m_ioContext));
+            (*peer)->link(*channel);
+            channel->link(**peer);
+            (*listener)->processAccept(std::move(channel));
         });
     }
 
-- 
2.43.0


From 0b9efbd6dabb997aa6cee7dbffc08615c609b033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:15 +0000
Subject: [PATCH 49/67] fix: a client that did not complete the WebSocket
 handshake blocked the host or ended the listener

---
 lib/include/dots/io/Listener.h                |   2 +
 .../dots/io/channels/WebSocketListener.h      |   5 +
 lib/src/io/Listener.cpp                       |   5 +
 lib/src/io/channels/WebSocketListener.cpp     | 102 +++++++++++-------
 4 files changed, 78 insertions(+), 36 deletions(-)

diff --git a/lib/include/dots/io/Listener.h b/lib/include/dots/io/Listener.h
index 32fddc6..e765e5b 100644
--- a/lib/include/dots/io/Listener.h
+++ b/lib/include/dots/io/Listener.h
@@ -25,6 +25,8 @@ namespace dots::io
 
     protected:
 
+        bool asyncAcceptActive() const;
+
         virtual void asyncAcceptImpl() = 0;
         void processAccept(channel_ptr_t channel);
         void processError(std::exception_ptr ePtr);
diff --git a/lib/include/dots/io/channels/WebSocketListener.h b/lib/include/dots/io/channels/WebSocketListener.h
index 2baa38c..e34e0c9 100644
--- a/lib/include/dots/io/channels/WebSocketListener.h
+++ b/lib/include/dots/io/channels/WebSocketListener.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <memory>
 #include <dots/asio.h>
 #include <boost/beast.hpp>
 #include <dots/io/Listener.h>
@@ -24,9 +25,13 @@ namespace dots::io
 
     private:
 
+        void asyncHandshake();
+
         std::string m_address;
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
         asio::ip::tcp::socket m_socket;
+        bool m_accepting;
+        std::shared_ptr<bool> m_alive;
     };
 }
diff --git a/lib/src/io/Listener.cpp b/lib/src/io/Listener.cpp
index 11cc860..f561d61 100644
--- a/lib/src/io/Listener.cpp
+++ b/lib/src/io/Listener.cpp
@@ -17,6 +17,11 @@ namespace dots::io
         asyncAcceptImpl();
     }
 
+    bool Listener::asyncAcceptActive() const
+    {
+        return m_asyncAcceptActive;
+    }
+
     void Listener::processAccept(channel_ptr_t channel)
     {
         if ((*m_acceptHandler)(*this, std::move(channel)))
diff --git a/lib/src/io/channels/WebSocketListener.cpp b/lib/src/io/channels/WebSocketListener.cpp
index 8f54ba3..741b9ea 100644
--- a/lib/src/io/channels/WebSocketListener.cpp
+++ b/lib/src/io/channels/WebSocketListener.cpp
@@ -3,6 +3,7 @@
 #include <dots/io/channels/WebSocketListener.h>
 #include <algorithm>
 #include <dots/io/channels/WebSocketChannel.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io
 {
@@ -16,7 +17,9 @@ namespace dots::io
         m_address{ std::move(address) },
         m_port{ std::move(port) },
         m_acceptor{ ioContext },
-        m_socket{ ioContext }
+        m_socket{ ioContext },
+        m_accepting(false),
+        m_alive{ std::make_shared<bool>(true) }
     {
         try
         {
@@ -44,48 +47,75 @@ namespace dots::io
 
     void WebSocketListener::asyncAcceptImpl()
     {
+        if (m_accepting)
+        {
+            return;
+        }
+
+        m_accepting = true;
         m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
         {
+            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
+            {
+                return;
+            }
+
+            m_accepting = false;
+
+            if (!asyncAcceptActive())
+            {
+                boost::system::error_code ec;
+                m_socket.close(ec);
+
+                return;
+            }
+
+            if (error)
+            {
+                processError(std::make_exception_ptr(std::runtime_error{ "failed listening on WebSocket endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
+                return;
+            }
+
+            asyncHandshake();
+            asyncAcceptImpl();
+        });
+    }
+
+    void WebSocketListener::asyncHandshake()
+    {
+        // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
+        auto stream = std::make_shared<WebSocketChannel::ws_stream_t>(std::move(m_socket));
+
+        stream->set_option(boost::beast::websocket::stream_base::timeout::suggested(boost::beast::role_type::server));
+        stream->set_option(boost::beast::websocket::stream_base::decorator([](boost::beast::websocket::response_type& res)
+        {
+            res.set(boost::beast::http::field::server, std::string(BOOST_BEAST_VERSION_STRING) + " DOTS WebSocket server");
+            res.set(boost::beast::http::field::sec_websocket_protocol, WebSocketChannel::Subprotocol);
+        }));
+
+        // note: the listener might no longer exist when the handshake has completed
+        stream->async_accept([this, alive = std::weak_ptr{ m_alive }, stream](const boost::system::error_code& error)
+        {
+            if (alive.expired() || !asyncAcceptActive())
+            {
+                return;
+            }
+
+            // note: an error only concerns the accepted client. it must not affect the listener and thereby
+            // all other clients
+            if (error)
+            {
+                LOG_WARN_S("failed to accept WebSocket client -> " << error.message());
+                return;
+            }
+
             try
             {
-                if (error == asio::error::operation_aborted || !m_acceptor.is_open())
-                {
-                    return;
-                }
-
-                if (error)
-                {
-                    processError(std::make_exception_ptr(std::runtime_error{ "failed listening on WebSocket endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
-                    return;
-                }
-
-                // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                WebSocketChannel::ws_stream_t stream{ std::move(m_socket) };
-
-                stream.set_option(boost::beast::websocket::stream_base::timeout::suggested(boost::beast::role_type::server));
-                stream.set_option(boost::beast::websocket::stream_base::decorator([](boost::beast::websocket::response_type& res)
-                {
-                    res.set(boost::beast::http::field::server, std::string(BOOST_BEAST_VERSION_STRING) + " DOTS WebSocket server");
-                    res.set(boost::beast::http::field::sec_websocket_protocol, WebSocketChannel::Subprotocol);
-                }));
-
-                stream.accept();
-
-                processAccept(make_channel<WebSocketChannel>(std::move(stream)));
+                processAccept(make_channel<WebSocketChannel>(std::move(*stream)));
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure WebSocket stream -> " } + e.what());
-
-                    m_socket.shutdown(asio::ip::tcp::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close WebSocket stream -> " } + e.what());
-                }
+                LOG_WARN_S("failed to accept WebSocket client -> " << e.what());
             }
         });
     }
-- 
2.43.0


From 74484181590e78d98c73467969575014f2124a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:56 +0000
Subject: [PATCH 50/67] fix: a WebSocket client that did not read blocked the
 host

---
 .../dots/io/channels/WebSocketChannel.h       |  8 ++++
 lib/src/io/channels/WebSocketChannel.cpp      | 43 ++++++++++++++++++-
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/io/channels/WebSocketChannel.h b/lib/include/dots/io/channels/WebSocketChannel.h
index 1bb00bc..6593bd2 100644
--- a/lib/include/dots/io/channels/WebSocketChannel.h
+++ b/lib/include/dots/io/channels/WebSocketChannel.h
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <deque>
+#include <string>
 #include <string_view>
 #include <dots/asio.h>
 #include <boost/beast.hpp>
@@ -31,8 +33,14 @@ namespace dots::io
 
     private:
 
+        static constexpr size_t WriteQueueMaxSize = 10 * 1024 * 1024;
+
+        void asyncWrite();
+
         ws_stream_t m_stream;
         boost::beast::flat_buffer m_buffer;
+        std::deque<std::string> m_writeQueue;
+        size_t m_writeQueueSize = 0;
         serialization::JsonSerializer m_serializer;
     };
 }
diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index 51a229b..05d6032 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -66,7 +66,7 @@ namespace dots::io
         {
             try
             {
-                if (this_.expired())
+                if (this_.expired() || (this_.use_count() == 1 && !m_writeQueue.empty()))
                 {
                     return;
                 }
@@ -92,12 +92,51 @@ namespace dots::io
 
     void WebSocketChannel::transmitImpl(const DotsHeader& header, const type::Struct& instance)
     {
+        if (m_writeQueueSize > WriteQueueMaxSize)
+        {
+            throw std::runtime_error{ "async write queue exceeded maximum size" };
+        }
+
         m_serializer.writer().writeArrayBegin();
         m_serializer.serialize(header);
         m_serializer.serialize(instance);
         m_serializer.writer().writeArrayEnd();
 
-        m_stream.write(asio::buffer(m_serializer.output()));
+        m_writeQueueSize += m_serializer.output().size();
+        m_writeQueue.emplace_back(std::move(m_serializer.output()));
         m_serializer.output().clear();
+
+        if (m_writeQueue.size() == 1)
+        {
+            asyncWrite();
+        }
+    }
+
+    void WebSocketChannel::asyncWrite()
+    {
+        // note: the write must be asynchronous, because a client that does not read would otherwise block the
+        // entire host
+        m_stream.async_write(asio::buffer(m_writeQueue.front()), [this, this_{ shared_from_this() }](std::error_code ec, size_t/* bytes*/)
+        {
+            try
+            {
+                verifyErrorCode(ec);
+
+                m_writeQueueSize -= m_writeQueue.front().size();
+                m_writeQueue.pop_front();
+
+                if (!m_writeQueue.empty())
+                {
+                    asyncWrite();
+                }
+            }
+            catch (...)
+            {
+                if (this_.use_count() > 1)
+                {
+                    processError(std::current_exception());
+                }
+            }
+        });
     }
 }
-- 
2.43.0


From 206e251b81fe83767591709c248e2c0aa9d9fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 51/67] fix: URIs kept parts of their former value after
 assignment

---
 lib/src/tools/Uri.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 0ce875c..639b3ca 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -277,6 +277,9 @@ namespace dots::tools
     {
         try
         {
+            m_scheme = {};
+            m_authority = {};
+            m_path = {};
             m_userName = {};
             m_userPassword = {};
             m_hostDelimited = {};
-- 
2.43.0


From 367afe11673230b2627616704b0c560a19253c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:18 +0000
Subject: [PATCH 52/67] fix: endpoints of IPv6 addresses lacked the brackets
 and thus had no host

---
 lib/src/tools/Uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 639b3ca..3b66112 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -13,7 +13,7 @@ namespace dots::tools
     }
 
     Uri::Uri(const std::string& scheme, const std::string& host, const std::string& port) :
-        Uri(scheme + "://" + host + ":" + port)
+        Uri(scheme + "://" + (host.find(':') == std::string::npos ? host : '[' + host + ']') + ":" + port)
     {
         /* do nothing */
     }
-- 
2.43.0


From 1433a9e22a2f8c3847b3ec676d9a68935a894296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:29 +0000
Subject: [PATCH 53/67] fix: URI paths containing :// were taken for
 authorities

---
 lib/src/tools/Uri.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 3b66112..7c4bff9 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -287,14 +287,15 @@ namespace dots::tools
             m_port = {};
 
             std::string_view remainder = m_uriStr;
-            std::tie(m_scheme, remainder) = split_right_at_first_of(remainder, "://", false);
+            std::tie(m_scheme, remainder) = split_right_at_first_of(remainder, ":", false);
 
-            if (m_scheme.empty())
+            if (m_scheme.empty() || !starts_with(remainder, "//"))
             {
-                std::tie(m_scheme, m_path) = split_right_at_first_of(remainder, ":", false);
+                m_path = remainder;
             }
             else
             {
+                remainder.remove_prefix(2);
                 std::tie(m_authority, m_path) = split_before_first_of(remainder, "/", false);
 
                 if (!m_authority.empty())
-- 
2.43.0


From 164c6ae5a867affc68f4b242e87a13c503111b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:37 +0000
Subject: [PATCH 54/67] fix: changing parts of URIs broke IPv6 hosts, left
 stray delimiters or duplicated the path

---
 lib/include/dots/tools/Uri.h |   1 +
 lib/src/tools/Uri.cpp        | 127 +++++++++++++++--------------------
 2 files changed, 56 insertions(+), 72 deletions(-)

diff --git a/lib/include/dots/tools/Uri.h b/lib/include/dots/tools/Uri.h
index 41a9579..6cf5e70 100644
--- a/lib/include/dots/tools/Uri.h
+++ b/lib/include/dots/tools/Uri.h
@@ -49,6 +49,7 @@ namespace dots::tools
     private:
 
         void replace(std::string_view part, std::string_view replacement);
+        void compose(std::string_view userName, std::string_view userPassword, std::string_view hostDelimited, std::string_view port);
         void parse();
 
         std::string m_uriStr;
diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 7c4bff9..0889021 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -87,12 +87,15 @@ namespace dots::tools
     {
         if (m_authority.empty())
         {
-            std::string schemeAndAuthority;
-            schemeAndAuthority += m_scheme;
-            schemeAndAuthority += "://";
-            schemeAndAuthority += authority;
-            schemeAndAuthority += m_path;
-            replace(m_scheme, schemeAndAuthority);
+            if (!authority.empty())
+            {
+                std::string uriStr;
+                uriStr += m_scheme;
+                uriStr += "://";
+                uriStr += authority;
+                uriStr += m_path;
+                *this = Uri{ std::move(uriStr) };
+            }
         }
         else
         {
@@ -107,23 +110,12 @@ namespace dots::tools
 
     void Uri::setUserName(const std::string& userName)
     {
-        if (m_userName.empty())
+        if (m_host.empty())
         {
-            if (m_host.empty())
-            {
-                throw std::runtime_error{ "cannot set user name on URI without a host" };
-            }
-
-            std::string userAtHost;
-            userAtHost += userName;
-            userAtHost += '@';
-            userAtHost += m_host;
-            replace(m_host, userAtHost);
-        }
-        else
-        {
-            replace(m_userName, userName);
+            throw std::runtime_error{ "cannot set user name on URI without a host" };
         }
+
+        compose(userName, userName.empty() ? std::string_view{} : m_userPassword, m_hostDelimited, m_port);
     }
 
     std::string_view Uri::userPassword() const
@@ -133,31 +125,12 @@ namespace dots::tools
 
     void Uri::setUserPassword(const std::string& userPassword)
     {
-        if (m_userPassword.empty())
-        {
-            if (m_userName.empty())
-            {
-                throw std::runtime_error{ "cannot set user password on URI without a user name" };
-            }
-
-            std::string userNameAndPassword;
-            userNameAndPassword += m_userName;
-            userNameAndPassword += ':';
-            userNameAndPassword += userPassword;
-            replace(m_userName, userNameAndPassword);
-        }
-        else
+        if (m_userName.empty())
         {
-            if (userPassword.empty())
-            {
-                std::string_view userPasswordAndSeparator{ m_userPassword.data() - 1, m_userPassword.size() + 1 };
-                replace(userPasswordAndSeparator, userPassword);
-            }
-            else
-            {
-                replace(m_userPassword, userPassword);
-            }
+            throw std::runtime_error{ "cannot set user password on URI without a user name" };
         }
+
+        compose(m_userName, userPassword, m_hostDelimited, m_port);
     }
 
     std::string_view Uri::host() const
@@ -180,7 +153,7 @@ namespace dots::tools
 
         if (m_authority.empty())
         {
-            setAuthority(hostView.data());
+            setAuthority(std::string{ hostView });
         }
         else
         {
@@ -195,31 +168,12 @@ namespace dots::tools
 
     void Uri::setPort(const std::string& port)
     {
-        if (m_port.empty())
+        if (m_host.empty())
         {
-            if (m_host.empty())
-            {
-                throw std::runtime_error{ "cannot set port on URI without a host" };
-            }
-
-            std::string hostAndPort;
-            hostAndPort += m_host;
-            hostAndPort += ':';
-            hostAndPort += port;
-            replace(m_host, hostAndPort);
-        }
-        else
-        {
-            if (port.empty())
-            {
-                std::string_view portAndSeparator{ m_port.data() - 1, m_port.size() + 1 };
-                replace(portAndSeparator, port);
-            }
-            else
-            {
-                replace(m_port, port);
-            }
+            throw std::runtime_error{ "cannot set port on URI without a host" };
         }
+
+        compose(m_userName, m_userPassword, m_hostDelimited, port);
     }
 
     std::string_view Uri::path() const
@@ -236,8 +190,7 @@ namespace dots::tools
 
         if (m_path.empty())
         {
-            m_uriStr += path;
-            parse();
+            *this = Uri{ m_uriStr + path };
         }
         else
         {
@@ -269,8 +222,38 @@ namespace dots::tools
 
     void Uri::replace(std::string_view part, std::string_view replacement)
     {
-        m_uriStr.replace(static_cast<size_t>(part.data() - m_uriStr.data()), part.size(), replacement);
-        parse();
+        // note that the replacement might render the URI invalid, in which case it is supposed to be left unchanged
+        std::string uriStr = m_uriStr;
+        uriStr.replace(static_cast<size_t>(part.data() - m_uriStr.data()), part.size(), replacement);
+        *this = Uri{ std::move(uriStr) };
+    }
+
+    void Uri::compose(std::string_view userName, std::string_view userPassword, std::string_view hostDelimited, std::string_view port)
+    {
+        std::string authority;
+
+        if (!userName.empty() || !userPassword.empty())
+        {
+            authority += userName;
+
+            if (!userPassword.empty())
+            {
+                authority += ':';
+                authority += userPassword;
+            }
+
+            authority += '@';
+        }
+
+        authority += hostDelimited;
+
+        if (!port.empty())
+        {
+            authority += ':';
+            authority += port;
+        }
+
+        replace(m_authority, authority);
     }
 
     void Uri::parse()
-- 
2.43.0


From 4c1bdfcd76fc1307d1a46086feb37a3cc10e4867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:14 +0000
Subject: [PATCH 55/67] fix: durations were written truncated, or in scientific
 or empty notations that cannot be read

---
 lib/src/type/Chrono.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index cab67f2..708cbb1 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -1,6 +1,10 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
+#include <algorithm>
+#include <cmath>
+#include <limits>
 #include <sstream>
+#include <iomanip>
 #include <regex>
 #include <charconv>
 #include <optional>
@@ -37,10 +41,16 @@ namespace dots::type
 
         std::ostringstream oss;
 
-        oss << "P";
-
         Duration duration{ *this };
 
+        if (duration < zero())
+        {
+            oss << "-";
+            duration = -duration;
+        }
+
+        oss << "P";
+
         auto floor_to_string = [&oss, &duration](auto floorZero, char c)
         {
             using duration_t = decltype(floorZero);
@@ -62,7 +72,22 @@ namespace dots::type
 
             if (duration > zero())
             {
-                oss << duration.count() << "S";
+                // note that more digits than can be represented for the whole duration would not be significant
+                int integerDigits = 1 + static_cast<int>(std::log10(std::max(1.0, std::fabs(count()))));
+                int fractionalDigits = std::clamp(std::numeric_limits<rep>::digits10 - integerDigits, 0, 9);
+
+                std::ostringstream seconds;
+                seconds << std::fixed << std::showpoint << std::setprecision(fractionalDigits) << duration.count();
+
+                std::string secondsStr = seconds.str();
+                secondsStr.erase(secondsStr.find_last_not_of('0') + 1);
+
+                if (secondsStr.back() == '.')
+                {
+                    secondsStr.pop_back();
+                }
+
+                oss << secondsStr << "S";
             }
         }
 
-- 
2.43.0


From 2c473af528b6ae6cb3513fc537b5fd39029b2b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:32 +0000
Subject: [PATCH 56/67] fix: durations without time part could not be read and
 fractions were silently ignored

---
 lib/src/type/Chrono.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index 708cbb1..aed45a4 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -107,9 +107,8 @@ namespace dots::type
             return Duration{ zero() };
         }
 
-        // note that this implementation is currently not able to parse durations without a time designator. additionally
-        // it is pretty slow and should be overhauled at a later point
-        std::regex regex{ R"(P([0-9\.]+Y)?([0-9\.]+M)?([0-9\.]+W)?([0-9\.]+D)?(T)([0-9\.]+H)?([0-9\.]+M)?([0-9\.]+S)?)", std::regex_constants::ECMAScript };
+        // note that this implementation is pretty slow and should be overhauled at a later point
+        std::regex regex{ R"((-)?P([0-9\.]+Y)?([0-9\.]+M)?([0-9\.]+W)?([0-9\.]+D)?(?:(T)([0-9\.]+H)?([0-9\.]+M)?([0-9\.]+S)?)?)", std::regex_constants::ECMAScript };
         std::smatch match;
         std::string input{ value };
 
@@ -119,6 +118,7 @@ namespace dots::type
         }
 
         bool preTimeDesignator = true;
+        bool negative = false;
         Duration duration = zero();
 
         for (size_t i = 1; i < match.size(); ++i)
@@ -135,15 +135,14 @@ namespace dots::type
             // this can be simplified with C++20 by using a template parameter.
             auto parse_duration = [](auto duration, const std::string& part)
             {
-                using duration_t = decltype(duration);
-                using rep_t = typename duration_t::rep;
+                using duration_t = std::chrono::duration<double, typename decltype(duration)::period>;
                 (void)duration;
 
-                rep_t count;
+                double count;
 
-                if (std::from_chars_result result = std::from_chars(part.data(), part.data() + part.size(), count); result.ec != std::errc{})
+                if (std::from_chars_result result = std::from_chars(part.data(), part.data() + part.size() - 1, count); result.ec != std::errc{} || result.ptr != part.data() + part.size() - 1)
                 {
-                    throw std::runtime_error{ "could not parse duration from string part: " + part  + " -> " + std::make_error_code(result.ec).message() };
+                    throw std::runtime_error{ "could not parse duration from string part: " + part };
                 }
 
                 return duration_t{ count };
@@ -151,12 +150,13 @@ namespace dots::type
 
             switch (part.back())
             {
+                case '-': negative = true; break;
                 case 'Y': duration += parse_duration(date::years::zero(), part); break;
                 case 'W': duration += parse_duration(date::weeks::zero(), part); break;
                 case 'D': duration += parse_duration(date::days::zero(), part); break;
                 case 'T': preTimeDesignator = false; break;
                 case 'H': duration += parse_duration(std::chrono::hours::zero(), part); break;
-                case 'S': duration += std::chrono::duration_cast<std::chrono::nanoseconds>(base_t{ std::stod(part) }); break;
+                case 'S': duration += parse_duration(std::chrono::seconds::zero(), part); break;
                 case 'M':
                 {
                     if (preTimeDesignator)
@@ -174,7 +174,7 @@ namespace dots::type
             }
         }
 
-        return Duration{ duration };
+        return negative ? Duration{ -duration } : duration;
     }
 
     using sys_time_t = date::sys_time<std::chrono::milliseconds>;
-- 
2.43.0


From 43395b0c4af30eb25774164ef5b295e0e91cae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 57/67] fix: points in time were written a millisecond too
 early and drifted with each round trip

---
 lib/src/type/Chrono.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index aed45a4..1d8b562 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -199,7 +199,7 @@ namespace dots::type
                 oss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
                 std::string fmtStr{ fmt == ISO8601DateTime ? "%FT%T%Ez" : fmt };
                 const char* fmtData = fmtStr.c_str();
-                sys_time_t sysTimePoint{ std::chrono::duration_cast<sys_duration_t>(duration()) };
+                sys_time_t sysTimePoint{ std::chrono::round<sys_duration_t>(duration()) };
 
                 if (utc)
                 {
-- 
2.43.0


From ab01eb9c9d02bc7646e71bb4ccdc168f3857d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 58/67] fix: a TCP channel that fails to resolve its host, or
 is given up meanwhile, was used afterwards

---
 lib/include/dots/io/channels/TcpChannel.h |  1 +
 lib/src/io/channels/TcpChannel.cpp        | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/io/channels/TcpChannel.h b/lib/include/dots/io/channels/TcpChannel.h
index 65f39ab..5a853c0 100644
--- a/lib/include/dots/io/channels/TcpChannel.h
+++ b/lib/include/dots/io/channels/TcpChannel.h
@@ -73,6 +73,7 @@ namespace dots::io::details
         std::optional<error_handler_t> m_ecb;
 
         asio::ip::tcp::resolver m_resolver;
+        std::shared_ptr<bool> m_isAlive = std::make_shared<bool>(true);
     };
 
     extern template struct GenericTcpChannel<serialization::CborSerializer, TransmissionFormat::v1>;
diff --git a/lib/src/io/channels/TcpChannel.cpp b/lib/src/io/channels/TcpChannel.cpp
index 21de884..7d62ba6 100644
--- a/lib/src/io/channels/TcpChannel.cpp
+++ b/lib/src/io/channels/TcpChannel.cpp
@@ -40,13 +40,24 @@ namespace dots::io::details
     GenericTcpChannel<Serializer, TransmissionFormat>::GenericTcpChannel(key_t key, asio::io_context& ioContext, std::string_view host, std::string_view port, std::function<void(const boost::system::error_code& error)> onConnect) :
         GenericTcpChannel(key, asio::ip::tcp::socket{ ioContext }, nullptr)
     {
-        asyncResolveEndpoint(host, port, [this, onConnect{ std::move(onConnect) }](auto& error, auto endpoint) {
+        asyncResolveEndpoint(host, port, [this, isAlive{ std::weak_ptr{ m_isAlive } }, onConnect{ std::move(onConnect) }](auto& error, auto endpoint) {
+            if (isAlive.expired())
+            {
+                return;
+            }
+
             if (error)
             {
                 onConnect(error);
+                return;
             }
 
-            stream().async_connect(*endpoint, [this, endpoint, onConnect{ std::move(onConnect) }](const boost::system::error_code& error) {
+            stream().async_connect(*endpoint, [this, isAlive, onConnect](const boost::system::error_code& error) {
+                if (isAlive.expired())
+                {
+                    return;
+                }
+
                 if (error)
                 {
                     onConnect(error);
-- 
2.43.0


From 97790307a93c52122562abbf9f552bc8acc36ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 59/67] fix: assigning to a timer or observer left its former
 wait running, which kept the event loop and handler alive

---
 lib/include/dots/Timer.h         | 9 ++++++++-
 lib/include/dots/io/FdObserver.h | 9 ++++++++-
 lib/src/Timer.cpp                | 9 +++++++++
 lib/src/io/FdObserver.cpp        | 9 +++++++++
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/Timer.h b/lib/include/dots/Timer.h
index e867d51..7881a70 100644
--- a/lib/include/dots/Timer.h
+++ b/lib/include/dots/Timer.h
@@ -60,7 +60,14 @@ namespace dots
         ~Timer();
 
         Timer& operator = (const Timer& rhs) = delete;
-        Timer& operator = (Timer&& rhs) = default;
+
+        /*!
+         * @brief Move another Timer object to this object.
+         *
+         * When the Timer object is already managing an active timer, the timer
+         * will be cancelled first (see ~Timer()).
+         */
+        Timer& operator = (Timer&& rhs) noexcept;
 
         /*!
          * @brief Release management of the timer.
diff --git a/lib/include/dots/io/FdObserver.h b/lib/include/dots/io/FdObserver.h
index 29bdc53..eb9b5ad 100644
--- a/lib/include/dots/io/FdObserver.h
+++ b/lib/include/dots/io/FdObserver.h
@@ -71,7 +71,14 @@ namespace dots::io::posix
         ~FdObserver();
 
         FdObserver& operator = (const FdObserver& rhs) = delete;
-        FdObserver& operator = (FdObserver&& rhs) = default;
+
+        /*!
+         * @brief Move another FdObserver object to this object.
+         *
+         * When the FdObserver object is already observing a file, the
+         * observation will be cancelled first (see ~FdObserver()).
+         */
+        FdObserver& operator = (FdObserver&& rhs) noexcept;
 
         /*!
          * @brief Release management of the FdObserver.
diff --git a/lib/src/Timer.cpp b/lib/src/Timer.cpp
index 6ae248a..7d57158 100644
--- a/lib/src/Timer.cpp
+++ b/lib/src/Timer.cpp
@@ -53,6 +53,15 @@ namespace dots
         }
     }
 
+    Timer& Timer::operator = (Timer&& rhs) noexcept
+    {
+        // note: the former timer (if any) will be cancelled when 'other' is destroyed
+        Timer other{ std::move(rhs) };
+        std::swap(m_timerData, other.m_timerData);
+
+        return *this;
+    }
+
     void Timer::discard()
     {
         if (m_timerData != nullptr)
diff --git a/lib/src/io/FdObserver.cpp b/lib/src/io/FdObserver.cpp
index e415d22..4cde57c 100644
--- a/lib/src/io/FdObserver.cpp
+++ b/lib/src/io/FdObserver.cpp
@@ -57,6 +57,15 @@ namespace dots::io::posix
         }
     }
 
+    FdObserver& FdObserver::operator = (FdObserver&& rhs) noexcept
+    {
+        // note: the former observation (if any) will be cancelled when 'other' is destroyed
+        FdObserver other{ std::move(rhs) };
+        std::swap(m_observerData, other.m_observerData);
+
+        return *this;
+    }
+
     void FdObserver::discard()
     {
         if (m_observerData != nullptr)
-- 
2.43.0


From 6e09ed9d9615f7fad761c24b4bb9cee5cab76c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:09 +0000
Subject: [PATCH 60/67] fix: timers of more than 292 years ran out at once

---
 lib/src/Timer.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/src/Timer.cpp b/lib/src/Timer.cpp
index 7d57158..8d2bd71 100644
--- a/lib/src/Timer.cpp
+++ b/lib/src/Timer.cpp
@@ -8,6 +8,24 @@ namespace dots
     using timer_t = asio::steady_timer;
     using duration_t = timer_t::clock_type::duration;
 
+    // note: durations and time points that exceed the range of the timer are limited to the latter, as the result of
+    // the cast would be undefined
+    static duration_t to_timer_duration(const type::Duration& duration)
+    {
+        if (duration >= type::Duration{ duration_t::max() })
+        {
+            return duration_t::max();
+        }
+        else if (duration <= type::Duration{ duration_t::min() })
+        {
+            return duration_t::min();
+        }
+        else
+        {
+            return std::chrono::duration_cast<duration_t>(duration);
+        }
+    }
+
     struct Timer::timer_data
     {
         timer_t timer;
@@ -74,14 +92,14 @@ namespace dots
     void Timer::StartRelative(const std::shared_ptr<timer_data>& timerData)
     {
         type::Duration duration = timerData->interval;
-        timerData->timer.expires_after(std::chrono::duration_cast<duration_t>(duration));
+        timerData->timer.expires_after(to_timer_duration(duration));
         AsyncWait(timerData);
     }
 
     void Timer::StartAbsolute(const std::shared_ptr<timer_data>& timerData)
     {
         type::SteadyTimePoint timepoint = timerData->next += timerData->interval;
-        timerData->timer.expires_at(std::chrono::time_point_cast<duration_t>(timepoint));
+        timerData->timer.expires_at(timer_t::time_point{ to_timer_duration(timepoint.time_since_epoch()) });
         AsyncWait(timerData);
     }
 
-- 
2.43.0


From 974c84dbec18e3dfd18abbbe6f67ce27a2e707eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:08 +0000
Subject: [PATCH 61/67] fix: an application could hang, crash or leave parts
 behind when it failed to connect, used its own transceiver, or followed
 another

---
 lib/include/dots/Application.h      |   3 +
 lib/include/dots/GuestTransceiver.h |   9 +++
 lib/src/Application.cpp             | 111 +++++++++++++++++++---------
 lib/src/GuestTransceiver.cpp        |   5 ++
 4 files changed, 92 insertions(+), 36 deletions(-)

diff --git a/lib/include/dots/Application.h b/lib/include/dots/Application.h
index e75a624..5c1cf77 100644
--- a/lib/include/dots/Application.h
+++ b/lib/include/dots/Application.h
@@ -254,6 +254,9 @@ namespace dots
         const asio::io_context& ioContext() const;
         asio::io_context& ioContext();
 
+        void initSignals();
+        void destroyTransceiver();
+
         void handleGuestTransceiverTransition(const Connection& connection, std::exception_ptr ePtr);
 
         void parseGuestTransceiverArgs(int argc, char* argv[]);
diff --git a/lib/include/dots/GuestTransceiver.h b/lib/include/dots/GuestTransceiver.h
index 8324d57..dc04d40 100644
--- a/lib/include/dots/GuestTransceiver.h
+++ b/lib/include/dots/GuestTransceiver.h
@@ -79,6 +79,15 @@ namespace dots
          */
         bool connected() const;
 
+        /*!
+         * @brief Indicates whether there is no host connection.
+         *
+         * @return true If no connection has been opened or the connection has
+         * been closed.
+         * @return false Else.
+         */
+        bool closed() const;
+
         /*!
          * @brief Get current host connection.
          *
diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index a477bef..0bb3acf 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -23,7 +23,7 @@ namespace dots
         parseGuestTransceiverArgs(argc, argv);
         GuestTransceiver* transceiver;
 
-        if (m_guestTransceiverStorage == std::nullopt || &*m_guestTransceiverStorage == &global_transceiver())
+        if (m_guestTransceiverStorage == std::nullopt)
         {
             using transition_handler_t = GuestTransceiver::transition_handler_t;
             transceiver = &global_transceiver_create(GuestTransceiver(
@@ -32,40 +32,60 @@ namespace dots
                 type::Registry::StaticTypePolicy::All,
                 transition_handler_t{ &Application::handleGuestTransceiverTransition, this }
             ));
-            transceiver->open(io::global_publish_types(), io::global_subscribe_types(), *m_openEndpoint);
         }
         else
         {
             transceiver = &*m_guestTransceiverStorage;
-            transceiver->open(*m_openEndpoint);
         }
 
         m_transceiver = transceiver;
 
-        if (handleExitSignals)
-        {
-            m_signals = std::make_unique<signal_set_storage>(ioContext());
-            m_signals->signalSet.async_wait([this](boost::system::error_code/* error*/, int/* signalNumber*/){ exit(); });
-        }
-
-        for (;;)
+        try
         {
-            if (m_guestConnectionError != nullptr)
+            // note: the IO context might have been stopped by a former application
+            if (ioContext().stopped())
             {
-                std::rethrow_exception(m_guestConnectionError);
+                ioContext().restart();
             }
 
-            if (transceiver->connected())
+            if (m_guestTransceiverStorage == std::nullopt)
             {
-                break;
+                transceiver->open(io::global_publish_types(), io::global_subscribe_types(), *m_openEndpoint);
             }
             else
             {
-                ioContext().run_one();
+                transceiver->open(*m_openEndpoint);
             }
-        }
 
-        transceiver->publish(DotsClient{ .id = transceiver->connection().selfId(), .running = true });
+            if (handleExitSignals)
+            {
+                initSignals();
+            }
+
+            for (;;)
+            {
+                if (m_guestConnectionError != nullptr)
+                {
+                    std::rethrow_exception(m_guestConnectionError);
+                }
+
+                if (transceiver->connected())
+                {
+                    break;
+                }
+                else if (transceiver->closed() || ioContext().run_one() == 0)
+                {
+                    throw std::runtime_error{ "connection was closed before it was established" };
+                }
+            }
+
+            transceiver->publish(DotsClient{ .id = transceiver->connection().selfId(), .running = true });
+        }
+        catch (...)
+        {
+            destroyTransceiver();
+            throw;
+        }
     }
 
     Application::Application(const std::string& name, std::optional<GuestTransceiver> guestTransceiver/* = std::nullopt*/, bool handleExitSignals/* = true*/) :
@@ -85,8 +105,7 @@ namespace dots
 
         if (handleExitSignals)
         {
-            m_signals = std::make_unique<signal_set_storage>(ioContext());
-            m_signals->signalSet.async_wait([this](boost::system::error_code/* error*/, int/* signalNumber*/){ exit(); });
+            initSignals();
         }
     }
 
@@ -98,23 +117,7 @@ namespace dots
 
     Application::~Application()
     {
-        ioContext().stop();
-
-        if (m_hostTransceiverStorage != std::nullopt)
-        {
-            m_hostTransceiverStorage = std::nullopt;
-        }
-        else if (m_guestTransceiverStorage != std::nullopt)
-        {
-            m_guestTransceiverStorage = std::nullopt;
-        }
-        else
-        {
-            global_transceiver_destroy();
-        }
-
-        ioContext().restart();
-        ioContext().poll();
+        destroyTransceiver();
     }
 
     const Transceiver& Application::transceiver() const
@@ -151,6 +154,42 @@ namespace dots
         return m_transceiver->ioContext();
     }
 
+    void Application::initSignals()
+    {
+        m_signals = std::make_unique<signal_set_storage>(ioContext());
+        m_signals->signalSet.async_wait([this](boost::system::error_code error, int/* signalNumber*/)
+        {
+            // note: the application no longer exists when the operation was aborted
+            if (!error)
+            {
+                exit();
+            }
+        });
+    }
+
+    void Application::destroyTransceiver()
+    {
+        asio::io_context& ioContext = Application::ioContext();
+        ioContext.stop();
+        m_signals = nullptr;
+
+        if (m_hostTransceiverStorage != std::nullopt)
+        {
+            m_hostTransceiverStorage = std::nullopt;
+        }
+        else if (m_guestTransceiverStorage != std::nullopt)
+        {
+            m_guestTransceiverStorage = std::nullopt;
+        }
+        else
+        {
+            global_transceiver_destroy();
+        }
+
+        ioContext.restart();
+        ioContext.poll();
+    }
+
     void Application::handleGuestTransceiverTransition(const Connection& connection, std::exception_ptr ePtr)
     {
         m_guestConnectionError = ePtr;
diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index bbc4c82..d9c7d8c 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -30,6 +30,11 @@ namespace dots
         return m_hostConnection != nullptr && m_hostConnection->connected();
     }
 
+    bool GuestTransceiver::closed() const
+    {
+        return m_hostConnection == nullptr;
+    }
+
     const Connection& GuestTransceiver::connection() const
     {
         return *m_hostConnection;
-- 
2.43.0


From 185be54862f40ceabe431a4dfa4724edcf802b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:24 +0000
Subject: [PATCH 62/67] fix: the daemon never published its status

---
 bin/dotsd/src/DotsDaemon.cpp | 46 ++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/bin/dotsd/src/DotsDaemon.cpp b/bin/dotsd/src/DotsDaemon.cpp
index 50a7c0c..b477826 100644
--- a/bin/dotsd/src/DotsDaemon.cpp
+++ b/bin/dotsd/src/DotsDaemon.cpp
@@ -94,31 +94,31 @@ namespace dots
         {
             DotsDaemonStatus ds{ m_daemonStatus };
 
+            #ifdef __unix__
+            struct rusage usage;
+            ::getrusage(RUSAGE_SELF, &usage);
+
+            ds.resourceUsage = DotsResourceUsage{
+                .minorFaults = static_cast<int32_t>(usage.ru_minflt),
+                .majorFaults = static_cast<int32_t>(usage.ru_majflt),
+                .inBlock = static_cast<int32_t>(usage.ru_inblock),
+                .outBlock = static_cast<int32_t>(usage.ru_oublock),
+                .nrSignals = static_cast<int32_t>(usage.ru_nsignals),
+                .nrSwaps = static_cast<int32_t>(usage.ru_nswap),
+                .nrVoluntaryContextSwitches = static_cast<int32_t>(usage.ru_nvcsw),
+                .nrInvoluntaryContextSwitches = static_cast<int32_t>(usage.ru_nivcsw),
+                .maxRss = static_cast<int32_t>(usage.ru_maxrss),
+                .userCpuTime = type::posix::Timeval{ usage.ru_utime },
+                .systemCpuTime = type::posix::Timeval{ usage.ru_stime }
+            };
+            #endif
+            ds.cache = DotsCacheStatus{
+                .nrTypes = static_cast<uint32_t>(transceiver().pool().size()),
+                .size = static_cast<uint32_t>(transceiver().pool().totalMemoryUsage())
+            };
+
             if (m_daemonStatus._diffProperties(ds))
             {
-                #ifdef __unix__
-                struct rusage usage;
-                ::getrusage(RUSAGE_SELF, &usage);
-
-                ds.resourceUsage = DotsResourceUsage{
-                    .minorFaults = static_cast<int32_t>(usage.ru_minflt),
-                    .majorFaults = static_cast<int32_t>(usage.ru_majflt),
-                    .inBlock = static_cast<int32_t>(usage.ru_inblock),
-                    .outBlock = static_cast<int32_t>(usage.ru_oublock),
-                    .nrSignals = static_cast<int32_t>(usage.ru_nsignals),
-                    .nrSwaps = static_cast<int32_t>(usage.ru_nswap),
-                    .nrVoluntaryContextSwitches = static_cast<int32_t>(usage.ru_nvcsw),
-                    .nrInvoluntaryContextSwitches = static_cast<int32_t>(usage.ru_nivcsw),
-                    .maxRss = static_cast<int32_t>(usage.ru_maxrss),
-                    .userCpuTime = type::posix::Timeval{ usage.ru_utime },
-                    .systemCpuTime = type::posix::Timeval{ usage.ru_stime }
-                };
-                #endif
-                ds.cache = DotsCacheStatus{
-                    .nrTypes = static_cast<uint32_t>(transceiver().pool().size()),
-                    .size = static_cast<uint32_t>(transceiver().pool().totalMemoryUsage())
-                };
-
                 transceiver().publish(ds);
                 m_daemonStatus = ds;
             }
-- 
2.43.0


From 7e8b3a200aae7b8682eddeb6a270c7b40e27ceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:12 +0000
Subject: [PATCH 63/67] fix: a secret given by option or environment could not
 be used without a user name in the endpoint

---
 lib/include/dots/Application.h      |  1 +
 lib/include/dots/GuestTransceiver.h | 27 +++++++++++++++++++++++++++
 lib/src/Application.cpp             |  8 ++++----
 lib/src/GuestTransceiver.cpp        |  7 +++++--
 4 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/lib/include/dots/Application.h b/lib/include/dots/Application.h
index 5c1cf77..27125f6 100644
--- a/lib/include/dots/Application.h
+++ b/lib/include/dots/Application.h
@@ -263,6 +263,7 @@ namespace dots
         void parseHostTransceiverArgs(int argc, char* argv[]);
 
         std::optional<io::Endpoint> m_openEndpoint;
+        std::optional<std::string> m_authSecret;
         std::vector<io::Endpoint> m_listenEndpoints;
         std::unique_ptr<signal_set_storage> m_signals;
         int m_exitCode;
diff --git a/lib/include/dots/GuestTransceiver.h b/lib/include/dots/GuestTransceiver.h
index dc04d40..afe76d6 100644
--- a/lib/include/dots/GuestTransceiver.h
+++ b/lib/include/dots/GuestTransceiver.h
@@ -214,6 +214,33 @@ namespace dots
          */
         const Connection& open(type::DescriptorMap preloadPublishTypes, type::DescriptorMap preloadSubscribeTypes, io::Endpoint endpoint);
 
+        /*!
+         * @brief Start to asynchronously open and establish a host connection
+         * via a specific endpoint.
+         *
+         * @param preloadPublishTypes The publish types to preload.
+         *
+         * @param preloadSubscribeTypes The subscribe types to preload.
+         *
+         * @param authSecret The secret to use if the host requires
+         * authentication. This takes precedence over a password that is part
+         * of the endpoint.
+         *
+         * @param endpoint The endpoint to use to create a channel and
+         * asynchronously open and establish a host connection. The channel
+         * type will be determined by the endpoint's scheme.
+         *
+         * @return const Connection& A reference to the host connection after
+         * asynchronous receiving has started.
+         *
+         * @exception std::logic_error Thrown if another host connection has
+         * already been opened.
+         *
+         * @exception std::runtime_error Thrown if the endpoint has an
+         * unsupported URI scheme.
+         */
+        const Connection& open(type::DescriptorMap preloadPublishTypes, type::DescriptorMap preloadSubscribeTypes, std::optional<std::string> authSecret, io::Endpoint endpoint);
+
         /*!
          * @brief Asynchronously open and establish a host connection via a
          * specific endpoint.
diff --git a/lib/src/Application.cpp b/lib/src/Application.cpp
index 0bb3acf..b0c4e20 100644
--- a/lib/src/Application.cpp
+++ b/lib/src/Application.cpp
@@ -50,11 +50,11 @@ namespace dots
 
             if (m_guestTransceiverStorage == std::nullopt)
             {
-                transceiver->open(io::global_publish_types(), io::global_subscribe_types(), *m_openEndpoint);
+                transceiver->open(io::global_publish_types(), io::global_subscribe_types(), m_authSecret, *m_openEndpoint);
             }
             else
             {
-                transceiver->open(*m_openEndpoint);
+                transceiver->open({}, {}, m_authSecret, *m_openEndpoint);
             }
 
             if (handleExitSignals)
@@ -234,11 +234,11 @@ namespace dots
 
         if (auto it = args.find("dots-auth-secret"); it != args.end())
         {
-            m_openEndpoint->setUserPassword(it->second.as<std::string>());
+            m_authSecret = it->second.as<std::string>();
         }
         else if (const char* dotsAuthSecret = ::getenv("DOTS_AUTH_SECRET"); dotsAuthSecret != nullptr)
         {
-            m_openEndpoint->setUserPassword(dotsAuthSecret);
+            m_authSecret = dotsAuthSecret;
         }
 
         if (auto it = args.find("dots-log-level"); it != args.end())
diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index d9c7d8c..a4178ec 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -180,9 +180,12 @@ namespace dots
 {
     const Connection& GuestTransceiver::open(type::DescriptorMap preloadPublishTypes, type::DescriptorMap preloadSubscribeTypes, io::Endpoint endpoint)
     {
-        std::optional<std::string> authSecret;
+        return open(std::move(preloadPublishTypes), std::move(preloadSubscribeTypes), std::optional<std::string>{ std::nullopt }, std::move(endpoint));
+    }
 
-        if (!endpoint.userPassword().empty())
+    const Connection& GuestTransceiver::open(type::DescriptorMap preloadPublishTypes, type::DescriptorMap preloadSubscribeTypes, std::optional<std::string> authSecret, io::Endpoint endpoint)
+    {
+        if (authSecret == std::nullopt && !endpoint.userPassword().empty())
         {
             authSecret = endpoint.userPassword();
         }
-- 
2.43.0


From 88f1f8511bcc8b74b442c32319767db5ed597a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:49 +0000
Subject: [PATCH 64/67] fix: swap property iterators completely

swap() only exchanged the area and the position, so that a swapped
iterator went on showing the property, the filter and the descriptors it
had before.
---
 lib/include/dots/type/PropertyIterator.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/include/dots/type/PropertyIterator.h b/lib/include/dots/type/PropertyIterator.h
index d257ea3..9a8f045 100644
--- a/lib/include/dots/type/PropertyIterator.h
+++ b/lib/include/dots/type/PropertyIterator.h
@@ -44,13 +44,14 @@ namespace dots::type
         void swap(PropertyIterator& other) noexcept
         {
             std::swap(m_area, other.m_area);
+            std::swap(m_descriptors, other.m_descriptors);
             std::swap(m_descriptorIt, other.m_descriptorIt);
+            std::swap(m_properties, other.m_properties);
+            std::swap(m_proxy, other.m_proxy);
         }
         void swap(PropertyIterator&& other)
         {
-            m_area = other.m_area;
-            other.m_area = nullptr;
-            m_descriptorIt = std::move(other.m_descriptorIt);
+            swap(other);
         }
 
         auto operator ++ () -> PropertyIterator&
-- 
2.43.0


From b83a9c35e5db8b301db735ecd340a98e193739d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:49 +0000
Subject: [PATCH 65/67] fix: DescriptorMap::contains reports contained types

The result was inverted.
---
 lib/src/type/DescriptorMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/type/DescriptorMap.cpp b/lib/src/type/DescriptorMap.cpp
index f8076f0..c50c890 100644
--- a/lib/src/type/DescriptorMap.cpp
+++ b/lib/src/type/DescriptorMap.cpp
@@ -71,7 +71,7 @@ namespace dots::type
 
     bool DescriptorMap::contains(std::string_view name) const
     {
-        return find(name) == nullptr;
+        return find(name) != nullptr;
     }
 
     std::pair<Descriptor<>*, bool> DescriptorMap::tryEmplace(Descriptor<>& descriptor)
-- 
2.43.0


From f2f5eb9b8e5f5ad39ec14c4224c68e9f0f258fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:49 +0000
Subject: [PATCH 66/67] fix: forget the names of removed containers

A ContainerPool kept finding a removed Container by its name, and a copy
of a ContainerPool found the containers of the original.
---
 lib/include/dots/ContainerPool.h |  2 +-
 lib/src/ContainerPool.cpp        | 21 +++++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/include/dots/ContainerPool.h b/lib/include/dots/ContainerPool.h
index a91634e..1841756 100644
--- a/lib/include/dots/ContainerPool.h
+++ b/lib/include/dots/ContainerPool.h
@@ -303,7 +303,7 @@ namespace dots
 
     private:
 
-        using name_cache_t = std::map<std::string, Container<>*, std::less<>>;
+        using name_cache_t = std::map<std::string, const type::StructDescriptor*, std::less<>>;
 
         // TODO: remove mutability when utilities are fixed to no longer require non-const pool access
         mutable pool_t m_pool;
diff --git a/lib/src/ContainerPool.cpp b/lib/src/ContainerPool.cpp
index 0cfa3c0..dd3667d 100644
--- a/lib/src/ContainerPool.cpp
+++ b/lib/src/ContainerPool.cpp
@@ -62,7 +62,7 @@ namespace dots
 
             if (emplaced)
             {
-                m_nameCache.emplace(descriptorPtr->name(), &container);
+                m_nameCache.emplace(descriptorPtr->name(), descriptorPtr);
             }
 
             return container;
@@ -93,7 +93,7 @@ namespace dots
     const Container<>* ContainerPool::find(std::string_view name) const
     {
         auto it = m_nameCache.find(name);
-        return it == m_nameCache.end() ? nullptr : it->second;
+        return it == m_nameCache.end() ? nullptr : find(*it->second);
     }
 
     const Container<>& ContainerPool::get(std::string_view name) const
@@ -127,6 +127,23 @@ namespace dots
             throw std::runtime_error{ "container pool does not contain an element for the given type: " + descriptor.name() };
         }
 
+        if (auto it = m_nameCache.find(descriptor.name()); it != m_nameCache.end() && it->second == &descriptor)
+        {
+            auto itOther = std::find_if(m_pool.begin(), m_pool.end(), [&](const value_t& value)
+            {
+                return value.first->name() == descriptor.name();
+            });
+
+            if (itOther == m_pool.end())
+            {
+                m_nameCache.erase(it);
+            }
+            else
+            {
+                it->second = itOther->first;
+            }
+        }
+
         return node;
     }
 
-- 
2.43.0


From ddb4bca45f08522a22ab3624ded7be5eb005d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:25 +0000
Subject: [PATCH 67/67] fix: a group joined on a breaking connection was never
 joined again

---
 lib/src/GuestTransceiver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index a4178ec..1f31e23 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -109,7 +109,12 @@ namespace dots
                 .groupName = name,
                 .event = DotsMemberEvent::join
             });
-            m_joinedGroups.insert(std::string(name));
+
+            // note: the connection might have been closed while transmitting
+            if (m_hostConnection != nullptr)
+            {
+                m_joinedGroups.insert(std::string(name));
+            }
         }
     }
 
-- 
2.43.0

